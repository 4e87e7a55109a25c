"""C18 playout"""
import math, random
from collections import Counter
import numpy as np
from hypothesis import strategies as st
import gen, build, ref, nets
from core import Unit, require, req_eq
import pm4py

META = dict(
    title="Playing out a model yields executions of that model",
    statement="Extensive playout of a Petri net or process tree returns exactly the model's traces within the length bounds, each once, and playout of a directly-follows graph returns exactly its paths within the occurrence bound with their probabilities. "
              "Random playouts (basic, stochastic, top-bottom, performance) return the requested number of traces, each an execution of the model, only firing what is enabled, ending as requested, and reach every execution with positive probability; the played-out model is unchanged. "
              "Generated process trees respect the requested size, operators, silent and duplicate settings.",
    over=["inputs"], quant="generated process trees (all operators), sound and mutated nets with weights, directly-follows graphs, and playout parameters",
    why="tests play out a couple of models and look at nothing but the absence of crashes",
    files=["pm4py/algo/simulation/playout", "pm4py/algo/simulation/tree_generator", "pm4py/objects/process_tree/semantics.py", "pm4py/sim.py"],
    mech=[("extensive net playout", "pm4py/algo/simulation/playout/petri_net/variants/extensive.py"), ("extensive tree playout", "pm4py/algo/simulation/playout/process_tree/variants/extensive.py"), ("graph playout", "pm4py/algo/simulation/playout/dfg/variants/classic.py"), ("tree semantics", "pm4py/objects/process_tree/semantics.py")],
    limits="'Reach every execution' is checked on models with at most four traces by 400 draws. Nets are bounded; the loop bound of the extensive tree playout is set beyond the length bound when comparing exactly.")
L = 5


def labels_of(log, key="concept:name"):
    return [tuple(e[key] for e in t) for t in log]


def check_cases(log, n, what, key="concept:name"):
    req_eq([t.attributes[key] for t in log], [str(i) for i in range(n)], what + ": case identifiers")


def increasing(log, what):
    ts = [e["time:timestamp"] for t in log for e in t]
    require(all(a < b for a, b in zip(ts, ts[1:])), "%s: timestamps do not increase", what)


# ---- nets
@st.composite
def net_st(draw):
    sound = draw(st.sampled_from([True, True, False]))
    s = draw(nets.tree_net(depth=3, max_leaves=6)) if sound else draw(nets.conserving_net())
    return {"net": s, "sound": sound, "L": draw(st.integers(1, 5)), "seed": draw(st.integers(0, 999)), "n": draw(st.integers(1, 12)), "fm": draw(st.sampled_from([True, True, False])), "w": draw(st.lists(st.sampled_from([0, 1, 2, 5]), min_size=14, max_size=14))}


def check_net(case, ctx):
    from pm4py.algo.simulation.playout.petri_net import algorithm as A
    from pm4py.algo.simulation.playout.petri_net.variants import extensive, basic_playout
    net, im, fm, ps, ts = build.net(case["net"])
    r = ref.RNet(net, im, fm)
    r.reach(cap=3000, bound=30)
    random.seed(case["seed"])
    np.random.seed(case["seed"])
    before = (sorted((t.name, str(t.label)) for t in net.transitions), len(net.arcs), Counter(im), Counter(fm))
    k = case["L"]
    e = ref.rnet_lang(r, k, cap=8000)
    if len(e) > 400:
        raise ref.Overflow()
    log = A.apply(net, im, fm, variant=A.Variants.EXTENSIVE, parameters={extensive.Parameters.MAX_TRACE_LENGTH: k})
    req_eq(sorted(labels_of(log)), sorted(e), "extensive playout up to length %d" % k)
    check_cases(log, len(e), "extensive playout")
    increasing(log, "extensive playout")
    for seq in A.apply(net, im, fm, variant=A.Variants.EXTENSIVE, parameters={"maxTraceLength": k, "return_elements": True}):
        m = r.im
        for mk, t in zip(seq[::2], seq[1::2]):
            req_eq(r.mk(mk), m, "marking on the way")
            j = [i for i, x in enumerate(r.trans) if x[3] is t][0]
            require(j in r.enabled(m), "transition %s is not enabled", t)
            m = r.fire(m, j)
        req_eq(m, r.fm, "marking at the end")
    # deadlocks in place of the final marking
    live = ref.RNet(net, im, fm)
    dead = {m for m in r.reach(cap=3000, bound=30)[0] if not r.enabled(m)}
    if dead and case["L"] % 2:
        exp = Counter()
        for d in dead:
            live.fm = d
            exp.update(ref.rnet_lang(live, k, cap=8000))
        if sum(exp.values()) < 400:
            log = A.apply(net, im, None, variant=A.Variants.EXTENSIVE, parameters={"maxTraceLength": k})
            req_eq(Counter(labels_of(log)), exp, "extensive playout to the deadlocks")
    # random playouts
    if case["sound"]:
        mx = case["L"] * 3
        import networkx as nx
        acyclic = nx.is_directed_acyclic_graph(nx.DiGraph([(a, b) for a, _, b in r.reach(cap=3000, bound=30)[1]]))
        smap = {}
        from pm4py.objects.random_variables.random_variable import RandomVariable
        for i, t in enumerate(sorted(net.transitions, key=lambda t: t.name)):
            rv = RandomVariable()
            rv.read_from_string("EXPONENTIAL", "1.0")
            rv.set_weight(case["w"][i % len(case["w"])] or (0 if acyclic else 1))  # a loop whose exits have weight zero never ends
            smap[t] = rv
        zero = {t for t in smap if smap[t].get_weight() == 0}
        for what, variant, par in (("basic", A.Variants.BASIC_PLAYOUT, {}), ("complete", A.Variants.BASIC_PLAYOUT, {"add_only_if_fm_is_reached": True}), ("stochastic", A.Variants.STOCHASTIC_PLAYOUT, {"smap": smap})):
            f = fm if case["fm"] or what != "basic" else None
            p = dict(par, noTraces=case["n"], maxTraceLength=mx)
            key = "return_visited_elements"
            runs = A.apply(net, im, f, variant=variant, parameters=dict(p, **{key: True}))
            ends = 0
            for seq in runs:
                m, prev, seen = r.im, None, 0
                for x in seq:
                    if x in net.transitions:
                        j = [i for i, y in enumerate(r.trans) if y[3] is x][0]
                        require(j in r.enabled(m), "%s playout: transition %s is not enabled in %s", what, x, m)
                        if what == "stochastic" and x in zero:
                            require(all(r.trans[i][3] in zero for i in r.enabled(m)) , "stochastic playout: transition %s of weight zero was picked", x)
                        m = r.fire(m, j)
                        seen += x.label is not None
                    else:
                        req_eq(r.mk(x), m, "%s playout: marking" % what)
                require(m == r.fm or not r.enabled(m) or seen == mx, "%s playout: run %s stopped in %s", what, [str(x) for x in seq], m)
                require(seen <= mx, "%s playout: run longer than %d", what, mx)
                ends += m == r.fm
            if what == "complete":
                require(ends == len(runs), "runs that do not end in the final marking")
                require(len(runs) <= case["n"], "%d runs instead of %d", len(runs), case["n"])
            else:
                req_eq(len(runs), case["n"], what + " playout: number of runs")
            log = A.apply(net, im, f, variant=variant, parameters=dict(p))
            if what != "complete":
                check_cases(log, case["n"], what + " playout")
            increasing(log, what)
            for t in labels_of(log):
                require(len(t) == mx or ref.net_accepts(r, t), "%s playout: trace %s is not in the language", what, t)
        if acyclic and case["seed"] % 3 == 0:
            e = ref.rnet_lang(r, 20, cap=8000)
            if len(e) <= 4:
                got = set(labels_of(pm4py.play_out(net, im, fm, parameters={"noTraces": 400})))
                require(got == e, "basic playout of 400 traces gave %s instead of %s", sorted(got), sorted(e))
            ctx.label("all traces reached")
    req_eq((sorted((t.name, str(t.label)) for t in net.transitions), len(net.arcs), Counter(im), Counter(fm)), before, "model after the playout")
    ctx.nontrivial(len(e) > 1)
    ctx.label("sound" if case["sound"] else "any")


# ---- trees
@st.composite
def tree_st(draw):
    full = draw(st.booleans())
    t = draw(gen.tree(depth=3, ops=("->", "X", "+", "*", "O", "<>") if full else ("->", "X", "+", "*"), max_leaves=6))
    return {"tree": t, "min": draw(st.integers(0, 3)), "max": draw(st.integers(0, 5)), "seed": draw(st.integers(0, 999)), "n": draw(st.integers(1, 10))}


def check_tree(case, ctx):
    from pm4py.algo.simulation.playout.process_tree import algorithm as A
    t = case["tree"]
    tree = build.tree(t)
    random.seed(case["seed"])
    exts = not (ref.tree_has(t, "O") or ref.tree_has(t, "<>"))
    mn, mx = case["min"], case["max"]
    if exts:
        e = {w for w in ref.tree_lang(t, mx) if len(w) >= mn}
        if len(e) > 500:
            raise ref.Overflow()
        par = {"min_trace_length": mn, "max_trace_length": mx, "max_loop_occ": 2 * mx + 2}
        log = A.apply(tree, variant=A.Variants.EXTENSIVE, parameters=dict(par))
        req_eq(sorted(labels_of(log)), sorted(e), "extensive playout of %s with lengths %d..%d" % (tree, mn, mx))
        req_eq(set(A.apply(tree, variant=A.Variants.EXTENSIVE, parameters=dict(par, return_set_strings=True))), e, "extensive playout as strings")
        shortest = min(map(len, ref.tree_lang(t, 7)), default=None)
        if shortest is not None:
            d = set(labels_of(A.apply(tree, variant=A.Variants.EXTENSIVE)))
            full = {w for w in ref.tree_lang(t, shortest) if w}
            require(d <= full and (shortest > 0 or not d), "default extensive playout of %s: %s are not shortest traces", tree, sorted(d - full)[:3])
            if not ref.tree_has(t, "*"):
                req_eq(d, full, "default extensive playout of %s" % tree)
    for v in (A.Variants.BASIC_PLAYOUT, A.Variants.TOPBOTTOM):
        log = A.apply(tree, variant=v, parameters={"num_traces": case["n"]})
        req_eq(len(log), case["n"], "%s: number of traces" % v.name)
        words = labels_of(log)
        lang = ref.tree_lang(t, max([len(w) for w in words if len(w) <= 8], default=0))
        for w in words:
            require(len(w) > 8 or w in lang, "%s playout of %s gives %s", v.name, tree, w)
        req_eq(build.untree(tree), t, "tree after the playout")
        if v is A.Variants.BASIC_PLAYOUT:
            check_cases(log, case["n"], "basic playout")
            increasing(log, "basic playout")
        if not ref.tree_has(t, "*") and case["seed"] % 3 == 0:
            e = ref.tree_lang(t, 7)
            if 1 < len(e) <= 4:
                got = set(labels_of(A.apply(tree, variant=v, parameters={"num_traces": 400})))
                require(got == e, "%s playout: 400 traces of %s never gave %s", v.name, tree, sorted(e - got))
                ctx.label("all traces reached")
    ctx.nontrivial(isinstance(t, list) and any(isinstance(c, list) for c in t[1:]))
    ctx.label("exact" if exts else "all operators")


# ---- directly-follows graphs
@st.composite
def dfg_st(draw):
    n = draw(st.integers(1, 4))
    acts = "abcd"[:n]
    pairs = [(x, y) for x in acts for y in acts]
    edges = draw(st.lists(st.sampled_from(pairs), max_size=6, unique=True))
    return {"d": [[x, y, draw(st.integers(1, 6))] for x, y in edges], "s": {a: draw(st.integers(1, 4)) for a in draw(st.lists(st.sampled_from(acts), min_size=1, unique=True))},
            "e": {a: draw(st.integers(1, 4)) for a in draw(st.lists(st.sampled_from(acts), min_size=1, unique=True))}, "occ": draw(st.integers(1, 3)), "mv": draw(st.integers(1, 12)), "seed": draw(st.integers(0, 999)), "n": draw(st.integers(1, 8))}


def paths(d, s, e, occ, cap=2000):
    """all paths with at most occ occurrences of every activity -> probability"""
    out = {}
    for a in d:
        out.setdefault(a[0], {})[a[1]] = d[a]
    tot = {x: sum(out.get(x, {}).values()) + e.get(x, 0) for x in {y for a in d for y in a} | set(s) | set(e)}
    res, todo = {}, [((a,), s[a] / sum(s.values())) for a in s]
    while todo:
        w, p = todo.pop()
        x = w[-1]
        if x in e:
            res[w] = p * e[x] / tot[x]
        for y, k in out.get(x, {}).items():
            if w.count(y) < occ:
                todo.append((w + (y,), p * k / tot[x]))
        if len(res) + len(todo) > cap:
            raise ref.Overflow()
    return res


def check_dfg(case, ctx):
    from pm4py.algo.simulation.playout.dfg import algorithm as A
    from pm4py.algo.simulation.playout.dfg.variants import classic
    d, s, e = {(x, y): k for x, y, k in case["d"]}, dict(case["s"]), dict(case["e"])
    exp = paths(d, s, e, case["occ"])
    copies = (dict(d), dict(s), dict(e))
    log = A.apply(d, s, e, parameters={"max_no_occ_per_activitiy": case["occ"]})
    got = {tuple(x["concept:name"] for x in t): t.attributes["probability"] for t in log}
    req_eq(len(got), len(log), "number of distinct traces")
    tiny = {w for w in exp if exp[w] < 1e-9}
    require(set(exp) - tiny <= set(got) <= set(exp), "paths of the graph: missing %s extra %s", sorted(set(exp) - set(got))[:3], sorted(set(got) - set(exp))[:3])
    for w in got:
        require(abs(got[w] - exp[w]) < 1e-9, "probability of %s: %s, expected %s", w, got[w], exp[w])
        ev = build.variants_log([w])[0]
        require(abs(classic.get_trace_probability(ev, d, s, e) - exp[w]) < 1e-9, "probability of the trace %s", w)
    ps = [t.attributes["probability"] for t in log]
    require(all(a >= b for a, b in zip(ps, ps[1:])), "traces are not sorted by probability")
    check_cases(log, len(log), "graph playout")
    # the most likely variants
    mv = case["mv"]
    var = A.apply(d, s, e, parameters={"max_no_occ_per_activitiy": case["occ"], "max_no_variants": mv, "return_variants": True})
    require(len(var) <= mv and set(var) <= set(exp) and (len(var) == mv or set(var) >= set(exp) - tiny), "%d variants returned with a limit of %d and %d paths", len(var), mv, len(exp))
    for w, k in var.items():
        require(abs(k - exp[w] * mv) < 1 + 1e-6 and k >= exp[w] * mv - 1e-6, "occurrences of %s: %s of %d with probability %s", w, k, mv, exp[w])
    for w in ((), ("zz",), ("a", "zz")):
        if w:
            req_eq(classic.get_trace_probability(build.variants_log([w])[0], d, s, e), 0.0, "probability of a trace out of the graph")
    # performance playout: needs the end to be reachable from everywhere
    succ = {}
    for x, y in d:
        succ.setdefault(x, set()).add(y)
    live = set(e)
    while True:
        more = {x for x in succ if succ[x] & live} - live
        if not more:
            break
        live |= more
    seen = set(s)
    while True:
        more = {y for x in seen for y in succ.get(x, ())} - seen
        if not more:
            break
        seen |= more
    if seen <= live:
        np.random.seed(case["seed"])
        perf = {k: (0 if (i + case["seed"]) % 3 == 0 else 10 * (i + 1)) for i, k in enumerate(sorted(d))}
        log = A.apply(d, s, e, variant=A.Variants.PERFORMANCE, parameters={"performance_dfg": perf, "num_traces": case["n"], "case_arrival_rate": 5})
        req_eq(len(log), case["n"], "performance playout: number of traces")
        for i, t in enumerate(log):
            w = [x["concept:name"] for x in t]
            require(w and w[0] in s and w[-1] in e and all(p in d for p in zip(w, w[1:])), "performance playout: %s is no path", w)
            ts = [x["time:timestamp"].timestamp() for x in t]
            require(abs(ts[0] - (10000000 + 5 * (i + 1))) < 1e-3, "performance playout: start of case %d", i)
            for (a, b), (x, y) in zip(zip(w, w[1:]), zip(ts, ts[1:])):
                require(y == x if perf[(a, b)] == 0 else y > x, "performance playout: time from %s to %s", a, b)
    req_eq((d, s, e), copies, "graph after the playout")
    ctx.nontrivial(len(exp) > 2)


# ---- tree generator
@st.composite
def gen_st(draw):
    mn = draw(st.integers(1, 8))
    mode = draw(st.integers(mn, mn + 6))
    ops = [draw(st.sampled_from([0, 0, 0.2, 0.5, 1.0])) for _ in range(5)]
    if not any(ops):
        ops[draw(st.integers(0, 4))] = 1.0
    return {"min": mn, "mode": mode, "max": draw(st.integers(mode, mode + 5)), "ops": ops, "silent": draw(st.sampled_from([0, 0, 0.3, 0.9])), "dup": draw(st.sampled_from([0, 0, 0.3])), "seed": draw(st.integers(0, 9999)), "n": draw(st.integers(1, 3))}


def check_gen(case, ctx):
    random.seed(case["seed"])
    np.random.seed(case["seed"])
    par = {"min": case["min"], "mode": case["mode"], "max": case["max"], "silent": case["silent"], "duplicate": case["dup"], "no_models": case["n"]}
    names = ("sequence", "choice", "parallel", "or", "loop")
    par.update(dict(zip(names, case["ops"])))
    res = pm4py.generate_process_tree(parameters=par)
    res = res if isinstance(res, list) else [res]
    req_eq(len(res), case["n"], "number of generated trees")
    allowed = {o for o, w in zip(("->", "X", "+", "O", "*"), case["ops"]) if w}
    for tree in res:
        t = build.untree(tree)
        labs = ref.tree_labels(t)
        require(case["min"] <= len(labs) and len(labs) <= case["max"], "%d activities instead of %d..%d in %s", len(labs), case["min"], case["max"], tree)
        if not case["dup"]:
            require(len(set(labs)) == len(labs), "duplicate activities in %s", tree)
        ctx.nontrivial(len(labs) > 3)

        def go(x, node, parent):
            require(node.parent is parent, "parent of %s in %s", node, tree)
            if isinstance(x, list):
                require(x[0] in allowed, "operator %s of probability 0 in %s", x[0], tree)
                req_eq(len(x), 3, "children of %s" % node)
                for c, k in zip(x[1:], node.children):
                    go(c, k, node)
        go(t, tree, None)
    ctx.label("dup" if case["dup"] else "plain")


UNITS = [
    Unit("net", net_st(), check_net, quick=700, shards=4, rule="more than one trace within the bound"),
    Unit("tree", tree_st(), check_tree, quick=900, shards=3, rule="nested operators"),
    Unit("dfg", dfg_st(), check_dfg, quick=600, shards=2, rule="more than two paths"),
    Unit("gen", gen_st(), check_gen, quick=300, shards=1, rule="more than three activities"),
]
