"""C59 further alignment algorithms and entry points"""
import time
from hypothesis import strategies as st
import gen, build, ref, nets
from core import Unit, require, req_eq
from props import c32, c33
from props.c32 import tr, K

META = dict(
    title="Anti-, multi-, all-optimal and approximated alignments are what they claim",
    statement="Anti-alignments and multi-alignments are firing sequences of the net from the initial to the final marking whose reported cost, precision and maximal distance are the (discounted) edit distances between that run and the variants of the log. The generators of optimal alignments yield only valid alignments of minimal cost, and approximated process tree alignments are valid alignments costing at least the optimum (exactly the optimum when no split is allowed), with the cost and fitness of their moves. "
              "Aligning or replaying a variant, a list or a dictionary of variants, or a serialized model gives the results of aligning the corresponding traces, and enriching a log with alignments annotates exactly the synchronously aligned events with their transition.",
    over=["inputs"], quant="generated bounded nets and process trees with noisy traces and user-given parameters",
    why="tests call few of these entry points (anti- and multi-alignments crashed on every log) and never compare their results with the definition",
    files=["pm4py/algo/conformance/antialignments", "pm4py/algo/conformance/multialignments", "pm4py/algo/conformance/alignments/petri_net/variants", "pm4py/algo/conformance/alignments/process_tree/variants/approximated", "pm4py/algo/conformance/alignments/petri_net/utils/log_enrichment.py", "pm4py/algo/conformance/tokenreplay/variants/token_replay.py", "pm4py/objects/petri_net/utils/align_utils.py"],
    mech=[("discountedEditDistance", "pm4py/objects/petri_net/utils/align_utils.py"), ("reconstruct_alignment_generator", "pm4py/algo/conformance/alignments/petri_net/variants/generator_dijkstra_no_heuristics.py"), ("__approximate_alignment_for_trace", "pm4py/algo/conformance/alignments/process_tree/variants/approximated/matrix_lp.py"), ("apply_from_variants_list", "pm4py/algo/conformance/alignments/petri_net/variants/state_equation_a_star.py")],
    limits="Optimality is claimed for multi-alignments of nets with finitely many runs, not for anti-alignments (documented as an approximation), nor completeness of the generators. Activities whose label starts with 'n' or contains 'tau'/'skip' count as invisible in the discounted distances and stay outside the domain.")


def dist(run, v, th):
    """edit distance without substitutions; an operation after k consumed letters costs th**-k; silent letters of the run are free"""
    n, m = len(run), len(v)
    D = [[0.0] * (m + 1) for _ in range(n + 1)]
    for i in range(n + 1):
        for j in range(m + 1):
            if i == j == 0:
                continue
            o = []
            w = 1.0 if th is None else float(th) ** -(i + j - 1)
            if i:
                o.append(D[i - 1][j] + (0 if run[i - 1] is None else w))
            if j:
                o.append(D[i][j - 1] + w)
            if i and j and run[i - 1] is not None and run[i - 1] == v[j - 1]:
                o.append(D[i - 1][j - 1])
            D[i][j] = min(o)
    return D[n][m]


near = lambda a, b: abs(a - b) <= 1e-7 * max(1, abs(a), abs(b))


# distances
@st.composite
def dist_case(draw):
    a = st.lists(st.sampled_from([None, "a", "b", "c", "d"]), max_size=7)
    b = st.lists(st.sampled_from("abcd"), max_size=7)
    return dict(run=draw(a), v=draw(b), th=draw(st.sampled_from([2, 3, 1.5, 4])))


def chk_dist(case, ctx):
    from pm4py.objects.petri_net.utils import align_utils as au
    run, v, th = case["run"], case["v"], case["th"]
    ctx.nontrivial(len(run) >= 2 and len(v) >= 2 and 0 < len(set(run) & set(v)))
    n, d = au.discountedEditDistance(list(run), list(v), th)
    req_eq(n, len(run) + len(v), "size of the alignment")
    require(near(d, dist(run, v, th)), "discounted distance of %r and %r (%s): got %r, expected %r", run, v, th, d, dist(run, v, th))
    got = au.levenshtein(list(run), list(v))
    exp = dist(run, v, None)
    req_eq(got, exp, "edit distance of %r and %r" % (run, v))


@st.composite
def anti_case(draw):
    s = draw(st.one_of(nets.tree_net(depth=3, max_leaves=5), nets.tree_net(depth=2, max_leaves=5, tau=False), nets.conserving_net(max_p=4, max_t=4)))
    return dict(net=s, traces=draw(nets.walks(s, n=(1, 4))), dup=draw(st.integers(0, 2)), par=draw(st.sampled_from([{}, {"exponent": 3}, {"epsilon": 0.1}, {"exponent": 1.5, "epsilon": 0.01}, {"marking_limit": 2}, {"marking_limit": 1}])), df=draw(st.booleans()))


def runs(r, cap=150):
    """label sequences of all runs, None if there are too many (or infinitely many)"""
    out, todo = [], [(r.im, ())]
    while todo:
        m, w = todo.pop()
        if len(w) > 10 or len(out) > cap or len(todo) > 2000:
            return None
        if m == r.fm:
            out.append(w)
            continue
        todo += [(r.fire(m, k), w + (r.trans[k][0],)) for k in r.enabled(m)]
    return out


def chk_anti(case, ctx):
    from pm4py.algo.conformance.antialignments import algorithm as AA
    from pm4py.algo.conformance.multialignments import algorithm as MA
    r = c32.usable(case, ctx)
    if r is None:
        return
    trs = [list(t) for t in case["traces"]]
    trs += trs[:case["dup"]]
    idx = {n: i for i, (n, l) in enumerate(case["net"]["trans"])}
    par = dict(case["par"])
    R = runs(r)
    if not R:
        par.setdefault("marking_limit", 3)
    th, eps = par.get("exponent", 2), par.get("epsilon", 0.005)
    for name, A in (("anti", AA), ("multi", MA)):
        net, im, fm, ps, ts = build.net(case["net"])
        log = build.variants_df(trs) if case["df"] and all(trs) else build.variants_log(trs)
        res = A.apply(log, net, im, fm, parameters=dict(par))
        run = res[name + "-alignment"]
        m = r.im
        for t in run:
            k = idx[t.name]
            require(k in r.enabled(m), "%s: %s is not enabled", name, t)
            m = r.fire(m, k)
        require(m == r.fm, "%s: the final marking is not reached by %r", name, run)
        lab = [t.label for t in run]
        vs = sorted(set(map(tuple, trs)))
        if lab:
            if name == "anti":
                exp = -min(dist(lab, v, th) for v in vs) / (1 + eps) ** len(lab)
                require(near(res["cost"], exp), "anti: cost of %r is %r, expected %r", lab, res["cost"], exp)
                exp = 1 - min(dist(lab, v, None) / (len(v) + len(lab)) for v in vs) / (1 + eps) ** len(lab)
                require(near(res["precision"], exp), "anti: precision of %r is %r, expected %r", lab, res["precision"], exp)
            else:
                exp = max(dist(lab, v, th) for v in vs)
                require(near(res["cost"], exp), "multi: cost of %r is %r, expected %r", lab, res["cost"], exp)
                req_eq(res["max_distance_to_log"], max(dist(lab, v, None) for v in vs), "multi: maximal distance of %r" % lab)
                if R and "marking_limit" not in par:
                    ctx.label("optimality of multi-alignments")
                    best = min(max(dist(w, v, th) for v in vs) for w in R)
                    require(near(res["cost"], best), "multi: cost of %r is %r, the best run has %r", lab, res["cost"], best)
            ctx.nontrivial(len(vs) >= 2 and len(lab) >= 2 and len(case["net"]["trans"]) >= 3)


# generators of optimal alignments
def chk_gen(case, ctx):
    from pm4py.algo.conformance.alignments.petri_net.variants import generator_dijkstra_no_heuristics as G1, generator_dijkstra_less_memory as G2
    r = c32.usable(case, ctx)
    if r is None:
        return
    net, im, fm, ps, ts = build.net(case["net"])
    for t in case["traces"]:
        t = t[:5]
        exp = ref.align_cost(r, t, move_log=lambda a: K, move_model=lambda l, k: K if l else 1)
        dev = ref.align_cost(r, t)
        # the number of optimal alignments is exponential in the concurrency of the net
        for G in (G1, G2) if len(case["net"]["trans"]) + len(t) <= 11 else (G2,):
            for desc in (True, False):
                name = "%s %s" % ("no heuristics" if G is G1 else "less memory", t)
                seen, n, t0 = set(), 0, time.time()
                for res in G.apply(tr(t), net, im, fm, parameters={"max_align_time_trace": 1, **({"ret_tuple_as_trans_desc": True} if desc else {})}):
                    al = [tuple(x) for x in res["alignment"]]
                    if desc:
                        c32.replay(r, case, al, t, name)
                        cost = sum(K if (b[1] == ">>" or (b[0] == ">>" and b[1] is not None)) else 0 for a, b in al)
                    else:
                        c32.plain_ok(r, al, t, name)
                        cost = sum(K if (b == ">>" or (a == ">>" and b is not None)) else 0 for a, b in al)
                    req_eq(cost // K, dev, name + ": deviations of a generated alignment")
                    if G is G1:
                        require(abs(res["cost"] - exp) < 1e-3, "%s: cost %s, optimal %s", name, res["cost"], exp)
                    else:
                        req_eq(res["cost"] // K, dev, name + ": cost")
                        require(tuple(al) not in seen, "%s: alignment %r is generated twice", name, al)
                    if desc:
                        require(tuple(al) not in seen, "%s: alignment %r is generated twice", name, al)
                    seen.add(tuple(al))
                    n += 1
                    if n >= 40:
                        break
                if n == 0 and time.time() - t0 > 0.9:
                    ctx.label("time limit")
                    continue
                require(n >= 1, "%s: no alignment is generated", name)
                ctx.nontrivial(n >= 2 and dev >= 1)


# entry points
def same(x, y, what):
    req_eq(([tuple(a) for a in x["alignment"]], x["cost"]), ([tuple(a) for a in y["alignment"]], y["cost"]), what)


def chk_entry(case, ctx):
    from pm4py.algo.conformance.alignments.petri_net import algorithm as A, variants as V
    from pm4py.algo.conformance.alignments.petri_net.utils import log_enrichment
    from pm4py.algo.conformance.tokenreplay.variants import token_replay
    from pm4py.objects.petri_net.exporter.variants import pnml
    r = c32.usable(case, ctx)
    if r is None:
        return
    net, im, fm, ps, ts = build.net(case["net"])
    trs = [tuple(t) for t in case["traces"]]
    vl = [(t, 1 + i) for i, t in enumerate(dict.fromkeys(trs))]
    ctx.nontrivial(len(vl) >= 2 and any(len(t) >= 2 for t in trs))
    which = case["which"]
    mods = {"STATE_EQUATION_A_STAR": V.state_equation_a_star, "TWEAKED_STATE_EQUATION_A_STAR": V.tweaked_state_equation_a_star, "DIJKSTRA_NO_HEURISTICS": V.dijkstra_no_heuristics, "DIJKSTRA_LESS_MEMORY": V.dijkstra_less_memory}
    key = "a" if case["key"] else "concept:name"
    par = {"pm4py:param:activity_key": key}
    from pm4py.objects.log.obj import Trace, Event
    mk = lambda t: Trace([Event({key: a}) for a in t])
    xml = pnml.export_petri_as_string(net, im, fm)
    M = mods[which]
    c = lambda res: K * (res["cost"] // K) if which == "DIJKSTRA_LESS_MEMORY" else res["cost"]
    exp = {}
    for t, _ in vl:
        e = ref.align_cost(r, t, move_log=lambda a: K, move_model=lambda l, k: K if l else 1)
        exp[t] = K * ref.align_cost(r, t) if which == "DIJKSTRA_LESS_MEMORY" else e
    def judge(res, t, what):
        require(res is not None, "%s: no result", what)
        require(abs(c(res) - exp[t]) < 1e-3, "%s: cost %r of %r, optimal %r", what, res["cost"], t, exp[t])
        c32.plain_ok(r, res["alignment"], t, what)
    for t, _ in vl:
        judge(M.apply_from_variant(t, net, im, fm, parameters=dict(par)), t, "alignment of a variant")
        judge(M.apply(mk(t), net, im, fm, parameters=dict(par)), t, "alignment of a trace")
        if t and all("," not in a for a in t):
            judge(M.apply_from_variant(",".join(t), net, im, fm, parameters=dict(par)), t, "alignment of a variant in text")
    outs = [("list of variants", M.apply_from_variants_list(vl, net, im, fm, parameters=dict(par)))]
    if im and fm:
        outs.append(("list of variants and a serialized net", M.apply_from_variants_list_petri_string(vl, xml, parameters=dict(par))))
    if hasattr(M, "apply_from_variants_dictionary"):
        outs.append(("dictionary of variants", M.apply_from_variants_dictionary(dict(vl), net, im, fm, parameters=dict(par))))
    for what, d in outs:
        req_eq(sorted(d), sorted(t for t, _ in vl), "variants aligned by " + what)
        for t in d:
            judge(d[t], t, what)
    # worst cost
    e = K * ref.align_cost(r, ()) if which == "DIJKSTRA_LESS_MEMORY" else ref.align_cost(r, (), move_model=lambda l, k: K if l else 1)
    b = M.get_best_worst_cost(net, im, fm, parameters=dict(par))
    require(abs((K * (b // K) if which == "DIJKSTRA_LESS_MEMORY" else b) - e) < 1e-3, "cost of the shortest run: got %r, expected %r", b, e)
    # enrichment
    from pm4py.objects.log.obj import EventLog
    log = EventLog([mk(t) for t in trs])
    als = A.apply(log, net, im, fm, variant=A.Variants["VERSION_" + which], parameters={"ret_tuple_as_trans_desc": True, **par})
    target = "tid" if case["target"] else "@@transition_id"
    p2 = {"enable_deepcopy": case["copy"]}
    if case["target"]:
        p2["target_attribute"] = "tid"
    en = log_enrichment.apply(log, als, parameters=p2)
    require((en is log) != bool(case["copy"]), "copying of the log")
    if case["copy"]:
        require(not any(target in e for t in log for e in t), "the original log is enriched")
    labs = {n: l for n, l in case["net"]["trans"]}
    for t, x, al in zip(trs, en, als):
        sync = [m[0][1] if m[0][1] != ">>" else None for m in al["alignment"] if m[0][0] != ">>"]
        req_eq([e.get(target) for e in x], sync, "transitions assigned to the events of %r" % (t,))
        req_eq([e[key] for e in x], list(t), "activities")
        for e in x:
            require(target not in e or labs[e[target]] == e[key], "event %r is assigned a transition with another label", dict(e))
    # token-based replay
    if case["tbr"]:
        f = lambda res: [(x["trace_is_fit"], x["missing_tokens"], x["consumed_tokens"], x["remaining_tokens"], x["produced_tokens"]) for x in res]
        base = f(token_replay.apply(EventLog([mk(t) for t, _ in vl]), net, im, fm, parameters=dict(par)))
        req_eq(f(token_replay.apply_variants_list(vl, net, im, fm, parameters=dict(par))), base, "replay of a list of variants")
        req_eq(f(token_replay.apply_variants_dictionary({t: [0] * n for t, n in vl}, net, im, fm, parameters=dict(par))), base, "replay of a dictionary of variants")
        vis = [l for _, l in case["net"]["trans"]]
        if im and fm and None not in vis and len(set(vis)) == len(vis):
            # (the replay of other nets depends on the order of the transitions)
            req_eq(f(token_replay.apply_variants_list_petri_string(vl, xml, parameters=dict(par))), base, "replay with a serialized net")


@st.composite
def entry_case(draw):
    c = draw(c32.case_st(n=(1, 3), custom=False))
    c.update(which=draw(st.sampled_from(c32.VAR)), key=draw(st.booleans()), target=draw(st.booleans()), copy=draw(st.booleans()), tbr=draw(st.booleans()))
    return c


# approximated alignments of process trees
@st.composite
def approx_case(draw):
    t = draw(gen.tree(depth=draw(st.integers(1, 3)), ops=draw(st.sampled_from([("->", "X", "+", "*"), ("->", "X"), ("->", "+"), ("->", "*", "X")])), dup=draw(st.sampled_from([False, False, True])), max_leaves=6))
    wrap = draw(st.sampled_from([None, None, "tau", "redo", "body"]))
    if wrap:
        t = ["*", t, None] if wrap == "tau" else ["*", t, "z"] if wrap == "redo" else ["*", None, t]
    trs = [draw(st.lists(st.sampled_from(list("abcdz")), max_size=6)) for _ in range(draw(st.integers(1, 2)))]
    return dict(t=t, trs=trs, noise=draw(st.lists(st.tuples(st.integers(0, 9), st.sampled_from("-+s"), st.sampled_from("abcdz")), max_size=2)), seed=draw(st.integers(0, 99)), tl=draw(st.sampled_from([None, 1, 1, 2, 3, 99])), th=draw(st.sampled_from([None, 1, 1, 2, 99])))


def hash_(w, seed):
    return sum((ord(a[0]) * 31 + i) * (seed + 7 * i) for i, a in enumerate(w)) % 101


def chk_approx(case, ctx):
    from pm4py.algo.conformance.alignments.process_tree.variants.approximated import matrix_lp as M
    from pm4py.algo.conformance.alignments.process_tree import algorithm as PA
    from pm4py.objects.process_tree.exporter.variants import ptml
    t = case["t"]
    L = ref.tree_lang(t, 6)
    trs = list(case["trs"])
    for w in sorted(L, key=lambda w: (-min(len(w), 4), hash_(w, case["seed"])))[:2]:
        trs += [c33.mutate(w, case["noise"]), list(w), list(w)[:-1], list(w)[1:]]
    trs += trs[:1]
    pt = build.tree(t)
    before = build.untree(pt)
    r = nets.SNet(nets.tree_spec(c33.expand(t)))
    empty = ref.align_cost(r, [])
    par = {}
    if case["tl"] is not None:
        par["max_trace_length"] = case["tl"]
    if case["th"] is not None:
        par["max_process_tree_height"] = case["th"]
    el = build.variants_log(trs)
    res = M.apply(el, pt, parameters=dict(par))
    req_eq(build.untree(pt), before, "tree after the alignment")
    req_eq(len(res), len(trs), "number of alignments")
    exact = case["tl"] == 99 or case["th"] == 99
    nn = 0
    for w, x in zip(trs, res):
        if x is None:
            ctx.label("no alignment")
            require(not exact, "no alignment of %r", w)
            continue
        al = x["alignment"]
        c = c33.valid(al, w, lambda a, b: 1 if b is not None else 0, "approximated")
        req_eq(x["cost"], c, "cost of %r" % al)
        vis = [b for a, b in al if b != ">>" and b is not None]
        require(ref.align_cost(r, vis) == 0, "the model side %r of the alignment of %r is no execution of the tree", vis, w)
        opt = ref.align_cost(r, w)
        require(c >= opt, "alignment below the optimal cost")
        if exact or len(w) <= (case["tl"] or 1):
            req_eq(c, opt, "cost of the alignment of %r" % (w,))
        require(near(x["fitness"], 1 - c / (len(w) + empty) if c else 1), "fitness %r of %r with cost %r", x["fitness"], w, c)
        nn += len(w) >= 3 and c > opt or len(w) >= 3 and not exact
    ctx.nontrivial(nn and any(x and x["cost"] for x in res))
    if any(x is None for x in res):
        return
    vl = [(tuple(w), 1) for w in trs]
    d = M.apply_from_variants_list(vl, pt, parameters=dict(par))
    cost = {tuple(w): x["cost"] for w, x in zip(trs, res)}
    req_eq({v: x["cost"] for v, x in d.items()}, cost, "costs of a list of variants")
    one = M.apply(el[0], pt, parameters=dict(par))
    req_eq(one[0]["cost"], res[0]["cost"], "cost of a single trace")
    if case["seed"] % 3 == 0:
        d = M.apply_from_variants_tree_string(vl, ptml.export_tree_as_string(pt), parameters=dict(par))
        req_eq(sorted(d), sorted(cost), "variants aligned with a serialized tree")
        if exact:
            req_eq({v: x["cost"] for v, x in d.items()}, cost, "costs with a serialized tree")
        res2 = PA.apply(el, pt, variant=PA.Variants.APPROXIMATED_MATRIX_LP, parameters=dict(par))
        req_eq([x["cost"] for x in res2], [x["cost"] for x in res], "costs through the factory")


UNITS = [Unit("distance", dist_case(), chk_dist, quick=400, rule="both sequences have two letters and share one"),
         Unit("anti-multi", anti_case(), chk_anti, quick=250, rule="two variants, run of at least two transitions, net of at least three transitions"),
         Unit("generators", c32.case_st(n=(1, 2), custom=False), chk_gen, quick=100, rule="at least two optimal alignments with a deviation"),
         Unit("entry", entry_case(), chk_entry, quick=150, rule="two variants, one with two events"),
         Unit("approximated", approx_case(), chk_approx, quick=140, rule="trace of three events aligned with splitting, and a deviation")]
