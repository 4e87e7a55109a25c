"""C29 footprints describe the directly-follows behaviour of logs, trees and nets; footprints conformance never blames a fitting trace"""
from hypothesis import strategies as st
import gen, build, ref, nets
from props.c26 import trs_
from core import Unit, require, req_eq
import pm4py, warnings
from pm4py.algo.discovery.footprints import algorithm as fpd
from pm4py.algo.conformance.footprints import algorithm as fpc
from pm4py.algo.conformance.footprints.variants import trace_extensive

META = dict(
    title="Footprints are the directly-follows relations of logs, trees and nets",
    statement="The footprints of a log (as a whole or per trace), of a directly-follows graph, of a process tree and of a sound Petri net are its directly-follows relations - sequence for the pairs that occur in one order only, parallel for those in both - with its activities, start/end activities and, for trees, the activities of every trace and the minimum trace length. Comparing footprints reports exactly what the log has and the model lacks: a trace of the model is never blamed, and fitness, precision and the fitting check (is a trace fit?) follow.",
    over=["inputs"], quant="logs x process trees (all operators, silent and repeated labels) x sound and mutated bounded nets",
    why="tests run footprints on example logs and models; operators with skippable parts and repeated labels matter",
    oracle="directly-follows relations computed compositionally on the tree, from the state space of the net, from the traces; language membership for fitting",
    limits="Precision and fitness formulas are recomputed from the footprints; for an empty directly-follows graph fitness is not judged.",
    files=["pm4py/algo/discovery/footprints", "pm4py/algo/conformance/footprints", "pm4py/objects/process_tree/utils/bottomup.py", "pm4py/discovery.py", "pm4py/conformance.py"],
    mech=[("tree footprints", "pm4py/algo/discovery/footprints/tree/variants/bottomup.py"), ("net footprints", "pm4py/algo/discovery/footprints/petri/variants/reach_graph.py"), ("conformance", "pm4py/algo/conformance/footprints/variants/trace_extensive.py"), ("fitting check", "pm4py/conformance.py")])
warnings.simplefilter("ignore")


def rels(df):
    return {p for p in df if p[::-1] not in df}, {p for p in df if p[::-1] in df}


def chk_rel(fp, df, start, end, acts, what):
    s, p = rels(df)
    req_eq(set(fp["sequence"]), s, what + ": sequence")
    req_eq(set(fp["parallel"]), p, what + ": parallel")
    req_eq(set(fp["start_activities"]), start, what + ": start activities")
    if end is not None:
        req_eq(set(fp["end_activities"]), end, what + ": end activities")
    req_eq(set(fp["activities"]), acts, what + ": activities")


def log_df(trs):
    return {(t[i], t[i + 1]) for t in trs for i in range(len(t) - 1)}


def chk_log(case, ctx):
    trs = case["t"]
    df = log_df(trs)
    st_, en, acts = {t[0] for t in trs}, {t[-1] for t in trs}, {a for t in trs for a in t}
    el, d = build.variants_log(trs), build.variants_df(trs)
    for what, o, v in (("log", el, fpd.Variants.ENTIRE_EVENT_LOG), ("dataframe", d, fpd.Variants.ENTIRE_DATAFRAME), ("dataframe/default", d, None), ("dataframe as log", d, fpd.Variants.ENTIRE_EVENT_LOG)):
        fp = fpd.apply(o, variant=v)
        chk_rel(fp, df, st_, en, acts, what)
        req_eq(fp["min_trace_length"], min(map(len, trs)), what + ": minimum length")
        req_eq({k: int(n) for k, n in fp["dfg"].items()}, dict(ref.dfg(trs)), what + ": dfg")
    empt = [[]] if case["empty"] else []
    fps = pm4py.discover_footprints(build.variants_log(trs + empt))
    req_eq(len(fps), len(trs + empt), "number of footprints")
    for t, fp in zip(trs + empt, fps):
        chk_rel(fp, log_df([t]), set(t[:1]), set(t[-1:]), set(t), "trace %s" % t)
        req_eq(tuple(fp["trace"]), tuple(t), "trace")
        req_eq(fp["min_trace_length"], len(t), "length")
    fp = pm4py.discover_footprints(dict(ref.dfg(trs)))
    s, p = rels(df)
    req_eq((set(fp["sequence"]), set(fp["parallel"])), (s, p), "footprints of the dfg")
    req_eq(set(fp["activities"]), {a for e in df for a in e}, "activities of the dfg")
    if s and p:
        ctx.nontrivial()


# ---------------------------------------------------------------- trees
def tree_ref(t):
    """(edges, start, end, activities, always happening, minimum length, skippable)"""
    names = {}

    def relabel(x):
        if x is None:
            return None
        if isinstance(x, str):
            n = "u%d" % len(names)
            names[n] = x
            return n
        return [x[0]] + [relabel(c) for c in x[1:]]
    u = relabel(t)

    def dfg(x):
        if isinstance(x, list) and x[0] == "O":
            r = par([dfg(c) for c in x[1:]], x[1:])
            return (any(dfg(c)[0] for c in x[1:]),) + r[1:]
        if isinstance(x, list) and x[0] == "+":
            return par([dfg(c) for c in x[1:]], x[1:])
        if isinstance(x, list):
            ch = [dfg(c) for c in x[1:]]
            return comb(x[0], ch)
        return ref.tree_dfg(x)

    def par(ch, subs):
        labs = [set(ref.tree_labels(c)) - {None} for c in subs]
        e = set().union(*(c[3] for c in ch))
        e |= {(a, b) for i in range(len(ch)) for j in range(len(ch)) if i != j for a in labs[i] for b in labs[j]}
        return all(c[0] for c in ch), set().union(*(c[1] for c in ch)), set().union(*(c[2] for c in ch)), e

    def cat2(x, y):
        return (x[0] and y[0], x[1] | (y[1] if x[0] else set()), y[2] | (x[2] if y[0] else set()), x[3] | y[3] | {(a, b) for a in x[2] for b in y[1]})

    def alt(x, y):
        return (x[0] or y[0], x[1] | y[1], x[2] | y[2], x[3] | y[3])

    def comb(op, ch):
        r = ch[0]
        if op == "*":
            for _ in range(3):
                r = alt(r, cat2(cat2(r, ch[1]), ch[0]))
            return r
        for c in ch[1:]:
            r = cat2(r, c) if op == "->" else alt(r, c)
        return r

    n, s, e, ed = dfg(u)

    def avoid(x, a):
        if x is None or isinstance(x, str):
            return x != a
        v = [avoid(c, a) for c in x[1:]]
        return v[0] if x[0] == "*" else any(v) if x[0] in ("X", "O") else all(v)

    def mn(x):
        if x is None or isinstance(x, str):
            return 0 if x is None else 1
        v = [mn(c) for c in x[1:]]
        return v[0] if x[0] == "*" else min(v) if x[0] in ("X", "O") else sum(v)
    acts = set(names.values())
    m = lambda xs: {names[x] for x in xs}
    return {(names[a], names[b]) for a, b in ed}, m(s), m(e), acts, {a for a in acts if not avoid(t, a)}, mn(t), n


def chk_tree(case, ctx):
    t = case["tree"]
    fp = pm4py.discover_footprints(build.tree(t))
    ed, s, e, acts, alw, mn, skip = tree_ref(t)
    chk_rel(fp, ed, s, e, acts, "tree")
    req_eq(set(fp["activities_always_happening"]), alw, "activities always happening")
    req_eq(fp["min_trace_length"], mn, "minimum trace length")
    req_eq(bool(fp["skippable"]), skip, "skippable")
    L = sorted(ref.tree_lang(t, 5))
    req_eq(log_df(L) - ed, set(), "reference edges")
    if ed and (skip or None in ref.tree_labels(t)) and len(acts) > 2:
        ctx.nontrivial()
    # the language of the tree is never blamed
    if L:
        words = [list(L[i % len(L)]) for i in case["w"]]
        lf = fpd.apply(build.variants_log(words))
        for w, r in zip(words, fpc.apply(lf, fp, variant=fpc.Variants.TRACE_EXTENSIVE)):
            require(r["is_footprints_fit"], "a trace of the tree is not fit", w, r)
        r = fpc.apply(fpd.apply(build.variants_log(words), variant=fpd.Variants.ENTIRE_EVENT_LOG), fp, variant=fpc.Variants.LOG_EXTENSIVE)
        require(r["is_footprints_fit"], "a log of the tree is not fit", words, r)
        f = pm4py.fitness_footprints(build.variants_log(words), build.tree(t))
        require(f["perc_fit_traces"] == 100.0 and f["log_fitness"] == 1.0, "fitness of traces of the tree", f)


def chk_net(case, ctx):
    from props.c34 import visible
    s = case["net"]
    n, im, fm, ps, ts = build.net(s)
    r = ref.RNet(n, im, fm)
    states = r.reach(400, 6)[0]
    # successors by visible steps, over the states reachable (the final marking plays no role in footprints of a net)
    def closure(m):
        seen, todo = {m}, [m]
        while todo:
            x = todo.pop()
            for t in r.enabled(x):
                if r.trans[t][0] is None:
                    y = r.fire(x, t)
                    if y not in seen:
                        seen.add(y)
                        todo.append(y)
        return seen

    def vis(m):
        return {r.trans[t][0] for x in closure(m) for t in r.enabled(x) if r.trans[t][0] is not None}
    df = set()
    for m in states:
        for t in r.enabled(m):
            if r.trans[t][0] is not None:
                df |= {(r.trans[t][0], b) for b in vis(r.fire(m, t))}
    fp = pm4py.discover_footprints(n, im, fm)
    labels = [l for _, l in s["trans"] if l is not None]
    acts = set(labels)
    req_eq(set(fp["sequence"]) | set(fp["parallel"]), df, "directly-follows pairs of the net")
    req_eq(set(fp["start_activities"]), vis(r.im), "start activities of the net")
    req_eq(set(fp["activities"]), acts, "activities of the net")
    require(rels(df)[1] <= set(fp["parallel"]), "pairs in both orders are parallel", rels(df), fp)
    if len(labels) == len(acts):
        chk_rel(fp, df, vis(r.im), None, acts, "net")
    if len(states) > 3 and rels(df)[1] and rels(df)[0]:
        ctx.nontrivial()


# ---------------------------------------------------------------- conformance
def chk_conf(case, ctx):
    t, trs = case["tree"], case["t"]
    ed, s, e, acts, alw, mn, _ = tree_ref(t)
    el = build.variants_log(trs)
    tr = build.tree(t)
    res = pm4py.conformance_diagnostics_footprints(el, tr)
    fits = []
    for w, r in zip(trs, res):
        req_eq(set(r["footprints"]), log_df([w]) - ed, "pairs of %s not in the tree" % w)
        req_eq(set(r["start_activities"]), set(w[:1]) - s, "start of %s" % w)
        req_eq(set(r["end_activities"]), set(w[-1:]) - e, "end of %s" % w)
        req_eq(set(r["activities_always_happening"]), alw - set(w), "always happening, %s" % w)
        req_eq(r["min_length_fit"], len(w) >= mn, "length of %s" % w)
        fit = not (log_df([w]) - ed or w[0] not in s or w[-1] not in e or alw - set(w) or len(w) < mn)
        req_eq(r["is_footprints_fit"], fit, "is fit, %s" % w)
        if not fit:
            require(tuple(w) not in ref.tree_lang(t, len(w)), "a trace of the tree is not fit", w)
        fits.append(fit)
    lf = fpd.apply(el, variant=fpd.Variants.ENTIRE_EVENT_LOG)
    tot = pm4py.conformance_diagnostics_footprints(lf, fpd.apply(tr))
    df = log_df(trs)
    bad = df - ed
    bs, be = {w[0] for w in trs} - s, {w[-1] for w in trs} - e
    req_eq((set(tot["footprints"]), set(tot["start_activities"]), set(tot["end_activities"])), (bad, bs, be), "violations of the log")
    req_eq(tot["is_footprints_fit"], not (bad or bs or be or min(map(len, trs)) < mn), "log fit")
    d = trace_extensive.get_diagnostics_dataframe(el, res)
    req_eq(d["is_fit"].tolist(), fits, "diagnostics")
    for strict in (False, True):
        got = fpc.apply(lf, fpd.apply(tr), variant=fpc.Variants.LOG_MODEL, parameters={"strict": strict})
        req_eq(set(got), (rels(df)[0] - rels(ed)[0]) | (rels(df)[1] - rels(ed)[1]) if strict else bad, "violations (strict=%s)" % strict)
    if df:
        c = ref.dfg(trs)
        dev = sum(c[p] for p in bad)
        ns, ne = len({w[0] for w in trs}), len({w[-1] for w in trs})
        # trace by trace, a pair may be in sequence for one trace and parallel for another
        nrel = sum(len(set().union(*(rels(log_df([w]))[k] for w in trs))) for k in (0, 1))
        f = pm4py.fitness_footprints(el, tr)
        exp = ((1 - dev / sum(c.values())) * nrel + ns + ne - len(bs) - len(be)) / (nrel + ns + ne)
        require(abs(f["log_fitness"] - exp) < 1e-9, "fitness", f, exp)
        require(abs(f["perc_fit_traces"] - 100.0 * sum(fits) / len(fits)) < 1e-9, "percentage of fit traces", f, fits)
    pr = pm4py.precision_footprints(el, tr)
    require(abs(pr - (len(df & ed) / len(ed) if ed else 1.0)) < 1e-9, "precision", pr, df, ed)
    if any(fits) and not all(fits):
        ctx.nontrivial()


def chk_fit(case, ctx):
    t = case["tree"]
    labs = sorted({x for x in ref.tree_labels(t) if x}) + ["zz"]
    out = set()
    cand = [tuple(labs[i % len(labs)] for i in w) for w in case["words"]]
    L = sorted(ref.tree_lang(t, 4))
    for i in case["pos"]:
        if L:
            cand.append(L[i % len(L)])
    for w in cand:
        inl = w in ref.tree_lang(t, len(w))
        tr = build.variants_log([w])[0]
        req_eq(bool(pm4py.check_is_fitting(tr, build.tree(t))), inl, "check_is_fitting of %s on the tree" % (w,))
        if w:
            net = pm4py.convert_to_petri_net(build.tree(t))
            req_eq(bool(pm4py.check_is_fitting(w, *net)), inl, "check_is_fitting of %s on the net" % (w,))
        out.add(inl)
    if len(out) == 2:
        ctx.nontrivial()


T = gen.tree(3, max_leaves=7)
T4 = gen.tree(3, max_leaves=6, pool="ABCD")
UNITS = [
    Unit("log", st.fixed_dictionaries({"t": trs_(), "empty": st.sampled_from([False, False, True])}), chk_log, 250, rule="pairs in one and in both orders"),
    Unit("tree", st.fixed_dictionaries({"tree": T, "w": st.lists(st.integers(0, 200), min_size=1, max_size=4)}), chk_tree, 500, rule="a skippable part, more than two activities"),
    Unit("net", st.fixed_dictionaries({"net": st.one_of(nets.tree_net(3, 6), nets.tree_net(3, 5, mutations=2))}), chk_net, 300, rule="pairs in one and in both orders"),
    Unit("conformance", st.fixed_dictionaries({"tree": T4, "t": trs_()}), chk_conf, 300, rule="fitting and not fitting traces"),
    Unit("fitting", st.fixed_dictionaries({"tree": gen.tree(2, max_leaves=5), "words": st.lists(st.lists(st.integers(0, 9), min_size=1, max_size=4), min_size=1, max_size=2), "pos": st.lists(st.integers(0, 50), min_size=1, max_size=1)}), chk_fit, 60, rule="a word inside and one outside of the language"),
]
