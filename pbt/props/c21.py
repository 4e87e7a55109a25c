"""C21 inductive miner"""
import random
from collections import Counter
from hypothesis import strategies as st
import gen, build, ref, nets
from core import Unit, require, req_eq
import pm4py

META = dict(
    title="The inductive miner fits its log and rediscovers structured models",
    statement="For every log, the process tree of the inductive miner (with or without fall-throughs and strict sequence cuts, and of the infrequent variant without noise) has every activity of the log on exactly one leaf and accepts every trace, and so do the sound workflow net and the BPMN derived from it; the tree does not depend on the order of the cases, on the log representation or on multiplying all frequencies, also with a noise threshold. "
              "From a directly-follows complete log or graph of a tree without silent and duplicate activities whose loop bodies have disjoint start and end activities, a tree with exactly the same language is rediscovered, and the tree discovered from a directly-follows graph covers all its activities and its start, end and directly-follows relations.",
    over=["inputs"], quant="generated logs (random, noisy, tree-generated) and directly-follows complete logs of generated trees",
    why="tests discover a tree from a few logs and check it exists; perfect fitness and rediscoverability are theorems about every log",
    files=["pm4py/algo/discovery/inductive", "pm4py/discovery.py", "pm4py/util/compression/util.py", "pm4py/util/compression/dtypes.py", "pm4py/objects/dfg/util.py"],
    mech=[("sequence cut", "pm4py/algo/discovery/inductive/cuts/sequence.py"), ("loop cut", "pm4py/algo/discovery/inductive/cuts/loop.py"), ("concurrency cut", "pm4py/algo/discovery/inductive/cuts/concurrency.py"), ("fall-throughs", "pm4py/algo/discovery/inductive/fall_through/factory.py"), ("infrequent", "pm4py/algo/discovery/inductive/variants/imf.py")],
    limits="Languages are compared up to a bounded length; which tree a noise threshold gives is not specified beyond its invariances.")
NOOR = ("->", "X", "+", "*")


@st.composite
def some_log(draw, n_act=5):
    k = draw(st.integers(0, 3))
    if k == 0:
        return draw(gen.traces(n_act, 7, 8, min_traces=3, min_len=0))
    if k == 1:
        return draw(gen.traces(n_act, 5, 5, min_len=1))
    s = draw(nets.tree_net(depth=3, max_leaves=8, dup=False))
    return draw(nets.walks(s, n=(1, 7), max_len=10, noise=1 if k == 2 else 0))


@st.composite
def fit_st(draw):
    return {"traces": draw(some_log()), "nft": draw(st.booleans()), "nss": draw(st.booleans()), "imf": draw(st.booleans()), "noise": draw(st.sampled_from([0.05, 0.2, 0.35, 0.5, 0.8])), "seed": draw(st.integers(0, 99)), "k": draw(st.integers(2, 4))}


def well_formed(t):
    if isinstance(t, list):
        require(len(t) >= (3 if t[0] != "*" else 2), "operator with too few children in %s", t)
        require(t[0] in NOOR, "operator %s", t[0])
        for c in t[1:]:
            well_formed(c)


def leaves_ok(t, acts, what):
    well_formed(t)
    labs = [a for a in ref.tree_labels(t)]
    req_eq(sorted(labs), sorted(acts), what + ": one leaf per activity")


def parents_ok(n, p=None):
    require(n.parent is p, "parent pointer of %s", n)
    for c in n.children:
        parents_ok(c, n)


def check_fit(case, ctx):
    from pm4py.algo.discovery.inductive import algorithm as I
    traces = [tuple(t) for t in case["traces"]]
    acts = {a for t in traces for a in t}
    par = {"disable_fallthroughs": case["nft"], "disable_strict_sequence_cut": case["nss"], "multiprocessing": False}
    log = build.variants_log(traces)
    variant = I.Variants.IMf if case["imf"] else I.Variants.IM
    tree = I.apply(log, variant=variant, parameters=dict(par))
    parents_ok(tree)
    t = build.untree(tree)
    leaves_ok(t, acts, "tree")
    for x in set(traces):
        require(ref.tree_accepts(t, x), "trace %s not accepted by %s (%s)", x, t, variant.name)
    ctx.nontrivial(len(set(traces)) > 2 and isinstance(t, list))
    ctx.label("flower" if isinstance(t, list) and t[0] == "*" and None in t else "other" if isinstance(t, list) else "leaf")
    # invariances
    shuffled = list(traces)
    random.Random(case["seed"]).shuffle(shuffled)
    for noise, v in ((0.0, variant), (case["noise"], I.Variants.IMf)):
        p = dict(par, noise_threshold=noise)
        base = build.untree(I.apply(build.variants_log(traces), variant=v, parameters=dict(p)))
        well_formed(base)
        labs = ref.tree_labels(base)
        require(len(set(labs)) == len(labs) and set(labs) <= acts, "leaves %s of a log with activities %s", labs, acts)
        req_eq(build.untree(I.apply(build.variants_log(shuffled), variant=v, parameters=dict(p))), base, "tree of the shuffled log (noise %s)" % noise)
        req_eq(build.untree(I.apply(build.variants_log(traces * case["k"]), variant=v, parameters=dict(p))), base, "tree of the repeated log (noise %s)" % noise)
        if all(traces):
            req_eq(build.untree(I.apply(build.variants_df(shuffled), variant=v, parameters=dict(p))), base, "tree of the dataframe (noise %s)" % noise)
        from pm4py.util.compression.dtypes import UVCL
        u = UVCL()
        for x in shuffled:
            u[x] += 1
        req_eq(build.untree(I.apply(u, variant=v, parameters=dict(p))), base, "tree of the variants (noise %s)" % noise)
    # simplified interface
    req_eq(build.untree(pm4py.discover_process_tree_inductive(log, disable_fallthroughs=case["nft"])), build.untree(I.apply(log, parameters={"disable_fallthroughs": case["nft"]})), "simplified interface")
    if case["seed"] % 3 == 0:
        net, im, fm = pm4py.discover_petri_net_inductive(log)
        require(ref.is_wf_net(net), "workflow net")
        r = ref.RNet(net, im, fm)
        require(ref.rnet_sound(r), "sound workflow net")
        for x in sorted(set(traces))[:3]:
            require(ref.net_accepts(r, x), "trace %s not accepted by the net of %s", x, t)
        b = pm4py.discover_bpmn_inductive(log)
        n2, i2, f2 = pm4py.convert_to_petri_net(b)
        r2 = ref.RNet(n2, i2, f2)
        for x in sorted(set(traces))[:3]:
            require(ref.net_accepts(r2, x), "trace %s not accepted by the BPMN of %s", x, t)


def in_class(t):
    """no silent or duplicate activity (by construction), disjoint start and end activities of loop bodies"""
    if not isinstance(t, list):
        return True
    if t[0] == "*":
        d = ref.tree_dfg(t[1])
        if d[1] & d[2]:
            return False
    return all(in_class(c) for c in t[1:])


def fix_loops(t, pool):
    """make loop bodies start and end with different activities"""
    if not isinstance(t, list):
        return t
    t = [t[0]] + [fix_loops(c, pool) for c in t[1:]]
    if t[0] == "*":
        d = ref.tree_dfg(t[1])
        if d[1] & d[2]:
            t[1] = ["->", t[1], pool.pop()]
    return t


@st.composite
def redis_st(draw):
    t = draw(gen.tree(depth=4, ops=NOOR, dup=False, tau=False, pool="abcdefghijklmnop", max_leaves=5))
    t = fix_loops(t, list("zyxwvuts"))
    return {"tree": t, "seed": draw(st.integers(0, 9999)), "extra": draw(st.integers(0, 6))}


def complete_log(t, seed, extra, cap=9):
    """a small directly-follows complete log of the tree, or None"""
    null, s, e, edges = ref.tree_dfg(t)
    need = {("^", a) for a in s} | {("$", a) for a in e} | edges
    for L in (5, 7, cap):
        try:
            lang = sorted(ref.tree_lang(t, L))
        except ref.Overflow:
            return None
        feats = lambda w: ({("^", w[0]), ("$", w[-1])} if w else set()) | set(zip(w, w[1:]))
        rnd = random.Random(seed)
        rnd.shuffle(lang)
        have, out = set(), []
        for w in lang:
            f = feats(w)
            if not f <= need:
                raise AssertionError("reference directly-follows graph of %s misses %s" % (t, f - need))
            if not f <= have:
                have |= f
                out.append(w)
        if have == need:
            return out + [rnd.choice(lang) for _ in range(extra)]
    return None


def same_lang(got, exp, what, ctx):
    req_eq(sorted(ref.tree_labels(got)), sorted(ref.tree_labels(exp)), what + ": activities")
    g, e = ref.tree_dfg(got), ref.tree_dfg(exp)
    req_eq([g[0]] + [sorted(x) for x in g[1:]], [e[0]] + [sorted(x) for x in e[1:]], what + ": empty trace, start, end, directly-follows relation of %s" % got)
    for L in (5, 7, 8):
        try:
            a, b = ref.tree_lang(got, L), ref.tree_lang(exp, L)
        except ref.Overflow:
            return
        require(a == b, "%s: language of %s; missing %s extra %s", what, got, sorted(b - a)[:3], sorted(a - b)[:3])


def check_redis(case, ctx):
    from pm4py.algo.discovery.inductive import algorithm as I
    t = case["tree"]
    if t is None or not in_class(t):
        ctx.label("outside the class")
        return
    traces = complete_log(t, case["seed"], case["extra"])
    if traces is None:
        ctx.label("too large")
        return
    log = build.variants_log(traces)
    for v in I.Variants:
        got = build.untree(I.apply(log, variant=v, parameters={"noise_threshold": 0.0}))
        same_lang(got, t, "%s from the log" % v.name, ctx)
    d = pm4py.discover_dfg_typed(build.variants_df(traces))
    same_lang(build.untree(pm4py.discover_process_tree_inductive(d)), t, "IMd from the directly-follows graph", ctx)
    ctx.nontrivial(len(traces) > 1 and isinstance(t, list) and any(isinstance(c, list) for c in t[1:]))
    ctx.label("+".join(sorted(o for o in NOOR if ref.tree_has(t, o))) or "leaf")


def check_imd(case, ctx):
    traces = [tuple(t) for t in case if t]
    if not traces:
        return
    d = pm4py.discover_dfg_typed(build.variants_df(traces))
    t = build.untree(pm4py.discover_process_tree_inductive(d))
    leaves_ok(t, {a for x in traces for a in x}, "tree of the directly-follows graph")
    null, s, e, edges = ref.tree_dfg(t)
    for what, got, exp in (("start activities", s, {x[0] for x in traces}), ("end activities", e, {x[-1] for x in traces}), ("directly-follows pairs", edges, {p for x in traces for p in zip(x, x[1:])})):
        require(exp <= got, "%s of the graph not in the tree %s: %s", what, t, sorted(exp - got))
    ctx.nontrivial(isinstance(t, list) and not (t[0] == "*" and t[2] is None))


UNITS = [
    Unit("fit", fit_st(), check_fit, quick=900, shards=4, rule="more than two variants and not a leaf"),
    Unit("rediscovery", redis_st(), check_redis, quick=500, shards=3, rule="nested operators in the class"),
    Unit("graph", some_log(), check_imd, quick=900, shards=2, rule="not a leaf or flower"),
]
