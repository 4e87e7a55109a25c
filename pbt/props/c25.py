"""C25 POWL discovery"""
import itertools, random
from hypothesis import strategies as st
import gen, build, ref
from core import Unit, require, req_eq
import pm4py
from props.c21 import some_log
from props.c17 import un, lang, leaves, closure, po_cat

META = dict(
    title="POWL discovery yields sound, fitting partially ordered models",
    statement="For every log and every discovery variant (tree, brute force, maximal, dynamic clustering), the POWL model discovered without filtering accepts every trace of the log, mentions exactly the activities of the log, each once, and its partial orders are strict partial orders; the Petri net it converts to is a sound workflow net. "
              "The model depends only on the multiset of traces; with filtering the model stays well-formed and mentions no activity outside the log. "
              "From the complete log of a partial order of distinct activities, the partial-order variants rediscover exactly its language.",
    over=["inputs"], quant="generated logs (random, from structured models, with noise) up to 8 activities, all variants, both filters",
    why="tests run discovery on one log per variant and check nothing about the model; fitness and soundness are promised for every log",
    files=["pm4py/algo/discovery/powl", "pm4py/objects/powl", "pm4py/discovery.py"],
    mech=[("framework", "pm4py/algo/discovery/powl/inductive/variants/im_tree.py"), ("partial order cuts", "pm4py/algo/discovery/powl/inductive/variants/maximal/maximal_partial_order_cut.py"), ("dynamic clustering", "pm4py/algo/discovery/powl/inductive/variants/dynamic_clustering_frequency/dynamic_clustering_frequency_partial_order_cut.py")],
    limits="Trace membership in the model is decided on the Petri net of the model (whose equivalence with the model is C17). The rediscovery log has at most 120 linear extensions.")
VARS = ["MAXIMAL", "DYNAMIC_CLUSTERING", "BRUTE_FORCE", "TREE"]


def wf(m, acts, what, all_of=True):
    s = un(m)
    labs = [x for x in leaves(s) if x is not None]
    require(len(labs) == len(set(labs)), "%s: activity twice in %s", what, m)
    require(set(labs) == acts if all_of else set(labs) <= acts, "%s: activities of %s, log has %s", what, m, sorted(acts))
    m.validate_partial_orders()

    def go(s):
        if isinstance(s, list):
            if s[0] == "PO":
                e = {tuple(x) for x in s[2]}
                require(closure(e, len(s[1])) == e and not any((j, i) in e for i, j in e), "%s: order of %s", what, m)
                for c in s[1]:
                    go(c)
            else:
                require(len(s) == 3 or s[0] == "X" and len(s) > 2, "%s: children of %s", what, m)
                for c in s[1:]:
                    go(c)
    go(s)
    return s


def shape(s):
    """model up to the order of nodes"""
    if not isinstance(s, list):
        return str(s)
    if s[0] == "PO":
        ch = [shape(c) for c in s[1]]
        return "PO{%s|%s}" % (";".join(sorted(ch)), ";".join(sorted(ch[i] + ">" + ch[j] for i, j in s[2])))
    ch = [shape(c) for c in s[1:]]
    return s[0] + "(" + ",".join(sorted(ch) if s[0] == "X" else ch) + ")"


@st.composite
def log_st(draw):
    return {"traces": draw(some_log()), "v": draw(st.sampled_from(VARS)), "f": draw(st.sampled_from([0.1, 0.3, 0.5, 0.7, 0.95])), "o": draw(st.sampled_from([0.51, 0.6, 0.75, 0.9, 1.0])), "dyn": draw(st.booleans()), "seed": draw(st.integers(0, 99)), "k": draw(st.integers(2, 3))}


def check_log(case, ctx):
    from pm4py.algo.discovery.powl import algorithm as P
    from pm4py.algo.discovery.powl.inductive.variants.powl_discovery_varaints import POWLDiscoveryVariant as V
    from pm4py.algo.discovery.powl.inductive.utils.filtering import FilteringType
    traces = [tuple(t) for t in case["traces"]]
    if case["seed"] % 2:  # labels that contain each other
        ren = {a: ("a", "ab", "abc", "b", "bc", "c c", "a;b", "(x)", "tau", "X")[i % 10] + "'" * (i // 10) for i, a in enumerate(sorted({a for t in traces for a in t}))}
        traces = [tuple(ren[a] for a in t) for t in traces]
    acts = {a for t in traces for a in t}
    v = V[case["v"]]
    log = build.variants_log(traces)
    m = pm4py.discover_powl(log, variant=v)
    s = wf(m, acts, "model")
    net, im, fm = pm4py.convert_to_petri_net(m)
    require(ref.is_wf_net(net), "workflow net of %s", m)
    r = ref.RNet(net, im, fm)
    require(ref.rnet_sound(r), "sound net of %s", m)
    for x in sorted(set(traces)):
        require(ref.net_accepts(r, x), "trace %s not accepted by %s (%s)", x, m, case["v"])
    # same multiset of traces, other representations
    sh = list(traces)
    random.Random(case["seed"]).shuffle(sh)
    base = shape(s)
    if all(traces):
        req_eq(shape(un(pm4py.discover_powl(build.variants_df(sh), variant=v))), base, "model of the dataframe")
    req_eq(shape(un(pm4py.discover_powl(build.variants_log(sh * case["k"]), variant=v))), base, "model of the shuffled, repeated log")
    from pm4py.util.compression.dtypes import UVCL
    u = UVCL()
    for x in sh:
        u[x] += 1
    before = dict(u)
    req_eq(shape(un(P.apply(u, variant=v))), base, "model of the variants")
    req_eq(dict(u), before, "variants after discovery")
    # filtering
    cnt = {}
    for x in traces:
        cnt[x] = cnt.get(x, 0) + 1
    top = max(cnt.values())
    tops = [x for x in cnt if cnt[x] == top]
    mods = [("filtering weight factor %s" % case["f"], pm4py.discover_powl(log, variant=v, filtering_weight_factor=case["f"]))]
    if case["dyn"]:
        mods.append(("dynamic filtering", P.apply(log, variant=v, parameters={"filtering_type": FilteringType.DYNAMIC})))
    for what, f in mods:
        wf(f, acts, what, all_of=False)
        require(ref.rnet_sound(ref.RNet(*pm4py.convert_to_petri_net(f))), "%s: sound net of %s", what, f)
    if case["v"] == "DYNAMIC_CLUSTERING":
        f = pm4py.discover_powl(log, variant=v, order_graph_filtering_threshold=case["o"])
        wf(f, acts, "order threshold %s" % case["o"])
        require(ref.rnet_sound(ref.RNet(*pm4py.convert_to_petri_net(f))), "sound net of %s", f)
        if case["o"] == 1.0:
            req_eq(shape(un(f)), base, "order threshold 1")
    ctx.label(case["v"])
    ctx.nontrivial(isinstance(s, list) and "PO" in str(s) and len(set(traces)) > 2)


@st.composite
def po_st(draw):
    n = draw(st.integers(2, 5))
    perm = draw(st.permutations(range(n)))
    p = draw(st.sampled_from([1, 2, 3]))
    e = {(perm[i], perm[j]) for i in range(n) for j in range(i + 1, n) if draw(st.integers(0, 3)) < p}
    return {"n": n, "e": sorted(map(list, closure(e, n))), "seed": draw(st.integers(0, 99))}


def check_po(case, ctx):
    from pm4py.algo.discovery.powl.inductive.variants.powl_discovery_varaints import POWLDiscoveryVariant as V
    n = case["n"]
    labs = "abcde"[:n]
    exts = sorted(po_cat([[(x,)] for x in labs], [tuple(x) for x in case["e"]], n, n))
    rnd = random.Random(case["seed"])
    log = [x for x in exts for _ in range(rnd.randint(1, 2))]
    rnd.shuffle(log)
    for v in VARS[:3]:
        m = pm4py.discover_powl(build.variants_log(log), variant=V[v])
        wf(m, set(labs), v)
        got = lang(un(m), n + 1)
        require(got == set(exts), "%s on the linear extensions of %s: %s, extra %s missing %s", v, case["e"], m, sorted(got - set(exts))[:3], sorted(set(exts) - got)[:3])
    ctx.nontrivial(len(exts) > 1 and bool(case["e"]))


UNITS = [
    Unit("log", log_st(), check_log, quick=1400, shards=5, rule="model with a partial order from more than two variants"),
    Unit("rediscovery", po_st(), check_po, quick=250, shards=2, rule="order neither total nor empty"),
]
