"""C36 maximal decomposition and decomposed conformance"""
from collections import Counter
from hypothesis import strategies as st
import gen, build, ref, nets
from core import Unit, require, req_eq
import pm4py
from props.c32 import tr, K, weighted

META = dict(
    title="Maximal decomposition keeps the net; fitting traces stay fitting",
    statement="The maximal decomposition splits an accepting net into components that together contain exactly its places (once each), transitions, weighted arcs and markings; two places share a component exactly when silent or equally labelled transitions tie them together, and merging the components gives back the net. "
              "Decomposed conformance reports no deviation and fitness 1 for every trace the net accepts, and the documented fitness formula for every trace, also when a parameter dictionary is used again for another net.",
    over=["inputs"], quant="generated nets (block-structured, duplicate and invisible labels, loops, weighted arcs, several tokens) and noisy traces",
    why="one test runs the algorithm on one log; losing an arc, a marking or a label tie shows only on particular nets",
    files=["pm4py/objects/petri_net/utils/decomposition.py", "pm4py/algo/conformance/alignments/decomposed", "pm4py/analysis.py"],
    mech=[("decompose", "pm4py/objects/petri_net/utils/decomposition.py"), ("merge_sublist_nets", "pm4py/objects/petri_net/utils/decomposition.py"), ("apply_trace", "pm4py/algo/conformance/alignments/decomposed/variants/recompos_maximal.py")],
    limits="For deviating traces the recomposed moves are a heuristic: they are often neither a run of the net nor of minimal nor of repeatable cost (known finding, judged only on the listed input). Transitions without arcs are outside the domain.")


def arcs_of(net):
    return Counter((a.source.name, a.target.name, a.weight) for a in net.arcs)


def mk(m):
    return {p.name: n for p, n in m.items() if n}


def check_dec(case, ctx):
    s = case["net"]
    net, im, fm, ps, ts = build.net(s)
    if any(not t.in_arcs and not t.out_arcs for t in ts):
        ctx.label("transition without arcs")
        return
    before = (arcs_of(net), mk(im), mk(fm))
    comps = pm4py.maximal_decomposition(net, im, fm)
    req_eq((arcs_of(net), mk(im), mk(fm)), before, "the input net")
    lab = {t.name: t.label for t in ts}
    dup = {l for l, n in Counter(t.label for t in ts if t.label).items() if n > 1}
    ctx.nontrivial() if len(comps) > 1 else None
    if dup:
        ctx.label("duplicate labels")
    if any(a.weight > 1 for a in net.arcs):
        ctx.label("weights")
    req_eq(sorted(p.name for c in comps for p in c[0].places), sorted(p.name for p in ps), "places of the components")
    req_eq(sorted({t.name for c in comps for t in c[0].transitions}), sorted(lab), "transitions of the components")
    req_eq(sum((arcs_of(c[0]) for c in comps), Counter()), before[0], "arcs of the components")
    for c in comps:
        n = c[0]
        for t in n.transitions:
            req_eq(t.label, lab[t.name], "label of %s" % t.name)
            req_eq(sorted(a.source.name for a in t.in_arcs), sorted(a.source.name for a in n.arcs if a.target is t), "in arcs of a component")
            req_eq(sorted(a.target.name for a in t.out_arcs), sorted(a.target.name for a in n.arcs if a.source is t), "out arcs of a component")
        require(all(p in n.places for p in list(c[1]) + list(c[2])), "marking of a component outside its places")
    for i, nm in ((1, "initial"), (2, "final")):
        req_eq({k: v for c in comps for k, v in mk(c[i]).items()}, (before[1], before[2])[i - 1], nm + " marking of the components")
    cnt = Counter(t.name for c in comps for t in c[0].transitions)
    for t, l in lab.items():
        if l is None or l in dup:
            req_eq(cnt[t], 1, "components of the silent or duplicate transition %s (%s)" % (t, l))
    for l in dup:
        req_eq(sum(1 for c in comps if any(t.label == l for t in c[0].transitions)), 1, "components with the label %s" % l)
    # maximality: independent union-find
    par = {x.name: x.name for x in list(ps) + list(ts)}

    def find(x):
        while par[x] != x:
            x = par[x]
        return x
    for a in net.arcs:
        t = a.source.name if a.source.name in lab else a.target.name
        if lab[t] is None or lab[t] in dup:
            par[find(a.source.name)] = find(a.target.name)
    for l in dup:
        g = [t for t in lab if lab[t] == l]
        for t in g[1:]:
            par[find(t)] = find(g[0])
    exp = {}
    for p in ps:
        exp.setdefault(find(p.name), set()).add(p.name)
    req_eq(sorted(sorted(p.name for p in c[0].places) for c in comps if c[0].places), sorted(sorted(v) for v in exp.values()), "places per component")
    from pm4py.objects.petri_net.utils import decomposition as D
    order = [i % len(comps) for i in case["order"]]
    sel = list(dict.fromkeys(order + list(range(len(comps)))))
    m = D.merge_sublist_nets([comps[i] for i in sel])
    req_eq(arcs_of(m[0]), before[0], "arcs of the merged net")
    req_eq({t.name: t.label for t in m[0].transitions}, lab, "transitions of the merged net")
    req_eq((mk(m[1]), mk(m[2])), before[1:], "markings of the merged net")
    req_eq(len(m[0].places), len(ps), "places of the merged net")
    if len(sel) > 2:
        k = case["cut"] % (len(sel) - 1) + 1
        part = D.merge_sublist_nets([comps[i] for i in sel[:k]])
        req_eq(arcs_of(part[0]), sum((arcs_of(comps[i][0]) for i in sel[:k]), Counter()), "arcs of a partial merge")
        req_eq(part[0].lvis_labels, sorted(t.label for t in part[0].transitions if t.label), "labels of a partial merge")


@st.composite
def dec_st(draw):
    s = draw(st.one_of(nets.tree_net(depth=3, max_leaves=7, mutations=2), nets.tree_net(depth=3, max_leaves=7, dup=False, tau=False), nets.free_net(max_p=5, max_t=6), nets.conserving_net(), weighted()))
    return {"net": s, "order": draw(st.lists(st.integers(0, 9), max_size=5)), "cut": draw(st.integers(0, 9))}


@st.composite
def fit_st(draw):
    s = draw(nets.tree_net(depth=3, max_leaves=6, dup=draw(st.booleans()), tau=draw(st.booleans())))
    s2 = draw(nets.tree_net(depth=2, max_leaves=4, dup=draw(st.booleans())))
    return {"net": s, "net2": s2, "traces": draw(st.one_of(nets.walks(s, n=(1, 4), max_len=9, noise=0), nets.walks(s, n=(1, 4), max_len=9, noise=0), nets.walks(s, n=(1, 4), max_len=7, noise=2))), "scipy": False, "extra": draw(st.sampled_from([False, False, True]))}


def check_fit(case, ctx):
    from pm4py.algo.conformance.alignments.decomposed import algorithm as A
    from pm4py.algo.conformance.alignments.decomposed.variants import recompos_maximal as RM
    from pm4py.objects.log.obj import EventLog
    s = case["net"]
    r = nets.SNet(s)
    net, im, fm, ps, ts = build.net(s)
    bw = ref.align_cost(r, ())
    trs = case["traces"]
    if case.get("strict"):
        al = A.apply(EventLog([tr(trs[0])]), net, im, fm)[0]["alignment"]
        req_eq([a for a, b in al if a != ">>"], list(trs[0]), "log side of the recomposed alignment")
        req_eq([b for a, b in al if b not in (None, ">>")], ["A", "B"], "model side of the recomposed alignment")
        return
    par = {}
    res = A.apply(EventLog([tr(t) for t in trs]), net, im, fm, parameters=par)
    req_eq(par, {}, "parameters of the caller")
    req_eq(len(res), len(trs), "number of results")
    single = {}
    for t, x in zip(trs, res):
        require(x is not None, "no result for %s", t)
        fit = ref.net_accepts(r, t)
        if fit:
            require(x["cost"] < K, "cost %s for the accepted trace %s", x["cost"], t)
            if len(t) > 1:
                ctx.nontrivial()
        require(x["cost"] >= 0, "negative cost")
        if t:
            req_eq(x["bwc"], (bw + len(t)) * K, "worst cost of %s" % (t,))
            require(abs(x["fitness"] - (1 - (x["cost"] // K) / (bw + len(t)))) < 1e-9, "fitness of %s: %s", t, x)
            if fit:
                req_eq(x["fitness"], 1.0, "fitness of the accepted trace %s" % (t,))
        single[tuple(t)] = (x.get("bwc"), fit)
    if case["extra"]:
        n2, i2, f2, _, _ = build.net(case["net2"])
        par = {"pm4py:param:activity_key": "concept:name"}
        A.apply(EventLog([tr(t) for t in trs]), n2, i2, f2, parameters=par)
        b = A.apply(EventLog([tr(t) for t in trs]), net, im, fm, parameters=par)
        d = RM.apply_from_variants_list([(tuple(t), 1) for t in single], net, im, fm, parameters={"pm4py:param:activity_key": "concept:name"})
        req_eq(set(d), set(single), "variants of the variants list")
        for w, got in (("second net with the same parameter dictionary", {tuple(t): x for t, x in zip(trs, b)}), ("variants list", d)):
            for t, (bwc, fit) in single.items():
                req_eq(got[t].get("bwc"), bwc, "%s: worst cost of %s" % (w, t))
                require(not fit or (got[t]["cost"] < K and got[t].get("fitness", 1.0) == 1.0), "%s: accepted trace %s gets %s", w, t, got[t])


UNITS = [
    Unit("decomposition", dec_st(), check_dec, quick=800, shards=4, rule="the net splits into two or more components"),
    Unit("conformance", fit_st(), check_fit, quick=800, shards=8, rule="an accepted trace of two or more events"),
]
