"""C16 soundness and workflow-net decisions"""
from hypothesis import strategies as st
import gen, build, ref, nets
from core import Unit, require, req_eq, Violation
import pm4py

META = dict(
    title="Soundness and workflow-net checks decide exactly those notions",
    statement="check_is_workflow_net is true exactly for nets with one source place, one sink place and every node on a path between them; check_soundness is true exactly for workflow nets that, from one token in the source, can always reach one token in the sink, reach it only properly, and have no dead labelled transition (nets whose only flaw is a dead silent transition may be judged either way). "
              "The easy-soundness checks are true exactly when the final marking is reachable from the initial one. The given net is left unchanged.",
    over=["inputs"], quant="all workflow-like nets with unit arc weights within the size bound: sound, deadlocking, livelocking, unbounded, dead transitions, improper completion, no WF-net",
    why="tests check five hand-made nets; the decision must be right for every net, including non-block-structured ones",
    files=["pm4py/algo/analysis/woflan/algorithm.py", "pm4py/algo/analysis/workflow_net/variants/petri_net.py", "pm4py/objects/petri_net/utils/check_soundness.py"],
    mech=[("woflan", "pm4py/algo/analysis/woflan/algorithm.py"), ("workflow-net check", "pm4py/algo/analysis/workflow_net/algorithm.py")])


def ends(net):
    src = [p for p in net.places if not p.in_arcs]
    snk = [p for p in net.places if not p.out_arcs]
    return src, snk


def sig(net):
    return (sorted(p.name for p in net.places), sorted((t.name, t.label or "") for t in net.transitions), sorted((a.source.name, a.target.name, a.weight) for a in net.arcs))


def size_class(case):
    """states of the short-circuited net; None if unbounded or > 150"""
    srcs = [i for i in range(len(case["places"])) if not any(a[0] == "tp" and a[2] == i for a in case["arcs"])]
    snks = [i for i in range(len(case["places"])) if not any(a[0] == "pt" and a[1] == i for a in case["arcs"])]
    c = dict(case, trans=case["trans"] + [["sc", "sc"]], arcs=case["arcs"] + [["pt", snks[0], len(case["trans"]), 1], ["tp", len(case["trans"]), srcs[0], 1]],
             im={str(srcs[0]): 1}, fm={str(snks[0]): 1})
    try:
        return len(ref.reach(nets.SNet(c), cap=150, bound=6)[0])
    except ref.Overflow:
        return None


def check(case, ctx):
    from pm4py.objects.petri_net.obj import Marking
    net, im, fm, ps, ts = build.net(case)
    b = sig(net)
    wf = ref.is_wf_net(net)
    req_eq(pm4py.check_is_workflow_net(net), wf, "check_is_workflow_net")
    from pm4py.objects.petri_net.utils import check_soundness as cs
    req_eq(bool(cs.check_wfnet(net)), wf, "check_wfnet")
    if not wf:
        ctx.label("not_wf")
        r = pm4py.check_soundness(net, im, fm)
        require(r[0] is False or r[0] == False, "a net that is no WF-net is not sound")
        return
    src, snk = ends(net)
    im, fm = Marking({src[0]: 1}), Marking({snk[0]: 1})
    n = size_class(case)
    if n is None and len(ts) > 7 or n is not None and n > 100:
        ctx.label("big")
        return
    exp = ref.is_sound(net, im, fm, cap=3000)
    ctx.label("sound" if exp else "either" if exp is not False else "unsound")
    got = pm4py.check_soundness(net, im, fm)
    if exp is False or exp is True:
        req_eq(got[0], exp, "check_soundness")
    req_eq(sig(net), b, "the net is left unchanged")
    req_eq((dict(im), dict(fm)), ({src[0]: 1}, {snk[0]: 1}), "markings unchanged")
    ctx.nontrivial(len(ts) >= 3)


def check_full(case, ctx):
    """without the early exit"""
    from pm4py.objects.petri_net.obj import Marking
    from pm4py.algo.analysis.woflan import algorithm as woflan
    net, im, fm, ps, ts = build.net(case)
    if not ref.is_wf_net(net):
        ctx.label("not_wf")
        return
    src, snk = ends(net)
    im, fm = Marking({src[0]: 1}), Marking({snk[0]: 1})
    n = size_class(case)
    if n is None and len(ts) > 4 or n is not None and n > 60:
        ctx.label("big")  # the diagnostics of unbounded nets unfold a tree
        return
    exp = ref.is_sound(net, im, fm, cap=3000)
    ctx.label("sound" if exp else "either" if exp is not False else "unsound")
    got = woflan.apply(net, im, fm, parameters={"return_asap_when_not_sound": False, "print_diagnostics": False, "return_diagnostics": False})
    if exp is False or exp is True:
        req_eq(got, exp, "woflan without early exit")
    ctx.nontrivial(len(ts) >= 3)


def check_easy(case, ctx):
    from pm4py.objects.petri_net.utils import check_soundness as cs
    net, im, fm, ps, ts = build.net(case)
    r = nets.SNet(case)
    try:
        seen, _ = ref.reach(r, cap=3000, bound=12)
    except ref.Overflow:
        ctx.label("unbounded")
        return
    exp = r.fm in seen
    ctx.label("reachable" if exp else "unreachable")
    ctx.nontrivial(len(seen) > 2)
    req_eq(bool(cs.check_easy_soundness_net_in_fin_marking(net, im, fm)), exp, "easy soundness")
    src, snk = ends(net)
    if len(src) == 1 and len(snk) == 1 and dict(im) == {src[0]: 1} and dict(fm) == {snk[0]: 1}:
        req_eq(bool(cs.check_easy_soundness_of_wfnet(net)), exp, "easy soundness of the WF-net")


UNITS = [
    Unit("sound", nets.tree_net(depth=2, max_leaves=5, mutations=3), check, 900, shards=4, rule="nets of random trees with up to 3 structural mutations; non-trivial: a WF-net with >= 3 transitions"),
    Unit("full", nets.tree_net(depth=2, max_leaves=3, mutations=3), check_full, 250, shards=2, rule="same, without early exit"),
    Unit("easy", nets.tree_net(depth=2, max_leaves=5, mutations=3), check_easy, 500, shards=2, rule="non-trivial: > 2 reachable markings"),
]
