"""C08 reachability graph"""
from hypothesis import strategies as st
import gen, build, ref, nets
from core import Unit, require, req_eq, Violation
import pm4py

META = dict(
    title="The reachability graph has exactly the reachable markings and firings",
    statement="For every bounded net and initial marking, the constructed reachability graph has exactly one state per reachable marking and exactly one transition per (marking, enabled transition), leading to the state of the marking obtained by firing it and labelled with that transition. "
              "Arc bookkeeping at the states is consistent, and the net and marking are not modified.",
    over=["inputs"], quant="all bounded nets with arc weights and initial markings within the size bound",
    why="tests build one reachability graph; exactness must hold for every net incl. weights, several tokens, dead ends and cycles",
    files=["pm4py/objects/petri_net/utils/reachability_graph.py", "pm4py/objects/transition_system/utils.py", "pm4py/convert.py"],
    mech=[("marking flow exploration", "pm4py/objects/petri_net/utils/reachability_graph.py")])


def compare(ts_, edges_ref, seen, im, name_of, place_names, ctx):
    """edges_ref: set of (marking tuple, transition idx, marking tuple).  Match by walking from the initial state."""
    req_eq(len(ts_.states), len(seen), "number of states")
    req_eq(len(ts_.transitions), len(edges_ref), "number of transitions")
    for t in ts_.transitions:
        require(t.from_state in ts_.states and t.to_state in ts_.states, "edges stay inside")
        require(t in t.from_state.outgoing and t in t.to_state.incoming, "edge registered at its states")
    out = {}
    for m, k, n in edges_ref:
        out.setdefault(m, {})[k] = n
    sname = lambda m: "".join("%s%d" % (place_names[i], v) for i, v in sorted(enumerate(m), key=lambda x: place_names[x[0]]) if v)
    init = [s for s in ts_.states if s.name == sname(im)]
    require(len(init) == 1, "one state is named after the initial marking: %s in %s", sname(im), [s.name for s in ts_.states])
    mapping, todo = {im: init[0]}, [im]
    while todo:
        m = todo.pop()
        s = mapping[m]
        req_eq(s.name, sname(m), "state name")
        succ = {}
        for t in s.outgoing:
            require(t.name not in succ, "one edge per transition")
            succ[t.name] = t.to_state
        req_eq(set(succ), {name_of(k) for k in out.get(m, {})}, "transitions out of %s" % (m,))
        for k, n in out.get(m, {}).items():
            if n in mapping:
                require(mapping[n] is succ[name_of(k)], "edge leads to the state of the reached marking")
            else:
                mapping[n] = succ[name_of(k)]
                todo.append(n)
    require(len(set(map(id, mapping.values()))) == len(seen), "states are distinct")


def check(case, ctx):
    from pm4py.objects.petri_net.utils import reachability_graph as rg
    net, im, fm, ps, ts = build.net(case)
    r = nets.SNet(case)
    try:
        seen, edges = ref.reach(r, cap=250, bound=9)
    except ref.Overflow:
        ctx.label("unbounded")
        return
    ctx.nontrivial(len(seen) > 2)
    ctx.label("states%d" % min(5, len(seen)))
    b = dict(im)
    g = rg.construct_reachability_graph(net, im, use_trans_name=True)
    compare(g, set(edges), seen, r.im, lambda k: ts[k].name, case["places"], ctx)
    g = pm4py.convert_to_reachability_graph(net, im, fm)
    compare(g, set(edges), seen, r.im, lambda k: repr(ts[k]), case["places"], ctx)
    req_eq(dict(im), b, "marking unchanged")
    inc, outg, ev = rg.marking_flow_petri(net, im)
    mk = lambda m: tuple(m.get(p, 0) for p in ps)
    req_eq({mk(m) for m in outg}, seen, "marking flow: markings")
    req_eq({(mk(m), ts.index(t), mk(n)) for m in outg for t, n in outg[m].items()}, set(edges), "marking flow: firings")


UNITS = [
    Unit("free", nets.free_net(max_p=4, max_t=4), check, 900, shards=2, rule="arbitrary weighted nets (unbounded ones skipped); non-trivial: > 2 reachable markings"),
    Unit("wf", nets.tree_net(depth=2, max_leaves=6, mutations=2), check, 500, shards=2, rule="nets of mutated trees"),
    Unit("bounded", nets.conserving_net(), check, 700, shards=2, rule="token-conserving nets (always bounded)"),
]
