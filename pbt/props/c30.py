"""C30 transition systems and prefix trees"""
import itertools
from collections import Counter
from hypothesis import strategies as st
from core import Unit, require, req_eq
import pm4py
import gen, build
from pm4py.util import constants as K
from pm4py.algo.discovery.transition_system import algorithm as tsd
from pm4py.objects.transition_system import obj as tso, utils as tsu, constants as tsc

META = dict(
    title="Transition systems and prefix trees contain exactly the observed behaviour",
    statement="The discovered transition system has one state per abstraction (sequence, multiset, set) of the window of events after or before a position of a case, and one transition per observed step between two of them, registered at both ends and carrying the events when asked; no more and no less. "
              "The prefix tree has one node per prefix of a case, with its depth and parent, final exactly for the complete variants. Arcs are added to and removed from a transition system between the given states only, and the transitive reduction of an acyclic system keeps reachability with the fewest arcs.",
    over=["inputs"], quant="logs up to 8 traces x window x direction x view x representation and keys; acyclic systems up to 7 states",
    why="tests compute one transition system; the exact set of states and arcs must be right for every log and window",
    oracle="sets of abstractions and prefixes computed from the traces; networkx-free reachability and reduction by brute force",
    limits="Empty traces contribute nothing and are not generated.",
    files=["pm4py/algo/discovery/transition_system/variants/view_based.py", "pm4py/algo/transformation/log_to_trie", "pm4py/objects/transition_system", "pm4py/objects/trie"],
    mech=[("view based", "pm4py/algo/discovery/transition_system/variants/view_based.py"), ("prefix tree", "pm4py/algo/transformation/log_to_trie/algorithm.py"), ("utils", "pm4py/objects/transition_system/utils.py")])
KEYS = {False: ("case:concept:name", "concept:name", "time:timestamp"), True: ("cid", "act", "when")}


def canon(x):
    return ("seq", tuple(x)) if isinstance(x, list) else ("multi", tuple(sorted(x.items()))) if isinstance(x, Counter) else ("set", tuple(sorted(x)))


def obj(c):
    ck, ak, tk = KEYS[c["keys"]]
    return build.elog(c["log"], ak=ak, tk=tk) if c["rep"] == "log" else build.fdf(c["log"], ck=ck, ak=ak, tk=tk) if c["rep"] == "fdf" else build.df(c["log"], ck=ck, ak=ak, tk=tk)


def system(c, ctx):
    ck, ak, tk = KEYS[c["keys"]]
    o = obj(c)
    w = c["window"]
    trs = build.acts_of(c["log"])
    ab = {"sequence": lambda s: ("seq", tuple(s)), "multiset": lambda s: ("multi", tuple(sorted(Counter(s).items()))), "set": lambda s: ("set", tuple(sorted(set(s))))}[c["view"]]
    S = lambda t, i: ab(t[i:i + w] if c["dir"] == "forward" else t[max(0, i - w):i])
    states = {S(t, i) for t in trs for i in range(len(t) + 1)}
    arcs = {(S(t, i), t[i], S(t, i + 1)) for t in trs for i in range(len(t))}
    data = c["data"] and c["rep"] == "log"
    if data or c["algo"]:
        P = {K.PARAMETER_CONSTANT_ACTIVITY_KEY: ak, K.PARAMETER_CONSTANT_CASEID_KEY: ck, K.PARAMETER_CONSTANT_TIMESTAMP_KEY: tk, "include_data": data, "view": c["view"], "window": w, "direction": c["dir"]}
        r = tsd.apply(o, parameters=P)
    else:
        r = pm4py.discover_transition_system(o, direction=c["dir"], window=w, view=c["view"], activity_key=ak, timestamp_key=tk, case_id_key=ck)
    ctx.label(c["view"], c["dir"], c["rep"], "data" if data else "no data")
    ctx.nontrivial(len(arcs) > 3)
    req_eq(sorted(canon(s.name) for s in r.states), sorted(states), "states")
    req_eq(sorted((canon(t.from_state.name), t.name, canon(t.to_state.name)) for t in r.transitions), sorted(arcs), "transitions")
    for s in r.states:
        req_eq(set(s.outgoing), {t for t in r.transitions if t.from_state is s}, "outgoing arcs of %s" % s)
        req_eq(set(s.incoming), {t for t in r.transitions if t.to_state is s}, "incoming arcs of %s" % s)
    if data:
        steps = [(S(t, i), t[i], S(t, i + 1), (k, i)) for k, t in enumerate(trs) for i in range(len(t))]
        ix = {id(t): k for k, t in enumerate(o)}
        ev = lambda l: [(ix[id(t)], i) for t, i in l]
        for s in r.states:
            n = canon(s.name)
            req_eq(ev(s.data[tsc.OUTGOING_EVENTS]), [x[3] for x in steps if x[0] == n], "outgoing events of %s" % s)
            req_eq(ev(s.data[tsc.INGOING_EVENTS]), [x[3] for x in steps if x[2] == n], "ingoing events of %s" % s)
        for t in r.transitions:
            k = (canon(t.from_state.name), t.name, canon(t.to_state.name))
            req_eq(ev(t.data[tsc.EVENTS]), [x[3] for x in steps if x[:3] == k], "events of %s" % (k,))
    # prefix tree
    root = pm4py.discover_prefix_tree(o, activity_key=ak, timestamp_key=tk, case_id_key=ck)
    exp = {tuple(t[:i]) for t in trs for i in range(len(t) + 1)}
    fin = {tuple(t) for t in trs}
    got = {}
    def go(n, p, parent):
        require(n.parent is parent and n.depth == len(p), "node %s: parent and depth %s", p, n.depth)
        require(p not in got, "prefix %s has two nodes", p)
        got[p] = n.final
        for x in n.children:
            go(x, p + (x.label,), n)
    go(root, (), None)
    req_eq(sorted(got), sorted(exp), "prefixes")
    req_eq({p for p, f in got.items() if f}, fin, "final prefixes")


def mk(n, arcs):
    t = tso.TransitionSystem("x")
    S = [tso.TransitionSystem.State("s%d" % i) for i in range(n)]
    for s in S:
        t.states.add(s)
    for nm, a, b in arcs:
        tsu.add_arc_from_to(nm, S[a], S[b], t)
    return t, S


def arcs_of(t, S):
    ix = {id(s): i for i, s in enumerate(S)}
    for s in S:
        req_eq({id(x) for x in s.outgoing}, {id(x) for x in t.transitions if x.from_state is s}, "outgoing arcs of %s" % s)
        req_eq({id(x) for x in s.incoming}, {id(x) for x in t.transitions if x.to_state is s}, "incoming arcs of %s" % s)
    return sorted((x.name, ix[id(x.from_state)], ix[id(x.to_state)]) for x in t.transitions)


def utils(c, ctx):
    n = c["n"]
    arcs = [(nm, a % n, b % n) for nm, a, b in c["arcs"]]
    t, S = mk(n, arcs)
    req_eq(arcs_of(t, S), sorted(arcs), "arcs added")
    cur = list(arcs)
    for k, nm, a, b in c["ops"]:
        if arcs and k < 2:  # an existing pair
            nm, a, b = arcs[a % len(arcs)][0], arcs[a % len(arcs)][1], arcs[a % len(arcs)][2]
        a, b = a % n, b % n
        if k % 2:
            tsu.remove_arc_from_to(nm, S[a], S[b], t)
            cur = [x for x in cur if x != (nm, a, b)]
        else:
            tsu.remove_all_arcs_from_to(S[a], S[b], t)
            cur = [x for x in cur if x[1:] != (a, b)]
        req_eq(arcs_of(t, S), sorted(cur), "arcs after the removal of %s from s%d to s%d" % (nm if k % 2 else "all arcs", a, b))
        tsu.add_arc_from_to("new", S[b], S[a], t)
        cur.append(("new", b, a))
        req_eq(arcs_of(t, S), sorted(cur), "arcs after an addition")
    # transitive reduction of an acyclic system
    dag = sorted({(nm, min(a, b), max(a, b)) for nm, a, b in arcs if a != b})
    t, S = mk(n, dag)
    tsu.transitive_reduction(t)
    pairs = {(a, b) for _, a, b in dag}
    reach = set(pairs)
    for k, i, j in itertools.product(range(n), repeat=3):
        if (i, k) in reach and (k, j) in reach:
            reach.add((i, j))
    red = {(a, b) for a, b in pairs if not any((a, k) in reach and (k, b) in reach for k in range(n))}
    ctx.nontrivial(len(red) < len(pairs) or len(cur) > 3)
    ctx.label("reducible" if len(red) < len(pairs) else "reduced", "shared names" if len({x[0] for x in dag}) < len(dag) else "distinct names")
    req_eq(arcs_of(t, S), [x for x in dag if x[1:] in red], "transitive reduction of %s" % dag)


I6 = st.integers(0, 6)
UNITS = [
    Unit("system", st.fixed_dictionaries({"log": gen.log(4, 6, 8, odd=0.2), "rep": st.sampled_from(["log", "df", "fdf"]), "keys": st.booleans(), "window": st.sampled_from([2, 1, 3, 0, 5]), "dir": st.sampled_from(["forward", "backward"]), "view": st.sampled_from(["sequence", "multiset", "set"]), "data": st.booleans(), "algo": st.booleans()}), system, 900, shards=3, rule="non-trivial: > 3 transitions"),
    Unit("utils", st.fixed_dictionaries({"n": st.integers(2, 7), "arcs": st.lists(st.tuples(st.sampled_from(["a", "b", "c", "d"]), I6, I6).map(list), max_size=12, unique_by=tuple), "ops": st.lists(st.tuples(st.integers(0, 3), st.sampled_from(["a", "b"]), I6, I6).map(list), max_size=4)}), utils, 900, shards=1, rule="non-trivial: reducible or > 3 arcs"),
]
