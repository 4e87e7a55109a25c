"""C60 process tree and DFG utilities"""
import re, itertools
from collections import Counter, defaultdict
from hypothesis import strategies as st
from core import Unit, require, req_eq
import pm4py
import gen, build, ref
from pm4py.objects.process_tree.utils import generic as g, bottomup as bu
from pm4py.objects.process_tree.utils import regex as rx
from pm4py.objects.process_tree.obj import ProcessTree, Operator
from pm4py.objects.process_tree.state import State
from pm4py.objects.dfg import util as du
from pm4py.objects.dfg.obj import DirectlyFollowsGraph
from pm4py.objects.dfg.utils import dfg_utils as dd

META = dict(
    title="Process tree and DFG utilities follow their definitions",
    statement="The regular expression of a process tree without parallelism matches exactly its language; structural equality, height, ancestors, leaves and the least and largest trace lengths of a tree follow its structure. "
              "The utilities of directly-follows graphs (vertices, arcs, sources, sinks, frequencies, reachability, projections, negation, components, matrices, sums, inferred start and end activities) equal their textbook definitions, for both representations of the graph.",
    over=["inputs"], quant="all process trees and weighted directly-follows graphs within the size bound",
    why="these helpers feed discovery and conversion and have at most one example each in the tests",
    oracle="bounded enumeration of the language of the tree; networkx-free set computations",
    limits="Regular expressions are not defined for parallel, or-join and interleaved operators. Loops have two children.",
    files=["pm4py/objects/process_tree/utils", "pm4py/objects/dfg/util.py", "pm4py/objects/dfg/utils/dfg_utils.py", "pm4py/util/regex.py"],
    mech=[("regular expression", "pm4py/objects/process_tree/utils/regex.py"), ("tree helpers", "pm4py/objects/process_tree/utils/generic.py"), ("graph helpers", "pm4py/objects/dfg/utils/dfg_utils.py")])


# ---------- trees
def nleaves(t):
    return 1 if not isinstance(t, list) else sum(nleaves(c) for c in t[1:])


@st.composite
def rtree(draw):
    t = draw(gen.tree(depth=draw(st.integers(0, 4)), ops=("->", "X", "*"), max_children=3, max_leaves=8, pool=list("abcd")))
    return t if t is not None or draw(st.booleans()) else "a"


def check_regex(case, ctx):
    t = build.tree(case)
    got = rx.pt_to_regex(t)
    pattern, mp = got
    labs = sorted(set(ref.tree_labels(case)))
    req_eq(sorted(mp), labs, "labels of the mapping")
    require(len(set(mp.values())) == len(mp) and all(len(c) == 1 for c in mp.values()), "one character per activity: %r", mp)
    L = {0: 1, 1: 8, 2: 6, 3: 5, 4: 4}[min(4, len(labs))]
    lang = ref.tree_lang(case, L)
    lang = {tuple(w) for w in lang}
    cre = re.compile(pattern)
    for n in range(L + 1):
        for w in itertools.product(labs, repeat=n):
            m = cre.match("".join(mp[x] for x in w)) is not None
            if m != (w in lang):
                require(False, "trace %r of %r: expression %r says %r, the tree %r", w, case, pattern, m, w in lang)
    ctx.nontrivial(nleaves(case) >= 3)
    for o in ("->", "X", "*"):
        if ref.tree_has(case, o):
            ctx.label(o)
    if ref.tree_has_tau(case):
        ctx.label("tau")


@st.composite
def qcase(draw):
    t = draw(gen.tree(depth=draw(st.integers(0, 4)), ops=("->", "X", "+", "*", "O"), max_children=3, max_leaves=9))
    k = draw(st.sampled_from(["same", "shuffled", "mutated", "other"]))

    def shuf(x):
        if not isinstance(x, list):
            return x
        cs = [shuf(c) for c in x[1:]]
        if x[0] in ("X", "+", "O"):
            cs = draw(st.permutations(cs))
        return [x[0]] + list(cs)

    def paths(x, p=()):
        yield p
        if isinstance(x, list):
            for i, c in enumerate(x[1:]):
                yield from paths(c, p + (i + 1,))

    def sub(x, p, f):
        if not p:
            return f(x)
        return [sub(c, p[1:], f) if i == p[0] else c for i, c in enumerate(x)]

    t2 = shuf(t) if k != "same" else t
    if k == "mutated":
        p = draw(st.sampled_from(list(paths(t2))))

        def f(x):
            if not isinstance(x, list):
                return draw(st.sampled_from(["a", "b", None, "z"]))
            m = draw(st.integers(0, 2))
            if m == 0 and x[0] != "*":
                return [draw(st.sampled_from([o for o in ("->", "X", "+", "O") if o != x[0]]))] + x[1:]
            if m == 1 and x[0] != "*":
                return x + [draw(st.sampled_from(["a", None]))]
            return [x[0]] + list(reversed(x[1:]))
        t2 = sub(t2, p, f)
    elif k == "other":
        t2 = draw(gen.tree(depth=draw(st.integers(0, 2)), ops=("->", "X", "+", "*", "O"), max_children=3, max_leaves=9))
    return dict(t=t, t2=t2, k=k, il=draw(st.sampled_from([False] * 4 + [True])), pick=draw(st.lists(st.integers(0, 99), min_size=2, max_size=2)))


def canon(t):
    if not isinstance(t, list):
        return repr(t)
    cs = [canon(c) for c in t[1:]]
    if t[0] in ("X", "+", "O", "<>"):
        cs = sorted(cs)
    return "%s(%s)" % (t[0], ",".join(cs))


def swap(t):
    return t if not isinstance(t, list) else [("<>" if t[0] == "O" else t[0])] + [swap(c) for c in t[1:]]


def minlen(t):
    if not isinstance(t, list):
        return 0 if t is None else 1
    cs = [minlen(c) for c in t[1:]]
    return {"->": sum, "+": sum, "X": min, "O": min, "*": lambda x: x[0]}[t[0]](cs)


def maxlen(t):
    """None: unbounded"""
    if not isinstance(t, list):
        return 0 if t is None else 1
    cs = [maxlen(c) for c in t[1:]]
    if t[0] == "*":
        return cs[0] if sum(x or 0 for x in cs) == 0 and None not in cs else None
    if None in cs:
        return None
    return {"->": sum, "+": sum, "X": max, "O": sum}[t[0]](cs)


def height(t):
    return 1 if not isinstance(t, list) else 1 + max(height(c) for c in t[1:])


def check_query(case, ctx):
    a, b = case["t"], case["t2"]
    if case["il"]:
        a, b = swap(a), swap(b)
    ta, tb = build.tree(a), build.tree(b)
    want = canon(a) == canon(b)
    got = g.structurally_language_equal(ta, tb)
    require(got is want, "structural equality of %r and %r: got %r, expected %r", a, b, got, want)
    require(g.structurally_language_equal(tb, ta) is want, "structural equality, other side")
    req_eq(build.untree(ta), a, "tree untouched")
    req_eq(g.get_process_tree_height(ta), height(a), "height")
    # nodes with their positions
    nodes = []

    def walk(n, path):
        nodes.append((n, path))
        for i, c in enumerate(n.children):
            walk(c, path + (i,))
    walk(ta, ())
    leaves = [n for n, _ in nodes if not n.children]
    req_eq({i for i, _ in g.get_leaves_as_tuples(ta)}, {id(x) for x in leaves}, "leaves")
    req_eq(sorted(str(x) for x in g.get_leaves(ta)), sorted({str(x) for x in leaves}), "leaves by content")
    for n, p in nodes:
        req_eq(g.is_leaf(n), not n.children, "is_leaf")
        req_eq(g.is_tau_leaf(n), not n.children and n.label is None, "is_tau_leaf")
        req_eq(g.is_root(n), p == (), "is_root")
        for o in Operator:
            req_eq(g.is_operator(n, o), n.operator is o, "is_operator")
        req_eq(g.is_any_operator_of(n, [Operator.XOR, Operator.LOOP]), n.operator in (Operator.XOR, Operator.LOOP), "is_any_operator_of")
    require(not g.is_operator(None, Operator.XOR) and not g.is_any_operator_of(None, [Operator.XOR]) and not g.is_in_state(None, State.OPEN, {}), "no node")
    byp = {p: n for n, p in nodes}
    (n1, p1), (n2, p2) = nodes[case["pick"][0] % len(nodes)], nodes[case["pick"][1] % len(nodes)]
    # nearest node strictly above both (nodes compared by content)
    anc1, anc2 = [byp[p1[:k]] for k in range(len(p1) - 1, -1, -1)], [byp[p2[:k]] for k in range(len(p2) - 1, -1, -1)]
    want = next((x for x in anc2 if any(x == y for y in anc1)), None)
    got = g.common_ancestor(n1, n2)
    require(got is want, "common ancestor of %r and %r in %r: %r", str(n1), str(n2), a, str(got))
    if len({str(n) for n, _ in nodes}) == len(nodes):
        k = 0
        while k < min(len(p1), len(p2)) - 1 and p1[k] == p2[k]:
            k += 1
        while k and p1[:k] != p2[:k]:
            k -= 1
        if p1 and p2:
            require(got is byp[p1[:k]], "common ancestor at %r and %r", p1, p2)
        for inc in (True, False):
            r = g.get_ancestors_until(n1, n2, inc)
            if n1 is n2:
                req_eq(r, [], "ancestors until itself")
            elif p1[:len(p2)] == p2:
                w = [byp[p1[:k]] for k in range(len(p1) - 1, len(p2), -1)] + ([n2] if inc else [])
                require(len(r) == len(w) and all(x is y for x, y in zip(r, w)), "ancestors of %r until %r", p1, p2)
            elif p1:
                require(r is None, "ancestors until a node that is not above: %r", r)
        ctx.label("distinct nodes")
    st_ = {(id(n1), n1): State.OPEN}
    require(g.is_in_state(n1, State.OPEN, st_) and not g.is_in_state(n1, State.CLOSED, st_), "is_in_state")
    if n2 is not n1:
        require(not g.is_in_state(n2, State.OPEN, st_), "is_in_state of another node")
    seq = [(n, s) for n, _ in nodes for s in (State.ENABLED, State.OPEN, State.CLOSED)]
    req_eq([id(x) for x in g.project_execution_sequence_to_leafs(seq)], [id(x) for x in leaves], "leaves of an execution sequence")
    req_eq(g.project_execution_sequence_to_labels(seq), [x.label for x in leaves if x.label is not None], "labels of an execution sequence")
    if not case["il"]:
        mn, mx = minlen(a), maxlen(a)
        req_eq(bu.get_min_trace_length(ta), mn, "minimum trace length")
        m = bu.get_max_trace_length(ta)
        if mx is not None and not ref.tree_has(a, "*"):
            req_eq(m, mx, "maximum trace length")
        elif mx is None:
            require(m > 10 ** 6, "a loop has unbounded traces: %r", m)
        order = bu.get_bottomup_nodes(ta)
        require(len(order) == len(set(order)) and set(order) == {n for n, _ in nodes}, "bottom-up nodes")
        pos = {n: i for i, n in enumerate(order)}
        for n, _ in nodes:
            for c in n.children:
                require(pos[c] < pos[n], "children come before the parent")
        dmin, dmax = bu.get_min_rem_dict(ta), bu.get_max_rem_dict(ta)
        for n, _ in nodes:
            s = build.untree(n)
            req_eq(dmin[n], mn - minlen(s), "remaining minimum")
            if not ref.tree_has(a, "*"):
                req_eq(dmax[n], mx - maxlen(s), "remaining maximum")
    ctx.label(case["k"])
    ctx.nontrivial(len(nodes) >= 4)


# ---------- graphs
@st.composite
def graph(draw):
    n = draw(st.integers(1, 6))
    acts = list("abcdef")[:n]
    m = draw(st.integers(1, min(12, n * n)))
    es = draw(st.lists(st.tuples(st.sampled_from(acts), st.sampled_from(acts)), min_size=m, max_size=m, unique=True))
    return dict(e=[[x, y, draw(st.integers(1, 9))] for x, y in es],
                sa=draw(st.dictionaries(st.sampled_from(acts + ["s"]), st.integers(1, 5), max_size=3)),
                ea=draw(st.dictionaries(st.sampled_from(acts + ["t"]), st.integers(1, 5), max_size=3)),
                sub=sorted(draw(st.sets(st.sampled_from(acts), min_size=1))),
                vs=draw(st.lists(st.lists(st.sampled_from("abc"), min_size=1, max_size=4), max_size=5)))


def reach(E, V):
    out = {v: {y for x, y in E if x == v} for v in V}
    ch = True
    while ch:
        ch = False
        for v in V:
            n = set(out[v])
            for y in out[v]:
                n |= out[y]
            if n != out[v]:
                out[v], ch = n, True
    return out


def nodefault(d):
    return {k: dict(v) for k, v in d.items()}


def check_graph(case, ctx):
    E = {(x, y): w for x, y, w in case["e"]}
    sub = set(case["sub"])
    A = sorted({x for e in E for x in e})
    V = sorted(set(A) | set(case["sa"]) | set(case["ea"]))
    dfg = DirectlyFollowsGraph(E, case["sa"], case["ea"])
    outv, inv = {v: {y: w for (x, y), w in E.items() if x == v} for v in V}, {v: {x: w for (x, y), w in E.items() if y == v} for v in V}
    # the graph object
    req_eq(set(du.get_vertices(dfg)), set(V), "vertices")
    req_eq(nodefault(du.get_outgoing_arcs(dfg)), outv, "outgoing arcs")
    req_eq(nodefault(du.get_incoming_arcs(dfg)), inv, "incoming arcs")
    req_eq(set(du.get_source_vertices(dfg)), {v for v in V if not inv[v]}, "sources")
    req_eq(set(du.get_sink_vertices(dfg)), {v for v in V if not outv[v]}, "sinks")
    R = reach(set(E), V)
    pre, post = du.get_transitive_relations(dfg)
    # networkx: a vertex is not its own descendant
    req_eq({k: set(v) for k, v in post.items()}, {v: R[v] - {v} for v in V}, "descendants")
    req_eq({k: set(v) for k, v in pre.items()}, {v: {x for x in V if v in R[x]} - {v} for v in V}, "ancestors")
    G = du.as_nx_graph(dfg)
    req_eq((set(G.nodes), set(G.edges)), (set(V), set(E)), "networkx graph")
    req_eq(set(du.get_edges(dfg)), set(E), "edges")
    # dictionaries and lists
    as_list = [((x, y), w) for (x, y), w in E.items()]
    o = {v: d for v, d in outv.items() if d}
    i = {v: d for v, d in inv.items() if d}
    for form in (E, as_list):
        req_eq(dd.get_outgoing_edges(form), o, "outgoing edges")
        req_eq(dd.get_ingoing_edges(form), i, "ingoing edges")
        req_eq(dd.get_activities_from_dfg(form), A, "activities")
        req_eq(sorted(dd.infer_start_activities(form)), sorted(set(o) - set(i)), "inferred start activities")
        req_eq(sorted(dd.infer_end_activities(form)), sorted(set(i) - set(o)), "inferred end activities")
        si, so = {v: sum(d.values()) for v, d in i.items()}, {v: sum(d.values()) for v, d in o.items()}
        for a in A:
            req_eq(dd.get_max_activity_count(form, a), max(list(o.get(a, {}).values()) + list(i.get(a, {}).values())), "largest count of an edge")
            if a in o:
                req_eq(dd.sum_ingoutg_val_activ(o, a), so[a], "sum of an activity")
        req_eq(dd.get_max_activity_count(form, "unknown"), -1, "largest count of an unknown activity")
        req_eq(dd.max_occ_all_activ(form), max(list(si.values()) + list(so.values())), "largest sum")
        req_eq(dd.max_occ_among_specif_activ(form, sub), max([si.get(x, -1) for x in sub] + [so.get(x, -1) for x in sub] + [-1]), "largest sum among activities")
        req_eq(dd.sum_start_activities_count(form), sum(v for k, v in so.items() if k not in si), "sum of the start activities")
        req_eq(dd.sum_end_activities_count(form), sum(v for k, v in si.items() if k not in so), "sum of the end activities")
        req_eq(dd.sum_activities_count(form, sub, enable_halving=False), sum(si.get(x, 0) + so.get(x, 0) for x in sub), "sum of activities")
        for x in sub:
            w = si.get(x, 0) + so.get(x, 0)
            req_eq(dd.sum_activities_count(form, [x]), w // 2 if x in si and x in so else w, "sum of one activity, halved")
        for k in (None, sub):
            req_eq(dd.get_activities_direction(form, k), {a: (so.get(a, 0) - si.get(a, 0)) / (so.get(a, 0) + si.get(a, 0) + 1) for a in (k or A)}, "direction")
        dirl = dd.get_activities_direction(form, None)
        req_eq([tuple(x) for x in dd.get_activities_dirlist(dirl)], sorted(dirl.items(), key=lambda x: (x[1], x[0]), reverse=True), "ordered directions")
        req_eq(sorted(dd.get_activities_self_loop(form)), sorted(x for x in A if (x, x) in E), "self loops")
        m, idx = dd.get_dfg_np_matrix(form)
        req_eq(idx, dict(enumerate(A)), "indexes of the matrix")
        req_eq(m.tolist(), [[E.get((x, y), 0) for y in A] for x in A], "matrix")
    req_eq(sorted(dd.filter_dfg_on_act(as_list, sub)), sorted(e for e in as_list if set(e[0]) <= sub), "projected graph")
    req_eq(sorted(dd.negate(as_list)), sorted(e for e in as_list if (e[0][1], e[0][0]) not in E), "negated graph")
    for a in A:
        req_eq(dd.get_all_activities_connected_as_output_to_activity(as_list, a), set(outv[a]), "outputs")
        req_eq(dd.get_all_activities_connected_as_input_to_activity(as_list, a), set(inv[a]), "inputs")
    # parts of a graph
    part = dd.filter_dfg_on_act(as_list, sub)
    pin, pout = {e[0][1] for e in part}, {e[0][0] for e in part}
    bs = {y for x, y in E if y in sub and x not in sub}
    be = {x for x, y in E if x in sub and y not in sub}
    f, h = dd.infer_start_activities_from_prev_connections_and_current_dfg, dd.infer_end_activities_from_succ_connections_and_current_dfg
    req_eq(f(as_list, part, sub, include_self=False), bs, "start activities of a part")
    req_eq(h(as_list, part, sub, include_self=False), be, "end activities of a part")
    req_eq(f(as_list, part, sub), bs | (pout - pin), "start activities of a part and its graph")
    req_eq(h(as_list, part, sub), be | (pin - pout), "end activities of a part and its graph")
    outs = {x for x, y in E if x not in sub and y in bs}
    req_eq(dd.get_outputs_of_outside_activities_going_to_start_activities(as_list, part, sub), {y for x, y in E if x in outs and y not in sub} - outs, "outputs of the activities before a part")
    ins = {y for x, y in E if y not in sub and x in be}
    req_eq(dd.get_inputs_of_outside_activities_reached_by_end_activities(as_list, part, sub), {x for x, y in E if y in ins and x not in sub} - ins, "inputs of the activities after a part")
    G = dd.transform_dfg_to_directed_nx_graph(as_list)
    req_eq((set(G.nodes), set(G.edges)), (set(A), set(E)), "directed graph")
    # reachability and components
    acts = sorted(set(A) | sub)
    R = reach(set(E), acts)
    RI = {v: {x for x in acts if v in R[x]} for v in acts}
    for model in (None, acts):
        keys = A if model is None else acts
        req_eq(dd.get_successors(E, model), {v: R[v] for v in keys}, "successors")
        req_eq(dd.get_predecessors(E, model), {v: RI[v] for v in keys}, "predecessors")
    p, q = dd.get_transitive_relations(E, acts)
    req_eq((p, q), (RI, R), "transitive relations")
    req_eq(dd.get_alphabet(E), set(A), "alphabet")
    comp = {v: {v} for v in acts}
    for x, y in E:
        u = comp[x] | comp[y]
        for v in u:
            comp[v] = u
    want = sorted(sorted(c) for c in {frozenset(c) for c in comp.values()})
    req_eq(sorted(sorted(c) for c in dd.get_connected_components(i, o, acts)), want, "connected components")
    # adding an activity to the most connected component
    cs = [set(c) for c in want]
    if len(cs) >= 1 and len(A) >= 2:
        a = A[-1]
        cs = [{x} for x in A[:-1]]
        score = [E.get((x, a), 0) + E.get((a, x), 0) for x in A[:-1]]
        got = dd.add_to_most_probable_component([set(c) for c in cs], a, i, o)
        cs[score.index(max(score))].add(a)
        req_eq(got, cs, "most probable component")
    # from variants
    vs = {tuple(v) for v in case["vs"]}
    g2, la, sa, ea = dd.get_dfg_sa_ea_act_from_variants({v: 1 for v in vs})
    req_eq((g2, set(la), sa, ea), (dict(Counter((v[k], v[k + 1]) for v in vs for k in range(len(v) - 1))), {x for v in vs for x in v}, dict(Counter(v[0] for v in vs)), dict(Counter(v[-1] for v in vs))), "graph of the variants")
    real = DirectlyFollowsGraph(g2, sa, ea)
    req_eq({k: v for k, v in du.get_vertex_frequencies(real).items() if v}, dict(Counter(x for v in vs for x in v)), "number of visits of each vertex")
    req_eq({(x, y): w for x, y, w in case["e"]}, E, "graph untouched")
    ctx.nontrivial(len(E) >= 3)
    if len(want) > 1:
        ctx.label("several components")
    if any(v in R[v] for v in acts):
        ctx.label("cyclic")


UNITS = [
    Unit("regex", rtree(), check_regex, 900, shards=3, rule="tree with at least three leaves"),
    Unit("queries", qcase(), check_query, 1200, shards=3, rule="tree with at least four nodes"),
    Unit("graphs", graph(), check_graph, 900, shards=3, rule="at least three edges"),
]
