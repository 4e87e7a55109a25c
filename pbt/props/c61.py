"""C61 Petri nets of DFGs and trees, structural tools of nets"""
import itertools, warnings
from collections import Counter, deque
from hypothesis import strategies as st
import numpy as np
from core import Unit, require, req_eq
import pm4py
import gen, build, ref, nets
from pm4py.objects.petri_net.obj import PetriNet, Marking
from pm4py.objects.petri_net.utils import petri_utils as pu, incidence_matrix, consumption_matrix, initial_marking, final_marking, embed_stochastic_map, explore_path
from pm4py.objects.conversion.dfg import converter as dconv
from pm4py.objects.conversion.process_tree.variants import to_petri_net_transition_bordered as bordered
from pm4py.algo.analysis.woflan.place_invariants import place_invariants, uniform_invariant, s_component, utility

META = dict(
    title="Petri nets of DFGs and trees keep the language; structural tools are exact",
    statement="The Petri net of a directly-follows graph (all variants) accepts exactly the paths of the graph from a start to an end activity, and the transition-bordered net of a process tree exactly the language of the tree, on a sound workflow net. "
              "For every net, the incidence and consumption matrices follow the arcs and the state equation, place invariants are a basis of the invariants, S-components are strongly conservative, and the shortest firing sequence between two markings and the shortest silent paths between places are exact.",
    over=["inputs"], quant="all directly-follows graphs, process trees and (weighted) nets within the size bound",
    why="conversions of directly-follows graphs and the structural tools have one example each in the tests",
    oracle="bounded enumeration of paths and languages; rational linear algebra; breadth-first search over markings",
    limits="Bounded nets with up to 3000 markings for shortest firing sequences; completeness of the S-components is not judged.",
    files=["pm4py/objects/conversion/dfg", "pm4py/objects/conversion/process_tree/variants/to_petri_net_transition_bordered.py", "pm4py/objects/petri_net/utils", "pm4py/algo/analysis/woflan/place_invariants", "pm4py/convert.py"],
    mech=[("DFG to net", "pm4py/objects/conversion/dfg/variants/to_petri_net_activity_defines_place.py"), ("bordered net", "pm4py/objects/conversion/process_tree/variants/to_petri_net_transition_bordered.py"), ("invariants", "pm4py/algo/analysis/woflan/place_invariants/place_invariants.py"), ("path search", "pm4py/objects/petri_net/utils/explore_path.py")])


# ---------- DFG -> net
@st.composite
def dcase(draw):
    acts = draw(st.sampled_from([list("abcd"), ["a", "a_b", "b", "b_a"], ["x y", "x", "source", "sink"]]))[:draw(st.integers(1, 4))]
    m = draw(st.integers(0, min(8, len(acts) ** 2)))
    es = draw(st.lists(st.tuples(st.sampled_from(acts), st.sampled_from(acts)), min_size=m, max_size=m, unique=True))
    w = st.integers(1, 9)
    return dict(e=[[x, y, draw(w)] for x, y in es], sa={k: draw(w) for k in draw(st.lists(st.sampled_from(acts), min_size=1, max_size=3, unique=True))},
                ea={k: draw(w) for k in draw(st.lists(st.sampled_from(acts), min_size=1, max_size=3, unique=True))}, infer=draw(st.sampled_from([False] * 3 + [True])))


def paths(E, sa, ea, L):
    out, cur = set(), {(a,) for a in sa}
    for n in range(1, L + 1):
        out |= {w for w in cur if w[-1] in ea}
        cur = {w + (y,) for w in cur for x, y in E if x == w[-1]}
    return out


def check_dfg(case, ctx):
    E = {(x, y): w for x, y, w in case["e"]}
    sa, ea = case["sa"], case["ea"]
    if case["infer"]:
        sa = {x: 1 for x, _ in E} .keys() - {y for _, y in E}
        ea = {y: 1 for _, y in E} .keys() - {x for x, _ in E}
        sa, ea = {x: 1 for x in sa}, {x: 1 for x in ea}
        if not sa or not ea:
            ctx.label("nothing inferred")
            return
    lang = paths(E, sa, ea, 4)
    before = (dict(E), dict(sa), dict(ea))
    res = {}
    V = dconv.Variants
    for v in (V.VERSION_TO_PETRI_NET_ACTIVITY_DEFINES_PLACE, V.VERSION_TO_PETRI_NET_INVISIBLES_NO_DUPLICATES):
        pr = {} if case["infer"] else {"start_activities": sa, "end_activities": ea}
        res[v.name] = dconv.apply(E, variant=v, parameters=pr)
    if not case["infer"]:
        res["convert_to_petri_net"] = pm4py.convert_to_petri_net(E, sa, ea)
    for nm, (net, im, fm) in res.items():
        got = {w for w in ref.net_lang(net, im, fm, 4)}
        if got != lang:
            d = sorted(got ^ lang, key=len)[0]
            require(False, "%s: trace %r is accepted by %s only (edges %r, start %r, end %r)", nm, d, "the net" if d in got else "the graph", sorted(E), sorted(sa), sorted(ea))
        require(sum(im.values()) == 1 and sum(fm.values()) == 1, "%s: one token in the initial and final markings", nm)
    net = res[V.VERSION_TO_PETRI_NET_INVISIBLES_NO_DUPLICATES.name][0]
    require(max(Counter(t.label for t in net.transitions if t.label is not None).values(), default=0) <= 1, "no duplicate labels")
    req_eq((E, sa, ea), before, "graph untouched")
    ctx.nontrivial(len(lang) >= 3)
    ctx.label("inferred" if case["infer"] else "given")
    if not E:
        ctx.label("no edge")


# ---------- bordered
bt = gen.tree(depth=4, ops=("->", "X", "+", "*"), max_children=3, max_leaves=7)


def check_bordered(case, ctx):
    t = build.tree(case)
    net, im, fm = bordered.apply(t)
    L = 4
    want = {tuple(w) for w in ref.tree_lang(case, L)}
    got = ref.net_lang(net, im, fm, L)
    if got != want:
        d = sorted(got ^ want, key=len)[0]
        require(False, "trace %r of %r is accepted by %s only", d, case, "the net" if d in got else "the tree")
    require(ref.is_wf_net(net), "workflow net of %r", case)
    r = ref.RNet(net, im, fm)
    require(ref.rnet_sound(r), "sound net of %r", case)
    req_eq(build.untree(t), case, "tree untouched")
    ctx.nontrivial(len(want) >= 2 and isinstance(case, list))


# ---------- structure
@st.composite
def ncase(draw):
    k = draw(st.sampled_from(["free", "conserving", "tree", "plain"]))
    if k == "free":
        s = draw(nets.free_net())
    elif k == "conserving":
        s = draw(nets.conserving_net())
    elif k == "plain":
        s = draw(nets.free_net(max_w=1))
    else:
        s = draw(nets.tree_net())
    return dict(s=s, k=k, walk=draw(st.lists(st.integers(0, 9), max_size=8)), sub=draw(st.lists(st.integers(0, 2), min_size=5, max_size=5)), depth=draw(st.integers(0, 3)),
                smap=draw(st.lists(st.integers(0, 9), min_size=12, max_size=12)))


def check_structure(case, ctx):
    net, im, fm, ps, ts = build.net(case["s"])
    r = ref.RNet(net, im, fm)
    W = {}
    for a in net.arcs:
        W[(a.source, a.target)] = W.get((a.source, a.target), 0) + a.weight
    # matrices
    m = incidence_matrix.construct(net)
    req_eq((sorted(m.places.values()), sorted(m.transitions.values())), (list(range(len(ps))), list(range(len(ts)))), "indexes")
    C = np.array(m.a_matrix, dtype=float).reshape(len(ps), len(ts))
    c = consumption_matrix.construct(net)
    for p in ps:
        for t in ts:
            req_eq(m.a_matrix[m.places[p]][m.transitions[t]], W.get((t, p), 0) - W.get((p, t), 0), "incidence of a place and a transition")
            req_eq(c.c_matrix[c.places[p]][c.transitions[t]], -W.get((p, t), 0), "consumption of a place and a transition")
    cur, par = r.im, [0] * len(ts)
    for x in case["walk"]:
        en = r.enabled(cur)
        if not en:
            break
        k = en[x % len(en)]
        par[m.transitions[r.trans[k][3]]] += 1
        cur = r.fire(cur, k)
    mk = Marking({p: cur[r.idx[p]] for p in ps if cur[r.idx[p]]})
    req_eq(m.encode_marking(mk), (np.array(m.encode_marking(im)) + C @ np.array(par)).tolist(), "state equation")
    # markings
    req_eq(dict(initial_marking.discover_initial_marking(net)), {p: 1 for p in ps if not p.in_arcs}, "discovered initial marking")
    req_eq(dict(final_marking.discover_final_marking(net)), {p: 1 for p in ps if not p.out_arcs}, "discovered final marking")
    sub = {p: n for p, n in zip(ps, case["sub"]) if n}
    want = all(mk.get(p, 0) >= n for p, n in sub.items())
    require(pu.is_sub_marking(Marking(sub), mk) == want, "is_sub_marking(%r, %r) should be %r", sub, dict(mk), want)
    req_eq(dict(pu.place_set_as_marking(ps)), {p: 1 for p in ps}, "marking of a set of places")
    # decorations
    pu.decorate_transitions_prepostset(net)
    pu.decorate_places_preset_trans(net)
    for t in ts:
        req_eq(dict(t.sub_marking), {p: W[(p, t)] for p in ps if (p, t) in W}, "sub marking")
        req_eq({p: v for p, v in t.add_marking.items() if v}, {p: W.get((t, p), 0) - W.get((p, t), 0) for p in ps if W.get((t, p), 0) != W.get((p, t), 0)}, "added marking")
    for p in ps:
        req_eq(set(p.ass_trans), {t for t in ts if (p, t) in W}, "transitions of a place")
        req_eq((pu.pre_set(p), pu.post_set(p)), ({t for t in ts if (t, p) in W}, {t for t in ts if (p, t) in W}), "pre and post set of a place")
    # stochastic map
    smap = {t: x for t, x in zip(ts, case["smap"])}
    smap = {t: smap.get(t, 0) for t in ts}
    embed_stochastic_map.apply(smap)
    req_eq(embed_stochastic_map.extract(net), smap, "stochastic map")
    # invariants
    inv = place_invariants.compute_place_invariants(net)
    order = sorted(ps, key=lambda p: p.name)
    D = np.array([[W.get((t, p), 0) - W.get((p, t), 0) for t in ts] for p in order], dtype=float).reshape(len(ps), len(ts))
    M = np.array([[float(x) for x in np.asarray(v).ravel()] for v in inv]).reshape(len(inv), len(ps))
    require(np.allclose(M @ D, 0), "place invariants %r of the incidence matrix %r", M.tolist(), D.tolist())
    rank = np.linalg.matrix_rank(D) if D.size else 0
    req_eq(len(inv), len(ps) - rank, "number of invariants in the basis")
    if len(inv):
        req_eq(int(np.linalg.matrix_rank(M)), len(inv), "the invariants are independent")
    unc = utility.compute_uncovered_places(inv, net)
    req_eq({p.name for p in unc}, {p.name for k, p in enumerate(order) if not np.abs(M[:, k]).max(initial=0) > 0}, "uncovered places")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        wei = utility.transform_basis(place_invariants.compute_place_invariants(net))
    for v in wei:
        v = np.array([float(x) for x in np.asarray(v).ravel()])
        require(np.allclose(v @ D, 0, atol=1e-4) and v.min() > -1e-6, "weighted invariant %r", v.tolist())
    if all(w == 1 for w in W.values()):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            uni = uniform_invariant.apply(net)
        for v in uni:
            v = np.array([float(x) for x in np.asarray(v).ravel()])
            require(np.allclose(v @ D, 0, atol=1e-6) and v.min() > -1e-6 and v.max() < 1 + 1e-6, "uniform invariant %r", v.tolist())
        comps = s_component.compute_s_components(net, uni)
        for cmp_ in comps:
            P = {x for x in cmp_ if isinstance(x, PetriNet.Place)}
            T = {x for x in cmp_ if isinstance(x, PetriNet.Transition)}
            req_eq(T, {t for t in ts for p in P if (p, t) in W or (t, p) in W}, "transitions of an S-component")
            for t in T:
                require(sum((p, t) in W for p in P) == 1 and sum((t, p) in W for p in P) == 1, "S-component %r: one input and one output of %r", cmp_, t)
        # an S-component without places on a choice keeps its tokens along the walk
            require(sum(mk.get(p, 0) for p in P) == sum(im.get(p, 0) for p in P), "tokens of an S-component are constant")
        req_eq({p.name for p in s_component.compute_uncovered_places_in_component(comps, net)}, {p.name for p in ps} - {x.name for cmp_ in comps for x in cmp_}, "places outside of the S-components")
        if comps:
            ctx.label("S-component")
    # silent paths
    sp = pu.get_places_shortest_path_by_hidden(net, case["depth"])
    req_eq(set(sp), set(ps), "places of the shortest paths")
    for p in ps:
        dist, q = {}, deque([(p, 0)])
        while q:
            x, d = q.popleft()
            if d > case["depth"]:
                continue
            for t in ts:
                if t.label is None and (x, t) in W:
                    for y in ps:
                        if (t, y) in W and y not in dist:
                            dist[y] = d + 1
                            q.append((y, d + 1))
        req_eq({y: len(v) for y, v in sp[p].items()}, dist, "lengths of the shortest silent paths from %r" % p)
        for y, v in sp[p].items():
            x = {p}
            for t in v:
                require(t.label is None and any((z, t) in W for z in x), "path %r from %r to %r", v, p, y)
                x = {z for z in ps if (t, z) in W}
            require(y in x, "path %r from %r to %r", v, p, y)
    isp = pu.invert_spaths_dictionary(sp)
    req_eq({y: {x: set(v) for x, v in d.items()} for y, d in isp.items()}, {y: {x: set(sp[x][y]) for x in ps if y in sp[x]} for y in ps if any(y in sp[x] for x in ps)}, "inverted shortest paths")
    ctx.nontrivial(len(ps) >= 3 and len(ts) >= 2)
    ctx.label(case["k"])
    if len(inv):
        ctx.label("invariant")


# ---------- shortest firing sequences
@st.composite
def pcase(draw):
    s = draw(st.one_of(nets.conserving_net(), nets.tree_net(), nets.free_net(max_w=2)))
    return dict(s=s, walk=draw(st.lists(st.integers(0, 9), max_size=8)), own=draw(st.booleans()))


def check_path(case, ctx):
    net, im, fm, ps, ts = build.net(case["s"])
    r = ref.RNet(net, im, fm)
    goal = r.fm
    if case["own"]:
        goal = r.im
        for x in case["walk"]:
            en = r.enabled(goal)
            if not en:
                break
            goal = r.fire(goal, en[x % len(en)])
    r.reach(cap=1500, bound=12)
    dist, q = {r.im: 0}, deque([r.im])
    while q:
        x = q.popleft()
        for k in r.enabled(x):
            y = r.fire(x, k)
            if y not in dist:
                dist[y] = dist[x] + 1
                q.append(y)
    fin = Marking({p: goal[r.idx[p]] for p in ps if goal[r.idx[p]]})
    res = getattr(explore_path, "__search")(net, im, fin)
    if goal not in dist:
        require(res is None, "a firing sequence to an unreachable marking: %r", res)
        ctx.label("unreachable")
        return
    require(res is not None, "no firing sequence found to a marking at distance %r", dist[goal])
    req_eq((res["cost"], len(res["alignment"])), (dist[goal], dist[goal]), "length of the shortest firing sequence")
    # the labels can be replayed
    S = {r.im}
    for l in res["alignment"]:
        S = {r.fire(x, k) for x in S for k in r.enabled(x) if r.trans[k][0] == l}
    require(goal in S, "sequence %r reaches the marking", res["alignment"])
    ctx.nontrivial(dist[goal] >= 3)


UNITS = [
    Unit("dfg", dcase(), check_dfg, 900, shards=2, rule="at least three accepted traces of up to four activities"),
    Unit("bordered", bt, check_bordered, 500, shards=2, rule="tree with an operator and at least two short traces"),
    Unit("structure", ncase(), check_structure, 700, shards=3, rule="at least three places and two transitions"),
    Unit("paths", pcase(), check_path, 500, shards=2, rule="shortest sequence of at least three transitions"),
]
