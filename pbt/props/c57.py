"""C57 Petri net editing, reset/inhibitor reductions, stochastic arc weight nets"""
import contextlib
import io
import random
from collections import Counter, deque
from hypothesis import strategies as st
import gen, build, ref, nets
import ocel as oc
from core import Unit, require, req_eq
from pm4py.objects.petri_net.obj import PetriNet, Marking, ResetInhibitorNet
from pm4py.objects.petri_net.utils import petri_utils as pu
from pm4py.objects.petri_net import properties as P

META = dict(
    title="Petri nets are edited, projected and reduced without changing the rest",
    statement="Adding and removing nodes and arcs and merging nets keep the net and the arc lists of its nodes consistent and touch nothing else; trace nets, variants of acyclic nets, source and sink markings, place projections and graph forms of a net agree with its places, arcs and firing rule. "
              "Each reset/inhibitor reduction rule keeps the language of a workflow net with reset and inhibitor arcs. "
              "In a stochastic arc weight net the enabled bindings, their effect and their probabilities (adding up to one) follow the arc weight distributions, the conversions to stochastic nets keep them, and the nets discovered from an object-centric log weigh every arc of an activity by the number of its events per number of related objects.",
    over=["programs", "histories"], quant="generated edit sequences, nets, workflow nets with reset and inhibitor arcs, stochastic arc weight nets with markings, and object-centric logs",
    why="tests build a handful of fixed nets; that no arc is lost or left dangling, that a rule keeps the language and that probabilities add up must hold for every net and edit history",
    files=["pm4py/objects/petri_net/utils/petri_utils.py", "pm4py/objects/petri_net/utils/reduction.py", "pm4py/objects/petri_net/utils/projection.py", "pm4py/objects/petri_net/utils/networkx_graph.py", "pm4py/objects/petri_net/utils/initial_marking.py", "pm4py/objects/petri_net/utils/final_marking.py", "pm4py/objects/petri_net/saw_net", "pm4py/objects/petri_net/stochastic", "pm4py/algo/discovery/ocel/saw_nets"],
    mech=[("reset/inhibitor reduction", "pm4py/objects/petri_net/utils/reduction.py"), ("SAW semantics", "pm4py/objects/petri_net/saw_net/semantics.py"), ("SAW conversion", "pm4py/objects/petri_net/saw_net/convert.py"), ("SAW discovery", "pm4py/algo/discovery/ocel/saw_nets/variants/classic.py")],
    limits="Languages are compared up to length 4. Unweighted workflow nets for the reductions.")


# ---- edits
@st.composite
def edit_st(draw):
    op = st.tuples(st.sampled_from(["place", "trans", "arc", "arc", "arc", "arc", "rplace", "rtrans", "rarc", "merge"]), st.integers(0, 7), st.integers(0, 7), st.integers(1, 3), st.booleans())
    return {"ops": [list(x) for x in [("place", 0, 0, 1, True)] * 3 + [("trans", k, 0, 1, k == 0) for k in range(3)] + draw(st.lists(op, min_size=4, max_size=25))], "other": draw(nets.free_net())}


def consistent(net, what):
    nodes = list(net.places) + list(net.transitions)
    for n in nodes:
        for a in n.in_arcs:
            require(a in net.arcs and a.target is n, "%s: incoming arc %s of %s", what, a, n)
        for a in n.out_arcs:
            require(a in net.arcs and a.source is n, "%s: outgoing arc %s of %s", what, a, n)
    for a in net.arcs:
        require(any(a.source is n for n in nodes) and any(a.target is n for n in nodes), "%s: arc %s without its nodes", what, a)
        require(a in a.source.out_arcs and a in a.target.in_arcs, "%s: arc %s unknown to its nodes", what, a)


def snapshot(net):
    return (Counter(p.name for p in net.places), Counter((t.name, t.label) for t in net.transitions), Counter((a.source.name, a.target.name, a.weight) for a in net.arcs))


def check_edit(case, ctx):
    net = PetriNet("x")
    pl, tr, arcs = [], [], []   # the model: live nodes with names, arcs (source, target, weight)
    np_, nt = 0, 0
    mp, mt, ma = Counter(), Counter(), Counter()
    removed = 0
    for op, i, j, w, b in case["ops"]:
        if op == "place":
            p = pu.add_place(net, "p%d" % np_)
            np_ += 1
            require(isinstance(p, PetriNet.Place), "add_place returns the place")
            pl.append(p)
            mp[p.name] += 1
        elif op == "trans":
            lab = None if b else "A%d" % i
            t = pu.add_transition(net, "t%d" % nt, lab)
            nt += 1
            req_eq((t.name, t.label), ("t%d" % (nt - 1), lab), "add_transition")
            tr.append(t)
            mt[(t.name, lab)] += 1
        elif op == "arc" and pl and tr:
            x, y = pl[i % len(pl)], tr[j % len(tr)]
            if not b:
                x, y = y, x
            a = pu.add_arc_from_to(x, y, net, weight=w)
            req_eq((a.source, a.target, a.weight), (x, y, w), "add_arc_from_to")
            arcs.append(a)
            ma[(x.name, y.name, w)] += 1
        elif op == "rarc" and arcs:
            a = arcs.pop(i % len(arcs))
            require(pu.remove_arc(net, a) is net, "remove_arc returns the net")
            ma[(a.source.name, a.target.name, a.weight)] -= 1
            removed += 1
        elif op in ("rplace", "rtrans"):
            L = pl if op == "rplace" else tr
            if not L:
                continue
            n = L.pop(i % len(L))
            require((pu.remove_place if op == "rplace" else pu.remove_transition)(net, n) is net, "%s returns the net", op)
            for a in [a for a in arcs if a.source is n or a.target is n]:
                arcs.remove(a)
                ma[(a.source.name, a.target.name, a.weight)] -= 1
                removed += 1
            if op == "rplace":
                mp[n.name] -= 1
            else:
                mt[(n.name, n.label)] -= 1
        elif op == "merge":
            o = build.net(case["other"])[0]
            s = snapshot(o)
            require(pu.merge(trgt=net, nets=[o]) is net, "merge returns the target")
            req_eq(snapshot(o), s, "merged net is not changed")
            mp.update(s[0])
            mt.update(s[1])
            ma.update(s[2])
        req_eq(snapshot(net), (+mp, +mt, +ma), "content after %s" % op)
        consistent(net, op)
    ctx.nontrivial(removed > 0)
    # getters
    for t in net.transitions:
        if sum(1 for x in net.transitions if x.name == t.name) == 1:
            require(pu.get_transition_by_name(net, t.name) is t, "get_transition_by_name")
        req_eq(pu.pre_set(t), {a.source for a in net.arcs if a.target is t}, "pre_set")
        req_eq(pu.post_set(t), {a.target for a in net.arcs if a.source is t}, "post_set")
    require(pu.get_transition_by_name(net, "no such name") is None, "unknown name")
    ps = sorted(net.places, key=lambda p: p.name)[:2]
    req_eq(dict(pu.place_set_as_marking(ps)), {p: 1 for p in ps}, "place_set_as_marking")
    # keep what has both a preset and a postset
    live_t = set(net.transitions)
    live_p = set(net.places)
    A = [(a.source, a.target) for a in net.arcs]
    while True:
        bad_t = {t for t in live_t if not any(y is t for x, y in A) or not any(x is t for x, y in A)}
        bad_p = {p for p in live_p if not any(y is p or x is p for x, y in A)}
        if not bad_t and not bad_p:
            break
        live_t -= bad_t
        live_p -= bad_p
        A = [(x, y) for x, y in A if not ({x, y} & (bad_t | bad_p))]
    pu.remove_unconnected_components(net)
    req_eq((set(net.places), set(net.transitions)), (live_p, live_t), "remove_unconnected_components")
    consistent(net, "remove_unconnected_components")


# ---- views of a net
@st.composite
def view_st(draw):
    u = draw(nets.free_net())
    u["trans"] = [[n, "V%d" % k] for k, (n, l) in enumerate(u["trans"])]
    return {"net": draw(st.one_of(st.just(u), nets.free_net(), nets.tree_net(mutations=2), nets.tree_net(dup=False, tau=False))), "traces": draw(gen.traces(4, 5, 2, min_len=0)), "costs": draw(st.lists(st.integers(0, 9), min_size=8, max_size=8))}


def check_views(case, ctx):
    from pm4py.objects.petri_net.utils import projection, networkx_graph, initial_marking, final_marking, embed_stochastic_map
    s = case["net"]
    net, im, fm, ps, ts = build.net(s)
    before = snapshot(net)
    ins = {b for k, a, b, w in s["arcs"] if k == "tp"}
    outs = {a for k, a, b, w in s["arcs"] if k == "pt"}
    req_eq(dict(initial_marking.discover_initial_marking(net)), {p: 1 for i, p in enumerate(ps) if i not in ins}, "places without incoming arcs")
    req_eq(dict(final_marking.discover_final_marking(net)), {p: 1 for i, p in enumerate(ps) if i not in outs}, "places without outgoing arcs")
    pairs = {(ps[a], ts[b]) if k == "pt" else (ts[a], ps[b]) for k, a, b, w in s["arcs"]}
    G, inv = networkx_graph.create_networkx_directed_graph(net)
    req_eq({(inv[x], inv[y]) for x, y in G.edges()}, pairs, "directed graph")
    req_eq({inv[x] for x in G.nodes()}, set(ps) | set(ts), "nodes of the graph")
    wt = {t: k + 1 for k, t in enumerate(ts)}
    G, d, inv = networkx_graph.create_networkx_directed_graph_ret_dict_both_ways(net, weight=wt)
    req_eq({(inv[x], inv[y]): q["weight"] for x, y, q in G.edges(data=True)}, {(x, y): wt[x if x in wt else y] for x, y in pairs}, "weights of the graph")
    req_eq({k: v for v, k in d.items()}, inv, "both dictionaries")
    U, a, b, inv = networkx_graph.create_networkx_undirected_graph(net, ps[0], ps[-1])
    req_eq({frozenset((inv[x], inv[y])) for x, y in U.edges()}, {frozenset(x) for x in pairs}, "undirected graph")
    req_eq((inv[a], inv[b]), (ps[0], ps[-1]), "source and sink of the graph")
    n = 0
    for i, p in enumerate(ps):
        I = [(x, w) for k, x, y, w in s["arcs"] if k == "tp" and y == i]
        O = [(y, w) for k, x, y, w in s["arcs"] if k == "pt" and x == i]
        ok = I and O and all(s["trans"][x][1] for x, w in I + O)
        try:
            pn, _, _ = projection.project_net_on_place(p)
        except Exception as e:
            require(not ok, "projection on %s refused: %s", p, e)
            continue
        require(ok, "projection on %s", p)
        n += 1
        consistent(pn, "projection")
        req_eq([x.name for x in pn.places], [p.name], "place of the projection")
        req_eq(Counter((x.source.name, x.source.label) for x in pn.arcs if isinstance(x.target, PetriNet.Place)), Counter(tuple(s["trans"][x]) for x, w in I), "preset of the projection")
        req_eq(Counter((x.target.name, x.target.label) for x in pn.arcs if isinstance(x.source, PetriNet.Place)), Counter(tuple(s["trans"][x]) for x, w in O), "postset of the projection")
    labs = [l for _, l in s["trans"]]
    if all(labs) and len(set(labs)) == len(labs):
        acts = sorted(labs)
        cols = Counter()
        loop = False
        for i in range(len(ps)):
            I = {s["trans"][x][1]: w for k, x, y, w in s["arcs"] if k == "tp" and y == i}
            O = {s["trans"][y][1]: w for k, x, y, w in s["arcs"] if k == "pt" and x == i}
            loop = loop or bool(set(I) & set(O))
            if I and O:
                cols[tuple(O.get(x, 0) - I.get(x, 0) for x in acts)] += 1
        try:
            M = projection.project_net_on_matrix(net, acts)
        except Exception as e:
            require(loop or not cols, "matrix projection refused: %s", e)
        else:
            req_eq(Counter(tuple(int(v) for v in row) for row in M.T.tolist()), cols, "matrix of the net")
            ctx.label("matrix")
    embed_stochastic_map.apply({t: k for k, t in enumerate(ts)})
    req_eq(embed_stochastic_map.extract(net), {t: k for k, t in enumerate(ts)}, "stochastic map embedded in the net")
    req_eq(snapshot(net), before, "the net is not changed")
    consistent(net, "views")
    ctx.nontrivial(n > 0)
    # trace nets
    from pm4py.objects.log.obj import Trace, Event
    for tr in case["traces"]:
        T = Trace([Event({"concept:name": x}) for x in tr], attributes={"concept:name": "1"})
        tn, a, b = pu.construct_trace_net(T)
        consistent(tn, "trace net")
        req_eq(ref.net_lang(tn, a, b, 6), {tuple(tr)}, "language of the trace net")
        req_eq(len(tn.transitions), len(tr), "one transition per event")
        req_eq(sorted((t.properties[P.TRACE_NET_TRANS_INDEX], t.label) for t in tn.transitions), list(enumerate(tr)), "indices of the trace net")
        tn, a, b, cm = pu.construct_trace_net_cost_aware(T, case["costs"])
        req_eq(ref.net_lang(tn, a, b, 6), {tuple(tr)}, "language of the cost aware trace net")
        req_eq(sorted((t.properties[P.TRACE_NET_TRANS_INDEX], t.label, cm[t]) for t in tn.transitions), [(k, x, case["costs"][k]) for k, x in enumerate(tr)], "costs of the trace net")


# ---- variants of acyclic nets
@st.composite
def acy_st(draw):
    from hypothesis import assume
    s = nets.tree_spec(draw(gen.tree(depth=3, ops=("->", "X", "+"), max_leaves=6, pool=gen.ACTS, dup=True, tau=True)))
    for _ in range(draw(st.integers(0, 2))):
        nets.mutate(draw, s, kinds=("dupplace", "duptrans", "place"))
    return {"net": s}


def check_variants(case, ctx):
    net, im, fm = build.net(case["net"])[:3]
    try:
        exp = ref.net_lang(net, im, fm, 12, cap=6000)
        seen, edges = ref.RNet(net, im, fm).reach(cap=2000)
    except ref.Overflow:
        ctx.label("overflow")
        return
    got = pu.acyclic_net_variants(net, im, fm)
    tr = [tuple(e["concept:name"] for e in t) for t in got]
    req_eq(sorted(tr), sorted(exp), "variants of the net")
    got = pu.acyclic_net_variants(net, im, fm, activity_key="act")
    req_eq(sorted(tuple(e["act"] for e in t) for t in got), sorted(exp), "variants with another key")
    ctx.nontrivial(len(exp) > 1)


# ---- reset / inhibitor reductions
class RI:
    """reference semantics of a net with reset and inhibitor arcs"""

    def __init__(self, net, im, fm):
        self.places = sorted(net.places, key=lambda p: p.name)
        ix = {p: i for i, p in enumerate(self.places)}
        self.trans = []
        for t in sorted(net.transitions, key=lambda t: t.name):
            pre, post, res, inh = Counter(), Counter(), set(), set()
            for a in net.arcs:
                ty = a.properties.get("arctype")
                if a.target is t:
                    (res.add(ix[a.source]) if ty == "reset" else inh.add(ix[a.source]) if ty == "inhibitor" else pre.update({ix[a.source]: a.weight}))
                elif a.source is t:
                    post[ix[a.target]] += a.weight
            self.trans.append((t.label, pre, post, (res, inh)))
        for m in (im, fm):
            for p in m:
                require(p in ix, "place %s of the marking is no longer in the net", p)
        self.im, self.fm = (tuple(m.get(p, 0) for p in self.places) for m in (im, fm))

    def enabled(self, m):
        return [k for k, (l, pre, post, (res, inh)) in enumerate(self.trans) if all(m[p] >= w for p, w in pre.items()) and not any(m[p] for p in inh)]

    def fire(self, m, k):
        l, pre, post, (res, inh) = self.trans[k]
        v = [0 if i in res else x - pre.get(i, 0) for i, x in enumerate(m)]
        for p, w in post.items():
            v[p] += w
        return tuple(v)


@st.composite
def ri_st(draw):
    if draw(st.booleans()):
        s = draw(nets.tree_net(depth=3, max_leaves=6, mutations=2, dup=True))
    else:  # a branch with series of silent transitions next to another branch
        a = gen.ACTS
        inner = draw(st.sampled_from([["+", a[2], a[3]], ["->", None, a[2]], ["X", None, ["+", a[2], a[3]]], ["->", ["X", a[3], None], a[2]], ["->", a[2], ["+", None, a[3]]]]))
        s = nets.tree_spec(["+", draw(st.sampled_from([a[0], ["*", a[0], None], ["->", a[0], a[4]]])), draw(st.sampled_from([["->", a[1], inner], ["->", a[1], inner, a[5]], inner]))])
    have = {(a[0], a[1], a[2]) for a in s["arcs"]}
    sp = []
    if draw(st.booleans()):  # a cancelling transition, parallel to the rest: takes its own token and resets (nearly) all other places
        i, o = (int(list(s[k])[0]) for k in ("im", "fm"))
        s["places"] += ["src", "own", "done", "sink"]
        n = len(s["places"])
        k = len(s["trans"])
        s["trans"] += [["split", None], ["cancel", draw(st.sampled_from(["R", None]))], ["regular", None], ["end", None]]
        for x in [["pt", n - 4, k], ["tp", k, i], ["tp", k, n - 3], ["pt", n - 3, k + 1], ["tp", k + 1, n - 2], ["pt", n - 3, k + 2], ["pt", o, k + 2], ["tp", k + 2, n - 2], ["pt", n - 2, k + 3], ["tp", k + 3, n - 1]]:
            s["arcs"].append(x + [1])
        s["im"], s["fm"] = {str(n - 4): 1}, {str(n - 1): 1}
        have = {(a[0], a[1], a[2]) for a in s["arcs"]}
        miss = draw(st.lists(st.integers(0, n - 5), max_size=2))
        sp += [["reset", p, k + 1] for p in range(n - 4) if p not in miss]
    src = {int(p) for p in s["im"]} | {int(p) for p in s["fm"]}
    for _ in range(draw(st.integers(0, 4))):
        p, t = draw(st.integers(0, len(s["places"]) - 1)), draw(st.integers(0, len(s["trans"]) - 1))
        k = draw(st.sampled_from(["inhibitor", "reset", "both"]))
        if p in src or ("pt", p, t) in have or any(x[1] == p and x[2] == t for x in sp):
            continue
        for q in (["inhibitor", "reset"] if k == "both" else [k]):
            sp.append([q, p, t])
    # the same special arcs for places around silent transitions
    for _ in range(draw(st.integers(0, 2))):
        sil = [k for k, (n, l) in enumerate(s["trans"]) if l is None]
        if not sil:
            break
        k = draw(st.sampled_from(sil))
        t = draw(st.integers(0, len(s["trans"]) - 1))
        q = draw(st.sampled_from(["inhibitor", "reset"]))
        for p in [a[1] for a in s["arcs"] if a[0] == "pt" and a[2] == k] + [a[2] for a in s["arcs"] if a[0] == "tp" and a[1] == k]:
            if p not in src and t != k and ("pt", p, t) not in have and not any(x[1] == p and x[2] == t for x in sp) and draw(st.booleans()):
                sp.append([q, p, t])
    return {"net": s, "special": sp, "rule": draw(st.sampled_from(["fst", "fsp", "fpt", "fpp", "elt", "elp", "a", "r", "all", "all"]))}


def check_ri(case, ctx):
    from pm4py.objects.petri_net.utils import reduction as R
    s, rule = case["net"], case["rule"]
    net = ResetInhibitorNet("n")
    ps = [PetriNet.Place(x) for x in s["places"]]
    ts = [PetriNet.Transition(x, l) for x, l in s["trans"]]
    net.places.update(ps)
    net.transitions.update(ts)
    for k, a, b, w in s["arcs"]:
        pu.add_arc_from_to(ps[a], ts[b], net) if k == "pt" else pu.add_arc_from_to(ts[a], ps[b], net)
    for k, p, t in case["special"]:
        pu.add_arc_from_to(ps[p], ts[t], net, type=k)
    im, fm = Marking({ps[int(k)]: v for k, v in s["im"].items()}), Marking({ps[int(k)]: v for k, v in s["fm"].items()})
    if rule in ("fpt", "fpp", "a") and len(ps) + len(ts) > 12:
        ctx.label("large")
        return
    if rule == "a" and len(ps) + len(ts) > 9:
        ctx.label("large")
        return
    # the rules are stated for nets whose source has no incoming and whose sink has no outgoing arcs
    io = [a for a in s["arcs"] if (a[0] == "tp" and str(a[2]) in s["im"]) or (a[0] == "pt" and str(a[1]) in s["fm"])]
    if io:
        ctx.label("no workflow net")
        return
    try:
        exp = ref.rnet_lang(RI(net, im, fm), 4, cap=8000)
    except ref.Overflow:
        ctx.label("overflow")
        return
    n = (len(net.places), len(net.transitions), len(net.arcs))
    vis = Counter(t.label for t in net.transitions if t.label is not None)
    f = {"fst": lambda: R.apply_fst_rule(net), "fsp": lambda: R.apply_fsp_rule(net, im, fm), "fpt": lambda: R.apply_fpt_rule(net), "fpp": lambda: R.apply_fpp_rule(net, im), "elt": lambda: R.apply_elt_rule(net),
         "elp": lambda: R.apply_elp_rule(net, im), "a": lambda: R.apply_a_rule(net), "r": lambda: R.apply_r_rule(net), "all": lambda: R.apply_reset_inhibitor_net_reduction(net, im, fm)}[rule]
    f()
    consistent(net, rule)
    m = (len(net.places), len(net.transitions), len(net.arcs))
    ctx.nontrivial(m != n)
    ctx.label(rule + ("*" if m != n else ""))
    req_eq(Counter(t.label for t in net.transitions if t.label is not None), vis, "visible transitions")
    try:
        got = ref.rnet_lang(RI(net, im, fm), 4, cap=30000)
    except ref.Overflow:
        ctx.label("overflow")
        return
    req_eq(sorted(got), sorted(exp), "language after the rule %s" % rule)


# ---- stochastic arc weight nets
@st.composite
def saw_st(draw):
    s = draw(nets.free_net(max_p=4, max_t=4, max_w=1, max_tok=4))
    dist = st.dictionaries(st.integers(1, 3).map(str), st.sampled_from([1, 2, 3, 0.5, 0.25, 1, 2, 0]), min_size=1, max_size=2).filter(lambda d: any(d.values()))
    for a in s["arcs"]:
        a[3] = draw(dist)
    seen, arcs = set(), []
    for a in s["arcs"]:
        if (a[0], a[1], a[2]) not in seen:
            seen.add((a[0], a[1], a[2]))
            arcs.append(a)
    s["arcs"] = arcs
    return {"net": s, "weights": draw(st.lists(st.sampled_from([1.0, 2.0, 0.5, 3.0]), min_size=len(s["trans"]), max_size=len(s["trans"]))), "seed": draw(st.integers(0, 99))}


def saw_net(s, ws):
    from pm4py.objects.petri_net.saw_net.obj import StochasticArcWeightNet as S
    net = S("saw")
    ps = [S.Place(x) for x in s["places"]]
    ts = [S.Transition(x, l, weight=w) for (x, l), w in zip(s["trans"], ws)]
    net.places.update(ps)
    net.transitions.update(ts)
    for k, a, b, d in s["arcs"]:
        x, y = (ps[a], ts[b]) if k == "pt" else (ts[a], ps[b])
        pu.add_arc_from_to(x, y, net, weight={int(q): v for q, v in d.items()}, type=P.STOCHASTIC_ARC)
    consistent(net, "SAW net")
    return net, ps, ts


def bindings(s, t):
    """[(consumed per place, produced per place, priority, normalised)] over positive weights"""
    out = [({}, {}, 1.0, 1.0)]
    for k, a, b, d in s["arcs"]:
        if (k == "pt" and b != t) or (k == "tp" and a != t):
            continue
        tot = sum(d.values())
        nxt = []
        for i, o, pr, nm in out:
            for q, v in d.items():
                if v > 0:
                    if k == "pt":
                        nxt.append(({**i, a: int(q)}, o, pr * v, nm * v / tot))
                    else:
                        nxt.append((i, {**o, b: int(q)}, pr * v, nm * v / tot))
        out = nxt
    return out


def bkey(b, ps):
    i = {ps.index(a.source): w for a, w in b if isinstance(a.source, PetriNet.Place)}
    o = {ps.index(a.target): w for a, w in b if isinstance(a.target, PetriNet.Place)}
    return (tuple(sorted(i.items())), tuple(sorted(o.items())))


def k2(i, o):
    return (tuple(sorted(i.items())), tuple(sorted(o.items())))


def near(a, b):
    return abs(a - b) <= 1e-9 * max(1, abs(a), abs(b))


def check_saw(case, ctx):
    from pm4py.objects.petri_net.saw_net.semantics import GlobalStochasticArcWeightNetSemantics as G, LocalStochasticArcWeightNetSemantics as Lc
    s, ws = case["net"], case["weights"]
    net, ps, ts = saw_net(s, ws)
    im = Marking({ps[int(k)]: v for k, v in s["im"].items()})
    m0 = {int(k): v for k, v in s["im"].items()}
    leg = [bindings(s, t) for t in range(len(ts))]
    en = [[b for b in leg[t] if all(m0.get(p, 0) >= w for p, w in b[0].items())] for t in range(len(ts))]
    total = sum(ws[t] * b[2] for t in range(len(ts)) for b in en[t])
    ctx.nontrivial(sum(map(len, en)) > 1)
    out = io.StringIO()
    for S, name in ((G, "global"), (Lc, "local")):
        acc = 0.0
        for k, t in enumerate(ts):
            req_eq(bool(S.is_enabled(net, t, im)), all(m0.get(a, 0) >= min(int(q) for q, v in d.items() if v > 0) for kk, a, b, d in s["arcs"] if kk == "pt" and b == k), name + " enabledness of %s" % t)
            req_eq(bool(S.is_enabled(net, t, im)), bool(en[k]), name + " enabledness and bindings of %s" % t)
            ab = S.all_legal_bindings(net, t)
            req_eq(Counter(bkey(b, ps) for b in ab), Counter(k2(b[0], b[1]) for b in leg[k]), name + " legal bindings of %s" % t)
            eb = S.all_enabled_bindings(net, t, im)
            req_eq(Counter(bkey(b, ps) for b in eb), Counter(k2(b[0], b[1]) for b in en[k]), name + " enabled bindings of %s" % t)
            pri = {k2(b[0], b[1]): b[2] for b in leg[k]}
            pt = 0.0
            for b in ab:
                require(near(S.amortized_priority(b), pri[bkey(b, ps)]), "priority of a binding")
                req_eq(bool(S.is_enabled_binding(net, t, b, im)), any(bkey(b, ps) == bkey(x, ps) for x in eb), "enabled binding")
            for b in eb:
                with contextlib.redirect_stdout(out):
                    p = S.probability_of_binding(net, t, b, im)
                require(near(p, ws[k] * pri[bkey(b, ps)] / total), "%s probability of a binding of %s: %r, expected %r", name, t, p, ws[k] * pri[bkey(b, ps)] / total)
                acc += p
                pt += p
                before = dict(im)
                n = S.fire(net, b, im)
                req_eq(dict(im), before, "marking is not changed by firing")
                e = Counter(m0)
                i, o = bkey(b, ps)
                for q, w in i:
                    e[q] -= w
                for q, w in o:
                    e[q] += w
                req_eq({ps.index(x): v for x, v in n.items() if v}, {x: v for x, v in e.items() if v}, "effect of a binding")
            if S is G:
                require(near(S.probability_of_transition(net, t, im), pt), "probability of %s", t)
        require(near(acc, 1.0 if any(en) else 0.0), "%s probabilities add up to %r", name, acc)
    require(out.getvalue() == "", "nothing is printed: %r", out.getvalue())
    x = G.sample_enabled_transition(net, im, seed=case["seed"])
    if not any(en):
        require(x is None, "nothing to sample: %s", x)
    else:
        require(any(bkey(x[1], ps) == bkey(b, ps) for b in G.all_enabled_bindings(net, x[0], im)), "sampled binding is enabled")


def check_sawconv(case, ctx):
    from pm4py.objects.petri_net.saw_net import convert
    s, ws = case["net"], case["weights"]
    net, ps, ts = saw_net(s, ws)
    sn, pm = convert.convert_saw_net_to_stochastic_net_global_semantics(net)
    consistent(sn, "converted net")
    req_eq(set(pm), set(ps), "all places")
    inv = {v: ps.index(k) for k, v in pm.items()}
    req_eq(set(inv), set(sn.places), "places of the converted net")
    got = []
    for t in sn.transitions:
        i = {inv[a.source]: a.weight for a in t.in_arcs}
        o = {inv[a.target]: a.weight for a in t.out_arcs}
        got.append((str(t.label), k2(i, o), round(t.weight, 9)))
    exp = []
    for k in range(len(ts)):
        for i, o, pr, nm in bindings(s, k):
            exp.append((str(ts[k].label), k2(i, o), round(ws[k] * nm, 9)))
    req_eq(sorted(got), sorted(exp), "one weighted transition per binding")
    ctx.nontrivial(len(exp) > len(ts))
    # state space
    start = tuple(int(s["im"].get(str(i), 0)) for i in range(len(ps)))
    seen, edges, q = {start}, [], deque([start])
    while q:
        m = q.popleft()
        for k in range(len(ts)):
            bs = [b for b in bindings(s, k) if all(m[p] >= w for p, w in b[0].items())]
            tot = sum(b[2] for b in bs)
            for i, o, pr, nm in bs:
                n = tuple(x - i.get(p, 0) + o.get(p, 0) for p, x in enumerate(m))
                edges.append((str(ts[k].label), m, n, round(ws[k] * pr / tot, 9)))
                if n not in seen:
                    seen.add(n)
                    q.append(n)
        if len(seen) > 40 or len(edges) > 200:
            ctx.label("large state space")
            return
    im = Marking({ps[int(k)]: v for k, v in s["im"].items()})
    sn, sim = convert.convert_saw_net_to_stochastic_net_local_semantics(net, im)
    consistent(sn, "unfolded net")
    got = []
    idx = {x: i for i, x in enumerate(s["places"])}

    def mk(arcs, side):
        v = [0] * len(ps)
        for a in arcs:
            v[idx[getattr(a, side).name.split("-")[0]]] += a.weight
        return tuple(v)
    for t in sn.transitions:
        got.append((str(t.label), mk(t.in_arcs, "source"), mk(t.out_arcs, "target"), round(t.weight, 9)))
    req_eq(sorted(got), sorted(edges), "one transition per reachable marking and binding")
    req_eq(Counter((p.name.split("-")[0], v) for p, v in sim.items()), Counter((s["places"][i], v) for i, v in enumerate(start) if v), "initial marking")
    req_eq(len(sn.places), sum(1 for m in seen for x in m if x), "places of the unfolded net")
    ctx.label("unfolded")


def check_sawdisc(case, ctx):
    from pm4py.algo.discovery.ocel.saw_nets import algorithm as D
    from pm4py.objects.petri_net.saw_net.obj import StochasticArcWeightNet as S
    from pm4py.objects.petri_net.saw_net.semantics import GlobalStochasticArcWeightNetSemantics as G
    o = oc.build(case)
    n0 = oc.norm(o)
    res = D.apply(o)
    req_eq(oc.norm(o), n0, "log is not changed")
    types = {x["type"] for x in case["objects"]}
    req_eq(set(res["ot_saw_nets"]), types, "a net per object type")
    many = False
    vis = set()
    for ot, net in res["ot_saw_nets"].items():
        consistent(net, "net of " + ot)
        ix = {i for i, x in enumerate(case["objects"]) if x["type"] == ot}
        cnt = {}
        for e in case["events"]:
            k = len(set(e["objs"]) & ix)
            if k:
                cnt.setdefault(e["act"], Counter())[k] += 1
                many = many or k > 1
        req_eq(Counter(t.label for t in net.transitions if t.label is not None), Counter(list(cnt)), "activities of " + ot)
        vis |= set(cnt)
        for t in net.transitions:
            for a in set(t.in_arcs) | set(t.out_arcs):
                require(isinstance(a, S.Arc), "arc %s is a weighted arc", a)
                if t.label is not None:
                    req_eq(dict(a.weight_distribution), dict(cnt[t.label]), "weights of %s for %s" % (t.label, ot))
                else:
                    require(all(x > 0 for x in list(a.weight) + list(a.weight.values())), "weights of a silent transition %s", a.weight)
    net = res["multi_saw_net"]
    consistent(net, "net of all types")
    req_eq(Counter(t.label for t in net.transitions if t.label is not None), Counter(vis), "activities of all types")
    req_eq(len(net.places), sum(len(x.places) for x in res["ot_saw_nets"].values()), "places of all types")
    g = lambda a: (str(a.source.name if isinstance(a.source, PetriNet.Place) else a.source.label), str(a.target.name if isinstance(a.target, PetriNet.Place) else a.target.label), str(sorted(a.weight.items())))
    req_eq(Counter(g(a) for a in net.arcs), Counter(g(a) for x in res["ot_saw_nets"].values() for a in x.arcs), "arcs of all types")
    for a in net.arcs:
        require(isinstance(a, S.Arc), "arc %s of the net of all types is a weighted arc", a)
    for t in net.transitions:
        G.all_legal_bindings(net, t)
    deco = res["decorations_multi_saw_net"]
    require(all(p in deco for p in net.places) and all(a in deco for a in net.arcs), "places and arcs have the colour of their type")
    ctx.nontrivial(many)


UNITS = [Unit("edit", edit_st(), check_edit, 250, rule="something with arcs was removed"),
         Unit("views", view_st(), check_views, 250, rule="a place was projected"),
         Unit("variants", acy_st(), check_variants, 200, rule="more than one variant"),
         Unit("reset-inhibitor", ri_st(), check_ri, 2000, shards=4, rule="the rule applied"),
         Unit("saw", saw_st(), check_saw, 250, rule="several enabled bindings"),
         Unit("saw-conversion", saw_st(), check_sawconv, 250, rule="several bindings of a transition"),
         Unit("saw-discovery", oc.spec(max_ev=10, attrs=False), check_sawdisc, 120, rule="an event with several objects of a type")]
