"""C15 net simplifications keep the language"""
from hypothesis import strategies as st
import gen, build, ref, nets
from core import Unit, require, req_eq, Violation
import pm4py

META = dict(
    title="Petri net simplifications keep the visible behaviour of sound nets",
    statement="For every sound workflow net with unit arc weights, removing superfluous invisible transitions and removing implicit places gives a net accepting exactly the same sequences of visible activities between its markings. "
              "Removing the structurally redundant places of any weighted net keeps all its firing sequences and never leaves two equal places. No labelled transition is added or lost, the number of invisible transitions (respectively places) does not grow, and the markings refer to places of the returned net.",
    over=["inputs"], quant="all sound workflow nets within the size bound (block-structured, with redundant places, with extra ordering constraints)",
    why="tests reduce one discovered net and look at nothing; language preservation must hold for every sound net",
    files=["pm4py/objects/petri_net/utils/reduction.py", "pm4py/objects/petri_net/utils/murata.py", "pm4py/analysis.py"],
    mech=[("single entry/exit fusion", "pm4py/objects/petri_net/utils/reduction.py"), ("Berthelot redundant places", "pm4py/objects/petri_net/utils/murata.py")])
L = 5


def setup(case, ctx):
    net, im, fm, ps, ts = build.net(case)
    if ref.rnet_sound(nets.SNet(case), cap=1500) is not True or not ref.is_wf_net(net):
        ctx.label("unsound")
        return None
    lang = ref.rnet_lang(nets.SNet(case), L, cap=4000)
    return net, im, fm, lang


def cmp(got, exp, what):
    if got != exp:
        raise Violation("%s: language differs; missing %s extra %s" % (what, sorted(exp - got)[:4], sorted(got - exp)[:4]))


def lang_of(net, im, fm):
    try:
        return ref.net_lang(net, im, fm, L, 60000)
    except ref.Overflow:
        raise Violation("the simplified net has an exploding state space (%s, %s, %s)" % (net, im, fm))


def labels(net):
    return sorted(t.label for t in net.transitions if t.label is not None)


def consistent(net, im, fm):
    require(set(im) <= net.places and set(fm) <= net.places, "markings over existing places")
    for a in net.arcs:
        require(a.source in net.places | net.transitions and a.target in net.places | net.transitions, "no dangling arc")
        require(a in a.source.out_arcs and a in a.target.in_arcs, "arc registered")


def check_inv(case, ctx):
    x = setup(case, ctx)
    if x is None:
        return
    net, im, fm, lang = x
    lab, nt = labels(net), len(net.transitions)
    net2 = pm4py.reduce_petri_net_invisibles(net)
    consistent(net2, im, fm)
    req_eq(labels(net2), lab, "labelled transitions")
    require(len(net2.transitions) <= nt, "no transition added")
    ctx.nontrivial(len(net2.transitions) < nt)
    cmp(lang_of(net2, im, fm), lang, "reduce_petri_net_invisibles")


def check_impl(case, ctx):
    x = setup(case, ctx)
    if x is None:
        return
    net, im, fm, lang = x
    lab, np_ = labels(net), len(net.places)
    nt = len(net.transitions)
    net2, im2, fm2 = pm4py.reduce_petri_net_implicit_places(net, im, fm)
    consistent(net2, im2, fm2)
    req_eq(labels(net2), lab, "labelled transitions")
    req_eq(len(net2.transitions), nt, "transitions untouched")
    require(len(net2.places) <= np_, "no place added")
    ctx.nontrivial(len(net2.places) < np_)
    cmp(lang_of(net2, im2, fm2), lang, "reduce_petri_net_implicit_places")


def runs(net, im, n, cap=4000):
    """firing sequences (names of the transitions) up to length n, with the markings by place name"""
    T = [(t.name, {a.source.name: a.weight for a in t.in_arcs}, {a.target.name: a.weight for a in t.out_arcs}) for t in net.transitions]
    out, todo = {(): {p.name: k for p, k in im.items()}}, [()]
    while todo:
        w = todo.pop()
        if len(w) == n:
            continue
        m = out[w]
        for nm, i, o in T:
            if all(m.get(p, 0) >= k for p, k in i.items()):
                q = dict(m)
                for p, k in i.items():
                    q[p] -= k
                for p, k in o.items():
                    q[p] = q.get(p, 0) + k
                out[w + (nm,)] = q
                todo.append(w + (nm,))
                if len(out) > cap:
                    raise ref.Overflow
    return out


def check_red(case, ctx):
    """redundant places of any weighted net: all firing sequences stay, no other one appears"""
    from pm4py.objects.petri_net.utils import murata
    net, im, fm = build.net(case)[:3]
    exp = runs(net, im, case["n"])
    ps = {p.name for p in net.places}
    net2, im2, fm2 = murata.apply_reduction(net, im, fm)
    consistent(net2, im2, fm2)
    req_eq(len(net2.transitions), len(case["trans"]), "transitions untouched")
    left = {p.name for p in net2.places}
    require(left <= ps, "no place added")
    got = runs(net2, im2, case["n"])
    req_eq({p.name: k for p, k in im2.items()}, {p: k for p, k in exp[()].items() if p in left}, "initial marking")
    req_eq({p.name: k for p, k in fm2.items()}, {case["places"][int(k)]: v for k, v in case["fm"].items() if case["places"][int(k)] in left}, "final marking")
    if set(got) != set(exp):
        raise Violation("removing the redundant places %s changes the firing sequences: missing %s, extra %s" % (sorted(ps - left), sorted(set(exp) - set(got))[:3], sorted(set(got) - set(exp))[:3]))
    # a place that equals another one is redundant (places of the final marking stay)
    same = {}
    for p in [p for p in net2.places if p not in fm2]:
        k = (tuple(sorted((a.source.name, a.weight) for a in p.in_arcs)), tuple(sorted((a.target.name, a.weight) for a in p.out_arcs)), im2[p])
        require(k not in same, "the places %s and %s are equal, and both are kept", p.name, same.get(k))
        same[k] = p.name
    ctx.nontrivial(len(left) < len(ps) and len(exp) > 2)


@st.composite
def wnet(draw):
    """weighted nets with places derived from others: sums, multiples, shifted markings, self loops"""
    s = draw(nets.free_net(max_p=3, max_t=4, max_w=2, max_tok=2))
    s["im"] = dict(s["im"])
    eff = lambda p: ({t: w for k, a, t, w in s["arcs"] if k == "pt" and a == p}, {a: w for k, a, t, w in s["arcs"] if k == "tp" and t == p})
    for _ in range(draw(st.integers(1, 2))):
        i, o, m = {}, {}, draw(st.sampled_from([0, 0, 0, 1, -1]))
        for p in draw(st.lists(st.integers(0, len(s["places"]) - 1), min_size=1, max_size=2, unique=True)):
            k = draw(st.sampled_from([1, 1, 2]))
            a, b = eff(p)
            for t, w in a.items():
                i[t] = i.get(t, 0) + k * w
            for t, w in b.items():
                o[t] = o.get(t, 0) + k * w
            m += k * s["im"].get(str(p), 0)
        for t, d in draw(st.lists(st.tuples(st.integers(0, len(s["trans"]) - 1), st.sampled_from([1, 2, -1])), max_size=1)):
            which = draw(st.sampled_from(["in", "out", "both"]))
            for x in ([i] if which == "in" else [o] if which == "out" else [i, o]):
                x[t] = max(0, x.get(t, 0) + d)
        n = len(s["places"])
        s["places"].append(draw(st.sampled_from(["q%d", "a%d"])) % n)
        s["arcs"] += [["pt", n, t, w] for t, w in i.items() if w] + [["tp", t, n, w] for t, w in o.items() if w]
        if m > 0:
            s["im"][str(n)] = m
    s["n"] = draw(st.integers(3, 5))
    return s


@st.composite
def red_net(draw):
    s = nets.tree_spec(draw(gen.tree(depth=3, ops=nets.NOOR, max_leaves=6, pool=gen.ACTS)))
    for _ in range(draw(st.integers(0, 3))):
        nets.mutate(draw, s, kinds=("place", "place", "dupplace", "dupplace", "silent", "duptrans", "arc_tp", "arc_pt"))
    return s


UNITS = [Unit("invisibles", red_net(), check_inv, 1200, shards=4, rule="sound nets (others labelled unsound); non-trivial: something was removed"),
         Unit("implicit", red_net(), check_impl, 800, shards=4, rule="sound nets with redundant places; non-trivial: a place was removed"),
         Unit("redundant", wnet(), check_red, 700, shards=3, rule="a place was removed and several transitions can fire")]
