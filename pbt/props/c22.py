"""C22 alpha miner"""
import itertools
from hypothesis import strategies as st
import gen, build, ref
from core import Unit, require, req_eq
import pm4py
from props.c21 import some_log, complete_log

META = dict(
    title="The alpha miners return the net that defines them",
    statement="For every log, event log or dataframe, and for every directly-follows graph, the alpha miner returns exactly the net of its definition: one transition per activity, one source and one sink place for the start and end activities, and one place for every maximal pair (A, B) of activity sets that are causally related pairwise and unrelated among themselves. "
              "From a complete log of a sequence/choice/parallel/loop structure with loops of any length (including self-loops and loops of length two), the alpha+ miner returns a net with exactly that language.",
    over=["inputs"], quant="generated logs up to 6 activities, and complete logs of generated structured models",
    why="tests run the miners on two logs and check that a net comes out; the definition must be met for every relation between activities",
    files=["pm4py/algo/discovery/alpha", "pm4py/algo/discovery/causal", "pm4py/discovery.py"],
    mech=[("classic alpha", "pm4py/algo/discovery/alpha/variants/classic.py"), ("alpha+", "pm4py/algo/discovery/alpha/variants/plus.py"), ("causal relation", "pm4py/algo/discovery/causal/variants/alpha.py")],
    limits="Alpha+ is judged by language (bounded length) on the models for which the paper proves rediscovery.")


def alpha_places(traces=None, rel=None):
    edges = rel if rel is not None else {p for t in traces for p in zip(t, t[1:])}
    acts = sorted({a for p in edges for a in p})
    causal = {(a, b) for a, b in edges if (b, a) not in edges}
    unrel = lambda s: all((a, b) not in edges for a in s for b in s)
    ok = []
    subs = [frozenset(s) for k in range(1, len(acts) + 1) for s in itertools.combinations(acts, k) if unrel(s)]
    for A in subs:
        common = [b for b in acts if all((a, b) in causal for a in A)]
        for B in subs:
            if B <= set(common):
                ok.append((A, B))
    return {p for p in ok if not any(p != q and p[0] <= q[0] and p[1] <= q[1] for q in ok)}


def check_net(net, im, fm, places, starts, ends, acts, what):
    req_eq(sorted((t.name, t.label) for t in net.transitions), sorted((a, a) for a in acts), what + ": transitions")
    src, snk = list(im), list(fm)
    require(len(src) == 1 == len(snk) and im[src[0]] == 1 == fm[snk[0]], "%s: markings %s %s", what, im, fm)
    lab = lambda arcs, f: sorted(getattr(a, f).label for a in arcs)
    req_eq((lab(src[0].in_arcs, "source"), lab(src[0].out_arcs, "target")), ([], sorted(starts)), what + ": source place")
    req_eq((lab(snk[0].in_arcs, "source"), lab(snk[0].out_arcs, "target")), (sorted(ends), []), what + ": sink place")
    got = sorted((lab(p.in_arcs, "source"), lab(p.out_arcs, "target")) for p in net.places if p not in (src[0], snk[0]))
    exp = sorted((sorted(A), sorted(B)) for A, B in places)
    req_eq(got, exp, what + ": places")
    req_eq(sum(len(p.in_arcs) + len(p.out_arcs) for p in net.places), len(net.arcs), what + ": number of arcs")


def check_classic(case, ctx):
    from pm4py.algo.discovery.alpha import algorithm as A
    traces = [tuple(t) for t in case]
    ne = [t for t in traces if t]
    acts = {a for t in traces for a in t}
    places = alpha_places(traces)
    starts, ends = {t[0] for t in ne}, {t[-1] for t in ne}
    check_net(*A.apply(build.variants_log(traces)), places, starts, ends, acts, "event log")
    if ne:
        check_net(*pm4py.discover_petri_net_alpha(build.variants_df(ne)), places, starts, ends, acts, "dataframe")
        d, sa, ea = pm4py.discover_dfg(build.variants_log(ne))
        from pm4py.algo.discovery.alpha.variants import classic
        check_net(*classic.apply_dfg_sa_ea(d, sa, ea), places, starts, ends, acts, "directly-follows graph")
        if d:
            inn, out = {b for _, b in d}, {a for a, _ in d}
            dacts = inn | out
            check_net(*A.apply_dfg(d), places, {a for a in dacts if a not in inn}, {a for a in dacts if a not in out}, dacts, "graph without start and end activities")
    ctx.nontrivial(any(len(A) > 1 or len(B) > 1 for A, B in places))
    ctx.label("places %s" % min(5, len(places)))


@st.composite
def rel_st(draw):
    """directly-follows relations: sparse, with self-loops, two-loops and many maximal pairs"""
    n = draw(st.integers(3, 8))
    left = draw(st.integers(1, n - 1))
    acts = "abcdefgh"[:n]
    e = {}
    for i in range(n):
        for j in range(n):
            k = draw(st.sampled_from([1] * 6 + [0] if i < left <= j else [0] * 24 + [1]))
            if k:
                e[acts[i] + acts[j]] = draw(st.integers(1, 3))
    return e


def check_rel(case, ctx):
    from pm4py.algo.discovery.alpha.variants import classic
    d = {(k[0], k[1]): v for k, v in case.items()}
    if not d:
        return
    acts = {a for p in d for a in p}
    places = alpha_places(rel=set(d))
    sa, ea = {min(acts): 1}, {max(acts): 1}
    check_net(*classic.apply_dfg_sa_ea(dict(d), dict(sa), dict(ea)), places, sa, ea, acts, "relation")
    ctx.nontrivial(sum(1 for A, B in places if len(A) > 1 and len(B) > 1) > 0)


@st.composite
def plus_st(draw):
    names = iter("abcdefghijklmnopqrstuvwxyz")
    left = [draw(st.integers(2, 7))]

    def leaf():
        left[0] -= 1
        return next(names)

    def block(d):
        k = draw(st.sampled_from(["leaf", "leaf", "->", "X", "+", "*", "self", "two"])) if d and left[0] > 0 else "leaf"
        if k == "leaf":
            return leaf()
        if k in ("->", "X"):
            return [k, block(d - 1), block(d - 1)]
        if k == "+":
            return ["->", leaf(), ["+", seq(d - 1), seq(d - 1)], leaf()]
        if k == "self":
            return ["->", side(), ["*", None, leaf()], side()]
        if k == "two":
            return ["->", leaf(), ["*", leaf(), leaf()], leaf()]
        return ["->", leaf(), ["*", ["->", leaf(), block(d - 1)], leaf()], leaf()]

    def side():
        return ["X", leaf(), leaf()] if draw(st.integers(0, 3)) == 3 else leaf()

    def seq(d):
        return block(d) if draw(st.booleans()) else leaf()
    return {"tree": block(3), "seed": draw(st.integers(0, 999)), "plus": draw(st.booleans())}


def has_short(t):
    """contains a self-loop or a loop of length two"""
    return isinstance(t, list) and ((t[0] == "*" and not isinstance(t[1], list)) or any(has_short(c) for c in t[1:]))


def full_log(t):
    for L in (7, 9, 11):
        null, s, e, edges = ref.tree_dfg(t)
        lang = ref.tree_lang(t, L)
        tri = {w[i:i + 3] for w in lang for i in range(len(w) - 2)}
        if {p for w in lang for p in zip(w, w[1:])} == edges and all((b, a, b) in tri for a, b, c in tri if a == c and (b, a) in edges):
            return sorted(lang), L
    return None


def check_plus(case, ctx):
    from pm4py.algo.discovery.alpha import algorithm as A
    t = case["tree"]
    fl = full_log(t)
    if fl is None or len(fl[0]) > 400:
        ctx.label("too large")
        return
    lang, L = fl
    plus = case["plus"] or has_short(t)
    log = build.variants_log(lang)
    net, im, fm = A.apply(log, variant=A.Variants.ALPHA_VERSION_PLUS if plus else A.Variants.ALPHA_VERSION_CLASSIC)
    req_eq([[e["concept:name"] for e in x] for x in log], [list(w) for w in lang], "the log is unchanged")
    got = ref.rnet_lang(ref.RNet(net, im, fm), L)
    exp = set(lang)
    require(got == exp, "%s of %s: missing %s extra %s", "alpha+" if plus else "alpha", t, sorted(exp - got)[:3], sorted(got - exp)[:3])
    ctx.nontrivial(isinstance(t, list) and ref.tree_has(t, "*"))
    ctx.label(("alpha+ " if plus else "alpha ") + "".join(o for o in ("X", "+", "*") if ref.tree_has(t, o)) + (" short" if has_short(t) else ""))


UNITS = [
    Unit("classic", some_log(6), check_classic, quick=800, shards=2, rule="a place with several input or output transitions"),
    Unit("relation", rel_st(), check_rel, quick=1200, shards=3, rule="a place with several input and several output transitions"),
    Unit("rediscovery", plus_st(), check_plus, quick=1200, shards=3, rule="a loop"),
]
