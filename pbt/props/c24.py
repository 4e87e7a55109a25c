"""C24 ILP miner"""
from collections import Counter
from hypothesis import strategies as st
import gen, build, ref
from core import Unit, require, req_eq
import pm4py

META = dict(
    title="ILP-mined nets replay every trace that the noise filter keeps",
    statement="The ILP miner returns an accepting net with one visible transition per activity of the log (silent artificial start and end), one token in the source place as initial and one in the sink as final marking, that replays completely every trace of the log when alpha is 1, and every trace whose prefixes all survive the sequence-encoding filter otherwise. "
              "A log with a single variant without repetitions gives exactly that sequence (no skipped or swapped activity), and case order, case multiplicity (alpha 1), representation and renamed activities do not change these guarantees.",
    over=["inputs"], quant="generated logs with loops, concurrency and noise, every alpha in [0,1]",
    why="one test mines two logs; a constraint lost for some prefix gives nets that deadlock on other logs",
    files=["pm4py/algo/discovery/ilp", "pm4py/algo/discovery/causal", "pm4py/discovery.py", "pm4py/objects/log/util/artificial.py", "pm4py/util/lp/variants/scipy_solver.py", "pm4py/objects/petri_net/utils/murata.py"],
    mech=[("apply", "pm4py/algo/discovery/ilp/variants/classic.py"), ("__transform_log_to_matrix", "pm4py/algo/discovery/ilp/variants/classic.py"), ("insert_artificial_start_end", "pm4py/objects/log/util/artificial.py"), ("keep_one_trace_per_variant", "pm4py/util/variants_util.py")],
    limits="How precise the mined net is beyond the stated cases depends on the optimum picked by the solver and is not judged.")


def survivors(traces, alpha):
    """variants whose every prefix edge of the sequence encoding graph (Parikh vectors) is frequent enough"""
    cnt = Counter(tuple(t) for t in traces)
    g = {}
    par = lambda s: tuple(sorted(Counter(s).items()))
    for v, n in cnt.items():
        w = ("<",) + v + (">",)
        for i in range(len(w)):
            d = g.setdefault(par(w[:i]), Counter())
            d[par(w[:i + 1])] += n
    out = []
    for v in cnt:
        w = ("<",) + v + (">",)
        if all(g[par(w[:i])][par(w[:i + 1])] >= (1 - alpha) * max(g[par(w[:i])].values()) for i in range(len(w))):
            out.append(v)
    return out


def shape(net, im, fm, acts, what):
    req_eq(sorted(t.label for t in net.transitions if t.label), sorted(acts), what + ": visible transitions")
    require(len(im) == 1 and list(im.values()) == [1], "%s: initial marking %s", what, im)
    require(len(fm) == 1 and list(fm.values()) == [1], "%s: final marking %s", what, fm)
    require(not list(im)[0].in_arcs, "%s: the source has input arcs", what)
    require(not list(fm)[0].out_arcs, "%s: the sink has output arcs", what)


def accepts(net, im, fm, t):
    """the net may be unbounded (transitions without input places): bounded search on the trace"""
    r = ref.RNet(net, im, fm)
    return ref.net_accepts(r, t)


def check_all(case, ctx):
    trs = [tuple(t) for t in case["traces"]]
    acts = {a for t in trs for a in t}
    net, im, fm = pm4py.discover_petri_net_ilp(build.variants_log(trs)) if case["rep"] else pm4py.discover_petri_net_ilp(build.variants_df(trs), alpha=1.0)
    shape(net, im, fm, acts, "net")
    for t in sorted(set(trs)):
        require(accepts(net, im, fm, t), "the trace %s of the log is not replayed", t)
    if len(set(trs)) > 1 and any(len(t) > 2 for t in trs):
        ctx.nontrivial()
    if any(len(set(t)) < len(t) for t in trs):
        ctx.label("repetitions")
    vs = set(trs)
    if len(vs) == 1 and len(set(trs[0])) == len(trs[0]):
        v = trs[0]
        for w in {v[:k] for k in range(len(v))} | {v[:k] + v[k + 1:] for k in range(len(v))} | {v[:k] + (v[k + 1], v[k]) + v[k + 2:] for k in range(len(v) - 1)}:
            require(not accepts(net, im, fm, w), "the net of the single variant %s replays %s", v, w)
        ctx.label("single variant")
    # renaming, reordering and multiplying cases
    f = {a: "x%d" % i for i, a in enumerate(sorted(acts, reverse=bool(case["rev"])))}
    order = sorted(range(len(trs)), key=lambda i: (case["perm"][i % len(case["perm"])], i))
    trs2 = [tuple(f[a] for a in trs[i]) for i in order for _ in range(1 + case["mult"][i % len(case["mult"])])]
    n2, i2, f2 = pm4py.discover_petri_net_ilp(build.variants_log(trs2))
    shape(n2, i2, f2, set(f.values()), "net of the renamed log")
    for t in set(trs):
        require(accepts(n2, i2, f2, tuple(f[a] for a in t)), "renamed log: the trace %s is not replayed", t)


def check_alpha(case, ctx):
    trs = [tuple(t) for t, n in zip(case["traces"], case["mult2"]) for _ in range(n)]
    acts = {a for t in trs for a in t}
    alpha = case["alpha"]
    keep = survivors(trs, alpha)
    net, im, fm = pm4py.discover_petri_net_ilp(build.variants_log(trs), alpha=alpha)
    shape(net, im, fm, acts, "net")
    for t in keep:
        require(accepts(net, im, fm, t), "alpha %s: the frequent trace %s is not replayed (kept: %s)", alpha, t, keep)
    if 0 < len(keep) < len(set(trs)):
        ctx.nontrivial()


@st.composite
def all_st(draw):
    return {"traces": draw(st.one_of(gen.traces(4, 6, 6), gen.traces(5, 5, 5), st.lists(st.permutations(gen.ACTS[:4]), min_size=1, max_size=3), st.permutations(gen.ACTS[:6]).map(lambda p: [p[:4]] * 2))),
            "rep": draw(st.booleans()), "rev": draw(st.booleans()), "perm": draw(st.lists(st.integers(0, 9), min_size=1, max_size=6)), "mult": draw(st.lists(st.integers(0, 2), min_size=1, max_size=6))}


@st.composite
def alpha_st(draw):
    tr = draw(st.one_of(gen.traces(4, 6, 6), gen.traces(3, 5, 6)))
    return {"traces": tr, "mult2": draw(st.lists(st.sampled_from([1, 1, 2, 3, 5, 8]), min_size=len(tr), max_size=len(tr))), "alpha": draw(st.sampled_from([0.0, 0.2, 0.25, 0.5, 0.5, 0.7, 0.75, 0.9, 1.0]))}


UNITS = [
    Unit("fitness", all_st(), check_all, quick=240, shards=8, rule="two or more variants, one with three or more events"),
    Unit("alpha", alpha_st(), check_alpha, quick=240, shards=8, rule="the filter keeps some but not all variants"),
]
