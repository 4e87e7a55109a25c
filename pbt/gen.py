"""Shared case generators.  Every strategy yields JSON-able values."""
from hypothesis import strategies as st

ACTS = ["A", "B", "C", "D", "E", "F"]
# labels that stress separators, markup, unicode, whitespace, quotes
ODD = ["a b", "x,y", "<&>\"'", "é☃", "A;B", "a->b", "(", "tau", "a\tb", "10", "None", "→(p)", "'q'", "A ", " A"]
RES = ["r1", "r2", "r3"]
BASE = 1577836800  # 2020-01-01 UTC


def acts(n):
    return st.sampled_from(ACTS[:n])


def trace(n_act=4, max_len=6, min_len=1):
    return st.lists(acts(n_act), min_size=min_len, max_size=max_len)


def traces(n_act=4, max_len=6, max_traces=8, min_traces=1, min_len=1):
    """list of activity sequences, with a bias to repetitions (variants of frequency > 1)"""
    base = st.lists(trace(n_act, max_len, min_len), min_size=min_traces, max_size=max_traces)
    dup = st.builds(lambda vs, ix: [vs[i % len(vs)] for i in ix] if vs else [],
                    st.lists(trace(n_act, max_len, min_len), min_size=1, max_size=3),
                    st.lists(st.integers(0, 5), min_size=max(1, min_traces), max_size=max_traces))
    mut = st.builds(_mutated, trace(n_act, max_len, max(1, min_len)), st.lists(st.tuples(st.integers(0, 3), st.integers(0, 9), acts(n_act)), min_size=min_traces, max_size=max_traces), st.just(min_len))
    return st.one_of(base, dup, mut)


def _mutated(tr, muts, min_len):
    """a family of traces that differ from one trace by a swap/skip/repeat: concurrency- and loop-like logs"""
    out = [list(tr)]
    for kind, pos, a in muts:
        t = list(tr)
        p = pos % len(t)
        if kind == 0 and p + 1 < len(t):
            t[p], t[p + 1] = t[p + 1], t[p]
        elif kind == 1 and len(t) > max(1, min_len):
            del t[p]
        elif kind == 2:
            t.insert(p, a)
        elif kind == 3:
            t = t[:p + 1] + t[p:]
        out.append(t)
    return out[-max(1, len(muts)):] if muts else out


@st.composite
def log(draw, n_act=4, max_len=6, max_traces=6, min_traces=1, equal_ts=True, resources=False, start_ts=False,
        extra=False, odd=0.0, gap=5000, overlap=True):
    """{"cases": [{"id": str, "events": [{"a","t","r"?,"s"?,"x"?}]}]}: events of a case in trace order with
    non-decreasing (strictly increasing unless equal_ts) integer timestamps (seconds from BASE)"""
    trs = draw(traces(n_act, max_len, max_traces, min_traces))
    ren = {}
    if odd and draw(st.booleans()):
        k = draw(st.integers(1, n_act))
        ren = dict(zip(ACTS[:k], draw(st.lists(st.sampled_from(ODD), min_size=k, max_size=k, unique=True))))
    cases = []
    idk = draw(st.sampled_from(["c%d", "%d", "case %d"]))
    for i, tr in enumerate(trs):
        t = draw(st.integers(0, gap * 3)) if overlap else i * gap * 100
        evs = []
        for a in tr:
            prev = t
            t += draw(st.integers(0 if equal_ts else 1, gap)) if not equal_ts else draw(st.one_of(st.just(0), st.integers(1, gap)))
            e = {"a": ren.get(a, a), "t": t}
            if resources:
                e["r"] = draw(st.sampled_from(RES))
            if start_ts:
                e["s"] = t - draw(st.integers(0, gap)) if start_ts != "mono" else max(prev, t - draw(st.integers(0, gap)))
            if extra:
                e["x"] = draw(st.integers(0, 5))
            evs.append(e)
        cases.append({"id": idk % (i + 1), "events": evs})
    return {"cases": cases}


# ------------------------------------------------------------------ trees: ["seq",c..] | label | None (tau)
OPS = ["->", "X", "+", "*", "O"]


@st.composite
def tree(draw, depth=3, ops=("->", "X", "+", "*", "O"), max_children=3, dup=True, tau=True, pool=None, max_leaves=7, min_children=2):
    pool = list(pool or "abcdefgh")
    counter = [0]
    leaves = [0]

    def leaf():
        leaves[0] += 1
        if tau and draw(st.integers(0, 5)) == 0:
            return None
        if dup and draw(st.integers(0, 4)) == 0:
            return draw(st.sampled_from(pool[:4]))
        counter[0] += 1
        return pool[(counter[0] - 1) % len(pool)] if dup or counter[0] <= len(pool) else None

    def go(d):
        if d == 0 or leaves[0] >= max_leaves or draw(st.integers(0, 19 if d == depth else 4)) == 0:
            return leaf()
        op = draw(st.sampled_from(list(ops)))
        k = 2 if op == "*" else draw(st.integers(min_children if d < depth else 2, max_children))
        return [op] + [go(d - 1) for _ in range(k)]

    t = go(depth)
    return t
