"""Petri net specs (JSON-able) and generators, built without pm4py's own converters.
spec: {"places":[name], "trans":[[name,label|None]], "arcs":[["pt",p,t,w]|["tp",t,p,w]], "im":{"idx":n}, "fm":{...}}"""
from hypothesis import strategies as st
import gen


class B:
    def __init__(self):
        self.places, self.trans, self.arcs = [], [], []

    def place(self):
        self.places.append("p%d" % len(self.places))
        return len(self.places) - 1

    def tr(self, label):
        self.trans.append(["t%d" % len(self.trans), label])
        return len(self.trans) - 1

    def pt(self, p, t, w=1):
        self.arcs.append(["pt", p, t, w])

    def tp(self, t, p, w=1):
        self.arcs.append(["tp", t, p, w])

    def step(self, a, label, b):
        t = self.tr(label)
        self.pt(a, t)
        self.tp(t, b)
        return t


def tree_spec(t):
    """WF-net spec of a tree (operators -> X + *)"""
    b = B()
    i, o = b.place(), b.place()

    def go(x, s, e):
        if x is None or isinstance(x, str):
            b.step(s, x, e)
        elif x[0] == "->":
            cur = s
            for k, c in enumerate(x[1:]):
                nx = e if k == len(x) - 2 else b.place()
                go(c, cur, nx)
                cur = nx
        elif x[0] == "X":
            for c in x[1:]:
                go(c, s, e)
        elif x[0] == "+":
            t1, t2 = b.tr(None), b.tr(None)
            b.pt(s, t1)
            b.tp(t2, e)
            for c in x[1:]:
                a, z = b.place(), b.place()
                b.tp(t1, a)
                b.pt(z, t2)
                go(c, a, z)
        elif x[0] == "*":
            a, z = b.place(), b.place()
            b.step(s, None, a)
            b.step(z, None, e)
            go(x[1], a, z)
            for c in x[2:]:
                go(c, z, a)
        else:
            raise ValueError(x[0])
    # choices sharing entry places with loops would merge languages: guard X/loop children by silent entry/exit
    def guard(x):
        if not isinstance(x, list):
            return x
        return [x[0]] + [guard(c) for c in x[1:]]
    go(guard(t), i, o)
    return {"places": b.places, "trans": b.trans, "arcs": b.arcs, "im": {str(i): 1}, "fm": {str(o): 1}}


NOOR = ("->", "X", "+", "*")


@st.composite
def tree_net(draw, depth=3, max_leaves=6, pool=None, mutations=0, dup=True, tau=True):
    """a net of a random tree, structurally mutated up to `mutations` times (so also unsound / non-block nets)"""
    s = tree_spec(draw(gen.tree(depth=depth, ops=NOOR, max_leaves=max_leaves, pool=pool or gen.ACTS, dup=dup, tau=tau)))
    for _ in range(draw(st.integers(0, mutations)) if mutations else 0):
        mutate(draw, s)
    return s


def mutate(draw, s, kinds=("place", "arc_pt", "arc_tp", "del", "silent", "dupplace", "duptrans")):
    k = draw(st.sampled_from(kinds))
    P, T = len(s["places"]), len(s["trans"])
    pi, ti = st.integers(0, P - 1), st.integers(0, T - 1)
    have = {(a[0], a[1], a[2]) for a in s["arcs"]}

    def add(kind, a, b, w=1):
        if (kind, a, b) not in have:
            s["arcs"].append([kind, a, b, w])
            have.add((kind, a, b))
    if k == "place":  # ordering constraint between two transitions
        s["places"].append("p%d" % P)
        add("tp", draw(ti), P)
        add("pt", P, draw(ti))
    elif k == "arc_pt":
        add("pt", draw(pi), draw(ti))
    elif k == "arc_tp":
        add("tp", draw(ti), draw(pi))
    elif k == "del" and len(s["arcs"]) > 2:
        del s["arcs"][draw(st.integers(0, len(s["arcs"]) - 1))]
    elif k == "silent":
        s["trans"].append(["t%d" % T, None])
        add("pt", draw(pi), T)
        add("tp", T, draw(pi))
    elif k == "dupplace":
        p = draw(pi)
        if str(p) not in s["im"] and str(p) not in s["fm"]:
            s["places"].append("p%d" % P)
            for a in list(s["arcs"]):
                if a[0] == "pt" and a[1] == p:
                    add("pt", P, a[2], a[3])
                elif a[0] == "tp" and a[2] == p:
                    add("tp", a[1], P, a[3])
    elif k == "duptrans":
        t = draw(ti)
        s["trans"].append(["t%d" % T, draw(st.sampled_from([None, s["trans"][t][1], "A"]))])
        for a in list(s["arcs"]):
            if a[0] == "pt" and a[2] == t:
                add("pt", a[1], T, a[3])
            elif a[0] == "tp" and a[1] == t:
                add("tp", T, a[2], a[3])


@st.composite
def free_net(draw, max_p=5, max_t=5, max_w=2, max_tok=2, labels=None, names=None):
    """arbitrary bipartite net with arc weights and markings"""
    P, T = draw(st.integers(1, max_p)), draw(st.integers(1, max_t))
    labels = labels or gen.ACTS[:4]
    s = {"places": ["p%d" % i for i in range(P)],
         "trans": [["t%d" % i, draw(st.sampled_from([None] + labels + labels))] for i in range(T)], "arcs": []}
    w = st.integers(1, max_w) if max_w > 1 else st.just(1)
    for t in range(T):
        for p in draw(st.lists(st.integers(0, P - 1), max_size=3, unique=True)):
            s["arcs"].append(["pt", p, t, draw(w)])
        for p in draw(st.lists(st.integers(0, P - 1), max_size=3, unique=True)):
            s["arcs"].append(["tp", t, p, draw(w)])
    mk = st.dictionaries(st.integers(0, P - 1).map(str), st.integers(1, max_tok), max_size=3)
    mk2 = st.dictionaries(st.integers(0, P - 1).map(str), st.integers(1, max_tok), min_size=min(2, P), max_size=P)
    s["im"], s["fm"] = draw(st.one_of(mk, mk2, mk2)), draw(mk)
    return s


def spec_rnet(s):
    """reference net straight from the spec: (pre, post) lists"""
    pre = [dict() for _ in s["trans"]]
    post = [dict() for _ in s["trans"]]
    for k, a, b, w in s["arcs"]:
        if k == "pt":
            pre[b][a] = pre[b].get(a, 0) + w
        else:
            post[a][b] = post[a].get(b, 0) + w
    return pre, post


class SNet:
    """same interface as ref.RNet, from a spec"""

    def __init__(self, s):
        pre, post = spec_rnet(s)
        self.n = len(s["places"])
        self.trans = [(l, pre[i], post[i], i) for i, (nm, l) in enumerate(s["trans"])]
        self.im = self.mk(s["im"])
        self.fm = self.mk(s["fm"])

    def mk(self, m):
        v = [0] * self.n
        for p, k in m.items():
            v[int(p)] += k
        return tuple(v)

    def enabled(self, m):
        return [k for k, (l, pre, post, t) in enumerate(self.trans) if all(m[p] >= w for p, w in pre.items())]

    def fire(self, m, k):
        v = list(m)
        for p, w in self.trans[k][1].items():
            v[p] -= w
        for p, w in self.trans[k][2].items():
            v[p] += w
        return tuple(v)


@st.composite
def conserving_net(draw, max_p=5, max_t=5, max_tok=3):
    """every transition consumes as many tokens as it produces: always bounded"""
    P, T = draw(st.integers(2, max_p)), draw(st.integers(1, max_t))
    s = {"places": ["p%d" % i for i in range(P)],
         "trans": [["t%d" % i, draw(st.sampled_from([None] + gen.ACTS[:3] + gen.ACTS[:3]))] for i in range(T)], "arcs": []}
    for t in range(T):
        k = draw(st.sampled_from([1, 1, 2]))
        ins, outs = {}, {}
        for _ in range(k):
            i, o = draw(st.integers(0, P - 1)), draw(st.integers(0, P - 1))
            ins[i] = ins.get(i, 0) + 1
            outs[o] = outs.get(o, 0) + 1
        s["arcs"] += [["pt", p, t, w] for p, w in ins.items()] + [["tp", t, p, w] for p, w in outs.items()]
    mk = st.lists(st.integers(0, P - 1), min_size=1, max_size=max_tok)

    def count(l):
        d = {}
        for x in l:
            d[str(x)] = d.get(str(x), 0) + 1
        return d
    s["im"], s["fm"] = count(draw(mk)), count(draw(mk))
    return s


@st.composite
def walks(draw, s, n=(1, 4), max_len=7, noise=2, labels=None):
    """visible traces of random firing sequences of the net spec, with up to `noise` edits each"""
    r = SNet(s)
    labels = labels or gen.ACTS[:4]
    out = []
    for _ in range(draw(st.integers(*n))):
        if out and draw(st.integers(0, 4)) == 0:
            out.append(list(draw(st.sampled_from(out))))
            continue
        m, tr, ch = r.im, [], draw(st.lists(st.integers(0, 11), max_size=3 * max_len))
        for c in ch:
            if m == r.fm and c % 4 == 0:
                break
            en = r.enabled(m)
            if not en or len(tr) >= max_len or max(m, default=0) > 20:
                break
            k = en[c % len(en)]
            m = r.fire(m, k)
            if r.trans[k][0] is not None:
                tr.append(r.trans[k][0])
        for _ in range(draw(st.integers(0, noise)) if noise else 0):
            kind, p = draw(st.sampled_from(["del", "ins", "swap"])), draw(st.integers(0, max(0, len(tr) - 1)))
            if kind == "del" and tr:
                del tr[p]
            elif kind == "ins":
                tr.insert(p, draw(st.sampled_from(labels)))
            elif kind == "swap" and p + 1 < len(tr):
                tr[p], tr[p + 1] = tr[p + 1], tr[p]
        out.append(tr)
    return out


def state_space(s, cap=300, bound=12):
    """(number of reachable markings, is fm reachable) or None when too large / unbounded"""
    import ref
    try:
        seen, _ = ref.reach(SNet(s), cap=cap, bound=bound)
    except ref.Overflow:
        return None
    return len(seen), SNet(s).fm in seen
