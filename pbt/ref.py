"""Reference semantics, written independently of pm4py's algorithms."""
from collections import Counter, defaultdict, deque
import itertools


class Overflow(Exception):
    pass


# ---------------------------------------------------------------- process trees (nested lists)
def shuffle(u, v, L=None):
    """all interleavings of two tuples"""
    if not u:
        return {v}
    if not v:
        return {u}
    out = set()
    n, m = len(u), len(v)
    for pos in itertools.combinations(range(n + m), n):
        w, i, j = [], 0, 0
        ps = set(pos)
        for k in range(n + m):
            if k in ps:
                w.append(u[i]); i += 1
            else:
                w.append(v[j]); j += 1
        out.add(tuple(w))
    return out


CAP = 6000


def _cap(s):
    if len(s) > CAP:
        raise Overflow()
    return s


def cat(A, B, L):
    return _cap({u + v for u in A for v in B if len(u) + len(v) <= L})


def par(A, B, L):
    out = set()
    for u in A:
        for v in B:
            if len(u) + len(v) <= L:
                out |= shuffle(u, v)
                if len(out) > CAP:
                    raise Overflow()
    return out


def tree_lang(t, L):
    """set of activity tuples of length <= L of the process tree (tau invisible)"""
    if t is None:
        return {()}
    if isinstance(t, str):
        return {(t,)} if L >= 1 else set()
    op, ch = t[0], [tree_lang(c, L) for c in t[1:]]
    if op == "->":
        r = {()}
        for c in ch:
            r = cat(r, c, L)
        return r
    if op == "X":
        return _cap(set().union(*ch))
    if op == "+":
        r = {()}
        for c in ch:
            r = par(r, c, L)
        return r
    if op == "O":
        r = set()
        for k in range(1, len(ch) + 1):
            for sub in itertools.combinations(ch, k):
                q = {()}
                for c in sub:
                    q = par(q, c, L)
                r |= q
        return _cap(r)
    if op == "<>":
        r = set()
        for p in itertools.permutations(ch):
            q = {()}
            for c in p:
                q = cat(q, c, L)
            r |= q
        return _cap(r)
    if op == "*":
        do, redo = ch[0], set().union(*ch[1:]) if len(ch) > 1 else {()}
        r = set(do)
        frontier = set(do)
        step = cat(redo, do, L)
        while frontier:
            new = cat(frontier, step, L) - r
            r |= new
            _cap(r)
            frontier = new
        return r
    raise ValueError(op)


def tree_labels(t):
    if t is None:
        return []
    if isinstance(t, str):
        return [t]
    return [x for c in t[1:] for x in tree_labels(c)]


def tree_has(t, op):
    return isinstance(t, list) and (t[0] == op or any(tree_has(c, op) for c in t[1:]))


def tree_has_tau(t):
    return t is None or (isinstance(t, list) and any(tree_has_tau(c) for c in t[1:]))


# ---------------------------------------------------------------- Petri nets
class RNet:
    """plain copy of a pm4py net: markings are tuples over sorted place indices"""

    def __init__(self, net, im, fm):
        self.places = sorted(net.places, key=lambda p: (p.name, id(p)))
        idx = {p: i for i, p in enumerate(self.places)}
        self.trans = []
        for t in sorted(net.transitions, key=lambda t: (str(t.label), t.name)):
            pre, post = Counter(), Counter()
            for a in net.arcs:
                if a.target is t:
                    pre[idx[a.source]] += a.weight
                elif a.source is t:
                    post[idx[a.target]] += a.weight
            self.trans.append((t.label, dict(pre), dict(post), t))
        self.idx = idx
        self.im = self.mk(im)
        self.fm = self.mk(fm)

    def mk(self, m):
        v = [0] * len(self.places)
        for p, n in m.items():
            v[self.idx[p]] += n
        return tuple(v)

    def enabled(self, m):
        return [k for k, (l, pre, post, t) in enumerate(self.trans) if all(m[p] >= w for p, w in pre.items())]

    def fire(self, m, k):
        v = list(m)
        _, pre, post, _ = self.trans[k]
        for p, w in pre.items():
            v[p] -= w
        for p, w in post.items():
            v[p] += w
        return tuple(v)

    def reach(self, cap=20000, bound=50):
        seen = {self.im}
        q = deque([self.im])
        edges = []
        while q:
            m = q.popleft()
            for k in self.enabled(m):
                n = self.fire(m, k)
                if max(n, default=0) > bound:
                    raise Overflow()
                edges.append((m, k, n))
                if n not in seen:
                    seen.add(n)
                    if len(seen) > cap:
                        raise Overflow()
                    q.append(n)
        return seen, edges


def net_lang(net, im, fm, L, cap=60000):
    """set of visible label tuples of length <= L of firing sequences from im reaching exactly fm"""
    return rnet_lang(RNet(net, im, fm), L, cap)


def rnet_lang(r, L, cap=60000):
    # forward exploration over (trace, marking)
    out = set()
    seen = {((), r.im)}
    q = deque(seen)
    while q:
        tr, m = q.popleft()
        if m == r.fm:
            out.add(tr)
        for k in r.enabled(m):
            l = r.trans[k][0]
            t2 = tr if l is None else tr + (l,)
            if len(t2) > L:
                continue
            n = r.fire(m, k)
            if max(n, default=0) > 60:
                raise Overflow()
            s = (t2, n)
            if s not in seen:
                seen.add(s)
                if len(seen) > cap:
                    raise Overflow()
                q.append(s)
    return out


def net_accepts(r, trace, cap=60000):
    """is there a firing sequence im -> fm with exactly this visible trace"""
    cur = {r.im}
    def closure(S):
        S = set(S); q = deque(S)
        while q:
            m = q.popleft()
            for k in r.enabled(m):
                if r.trans[k][0] is None:
                    n = r.fire(m, k)
                    if n not in S:
                        if max(n, default=0) > 60 or len(S) > cap:
                            raise Overflow()
                        S.add(n); q.append(n)
        return S
    cur = closure(cur)
    for a in trace:
        nxt = set()
        for m in cur:
            for k in r.enabled(m):
                if r.trans[k][0] == a:
                    nxt.add(r.fire(m, k))
        cur = closure(nxt)
        if not cur:
            return False
    return r.fm in cur


def is_wf_net(net):
    """exactly one source place, one sink place, every node on a path from source to sink"""
    src = [p for p in net.places if not any(a.target is p for a in net.arcs)]
    snk = [p for p in net.places if not any(a.source is p for a in net.arcs)]
    if len(src) != 1 or len(snk) != 1:
        return False
    succ, pred = defaultdict(set), defaultdict(set)
    for a in net.arcs:
        succ[a.source].add(a.target)
        pred[a.target].add(a.source)

    def reach(x, adj):
        seen, st = {x}, [x]
        while st:
            y = st.pop()
            for z in adj[y]:
                if z not in seen:
                    seen.add(z)
                    st.append(z)
        return seen
    nodes = set(net.places) | set(net.transitions)
    return reach(src[0], succ) >= nodes and reach(snk[0], pred) >= nodes


def is_sound(net, im, fm, cap=20000, bound=20):
    """classical soundness of (net, im=[source], fm=[sink]); Overflow if state space too large (=> unknown), False when unbounded by monotone growth"""
    return rnet_sound(RNet(net, im, fm), cap)


DEAD_SILENT = 0  # falsy: everything but a dead silent transition


def rnet_sound(r, cap=20000):
    # coverability-style unboundedness detection along paths
    seen = {r.im: None}
    q = deque([r.im])
    edges = defaultdict(list)
    fired = set()
    while q:
        m = q.popleft()
        for k in r.enabled(m):
            n = r.fire(m, k)
            fired.add(k)
            edges[m].append(n)
            if n not in seen:
                # ancestor domination => unbounded
                a = m
                while a is not None:
                    if a != n and all(x <= y for x, y in zip(a, n)):
                        return False
                    a = seen[a]
                seen[n] = m
                if len(seen) > cap:
                    raise Overflow()
                q.append(n)
    # option to complete
    rev = defaultdict(set)
    for m, ns in edges.items():
        for n in ns:
            rev[n].add(m)
    if r.fm not in seen:
        return False
    ok, st = {r.fm}, [r.fm]
    while st:
        x = st.pop()
        for y in rev[x]:
            if y not in ok:
                ok.add(y)
                st.append(y)
    if len(ok) != len(seen):
        return False
    # proper completion
    for m in seen:
        if m != r.fm and all(x >= y for x, y in zip(m, r.fm)):
            return False
    # no dead transitions
    dead = [r.trans[k][0] for k in range(len(r.trans)) if k not in fired]
    if not dead:
        return True
    return DEAD_SILENT if all(l is None for l in dead) else False


# ---------------------------------------------------------------- alignments
def align_cost(r, trace, move_log=lambda a: 1, move_model=lambda lab, k: (1 if lab is not None else 0), sync=lambda lab, k: 0, cap=200000):
    """minimal alignment cost by Dijkstra on (position, marking); None if no alignment exists"""
    import heapq
    start = (0, r.im)
    dist = {start: 0}
    h = [(0, 0, start)]
    cnt = 1
    n = len(trace)
    done = set()
    while h:
        d, _, s = heapq.heappop(h)
        if s in done:
            continue
        done.add(s)
        if len(done) > cap:
            raise Overflow()
        pos, m = s
        if pos == n and m == r.fm:
            return d
        nx = []
        if pos < n:
            nx.append((d + move_log(trace[pos]), (pos + 1, m)))
        for k in r.enabled(m):
            lab = r.trans[k][0]
            m2 = r.fire(m, k)
            if max(m2, default=0) > 60:
                raise Overflow()
            nx.append((d + move_model(lab, k), (pos, m2)))
            if pos < n and lab is not None and lab == trace[pos]:
                nx.append((d + sync(lab, k), (pos + 1, m2)))
        for d2, s2 in nx:
            if s2 not in done and d2 < dist.get(s2, float("inf")):
                dist[s2] = d2
                heapq.heappush(h, (d2, cnt, s2))
                cnt += 1
    return None


def dfg(traces):
    c = Counter()
    for t in traces:
        for a, b in zip(t, t[1:]):
            c[(a, b)] += 1
    return c


def reach(r, cap=20000, bound=50):
    seen, q, edges = {r.im}, deque([r.im]), []
    while q:
        m = q.popleft()
        for k in r.enabled(m):
            n = r.fire(m, k)
            if max(n, default=0) > bound:
                raise Overflow()
            edges.append((m, k, n))
            if n not in seen:
                seen.add(n)
                if len(seen) > cap:
                    raise Overflow()
                q.append(n)
    return seen, edges


def tree_accepts(t, w):
    """is the activity tuple w in the language of the tree (every activity on at most one leaf)"""
    memo = {}

    def labs(x):
        return frozenset(tree_labels(x)) - {None}

    def acc(x, w):
        if x is None:
            return w == ()
        if isinstance(x, str):
            return w == (x,)
        k = (id(x), w)
        if k in memo:
            return memo[k]
        memo[k] = False
        op, ch = x[0], x[1:]
        if not set(w) <= labs(x):
            r = False
        elif op == "->":
            cur = {0}
            for c in ch:
                cur = {j for i in cur for j in range(i, len(w) + 1) if acc(c, w[i:j])}
            r = len(w) in cur
        elif op == "X":
            r = any(acc(c, w) for c in ch)
        elif op == "+":
            r = all(acc(c, tuple(a for a in w if a in labs(c))) for c in ch)
        elif op == "*":
            do, redo = ch[0], ch[1:] or [None]
            after_do, seen_redo = set(), set()
            q = [(0, 0)]
            seen = {(0, 0)}
            r = False
            while q:
                i, ph = q.pop()
                for j in range(i, len(w) + 1):
                    if acc(do, w[i:j]) if ph == 0 else any(acc(c, w[i:j]) for c in redo):
                        if ph == 0 and j == len(w):
                            r = True
                        if (j, 1 - ph) not in seen:
                            seen.add((j, 1 - ph))
                            q.append((j, 1 - ph))
        else:
            raise ValueError(op)
        memo[k] = r
        return r
    return acc(t, tuple(w))


def tree_dfg(t):
    """(nullable, start, end, edges) of the language of the tree (every activity on at most one leaf)"""
    if t is None:
        return True, set(), set(), set()
    if isinstance(t, str):
        return False, {t}, {t}, set()
    op, ch = t[0], [tree_dfg(c) for c in t[1:]]

    def cat2(x, y):
        return (x[0] and y[0], x[1] | (y[1] if x[0] else set()), y[2] | (x[2] if y[0] else set()), x[3] | y[3] | {(a, b) for a in x[2] for b in y[1]})
    if op == "->":
        r = ch[0]
        for c in ch[1:]:
            r = cat2(r, c)
        return r
    if op == "X":
        return any(c[0] for c in ch), set().union(*(c[1] for c in ch)), set().union(*(c[2] for c in ch)), set().union(*(c[3] for c in ch))
    if op == "+":
        labs = [set(tree_labels(c)) - {None} for c in t[1:]]
        e = set().union(*(c[3] for c in ch))
        for i in range(len(ch)):
            for j in range(len(ch)):
                if i != j:
                    e |= {(a, b) for a in labs[i] for b in labs[j]}
        # inside one child, activities of that child that follow each other keep doing so
        return all(c[0] for c in ch), set().union(*(c[1] for c in ch)), set().union(*(c[2] for c in ch)), e
    if op == "*":
        do = ch[0]
        redo = (True, set(), set(), set()) if len(ch) == 1 else (any(c[0] for c in ch[1:]), set().union(*(c[1] for c in ch[1:])), set().union(*(c[2] for c in ch[1:])), set().union(*(c[3] for c in ch[1:])))
        r = do
        for _ in range(3):
            s = cat2(cat2(r, redo), do)
            r = (r[0] or s[0], r[1] | s[1], r[2] | s[2], r[3] | s[3])
        return r
    raise ValueError(op)
