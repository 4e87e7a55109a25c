"""C17 POWL models: printing, copying, simplification and Petri net"""
import itertools
from hypothesis import strategies as st
import gen, build, ref
from core import Unit, require, req_eq
import pm4py

META = dict(
    title="POWL printing, copying, simplifying and net conversion keep the behaviour",
    statement="Parsing the printed form of a POWL model (plain or with line breaks) gives a model with the same structure, a copy is equal in content and independent, and simplifying a model keeps its language. "
              "The Petri net converted from a POWL model has exactly the language of the model: the interleavings of the node languages that respect every partial order. "
              "The transitive reduction, closure and the start and end nodes of a partial order are the ones of their definition.",
    over=["inputs"], quant="generated POWL models up to 7 leaves, partial orders up to 5 nodes",
    why="tests parse two models and discover a few; nesting, names and orders vary without bound",
    files=["pm4py/objects/powl", "pm4py/objects/conversion/powl", "pm4py/utils.py"],
    mech=[("parser", "pm4py/objects/powl/parser.py"), ("model", "pm4py/objects/powl/obj.py"), ("binary relation", "pm4py/objects/powl/BinaryRelation.py"), ("to Petri net", "pm4py/objects/conversion/powl/variants/to_petri_net.py")],
    limits="Printed partial orders whose nodes have identical text are ambiguous and not generated for the parser; labels with brackets, commas or quotes are outside the printed grammar.")
L = 5
ODDL = ["X-ray", "ab", "a b", "tau1", "taurus", "Xa", "PO", "*s", "a-b", "1", "b a"]


@st.composite
def powl(draw, depth=3, max_leaves=7, odd=True, dup=False):
    left = [max_leaves]
    pool = list("abcdefgh")
    if odd and draw(st.booleans()):
        pool = draw(st.lists(st.sampled_from(ODDL + pool), min_size=8, max_size=8, unique=True))

    def leaf():
        left[0] -= 1
        if draw(st.sampled_from([False] * 5 + [True])):
            return None
        if dup:
            return draw(st.sampled_from("abc"))
        return pool[max_leaves - left[0] - 1] if max_leaves - left[0] <= len(pool) else None

    def go(d):
        k = draw(st.sampled_from(["leaf", "X", "*", "PO", "PO"])) if d and left[0] > 1 else "leaf"
        if k == "leaf":
            return leaf()
        if k == "X":
            return ["X"] + [go(d - 1) for _ in range(draw(st.integers(2, 3)))]
        if k == "*":
            return ["*", go(d - 1), go(d - 1)]
        n = draw(st.sampled_from([1, 2, 2, 3, 3, 4]))
        ch = [go(d - 1) for _ in range(n)]
        perm = draw(st.permutations(range(n)))
        e = {(perm[i], perm[j]) for i in range(n) for j in range(i + 1, n) if draw(st.booleans())}
        return ["PO", ch, sorted(map(list, closure(e, n)))]
    left[0] = max_leaves
    return go(depth)


def closure(e, n):
    e = set(map(tuple, e))
    while True:
        m = {(a, d) for a, b in e for c, d in e if b == c} - e
        if not m:
            return e
        e |= m


def mk(s):
    from pm4py.objects.powl.obj import Transition, SilentTransition, OperatorPOWL, StrictPartialOrder
    from pm4py.objects.process_tree.obj import Operator
    if s is None:
        return SilentTransition()
    if isinstance(s, str):
        return Transition(s)
    if s[0] == "PO":
        ch = [mk(c) for c in s[1]]
        p = StrictPartialOrder(ch)
        for i, j in s[2]:
            p.order.add_edge(ch[i], ch[j])
        return p
    return OperatorPOWL(Operator.XOR if s[0] == "X" else Operator.LOOP, [mk(c) for c in s[1:]])


def un(p):
    """POWL object -> spec (children in their order; FrequentTransition -> ["F", activity, skippable, loop])"""
    from pm4py.objects.powl.obj import Transition, SilentTransition, OperatorPOWL, StrictPartialOrder, FrequentTransition
    from pm4py.objects.process_tree.obj import Operator
    if isinstance(p, SilentTransition):
        return None
    if isinstance(p, FrequentTransition):
        return ["F", p.activity, p.skippable, p.selfloop]
    if isinstance(p, Transition):
        return p.label
    if isinstance(p, StrictPartialOrder):
        ch = list(p.children)
        return ["PO", [un(c) for c in ch], [[i, j] for i in range(len(ch)) for j in range(len(ch)) if p.order.is_edge_id(i, j)]]
    return ["X" if p.operator is Operator.XOR else "*"] + [un(c) for c in p.children]


def canon(s):
    """text that identifies the model up to the order of its partially ordered nodes (distinct texts)"""
    if s is None:
        return "tau"
    if isinstance(s, str):
        return repr(s)
    if s[0] == "PO":
        ch = [canon(c) for c in s[1]]
        return "PO{%s|%s}" % (";".join(sorted(ch)), ";".join(sorted(ch[i] + ">" + ch[j] for i, j in s[2])))
    return s[0] + "(" + ",".join(canon(c) for c in s[1:]) + ")"


def po_cat(langs, edges, n, L):
    res, seen = set(), 0
    pred = {j: [i for i, k in edges if k == j] for j in range(n)}
    for ws in itertools.product(*langs):
        if sum(map(len, ws)) > L:
            continue
        front = {((), (0,) * n)}
        while front:
            nxt = set()
            for w, pos in front:
                fin = True
                for j in range(n):
                    if pos[j] < len(ws[j]):
                        fin = False
                        if all(before_done(i, pos, ws) for i in pred[j]):
                            nxt.add((w + (ws[j][pos[j]],), pos[:j] + (pos[j] + 1,) + pos[j + 1:]))
                if fin:
                    res.add(w)
            seen += len(nxt)
            if seen > 60000:
                raise ref.Overflow()
            front = nxt
    return res


def before_done(i, pos, ws):
    return pos[i] == len(ws[i])


def lang(s, L=L):
    if s is None:
        return {()}
    if isinstance(s, str):
        return {(s,)} if L >= 1 else set()
    if s[0] == "F":
        w = {()} if s[2] else set()
        return w | {(s[1],) * k for k in range(1, (L if s[3] else 1) + 1)}
    if s[0] == "X":
        return set().union(*(lang(c, L) for c in s[1:]))
    if s[0] == "*":
        do, redo = lang(s[1], L), lang(s[2], L)
        step = ref.cat(redo, do, L)
        res, new = set(do), set(do)
        while new:
            new = ref.cat(new, step, L) - res
            res |= new
            if len(res) > 4000:
                raise ref.Overflow()
        return res
    # the order is transitive, also through nodes that produce nothing
    return po_cat([sorted(lang(c, L)) for c in s[1]], closure(map(tuple, s[2]), len(s[1])), len(s[1]), L)


def distinct_nodes(s):
    if not isinstance(s, list):
        return True
    ch = s[1] if s[0] == "PO" else s[1:]
    return all(map(distinct_nodes, ch)) and (s[0] != "PO" or len({str(mk(c)) for c in ch}) == len(ch))


def orders(s):
    if isinstance(s, list):
        if s[0] == "PO":
            yield s
        for c in (s[1] if s[0] == "PO" else s[1:]):
            yield from orders(c)


def check_text(case, ctx):
    from pm4py.objects.powl.parser import parse_powl_model_string
    m = mk(case)
    if not distinct_nodes(case):
        ctx.label("ambiguous text")
    else:
        for nm, s in (("plain", str(m)), ("spaced", str(m).replace(", ", ",\n ") if not any(x in str(m) for x in ()) else str(m))):
            r = parse_powl_model_string(s)
            req_eq(canon(un(r)), canon(case), "parse of the %s text %s" % (nm, str(m)))
        r = pm4py.parse_powl_model_string(m.to_string(indent=True)) if isinstance(case, list) and case[0] == "PO" else r
        req_eq(canon(un(r)), canon(case), "parse of the indented text")
        req_eq(str(r), str(m), "printed form of the parsed model")
        require(len(set(labels(case))) < len(labels(case)) or None in leaves(case) or r.equal_content(m), "parsed model is not equal in content to %s", m)
        ctx.nontrivial(any(len(o[2]) > 1 for o in orders(case)))
    c = m.copy()
    req_eq(un(c), case, "copy")
    req_eq(un(m), case, "model after copying")
    if isinstance(case, list):
        require(not any(x is y for x in all_nodes(m) for y in all_nodes(c)), "the copy shares nodes with the model")
    m.validate_partial_orders()
    ctx.label(case[0] if isinstance(case, list) else "leaf")


def all_nodes(m):
    return [m] + [x for c in m.children for x in all_nodes(c)]


def leaves(s):
    return [s] if not isinstance(s, list) else [x for c in (s[1] if s[0] == "PO" else s[1:]) for x in leaves(c)]


def labels(s):
    return [x for x in leaves(s) if x is not None]


def check_content(case, ctx):
    """equal_content tells whether two models (with distinct activities) are the same up to the order of the nodes of choices and partial orders"""
    a, b = case["a"], case["a"]
    for i, k in case["muts"]:
        b = mutate(b, i, k)
    ma, mb = mk(a), mk(b)
    exp = ccanon(a) == ccanon(b)
    if leaves(a).count(None) > 1:
        ctx.label("several silent nodes")
        return
    if exp and str(ma) != str(mb) and not all(map(one_of_a_kind, (a, b))):
        ctx.label("reordered composite siblings")  # recognised only up to the printed order: may answer False
        return
    req_eq(bool(ma.equal_content(mb)), exp, "equal_content of %s and %s" % (ma, mb))
    req_eq(bool(mb.equal_content(ma)), exp, "equal_content of %s and %s" % (mb, ma))
    ctx.label("equal" if exp else "different")
    ctx.nontrivial(str(ma) != str(mb))


def one_of_a_kind(s):
    if not isinstance(s, list):
        return True
    ch = s[1] if s[0] == "PO" else s[1:]
    comp = [c for c in ch if isinstance(c, list)]
    return all(map(one_of_a_kind, ch)) and (s[0] == "*" or sum(c[0] == "PO" for c in comp) < 2 and sum(c[0] != "PO" for c in comp) < 2)


def ccanon(s):
    if not isinstance(s, list):
        return canon(s)
    if s[0] == "PO":
        ch = [ccanon(c) for c in s[1]]
        return "PO{%s|%s}" % (";".join(sorted(ch)), ";".join(sorted(ch[i] + ">" + ch[j] for i, j in s[2])))
    ch = [ccanon(c) for c in s[1:]]
    return s[0] + "(" + ",".join(sorted(ch) if s[0] == "X" else ch) + ")"


def mutate(s, i, k):
    n = [0]

    def go(x):
        n[0] += 1
        me = n[0] - 1 == i
        if not isinstance(x, list):
            return x
        if x[0] == "PO":
            ch, e = [go(c) for c in x[1]], [list(p) for p in x[2]]
            if me and k == 0 and len(ch) > 1:  # same order, other sequence of nodes
                ch, e = ch[1:] + ch[:1], [[(p - 1) % len(ch), (q - 1) % len(ch)] for p, q in e]
            if me and k == 1:
                e = []
            if me and k == 2:
                e = [[q, p] for p, q in e]
            return ["PO", ch, sorted(e)]
        ch = [go(c) for c in x[1:]]
        if me and k in (0, 1):
            ch = ch[::-1]
        op = x[0]
        if me and k == 2 and len(ch) == 2:
            op = "*" if op == "X" else "X"
        return [op] + ch
    return go(s)


def check_net(case, ctx):
    from pm4py.objects.conversion.powl import converter
    m = mk(case)
    e = lang(case)
    if len(e) > 1500:
        raise ref.Overflow()
    net, im, fm = pm4py.convert_to_petri_net(m) if len(str(case)) % 2 else converter.apply(m)
    req_eq(un(m), case, "model after the conversion")
    req_eq(sorted(t.label for t in net.transitions if t.label is not None), sorted(labels(case)), "visible transitions")
    got = ref.net_lang(net, im, fm, L)
    require(got == e, "net of %s: missing %s extra %s", m, sorted(e - got)[:3], sorted(got - e)[:3])
    s = m.simplify()
    got = lang(un(s))
    require(got == e, "simplification of %s is %s: missing %s extra %s", m, s, sorted(e - got)[:3], sorted(got - e)[:3])
    s.validate_partial_orders()
    f = m.simplify_using_frequent_transitions()
    got = lang(un(f))
    require(got == e, "frequent-transition form of %s: missing %s extra %s", m, sorted(e - got)[:3], sorted(got - e)[:3])
    req_eq(un(m), case, "model after the simplification")
    got = ref.net_lang(*converter.apply(s), L)
    require(got == e, "net of the simplification of %s: missing %s extra %s", m, sorted(e - got)[:3], sorted(got - e)[:3])
    ctx.nontrivial(len(e) > 2 and any(o[2] for o in orders(case)))
    ctx.label("simplified" if un(s) != case else "as is")


@st.composite
def rel(draw):
    n = draw(st.integers(1, 6))
    return {"n": n, "e": draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(0, n - 1)).filter(lambda t: t[0] != t[1]).map(list), max_size=9)), "perm": draw(st.permutations(range(n)))}


def check_rel(case, ctx):
    from pm4py.objects.powl.BinaryRelation import BinaryRelation
    n, e = case["n"], {tuple(x) for x in case["e"]}
    b = BinaryRelation(list(range(n)))
    for i, j in e:
        b.add_edge(i, j)
    E = lambda r: {(i, j) for i in range(n) for j in range(n) if r.is_edge(i, j)}
    req_eq(E(b), e, "edges")
    trans = lambda s: all((a, d) in s for a, x in s for c, d in s if x == c)
    req_eq((b.is_transitive(), b.is_irreflexive(), b.is_strict_partial_order()), (trans(e), True, trans(e)), "properties of %s" % sorted(e))
    req_eq((set(b.get_start_nodes()), set(b.get_end_nodes())), (set(range(n)) - {j for _, j in e}, set(range(n)) - {i for i, _ in e}), "start and end nodes")
    # acyclic orders along a permutation
    pos = {x: i for i, x in enumerate(case["perm"])}
    d = closure({(i, j) if pos[i] < pos[j] else (j, i) for i, j in e}, n)
    b = BinaryRelation(list(range(n)))
    for i, j in d:
        b.add_edge(i, j)
    r = b.get_transitive_reduction()
    exp = {(i, j) for i, j in d if not any((i, k) in d and (k, j) in d for k in range(n))}
    req_eq(E(r), exp, "transitive reduction of %s" % sorted(d))
    req_eq(E(b), d, "relation after the reduction")
    r.add_transitive_edges()
    req_eq(E(r), d, "closure of the reduction")
    if d:
        x = sorted(d)[len(e) % len(d)]
        b.remove_edge_without_violating_transitivity(*x)
        require(x not in E(b) and E(b) <= d and trans(E(b)), "removal of %s from %s gives %s", x, sorted(d), sorted(E(b)))
    b.add_node(n)
    require(not any(b.is_edge(n, k) or b.is_edge(k, n) for k in range(n + 1)), "new node has edges")
    ctx.nontrivial(exp != d)


UNITS = [
    Unit("text", powl(), check_text, quick=900, shards=2, rule="a partial order with more than one edge"),
    Unit("content", st.fixed_dictionaries({"a": powl(), "muts": st.lists(st.tuples(st.integers(0, 4), st.integers(0, 2)).map(list), max_size=2)}), check_content, quick=900, shards=2, rule="texts differ"),
    Unit("net", powl(odd=False, max_leaves=6), check_net, quick=700, shards=4, rule="an order and more than two sequences"),
    Unit("relation", rel(), check_rel, quick=800, shards=1, rule="the reduction removes an edge"),
]
