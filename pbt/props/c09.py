"""C09 process tree text / PTML round trips; folding and reductions keep the language"""
import os, tempfile
from hypothesis import strategies as st
import gen, build, ref
from core import Unit, require, req_eq, Violation
import pm4py

META = dict(
    title="Process tree text, PTML and folding keep the tree or its language",
    statement="Parsing the printed form of a process tree, and reading back its PTML file or serialized form, gives an equal tree (children of choice and parallel nodes may be reordered), including labels with separators, markup, quotes-free unicode and spaces; PTML loops with an explicit exit child are read with the same language. "
              "Folding, sorting and binarising a process tree keep its language, and fold, writing and converting leave the given tree unchanged.",
    over=["inputs"], quant="all process trees over the five operators within the size bound, with duplicate, silent and oddly named leaves",
    why="tests round-trip a handful of fixed trees; equality must hold for every nesting, label and loop shape",
    files=["pm4py/objects/process_tree/obj.py", "pm4py/objects/process_tree/utils/generic.py", "pm4py/objects/process_tree/importer/variants/ptml.py", "pm4py/objects/process_tree/exporter/variants/ptml.py"],
    mech=[("tree parser and fold", "pm4py/objects/process_tree/utils/generic.py"), ("PTML import/export", "pm4py/objects/process_tree/importer/variants/ptml.py")])

LAB = st.one_of(st.sampled_from(list("abcdefg")), st.sampled_from([x for x in gen.ODD if "'" not in x and x != ""]))


@st.composite
def ltree(draw, ops=("->", "X", "+", "*", "O"), relabel=True):
    t = draw(gen.tree(depth=draw(st.integers(0, 4)), ops=ops, max_children=4, max_leaves=12, min_children=1))
    if relabel and draw(st.booleans()):
        labs = sorted(set(ref.tree_labels(t)))
        new = draw(st.lists(LAB, min_size=len(labs), max_size=len(labs), unique=True))
        m = dict(zip(labs, new))

        def go(x):
            if x is None:
                return None
            if isinstance(x, str):
                return m[x]
            return [x[0]] + [go(c) for c in x[1:]]
        t = go(t)
    return t


def depth(t):
    return 0 if not isinstance(t, list) else 1 + max(depth(c) for c in t[1:])


def norm3(t):
    """PTML stores loops with an explicit tau exit child"""
    if not isinstance(t, list):
        return t
    t = [t[0]] + [norm3(c) for c in t[1:]]
    return t


def check_parse(case, ctx):
    t = build.tree(case)
    ctx.nontrivial(depth(case) >= 2)
    ctx.label("depth%d" % min(depth(case), 4))
    if not isinstance(case, list):
        s = "'%s'" % case if case is not None else "tau"
    else:
        s = str(t)
    back = pm4py.parse_process_tree(s)
    req_eq(build.untree(back), case, "parse(str(tree)) for %r" % s)
    require(back == t and hash(back) == hash(t), "equal trees compare/hash equal: %r", s)
    if isinstance(case, list) and not any(ch in l for l in ref.tree_labels(case) for ch in ",()\t\n"):
        ind = t.to_string(indent=True)
        req_eq(build.untree(pm4py.parse_process_tree(ind)), case, "parse(indented)")
    for n, p in walk(back):
        require(n.parent is p, "parent links of the parsed tree")


def walk(n, p=None):
    yield n, p
    for c in n.children:
        yield from walk(c, n)


def check_ptml(case, ctx):
    t = build.tree(case)
    before = build.untree(t)
    ctx.nontrivial(depth(case) >= 2)
    fd, path = tempfile.mkstemp(suffix=".ptml")
    os.close(fd)
    try:
        pm4py.write_ptml(t, path)
        back = pm4py.read_ptml(path)
    finally:
        os.remove(path)
    req_eq(build.untree(t), before, "write_ptml must not change the tree")
    exp = canon_ac(case)
    req_eq(canon_ac(build.untree(back)), exp, "read_ptml(write_ptml(tree))")
    for n, p in walk(back):
        require(n.parent is p, "parent links of the imported tree")
    ser = pm4py.serialize(t)
    req_eq(canon_ac(build.untree(pm4py.deserialize(ser))), exp, "deserialize(serialize(tree))")


def canon_ac(t):
    """children of XOR / AND / OR unordered; loops compared as (do, redo)"""
    if not isinstance(t, list):
        return t
    ch = [canon_ac(c) for c in t[1:]]
    if t[0] in "X+O":
        ch = sorted(ch, key=repr)
    return [t[0]] + ch


def ptml_xml(t):
    """PTML text written by this harness: loops carry an explicit third (exit) child, as ProM writes them"""
    from xml.sax.saxutils import quoteattr
    tags = {"->": "sequence", "X": "xor", "+": "and", "O": "or", "*": "xorLoop"}
    nodes, edges = [], []

    def go(x):
        i = "n%d" % len(nodes)
        nodes.append(None)
        k = int(i[1:])
        if x is None:
            nodes[k] = '<automaticTask name="" id="%s"/>' % i
        elif isinstance(x, str):
            nodes[k] = '<manualTask name=%s id="%s"/>' % (quoteattr(x), i)
        else:
            nodes[k] = '<%s name="" id="%s"/>' % (tags[x[0]], i)
            for c in x[1:]:
                j = go(c)
                edges.append('<parentsNode id="e%d" sourceId="%s" targetId="%s"/>' % (len(edges), i, j))
        return i
    r = go(t)
    return '<?xml version="1.0" encoding="utf-8"?>\n<ptml><processTree name="x" root="%s" id="pt">%s%s</processTree></ptml>' % (
        r, "".join(nodes), "".join(edges))


def add_exits(t, exits):
    it = iter(exits)

    def go(x):
        if not isinstance(x, list):
            return x
        y = [x[0]] + [go(c) for c in x[1:]]
        if x[0] == "*":
            y.append(next(it, None))
        return y
    return go(t)


def desugar(t):
    if not isinstance(t, list):
        return t
    if t[0] == "*":
        l = ["*", desugar(t[1]), desugar(t[2])]
        return l if t[3] is None else ["->", l, desugar(t[3])]
    return [t[0]] + [desugar(c) for c in t[1:]]


def check_ptml3(case, ctx):
    t3 = add_exits(case["tree"], case["exits"])
    L = 5
    try:
        exp = ref.tree_lang(desugar(t3), L)
    except ref.Overflow:
        return
    ctx.nontrivial(any(x[0] == "*" and x[3] is not None for x in subs(t3)))
    ctx.label("root_loop" if isinstance(t3, list) and t3[0] == "*" else "inner")
    fd, path = tempfile.mkstemp(suffix=".ptml")
    os.write(fd, ptml_xml(t3).encode())
    os.close(fd)
    try:
        back = pm4py.read_ptml(path)
    finally:
        os.remove(path)
    got = build.untree(back)
    require(all(len(x) == 3 for x in subs(got) if x[0] == "*"), "imported loops have two children: %s", got)
    check_lang(got, exp, L, "read_ptml of %s" % (t3,))


def check_fold(case, ctx):
    from pm4py.objects.process_tree.utils import generic
    from pm4py.algo.reduction.process_tree import reducer
    L = 5
    try:
        exp = ref.tree_lang(case, L)
    except ref.Overflow:
        ctx.label("overflow")
        return
    t = build.tree(case)
    f = generic.fold(t)
    req_eq(build.untree(t), case, "fold must leave its input unchanged")
    got = build.untree(f)
    ctx.nontrivial(got != case)
    check_lang(got, exp, L, "fold")
    t = build.tree(case)
    generic.tree_sort(t)
    check_lang(build.untree(t), exp, L, "tree_sort")
    t = build.tree(case)
    b = generic.process_tree_to_binary_process_tree(t)
    got = build.untree(b)
    require(all(len(x) <= 3 for x in subs(got)), "binary tree has a node with more than two children: %s", got)
    check_lang(got, exp, L, "binary")


def subs(t):
    if isinstance(t, list):
        yield t
        for c in t[1:]:
            yield from subs(c)


def check_lang(got, exp, L, what):
    try:
        g = ref.tree_lang(got, L)
    except ref.Overflow:
        return
    if g != exp:
        raise Violation("%s changed the language: tree %s; missing %s extra %s" % (
            what, got, sorted(exp - g)[:4], sorted(g - exp)[:4]))


UNITS = [
    Unit("parse", ltree(), check_parse, 1500, rule="random trees (5 operators, odd labels); non-trivial: depth >= 2"),
    Unit("ptml", ltree(), check_ptml, 700, rule="random trees; non-trivial: depth >= 2"),
    Unit("ptml3", st.fixed_dictionaries({"tree": gen.tree(depth=3, ops=("->", "X", "+", "*", "*"), max_leaves=6),
                                         "exits": st.lists(st.sampled_from([None, "y", "z"]), max_size=3)}),
         check_ptml3, 800, rule="PTML text with 3-child loops; non-trivial: some loop has a non-silent exit child"),
    Unit("fold", gen.tree(depth=4, max_children=4, max_leaves=8, min_children=1), check_fold, 1500, shards=2, rule="random trees; non-trivial: folding changes the tree"),
]
