"""C13 model conversions starting from a process tree keep the language"""
from hypothesis import strategies as st
import gen, build, ref
from core import Unit, require, req_eq, Violation
import pm4py

META = dict(
    title="Converting a process tree to another model keeps its language",
    statement="Converting a process tree to a Petri net, to BPMN (and on to a Petri net), or to POWL (and on to a Petri net) gives a model accepting exactly the activity sequences of the tree; the net is a sound workflow net with one token in its source and sink as markings, and the tree is unchanged. "
              "Converting such a net back to a process tree either is refused or gives a tree with the same language. For an inclusive choice via BPMN the language may additionally contain the runs in which no branch is taken.",
    over=["programs"], quant="all process trees over sequence, choice, parallel, loop, interleaving and (not nested, for BPMN) inclusive choice within the size bound, languages compared up to length 5",
    why="tests convert a few discovered models and assert at most that alignments work; language equality must hold for every nesting of operators",
    files=["pm4py/convert.py", "pm4py/objects/conversion/process_tree/variants/to_petri_net.py", "pm4py/objects/conversion/process_tree/variants/to_bpmn.py", "pm4py/objects/conversion/process_tree/variants/to_powl.py", "pm4py/objects/conversion/bpmn/variants/to_petri_net.py", "pm4py/objects/conversion/wf_net/variants/to_process_tree.py", "pm4py/objects/conversion/wf_net/variants/to_bpmn.py"],
    mech=[("tree to net", "pm4py/objects/conversion/process_tree/variants/to_petri_net.py"), ("BPMN to net", "pm4py/objects/conversion/bpmn/variants/to_petri_net.py"), ("net to tree", "pm4py/objects/conversion/wf_net/variants/to_process_tree.py")])
L = 5


def lang_of_net(net, im, fm):
    return ref.net_lang(net, im, fm, L, cap=12000)


def cmp(got, exp, what):
    if got != exp:
        raise Violation("%s: language differs; missing %s extra %s" % (what, sorted(exp - got)[:4], sorted(got - exp)[:4]))


def exp_lang(case, ctx):
    try:
        e = ref.tree_lang(case, L)
    except ref.Overflow:
        ctx.label("overflow")
        return None
    ctx.nontrivial(len(e) > 1)
    ctx.label("lang%d" % min(3, len(str(len(e)))))
    if ref.tree_has(case, "*"):
        ctx.label("loop")
    return e


def structure(net, im, fm):
    require(ref.is_wf_net(net), "the resulting net is a workflow net")
    src = [p for p in net.places if len(p.in_arcs) == 0]
    snk = [p for p in net.places if len(p.out_arcs) == 0]
    require(dict(im) == {src[0]: 1} and dict(fm) == {snk[0]: 1}, "one token in the source / sink: %s %s", im, fm)
    # arc sets are consistent between net and nodes
    for a in net.arcs:
        require(a in a.source.out_arcs and a in a.target.in_arcs, "arc registered at both ends")
    require(sum(len(x.out_arcs) for x in list(net.places) + list(net.transitions)) == len(net.arcs), "arc bookkeeping")


def check_pn(case, ctx):
    e = exp_lang(case, ctx)
    if e is None:
        return
    t = build.tree(case)
    net, im, fm = pm4py.convert_to_petri_net(t)
    req_eq(build.untree(t), case, "conversion leaves the tree unchanged")
    structure(net, im, fm)
    try:
        cmp(lang_of_net(net, im, fm), e, "tree -> Petri net of %s" % (case,))
        require(ref.is_sound(net, im, fm), "the net of a process tree is sound")
    except ref.Overflow:
        ctx.label("net_overflow")


def check_pn_bordered(case, ctx):
    from pm4py.objects.conversion.process_tree import converter
    e = exp_lang(case, ctx)
    if e is None:
        return
    net, im, fm = converter.apply(build.tree(case), variant=converter.Variants.TO_PETRI_NET_TRANSITION_BORDERED)
    try:
        cmp(lang_of_net(net, im, fm), e, "tree -> transition-bordered Petri net of %s" % (case,))
    except ref.Overflow:
        ctx.label("net_overflow")


def check_bpmn(case, ctx):
    e = exp_lang(case, ctx)
    if e is None:
        return
    b = pm4py.convert_to_bpmn(build.tree(case))
    from pm4py.objects.bpmn.obj import BPMN
    tasks = sorted(n.get_name() for n in b.get_nodes() if isinstance(n, BPMN.Task))
    req_eq(tasks, sorted(ref.tree_labels(case)), "one task per labelled leaf")
    net, im, fm = pm4py.convert_to_petri_net(b)
    try:
        cmp(lang_of_net(net, im, fm), e, "tree -> BPMN -> Petri net of %s" % (case,))
    except ref.Overflow:
        ctx.label("net_overflow")


def check_pn_bpmn(case, ctx):
    e = exp_lang(case, ctx)
    if e is None:
        return
    net, im, fm = pm4py.convert_to_petri_net(build.tree(case))
    b = pm4py.convert_to_bpmn(net, im, fm)
    n2, im2, fm2 = pm4py.convert_to_petri_net(b)
    try:
        cmp(lang_of_net(n2, im2, fm2), e, "tree -> Petri net -> BPMN -> Petri net of %s" % (case,))
    except ref.Overflow:
        ctx.label("net_overflow")


def optional_or(t):
    if not isinstance(t, list):
        return t
    u = [t[0]] + [optional_or(c) for c in t[1:]]
    return ["X", None, u] if t[0] == "O" else u


def no_nested_or(t, inside=False):
    if not isinstance(t, list):
        return t
    op = "+" if t[0] == "O" and inside else t[0]
    return [op] + [no_nested_or(c, inside or op == "O") for c in t[1:]]


def check_bpmn_or(case, ctx):
    """inclusive gateways: pm4py's net lets an inclusive split/join pair be crossed without taking a branch,
    so the language is only bounded from both sides"""
    e = exp_lang(case, ctx)
    if e is None:
        return
    hi = ref.tree_lang(optional_or(case), L)
    net, im, fm = pm4py.convert_to_petri_net(pm4py.convert_to_bpmn(build.tree(case)))
    try:
        got = lang_of_net(net, im, fm)
        require(got >= e, "tree -> BPMN -> net of %s loses %s", case, sorted(e - got)[:4])
        require(got <= hi, "tree -> BPMN -> net of %s invents %s", case, sorted(got - hi)[:4])
    except ref.Overflow:
        ctx.label("net_overflow")


def check_powl(case, ctx):
    e = exp_lang(case, ctx)
    if e is None:
        return
    from pm4py.objects.conversion.process_tree import converter
    p = converter.apply(build.tree(case), variant=converter.Variants.TO_POWL)
    net, im, fm = pm4py.convert_to_petri_net(p)
    try:
        cmp(lang_of_net(net, im, fm), e, "tree -> POWL -> Petri net of %s" % (case,))
    except ref.Overflow:
        ctx.label("net_overflow")


def check_back(case, ctx):
    """tree -> net -> tree: either refused, or language-equal; and the block-structured transition-bordered form is not refused"""
    e = exp_lang(case, ctx)
    if e is None:
        return
    net, im, fm = pm4py.convert_to_petri_net(build.tree(case))
    before = repr(net)
    try:
        back = pm4py.convert_to_process_tree(net, im, fm)
    except Exception:
        require(isinstance(case, list), "the net of the activity %r is refused", case)
        ctx.label("refused")
        return
    req_eq(repr(net), before, "convert_to_process_tree leaves the net unchanged")
    ctx.label("converted")
    got = ref.tree_lang(build.untree(back), L)
    cmp(got, e, "tree -> net -> tree: %s became %s" % (case, build.untree(back)))


ODD = ["it's", "a, 'b'", "tau", "x (y)", "->", "'", "c"]
NOOR = ("->", "X", "+", "*")
UNITS = [
    Unit("pn", gen.tree(depth=3, ops=gen.OPS + ["<>"], max_leaves=6), check_pn, 1400, shards=5, rule="random trees with all six operators; non-trivial: language (bounded) has > 1 trace"),
    Unit("bordered", gen.tree(depth=3, ops=NOOR, max_leaves=6), check_pn_bordered, 500, rule="as pn"),
    Unit("bpmn", gen.tree(depth=3, ops=NOOR, max_leaves=6), check_bpmn, 800, shards=2, rule="as pn"),
    Unit("pn_bpmn", gen.tree(depth=3, ops=NOOR + ("O",), max_leaves=6), check_pn_bpmn, 500, shards=2, rule="as pn"),
    Unit("bpmn_or", gen.tree(depth=3, ops=NOOR + ("O",), max_leaves=5).map(no_nested_or), check_bpmn_or, 500, shards=2, rule="trees with inclusive choice"),
    Unit("powl", gen.tree(depth=3, ops=NOOR, max_leaves=6), check_powl, 700, rule="as pn"),
    Unit("back", st.one_of(gen.tree(depth=3, ops=NOOR + ("O",), max_leaves=6), gen.tree(depth=3, ops=NOOR, max_leaves=5, pool=ODD), st.sampled_from(ODD + [None])), check_back, 800, shards=2, rule="as pn; refusals counted under label refused"),
]
