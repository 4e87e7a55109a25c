"""C11 BPMN files and BPMN semantics"""
import os, random, tempfile
from collections import Counter
from hypothesis import strategies as st
import gen, build, ref
from core import Unit, require, req_eq
import pm4py

META = dict(
    title="BPMN diagrams survive a write and read round trip",
    statement="Every BPMN diagram written to a file or string and read back has the same nodes (identifier, name, kind, gateway direction), the same sequence flows (end points and name), the same partition into processes and the same layout, with every option of the exporter and for every order of the elements in the file. "
              "A diagram converted from a process tree, after a round trip, still has the language of the tree, both under the token semantics of BPMN and as a Petri net, and reducing its exclusive gateways keeps that language.",
    over=["inputs"], quant="generated diagrams up to 12 nodes, generated trees up to 6 leaves",
    why="tests read two diagrams and write them back; names, directions, missing diagram sections and element orders vary without bound",
    files=["pm4py/objects/bpmn", "pm4py/read.py", "pm4py/write.py"],
    mech=[("export", "pm4py/objects/bpmn/exporter/variants/etree.py"), ("import", "pm4py/objects/bpmn/importer/variants/lxml.py"), ("token semantics", "pm4py/objects/bpmn/semantics.py"), ("reduction", "pm4py/objects/bpmn/util/reduction.py")],
    limits="Names of gateways, event definitions, kinds of tasks and contents of sub-processes are not written by the exporter and not claimed.")
TXT = st.one_of(st.sampled_from(["a", "b", "task one", "x & y", "<t>", "\"q\"", "'s'", "é ü", "日本", "a;b", "", " lead", "trail ", "a  b", "]]>", "subprocess", "1", "&amp;"]), st.text(alphabet="ab<>&\"' é#%", max_size=5))
KINDS = ["task"] * 4 + ["xor", "and", "or", "catch", "throw", "start", "end"]


@st.composite
def diag(draw):
    n = draw(st.integers(1, 10))
    nodes = [{"k": draw(st.sampled_from(KINDS)), "n": draw(TXT), "d": draw(st.integers(0, 2)), "p": draw(st.sampled_from([0, 0, 0, 1])), "x": draw(st.integers(-50, 900)), "y": draw(st.integers(0, 500)), "w": draw(st.integers(1, 200))} for _ in range(n)]
    flows = [{"s": draw(st.integers(0, n - 1)), "t": draw(st.integers(0, n - 1)), "n": draw(TXT), "w": draw(st.lists(st.tuples(st.integers(0, 99), st.integers(0, 99)).map(list), max_size=3))} for _ in range(draw(st.integers(0, 12)))]
    return {"nodes": nodes, "flows": flows, "procs": draw(st.sampled_from([1, 1, 2])), "layout": draw(st.booleans()), "plane": draw(st.sampled_from([True, True, False])), "inout": draw(st.booleans()), "file": draw(st.booleans()), "seed": draw(st.integers(0, 99)), "shuffle": draw(st.booleans())}


def mk(case):
    from pm4py.objects.bpmn.obj import BPMN
    b = BPMN()
    D = list(BPMN.Gateway.Direction)
    C = {"task": BPMN.Task, "xor": BPMN.ExclusiveGateway, "and": BPMN.ParallelGateway, "or": BPMN.InclusiveGateway, "catch": BPMN.IntermediateCatchEvent, "throw": BPMN.NormalIntermediateThrowEvent, "start": BPMN.NormalStartEvent, "end": BPMN.NormalEndEvent}
    objs = []
    pr = lambda k: None if case["procs"] == 1 else "proc%d" % k
    for i, x in enumerate(case["nodes"]):
        kw = {"gateway_direction": D[x["d"]]} if x["k"] in ("xor", "and", "or") else {}
        o = C[x["k"]](id="n%d" % i, name=x["n"] if not kw else "", process=pr(x["p"]), **kw)
        b.add_node(o)
        L = b.get_layout().get(o)
        L.set_x(x["x"]), L.set_y(x["y"]), L.set_width(x["w"]), L.set_height(x["w"] + 1)
        objs.append(o)
    for f in case["flows"]:
        fl = BPMN.SequenceFlow(objs[f["s"]], objs[f["t"]], name=f["n"], process=pr(case["nodes"][f["s"]]["p"]))
        b.add_flow(fl)
        fl.del_waypoints()
        for w in f["w"]:
            fl.add_waypoint(tuple(w))
    return b


def kind(n):
    from pm4py.objects.bpmn.obj import BPMN
    for c in (BPMN.Task, BPMN.SubProcess, BPMN.ExclusiveGateway, BPMN.ParallelGateway, BPMN.InclusiveGateway, BPMN.StartEvent, BPMN.EndEvent, BPMN.IntermediateCatchEvent, BPMN.IntermediateThrowEvent):
        if isinstance(n, c):
            return c.__name__
    return type(n).__name__


def dump(b, strip=""):
    from pm4py.objects.bpmn.obj import BPMN
    nodes = sorted((n.get_id(), n.get_name(), kind(n), n.get_gateway_direction().value if isinstance(n, BPMN.Gateway) else "") for n in b.get_nodes())
    flows = sorted((f.get_source().get_id(), f.get_target().get_id(), f.get_name()) for f in b.get_flows())
    part = {}
    for n in b.get_nodes():
        part.setdefault(n.get_process(), set()).add(n.get_id())
    return {"nodes": nodes, "flows": flows, "processes": sorted(sorted(v) for v in part.values())}


def arcs_ok(b):
    for n in b.get_nodes():
        req_eq(Counter(map(id, n.get_in_arcs())), Counter(id(f) for f in b.get_flows() if f.get_target() is n), "incoming flows of %s" % n)
        req_eq(Counter(map(id, n.get_out_arcs())), Counter(id(f) for f in b.get_flows() if f.get_source() is n), "outgoing flows of %s" % n)
    req_eq((b.get_graph().number_of_nodes(), b.get_graph().number_of_edges()), (len(b.get_nodes()), len(b.get_flows())), "graph of the diagram")


def lay(b):
    L = b.get_layout()
    return sorted((n.get_id(), float(L.get(n).get_x()), float(L.get(n).get_y()), float(L.get(n).get_width()), float(L.get(n).get_height())) for n in b.get_nodes()), \
        sorted((f.get_source().get_id(), f.get_target().get_id(), f.get_name(), [tuple(map(float, w)) for w in L.get(f).get_waypoints() or [(0, 0), (0, 0)]]) for f in b.get_flows())


def shuffle_xml(s, seed):
    from lxml import etree
    rnd = random.Random(seed)
    root = etree.fromstring(s)
    for el in root.iter():
        if isinstance(el.tag, str) and (el.tag.endswith("}process") or el.tag.endswith("BPMNPlane") or el.tag.endswith("definitions")):
            ch = list(el)
            rnd.shuffle(ch)
            for c in ch:
                el.remove(c)
            for c in ch:
                el.append(c)
    return etree.tostring(root)


def check_round(case, ctx):
    from pm4py.objects.bpmn.exporter import exporter
    from pm4py.objects.bpmn.exporter.variants import etree as ex
    from pm4py.objects.bpmn.importer import importer
    b = mk(case)
    arcs_ok(b)
    exp, le = dump(b), lay(b)
    P = {ex.Parameters.ENABLE_BPMN_PLANE_EXPORTING: case["plane"], ex.Parameters.ENABLE_INCOMING_OUTGOING_EXPORTING: case["inout"]}
    if case["file"]:
        with tempfile.TemporaryDirectory() as d:
            p = os.path.join(d, "m.bpmn")
            auto = case["layout"] and len(case["flows"]) > 0 and has_dot()
            if auto:
                pm4py.write_bpmn(b, p, auto_layout=True)
                le = lay(b)
                req_eq(dump(b), exp, "the diagram after write_bpmn")
                case = dict(case, plane=True)
            elif case["layout"]:
                pm4py.write_bpmn(b, p, auto_layout=False)
                case = dict(case, plane=True)
            else:
                exporter.apply(b, p, parameters=P)
            if case["shuffle"]:
                with open(p, "rb") as F:
                    s = F.read()
                with open(p, "wb") as F:
                    F.write(shuffle_xml(s, case["seed"]))
            r = pm4py.read_bpmn(p)
    else:
        s = ex.get_xml_string(b, parameters=P)
        if case["shuffle"]:
            s = shuffle_xml(s, case["seed"])
        r = importer.deserialize(s)
    got = dump(r)
    for k in exp:
        req_eq(got[k], exp[k], "%s after the round trip" % k)
    arcs_ok(r)
    if case["plane"]:
        lr = lay(r)
        req_eq(lr[0], le[0], "bounds of the nodes")
        req_eq(lr[1], le[1], "waypoints of the flows")
    r2 = importer.deserialize(ex.get_xml_string(r))
    req_eq(dump(r2), exp, "second round trip")
    ctx.nontrivial(len(exp["flows"]) > 1 and len(exp["nodes"]) > 2)
    ctx.label(("plane " if case["plane"] else "no plane ") + ("inout " if case["inout"] else "") + ("shuffled" if case["shuffle"] else ""))


def has_dot():
    import shutil
    return shutil.which("dot") is not None


def bpmn_lang(b, L, cap=20000):
    """sequences of executed tasks under the token semantics"""
    from pm4py.objects.bpmn.obj import BPMN
    from pm4py.objects.bpmn import semantics
    from pm4py.objects.bpmn.util import bpmn_utils
    m0 = bpmn_utils.get_initial_marking(b)
    require(len(m0) == 1, "initial marking %s", m0)
    key = lambda m: tuple(sorted((n.get_id(), k) for n, k in m.items() if k))
    seen, todo, res = {((), key(m0))}, [((), m0)], set()
    while todo:
        w, m = todo.pop()
        if any(isinstance(n, BPMN.EndEvent) for n in m):
            res.add(w)
            req_eq(sum(m.values()), 1, "tokens at the end event")
        for n in semantics.enabled_nodes(b, m):
            require(semantics.is_enabled(n, b, m), "enabled node %s is not enabled", n)
            outs = semantics.execute(n, b, m)
            for o in outs:
                w2 = w + (n.get_name(),) if isinstance(n, BPMN.Task) else w
                if len(w2) <= L and (w2, key(o)) not in seen:
                    seen.add((w2, key(o)))
                    todo.append((w2, o))
                    if len(seen) > cap:
                        raise ref.Overflow()
    return res


def check_sem(case, ctx):
    from pm4py.objects.bpmn.exporter.variants import etree as ex
    from pm4py.objects.bpmn.importer import importer
    from pm4py.objects.bpmn.util import reduction
    t = case["tree"]
    L = 6
    b = pm4py.convert_to_bpmn(build.tree(t))
    r = importer.deserialize(ex.get_xml_string(b, parameters={ex.Parameters.ENABLE_BPMN_PLANE_EXPORTING: case["plane"]}))
    req_eq(dump(r), dump(b), "round trip")
    if case["reduce"]:
        reduction.apply(r)
        arcs_ok(r)
    e = ref.tree_lang(t, L)
    got = bpmn_lang(r, L)
    require(got == e, "token semantics of %s: missing %s extra %s", t, sorted(e - got)[:3], sorted(got - e)[:3])
    net, im, fm = pm4py.convert_to_petri_net(r)
    got = ref.net_lang(net, im, fm, L)
    require(got == e, "Petri net after the round trip of %s: missing %s extra %s", t, sorted(e - got)[:3], sorted(got - e)[:3])
    ctx.nontrivial(len(e) > 1)
    ctx.label("reduced" if case["reduce"] else "as is")


@st.composite
def step_st(draw):
    d = draw(diag())
    g = {"k": draw(st.sampled_from(["xor", "and", "or", "or"])), "n": "", "d": draw(st.sampled_from([1, 2])), "p": 0, "x": 0, "y": 0, "w": 1}
    d["nodes"] = [g] + d["nodes"]
    k = len(d["nodes"])
    for _ in range(draw(st.integers(1, 4))):
        o = draw(st.integers(0, k - 1))
        s, t = (0, o) if g["d"] == 1 else (o, 0)
        d["flows"].append({"s": s, "t": t, "n": "", "w": []})
    d["m"] = draw(st.lists(st.sampled_from([0, 1, 1, 2, 3]), min_size=11, max_size=11))
    return d


def check_step(case, ctx):
    """one step of the token semantics: gateways"""
    import itertools
    from pm4py.objects.bpmn.obj import BPMN, Marking
    from pm4py.objects.bpmn import semantics
    b = mk(dict(case, procs=1))
    nodes = sorted(b.get_nodes(), key=lambda n: int(n.get_id()[1:]))
    b.set_process_id(nodes[0].get_process())
    m = Marking()
    for n, k in zip(nodes, case["m"]):
        if k and not isinstance(n, BPMN.EndEvent):
            m[n] = k
    D = BPMN.Gateway.Direction
    before = dict(m)
    for n in nodes:
        conv = isinstance(n, (BPMN.ParallelGateway, BPMN.InclusiveGateway)) and n.get_gateway_direction() == D.CONVERGING
        en = before.get(n, 0) >= (len(n.get_in_arcs()) if conv else 1)
        req_eq(bool(semantics.is_enabled(n, b, m)), en, "enabledness of %s" % n)
        outs = semantics.execute(n, b, m)
        req_eq(dict(m), before, "the marking is not changed by the execution of %s" % n)
        if not en:
            require(outs is None, "execution of the disabled node %s", n)
            continue
        tg = [f.get_target() for f in n.get_out_arcs()]
        if isinstance(n, BPMN.Gateway) and n.get_gateway_direction() == D.UNSPECIFIED:
            continue
        if isinstance(n, BPMN.Gateway) and n.get_gateway_direction() == D.DIVERGING:
            if isinstance(n, BPMN.ParallelGateway):
                sets = [tg]
            elif isinstance(n, BPMN.ExclusiveGateway):
                sets = [[x] for x in tg]
            else:
                sets = [list(c) for k in range(1, len(tg) + 1) for c in itertools.combinations(tg, k)]
        elif len(tg) > 1:
            continue
        else:
            sets = [tg]
        exp = []
        for s in sets:
            c = Counter({x: k for x, k in before.items() if x is not n})
            c.update(s)
            exp.append(c)
        srt = lambda L: sorted(sorted((x.get_id(), k) for x, k in c.items() if k) for c in L)
        req_eq(srt(outs), srt(exp), "markings after %s" % n)
        ctx.label(kind(n))
        if len(sets) > 1 or len(tg) > 1:
            ctx.nontrivial(True)


UNITS = [
    Unit("step", step_st(), check_step, quick=600, shards=2, rule="a gateway with several outgoing flows"),
    Unit("roundtrip", diag(), check_round, quick=1200, shards=4, rule="more than two nodes and more than one flow"),
    Unit("semantics", st.fixed_dictionaries({"tree": gen.tree(depth=3, ops=("->", "X", "+", "*"), max_leaves=6), "plane": st.booleans(), "reduce": st.booleans()}), check_sem, quick=500, shards=3, rule="more than one sequence"),
]
