"""C10 PNML round trip"""
import os, tempfile
from hypothesis import strategies as st
import gen, build, ref, nets
from core import Unit, require, req_eq, Violation
import pm4py
from pm4py.objects.petri_net.obj import PetriNet, Marking, ResetNet, InhibitorNet, ResetInhibitorNet
from pm4py.objects.petri_net import properties
from pm4py.objects.petri_net.utils import petri_utils
from pm4py.util import constants

META = dict(
    title="Petri nets survive PNML export and import",
    statement="Exporting an accepting Petri net (unique node names, non-empty labels, non-empty final marking) and reading it back, via file, string or the serialization functions, gives a net with the same places, transitions with the same names and labels (silent ones stay silent), the same arcs with weights and kinds (ordinary, inhibitor, reset), and the same initial and final markings. "
              "Guards, read/write variables, declared variables, layout and stochastic information attached to the net are preserved as well. The exported net is not modified.",
    over=["inputs"], quant="all nets within the size bound with labels over ordinary, markup, unicode and whitespace strings",
    why="tests round-trip one running example without weights, odd labels, arc kinds, guards or multi-token markings",
    files=["pm4py/objects/petri_net/exporter/variants/pnml.py", "pm4py/objects/petri_net/importer/variants/pnml.py"],
    mech=[("PNML writer", "pm4py/objects/petri_net/exporter/variants/pnml.py"), ("PNML reader", "pm4py/objects/petri_net/importer/variants/pnml.py")])

LAB = gen.ACTS[:3] + gen.ODD


@st.composite
def case_st(draw):
    s = draw(nets.free_net(max_p=4, max_t=4, max_w=3, max_tok=3, labels=LAB))
    if not s["fm"]:
        s["fm"] = {"0": 1}
    if draw(st.booleans()):
        ren = draw(st.lists(st.sampled_from(["source", "sink", "p 1", "({'a'}, {'b'})", "é", "<x>", "a&b", "10", "place", "arc"]), unique=True, min_size=len(s["places"]), max_size=len(s["places"])))
        s["places"] = ren
    have = {(a[1], a[2]) for a in s["arcs"] if a[0] == "pt"}
    special = []
    for _ in range(draw(st.integers(0, 3))):
        p, t = draw(st.integers(0, len(s["places"]) - 1)), draw(st.integers(0, len(s["trans"]) - 1))
        if (p, t) not in have:
            have.add((p, t))
            special.append([draw(st.sampled_from(["inhibitor", "reset"])), p, t])
    n = len(s["trans"])
    dec = {"guard": draw(st.lists(st.sampled_from([None, None, "x > 2", "x < 3 && y == 'a'"]), min_size=n, max_size=n)),
           "read": draw(st.lists(st.lists(st.sampled_from(["x", "y", "amount"]), max_size=2), min_size=n, max_size=n)),
           "write": draw(st.lists(st.lists(st.sampled_from(["x", "y", "amount"]), max_size=2), min_size=n, max_size=n)),
           "vars": draw(st.lists(st.tuples(st.sampled_from(["x", "y"]), st.sampled_from(["java.lang.Long", "java.lang.String"])).map(list), max_size=2)),
           "layout": draw(st.booleans()),
           "stoch": draw(st.lists(st.sampled_from([None, None, ["NORMAL", "10.5;2.0"], ["UNIFORM", "1.0;4.0"], ["EXPONENTIAL", "0.5"], ["IMMEDIATE", None]]), min_size=n, max_size=n)),
           "weight": draw(st.lists(st.sampled_from([0.5, 1.0, 3.25]), min_size=n, max_size=n)),
           "prio": draw(st.lists(st.integers(0, 3), min_size=n, max_size=n))}
    return {"net": s, "special": special, "dec": dec, "plain": draw(st.booleans()), "name": draw(st.sampled_from(["net", "a b", "<n>"]))}


def mk(case):
    s, d = case["net"], case["dec"]
    kinds = {x[0] for x in case["special"]} if not case["plain"] else set()
    cls = ResetInhibitorNet if len(kinds) == 2 else ResetNet if "reset" in kinds else InhibitorNet if kinds else PetriNet
    net = cls(case["name"])
    ps = [PetriNet.Place(x) for x in s["places"]]
    ts = [PetriNet.Transition(x, l) for x, l in s["trans"]]
    net.places.update(ps)
    net.transitions.update(ts)
    for k, a, b, w in s["arcs"]:
        petri_utils.add_arc_from_to(ps[a], ts[b], net, weight=w) if k == "pt" else petri_utils.add_arc_from_to(ts[a], ps[b], net, weight=w)
    for kind, p, t in (case["special"] if not case["plain"] else []):
        petri_utils.add_arc_from_to(ps[p], ts[t], net, type=properties.INHIBITOR_ARC if kind == "inhibitor" else properties.RESET_ARC)
    if not case["plain"]:
        from pm4py.objects.random_variables.random_variable import RandomVariable
        for i, t in enumerate(ts):
            if d["guard"][i]:
                t.properties[properties.TRANS_GUARD] = d["guard"][i]
            if d["read"][i]:
                t.properties[properties.READ_VARIABLE] = d["read"][i]
            if d["write"][i]:
                t.properties[properties.WRITE_VARIABLE] = d["write"][i]
            if d["stoch"][i]:
                rv = RandomVariable()
                rv.read_from_string(*d["stoch"][i])
                rv.set_weight(d["weight"][i])
                rv.set_priority(d["prio"][i])
                t.properties[constants.STOCHASTIC_DISTRIBUTION] = rv
        if d["vars"]:
            net.properties[properties.VARIABLES] = [{"name": n, "type": t} for n, t in d["vars"]]
        if d["layout"]:
            for i, x in enumerate(ps + ts):
                x.properties[constants.LAYOUT_INFORMATION_PETRI] = ((i * 10.5, 3.0), (20.0, 7.5 + i))
    im = Marking({ps[int(k)]: v for k, v in s["im"].items()})
    fm = Marking({ps[int(k)]: v for k, v in s["fm"].items()})
    return net, im, fm


def view(net, im, fm, full):
    kind = lambda a: "reset" if isinstance(a, ResetNet.ResetArc) else "inhibitor" if isinstance(a, InhibitorNet.InhibitorArc) else ""
    v = {"places": sorted(p.name for p in net.places), "trans": sorted((t.name, "silent" if t.label is None else "l:" + t.label) for t in net.transitions),
         "arcs": sorted((a.source.name, a.target.name, a.weight, kind(a)) for a in net.arcs),
         "im": {p.name: k for p, k in im.items()}, "fm": {p.name: k for p, k in fm.items()}}
    require(set(im) <= net.places and set(fm) <= net.places, "markings are over the places of the net")
    for a in net.arcs:
        require(a in a.source.out_arcs and a in a.target.in_arcs, "arcs registered at nodes")
    if full:
        def rv(t):
            r = t.properties.get(constants.STOCHASTIC_DISTRIBUTION)
            if r is None:
                return None
            par = r.get_distribution_parameters()
            return (r.get_distribution_type(), [float(x) for x in str(par).split(";")] if r.get_distribution_type() != "IMMEDIATE" else None, r.get_weight(), r.get_priority())
        v["dec"] = {t.name: (t.properties.get(properties.TRANS_GUARD), t.properties.get(properties.READ_VARIABLE), t.properties.get(properties.WRITE_VARIABLE), rv(t)) for t in net.transitions}
        v["vars"] = net.properties.get(properties.VARIABLES, [])
        v["layout"] = {x.name: x.properties.get(constants.LAYOUT_INFORMATION_PETRI) for x in list(net.places) + list(net.transitions)}
    return v


def check(case, ctx):
    from pm4py.objects.petri_net.exporter import exporter
    from pm4py.objects.petri_net.exporter.variants import pnml as xpnml
    from pm4py.objects.petri_net.importer.variants import pnml as ipnml
    net, im, fm = mk(case)
    full = not case["plain"]
    exp = view(net, im, fm, full)
    ctx.nontrivial(len(net.arcs) > 1)
    if full and case["special"]:
        ctx.label("special_arcs")
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, "n.pnml")
        pm4py.write_pnml(net, im, fm, p)
        req_eq(view(*pm4py.read_pnml(p), full), exp, "file round trip")
        req_eq(view(*pm4py.read_pnml(p, auto_guess_final_marking=True), full), exp, "file round trip, final marking stated in the file")
        pm4py.write_pnml(net, im, fm, os.path.join(d, "m"))
        req_eq(view(*pm4py.read_pnml(os.path.join(d, "m.pnml")), full), exp, "extension added")
        exporter.apply(net, im, p, final_marking=fm, variant=exporter.Variants.PNML, parameters={})
        req_eq(view(*pm4py.read_pnml(p), full), exp, "exporter.apply")
    s = xpnml.export_petri_as_string(net, im, fm)
    req_eq(view(*ipnml.import_net_from_string(s), full), exp, "string round trip")
    req_eq(view(*ipnml.import_net_from_string(s.decode("utf-8") if isinstance(s, bytes) else s), full), exp, "text round trip")
    if case["plain"]:
        req_eq(view(*pm4py.deserialize(pm4py.serialize(net, im, fm)), full), exp, "serialize/deserialize")
    req_eq(view(net, im, fm, full), exp, "the exported net is not modified")


def check_twice(case, ctx):
    """import(export) is idempotent: a second round trip changes nothing"""
    net, im, fm, ps, ts = build.net(case)
    ctx.nontrivial(len(ts) > 2)
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, "n.pnml")
        pm4py.write_pnml(net, im, fm, p)
        a = pm4py.read_pnml(p)
        pm4py.write_pnml(*a, p)
        b = pm4py.read_pnml(p)
    req_eq(view(*b, False), view(*a, False), "second round trip")
    L = 4
    req_eq(ref.net_lang(*a, L, 4000), ref.net_lang(net, im, fm, L, 4000), "language of the imported net")


UNITS = [Unit("roundtrip", case_st(), check, 900, shards=4, rule="nets with odd labels/names, weights, inhibitor/reset arcs and decorations; non-trivial: > 1 arc"),
         Unit("twice", nets.tree_net(depth=2, mutations=1), check_twice, 300, rule="nets of trees; non-trivial: > 2 transitions")]
