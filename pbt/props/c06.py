"""C06 functions that compute do not edit what they are given"""
import os, tempfile
from hypothesis import strategies as st
import gen, build, api, ref
from core import Unit, require, req_eq, Violation
import pm4py
from props import c05

META = dict(
    title="Analysis functions do not edit their inputs",
    statement="Discovery, statistics, filtering, conformance checking, conversion, feature extraction, export, visualisation and simplification functions that return a result leave the objects they are given unchanged: the columns, rows, types and attrs of dataframes, the cases, events and attributes of event logs, and the places, transitions, arcs, markings and labels of the models.",
    over=["inputs", "histories"], quant="all log functions x two log representations and all model functions, over generated logs and the models discovered from them",
    why="tests look at the returned value only, and the damage appears in the next call on the same object",
    files=["pm4py/algo/discovery/dfg/adapters/pandas/df_statistics.py", "pm4py/statistics", "pm4py/algo", "pm4py/objects/conversion", "pm4py/objects/petri_net/exporter/variants/pnml.py", "pm4py/visualization"],
    mech=[("directly-follows computation on dataframes", "pm4py/algo/discovery/dfg/adapters/pandas/df_statistics.py"), ("filters", "pm4py/algo/filtering"), ("conversions", "pm4py/objects/conversion")])


def snap_log(o):
    if hasattr(o, "columns"):
        return [list(o.columns), [str(x) for x in o.dtypes], [[repr(x) for x in r] for r in o.itertuples(index=True, name=None)], sorted((str(k), repr(v)) for k, v in o.attrs.items())]
    return [[[sorted((k, repr(v)) for k, v in t.attributes.items()), [sorted((k, repr(v)) for k, v in e.items()) for e in t]] for t in o],
            repr(o.attributes), repr(o.properties), repr(o.extensions), repr(o.classifiers), repr(o.omni_present)]


def snap_net(n, im, fm):
    return [sorted((p.name, repr(p.properties), len(p.in_arcs), len(p.out_arcs)) for p in n.places), sorted((t.name, str(t.label), repr(t.properties), len(t.in_arcs), len(t.out_arcs)) for t in n.transitions),
            sorted((a.source.name, a.target.name, a.weight, repr(a.properties)) for a in n.arcs), sorted((p.name, v) for p, v in im.items()), sorted((p.name, v) for p, v in fm.items())]


def snap_tree(t):
    return [str(t.operator), t.label, t.parent is None, [snap_tree(c) for c in t.children]]


def snap_bpmn(b):
    return [sorted((type(n).__name__, n.get_id(), n.get_name(), len(n.get_in_arcs()), len(n.get_out_arcs())) for n in b.get_nodes()), sorted((f.get_source().get_id(), f.get_target().get_id()) for f in b.get_flows())]


def snap(k, o):
    if k == "net" or k == "hnet":
        return snap_net(*o)
    if k == "tree":
        return snap_tree(o)
    if k == "bpmn":
        return snap_bpmn(o)
    if k in ("dfg", "perf", "tp", "declare", "skel", "ts_dict"):
        return repr(o)
    if k == "powl":
        return str(o)
    if k == "ts":
        return [sorted(str(s.name) for s in o.states), sorted((str(t.from_state.name), str(t.name), str(t.to_state.name)) for t in o.transitions)]
    if k == "pt":
        def go(n):
            return [str(n.label), n.final, [go(c) for c in n.children]]
        return go(o)
    if k == "hn":
        return [repr(o.dfg), repr(o.dependency_matrix), sorted(o.nodes)]
    return None


def tmpfile(ext):
    return os.path.join(tempfile.mkdtemp(dir=os.environ.get("TMPDIR")), "x." + ext)


def written(f, *a):
    d = tempfile.mkdtemp()
    try:
        f(*a, os.path.join(d, "x"))
    finally:
        import shutil
        shutil.rmtree(d)


def vis(path, *a, **k):
    import importlib
    m = importlib.import_module("pm4py.visualization." + path)
    m.apply(*a, **k)


MODEL = {
    "convert_to_bpmn(net)": lambda m: pm4py.convert_to_bpmn(*m["net"]),
    "convert_to_bpmn(tree)": lambda m: pm4py.convert_to_bpmn(m["tree"]),
    "convert_to_petri_net(tree)": lambda m: pm4py.convert_to_petri_net(m["tree"]),
    "convert_to_petri_net(bpmn)": lambda m: pm4py.convert_to_petri_net(m["bpmn"]),
    "convert_to_petri_net(dfg)": lambda m: pm4py.convert_to_petri_net(*m["dfg"]),
    "convert_to_petri_net(powl)": lambda m: pm4py.convert_to_petri_net(m["powl"]),
    "convert_to_petri_net(heuristics net)": lambda m: pm4py.convert_to_petri_net(m["hn"]),
    "convert_to_process_tree(net)": lambda m: pm4py.convert_to_process_tree(*m["net"]),
    "convert_to_process_tree(bpmn)": lambda m: pm4py.convert_to_process_tree(m["bpmn"]),
    "convert_to_reachability_graph": lambda m: pm4py.convert_to_reachability_graph(*m["net"]),
    "convert_petri_net_to_networkx": lambda m: pm4py.convert_petri_net_to_networkx(*m["net"]),
    "check_soundness": lambda m: pm4py.check_soundness(*m["net"]),
    "check_is_workflow_net": lambda m: pm4py.check_is_workflow_net(m["net"][0]),
    "maximal_decomposition": lambda m: pm4py.maximal_decomposition(*m["net"]),
    "simplicity_petri_net": lambda m: pm4py.simplicity_petri_net(*m["net"]),
    "get_enabled_transitions": lambda m: pm4py.get_enabled_transitions(m["net"][0], m["net"][1]),
    "solve_marking_equation": lambda m: pm4py.solve_marking_equation(*m["net"]),
    "sync product": lambda m: pm4py.construct_synchronous_product_net(m["trace"], *m["net"]),
    "play_out(net)": lambda m: pm4py.play_out(*m["net"]),
    "play_out(tree)": lambda m: pm4py.play_out(m["tree"]),
    "play_out(dfg)": lambda m: pm4py.play_out(*m["dfg"]),
    "discover_footprints(net)": lambda m: pm4py.discover_footprints(*m["net"]),
    "discover_footprints(tree)": lambda m: pm4py.discover_footprints(m["tree"]),
    "write_pnml": lambda m: written(pm4py.write_pnml, *m["net"]),
    "write_ptml": lambda m: written(pm4py.write_ptml, m["tree"]),
    "write_bpmn": lambda m: written(lambda b, p: pm4py.write_bpmn(b, p), m["bpmn"]),
    "write_dfg": lambda m: written(pm4py.write_dfg, *m["dfg"]),
    "serialize(net)": lambda m: pm4py.serialize(*m["net"]),
    "serialize(tree)": lambda m: pm4py.serialize(m["tree"]),
    "serialize(bpmn)": lambda m: pm4py.serialize(m["bpmn"]),
    "serialize(dfg)": lambda m: pm4py.serialize(*m["dfg"]),
    "abstract_petri_net": lambda m: pm4py.llm.abstract_petri_net(*m["net"]),
    "abstract_temporal_profile": lambda m: pm4py.llm.abstract_temporal_profile(m["tp"]),
    "abstract_declare": lambda m: pm4py.llm.abstract_declare(m["declare"]),
    "abstract_log_skeleton": lambda m: pm4py.llm.abstract_log_skeleton(m["skel"]),
    "vis petri net": lambda m: vis("petri_net.visualizer", *m["net"]),
    "vis tree": lambda m: vis("process_tree.visualizer", m["tree"]),
    "vis bpmn": lambda m: vis("bpmn.visualizer", m["bpmn"]),
    "vis dfg": lambda m: vis("dfg.visualizer", m["dfg"][0], activities_count={a: 1 for e in m["dfg"][0] for a in e}, parameters={"start_activities": m["dfg"][1], "end_activities": m["dfg"][2]}),
    "vis heuristics net": lambda m: __import__("pm4py.visualization.heuristics_net.variants.pydotplus_vis", fromlist=["x"]).get_graph(m["hn"]),
    "vis transition system": lambda m: vis("transition_system.visualizer", m["ts"]),
    "vis prefix tree": lambda m: vis("trie.visualizer", m["pt"]),
    "vis powl": lambda m: vis("powl.visualizer", m["powl"]),
    "alignments": lambda m: pm4py.conformance_diagnostics_alignments(m["log"], *m["net"]),
    "decomposed alignments": lambda m: __import__("pm4py.algo.conformance.alignments.decomposed.algorithm", fromlist=["x"]).apply(m["log"], *m["net"]),
    "fitness footprints": lambda m: pm4py.fitness_footprints(m["log"], *m["net"]),
    "precision footprints": lambda m: pm4py.precision_footprints(m["log"], *m["net"]),
    "check_is_fitting": lambda m: pm4py.check_is_fitting(list(m["variants"])[0], *m["net"]),
    "replay_prefix_tbr": lambda m: pm4py.replay_prefix_tbr(list(list(m["variants"])[0])[:1], *m["net"]),
    "compute_emd": lambda m: pm4py.compute_emd(m["lang"], m["lang"]),
    "filter dfg paths": lambda m: __import__("pm4py.algo.filtering.dfg.dfg_filtering", fromlist=["x"]).filter_dfg_on_paths_percentage(m["dfg"][0], m["dfg"][1], m["dfg"][2], {a: 1 for e in list(m["dfg"][0]) + [(x, x) for x in m["dfg"][1]] for a in e}, 0.5),
    "filter dfg activities": lambda m: __import__("pm4py.algo.filtering.dfg.dfg_filtering", fromlist=["x"]).filter_dfg_on_activities_percentage(m["dfg"][0], m["dfg"][1], m["dfg"][2], {a: 1 for e in list(m["dfg"][0]) + [(x, x) for x in m["dfg"][1]] for a in e}, 0.5),
    "conformance declare": lambda m: pm4py.conformance_declare(m["log"], m["declare"]),
    "conformance skeleton": lambda m: pm4py.conformance_log_skeleton(m["log"], m["skel"]),
    "conformance temporal": lambda m: pm4py.conformance_temporal_profile(m["log"], m["tp"]),
    "ts to net": lambda m: __import__("pm4py.algo.discovery.transition_system.algorithm", fromlist=["x"]),
    "tree normal form": lambda m: __import__("pm4py.objects.process_tree.utils.generic", fromlist=["x"]).fold(m["tree"]),
    "tree bottom-up": lambda m: __import__("pm4py.objects.process_tree.utils.bottomup", fromlist=["x"]).get_bottomup_nodes(m["tree"]),
}


def build_models(log):
    df = build.fdf(log)
    m = {"log": df, "trace": build.elog(log)[0]}
    m["net"] = pm4py.discover_petri_net_inductive(df)
    m["tree"] = pm4py.discover_process_tree_inductive(df)
    m["bpmn"] = pm4py.discover_bpmn_inductive(df)
    m["dfg"] = pm4py.discover_dfg(df)
    m["powl"] = pm4py.discover_powl(df)
    m["hn"] = pm4py.discover_heuristics_net(df)
    m["ts"] = pm4py.discover_transition_system(df)
    m["pt"] = pm4py.discover_prefix_tree(df)
    m["tp"] = pm4py.discover_temporal_profile(df)
    m["declare"] = pm4py.discover_declare(df)
    m["skel"] = pm4py.discover_log_skeleton(df)
    m["variants"] = pm4py.get_variants(df)
    m["lang"] = pm4py.get_stochastic_language(df)
    return m


def check_model(case, ctx):
    m = build_models(case["log"])
    ctx.nontrivial(len(m["net"][0].transitions) > 3)
    before = {k: snap(k, v) for k, v in m.items()}
    before["log"] = snap_log(m["log"])
    for name, f in MODEL.items():
        try:
            f(m)
        except Exception as e:
            if name.startswith(("convert_to_process_tree", "ts to net", "vis ", "decomposed")):
                ctx.label("refused:" + name)
            else:
                raise
        after = {k: snap(k, v) for k, v in m.items()}
        after["log"] = snap_log(m["log"])
        for k in before:
            require(after[k] == before[k], "%s changed the %s it was given: %s -> %s", name, k, before[k], after[k])


def check_log(names):
    def check(case, ctx):
        log = case["log"]
        M = c05.models(log)
        if case["df"]:
            o = build.fdf(log, sk=case["sk"])
            if case["raw"]:
                o = build.df(log, sk=case["sk"])
        else:
            o = build.elog(log, sk=case["sk"])
        K = dict(c05.STD, s=case["sk"])
        before = snap_log(o)
        mb = {k: snap(k, M[k]) for k in ("net", "tree", "tp", "declare", "skel")}
        ctx.nontrivial(len(log["cases"]) > 1)
        for name in names:
            try:
                api.API[name](o, K, M)
            except ref.Overflow:
                pass
            after = snap_log(o)
            if after != before:
                for x, y in zip(before, after):
                    if x != y:
                        raise Violation("%s changed the %s it was given: %r -> %r" % (name, "dataframe" if case["df"] else "event log", x, y))
            for k in mb:
                require(snap(k, M[k]) == mb[k], "%s changed the %s it was given", name, k)
    return check


S = st.fixed_dictionaries({"log": gen.log(n_act=3, max_len=4, max_traces=4, min_traces=2, equal_ts=False, resources=True, start_ts="mono"), "df": st.booleans(), "raw": st.booleans(), "sk": st.sampled_from(["begin", "start_timestamp"])})
UNITS = [Unit("log " + k, S, check_log(v), 25, shards=2, rule="every function of the group on one log object, snapshots compared after each call; non-trivial: > 1 case") for k, v in c05.GROUPS.items()]
UNITS.append(Unit("models", st.fixed_dictionaries({"log": gen.log(n_act=3, max_len=4, max_traces=4, min_traces=2, equal_ts=False)}), check_model, 20, shards=2,
                  rule="%d model functions on the models of one log, snapshots of every model compared after each call; non-trivial: > 3 transitions" % len(MODEL)))
