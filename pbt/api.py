"""table of the log-based functions of the public interface: name -> f(log, K, M) returning a comparable value.
K: the names of the case/activity/timestamp attributes; M: models that belong to the case"""
import math
from collections import Counter
import ref
import pm4py


def num(x, nd=6):
    if isinstance(x, bool) or x is None:
        return x
    try:
        x = float(x)
    except (TypeError, ValueError):
        return x
    if math.isnan(x):
        return "nan"
    if math.isinf(x):
        return "inf"
    y = float("%.9g" % round(x, nd))
    return y + 0.0


def val(v):
    """comparable form of a result: dicts -> sorted pairs, sets -> sorted, numbers rounded, timestamps -> epoch seconds"""
    import pandas as pd, numpy as np, datetime
    if v is None or isinstance(v, (str, bool)):
        return v
    if isinstance(v, dict):
        return ("dict", sorted(((val(k), val(x)) for k, x in v.items()), key=repr))
    if isinstance(v, (set, frozenset)):
        return ("set", sorted((val(x) for x in v), key=repr))
    if isinstance(v, (list, tuple)):
        return [val(x) for x in v]
    if isinstance(v, (pd.Timestamp, datetime.datetime)):
        if v is pd.NaT:
            return None
        if v.tzinfo is None:
            v = v.replace(tzinfo=datetime.timezone.utc)
        return ("ts", round(v.timestamp() - 1577836800, 3))
    if isinstance(v, np.datetime64):
        return val(pd.Timestamp(v))
    if isinstance(v, (int, float, np.number)):
        return num(v)
    if v is pd.NA:
        return None
    return v


def bag(xs):
    return ("bag", sorted((val(x) for x in xs), key=repr))


def cases(log, K):
    """log -> sorted [(case, [(activity, instant, resource)])]"""
    import pandas as pd
    if isinstance(log, pd.DataFrame):
        d = {}
        for c, a, t, r in zip(log[K["c"]], log[K["a"]], log[K["t"]], log["org:resource"]):
            d.setdefault(str(c), []).append([str(a), val(t), str(r)])
        return sorted(d.items())
    return sorted((str(t.attributes["concept:name"]), [[str(e[K["a"]]), val(e[K["t"]]), str(e["org:resource"])] for e in t]) for t in log if len(t))


def net(m):
    n, im, fm = m
    r = ref.RNet(n, im, fm)
    try:
        L = sorted(ref.rnet_lang(r, 4, cap=20000))
    except ref.Overflow:
        L = "overflow"
    return [len(n.places), len(n.transitions), len(n.arcs), sorted(str(t.label) for t in n.transitions), [list(x) for x in L] if L != "overflow" else L]


def kw(K, *ks):
    m = {"a": "activity_key", "t": "timestamp_key", "c": "case_id_key"}
    return {m[k]: K[k] for k in ks}


ALL = ("a", "t", "c")
API = {}


def api(name):
    def deco(f):
        API[name] = f
        return f
    return deco


def simple(name, norm=val, fn=None, keys=ALL, **extra):
    def f(log, K, M):
        e = {k: (v(M) if callable(v) else v) for k, v in extra.items()}
        return norm((fn or getattr(pm4py, name))(log, **kw(K, *keys), **e))
    API[name] = f


def flt(name, key=None, keys=ALL, **extra):
    def f(log, K, M):
        e = {k: (v(M) if callable(v) else v) for k, v in extra.items()}
        return cases(getattr(pm4py, name)(log, **kw(K, *keys), **e), K)
    API[key or name] = f


# --- discovery
simple("discover_dfg")
simple("discover_performance_dfg", norm=lambda r: val([{k: {x: (0.0 if y != y else y) for x, y in v.items()} for k, v in r[0].items()}, r[1], r[2]]))
simple("discover_eventually_follows_graph")
simple("discover_petri_net_alpha", norm=net)
simple("discover_petri_net_inductive", norm=net)
simple("discover_petri_net_heuristics", norm=net)
# the optimum of the ILP is not unique: which places are found depends on the order of the rows
simple("discover_petri_net_ilp", norm=lambda m: sorted(str(t.label) for t in m[0].transitions if t.label is not None))
simple("discover_process_tree_inductive", norm=str)
simple("derive_minimum_self_distance")
simple("discover_temporal_profile")
simple("discover_log_skeleton", norm=lambda r: val({k: v for k, v in r.items()}))
simple("discover_declare")
simple("discover_powl", norm=lambda r: sorted(str(r)))
simple("discover_transition_system", norm=lambda ts: [sorted(str(s.name) for s in ts.states), sorted((str(t.from_state.name), str(t.name), str(t.to_state.name)) for t in ts.transitions)])


@api("discover_prefix_tree")
def _(log, K, M):
    def go(n):
        return [str(n.label), bool(n.final), sorted((go(c) for c in n.children), key=repr)]
    return go(pm4py.discover_prefix_tree(log, **kw(K, *ALL)))


@api("discover_batches")
def _(log, K, M):
    r = pm4py.discover_batches(log, merge_distance=600, **kw(K, *ALL))
    return sorted([[list(x[0]), x[1], sorted([k, bag([b[0], b[1]] for b in bs)] for k, bs in x[2].items())] for x in r], key=repr)


@api("heuristics_net")
def _(log, K, M):
    h = pm4py.discover_heuristics_net(log, **kw(K, *ALL))
    return val([h.activities_occurrences, h.dfg, h.dependency_matrix, {x: y for x, y in h.start_activities[0].items()} if isinstance(h.start_activities[0], dict) else sorted(h.start_activities[0])])


# --- statistics
simple("get_start_activities")
simple("get_end_activities")
simple("get_minimum_self_distances")
simple("get_minimum_self_distance_witnesses")
API["get_case_arrival_average"] = lambda log, K, M: val(pm4py.get_case_arrival_average(log, **kw(K, *ALL))) if M["ncases"] > 1 else 0
simple("get_rework_cases_per_activity")
simple("get_case_overlap", norm=bag)
simple("get_cycle_time")
simple("get_all_case_durations", norm=bag)
simple("get_activity_position_summary", activity=lambda M: M["act"])
API["get_case_duration"] = lambda log, K, M: val(pm4py.get_case_duration(log, M["case"], **kw(K, *(ALL if hasattr(log, "columns") else "at"))))
API["get_service_time"] = lambda log, K, M: val(pm4py.get_service_time(log, start_timestamp_key=K["s"], **kw(K, *ALL)))
API["get_variants"] = lambda log, K, M: val({tuple(k): (v if isinstance(v, int) else len(v)) for k, v in pm4py.get_variants(log, **kw(K, *ALL)).items()})
API["split_by_process_variant"] = lambda log, K, M: bag([list(v), cases(d, {**K, "c": K["c"] if K["c"] in d.columns else "case:concept:name"})] for v, d in pm4py.split_by_process_variant(log, **kw(K, *ALL)))
API["get_event_attribute_values"] = lambda log, K, M: val(pm4py.get_event_attribute_values(log, K["a"], case_id_key=K["c"]))
API["get_event_attribute_values_once"] = lambda log, K, M: val(pm4py.get_event_attribute_values(log, "org:resource", count_once_per_case=True, case_id_key=K["c"]))
API["project_on_event_attribute"] = lambda log, K, M: bag(pm4py.project_on_event_attribute(log, K["a"], case_id_key=K["c"]))
API["variants_paths_duration"] = lambda log, K, M: bag([list(r["@@variant_column"]), r["@@variant_count"], r["@@index_in_trace"], r[K["a"]], r[K["a"] + "_2"], num(r["@@flow_time"]), r["@@cumulative_occ_path_column"]]
                                                      for r in pm4py.get_variants_paths_duration(pm4py.convert_to_dataframe(log) if not hasattr(log, "columns") else log, **kw(K, *ALL)).to_dict("records")) if M["paths"] else 0

# --- filtering
flt("filter_log_relative_occurrence_event_attribute", min_relative_stake=0.5, attribute_key=lambda M: "org:resource", keys=("t", "c"))
flt("filter_start_activities", activities=lambda M: [M["act"]])
flt("filter_end_activities", activities=lambda M: [M["act"]], retain=False)
flt("filter_event_attribute_values", attribute_key="org:resource", values=["r1"], level="event", keys=("c",))
flt("filter_event_attribute_values", "filter_event_attribute_values:case", attribute_key="org:resource", values=["r1"], level="case", keys=("c",))
flt("filter_variants", variants=lambda M: [M["variant"]])
flt("filter_directly_follows_relation", relations=lambda M: [(M["act"], M["act2"])])
flt("filter_eventually_follows_relation", relations=lambda M: [(M["act"], M["act2"])])
flt("filter_time_range", dt1="2020-01-01 00:30:00", dt2="2020-01-01 04:00:00", mode="events", keys=("t", "c"))
flt("filter_time_range", "filter_time_range:inter", dt1="2020-01-01 00:30:00", dt2="2020-01-01 04:00:00", mode="traces_intersecting", keys=("t", "c"))
flt("filter_time_range", "filter_time_range:contained", dt1="2020-01-01 00:30:00", dt2="2020-01-01 09:00:00", mode="traces_contained", keys=("t", "c"))
flt("filter_case_size", min_size=2, max_size=3, keys=("c",))
flt("filter_case_performance", min_performance=100, max_performance=9000, keys=("t", "c"))
flt("filter_activities_rework", activity=lambda M: M["act"])
flt("filter_paths_performance", path=lambda M: (M["act"], M["act2"]), min_performance=0, max_performance=3000)
flt("filter_prefixes", activity=lambda M: M["act"])
flt("filter_suffixes", activity=lambda M: M["act"])
flt("filter_four_eyes_principle", activity1=lambda M: M["act"], activity2=lambda M: M["act2"])
flt("filter_activity_done_different_resources", activity=lambda M: M["act"])
flt("filter_trace_segments", admitted_traces=lambda M: [["...", M["act"], M["act2"], "..."]])
API["filter_between"] = lambda log, K, M: bag([x[1] for x in _between(log, K, M)])


def _between(log, K, M):
    r = pm4py.filter_between(log, M["act"], M["act2"], **kw(K, *ALL))
    K2 = dict(K)
    if hasattr(r, "columns"):
        return cases(r, K2)
    return [("", [[str(e[K["a"]]), val(e[K["t"]]), str(e["org:resource"])] for e in t]) for t in r]


# --- conformance
API["token_based_replay"] = lambda log, K, M: bag([r["trace_is_fit"], r["trace_fitness"], r["missing_tokens"], r["remaining_tokens"], r["produced_tokens"], r["consumed_tokens"], [t.label for t in r["activated_transitions"] if t.label]]
                                                  for r in pm4py.conformance_diagnostics_token_based_replay(log, *M["net"], **kw(K, *ALL)))
API["alignments"] = lambda log, K, M: bag([r["cost"], r["fitness"]] for r in pm4py.conformance_diagnostics_alignments(log, *M["net"], **kw(K, *ALL)))
API["alignments_tree"] = lambda log, K, M: bag([r["cost"], r["fitness"]] for r in pm4py.conformance_diagnostics_alignments(log, M["tree"], **kw(K, *ALL)))
API["fitness_tbr"] = lambda log, K, M: val(pm4py.fitness_token_based_replay(log, *M["net"], **kw(K, *ALL)))
API["fitness_alignments"] = lambda log, K, M: val(pm4py.fitness_alignments(log, *M["net"], **kw(K, *ALL)))
API["precision_tbr"] = lambda log, K, M: val(pm4py.precision_token_based_replay(log, *M["net"], **kw(K, *ALL)))
API["precision_alignments"] = lambda log, K, M: val(pm4py.precision_alignments(log, *M["net"], **kw(K, *ALL)))
API["generalization_tbr"] = lambda log, K, M: val(pm4py.generalization_tbr(log, *M["net"], **kw(K, *ALL)))
API["conformance_temporal_profile"] = lambda log, K, M: bag(pm4py.conformance_temporal_profile(log, M["tp"], zeta=0.5, **kw(K, *ALL)))
API["conformance_declare"] = lambda log, K, M: bag([r["no_constr_total"], r["no_dev_total"], r["dev_fitness"], bag(r["deviations"])] for r in pm4py.conformance_declare(log, M["declare"], **kw(K, *ALL)))
API["conformance_log_skeleton"] = lambda log, K, M: bag([r["no_constr_total"], r["no_dev_total"], r["dev_fitness"], bag(str(x) for x in r["deviations"])] for r in pm4py.conformance_log_skeleton(log, M["skel"], **kw(K, *ALL)))


# --- organizational
def sna(r):
    return [r.is_directed, val(r.connections)]


API["handover"] = lambda log, K, M: sna(pm4py.discover_handover_of_work_network(log, **kw(K, "t", "c")))
API["working_together"] = lambda log, K, M: sna(pm4py.discover_working_together_network(log, **kw(K, "t", "c")))
API["resource_similarity"] = lambda log, K, M: M["nacts"] < 2 or sna(pm4py.discover_activity_based_resource_similarity(log, **kw(K, *ALL)))
API["subcontracting"] = lambda log, K, M: sna(pm4py.discover_subcontracting_network(log, **kw(K, "t", "c")))
API["roles"] = lambda log, K, M: [bag(a for r in R for a in r.activities) for R in [pm4py.discover_organizational_roles(log, **kw(K, *ALL))]]


# --- features and transformations
API["prefixes"] = lambda log, K, M: cases(pm4py.get_prefixes_from_log(log, 2, case_id_key=K["c"]), K)


@api("features")
def _(log, K, M):
    d = pm4py.extract_features_dataframe(log, str_ev_attr=[K["a"], "org:resource"], num_ev_attr=[], str_tr_attr=[], num_tr_attr=[], str_evsucc_attr=[K["a"]], **kw(K, *ALL))
    cols = sorted(d.columns)
    ren = {c: c.replace(K["a"], "ACT") for c in cols}
    return [sorted(ren.values()), bag([r[c] for c in sorted(cols, key=ren.get)] for r in d.to_dict("records"))]


@api("artificial_start_end")
def _(log, K, M):
    r = pm4py.insert_artificial_start_end(log, **kw(K, *ALL))
    import pandas as pd
    if isinstance(r, pd.DataFrame):
        d = {}
        for c, a, t in zip(r[K["c"]], r[K["a"]], r[K["t"]]):
            d.setdefault(str(c), []).append([str(a), val(t)])
    else:
        d = {str(t.attributes["concept:name"]): [[e[K["a"]], val(e[K["t"]])] for e in t] for t in r}
    # the artificial events lie just before and after the case
    return [[c, [e if 0 < i < len(es) - 1 else e[0] for i, e in enumerate(es)], es[0][1][1] <= es[1][1][1], es[-1][1][1] >= es[-2][1][1]] for c, es in sorted(d.items())]


def _inserted(r, K, cols):
    return bag([str(x[K["c"]]), str(x[K["a"]]), val(x[K["t"]])] + [num(x[c]) for c in cols] for x in r.to_dict("records"))


API["target:next_activity"] = lambda log, K, M: _target(log, K, "next_activity")
API["target:next_time"] = lambda log, K, M: _target(log, K, "next_time")
API["target:remaining_time"] = lambda log, K, M: _target(log, K, "remaining_time")


def _target(log, K, v):
    t, cl = pm4py.extract_target_vector(log, v, **kw(K, *ALL))
    return bag([[num(y) for y in row] if hasattr(row, "__len__") else num(row) for row in t])


# --- parameters only: everything that edits its input by design is kept apart
ORDER_SENSITIVE = {"target:next_activity"}
