"""C31 batch detection"""
from collections import defaultdict
from hypothesis import strategies as st
from core import Unit, require, req_eq
import pm4py
import gen, build
from build import ts
from pm4py.util import constants as K
from pm4py.algo.discovery.batches import algorithm as ba

META = dict(
    title="Batch detection groups the work of a resource exactly and types it right",
    statement="For every activity and resource, the batches are the maximal groups of executions whose intervals overlap or follow within the merge distance, having at least the minimum size; every batch spans its events, contains each of them once, and is typed simultaneous, batching on start, on end, sequential or concurrent by its intervals. The result is ordered by the number of batches.",
    over=["inputs"], quant="logs with tied, nested, touching and near intervals x merge distance x minimum size x representations, keys, event ids",
    why="tests only count the batches of one log; grouping must be right for every arrangement of the intervals",
    oracle="a sweep over the sorted intervals of every activity and resource",
    limits="Without event identifiers, executions with the same interval in the same case are one item of a batch.",
    files=["pm4py/algo/discovery/batches"],
    mech=[("detection", "pm4py/algo/discovery/batches/utils/detection.py"), ("dataframes", "pm4py/algo/discovery/batches/variants/pandas.py"), ("event logs", "pm4py/algo/discovery/batches/variants/log.py")])
KEYS = {False: ("case:concept:name", "concept:name", "time:timestamp", "org:resource", "start_timestamp"), True: ("cid", "act", "when", "who", "begin")}
T0 = ts(0).timestamp()


def check(c, ctx):
    ck, ak, tk, rk, sk = KEYS[c["keys"]]
    cases = defaultdict(list)
    for i, (k, a, r, s, d) in enumerate(c["rows"]):
        cases["c%d" % k].append({"a": "AB"[a], "r": "r%d" % r, "s": s * 60, "t": s * 60 + (d * 60 if c["start"] else 0), "i": i})
    l = {"cases": [{"id": i, "events": sorted(v, key=lambda e: e["t"])} for i, v in sorted(cases.items())]}
    ids = c["ids"] and c["rep"] == "df"
    if c["rep"] == "log":
        o = build.elog(l, ak=ak, tk=tk, rk=rk, sk=sk)
    else:
        o = build.df(l, ck=ck, ak=ak, tk=tk, rk=rk, sk=sk)
        if ids:
            o["@@index"] = [e["i"] for x in l["cases"] for e in x["events"]]
        o = o.sample(frac=1, random_state=c["seed"])
    P = {K.PARAMETER_CONSTANT_ACTIVITY_KEY: ak, K.PARAMETER_CONSTANT_TIMESTAMP_KEY: tk, K.PARAMETER_CONSTANT_RESOURCE_KEY: rk, K.PARAMETER_CONSTANT_CASEID_KEY: ck if c["rep"] == "df" else "case:concept:name", "merge_distance": c["dist"], "min_batch_size": c["size"]}
    if c["start"]:
        P[K.PARAMETER_CONSTANT_START_TIMESTAMP_KEY] = sk
        got = ba.apply(o, parameters=P)
    else:
        got = pm4py.discover_batches(o, merge_distance=c["dist"], min_batch_size=c["size"], activity_key=ak, timestamp_key=tk, case_id_key=P[K.PARAMETER_CONSTANT_CASEID_KEY], resource_key=rk)
    G = defaultdict(set)
    for x in l["cases"]:
        for e in x["events"]:
            G[e["a"], e["r"]].add((T0 + (e["s"] if c["start"] else e["t"]), T0 + e["t"], x["id"]) + ((e["i"],) if ids else ()))
    exp, tot = {}, 0
    for k, evs in G.items():
        groups, end = [], None
        for e in sorted(evs):
            if groups and e[0] - end <= c["dist"] or groups and e[0] < end:
                groups[-1].append(e)
                end = max(end, e[1])
            else:
                groups.append([e])
                end = e[1]
        B = defaultdict(list)
        for g in groups:
            if len(g) >= c["size"]:
                L, R = {e[0] for e in g}, {e[1] for e in g}
                ty = "Simultaneous" if len(L) == len(R) == 1 else "Batching on Start" if len(L) == 1 else "Batching on End" if len(R) == 1 else "Sequential batching" if all(x[1] == y[0] for x, y in zip(g, g[1:])) else "Concurrent batching"
                B[ty].append((min(L), max(R), sorted(g)))
                ctx.label(ty)
        if B:
            exp[k] = {t: sorted(v) for t, v in B.items()}
            tot += sum(map(len, B.values()))
    ctx.label(c["rep"])
    ctx.nontrivial(tot > 1)
    req_eq({tuple(k): {t: sorted((b[0], b[1], sorted(b[2])) for b in v) for t, v in m.items()} for k, n, m in got}, exp, "batches")
    req_eq([n for k, n, m in got], [sum(map(len, m.values())) for k, n, m in got], "number of batches")
    o_ = [(n, tuple(k)) for k, n, m in got]
    req_eq(o_, sorted(o_, reverse=True), "order of the result")


I = st.integers
ROW = st.tuples(I(0, 4), st.sampled_from([0, 0, 1]), st.sampled_from([0, 0, 1]), I(0, 60), st.sampled_from([0, 1, 2, 5, 10, 30])).map(list)
UNITS = [Unit("batches", st.fixed_dictionaries({"rows": st.lists(ROW, min_size=1, max_size=25), "rep": st.sampled_from(["log", "df"]), "keys": st.booleans(), "start": st.sampled_from([True, True, False]), "ids": st.booleans(), "seed": I(0, 5), "dist": st.sampled_from([900, 0, 60, 120, 300]), "size": st.sampled_from([2, 2, 3, 1])}), check, 1500, shards=4, rule="non-trivial: > 1 batch")]
