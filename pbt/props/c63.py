"""C63 diagnostics of deviations"""
import warnings
from statistics import median
from hypothesis import strategies as st
import pandas as pd
from core import Unit, require, req_eq
import pm4py
import gen, build, nets
from props.c34 import visible, game, fit_of
from pm4py.objects.log.obj import EventLog, Trace, Event
from pm4py.algo.conformance.tokenreplay import algorithm as tbr
from pm4py.algo.conformance.tokenreplay.diagnostics import duration_diagnostics as dur, root_cause_analysis as rca
from pm4py.algo.conformance.alignments.petri_net import algorithm as ali
from pm4py.algo.conformance.footprints.variants import log_model
from pm4py.algo.discovery.footprints import algorithm as fpd
from pm4py.algo.conformance.footprints import algorithm as fpc
from pm4py.algo.evaluation import algorithm as evaluation

META = dict(
    title="Diagnostics of deviations describe exactly the deviating cases and events",
    statement="The token replay records, for every transition, the attributes known when it fired with and without enough tokens; the throughput diagnostics count and time exactly the cases with a deviating transition or an activity unknown to the model against the others, and the root cause analysis trains on exactly one row per such case with its attributes. "
              "The diagnostics dataframes list every case with the values of the conformance results, and the aggregated evaluation combines the four quality dimensions with their weights.",
    over=["inputs"], quant="all nets of visible transitions with distinct labels and logs with attributes within the size bound",
    why="the diagnostics are called in the tests without looking at their content",
    oracle="reference token game with the attributes of the events; direct computation of medians and rows",
    limits="Nets of visible transitions with distinct labels (the replay is then determined).",
    files=["pm4py/algo/conformance/tokenreplay", "pm4py/algo/evaluation/algorithm.py", "pm4py/algo/conformance/footprints", "pm4py/algo/conformance/alignments/petri_net/algorithm.py"],
    mech=[("throughput", "pm4py/algo/conformance/tokenreplay/diagnostics/duration_diagnostics.py"), ("root causes", "pm4py/algo/conformance/tokenreplay/diagnostics/root_cause_analysis.py"), ("attributes", "pm4py/algo/conformance/tokenreplay/variants/token_replay.py")])
A, T = "concept:name", "time:timestamp"
REAL = {"unknown"}


@st.composite
def case_st(draw):
    s = draw(visible())
    labels = [l for _, l in s["trans"]] + ["unknown", "other"]
    trs = draw(nets.walks(s, n=(2, 5), labels=labels)) + draw(st.lists(st.lists(st.sampled_from(labels), min_size=1, max_size=4), max_size=3))
    trs = [t for t in trs if t] or [["unknown"]]
    evs = [[[a, draw(st.integers(0, 40)), draw(st.sampled_from([None, "u", "v"])), draw(st.sampled_from([None, 1, 2.5, 7]))] for a in t] for t in trs]
    return {"net": s, "traces": evs, "mult": draw(st.booleans()), "w": [draw(st.integers(0, 3)) for _ in range(3)] + [draw(st.integers(1, 3))]}


def mklog(case):
    log = EventLog()
    for i, t in enumerate(case["traces"]):
        tr = Trace(attributes={A: "case%d" % i})
        ts = gen.BASE + i  # distinct starts: no two cases are equal
        for a, d, r, c in t:
            ts += d
            e = {A: a, T: pd.Timestamp(ts, unit="s", tz="UTC").to_pydatetime(), "cost": float(c) if c is not None else 0.0}
            if r is not None:
                e["res"] = r
            tr.append(Event(e))
        log.append(tr)
    return log


def replay(case, log):
    """per case: transition -> [(fit?, attributes known)], unknown activity -> attributes"""
    s = case["net"]
    r = nets.SNet(s)
    idx = {l: i for i, (_, l) in enumerate(s["trans"])}
    out = []
    for t in log:
        m, known, rec, unk = list(r.im), {}, {}, {}
        for e in t:
            if e[A] not in idx:
                unk[e[A]] = dict(known)
                continue
            known.update(dict(e))
            k = idx[e[A]]
            pre, post = r.trans[k][1], r.trans[k][2]
            fit = all(m[p] >= w for p, w in pre.items())
            rec.setdefault(k, []).append((fit, dict(known)))
            for p, w in pre.items():
                m[p] = max(m[p], w) - w
            for p, w in post.items():
                m[p] += w
        out.append((rec, unk))
    return out


def check_diag(case, ctx):
    s = case["net"]
    net, im, fm, ps, ts = build.net(s)
    log = mklog(case)
    exp = replay(case, log)
    al, pf, tf, ne = tbr.apply(log, net, im, fm, parameters={"enable_pltr_fitness": True, "show_progress_bar": False})
    cid = lambda t: t.attributes[A]
    for k, t_ in enumerate(ts):
        for key, f in (("underfed_traces", False), ("fit_traces", True)):
            req_eq({cid(t): v for t, v in tf[t_][key].items()}, {cid(t): [d for x, d in rec[k] if x == f] for t, (rec, _) in zip(log, exp) if any(x == f for x, _ in rec.get(k, []))},
                   "attributes recorded in %s of %s" % (key, t_.label))
    req_eq({a: {cid(t): v for t, v in d.items()} for a, d in ne.items()},
           {a: {cid(t): u[a] for t, (_, u) in zip(log, exp) if a in u} for a in {x for _, u in exp for x in u}}, "attributes recorded for the unknown activities")
    du = lambda t: (t[-1][T] - t[0][T]).total_seconds()

    def times(bad, good, nm):
        fm_, bm = median(map(du, good)), median(map(du, bad))
        return {"n_fit": len(good), "n_" + nm: len(bad), "fit_median_time": fm_, nm + "_median_time": bm, "relative_throughput": bm / fm_ if fm_ > 0 else 0}
    want = {}
    groups = {}
    for k, t_ in enumerate(ts):
        bad = [t for t, (rec, _) in zip(log, exp) if any(not f for f, _ in rec.get(k, []))]
        ok = [t for t, (rec, _) in zip(log, exp) if k in rec and all(f for f, _ in rec[k])]
        if bad and ok:
            want[t_.label] = times(bad, ok, "underfed")
            groups[t_.label] = ([next(d for f, d in exp[log_i(log, t)][0][k] if f) for t in ok], [next(d for f, d in exp[log_i(log, t)][0][k] if not f) for t in bad])
    got = dur.diagnose_from_trans_fitness(log, tf)
    req_eq({t.label: v for t, v in got.items()}, want, "throughput of the cases with a deviating transition")
    wantu, groupu = {}, {}
    clean = [t for t, (_, u) in zip(log, exp) if not u]
    for a in {x for _, u in exp for x in u}:
        bad = [t for t, (_, u) in zip(log, exp) if a in u]
        if bad and clean:
            wantu[a] = times(bad, clean, "containing")
            groupu[a] = ([dict(t[-1]) for t in clean], [exp[log_i(log, t)][1][a] for t in bad])
    req_eq(dur.diagnose_from_notexisting_activities(log, ne), wantu, "throughput of the cases with an unknown activity")
    # root causes
    par = {"string_attributes": ["res"], "numeric_attributes": ["cost"], "enable_multiplier": case["mult"]}
    # a case without any known event has no attributes to train on: numeric attributes need a value
    for nm, g, f in (("transition", groups, lambda: {t.label: v for t, v in rca.diagnose_from_trans_fitness(log, tf, parameters=par).items()}), ("unknown activity", groupu, lambda: rca.diagnose_from_notexisting_activities(log, ne, parameters=par))):
        if any("cost" not in d for x in g.values() for y in x for d in y):
            continue
        got = f()
        req_eq(set(got), set(g), "root causes: analysed elements (%s)" % nm)
        for a, (ok, bad) in g.items():
            m1 = max(len(bad) // len(ok), 1) if case["mult"] else 1
            m2 = max(len(ok) // len(bad), 1) if case["mult"] else 1
            r = got[a]
            req_eq(list(r["target"]), [0] * (m1 * len(ok)) + [1] * (m2 * len(bad)), "target (%s)" % nm)
            rows = ok * m1 + bad * m2
            names = r["feature_names"]
            vals = sorted({d.get("res", "UNDEFINED") for d in rows})
            req_eq(sorted(names), sorted(["event:res@" + v for v in vals] + ["event:cost"]), "features (%s)" % nm)
            for d, x in zip(rows, r["data"].tolist()):
                z = dict(zip(names, x))
                req_eq(z, {**{"event:res@" + v: 1.0 if d.get("res", "UNDEFINED") == v else 0.0 for v in vals}, "event:cost": d["cost"]}, "row (%s)" % nm)
            req_eq(len(r["data"]), len(rows), "rows")
            # the classifier separates the rows that differ
            lab = {}
            for x, y in zip(map(tuple, r["data"].tolist()), r["target"]):
                lab.setdefault(x, set()).add(int(y))
            for x, y in lab.items():
                if len(y) == 1 and len(lab) <= 3:
                    req_eq(int(r["clf"].predict([list(x)])[0]), next(iter(y)), "class of a row of one class only")
    ctx.nontrivial(bool(want) or bool(wantu))
    ctx.label("transitions" if want else "no transition")
    ctx.label("unknown activities" if wantu else "no unknown")


def log_i(log, t):
    return next(i for i, x in enumerate(log) if x is t)


def check_frames(case, ctx):
    s = case["net"]
    net, im, fm, ps, ts = build.net(s)
    log = mklog(case)
    traces = [[e[0] for e in t] for t in case["traces"]]
    ids = ["case%d" % i for i in range(len(log))]
    al = tbr.apply(log, net, im, fm, parameters={"show_progress_bar": False})
    d = tbr.get_diagnostics_dataframe(log, al)
    exp = [game(s, t) for t in traces]
    req_eq([(r["case_id"], r["is_fit"], r["missing"], r["remaining"], r["produced"], r["consumed"]) for r in d.to_dict("records")],
           [(i, fit_of(o), sum(o["m"].values()), sum(o["r"].values()), sum(o["p"].values()), sum(o["c"].values())) for i, o in zip(ids, exp)], "token replay diagnostics")
    # alignments diagnostics follow their results
    res = [{"cost": k, "fitness": [1.0, 0.5, 0.999999][k % 3]} for k in range(len(log))]
    d = ali.get_diagnostics_dataframe(log, res)
    req_eq([(r["case_id"], r["cost"], r["fitness"], r["is_fit"]) for r in d.to_dict("records")], [(i, x["cost"], x["fitness"], x["fitness"] == 1.0) for i, x in zip(ids, res)], "alignment diagnostics")
    # footprints, case by case against the whole log
    fp = fpd.apply(log, variant=fpd.Variants.ENTIRE_EVENT_LOG)
    part = EventLog([log[i] for i in range(0, len(log), 2)])
    model = fpd.apply(part, variant=fpd.Variants.ENTIRE_EVENT_LOG)
    r = fpc.apply(fpd.apply(log, variant=fpd.Variants.TRACE_BY_TRACE), model, variant=fpc.Variants.LOG_MODEL)
    known = {p for t in traces[::2] for p in zip(t, t[1:])}
    d = log_model.get_diagnostics_dataframe(log, r)
    req_eq([(x["case_id"], x["num_violations"], x["is_fit"]) for x in d.to_dict("records")], [(i, len(set(zip(t, t[1:])) - known), not set(zip(t, t[1:])) - known) for i, t in zip(ids, traces)], "footprints diagnostics")
    # aggregated evaluation
    if all(sum(o["c"].values()) and sum(o["p"].values()) for o in exp) and im and fm:
        w = [float(x) for x in case["w"]]
        ev = evaluation.apply(log, net, im, fm, parameters=dict(zip(("fitness_weight", "precision_weight", "simplicity_weight", "generalization_weight"), w)))
        f, p, si, g = ev["fitness"]["log_fitness"], ev["precision"], ev["simplicity"], ev["generalization"]
        req_eq(f, pm4py.fitness_token_based_replay(log, net, im, fm)["log_fitness"], "fitness")
        req_eq(p, pm4py.precision_token_based_replay(log, net, im, fm), "precision")
        req_eq(g, pm4py.generalization_tbr(log, net, im, fm), "generalization")
        req_eq(si, pm4py.simplicity_petri_net(net, im, fm), "simplicity")
        avg = (w[0] * f + w[1] * p + w[2] * si + w[3] * g) / sum(w)
        require(abs(ev["metricsAverageWeight"] - avg) < 1e-9, "weighted average: %r instead of %r", ev["metricsAverageWeight"], avg)
        require(abs(ev["fscore"] - (2 * f * p / (f + p) if f + p > 0 else 0)) < 1e-9, "f-score %r", ev["fscore"])
        ctx.label("evaluated")
    ctx.nontrivial(len({fit_of(o) for o in exp}) == 2)


UNITS = [
    Unit("diagnostics", case_st(), check_diag, quick=600, shards=4, rule="a transition or unknown activity splits the cases"),
    Unit("dataframes", case_st(), check_frames, quick=400, shards=2, rule="fit and unfit cases"),
]
