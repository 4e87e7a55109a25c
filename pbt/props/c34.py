"""C34 token-based replay"""
from collections import Counter
from hypothesis import strategies as st
import gen, build, ref, nets
from core import Unit, require, req_eq
import pm4py
from props.c32 import weighted, tr

META = dict(
    title="Token-based replay counts tokens exactly and calls only real runs fit",
    statement="For every accepting net and log, the activated transitions of a fit trace are a firing sequence from the initial to exactly the final marking whose visible labels are the activities of the trace known to the model; produced + missing = consumed + remaining tokens, the fitness is the usual formula of these counts, and the visible transitions reported as reachable are those enabled through invisible transitions. "
              "On nets without invisible or duplicate transitions, fit/unfit, all counts and the per-place and per-transition diagnostics are exactly those of the token game, independently for every trace, for logs and dataframes, and the log fitness aggregates them.",
    over=["inputs"], quant="generated nets (weighted arcs, several tokens, invisible and duplicate transitions) and noisy traces, with replay options",
    why="tests replay two logs on discovered nets and look at few numbers; the counts must be right for every net and trace",
    files=["pm4py/algo/conformance/tokenreplay", "pm4py/algo/evaluation/replay_fitness", "pm4py/objects/petri_net/utils/align_utils.py", "pm4py/conformance.py"],
    mech=[("apply_trace", "pm4py/algo/conformance/tokenreplay/variants/token_replay.py"), ("tr_vlist", "pm4py/algo/conformance/tokenreplay/variants/backwards.py"), ("get_visible_transitions_eventually_enabled_by_marking", "pm4py/objects/petri_net/utils/align_utils.py"), ("evaluate", "pm4py/algo/evaluation/replay_fitness/variants/token_replay.py")],
    limits="The search for invisible transitions is a documented heuristic: that every accepted trace is recognised as fit is claimed only for nets without invisible and duplicate transitions.")


@st.composite
def visible(draw):
    """no invisible transition, unique labels"""
    s = draw(st.one_of(nets.tree_net(depth=3, max_leaves=6, tau=False, dup=False, mutations=2), nets.conserving_net(max_t=6), nets.free_net(max_p=5, max_t=6), weighted()))
    seen = set()
    for i, t in enumerate(s["trans"]):
        if t[1] is None or t[1] in seen:
            t[1] = "v%02d" % i
        seen.add(t[1])
    return s


@st.composite
def exact_st(draw):
    s = draw(visible())
    labels = [l for _, l in s["trans"]] + ["unknown"]
    return {"net": s, "traces": draw(nets.walks(s, n=(1, 5), labels=labels)), "df": draw(st.booleans()), "stop": draw(st.sampled_from([False] * 4 + [True])),
            "unk": draw(st.booleans()), "rem": draw(st.sampled_from([True] * 4 + [False]))}


def game(s, t, stop=False):
    r = nets.SNet(s)
    idx = {l: i for i, (_, l) in enumerate(s["trans"])}
    m = list(r.im)
    o = {"p": Counter({i: n for i, n in enumerate(m) if n}), "c": Counter(), "m": Counter(), "under": set(), "fit_t": set(), "under_t": set(), "prob": [], "act": [], "stopped": False, "unknown": False}
    for a in t:
        if a not in idx:
            o["unknown"] = True
            continue
        k = idx[a]
        pre, post = r.trans[k][1], r.trans[k][2]
        lack = {p: w - m[p] for p, w in pre.items() if m[p] < w}
        if lack:
            o["prob"].append(k)
            if stop:
                o["stopped"] = True
                break
            o["under"] |= set(lack)
            o["under_t"].add(k)
            o["m"].update(lack)
            for p, w in lack.items():
                m[p] += w
        else:
            o["fit_t"].add(k)
        for p, w in pre.items():
            m[p] -= w
        for p, w in post.items():
            m[p] += w
        o["act"].append(k)
        o["c"].update(pre)
        o["p"].update(post)
    o["replay_missing"] = sum(o["m"].values())
    o["final"] = Counter({i: n for i, n in enumerate(m) if n})
    fm = Counter({i: n for i, n in enumerate(r.fm) if n})
    o["short"] = fm - o["final"]
    o["m"].update(o["short"])
    o["r"] = o["final"] - fm
    o["c"].update(fm)
    return o


def fit_of(o, rem=True, unk=False):
    f = not o["replay_missing"] and not o["stopped"] and (not rem or (not o["r"] and not o["short"]))
    return f and not (unk and o["unknown"])


def formula(m, c, r, p):
    return 0.5 * (1 - m / c) + 0.5 * (1 - r / p) if c > 0 and p > 0 else 1.0


def check_exact(case, ctx):
    from pm4py.algo.conformance.tokenreplay import algorithm as T
    from pm4py.algo.conformance.tokenreplay.variants import token_replay as tv
    s = case["net"]
    net, im, fm, ps, ts = build.net(s)
    traces = [t for t in case["traces"] if t] if case["df"] else case["traces"]
    if not traces:
        return
    log = build.variants_df(traces) if case["df"] else build.variants_log(traces)
    exp = [game(s, t, case["stop"]) for t in traces]
    res = T.apply(log, net, im, fm, parameters={"stop_immediately_unfit": case["stop"], "consider_activities_not_in_model_in_fitness": case["unk"], "consider_remaining_in_fitness": case["rem"], "show_progress_bar": False})
    req_eq(len(res), len(traces), "one result per case")
    for t, x, o in zip(traces, res, exp):
        w = "%s: " % t
        req_eq(x["trace_is_fit"], fit_of(o, case["rem"], case["unk"]), w + "fit (missing %s remaining %s)" % (x["missing_tokens"], x["remaining_tokens"]))
        req_eq([ts.index(k) for k in x["activated_transitions"]], o["act"], w + "activated transitions")
        req_eq([ts.index(k) for k in x["transitions_with_problems"]], o["prob"], w + "transitions with problems")
        req_eq({ps.index(p): n for p, n in x["reached_marking"].items() if n}, dict(o["final"]), w + "reached marking")
        if not o["stopped"]:
            req_eq([x[k] for k in ("produced_tokens", "consumed_tokens", "missing_tokens", "remaining_tokens")], [sum(o[k].values()) for k in "pcmr"], w + "produced, consumed, missing, remaining")
        f = formula(x["missing_tokens"], x["consumed_tokens"], x["remaining_tokens"], x["produced_tokens"])
        require(abs(x["trace_fitness"] - f) < 1e-9 and (o["stopped"] or -1e-9 <= f <= 1 + 1e-9), "%s fitness %s expected %s", w, x["trace_fitness"], f)
    if case["stop"]:
        ctx.label("stop")
        ctx.nontrivial(any(o["stopped"] for o in exp))
        return
    # diagnostics
    al, pf, tf, ne = T.apply(log, net, im, fm, parameters={"enable_pltr_fitness": True, "show_progress_bar": False})
    full = [fit_of(o) for o in exp]
    req_eq([x["trace_is_fit"] for x in al], full, "fit with place fitness")
    key = lambda tr_: tuple(e["concept:name"] for e in tr_)
    for i, p in enumerate(ps):
        req_eq([pf[p][k] for k in "pcmr"], [sum(o[k][i] for o in exp) for k in "pcmr"], "place %s: produced, consumed, missing, remaining" % p.name)
        und = {tuple(t) for t, o in zip(traces, exp) if i in o["under"]}
        req_eq({key(t) for t in pf[p]["underfed_traces"]}, und, "underfed traces of %s" % p.name)
        req_eq({key(t) for t in pf[p]["overfed_traces"]}, {tuple(t) for t, o in zip(traces, exp) if o["r"][i]} - und, "overfed traces of %s" % p.name)
    for i, t_ in enumerate(ts):
        req_eq({key(t) for t in tf[t_]["underfed_traces"]}, {tuple(t) for t, o in zip(traces, exp) if i in o["under_t"]}, "underfed traces of %s" % t_.name)
        req_eq({key(t) for t in tf[t_]["fit_traces"]}, {tuple(t) for t, o in zip(traces, exp) if i in o["fit_t"]}, "fit traces of %s" % t_.name)
    labels = {l for _, l in s["trans"]}
    req_eq({a: {key(t) for t in d} for a, d in ne.items()}, {a: {tuple(t) for t in traces if a in t} for a in {a for t in traces for a in t} - labels}, "activities not in the model")
    # backwards variant
    if not case["df"] and all(sum(o["c"].values()) and sum(o["p"].values()) for o in exp):
        for t, x, o in zip(traces, T.apply(log, net, im, fm, variant=T.Variants.BACKWARDS), exp):
            req_eq([x[k] for k in ("produced_tokens", "consumed_tokens", "missing_tokens", "remaining_tokens")], [sum(o[k].values()) for k in "pcmr"], "backwards %s: produced, consumed, missing, remaining" % t)
            req_eq(x["trace_is_fit"], fit_of(o), "backwards %s: fit" % t)
    # aggregation
    P, C, M, R = (sum(sum(o[k].values()) for o in exp) for k in "pcmr")
    if P and C:
        fs = [formula(*(sum(o[k].values()) for k in "mcrp")) for o in exp]
        got = pm4py.fitness_token_based_replay(log, net, im, fm)
        e = {"average_trace_fitness": sum(fs) / len(fs), "log_fitness": formula(M, C, R, P), "percentage_of_fitting_traces": 100.0 * sum(full) / len(full), "perc_fit_traces": 100.0 * sum(full) / len(full)}
        for k in e:
            require(abs(got[k] - e[k]) < 1e-9, "%s: %s expected %s", k, got[k], e[k])
    dd = pm4py.conformance_diagnostics_token_based_replay(log, net, im, fm, return_diagnostics_dataframe=True)
    ids = ["c%03d" % i for i in range(len(traces))] if case["df"] else [str(i) for i in range(len(traces))]
    rows = {r["case_id"]: r for r in dd.to_dict("records")}
    req_eq(sorted(rows), sorted(ids), "cases of the diagnostics dataframe")
    for i, o, f in zip(ids, exp, full):
        req_eq([rows[i][k] for k in ("produced", "consumed", "missing", "remaining", "is_fit")], [sum(o[k].values()) for k in "pcmr"] + [f], "diagnostics row of case %s" % i)
    ctx.nontrivial(any(full) and not all(full))
    ctx.label("fit" if all(full) else "unfit" if not any(full) else "mixed")


@st.composite
def sound_st(draw):
    s = draw(st.one_of(nets.tree_net(depth=3, max_leaves=7, mutations=2), nets.tree_net(depth=4, max_leaves=8), nets.conserving_net(max_t=6), nets.free_net(), weighted()))
    return {"net": s, "traces": draw(nets.walks(s, n=(1, 5), noise=1)), "variant": draw(st.sampled_from(["TOKEN_REPLAY"] * 3 + ["BACKWARDS"])), "walk": draw(st.sampled_from([True] * 5 + [False])), "fin": draw(st.sampled_from([True] * 5 + [False])),
            "names": draw(st.booleans()), "novar": draw(st.booleans())}


def check_sound(case, ctx):
    from pm4py.algo.conformance.tokenreplay import algorithm as T
    s = case["net"]
    if nets.state_space(s) is None:
        ctx.label("unbounded")
        return
    net, im, fm, ps, ts = build.net(s)
    r = nets.SNet(s)
    labels = {l for _, l in s["trans"]}
    traces = case["traces"]
    if case["variant"] == "BACKWARDS" and not (sum(r.fm) and sum(r.im)):
        return
    names = case["names"] and case["variant"] == "TOKEN_REPLAY"
    res = T.apply(build.variants_log(traces), net, im, fm, variant=T.Variants[case["variant"]], parameters={
        "walk_through_hidden_trans": case["walk"], "try_to_reach_final_marking_through_hidden": case["fin"], "return_names": names, "disable_variants": case["novar"], "show_progress_bar": False})
    req_eq(len(res), len(traces), "one result per case")
    fits = []
    by = {n: i for i, (n, _) in enumerate(s["trans"])}
    for t, x in zip(traces, res):
        w = "%s %s" % (case["variant"], t)
        seq = [by[k] if names else ts.index(k) for k in x["activated_transitions"]]
        known = [a for a in t if a in labels]
        p, c, m, rem = (x[k] for k in ("produced_tokens", "consumed_tokens", "missing_tokens", "remaining_tokens"))
        interrupted = x.get("replay_interrupted")
        if not interrupted:
            req_eq([r.trans[k][0] for k in seq if r.trans[k][0] is not None], known, w + ": visible labels of the activated transitions")
        # the token game along the activated transitions
        mk, miss, prod, cons = list(r.im), 0, sum(r.im), sum(r.fm)
        for k in seq:
            for pl, wt in r.trans[k][1].items():
                miss += max(0, wt - mk[pl])
                mk[pl] = max(0, mk[pl] - wt)
                cons += wt
            for pl, wt in r.trans[k][2].items():
                mk[pl] += wt
                prod += wt
        short = sum(max(0, a - b) for a, b in zip(r.fm, mk))
        over = sum(max(0, b - a) for a, b in zip(r.fm, mk))
        req_eq([p, c, m, rem], [prod, cons, miss + short, over], w + ": produced, consumed, missing, remaining along %s" % seq)
        req_eq(p + m, c + rem, w + ": token conservation")
        f = formula(m, c, rem, p)
        require(abs(x["trace_fitness"] - f) < 1e-9 and 0 <= f <= 1, "%s fitness %s expected %s", w, x["trace_fitness"], f)
        req_eq(bool(x["trace_is_fit"]), not miss and tuple(mk) == r.fm and not interrupted, w + ": fit (activated %s)" % seq)
        fits.append(x["trace_is_fit"])
        if x["trace_is_fit"] and len(known) == len(t):
            require(ref.net_accepts(r, t), "%s: fit but not accepted by the net", w)
        # visible transitions enabled through invisible ones
        if max(mk, default=0) <= 6:
            vis, seen, q = set(), {tuple(mk)}, [tuple(mk)]
            while q and len(seen) < 300:
                cur = q.pop()
                for k in r.enabled(cur):
                    if r.trans[k][0] is None:
                        n = r.fire(cur, k)
                        if n not in seen:
                            seen.add(n)
                            q.append(n)
                    else:
                        vis.add(k)
            if not q:
                got = x["enabled_transitions_in_marking"]
                req_eq({by[k] if names else ts.index(k) for k in got}, vis, w + ": enabled transitions in %s" % mk)
    if case["walk"] and case["fin"]:
        acc = [ref.net_accepts(r, t) for t in traces] if max(r.im, default=0) < 5 else []
        ctx.label("accepted %d of which fit %d" % (sum(acc), sum(1 for a, f in zip(acc, fits) if a and f)) if acc and sum(acc) <= 2 else "more accepted")
    ctx.nontrivial(any(fits) and None in {l for _, l in s["trans"]})


UNITS = [
    Unit("exact", exact_st(), check_exact, quick=900, shards=3, rule="both fit and unfit traces"),
    Unit("sound", sound_st(), check_sound, quick=1600, shards=4, rule="a fit trace on a net with invisible transitions"),
]
