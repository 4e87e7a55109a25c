"""C52 stochastic nets: random variables, performance of net elements, Markov chains, Monte Carlo simulation"""
import re
import math
import tempfile, os
from collections import Counter, defaultdict
from statistics import mean, median
import numpy as np
from hypothesis import strategies as st
import gen, build, ref
from core import Unit, require, req_eq
import pm4py
from pm4py.objects.petri_net.obj import PetriNet, Marking

META = dict(
    title="Stochastic Petri nets: distributions, performance, Markov chains, simulation",
    statement="A random variable read back from its printed form, or with its net from a PNML file, has the same type, parameters, weight and priority and samples the same values; fitting picks the most likely of the candidate distributions with the maximum-likelihood parameters of the observed durations. "
              "On fitting logs the count, waiting time and enabling statistics of every transition and arc are those of moving timed tokens along the firings, the rate matrix of the tangible reachability graph holds the rates of the transitions, and its transient and steady-state analysis solve the Markov chain. "
              "A Monte Carlo simulation with enough resources returns one accepted trace per case, whose timestamps and total times are those of the arrival rate and the given durations.",
    over=["inputs"], quant="generated distributions and samples, block-structured nets, fitting timed logs, transition rates and delays",
    why="tests run these pipelines once without looking at the numbers; first events, silent transitions, parallel branches and rates decide them",
    files=["pm4py/objects/random_variables", "pm4py/objects/stochastic_petri", "pm4py/objects/petri_net/utils/performance_map.py", "pm4py/algo/simulation/montecarlo", "pm4py/objects/petri_net/importer", "pm4py/objects/petri_net/exporter"],
    mech=[("calculate_parameters", "pm4py/objects/random_variables/random_variable.py"), ("calculate_annotation_for_trace", "pm4py/objects/petri_net/utils/performance_map.py"), ("get_q_matrix_from_tangible_exponential", "pm4py/objects/stochastic_petri/ctmc.py"), ("apply", "pm4py/algo/simulation/montecarlo/variants/petri_semaph_fifo.py")],
    limits="Fitting is judged on two or more different non-negative durations; simulations with scarce resources depend on real time and are not judged; immediate transitions only up to the tangible graph, which cuts their states out; element performance only for nets with distinct labels and fitting logs.")
FLAG = st.sampled_from([False] * 4 + [True])
POS = st.sampled_from([0.5, 1.0, 2.0, 3.25, 10.0, 1e-3, 86400.0])
ANY = st.sampled_from([0.0, 1.0, -2.5, 7.0, 1e6])
KINDS = {"NORMAL": (ANY, POS), "UNIFORM": (ANY, POS), "EXPONENTIAL": (POS,), "LOGNORMAL": (POS, ANY, POS), "GAMMA": (POS, ANY, POS), "DETERMINISTIC": (ANY,), "IMMEDIATE": ()}


@st.composite
def var_st(draw):
    k = draw(st.sampled_from(sorted(KINDS)))
    return {"kind": k, "par": [draw(s) for s in KINDS[k]], "w": draw(st.sampled_from([0.0, 0.25, 1.0, 3.0])), "p": draw(st.integers(0, 3))}


def dist(kind, par):
    from scipy import stats as S
    if kind == "NORMAL":
        return S.norm(par[0], par[1])
    if kind == "UNIFORM":
        return S.uniform(par[0], par[1])
    if kind == "EXPONENTIAL":
        return S.expon(0, 1 / par[0])
    if kind == "LOGNORMAL":
        return S.lognorm(*par)
    if kind == "GAMMA":
        return S.gamma(*par)


def rvar(v):
    from pm4py.objects.random_variables.random_variable import RandomVariable
    r = RandomVariable()
    r.read_from_string(v["kind"], ";".join(map(str, v["par"])))
    r.set_weight(v["w"])
    r.set_priority(v["p"])
    return r


def floats(r, kind):
    return [] if kind == "IMMEDIATE" else [float(x) for x in r.get_distribution_parameters().split(";")]


def same(r, v, what):
    req_eq(r.get_distribution_type(), v["kind"], what + ": type")
    require(np.allclose(floats(r, v["kind"]), v["par"], rtol=1e-12), "%s: parameters %s instead of %s", what, r.get_distribution_parameters(), v["par"])
    req_eq((r.get_weight(), r.get_priority()), (v["w"], v["p"]), what + ": weight and priority")
    req_eq(r.get_transition_type(), {"IMMEDIATE": "IMMEDIATE", "DETERMINISTIC": "DETERMINISTIC"}.get(v["kind"], "TIMED"), what + ": transition type")
    np.random.seed(7)
    got = [float(x) for x in [r.get_value()] + list(r.get_values(5))]
    np.random.seed(7)
    d = dist(v["kind"], v["par"])
    exp = [float(d.rvs()) for _ in range(6)] if d else [v["par"][0] if v["par"] else 0.0] * 6
    require(np.allclose(got, exp, rtol=1e-9), "%s: values %s instead of %s", what, got, exp)


def check_var(case, ctx):
    r = rvar(case)
    same(r, case, "%s %s" % (case["kind"], case["par"]))
    req_eq(str(r), case["kind"] + " " + r.get_distribution_parameters(), "text")
    d = dist(case["kind"], case["par"])
    if d:
        np.random.seed(3)
        vals = [float(x) for x in d.rvs(6)]
        ll = r.calculate_loglikelihood(vals)
        exp = float(np.sum(d.logpdf(vals)))
        require(abs(ll - exp) <= 1e-6 * max(1, abs(exp)) or not np.isfinite(exp), "log-likelihood %s instead of %s", ll, exp)
    else:
        x = case["par"][0] if case["par"] else 0.0
        require(r.calculate_loglikelihood([x, x]) > 1e300 and r.calculate_loglikelihood([x, x + 1]) < -1e300, "likelihood of a constant")
    ctx.nontrivial()


@st.composite
def fit_st(draw):
    shape = draw(st.sampled_from(["any", "unif", "norm", "exp", "zero"]))
    seed = draw(st.integers(0, 999))
    n = draw(st.integers(2, 30))
    vals = draw(st.lists(st.sampled_from([0.0, 0.5, 1.0, 2.0, 60.0, 3600.0, 5.0]), min_size=2, max_size=12)) if shape == "any" else None
    return {"shape": shape, "seed": seed, "n": n, "vals": vals, "force": draw(st.sampled_from([None, None, None, "NORMAL", "UNIFORM", "EXPONENTIAL"]))}


def samples(case):
    r = np.random.RandomState(case["seed"])
    n = case["n"]
    return {"any": lambda: case["vals"], "unif": lambda: r.uniform(10, 20, n).tolist(), "norm": lambda: np.abs(r.normal(100, 3, n)).tolist(),
            "exp": lambda: r.exponential(50, n).tolist(), "zero": lambda: [0.0] * n}[case["shape"]]()


def judge_fit(r, vals, force, what):
    """r was fitted to vals"""
    vals = [float(x) for x in vals]
    t = r.get_distribution_type()
    if len(vals) < 2:
        return
    mu, sd, lo, hi = float(np.mean(vals)), float(np.std(vals)), min(vals), max(vals)
    allzero = all(abs(x) < 1e-4 for x in vals)
    if force == "EXPONENTIAL":
        req_eq(t, "EXPONENTIAL" if mu > 0 else "IMMEDIATE", what + ": forced type")
    elif allzero:
        req_eq(t, "IMMEDIATE", what + ": type for zero durations")
    elif hi == lo:
        return
    else:
        lls = {"NORMAL": float(np.sum(dist("NORMAL", (mu, sd)).logpdf(vals))), "UNIFORM": -len(vals) * math.log(hi - lo), "EXPONENTIAL": float(np.sum(dist("EXPONENTIAL", (1 / mu,)).logpdf(vals)))}
        if force:
            req_eq(t, force, what + ": forced type")
        else:
            require(t in lls and lls[t] >= max(lls.values()) - 1e-6 * abs(max(lls.values())), "%s: %s chosen, log-likelihoods %s", what, t, lls)
    exp = {"NORMAL": (mu, sd), "UNIFORM": (lo, hi - lo), "EXPONENTIAL": (1 / mu if mu else 0,), "IMMEDIATE": ()}[t]
    require(np.allclose(floats(r, t), exp, rtol=1e-6), "%s: parameters %s instead of %s", what, r.get_distribution_parameters(), exp)
    if t == "EXPONENTIAL":
        np.random.seed(5)
        g = r.get_value()
        np.random.seed(5)
        require(abs(g - dist(t, exp).rvs()) < 1e-6 * max(1, g), "%s: samples of the exponential distribution are shifted", what)


def check_fit(case, ctx):
    from pm4py.objects.random_variables.random_variable import RandomVariable
    vals = samples(case)
    r = RandomVariable()
    req_eq((str(r), r.get_value()), ("UNINITIALIZED", None), "fresh variable")
    r.calculate_parameters(list(vals), force_distribution=case["force"])
    judge_fit(r, vals, case["force"], "fit of %s" % case["shape"])
    if len(set(vals)) > 1 and r.get_distribution_type() != "IMMEDIATE":
        r2 = rvar({"kind": r.get_distribution_type(), "par": [2.0] * len(KINDS[r.get_distribution_type()]), "w": 1.0, "p": 0})
        r2.calculate_parameters(list(vals))
        require(np.allclose(floats(r2, r2.get_distribution_type()), floats(r, r.get_distribution_type()), rtol=1e-9), "refit of the same distribution: %s and %s", r2, r)
    ctx.label(r.get_distribution_type())
    ctx.nontrivial()


@st.composite
def net_st(draw, ops=("->", "X", "+", "*"), dup=False, leaves=6):
    t = draw(gen.tree(depth=3, ops=ops, max_leaves=leaves, dup=dup))
    return t if isinstance(t, list) else ["->", t or "a", "b"]


@st.composite
def pnml_st(draw):
    return {"tree": draw(net_st(dup=True)), "vars": draw(st.lists(st.one_of(st.none(), var_st(), var_st()), min_size=3, max_size=6)), "string": draw(st.booleans())}


def check_pnml(case, ctx):
    from pm4py.objects.petri_net.importer.variants import pnml as imp
    from pm4py.objects.petri_net.exporter.variants import pnml as exp
    net, im, fm = pm4py.convert_to_petri_net(build.tree(case["tree"]))
    given = {}
    for i, t in enumerate(sorted(net.transitions, key=lambda t: t.name)):
        v = case["vars"][i % len(case["vars"])]
        if v:
            t.properties["stochastic_distribution"] = rvar(v)
            given[t.name] = v
    par = {"return_stochastic_map": True}
    if case["string"]:
        n2, i2, f2, smap = imp.import_net_from_string(exp.export_petri_as_string(net, im, fm), parameters=par)
    else:
        with tempfile.TemporaryDirectory() as d:
            p = os.path.join(d, "n.pnml")
            exp.export_net(net, im, p, final_marking=fm)
            n2, i2, f2, smap = imp.import_net(p, parameters=par)
    req_eq({(t.name, t.label) for t in n2.transitions}, {(t.name, t.label) for t in net.transitions}, "transitions")
    req_eq({t.name for t in smap}, set(given), "transitions with a distribution")
    for t in n2.transitions:
        require(("stochastic_distribution" in t.properties) == (t.name in given), "distribution of %s", t)
        if t.name in given:
            same(smap[t], given[t.name], "transition %s" % t.name)
            require(t.properties["stochastic_distribution"] is smap[t], "property of %s", t)
    ctx.nontrivial(len(given) > 0)


@st.composite
def perf_st(draw):
    return {"tree": draw(net_st()), "pick": draw(st.lists(st.integers(0, 500), min_size=1, max_size=5)), "gaps": draw(st.lists(st.sampled_from([0, 1, 2, 5, 60, 3600]), min_size=3, max_size=9)), "force": draw(st.sampled_from([None, None, "NORMAL", "EXPONENTIAL"]))}


def token_stats(net, im, firings, times):
    """[(transition, waiting time)], [(arc, waiting time)], Counter(enabled steps) of one fitting trace"""
    tok = {p: [(0, times[0])] * n for p, n in im.items()}
    tok = defaultdict(list, {p: list(v) for p, v in tok.items()})
    j, cur = 0, (0, times[0])
    trs, arcs, en = [], [], Counter()
    for t in firings:
        for u in net.transitions:
            if all(len(tok[a.source]) >= a.weight for a in u.in_arcs):
                en[u] += 1
        if j < len(times):
            cur = (j, times[j])
        if t.label is not None:
            j += 1
        ins = [(a, tok[a.source].pop(0)) for a in t.in_arcs]
        if t.label is not None:
            for a, k in ins:
                arcs.append((a, cur[1] - k[1]))
            k = max(x[1] for x in ins)
            trs.append((t, cur[1] - k[1]))
            out = cur
        else:
            for a, k in ins:
                arcs.append((a, 0))
            trs.append((t, 0))
            out = max(x[1] for x in ins)
        for a in t.out_arcs:
            tok[a.target].append(out)
            arcs.append((a, None))
    return trs, arcs, en


def check_perf(case, ctx):
    from pm4py.algo.conformance.tokenreplay import algorithm as TR
    from pm4py.objects.petri_net.utils import performance_map as PM
    from pm4py.statistics.variants.log import get as variants_get
    from pm4py.algo.simulation.montecarlo.utils import replay
    net, im, fm = pm4py.convert_to_petri_net(build.tree(case["tree"]))
    lang = [w for w in sorted(ref.tree_lang(case["tree"], 6)) if w]
    if not lang:
        return
    trs = [list(lang[i % len(lang)]) for i in case["pick"]]
    log = pm4py.objects.log.obj.EventLog()
    times, k = [], 0
    for i, t in enumerate(trs):
        x, tr = 100 * i, pm4py.objects.log.obj.Trace(attributes={"concept:name": str(i)})
        ts = []
        for a in t:
            x += case["gaps"][k % len(case["gaps"])]
            k += 1
            ts.append(x)
            tr.append(pm4py.objects.log.obj.Event({"concept:name": a, "time:timestamp": build.ts(x).to_pydatetime() if hasattr(build.ts(x), "to_pydatetime") else build.ts(x)}))
        times.append(ts)
        log.append(tr)
    rep = TR.apply(log, net, im, fm)
    if not all(r["trace_is_fit"] for r in rep):
        ctx.label("replay not fitting")
        return
    et, ea, en, act = defaultdict(list), defaultdict(list), Counter(), Counter()
    cases = defaultdict(lambda: defaultdict(list))
    for i, r in enumerate(rep):
        a, b, e = token_stats(net, im, r["activated_transitions"], times[i])
        for t, v in a:
            et[t].append(v)
            cases[t][i].append(v)
            act[t] += 1
        for x, v in b:
            ea[x].append(v)
        en.update(e)
    vidx = variants_get.get_variants_from_log_trace_idx(log)
    stt = PM.single_element_statistics(log, net, im, rep, vidx)
    req_eq({x for x in stt if isinstance(x, PetriNet.Transition) and stt[x]["no_of_times_activated"]}, set(et), "transitions with statistics")
    for t in et:
        req_eq((stt[t]["count"], stt[t]["no_of_times_activated"]), (act[t], act[t]), "firings of %s" % t)
        req_eq(sorted(stt[t]["performance"]), sorted(et[t]), "waiting times of %s" % t)
    for t, n in en.items():
        req_eq(stt[t]["no_of_times_enabled"], n, "times %s is enabled" % t)
    req_eq({x for x in stt if isinstance(x, PetriNet.Arc)}, set(ea), "arcs with statistics")
    for a, v in ea.items():
        req_eq(stt[a]["count"], len(v), "uses of %s" % a)
        req_eq(sorted(stt[a]["performance"]), sorted(x for x in v if x is not None), "waiting times of %s" % a)
    fr = PM.aggregate_statistics(stt)
    for t in et:
        if t.label is not None:
            req_eq(fr[t]["label"], "%s (%d)" % (t.label, act[t]), "frequency label")
    for a, v in ea.items():
        req_eq(fr[a]["label"], str(len(v)), "frequency label of %s" % a)
    tp = PM.get_transition_performance_with_token_replay(log, net, im, fm)
    req_eq(set(tp), {str(t) for t in et if t.label is not None}, "visible transitions with a performance")
    for t in et:
        if t.label is not None:
            d = tp[str(t)]
            req_eq(d["all_values"], sorted(et[t]), "values of %s" % t)
            req_eq({k: sorted(v) for k, v in d["case_association"].items()}, {k: sorted(v) for k, v in cases[t].items()}, "values per case of %s" % t)
            require(abs(d["mean"] - mean(et[t])) < 1e-9 and abs(d["median"] - median(et[t])) < 1e-9, "mean or median of %s", t)
            lb = sorted(et[t])[len(et[t]) // 2]
            req_eq(PM.get_idx_exceeding_specified_acti_performance(log, tp, str(t), lb), sorted(k for k, v in cases[t].items() if max(v) >= lb), "cases over the bound")
    sm = replay.get_map_from_log_and_net(log, net, im, fm, force_distribution=case["force"])
    req_eq({t for t in sm if act[t]}, set(et), "stochastic map")
    for t in et:
        judge_fit(sm[t], et[t], case["force"], "distribution of %s" % t)
        require(abs(sm[t].get_weight() - act[t] / en[t]) < 1e-12, "weight of %s: %s instead of %s/%s", t, sm[t].get_weight(), act[t], en[t])
    ctx.nontrivial(any(v > 0 for x in et.values() for v in x))


@st.composite
def ctmc_st(draw):
    return {"tree": draw(net_st(leaves=5)), "rates": draw(st.lists(st.sampled_from([0.1, 0.5, 1.0, 2.0, 5.0]), min_size=3, max_size=7)), "delay": draw(st.sampled_from([0.0, 0.5, 1.0, 10.0])),
            "close": draw(st.booleans()), "imm": draw(FLAG), "dfg": draw(st.lists(st.tuples(gen.acts(3), gen.acts(3), st.sampled_from([0, 1, 2.5, 60])), min_size=1, max_size=6, unique_by=lambda x: x[:2]))}


def transient(Q, v, t):
    """uniformization"""
    q = max(1e-9, max(-Q[i, i] for i in range(len(Q)))) * 1.05
    P = np.eye(len(Q)) + Q / q
    n, w, out, x = 0, math.exp(-q * t), np.zeros(len(Q)), np.array(v, dtype=float)
    acc = 0
    while acc < 1 - 1e-13 and n < 3000:
        out += w * x
        acc += w
        n += 1
        w *= q * t / n
        x = x @ P
    return out


def check_ctmc(case, ctx):
    from pm4py.objects.stochastic_petri import ctmc, tangible_reachability as TG
    from pm4py.objects.random_variables import exponential, random_variable
    from pm4py.objects.random_variables.exponential.random_variable import Exponential
    from pm4py.objects.petri_net.utils import reachability_graph as RG, petri_utils
    net, im, fm = pm4py.convert_to_petri_net(build.tree(case["tree"]))
    for i, p in enumerate(sorted(net.places, key=lambda p: p.name)):
        p.name = "q%dx" % i
    if case["close"]:
        t = PetriNet.Transition("back", None)
        net.transitions.add(t)
        petri_utils.add_arc_from_to(list(fm)[0], t, net)
        petri_utils.add_arc_from_to(t, list(im)[0], net)
    trs = sorted(net.transitions, key=lambda t: (t.label or "", "" if t.label else t.name))
    rate, smap = {}, {}
    for i, t in enumerate(trs):
        r = case["rates"][i % len(case["rates"])]
        v = random_variable.RandomVariable()
        v.read_from_string("EXPONENTIAL", str(r))
        if case["imm"] and t.label is None and i % 2:
            v.read_from_string("IMMEDIATE", None)
        else:
            rate[t.name] = r
        smap[t] = v
    # own exploration
    name = lambda m: "".join("%s%d" % (p.name, n) for p, n in sorted(m.items(), key=lambda x: x[0].name))
    ini = Counter(im)
    seen, todo, arcs = {name(ini)}, [ini], []
    while todo:
        m = todo.pop()
        if len(seen) > 60:
            ctx.label("overflow")
            return
        for t in trs:
            if all(m[a.source] >= a.weight for a in t.in_arcs):
                k = Counter(m)
                for a in t.in_arcs:
                    k[a.source] -= a.weight
                for a in t.out_arcs:
                    k[a.target] += a.weight
                k = +k
                arcs.append((name(m), t.name, name(k)))
                if name(k) not in seen:
                    seen.add(name(k))
                    todo.append(k)
    vanish = {a for a, t, b in arcs if t not in rate}
    keep = [x for x in arcs if x[0] not in vanish and x[2] not in vanish]
    states = sorted({x[0] for x in keep} | {x[2] for x in keep})
    full, tg = None, None
    full = RG.construct_reachability_graph(net, im, use_trans_name=True)
    req_eq({s.name for s in full.states}, seen, "reachable states")
    req_eq(Counter((t.from_state.name, t.name, t.to_state.name) for t in full.transitions), Counter(arcs), "reachability graph")
    tg = TG.get_tangible_reachability_from_reachability(full, smap)
    req_eq({s.name for s in tg.states}, set(states), "tangible states")
    req_eq(Counter((t.from_state.name, t.name, t.to_state.name) for t in tg.transitions), Counter(keep), "tangible graph")
    if not states:
        return
    Q = np.zeros((len(states), len(states)))
    for a, t, b in keep:
        if a != b:
            Q[states.index(a), states.index(b)] += rate[t]
            Q[states.index(a), states.index(a)] -= rate[t]
    got = ctmc.get_q_matrix_from_tangible_exponential(tg, smap)
    require(np.allclose(got, Q, rtol=1e-9), "rate matrix %s instead of %s", got, Q)
    objs = sorted(tg.states, key=lambda s: s.name)
    for i in (0, len(states) - 1):
        res = ctmc.transient_analysis_from_tangible_q_matrix_and_single_state(tg, got, objs[i], case["delay"])
        exp = transient(Q, [1 if k == i else 0 for k in range(len(states))], case["delay"])
        require(np.allclose([res[s] for s in objs], exp, atol=1e-6), "probabilities from %s after %s: %s instead of %s", states[i], case["delay"], dict(res), exp)
        cols = ctmc.get_color_from_probabilities(res)
        for s in objs:
            h = "%02X" % int(255.0 * (1 - res[s])) if 0 <= res[s] <= 1 else None
            if h:
                req_eq(cols[s], "#FF" + h * 2, "colour of probability %s" % res[s])
    if case["close"] and not case["imm"]:
        v = ctmc.perform_steadystate(got, tg)
        v = np.array(v).flatten()
        require(np.allclose(v @ Q, 0, atol=1e-6) and abs(v.sum() - 1) < 1e-6 and (v > -1e-9).all(), "steady state %s of %s", v, Q)
        ctx.label("steady state")
    # whole pipeline
    old, first = name(ini), {b for a, _, b in arcs if a == name(ini)}
    list(im)[0].name = "start"
    if not case["imm"]:
        g2, prob, col = ctmc.transient_analysis_from_petri_net_and_smap(net, im, smap, case["delay"])
        ren = lambda s: "start1" if s == old else s
        exp = transient(Q, [1 / len(first) if s in first else 0 for s in states], case["delay"])
        req_eq({s.name for s in prob}, {ren(s) for s in states}, "states of the transient analysis")
        by = {s.name: p for s, p in prob.items()}
        require(np.allclose([by[ren(s)] for s in states], exp, atol=1e-6), "transient analysis %s instead of %s", by, dict(zip(states, exp)))
    # performance graph
    d = {(a, b): v for a, b, v in case["dfg"]}
    _, g, sm, q = ctmc.get_tangible_reachability_and_q_matrix_from_dfg_performance(d, invisible_firing_rate=100.0)
    names = sorted(s.name for s in g.states)
    for (a, b), v in d.items():
        if a != b and a + "1" in names and b + "1" in names:
            x = q[names.index(a + "1"), names.index(b + "1")]
            e = 1.0 / v if v else 100.0
            require(abs(x - e) < 1e-9 * max(1, e), "rate of %s -> %s is %s instead of %s", a, b, x, e)
    require(np.allclose(q.sum(axis=1), 0, atol=1e-6), "rows of the rate matrix of the graph do not sum to 0")
    ctx.nontrivial(len(states) > 2)


@st.composite
def mc_st(draw):
    return {"tree": draw(net_st(ops=("->", "X", "+"))), "dur": draw(st.lists(st.sampled_from([0, 1, 10, 250.5, 3600]), min_size=3, max_size=7)), "n": draw(st.integers(1, 6)), "ratio": draw(st.one_of(st.none(), st.sampled_from([0, 1, 7.5, 1000]))),
            "smap": draw(st.sampled_from([True, True, False])), "arr": draw(st.lists(st.integers(0, 500), min_size=1, max_size=4)), "seed": draw(st.integers(0, 99))}


def check_mc(case, ctx):
    from pm4py.algo.simulation.montecarlo import algorithm as MC
    net, im, fm = pm4py.convert_to_petri_net(build.tree(case["tree"]))
    lang = ref.tree_lang(case["tree"], 8)
    dur, smap = {}, {}
    for i, t in enumerate(sorted(net.transitions, key=lambda t: t.name)):
        if t.label is not None:
            dur[t.label] = case["dur"][i % len(case["dur"])]
            smap[t] = rvar({"kind": "DETERMINISTIC", "par": [dur[t.label]], "w": 1.0, "p": 1})
    T, E, L = pm4py.objects.log.obj.Trace, pm4py.objects.log.obj.Event, pm4py.objects.log.obj.EventLog
    words = sorted(w for w in lang if w) or [("zz",)]
    log = L([T([E({"concept:name": a, "time:timestamp": build.ts(x + 3 * k)}) for k, a in enumerate(words[x % len(words)])], attributes={"concept:name": str(i)}) for i, x in enumerate(case["arr"])])
    np.random.seed(case["seed"])
    par = {"num_simulations": case["n"], "enable_diagnostics": False, "default_num_resources_per_place": case["n"] + 1, "small_scale_factor": 1e12, "max_thread_exec_time": 20.0}
    if case["ratio"] is not None:
        par["case_arrival_ratio"] = case["ratio"]
    if case["smap"]:
        par["provided_stochastic_map"] = smap
    out, res = MC.apply(log, net, im, fm, parameters=par)
    arr = sorted(case["arr"])
    ratio = case["ratio"] if case["ratio"] is not None else (mean(b - a for a, b in zip(arr, arr[1:])) if len(arr) > 1 else 0)
    require(abs(res["input_case_arrival_ratio"] - ratio) < 1e-6, "arrival ratio %s instead of %s", res["input_case_arrival_ratio"], ratio)
    req_eq(len(out), case["n"], "simulated cases")
    ex, allt = [], []
    for i, tr in enumerate(out):
        w = tuple(e["concept:name"] for e in tr)
        require(w in lang, "simulated trace %s is not accepted by %s", w, case["tree"])
        ts = [e["time:timestamp"].timestamp() for e in tr]
        req_eq(ts, sorted(ts), "times of a simulated trace")
        allt += ts
        ex.append(ts[-1] - ts[0] if ts else 0)
        cur = 1000000 + i * ratio
        for e, t in zip(w, ts):
            if case["smap"]:
                cur += dur[e]
                require(abs(t - cur) < 1e-3, "case %s: %s at %s instead of %s", i, e, t, cur)
            else:
                require(t >= cur - 1e-3, "case %s: %s at %s, before the case starts", i, e, t)
    require(np.allclose(sorted(res["cases_ex_time"]), sorted(ex), atol=1e-3), "execution times %s instead of %s", res["cases_ex_time"], ex)
    require(abs(res["median_cases_ex_time"] - median(ex)) < 1e-3, "median execution time %s instead of %s", res["median_cases_ex_time"], median(ex))
    tot = max(allt) - min(allt) if allt else 0
    require(abs(res["total_cases_time"] - tot) < 1e-3, "total time %s instead of %s", res["total_cases_time"], tot)
    req_eq(set(res["places_interval_trees"]), set(net.places), "places with intervals")
    req_eq(set(res["transitions_interval_trees"]), {t.name for t in net.transitions}, "transitions with intervals")
    ctx.nontrivial(bool(allt) and case["n"] > 1)


UNITS = [
    Unit("variables", var_st(), check_var, quick=150, rule="always"),
    Unit("fit", fit_st(), check_fit, quick=250, rule="always"),
    Unit("pnml", pnml_st(), check_pnml, quick=150, rule="some transition has a distribution"),
    Unit("performance", perf_st(), check_perf, quick=350, rule="some waiting time is positive"),
    Unit("ctmc", ctmc_st(), check_ctmc, quick=250, rule="more than two tangible states"),
    Unit("montecarlo", mc_st(), check_mc, quick=120, rule="several simulated cases with events"),
]
