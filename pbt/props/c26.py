"""C26 log skeletons hold on the log they were discovered from and judge other traces by their constraints"""
import copy, json
from collections import Counter
from hypothesis import strategies as st
import gen, build
from core import Unit, require, req_eq
import pm4py
from pm4py.algo.discovery.log_skeleton import algorithm as disc
from pm4py.algo.conformance.log_skeleton import algorithm as conf

META = dict(
    title="Log skeletons hold on their log and judge traces by their constraints",
    statement="The discovered log skeleton contains exactly the relations (equivalence, always after, always before, never together, directly follows) that hold for every occurrence of their source activity, up to the share of occurrences allowed by the noise threshold, and the admitted number of occurrences per activity, whether the log is a dataframe or an event log. A log is fit for its own noise-free skeleton; conformance checking reports, for each case in order, exactly the constraints of the skeleton that the case violates, with the totals and the fitness following from them, also when the skeleton was stored as JSON.",
    over=["inputs"], quant="logs with repeated activities x noise thresholds x logs (or hand-made skeletons) to be checked x sets of considered constraints",
    why="tests only run discovery and conformance on example logs; whether a constraint holds for every occurrence shows on repeated activities only",
    oracle="the definition of each constraint evaluated on every trace",
    files=["pm4py/algo/discovery/log_skeleton", "pm4py/algo/conformance/log_skeleton", "pm4py/discovery.py", "pm4py/conformance.py"],
    mech=[("relations of a trace", "pm4py/algo/discovery/log_skeleton/trace_skel.py"), ("discovery", "pm4py/algo/discovery/log_skeleton/variants/classic.py"), ("conformance", "pm4py/algo/conformance/log_skeleton/variants/classic.py")])

KINDS = ["equivalence", "always_after", "always_before", "never_together", "directly_follows"]
ALL = KINDS + ["activ_freq"]


def occ(kind, t, x, y):
    """number of occurrences of x in the trace for which the relation with y holds"""
    ix = [i for i, a in enumerate(t) if a == x]
    if kind == "equivalence":
        return len(ix) if t.count(y) == len(ix) else 0
    if kind == "always_after":
        return sum(1 for i in ix if y in t[i + 1:])
    if kind == "always_before":
        return sum(1 for i in ix if y in t[:i])
    if kind == "never_together":
        return 0 if y in t else len(ix)
    return sum(1 for i in ix if t[i + 1:i + 2] == [y])


def ref_disc(trs, noise):
    tot = Counter(a for t in trs for a in t)
    out = {k: set() for k in KINDS}
    for k in KINDS:
        for x in tot:
            for y in tot:
                if x == y and k in ("equivalence", "never_together"):
                    continue
                n = sum(occ(k, t, x, y) for t in trs)
                if n > 0 and n >= tot[x] * (1.0 - noise):
                    out[k].add((x, y))
    return out


def chk_freq(sk, trs, noise):
    acts = {a for t in trs for a in t}
    req_eq(set(sk), acts, "activities with a frequency constraint")
    for a in acts:
        c = Counter(t.count(a) for t in trs)
        got = set(sk[a])
        require(got <= set(c), "frequency never observed", a, got, dict(c))
        if noise == 0:
            req_eq(got, set(c), "frequencies of %s" % a)
        need = (1.0 - noise) * len(trs)
        cov = sum(c[n] for n in got)
        require(cov >= need, "frequencies of %s do not cover enough cases" % a, got, dict(c), noise)
        require(all(c[n] >= c[m] for n in got for m in set(c) - got), "a more frequent number of occurrences of %s is dropped" % a, got, dict(c))
        require(cov - min(c[n] for n in got) < need, "more frequencies of %s than needed" % a, got, dict(c), noise)


def ref_conf(t, sk, kinds):
    dev = {}
    total = 0
    acts = set(t)
    for k in KINDS:
        if k not in kinds:
            continue
        cons = [c for c in sk[k] if c[0] in acts]
        total += len(cons)
        bad = {(x, y) for x, y in cons if occ(k, t, x, y) < t.count(x)}
        if bad:
            dev[k] = bad
    if "activ_freq" in kinds:
        f = sk["activ_freq"]
        bad = set()
        for a in acts:
            total += 1
            if a not in f:
                bad.add((a, 0))
            elif t.count(a) not in f[a]:
                bad.add((a, t.count(a)))
        for a in f:
            if a not in acts and 0 not in f[a]:
                total += 1
                bad.add((a, 0))
        if bad:
            dev["activ_freq"] = bad
    return dev, total


def got_dev(r):
    out = {}
    for k, v in r["deviations"]:
        if k == "activ_freq":
            require(v not in out.setdefault(k, set()), "frequency deviation repeated", v)
            out[k].add(v)
        else:
            require(k not in out and len(set(v)) == len(v), "deviations repeated", k, v)
            out[k] = set(v)
    return out


def objs(trs):
    """the log as event log, dataframe, formatted dataframe"""
    d = build.variants_df(trs)
    return [("log", build.variants_log(trs)), ("df", d), ("fdf", pm4py.format_dataframe(d.copy(), case_id="case:concept:name", activity_key="concept:name", timestamp_key="time:timestamp"))]


@st.composite
def trs_(draw, **kw):
    return draw(st.one_of(gen.traces(draw(st.integers(2, 4)), 6, 8, **kw), gen.traces(2, 7, 5, **kw)))


NOISE = st.sampled_from([0.0, 0.0, 0.1, 0.25, 0.3, 0.5])


def chk_disc(case, ctx):
    trs, noise = case["t"], case["noise"]
    exp = ref_disc(trs, noise)
    for nm, o in objs(trs):
        sk = pm4py.discover_log_skeleton(o, noise_threshold=noise)
        req_eq(set(sk), set(ALL), "components of the skeleton")
        for k in KINDS:
            req_eq(set(map(tuple, sk[k])), exp[k], "%s constraints (%s, noise %s)" % (k, nm, noise))
        chk_freq(sk["activ_freq"], trs, noise)
    if noise == 0:
        vl = sorted({tuple(t) for t in trs})
        sk = disc.apply_from_variants_list([(v, 1) for v in vl])
        for k in KINDS:
            req_eq(set(sk[k]), exp[k], "%s constraints from the variants" % k)
    if any(exp[k] for k in ("always_after", "always_before", "directly_follows")) and any(len(set(t)) < len(t) for t in trs):
        ctx.nontrivial()


def compare(res, trs, sk, kinds, what):
    req_eq(len(res), len(trs), what + ": number of results")
    for t, r in zip(trs, res):
        dev, total = ref_conf(t, sk, kinds)
        n = sum(len(v) for v in dev.values())
        req_eq(got_dev(r), dev, what + ": deviations of %s" % (t,))
        req_eq(r["no_dev_total"], n, what + ": number of deviations of %s" % (t,))
        req_eq(r["no_constr_total"], total, what + ": number of constraints of %s" % (t,))
        req_eq(r["is_fit"], n == 0, what + ": is_fit of %s" % (t,))
        require(abs(r["dev_fitness"] - (1 - n / total if total else 1.0)) < 1e-9, what + ": fitness", t, r["dev_fitness"], n, total)


def chk_own(case, ctx):
    trs = case["t"]
    for nm, o in objs(trs):
        sk = pm4py.discover_log_skeleton(o)
        res = pm4py.conformance_log_skeleton(o, sk)
        for t, r in zip(trs, res):
            require(r["is_fit"] and r["dev_fitness"] == 1.0 and not r["deviations"], "the log is not fit for its own skeleton (%s)" % nm, t, r)
    if any(len(set(t)) < len(t) for t in trs) and len({tuple(t) for t in trs}) > 1:
        ctx.nontrivial()


def chk_conf(case, ctx):
    a, b, noise = case["t"], case["u"], case["noise"]
    kinds = case["kinds"] or ALL
    if case["hand"]:
        sk = {k: {tuple(p) for p in case["hand"][k]} for k in KINDS}
        sk["activ_freq"] = {x: set(v) for x, v in case["hand"]["activ_freq"].items()}
        ctx.label("hand-made")
    else:
        sk = disc.apply(build.variants_log(a), parameters={"noise_threshold": noise})
    bad = False
    for nm, o in objs(b):
        if nm == "log" and case["empty"]:
            o = build.variants_log(b + [[]])
        bb = b + [[]] if nm == "log" and case["empty"] else b
        if case["kinds"]:
            res = conf.apply(o, sk, parameters={"considered_constraints": kinds})
        else:
            res = pm4py.conformance_log_skeleton(o, sk)
        compare(res, bb, sk, kinds, nm)
        bad = bad or any(r["deviations"] for r in res)
        if not case["kinds"]:
            d = pm4py.conformance_log_skeleton(o, sk, return_diagnostics_dataframe=True)
            req_eq([(x, y) for x, y in zip(d["no_dev_total"].tolist(), d["no_constr_total"].tolist())], [(r["no_dev_total"], r["no_constr_total"]) for r in res], nm + ": diagnostics")
            ids = [t.attributes["concept:name"] for t in o] if nm == "log" else ["c%03d" % i for i in range(len(b))]
            req_eq(d["case_id"].tolist(), ids, nm + ": cases of the diagnostics")
            require(all(abs(x - r["dev_fitness"]) < 1e-9 for x, r in zip(d["dev_fitness"].tolist(), res)), "fitness of the diagnostics")
    from pm4py.algo.discovery.log_skeleton.variants.classic import prepare_encode
    from pm4py.algo.conformance.log_skeleton.variants.classic import after_decode
    if case["json"]:   # the skeleton stored as JSON
        sk = after_decode(json.loads(json.dumps(prepare_encode(copy.deepcopy(sk)))))
    lg = build.variants_log(b)
    compare([conf.apply(t, sk, parameters={"considered_constraints": kinds}) for t in lg], b, sk, kinds, "trace")
    vl = [list(v) for v in sorted({tuple(t) for t in b})]
    res = conf.apply_from_variants_list([(tuple(v), 1) for v in vl], sk, parameters={"considered_constraints": kinds})
    compare([res[tuple(v)] for v in vl], vl, sk, kinds, "variants")
    if bad and any(len(set(t)) < len(t) for t in b):
        ctx.nontrivial()


PAIR = st.lists(gen.acts(4), min_size=2, max_size=2)


@st.composite
def hand(draw):
    h = {k: draw(st.lists(PAIR, max_size=4)) for k in KINDS}
    for k in ("equivalence", "never_together"):
        h[k] = [p for p in h[k] if p[0] != p[1]]
    h["activ_freq"] = draw(st.dictionaries(gen.acts(4), st.lists(st.integers(0, 3), min_size=1, max_size=3, unique=True), max_size=4))
    return h


UNITS = [
    Unit("discovery", st.fixed_dictionaries({"t": trs_(), "noise": NOISE}), chk_disc, 500, rule="a trace with repeated activities and an order relation in the skeleton"),
    Unit("own_log", st.fixed_dictionaries({"t": trs_()}), chk_own, 250, rule="several variants and repeated activities"),
    Unit("conformance", st.fixed_dictionaries({"t": trs_(), "u": trs_(), "noise": NOISE, "hand": st.one_of(st.none(), hand()), "json": st.booleans(), "empty": st.sampled_from([False, False, True]),
                                               "kinds": st.one_of(st.just([]), st.lists(st.sampled_from(ALL), min_size=1, max_size=5, unique=True))}), chk_conf, 400, rule="a deviation in a log with repeated activities"),
]
