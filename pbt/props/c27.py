"""C27 DECLARE constraints: supports, confidences and deviations agree with the meaning of the templates"""
from collections import Counter
from hypothesis import strategies as st
import gen, build
from props.c26 import objs, trs_
from core import Unit, require, req_eq
import pm4py
from pm4py.algo.discovery.declare import algorithm as disc
from pm4py.algo.conformance.declare import algorithm as conf

META = dict(
    title="DECLARE constraints are counted and checked by the meaning of their templates",
    statement="In a discovered DECLARE model the confidence of a constraint is the number of cases where it is activated and satisfied, its support the number of activated cases; constraints above the requested minimum ratios are all reported, those below are not, for any choice of templates and considered activities and for dataframes and event logs alike. Conformance checking reports for each case exactly the constraints the case violates, each once, with the number of constraints and the fitness following from them.",
    over=["inputs"], quant="logs with repeated activities x templates x considered activities x thresholds x (discovered or hand-made) models checked on other logs",
    why="tests only run the discovery and the conformance on example logs; vacuously satisfied constraints, repetitions and single templates are not sampled",
    oracle="an evaluation of each template on the trace from its definition",
    limits="For alternate and chain templates pm4py demands a strict alternation; traces which satisfy the usual (weaker) definition but do not alternate strictly are not judged.",
    files=["pm4py/algo/discovery/declare", "pm4py/algo/conformance/declare", "pm4py/discovery.py", "pm4py/conformance.py"],
    mech=[("discovery", "pm4py/algo/discovery/declare/variants/classic.py"), ("conformance", "pm4py/algo/conformance/declare/variants/classic.py")])

UNARY = ["existence", "absence", "exactly_one", "init"]
BIN = ["responded_existence", "coexistence", "noncoexistence", "response", "precedence", "succession", "nonsuccession", "nonchainsuccession"]
STRICT = ["altresponse", "altprecedence", "altsuccession", "chainresponse", "chainprecedence", "chainsuccession"]
ALL = UNARY + BIN + STRICT
DEFAULT = [k for k in ALL if not k.startswith("non")]


def holds(k, t, a, b=None):
    """True/False, None where the definition leaves it open"""
    if k == "existence":
        return a in t
    if k == "absence":
        return a not in t
    if k == "exactly_one":
        return t.count(a) == 1
    if k == "init":
        return t[:1] == [a]
    ia, ib = [i for i, x in enumerate(t) if x == a], [i for i, x in enumerate(t) if x == b]
    if k == "responded_existence":
        return not ia or bool(ib)
    if k == "coexistence":
        return bool(ia) == bool(ib)
    if k == "noncoexistence":
        return not (ia and ib)
    if k == "response":
        return all(any(j > i for j in ib) for i in ia)
    if k == "precedence":
        return all(any(i < j for i in ia) for j in ib)
    if k == "nonsuccession":
        return not any(i < j for i in ia for j in ib)
    if k == "nonchainsuccession":
        return not any(j == i + 1 for i in ia for j in ib)
    if k in ("succession", "altsuccession", "chainsuccession"):
        r, p = holds(k.replace("succession", "response"), t, a, b), holds(k.replace("succession", "precedence"), t, a, b)
        return False if r is False or p is False else None if r is None or p is None else True
    chain = k.startswith("chain")
    if k.endswith("response"):
        weak = all(any(j > i for j in ib) and (min(j for j in ib if j > i) == i + 1 if chain else not any(i < m < min(j for j in ib if j > i) for m in ia)) for i in ia)
        vac = not ia
    else:
        weak = all(any(i < j for i in ia) and (max(i for i in ia if i < j) == j - 1 if chain else not any(max(i for i in ia if i < j) < m < j for m in ib)) for j in ib)
        vac = not ib
    if not weak:
        return False
    pr = [x for x in t if x in (a, b)]
    if vac or (pr == [a, b] * (len(pr) // 2)):
        return True
    return None


def active(k, t, a, b=None):
    if k in ("existence", "absence", "init"):
        return True
    if k == "exactly_one":
        return a in t
    if k in ("responded_existence", "response", "altresponse", "chainresponse"):
        return a in t
    if k in ("precedence", "altprecedence", "chainprecedence"):
        return b in t
    return a in t or b in t


def sup_conf(k, trs, args):
    """(support, lowest and highest possible confidence)"""
    act = [t for t in trs if active(k, t, *args)]
    v = [holds(k, t, *args) for t in act]
    return len(act), sum(1 for x in v if x is True), sum(1 for x in v if x is not False)


def space(k, acts):
    return [(a,) for a in acts] if k in UNARY else [(a, b) for a in acts for b in acts if a != b]


def chk_disc(case, ctx):
    trs0 = case["t"]
    acts = sorted({a for t in trs0 for a in t})
    cons = [a for a in acts if a in case["cons"]] or None
    trs = [[a for a in t if cons is None or a in cons] for t in trs0]
    kinds = case["kinds"] or DEFAULT
    ms, mc = case["ms"], case["mc"]
    n = len(trs)
    for nm, o in objs(trs0):
        m = pm4py.discover_declare(o, allowed_templates=set(kinds) if case["kinds"] else None, considered_activities=set(cons) if cons else None, min_support_ratio=ms, min_confidence_ratio=mc)
        require(set(m) <= set(kinds), "a template that was not requested", set(m), kinds)
        for k in kinds:
            got = m.get(k, {})
            sp = space(k, cons or acts)
            key = (lambda g: g[0]) if k in UNARY else (lambda g: g)
            require(set(got) <= {key(g) for g in sp}, "constraint on unexpected activities", k, sorted(got))
            for g in sp:
                s, lo, hi = sup_conf(k, trs, g)
                r = got.get(key(g))
                if r is not None:
                    req_eq(r["support"], s, "support of %s%s (%s)" % (k, g, nm))
                    require(lo <= r["confidence"] <= hi, "confidence of %s%s (%s)" % (k, g, nm), r, lo, hi)
                    if ms is not None:
                        require(s >= ms * n - 1e-9 and hi >= mc * s - 1e-9, "constraint %s%s below the thresholds" % (k, g), r, s, n)
                elif ms is not None:
                    require(not (s > ms * n + 1e-9 and lo > mc * s + 1e-9), "constraint %s%s is missing (%s)" % (k, g, nm), s, lo, n)
            if got and any(r["confidence"] not in (0, r["support"]) for r in got.values()):
                ctx.label(k)
        if m and any(len(set(t)) < len(t) for t in trs):
            ctx.nontrivial()


def compare(res, trs, model, what):
    req_eq(len(res), len(trs), what + ": number of results")
    tot = sum(len(v) for v in model.values())
    for t, r in zip(trs, res):
        got = [(k, tuple(g) if not isinstance(g, str) else g) for k, g in r["deviations"]]
        require(len(set(got)) == len(got), what + ": deviation reported twice", t, got)
        for k in model:
            for g in model[k]:
                h = holds(k, t, *((g,) if k in UNARY else g))
                if h is not None:
                    require(((k, g) in got) == (not h), what + ": " + k, g, t, got)
        require(all(k in model and g in model[k] for k, g in got), what + ": deviation from something which is not in the model", got)
        req_eq(r["no_dev_total"], len(got), what + ": number of deviations")
        req_eq(r["no_constr_total"], tot, what + ": number of constraints")
        req_eq(r["is_fit"], not got, what + ": is_fit")
        require(abs(r["dev_fitness"] - (1 - len(got) / tot if tot else 1.0)) < 1e-9, what + ": fitness", r)


def mk_model(case):
    if case["hand"] is None:
        m = disc.apply(build.variants_log(case["t"]), parameters={"min_support_ratio": case["ms"] or 0.3, "min_confidence_ratio": case["mc"] or 0.4, "allowed_templates": set(ALL)})
        return m
    return {k: {(g[0] if k in UNARY else tuple(g)): {"support": 1, "confidence": 1} for g in gs if k in UNARY or g[0] != g[1]} for k, gs in case["hand"].items()}


def chk_conf(case, ctx):
    m = mk_model(case)
    trs = case["u"]
    for nm, o in objs(trs):
        res = pm4py.conformance_declare(o, m)
        compare(res, trs, m, nm)
        d = pm4py.conformance_declare(o, m, return_diagnostics_dataframe=True)
        req_eq([(x, y) for x, y in zip(d["no_dev_total"].tolist(), d["no_constr_total"].tolist())], [(r["no_dev_total"], r["no_constr_total"]) for r in res], nm + ": diagnostics")
        req_eq(d["case_id"].tolist(), [t.attributes["concept:name"] for t in o] if nm == "log" else ["c%03d" % i for i in range(len(trs))], nm + ": cases of the diagnostics")
    lg = build.variants_log(trs + [[]])
    compare(conf.apply(lg, m), trs + [[]], m, "log with an empty trace")
    if any(0 < r["no_dev_total"] < r["no_constr_total"] for r in res):
        ctx.nontrivial()
    for r in res:
        for k, g in r["deviations"]:
            ctx.label(k)


def chk_perfect(case, ctx):
    """constraints satisfied wherever activated are not violated by the log (but for exactly_one, not activated by absent activities)"""
    trs = case["t"]
    m = disc.apply(build.variants_log(trs), parameters={"min_support_ratio": 0.0, "min_confidence_ratio": 0.0, "allowed_templates": set(ALL)})
    m = {k: {g: r for g, r in v.items() if r["support"] == r["confidence"]} for k, v in m.items() if k != "exactly_one"}
    for nm, o in objs(trs)[:2]:
        for t, r in zip(trs, pm4py.conformance_declare(o, m)):
            require(r["is_fit"] and not r["deviations"], "a case violates a constraint that holds with full confidence", t, r["deviations"])
    if sum(len(v) for k, v in m.items() if k in BIN + STRICT) > 0 and any(len(set(t)) < len(t) for t in trs):
        ctx.nontrivial()


G1, G2 = st.lists(gen.acts(4), min_size=1, max_size=1), st.lists(gen.acts(4), min_size=2, max_size=2)


@st.composite
def hand(draw):
    ks = draw(st.lists(st.sampled_from(ALL), max_size=6, unique=True))
    return {k: draw(st.lists(G1 if k in UNARY else G2, min_size=1, max_size=4)) for k in ks}


THR = dict(ms=st.sampled_from([0.0, 0.2, 0.45, 0.7]), mc=st.sampled_from([0.0, 0.3, 0.55, 0.8]))


@st.composite
def disc_case(draw):
    auto = draw(st.sampled_from([False, False, True]))
    c = {"t": draw(trs_()), "kinds": draw(st.one_of(st.just([]), st.lists(st.sampled_from(ALL), min_size=1, max_size=5, unique=True), st.just(ALL))), "cons": draw(st.one_of(st.just([]), st.lists(gen.acts(4), min_size=1, max_size=3, unique=True)))}
    c["ms"], c["mc"] = (None, None) if auto else (draw(THR["ms"]), draw(THR["mc"]))
    return c


UNITS = [
    Unit("discovery", disc_case(), chk_disc, 320, rule="some constraint found on a log with repeated activities"),
    Unit("full_confidence", st.fixed_dictionaries({"t": trs_()}), chk_perfect, 150, rule="a binary constraint with full confidence, repeated activities"),
    Unit("conformance", st.fixed_dictionaries({"t": trs_(), "u": trs_(), "hand": st.one_of(st.none(), hand(), hand()), **THR}), chk_conf, 320, rule="a case violates some but not all constraints"),
]
