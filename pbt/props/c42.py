"""C42 textual abstractions (pm4py.llm)"""
import math
import re
import statistics
from collections import Counter, defaultdict
from hypothesis import strategies as st
import gen, build, nets
import ocel as oc
from core import Unit, require, req_eq, Violation
import pm4py

META = dict(
    title="Textual abstractions state the facts of the log or model",
    statement="The textual abstraction of a log (directly-follows graph, variants, event stream, attributes, features, single case), of an object-centric log (listing, directly-follows graphs, features) or of a model (Petri net, DECLARE, log skeleton, temporal profile) lists exactly the items of the abstracted object with its frequencies, performance values (under every documented aggregation), attributes and constraints; a header changes nothing else. "
              "A length limit keeps the most frequent items (for a stream the most recent events) and drops items only once the limit is reached; the log is not changed.",
    over=["inputs"], quant="generated logs, object-centric logs, nets, models, abstraction options and length limits",
    why="tests only check that a string is produced for one log; that every number in it is right must hold for every log and option",
    files=["pm4py/llm.py", "pm4py/algo/querying/llm/abstractions", "pm4py/algo/transformation/ocel/description"],
    mech=[("DFG text", "pm4py/algo/querying/llm/abstractions/log_to_dfg_descr.py"), ("variants text", "pm4py/algo/querying/llm/abstractions/log_to_variants_descr.py"), ("attributes text", "pm4py/algo/querying/llm/abstractions/log_to_cols_descr.py"), ("OCEL text", "pm4py/algo/transformation/ocel/description/variants/variant1.py")],
    limits="The wording of headers is not judged. Activities do not contain the separators of the text. The queries to remote services are not exercised.")

AGG = ["mean", "median", "min", "max", "sum", "stdev"]


def agg(v, how, sample):
    if how == "mean":
        return sum(v) / len(v)
    if how == "median":
        return statistics.median(v)
    if how == "min":
        return min(v)
    if how == "max":
        return max(v)
    if how == "sum":
        return sum(v)
    if len(v) == 1:
        return None
    return statistics.stdev(v) if sample else statistics.pstdev(v)


def near(a, b, tol=0.0021):
    return abs(a - b) <= tol * max(1, abs(b) / 1000)


def num(s):
    return float(s)


ITEM = re.compile(r"^ ?(.*?) \((?: frequency = (\d+)(\\?%)? )(?: performance = (\S+) (?: (\w+) = (\S+) )?)?\)$")


def parse_items(txt, arrows):
    out = []
    for ln in txt.split("\n"):
        if " -> " not in ln and "frequency = " not in ln:
            continue
        m = ITEM.match(ln)
        require(m is not None, "line %r of the abstraction", ln)
        path, f, pc, perf, sname, sec = m.groups()
        out.append((tuple(path.split(" -> ")), int(f), bool(pc), None if perf is None else num(perf), sname, None if sec is None else num(sec), ln))
    return out


def check_value(got, vals, how, sample, what):
    exp = agg(vals, how, sample)
    if exp is None:  # deviation of a single value
        require(got is None or math.isnan(got) or got == 0, "%s: deviation of one value given as %r", what, got)
    else:
        require(got is not None and near(got, exp), "%s: %s is %r, expected %r", what, how, got, exp)


@st.composite
def log_st(draw):
    return {"log": draw(gen.log(4, 6, 7, equal_ts=True, resources=draw(st.booleans()), extra=draw(st.booleans()))), "kind": draw(st.sampled_from(["df", "elog"])), "rel": draw(st.booleans()), "perf": draw(st.sampled_from([True] * 3 + [False])),
            "p": draw(st.sampled_from(AGG)), "s": draw(st.sampled_from([None] + AGG)), "head": draw(st.booleans()), "max": draw(st.sampled_from([10000, 10000, 0, 60, 120, 200, 300, 500])), "names": draw(st.booleans())}


def kw_of(case):
    if case["kind"] == "df" and case["names"]:
        k = dict(activity_key="act", timestamp_key="when", case_id_key="case")
        return build.fdf(case["log"], ak="act", tk="when", ck="case"), k
    if case["kind"] == "df":
        return build.fdf(case["log"]), {}
    return build.elog(case["log"]), {}


def limit(full, got, text, mx, head_len, what):
    """got is a prefix of full; dropped only when the limit is reached"""
    req_eq(got, full[:len(got)], what + ": kept items")
    ln = [len(x) + 1 for x in got]
    if len(got) < len(full):
        require(head_len + sum(ln) >= mx - 4, "%s: dropped items although the text (%d) is below the limit %d", what, head_len + sum(ln), mx)
    if got:
        require(head_len + sum(ln[:-1]) <= mx + 4, "%s: the text (%d) without the last item exceeds the limit %d", what, head_len + sum(ln[:-1]), mx)


def unchanged(obj):
    return obj.to_json(date_format="iso") if hasattr(obj, "to_json") else repr([(dict(t.attributes), [dict(e) for e in t]) for t in obj])


def check_dfg(case, ctx):
    from pm4py import llm
    obj, kw = kw_of(case)
    before = unchanged(obj)
    o = dict(include_performance=case["perf"], relative_frequency=case["rel"], response_header=case["head"], primary_performance_aggregation=case["p"], secondary_performance_aggregation=case["s"], **kw)
    txt = llm.abstract_dfg(obj, max_len=10 ** 6, **o)
    req_eq(unchanged(obj), before, "log is not changed")
    items = parse_items(txt, 1)
    vals, once = defaultdict(list), defaultdict(set)
    for c in case["log"]["cases"]:
        for x, y in zip(c["events"], c["events"][1:]):
            vals[(x["a"], y["a"])].append(y["t"] - x["t"])
            once[(x["a"], y["a"])].add(c["id"])
    n = len(case["log"]["cases"])
    ctx.nontrivial(len(vals) > 2)
    freq = {k: max(1, len(once[k]) * 100 // n) if case["rel"] else len(v) for k, v in vals.items()}
    req_eq({i[0]: i[1] for i in items}, freq, "frequencies of the paths")
    req_eq(len(items), len(freq), "one line per path")
    for path, f, pc, perf, sn, sec, ln in items:
        req_eq(pc, case["rel"], "percentage sign in %r" % ln)
        if not case["perf"]:
            require(perf is None and sec is None, "performance in %r", ln)
            continue
        check_value(perf, vals[path], case["p"], True, "%s" % (path,))
        if case["s"] is None:
            require(sec is None, "secondary value in %r", ln)
        else:
            require(sn in (None, case["s"]), "secondary aggregation in %r", ln)
            check_value(sec, vals[path], case["s"], True, "%s" % (path,))
    fs = [i[1] for i in items]
    req_eq(fs, sorted(fs, reverse=True), "most frequent first")
    t2 = llm.abstract_dfg(obj, max_len=case["max"], **o)
    full, got = [i[6] for i in items], [i[6] for i in parse_items(t2, 1)]
    limit(full, got, t2, case["max"], len("If I have a process with flow:\n\n" if case["head"] else "\n\n"), "paths")
    if len(got) < len(full):
        ctx.label("cut")
    o["response_header"] = not case["head"]
    req_eq([i[6] for i in parse_items(llm.abstract_dfg(obj, max_len=10 ** 6, **o), 1)], full, "items with and without header")


def check_variants(case, ctx):
    from pm4py import llm
    obj, kw = kw_of(case)
    before = unchanged(obj)
    o = dict(include_performance=case["perf"], relative_frequency=case["rel"], response_header=case["head"], primary_performance_aggregation=case["p"], secondary_performance_aggregation=case["s"], **kw)
    txt = llm.abstract_variants(obj, max_len=10 ** 6, **o)
    req_eq(unchanged(obj), before, "log is not changed")
    items = parse_items(txt, 0)
    vals = defaultdict(list)
    for c in case["log"]["cases"]:
        vals[tuple(e["a"] for e in c["events"])].append(c["events"][-1]["t"] - c["events"][0]["t"])
    n = len(case["log"]["cases"])
    ctx.nontrivial(len(vals) > 1 and any(len(v) > 1 for v in vals.values()))
    req_eq({i[0]: i[1] for i in items}, {k: max(1, len(v) * 100 // n) if case["rel"] else len(v) for k, v in vals.items()}, "frequencies of the variants")
    req_eq(len(items), len(vals), "one line per variant")
    for path, f, pc, perf, sn, sec, ln in items:
        req_eq(pc, case["rel"], "percentage sign in %r" % ln)
        if not case["perf"]:
            require(perf is None and sec is None, "performance in %r", ln)
            continue
        check_value(perf, vals[path], case["p"], False, "%s" % (path,))
        if case["s"] is None:
            require(sec is None, "secondary value in %r", ln)
        else:
            require(sn in (None, case["s"]), "secondary aggregation in %r", ln)
            check_value(sec, vals[path], case["s"], False, "%s" % (path,))
    fs = [i[1] for i in items]
    req_eq(fs, sorted(fs, reverse=True), "most frequent first")
    t2 = llm.abstract_variants(obj, max_len=case["max"], **o)
    full, got = [i[6] for i in items], [i[6] for i in parse_items(t2, 0)]
    limit(full, got, t2, case["max"], len("If I have a process with the following process variants:\n\n" if case["head"] else "\n\n"), "variants")
    if len(got) < len(full):
        ctx.label("cut")


def check_stream(case, ctx):
    from pm4py import llm
    obj, kw = kw_of(case)
    before = unchanged(obj)
    ak, tk, ck = kw.get("activity_key", "concept:name"), kw.get("timestamp_key", "time:timestamp"), kw.get("case_id_key", "case:concept:name")

    def read(t):
        out = []
        for ln in t.split("\n"):
            if ln.startswith("{"):
                m = re.search(r"Timestamp\('([^']*)'", ln) or re.search(r"datetime\.datetime\(([^)]*)\)", ln)
                require(m is not None, "timestamp in %r", ln)
                out.append((ln, re.search(r"'%s': '([^']*)'" % re.escape(ak), ln).group(1), re.search(r"'%s': '([^']*)'" % re.escape(ck), ln).group(1), m.group(1)))
        return out
    txt = llm.abstract_event_stream(obj, max_len=10 ** 6, response_header=case["head"], **kw)
    req_eq(unchanged(obj), before, "log is not changed")
    full = read(txt)
    exp = [(e["a"], c["id"]) for c in case["log"]["cases"] for e in c["events"]]
    req_eq(Counter((x[1], x[2]) for x in full), Counter(exp), "events of the stream")
    if "Timestamp(" in txt:
        import pandas as pd
        tt = [pd.Timestamp(x[3]).timestamp() for x in full]
        req_eq(tt, sorted(tt), "events in time order")
        req_eq(sorted((x[1], x[2], t) for x, t in zip(full, tt)), sorted((e["a"], c["id"], build.ts(e["t"]).timestamp()) for c in case["log"]["cases"] for e in c["events"]), "times of the events")
    t2 = llm.abstract_event_stream(obj, max_len=case["max"], response_header=case["head"], **kw)
    got = read(t2)
    limit([x[0] for x in full][::-1], [x[0] for x in got][::-1], t2, case["max"], 2 + (len("If I have the following stream of events:\n") + 1 if case["head"] else 0), "stream")
    ctx.nontrivial(0 < len(got) < len(full))


def check_case_text(case, ctx):
    from pm4py import llm
    L = build.elog(case["log"])
    for t in L:
        t.attributes["kind"] = "gold"
        for ca in (True, False):
            for ea in (True, False):
                for ti in (True, False):
                    txt = llm.abstract_case(t, include_case_attributes=ca, include_event_attributes=ea, include_timestamp=ti, include_header=case["head"])
                    lines = txt.split("\n")
                    req_eq([x for x in lines if re.match(r"^[\w:]+ = ", x)], (["%s = %s" % (k, v) for k, v in t.attributes.items()] if ca else []), "case attributes")
                    exp = []
                    for e in t:
                        at = {str(k): str(v) for k, v in e.items() if k not in ("concept:name", "time:timestamp")} if ea else {}
                        if ti:
                            at["timestamp"] = str(e["time:timestamp"])
                        exp.append((e["concept:name"], at))
                    got = []
                    acts = {e["concept:name"] for e in t}
                    for x in lines:
                        m = re.match(r"^(\S+) (?:\((.*)\))?$", x)
                        if m and m.group(1) in acts:
                            at = [p.strip().partition(" = ") for p in (m.group(2) or "").split(" ; ") if p.strip()]
                            got.append((m.group(1), {k: v for k, _, v in at}))
                    req_eq(got, exp, "events of the case")
    ctx.nontrivial(any(len(c["events"]) > 1 and len(c["events"][0]) > 2 for c in case["log"]["cases"]))


@st.composite
def cols_st(draw):
    n = draw(st.integers(2, 12))
    cols = {}
    for k in draw(st.lists(st.sampled_from(["num", "txt", "flag", "when", "int", "same"]), min_size=1, max_size=5, unique=True)):
        el = {"num": st.one_of(st.none(), st.integers(0, 8).map(lambda x: x / 4)), "txt": st.sampled_from([None, "x", "y z", "w"]), "flag": st.booleans(), "when": st.one_of(st.none(), st.integers(0, 1000)), "int": st.integers(0, 5), "same": st.just("one")}[k]
        cols[k] = draw(st.lists(el, min_size=n, max_size=n))
    return {"n": n, "cols": cols, "cases": draw(st.lists(st.integers(0, 3), min_size=n, max_size=n)), "acts": draw(st.lists(st.sampled_from(gen.ACTS[:3]), min_size=n, max_size=n)), "max": draw(st.sampled_from([0, 100, 200, 400]))}


def check_cols(case, ctx):
    import pandas as pd
    from pm4py import llm
    n = case["n"]
    if any(all(x is None for x in v) for k, v in case["cols"].items() if k == "txt"):
        ctx.label("empty text column")
        return
    d = {"case:concept:name": [str(x) for x in case["cases"]], "concept:name": list(case["acts"]), "time:timestamp": pd.to_datetime([build.ts(60 * i) for i in range(n)], utc=True)}
    for k, v in case["cols"].items():
        d[k] = pd.to_datetime([None if x is None else build.ts(x) for x in v], utc=True) if k == "when" else pd.array(v, dtype="float64") if k == "num" and all(x is None for x in v) else v
    df = pd.DataFrame(d)
    if "num" in df:
        df["num"] = df["num"].astype(float)
    df = pm4py.format_dataframe(df)
    before = unchanged(df)
    txt = llm.abstract_log_attributes(df, max_len=10 ** 6)
    req_eq(unchanged(df), before, "log is not changed")
    got = {}
    for ln in txt.split("\n"):
        if ln.strip():
            name, _, rest = ln.partition("  empty: ")
            require(rest != "", "line %r", ln)
            got[name] = rest

    def quant(vals, q):
        v = sorted(vals)
        h = (len(v) - 1) * q
        lo = math.floor(h)
        return v[lo] + (v[min(lo + 1, len(v) - 1)] - v[lo]) * (h - lo)
    names = {"time:timestamp"}
    for k, v in [("concept:name", case["acts"])] + list(case["cols"].items()):
        live = [x for x in v if x is not None]
        if k in ("num", "when") or len(set(live)) > 1 and k != "int":
            names.add(k)
    extra = {"@@index", "@@case_index", "start_timestamp"}
    req_eq(set(got) - extra, names, "described attributes")
    for k in names - {"time:timestamp"}:
        v = case["acts"] if k == "concept:name" else case["cols"][k]
        live = [x for x in v if x is not None]
        m = re.match(r"^(\d+) +(quantiles|values): ?(.*)$", got[k])
        require(m is not None, "text %r of %s", got[k], k)
        req_eq(int(m.group(1)), len(v) - len(live), "missing values of %s" % k)
        if m.group(2) == "values":
            vals = re.findall(r"\(([^();]*); freq\. (\d+)\)", m.group(3))
            req_eq(sorted(vals), sorted((str(a), str(b)) for a, b in Counter(live).items()), "values of %s" % k)
            fr = [int(b) for a, b in vals]
            req_eq(fr, sorted(fr, reverse=True), "most frequent values of %s first" % k)
        elif k == "num" and live:
            vals = [float(x) for x in re.findall(r": ([\d.]+)", m.group(3))]
            req_eq(vals, [quant(live, q) for q in (0, .25, .5, .75, 1)], "quantiles of %s" % k)
        elif k == "when" and live:
            vals = [pd.Timestamp(x).timestamp() for x in re.findall(r"Timestamp\('([^']*)'", m.group(3))]
            exp = [build.ts(quant(live, q)).timestamp() for q in (0, .25, .5, .75, 1)]
            require(len(vals) == 5 and all(abs(a - b) < 1e-3 for a, b in zip(vals, exp)), "quantiles of %s: %s expected %s", k, vals, exp)
    short = llm.abstract_log_attributes(df, max_len=case["max"])
    tok = lambda t: Counter(re.findall(r"\([^();]*; freq\. \d+\)", t))
    require(not tok(short) - tok(txt), "shortened text: %s", short)
    ctx.nontrivial(len(names) > 3)


def read_features(txt):
    out = {}
    order = []
    for ln in txt.split("\n"):
        m = re.match(r"^\s*(.*?):    number of non-zero values: (\d+) ; quantiles of the non-zero: (\{.*\})$", ln)
        if m:
            require(m.group(1) not in out, "feature %s twice", m.group(1))
            out[m.group(1)] = (int(m.group(2)), [float(x) for x in re.findall(r": ([-\d.e+]+)", m.group(3))])
            order.append(m.group(1))
    return out, order


def q5(v):
    import numpy as np
    return [float(x) for x in np.quantile(v, [0, .25, .5, .75, 1])]


def cmp_features(got, exp, what):
    req_eq({k: v[0] for k, v in got.items()}, {k: len(v) for k, v in exp.items()}, what + ": features with their number of non-zero values")
    for k, (n, q) in got.items():
        require(len(q) == 5 and all(near(a, b, 1e-6) for a, b in zip(q, q5(exp[k]))), "%s: quantiles of %s are %s, expected %s", what, k, q, q5(exp[k]))


def check_fea(case, ctx):
    from pm4py import llm
    obj, kw = kw_of(case)
    txt = llm.abstract_log_features(obj, max_len=10 ** 7, include_header=case["head"], **kw)
    got, order = read_features(txt)
    exp = {}
    L = case["log"]["cases"]
    rk = "org:resource"

    def feat(name, f):
        v = [f(c["events"]) for c in L]
        v = [x for x in v if x > 0]
        if v:
            exp[name] = v
    acts = sorted({e["a"] for c in L for e in c["events"]})
    for a in acts:
        feat("Value '%s' for Event Attribute '%s'" % (a, kw.get("activity_key", "concept:name")), lambda ev: sum(e["a"] == a for e in ev) > 0)
    shown = {k: v for k, v in got.items() if k in exp}
    req_eq(sorted(exp), sorted(shown), "activities among the features")
    for k, v in exp.items():
        req_eq(got[k][0], len(v), "cases of %s" % k)
    # agreement with the feature table of the same log
    from pm4py.algo.transformation.log_to_features import algorithm as F
    from pm4py.objects.conversion.log import converter
    from pm4py.utils import get_properties
    par = get_properties(obj, **kw) if kw else {}
    data, names = F.apply(converter.apply(obj, variant=converter.Variants.TO_EVENT_LOG, parameters=par), parameters=par)
    nz = [sum(1 for r in data if r[j] > 0) for j in range(len(names))]
    req_eq(sorted(v[0] for v in got.values()), sorted(x for x in nz if x), "number of features and of their non-zero values")
    req_eq(sorted(tuple(round(x, 3) for x in v[1]) for v in got.values()), sorted(tuple(round(x, 3) for x in q5([r[j] for r in data if r[j] > 0])) for j in range(len(names)) if nz[j]), "quantiles of the features")
    cnt = [got[k][0] for k in order]
    req_eq(cnt, sorted(cnt, reverse=True), "features with most values first")
    t2 = llm.abstract_log_features(obj, max_len=case["max"], include_header=case["head"], **kw)
    g2, o2 = read_features(t2)
    req_eq(o2, order[:len(o2)], "features within the limit")
    require(len(o2) == len(order) or len(t2) >= case["max"], "features dropped below the limit")
    ctx.nontrivial(len(got) > 4)


# ---- models
@st.composite
def model_st(draw):
    return {"net": draw(st.one_of(nets.free_net(), nets.tree_net(mutations=2))), "traces": draw(gen.traces(4, 5, 6, min_len=1)), "log": draw(gen.log(4, 5, 4)), "head": draw(st.booleans())}


def check_models(case, ctx):
    from pm4py import llm
    h = case["head"]
    s = case["net"]
    net, im, fm, ps, ts = build.net(s)
    txt = llm.abstract_petri_net(net, im, fm, response_header=h)
    sec = {k: re.search(r"%s: \[ (.*?) \]" % k, txt, re.S) for k in ("places", "transitions", "arcs")}
    require(all(sec.values()), "sections of %r", txt)
    split = lambda k, sep=", ": sorted(x for x in sec[k].group(1).split(sep) if x)
    req_eq(split("places"), sorted(s["places"]), "places")
    tl = lambda t: "(%s, %s)" % (s["trans"][t][0], "None" if s["trans"][t][1] is None else "'%s'" % s["trans"][t][1])
    req_eq(sorted(re.findall(r"\([^()]*\)", sec["transitions"].group(1))), sorted(tl(k) for k in range(len(ts))), "transitions")
    ar = sorted(s["places"][a] + "->" + tl(b) if k == "pt" else tl(a) + "->" + s["places"][b] for k, a, b, w in s["arcs"])
    got = sorted(re.findall(r"(?:\([^()]*\)|p\d+)->(?:\([^()]*\)|p\d+)", sec["arcs"].group(1)))
    req_eq(got, ar, "arcs")
    for nm, m in (("initial marking", s["im"]), ("final marking", s["fm"])):
        x = re.search(nm + r": \[(.*)\]", txt)
        req_eq(sorted(re.findall(r"'([^']*)'", x.group(1))), sorted("%s:%d" % (s["places"][int(p)], v) for p, v in m.items()), nm)
    # DECLARE
    d = build.variants_df(case["traces"])
    dm = pm4py.discover_declare(d, min_support_ratio=0.3, min_confidence_ratio=0.6)
    txt = llm.abstract_declare(dm, include_header=h)
    ln = txt[txt.index("These are the constraints of the model:\n"):].split("\n")[1:]
    ln = [x for x in ln if x]
    NM = {"existence": "Existence", "absence": "Absence", "exactly_one": "Exactly 1", "init": "Initialization", "responded_existence": "Responded Existence", "coexistence": "Co-Existence", "response": "Response", "precedence": "Precedence", "succession": "Succession", "altresponse": "Alternate response",
          "altprecedence": "Alternate precedence", "altsuccession": "Alternate succession", "chainresponse": "Chain response", "chainprecedence": "Chain precedence", "chainsuccession": "Chain succession", "noncoexistence": "Non Co-Existence", "nonsuccession": "Non Succession", "nonchainsuccession": "Non Chain succession"}
    exp = {}
    for k, v in dm.items():
        exp[NM[k]] = sorted("(%r, %r)" % x if isinstance(x, tuple) else x for x in v)
    got = {}
    for x in ln:
        k, _, r = x.partition(": ")
        got[k] = sorted(re.findall(r"\('[^']*', '[^']*'\)", r) if "(" in r else [y for y in r.split(", ") if y])
    req_eq(got, exp, "DECLARE constraints")
    # log skeleton
    sk = pm4py.discover_log_skeleton(d, noise_threshold=0.0)
    txt = llm.abstract_log_skeleton(sk, include_header=h)
    for k, nm in (("equivalence", "Equivalence"), ("always_before", "Always Before"), ("always_after", "Always After"), ("never_together", "Never Together"), ("directly_follows", "Directly-Follows Constraints")):
        x = [y for y in txt.split("\n") if y.startswith(nm + ": ")][-1]
        req_eq(sorted(re.findall(r"\('[^']*', '[^']*'\)", x)), sorted("(%r, %r)" % y for y in sk[k]), nm)
    x = [y for y in txt.split("\n") if y.startswith("Activity Occurrences: ")][-1][len("Activity Occurrences: "):]
    got = {y.split(": ")[0].strip(): sorted(int(z) for z in y.split(": ")[1].split(",")) for y in x.split(";") if y.strip()}
    req_eq(got, {k: sorted(v) for k, v in sk["activ_freq"].items()}, "activity occurrences")
    # temporal profile
    tp = pm4py.discover_temporal_profile(build.fdf(case["log"]))
    txt = llm.abstract_temporal_profile(tp, include_header=h)
    got = {}
    for x in txt.split("\n"):
        m = re.match(r"^(.*) -> (.*) :  AVG: (\S+) s  STD: (\S+) s$", x)
        if m:
            got[(m.group(1), m.group(2))] = (float(m.group(3)), float(m.group(4)))
    req_eq(set(got), set(tp), "pairs of the temporal profile")
    for k, (a, b) in got.items():
        require(abs(a - tp[k][0]) < 0.006 and abs(b - tp[k][1]) < 0.006, "values of %s: %s, expected %s", k, (a, b), tp[k])
    ctx.nontrivial(len(tp) > 1 and len(s["arcs"]) > 2)


# ---- object-centric logs
@st.composite
def ocel_st(draw):
    return {"o": draw(oc.spec(attrs=False)), "ts": draw(st.booleans()), "head": draw(st.booleans()), "max": draw(st.sampled_from([0, 100, 200, 400]))}


def check_ocel(case, ctx):
    from pm4py import llm
    c = case["o"]
    o = oc.build(c)
    n0 = oc.norm(o)
    txt = llm.abstract_ocel(o, include_timestamps=case["ts"])
    req_eq(oc.norm(o), n0, "log is not changed")
    a, b = txt.index("events:\n"), txt.index("\nobjects:\n")
    O = c["objects"]
    life = defaultdict(list)
    exp = []
    for e in c["events"]:
        for i in e["objs"]:
            life[O[i]["id"]].append(build.ts(e["t"]))
        exp.append((e["act"], sorted(O[i]["id"] for i in e["objs"]), str(build.ts(e["t"])) if case["ts"] else None))
    got = []
    for ln in txt[a + 8:b].split("\n"):
        if not ln:
            continue
        m = re.match(r"^(.*) \( related objects: (.*) \) (?: timestamp: (.*))?$", ln)
        require(m is not None, "line %r", ln)
        got.append((m.group(1), sorted(x for x in m.group(2).split(", ") if x), m.group(3)))
    req_eq(sorted(got, key=str), sorted(exp, key=str), "events")
    if case["ts"]:
        tt = [x[2] for x in got]
        req_eq(tt, sorted(tt), "events in time order")
    got, exp = {}, {}
    for ln in txt[b + 10:].split("\n"):
        if not ln:
            continue
        m = re.match(r"^(\S+) object type: (.*?)(?: \( lifecycle start: (.*) ; lifecycle end: (.*) ; lifecycle duration: (.*) \))?$", ln)
        require(m is not None and m.group(1) not in got, "line %r", ln)
        got[m.group(1)] = (m.group(2),) + ((m.group(3), m.group(4), float(m.group(5))) if m.group(5) else (None,) * 3)
    for x in O:
        v = life.get(x["id"])
        exp[x["id"]] = (x["type"],) + ((str(min(v)), str(max(v)), (max(v) - min(v)).total_seconds()) if v and case["ts"] else (None,) * 3)
    req_eq(got, exp, "objects")
    # directly-follows graphs
    perobj = defaultdict(list)
    for e in sorted(range(len(c["events"])), key=lambda k: (c["events"][k]["t"], k)):
        for i in c["events"][e]["objs"]:
            perobj[i].append(e)
    ed = defaultdict(list)
    for i, v in perobj.items():
        for x, y in zip(v, v[1:]):
            ed[(O[i]["type"], c["events"][x]["act"], c["events"][y]["act"])].append((x, y, i))
    full = None
    for hd in (case["head"], not case["head"]):
        txt = llm.abstract_ocel_ocdfg(o, include_header=hd, max_len=10 ** 6)
        cur, got, order = None, {}, []
        for ln in txt.split("\n"):
            m = re.match(r'^  "(.*)" -> "(.*)" \(frequency \(number of events\) = (\d+), frequency \(number of objects\) = (\d+)(?:, duration = (\S+))?\)$', ln)
            if ln.startswith("Object type: "):
                cur = ln[len("Object type: "):]
            elif m:
                k = (cur, m.group(1), m.group(2))
                require(k not in got, "edge %s twice", k)
                got[k] = (int(m.group(3)), int(m.group(4)), float(m.group(5)))
                order.append(ln)
        dur = lambda p: float(c["events"][p[1]]["t"] - c["events"][p[0]]["t"])
        exp = {}
        for k, v in ed.items():
            cp = {(x, y) for x, y, i in v}
            exp[k] = (len(cp), len({i for x, y, i in v}), round(sum(dur(p) for p in cp) / len(cp), 2))
        req_eq({k: v[:2] for k, v in got.items()}, {k: v[:2] for k, v in exp.items()}, "edges of the directly-follows graphs (header %s)" % hd)
        for k in got:
            require(abs(got[k][2] - exp[k][2]) < 0.011, "duration of %s: %s, expected %s", k, got[k][2], exp[k][2])
    cut = llm.abstract_ocel_ocdfg(o, include_header=True, max_len=case["max"])
    lines = [x for x in cut.split("\n") if x.startswith('  "')]
    fr = lambda x: int(re.search(r"events\) = (\d+)", x).group(1))
    if len(lines) < len(ed):
        require(sum(len(x) + 1 for x in lines) >= case["max"], "edges dropped below the limit")
        keep = sorted(map(fr, lines), reverse=True)
        req_eq(keep, sorted((v[0] for v in exp.values()), reverse=True)[:len(keep)], "most frequent edges are kept")
    ctx.nontrivial(len(ed) > 1)
    # features
    t = O[0]["type"]
    txt = llm.abstract_ocel_features(o, t, include_header=case["head"], max_len=10 ** 7)
    got, order = read_features(txt)
    exp = {}
    ids = [i for i, x in enumerate(O) if x["type"] == t]
    inter, desc, inh = set(), set(), set()
    rank = {e: k for k, e in enumerate(sorted(range(len(c["events"])), key=lambda k: (c["events"][k]["t"], k)))}
    for e in c["events"]:
        for i in e["objs"]:
            for j in e["objs"]:
                if i != j:
                    inter.add((i, j))
    for i, j in inter:
        if rank[perobj[i][-1]] == rank[perobj[j][0]]:
            inh.add((i, j))
    inh = {(i, j) for i, j in inh if (j, i) not in inh}

    def feat(name, f):
        v = [float(f(i)) for i in ids]
        v = [x for x in v if x > 0]
        if v:
            exp[name] = v
    feat("Number of unique activities in the lifecycle of the object", lambda i: len({c["events"][e]["act"] for e in perobj.get(i, [])}))
    feat("Number of events in the lifecycle of the object", lambda i: len(perobj.get(i, [])))
    feat("Duration of the lifecycle of the object", lambda i: c["events"][perobj[i][-1]]["t"] - c["events"][perobj[i][0]]["t"] if perobj.get(i) else 0)
    feat("Number of objects related in the object interaction graph", lambda i: sum(1 for x, y in inter if x == i))
    for a in {e["act"] for e in c["events"]}:
        feat("Number of occurrences of the activity " + a, lambda i: sum(c["events"][e]["act"] == a for e in perobj.get(i, [])))
    feat("Number of objects which follow the current object in the object inheritance graph", lambda i: sum(1 for x, y in inh if x == i))
    feat("Number of objects which precede the current object in the object inheritance graph", lambda i: sum(1 for x, y in inh if y == i))
    names = set(exp)
    known = re.compile(r"^Number of (unique activities|events in|objects related|occurrences of|objects which (follow|precede) the current object in the object inheritance)|^Duration of the lifecycle")
    cmp_features({k: v for k, v in got.items() if known.match(k)}, exp, "features of " + t)
    # every feature is described
    require(not [k for k in got if k.startswith("@@object_general_") or k.startswith("@@object_lifecycle")], "undescribed features %s", list(got))


UNITS = [Unit("dfg", log_st(), check_dfg, 250, rule="more than two paths"),
         Unit("variants", log_st(), check_variants, 250, rule="several variants, one of several cases"),
         Unit("stream", log_st(), check_stream, 150, rule="stream cut by the limit"),
         Unit("case", log_st(), check_case_text, 60, rule="several events with attributes"),
         Unit("attributes", cols_st(), check_cols, 150, rule="more than three attributes"),
         Unit("features", log_st(), check_fea, 100, rule="more than four features"),
         Unit("models", model_st(), check_models, 120, rule="net with arcs and several pairs"),
         Unit("ocel", ocel_st(), check_ocel, 150, rule="several edges")]
