"""shared by the filter checks: objects with event ids, missing attributes and case attributes, and reading back the result"""
import build, gen
from hypothesis import strategies as st


@st.composite
def flog(draw, **kw):
    kw.setdefault("odd", 0.3)
    log = draw(gen.log(n_act=4, max_len=6, max_traces=6, resources=True, extra=True, **kw))
    n = 0
    for c in log["cases"]:
        if draw(st.integers(0, 4)):
            c["color"] = draw(st.sampled_from(["red", "green", "blue"]))
        for e in c["events"]:
            e["id"] = n
            n += 1
            if e["x"] >= 5:
                del e["x"]
            if draw(st.integers(0, 9)) == 0:
                del e["r"]
    return log


def frame(log, formatted=True):
    import pm4py
    d = build.df(log)
    for k in ("x", "org:resource"):
        if k not in d.columns:
            d[k] = None
    d["eid"] = [e["id"] for c in log["cases"] for e in c["events"]]
    d["case:color"] = [c.get("color") for c in log["cases"] for e in c["events"]]
    if not formatted:
        return d
    return pm4py.format_dataframe(d, case_id="case:concept:name", activity_key="concept:name", timestamp_key="time:timestamp")


def elog(log):
    el = build.elog(log)
    for c, t in zip(log["cases"], el):
        if "color" in c:
            t.attributes["color"] = c["color"]
        for e, v in zip(c["events"], t):
            v["eid"] = e["id"]
    el.attributes["meta"] = "m"
    el.extensions["Concept"] = {"prefix": "concept", "uri": "http://x"}
    el.classifiers["Act"] = ["concept:name"]
    el.omni_present["event"] = {"concept:name": "d"}
    el.properties["pm4py:param:activity_key"] = "concept:name"
    return el


def meta(el):
    return (dict(el.attributes), dict(el.extensions), dict(el.classifiers), dict(el.omni_present))


def content(o):
    """{case id: [event ids in order]}"""
    if hasattr(o, "columns"):
        out = {}
        for c, i in zip(o["case:concept:name"].tolist(), o["eid"].tolist()):
            out.setdefault(str(c), []).append(int(i))
        return out
    out = {}
    for t in o:
        assert t.attributes["concept:name"] not in out
        out[t.attributes["concept:name"]] = [e["eid"] for e in t]
    return out
