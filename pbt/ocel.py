"""object-centric event logs: plain cases -> OCEL, and OCEL -> canonical plain form"""
import datetime
from collections import Counter
from hypothesis import strategies as st
from build import ts

TYPES = ["order", "item", "order item", "Delivery"]
ACTS = ["Create Order", "pick", "Pack it", "ship", "pay"]
STR = st.sampled_from(["x", "two words", "Ä-ö", "7", "a,b", "<&>", "it's", '"q"'])
QUAL = ["uses", "main order", "has"]


@st.composite
def spec(draw, max_ev=8, max_ob=6, acts=ACTS, types=TYPES, attrs=True, two=False, quals=False, all_rel=False, max_t=40, min_ev=1, min_ob=1, e2e=False, dates=False, noqual=False, micro=False, multi=False):
    qual = st.sampled_from(QUAL + ([None] if noqual else []))
    nt = draw(st.integers(1, len(types)))
    tps = types[:nt]
    objs = []
    for i in range(draw(st.integers(min_ob, max_ob))):
        o = {"id": "o%d" % i, "type": draw(st.sampled_from(tps))}
        if attrs:
            o["attrs"] = {}
            if draw(st.booleans()):
                o["attrs"]["weight"] = draw(st.integers(0, 9)) / 2 if draw(st.booleans()) else draw(st.sampled_from([1.1, 0.3, 100000.0]))
            if draw(st.booleans()):
                o["attrs"]["colour"] = draw(STR)
            if dates and draw(st.booleans()):
                o["attrs"]["@made"] = draw(st.integers(0, 10 ** 6))
        objs.append(o)
    evs = []
    for i in range(draw(st.integers(min_ev, max_ev))):
        e = {"id": "e%d" % i, "act": draw(st.sampled_from(acts)), "t": draw(st.integers(0, max_t))}
        if attrs:
            e["attrs"] = {}
            if draw(st.booleans()):
                e["attrs"]["amount"] = draw(st.integers(0, 9)) / 2
            if draw(st.booleans()):
                e["attrs"]["note"] = draw(STR)
            if dates and draw(st.booleans()):
                e["attrs"]["@due"] = draw(st.integers(0, 10 ** 6))
        if micro and draw(st.booleans()):
            e["t"] += draw(st.sampled_from([0.25, 0.5, 0.001]))
        k = draw(st.integers(1 if all_rel else 0, min(3, len(objs)))) if objs else 0
        if i == 0 and objs:
            k = max(1, k)
        e["objs"] = draw(st.lists(st.integers(0, len(objs) - 1), min_size=k, max_size=k, unique=True)) if objs else []
        e["quals"] = [draw(qual) for _ in e["objs"]] if quals else []
        if multi and quals and e["objs"] and draw(st.sampled_from([False] * 4 + [True])):
            e["objs"].append(e["objs"][0])
            e["quals"].append(draw(st.sampled_from([q for q in QUAL if q != e["quals"][0]])))
        evs.append(e)
    evs.sort(key=lambda e: e["t"])
    ret = {"events": evs, "objects": objs}
    n = len(objs)
    if two and n:
        ret["o2o"] = [list(x) for x in draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(0, n - 1), qual), max_size=3, unique=True))]
        ch = draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(1, max_t), st.sampled_from(["weight", "colour", "size"])), max_size=3, unique=True))
        ret["changes"] = sorted(([o, t, f, draw(STR) if f == "colour" else draw(st.integers(0, 9)) / 2] for o, t, f in ch), key=lambda c: c[1])
    if e2e:
        m = len(evs)
        ret["e2e"] = [list(x) for x in draw(st.lists(st.tuples(st.integers(0, m - 1), st.integers(0, m - 1), st.sampled_from(QUAL)), max_size=3, unique=True))]
    return ret


def build(c, string=True):
    import pandas as pd
    from pm4py.objects.ocel.obj import OCEL

    def fr(rows, cols, times=()):
        cols = list(cols)
        times = list(times) + sorted({k for r in rows for k in r if k.startswith("@")})
        rows = [{k: ts(v) if k.startswith("@") else v for k, v in r.items()} for r in rows]
        for r in rows:
            for k in r:
                if k not in cols:
                    cols.append(k)
        d = pd.DataFrame({k: [r.get(k) for r in rows] for k in cols})
        for t in times:
            d[t] = pd.to_datetime(d[t], utc=True)
        for k in cols:
            if k.startswith("ocel:") and k not in times and len(rows) and string:
                d[k] = d[k].astype("string") if k != "ocel:qualifier" else d[k]
            elif k in ("amount", "weight", "size"):
                d[k] = d[k].astype(float)
        return d
    ev = fr([{"ocel:eid": e["id"], "ocel:activity": e["act"], "ocel:timestamp": ts(e["t"]), **e.get("attrs", {})} for e in c["events"]], ["ocel:eid", "ocel:activity", "ocel:timestamp"], ["ocel:timestamp"])
    ob = fr([{"ocel:oid": o["id"], "ocel:type": o["type"], **o.get("attrs", {})} for o in c["objects"]], ["ocel:oid", "ocel:type"])
    rl = []
    for e in c["events"]:
        for k, i in enumerate(e["objs"]):
            o = c["objects"][i]
            rl.append({"ocel:eid": e["id"], "ocel:activity": e["act"], "ocel:timestamp": ts(e["t"]), "ocel:oid": o["id"], "ocel:type": o["type"], "ocel:qualifier": e["quals"][k] if e.get("quals") else None})
    rel = fr(rl, ["ocel:eid", "ocel:activity", "ocel:timestamp", "ocel:oid", "ocel:type", "ocel:qualifier"], ["ocel:timestamp"])
    kw = {}
    O, E = c["objects"], c["events"]
    if c.get("o2o"):
        kw["o2o"] = fr([{"ocel:oid": O[i]["id"], "ocel:oid_2": O[j]["id"], "ocel:qualifier": q} for i, j, q in c["o2o"]], ["ocel:oid", "ocel:oid_2", "ocel:qualifier"])
    if c.get("e2e"):
        kw["e2e"] = fr([{"ocel:eid": E[i]["id"], "ocel:eid_2": E[j]["id"], "ocel:qualifier": q} for i, j, q in c["e2e"]], ["ocel:eid", "ocel:eid_2", "ocel:qualifier"])
    if c.get("changes"):
        kw["object_changes"] = fr([{"ocel:oid": O[i]["id"], "ocel:type": O[i]["type"], "ocel:timestamp": ts(t), "ocel:field": f, f: v} for i, t, f, v in c["changes"]], ["ocel:oid", "ocel:type", "ocel:timestamp", "ocel:field"], ["ocel:timestamp"])
    return OCEL(events=ev, objects=ob, relations=rel, **kw)


def val(v):
    import pandas as pd
    if v is None or v is pd.NaT or (isinstance(v, float) and v != v) or v is pd.NA:
        return None
    if isinstance(v, (pd.Timestamp, datetime.datetime)):
        t = pd.Timestamp(v)
        t = t.tz_localize("UTC") if t.tzinfo is None else t.tz_convert("UTC")
        return int(t.value // 1000)
    if hasattr(v, "item"):
        v = v.item()
    if isinstance(v, (int, float)) and not isinstance(v, bool):
        return float(v)
    return v


def rows(d):
    if d is None:
        return []
    return [{k: val(v) for k, v in r.items() if val(v) is not None} for r in d.to_dict("records")]


def norm(o):
    """canonical content"""
    ev = {}
    for r in rows(o.events):
        assert r["ocel:eid"] not in ev, ("duplicate event", r["ocel:eid"])
        ev[r["ocel:eid"]] = (r["ocel:activity"], r["ocel:timestamp"], {k: v for k, v in r.items() if not k.startswith("ocel:")})
    ob = {}
    for r in rows(o.objects):
        assert r["ocel:oid"] not in ob, ("duplicate object", r["ocel:oid"])
        ob[r["ocel:oid"]] = (r["ocel:type"], {k: v for k, v in r.items() if not k.startswith("ocel:")})
    g = lambda r, *ks: tuple(r.get(k) for k in ks)
    return {"events": ev, "objects": ob,
            "relations": Counter(g(r, "ocel:eid", "ocel:activity", "ocel:timestamp", "ocel:oid", "ocel:type", "ocel:qualifier") for r in rows(o.relations)),
            "o2o": Counter(g(r, "ocel:oid", "ocel:oid_2", "ocel:qualifier") for r in rows(o.o2o)),
            "e2e": Counter(g(r, "ocel:eid", "ocel:eid_2", "ocel:qualifier") for r in rows(o.e2e)),
            "changes": Counter(g(r, "ocel:oid", "ocel:type", "ocel:timestamp", "ocel:field") + (r.get(r.get("ocel:field")),) for r in rows(o.object_changes))}


def usec(t):
    return val(ts(t))


def attrs_(x):
    return {k: usec(v) if k.startswith("@") else val(v) for k, v in x.get("attrs", {}).items()}


def ref(c):
    """canonical content computed from the case"""
    O, E = c["objects"], c["events"]
    rel = Counter()
    for e in E:
        for k, i in enumerate(e["objs"]):
            rel[(e["id"], e["act"], usec(e["t"]), O[i]["id"], O[i]["type"], e["quals"][k] if e.get("quals") else None)] += 1
    return {"events": {e["id"]: (e["act"], usec(e["t"]), attrs_(e)) for e in E},
            "objects": {o["id"]: (o["type"], attrs_(o)) for o in O},
            "relations": rel,
            "o2o": Counter((O[i]["id"], O[j]["id"], q) for i, j, q in c.get("o2o", [])),
            "e2e": Counter((E[i]["id"], E[j]["id"], q) for i, j, q in c.get("e2e", [])),
            "changes": Counter((O[i]["id"], O[i]["type"], usec(t), f, v) for i, t, f, v in c.get("changes", []))}


def restrict(n, ev, ob):
    """canonical content limited to the given event and object ids"""
    return {"events": {k: v for k, v in n["events"].items() if k in ev},
            "objects": {k: v for k, v in n["objects"].items() if k in ob},
            "relations": Counter({k: v for k, v in n["relations"].items() if k[0] in ev and k[3] in ob}),
            "o2o": Counter({k: v for k, v in n["o2o"].items() if k[0] in ob and k[1] in ob}),
            "e2e": Counter({k: v for k, v in n["e2e"].items() if k[0] in ev and k[1] in ev}),
            "changes": Counter({k: v for k, v in n["changes"].items() if k[0] in ob})}


def related(c):
    ev = {e["id"] for e in c["events"] if e["objs"]}
    ob = {c["objects"][i]["id"] for e in c["events"] for i in e["objs"]}
    return ev, ob
