"""builders: plain cases -> pm4py objects"""
import datetime
from gen import BASE

UTC = datetime.timezone.utc


def ts(sec):
    return datetime.datetime.fromtimestamp(BASE + sec, tz=UTC)


def df(log, ck="case:concept:name", ak="concept:name", tk="time:timestamp", rk="org:resource", sk="start_timestamp", order=None):
    """DataFrame whose rows are grouped by case (order=None) or globally permuted by `order` keeping the within-case order"""
    import pandas as pd
    rows = []
    for c in log["cases"]:
        for e in c["events"]:
            r = {ck: c["id"], ak: e["a"], tk: ts(e["t"])}
            if "s" in e:
                r[sk] = ts(e["s"])
            if "r" in e:
                r[rk] = e["r"]
            if "x" in e:
                r["x"] = e["x"]
            rows.append(r)
    d = pd.DataFrame(rows)
    d[tk] = pd.to_datetime(d[tk], utc=True)
    if sk in d.columns:
        d[sk] = pd.to_datetime(d[sk], utc=True)
    d[ck] = d[ck].astype("string")
    d[ak] = d[ak].astype("string")
    return d


def fdf(log, **kw):
    """formatted dataframe: what pm4py's readers hand out"""
    import pm4py
    ck, ak, tk = kw.get("ck", "case:concept:name"), kw.get("ak", "concept:name"), kw.get("tk", "time:timestamp")
    return pm4py.format_dataframe(df(log, **kw), case_id=ck, activity_key=ak, timestamp_key=tk)


def elog(log, ak="concept:name", tk="time:timestamp", rk="org:resource", sk="start_timestamp", ik="concept:name"):
    from pm4py.objects.log.obj import EventLog, Trace, Event
    out = EventLog()
    for c in log["cases"]:
        t = Trace(attributes={ik: c["id"]})
        for e in c["events"]:
            ev = {ak: e["a"], tk: ts(e["t"])}
            if "s" in e:
                ev[sk] = ts(e["s"])
            if "r" in e:
                ev[rk] = e["r"]
            if "x" in e:
                ev["x"] = e["x"]
            t.append(Event(ev))
        out.append(t)
    return out


def variants_log(trs, ak="concept:name"):
    """simple EventLog from activity sequences"""
    from pm4py.objects.log.obj import EventLog, Trace, Event
    out = EventLog()
    k = 0
    for i, tr in enumerate(trs):
        t = Trace(attributes={"concept:name": str(i)})
        for a in tr:
            t.append(Event({ak: a, "time:timestamp": ts(k * 60)}))
            k += 1
        out.append(t)
    return out


def variants_df(trs):
    import pandas as pd
    rows, k = [], 0
    for i, tr in enumerate(trs):
        for a in tr:
            rows.append({"case:concept:name": "c%03d" % i, "concept:name": a, "time:timestamp": ts(k * 60)})
            k += 1
    d = pd.DataFrame(rows, columns=["case:concept:name", "concept:name", "time:timestamp"])
    d["time:timestamp"] = pd.to_datetime(d["time:timestamp"], utc=True)
    d["case:concept:name"] = d["case:concept:name"].astype("string")
    d["concept:name"] = d["concept:name"].astype("string")
    return d


def acts_of(log):
    return [[e["a"] for e in c["events"]] for c in log["cases"]]


def tree(t):
    from pm4py.objects.process_tree.obj import ProcessTree, Operator
    m = {"->": Operator.SEQUENCE, "X": Operator.XOR, "+": Operator.PARALLEL, "*": Operator.LOOP, "O": Operator.OR, "<>": Operator.INTERLEAVING}

    def go(x, parent):
        if x is None or isinstance(x, str):
            return ProcessTree(label=x, parent=parent)
        n = ProcessTree(operator=m[x[0]], parent=parent)
        for c in x[1:]:
            n.children.append(go(c, n))
        return n
    return go(t, None)


def untree(n):
    if n.operator is None:
        return n.label
    return [n.operator.value] + [untree(c) for c in n.children]


def net(spec):
    """spec: {"places":[names], "trans":[[name,label|None],...], "arcs":[[src_kind,src_idx,dst_idx,weight]] , "im":{idx:n}, "fm":..}
    arcs: ["pt", p, t, w] or ["tp", t, p, w]"""
    from pm4py.objects.petri_net.obj import PetriNet, Marking
    from pm4py.objects.petri_net.utils import petri_utils
    n = PetriNet(spec.get("name", "net"))
    ps = [PetriNet.Place(x) for x in spec["places"]]
    tsn = [PetriNet.Transition(x, l) for x, l in spec["trans"]]
    for p in ps:
        n.places.add(p)
    for t in tsn:
        n.transitions.add(t)
    for kind, a, b, w in spec["arcs"]:
        if kind == "pt":
            petri_utils.add_arc_from_to(ps[a], tsn[b], n, weight=w)
        else:
            petri_utils.add_arc_from_to(tsn[a], ps[b], n, weight=w)
    im = Marking({ps[int(k)]: v for k, v in spec["im"].items()})
    fm = Marking({ps[int(k)]: v for k, v in spec["fm"].items()})
    return n, im, fm, ps, tsn
