"""logs with typed, optional case and event attributes (JSON-able)
{"cases":[{"id","attrs":{name:val},"events":[{name:val}]}]}; val: str|int|float|bool|{"d":microseconds from BASE}"""
import datetime, math
from hypothesis import strategies as st
import gen
from gen import BASE

STRS = st.one_of(st.sampled_from(gen.ODD + ["a", "b", "x", "y z", "true", "1.5", "nan", "<a>", "&amp;", "\"", "it's", "日本", "\U0001f600", "#", "%s", "\\n", "-"]),
                 st.text(alphabet=st.characters(min_codepoint=33, max_codepoint=0x24F, exclude_characters="\x7f\x85\xa0\xad", exclude_categories=["C", "Z"]), min_size=1, max_size=8))
INTS = st.one_of(st.integers(-3, 3), st.integers(-2 ** 40, 2 ** 40))
FLOATS = st.one_of(st.sampled_from([0.0, 1.0, -1.5, 1e-9, 1e20, 0.1]), st.floats(allow_nan=False, allow_infinity=False, width=64))
DATES = st.builds(lambda s, us: {"d": s * 1000000 + us}, st.integers(-10 ** 8, 10 ** 8), st.sampled_from([0, 0, 1000, 123456]))
BYT = {"s": STRS, "i": INTS, "f": FLOATS, "b": st.booleans(), "d": DATES}


@st.composite
def tlog(draw, strs=STRS, types="sifbd", max_cases=4, max_events=4, names=None, min_events=1):
    BT = dict(BYT, s=strs)
    cn = draw(st.lists(st.tuples(st.sampled_from(["amount", "note", "org:role", "x y", "vip", "case:k", "Ünï"]), st.sampled_from(list(types))), max_size=3, unique_by=lambda x: x[0]))
    en = draw(st.lists(st.tuples(st.sampled_from(["org:resource", "cost:total", "lifecycle:transition", "flag", "when", "q", "é"]), st.sampled_from(list(types))), max_size=4, unique_by=lambda x: x[0]))
    out = []
    ids = draw(st.lists(st.one_of(st.integers(0, 30).map(str), strs), min_size=1, max_size=max_cases, unique=True))
    for i in ids:
        at = {n: draw(BT[t]) for n, t in cn if draw(st.integers(0, 3)) > 0}
        evs, t = [], draw(st.integers(0, 10 ** 6))
        for _ in range(draw(st.integers(min_events, max_events))):
            t += draw(st.sampled_from([0, 0, 1, 60, 86400, 0.001]))
            e = {"concept:name": draw(st.one_of(st.sampled_from(gen.ACTS), strs)), "time:timestamp": {"d": int(t * 1000000)}}
            e.update({n: draw(BT[ty]) for n, ty in en if draw(st.integers(0, 3)) > 0})
            evs.append(e)
        out.append({"id": i, "attrs": at, "events": evs})
    return {"cases": out}


def dt(v):
    return datetime.datetime.fromtimestamp(BASE, tz=datetime.timezone.utc) + datetime.timedelta(microseconds=v["d"])


def val(v):
    return dt(v) if isinstance(v, dict) else v


def elog(spec, tz=None, naive=False):
    from pm4py.objects.log.obj import EventLog, Trace, Event
    out = EventLog()

    def cv(v):
        x = val(v)
        if isinstance(v, dict) and tz is not None:
            x = x.astimezone(datetime.timezone(datetime.timedelta(minutes=tz)))
        return x
    for c in spec["cases"]:
        t = Trace(attributes={"concept:name": c["id"], **{k: cv(v) for k, v in c["attrs"].items()}})
        for e in c["events"]:
            t.append(Event({k: cv(v) for k, v in e.items()}))
        out.append(t)
    return out


def plain(spec):
    return [({"concept:name": norm(c["id"]), **{k: norm(val(v)) for k, v in c["attrs"].items()}},
             [{k: norm(val(v)) for k, v in e.items()} for e in c["events"]]) for c in spec["cases"]]


def norm(x, loose=False):
    """comparable form: (kind, value); numbers and booleans keep their kind unless loose"""
    import numpy as np
    import pandas as pd
    if isinstance(x, (bool, np.bool_)):
        return ("n", float(x)) if loose else ("b", bool(x))
    if isinstance(x, (int, np.integer)):
        return ("n", float(x)) if loose else ("i", int(x))
    if isinstance(x, (float, np.floating)):
        return ("n", float(x) + 0.0) if loose else ("f", float(x) + 0.0)
    if isinstance(x, pd.Timestamp):
        x = x.to_pydatetime(warn=False)
    if isinstance(x, datetime.datetime):
        if x.tzinfo is None:
            return ("naive", x.isoformat())
        return ("d", x.astimezone(datetime.timezone.utc).isoformat())
    if isinstance(x, str):
        return ("s", x)
    return (type(x).__name__, repr(x))


def of_elog(log, drop=(), loose=False):
    return [({k: norm(v, loose) for k, v in t.attributes.items() if k not in drop}, [{k: norm(v, loose) for k, v in e.items() if k not in drop} for e in t]) for t in log]


def null(x):
    import pandas as pd
    try:
        return bool(pd.isna(x))
    except (TypeError, ValueError):
        return False


def rows(df, drop=(), loose=True):
    """rows of a dataframe as dicts without nulls"""
    return [{k: norm(v, loose) for k, v in r.items() if k not in drop and not null(v)} for r in df.to_dict("records")]


def flat(spec, loose=True, pref="case:"):
    """expected rows"""
    out = []
    for c in spec["cases"]:
        for e in c["events"]:
            r = {k: norm(val(v), loose) for k, v in e.items()}
            r[pref + "concept:name"] = norm(c["id"], loose)
            r.update({pref + k: norm(val(v), loose) for k, v in c["attrs"].items()})
            out.append(r)
    return out


def loosen(pl):
    def f(p):
        return ("n", float(p[1])) if p[0] in "bif" else p
    return [({k: f(v) for k, v in a.items()}, [{k: f(v) for k, v in e.items()} for e in es]) for a, es in pl]
