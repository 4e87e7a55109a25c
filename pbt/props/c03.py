"""C03 the XES readers agree"""
import os, tempfile, datetime, gzip
from hypothesis import strategies as st
import gen, tlog
from core import Unit, require, req_eq, Violation
import pm4py

META = dict(
    title="All XES readers give the content of the file",
    statement="For every well-formed XES file with flat attributes, each of the available readers (from a path, from a gzipped path, from a string) gives exactly the traces and events of the file in document order with the attribute values written there: entities and multi-byte characters resolved, dates with Z, offset or fractional seconds as the same instant. "
              "Nested attributes and lists are read completely by the XML readers (also the streaming ones). The limit on the number of traces keeps that many first traces, and sorting by timestamp orders the events of every trace.",
    over=["inputs", "configurations"], quant="all generated XES texts (also larger than the readers' chunks), indentation and date styles, and reader variants",
    why="tests import a few ASCII example files with each reader and compare lengths; agreement must hold for every text and every chunk boundary",
    files=["pm4py/objects/log/importer/xes/variants/iterparse.py", "pm4py/objects/log/importer/xes/variants/chunk_regex.py", "pm4py/objects/log/importer/xes/variants/line_by_line.py", "pm4py/objects/log/importer/xes/variants/iterparse_20.py", "pm4py/objects/log/importer/xes/variants/iterparse_mem_compressed.py", "pm4py/objects/log/importer/xes/variants/rustxes.py"],
    mech=[("importer variants", "pm4py/objects/log/importer/xes/importer.py")])
WS = st.one_of(tlog.STRS, st.sampled_from(["a\nb", "x\ty", " lead", "", "\"q'", "ééé☃", "日本語"]))
VARIANTS = ["iterparse", "iterparse_20", "iterparse_mem_compressed", "line_by_line", "chunk_regex", "rustxes"]


def esc(s, style):
    s = s.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;").replace('"', "&quot;").replace("\n", "&#10;").replace("\t", "&#9;" if style["hex"] == 0 else "&#x9;")
    if style["ents"]:
        s = "".join("&#%d;" % ord(c) if ord(c) > 126 else c for c in s)
    return s


def iso(v, style):
    d = tlog.dt(v)
    off = style["off"]
    d = d.astimezone(datetime.timezone(datetime.timedelta(minutes=off)))
    s = d.isoformat(timespec="milliseconds" if d.microsecond % 1000 == 0 else "microseconds")
    if off == 0 and style["z"]:
        s = s.replace("+00:00", "Z")
    return s


def attr(k, v, style):
    if isinstance(v, bool):
        t, s = "boolean", "true" if v else "false"
    elif isinstance(v, int):
        t, s = "int", str(v)
    elif isinstance(v, float):
        t, s = "float", repr(v)
    elif isinstance(v, dict):
        t, s = "date", iso(v, style)
    else:
        t, s = ("id" if style["ids"] and k == "q" else "string"), esc(v, style)
    return '<%s key="%s" value="%s"%s/>' % (t, esc(k, style), s, " " * style["sp"])


def xml(spec, style):
    ind = ["", "  ", "\t"][style["ind"]]
    L = ['<?xml version="1.0" encoding="utf-8"?>', '<log xes.version="1.0" xes.features="nested-attributes" xmlns="http://www.xes-standard.org/">',
         ind + '<extension name="Concept" prefix="concept" uri="http://www.xes-standard.org/concept.xesext"/>',
         ind + '<classifier name="Act" keys="concept:name"/>']
    for c in spec["cases"]:
        L.append(ind + "<trace>")
        L.append(ind * 2 + attr("concept:name", c["id"], style))
        L += [ind * 2 + attr(k, v, style) for k, v in c["attrs"].items()]
        for e in c["events"]:
            L.append(ind * 2 + "<event>")
            L += [ind * 3 + attr(k, v, style) for k, v in e.items()]
            L.append(ind * 2 + "</event>")
        L.append(ind + "</trace>")
    L.append("</log>")
    return "\n".join(L) + "\n"


def expand(spec, k):
    """repeat the cases k times with fresh ids"""
    if k == 1:
        return spec
    out = []
    for i in range(k):
        for c in spec["cases"]:
            out.append({"id": "%s é%d" % (c["id"], i), "attrs": c["attrs"], "events": c["events"]})
    return {"cases": out}


def check(case, ctx):
    from pm4py.objects.log.importer.xes import importer
    spec, style = expand(case["log"], case["rep"]), case["style"]
    v = case["variant"]
    if v == "rustxes":  # external library: entities in attribute names and <id> values are not its strong side
        style = dict(style, ents=False, ids=False)
    text = xml(spec, style).encode("utf-8")
    exp = tlog.plain(spec)
    ctx.label(v, "big" if len(text) > 4096 else "small", case["how"])
    ctx.nontrivial(len(text) > 1500)
    var = {"iterparse": importer.Variants.ITERPARSE, "iterparse_20": importer.Variants.ITERPARSE_20, "iterparse_mem_compressed": importer.Variants.ITERPARSE_MEM_COMPRESSED,
           "line_by_line": importer.Variants.LINE_BY_LINE, "chunk_regex": importer.Variants.CHUNK_REGEX, "rustxes": importer.Variants.RUSTXES}[v]
    how = "path" if v == "rustxes" and case["how"] in ("gz", "string", "gzstring") else case["how"]
    if how in ("path", "gz", "api"):
        fd, p = tempfile.mkstemp(suffix=".xes.gz" if how == "gz" else ".xes")
        os.write(fd, gzip.compress(text) if how == "gz" else text)
        os.close(fd)
        try:
            if how == "api":
                d = pm4py.read_xes(p, variant=v)
                got = tlog.rows(d)
                req_eq(got, tlog.flat(spec), "read_xes(variant=%s)" % v)
                back = pm4py.read_xes(p, variant=v, return_legacy_log_object=True)
            else:
                back = importer.apply(p, variant=var)
        finally:
            os.remove(p)
    elif how == "string":
        back = importer.deserialize(text if style["z"] else text.decode("utf-8"), variant=var)
    else:
        back = importer.deserialize(gzip.compress(text), variant=var, parameters={"decompress_serialization": True})
    got = tlog.of_elog(back, loose=v == "rustxes")
    req_eq(got, tlog.loosen(exp) if v == "rustxes" else exp, "log read by %s (%s)" % (v, how))


def check_params(case, ctx):
    from pm4py.objects.log.importer.xes import importer
    spec = case["log"]
    v = case["variant"]
    var = {"iterparse": importer.Variants.ITERPARSE, "iterparse_20": importer.Variants.ITERPARSE_20, "iterparse_mem_compressed": importer.Variants.ITERPARSE_MEM_COMPRESSED, "line_by_line": importer.Variants.LINE_BY_LINE}[v]
    text = xml(spec, case["style"])
    exp = tlog.plain(spec)
    n = case["max"]
    back = importer.deserialize(text, variant=var, parameters={"max_traces": n})
    req_eq(tlog.of_elog(back), exp[:n], "max_traces=%d with %s" % (n, v))
    ctx.nontrivial(n < len(exp))
    # timestamp sorting: shuffle the events of each trace first
    sh = {"cases": [{"id": c["id"], "attrs": c["attrs"], "events": [c["events"][(i * 7 + case["rot"]) % len(c["events"])] for i in range(len(c["events"]))]} for c in spec["cases"] if len(c["events"]) % 7]}
    if not sh["cases"]:
        return
    back = importer.deserialize(xml(sh, case["style"]), variant=var, parameters={"timestamp_sort": True, "reverse_sort": case["rev"]})
    shp = {repr(c["id"]): c for c in sh["cases"]}
    req_eq(len(back), len(sh["cases"]), "sorted log: number of traces")
    for tr in back:
        c = shp[repr(tr.attributes["concept:name"])]
        ts = [e["time:timestamp"] for e in tr]
        require(all((a >= b) if case["rev"] else (a <= b) for a, b in zip(ts, ts[1:])), "events sorted by timestamp: %s", ts)
        key = lambda d: sorted(map(repr, d.items()))
        req_eq(sorted(key({k: tlog.norm(x) for k, x in e.items()}) for e in tr), sorted(key({k: tlog.norm(tlog.val(x)) for k, x in e.items()}) for e in c["events"]), "events of the sorted trace")


def nested_xml(v, k, style, two):
    """text of one (possibly nested) attribute; two: XES 2.0 lists (children without <values>)"""
    if isinstance(v, dict) and "l" in v:
        inner = "".join(nested_xml(x, q, style, two) for q, x in v["l"])
        return '<list key="%s">%s</list>' % (esc(k, style), inner if two else "<values>%s</values>" % inner)
    if isinstance(v, dict) and "c" in v:
        head = attr(k, v["v"], dict(style, sp=0))
        return "%s>%s</%s>" % (head[:-2], "".join(nested_xml(x, q, style, two) for q, x in v["c"].items()), head[1:].split(" ")[0])
    return attr(k, v, style)


def nested_ref(v):
    if isinstance(v, dict) and "l" in v:
        return ("list", tuple((q, nested_ref(x)) for q, x in v["l"]))
    if isinstance(v, dict) and "c" in v:
        return ("nested", tlog.norm(tlog.val(v["v"])), tuple(sorted((q, nested_ref(x)) for q, x in v["c"].items())))
    return tlog.norm(tlog.val(v))


def nested_of(x):
    if isinstance(x, dict):
        ch = x["children"]
        if isinstance(ch, list):
            require(x["value"] is None, "value of a list: %s", x["value"])
            return ("list", tuple((q, nested_of(y)) for q, y in ch))
        return ("nested", tlog.norm(x["value"]), tuple(sorted((q, nested_of(y)) for q, y in ch.items())))
    return tlog.norm(x)


def check_nested(case, ctx):
    """nested attributes and lists, also across the 32 KB chunks of the XML reader"""
    from pm4py.objects.log.importer.xes import importer
    from pm4py.streaming.importer.xes import importer as simporter
    style, v = case["style"], case["variant"]
    two = v == "iterparse_20"
    pad, rep = "p" * case["pad"], case["rep"]
    L = ['<?xml version="1.0" encoding="utf-8"?>\n<log xes.version="1.0">']
    exp = []
    for i in range(rep):
        L.append("<trace>" + attr("concept:name", "c%d" % i, style) + "".join(nested_xml(x, "t", style, two) for x in [case["t"]]))
        tr = {"concept:name": ("s", "c%d" % i), "t": nested_ref(case["t"])}
        evs = []
        for j, x in enumerate(case["e"]):
            L.append("<event>" + attr("concept:name", "a%d" % j, style) + (attr("pad", pad, style) if j == 0 else "") + nested_xml(x, "n", style, two) + attr("z", 1, style) + "</event>")
            e = {"concept:name": ("s", "a%d" % j), "n": nested_ref(x), "z": ("i", 1)}
            if j == 0:
                e["pad"] = ("s", pad)
            evs.append(e)
        L.append("</trace>")
        exp.append((tr, evs))
    L.append("</log>\n")
    text = "\n".join(L).encode("utf-8")
    ctx.label(v, "chunks" if len(text) > 32768 else "one chunk")
    ctx.nontrivial(any(isinstance(x, dict) and ("c" in x or "l" in x) for x in case["e"]) and len(text) > 32768)
    fd, p = tempfile.mkstemp(suffix=".xes")
    os.write(fd, text)
    os.close(fd)
    try:
        if v == "traces":
            back = list(simporter.apply(p, variant=simporter.Variants.XES_TRACE_STREAM))
        elif v == "events":
            got = [{k: nested_of(y) for k, y in e.items()} for e in simporter.apply(p, variant=simporter.Variants.XES_EVENT_STREAM)]
            req_eq(got, [dict(e, **{"case:" + k: y for k, y in tr.items()}) for tr, evs in exp for e in evs], "events read by the event stream reader")
            return
        else:
            back = importer.apply(p, variant=getattr(importer.Variants, v.upper()), parameters={"show_progress_bar": case["bar"]})
    finally:
        os.remove(p)
    got = [({k: nested_of(y) for k, y in t.attributes.items()}, [{k: nested_of(y) for k, y in e.items()} for e in t]) for t in back]
    req_eq(got, exp, "log with nested attributes read by " + v)


STYLE = st.fixed_dictionaries({"off": st.sampled_from([0, 0, 60, -300, 330]), "z": st.booleans(), "ents": st.booleans(), "hex": st.integers(0, 1), "sp": st.integers(0, 1), "ind": st.integers(0, 2), "ids": st.booleans()})
KEYS = ["k", "lang", "x y", "a&b", "É"]
ATOM = st.one_of(tlog.STRS, tlog.INTS, tlog.FLOATS, st.booleans(), tlog.DATES)
NEST = st.recursive(ATOM, lambda ch: st.one_of(st.fixed_dictionaries({"v": ATOM, "c": st.dictionaries(st.sampled_from(KEYS), ch, min_size=1, max_size=3)}),
                                               st.fixed_dictionaries({"l": st.lists(st.tuples(st.sampled_from(KEYS), ch).map(list), min_size=1, max_size=3)})), max_leaves=7)
UNITS = [
    Unit("readers", st.fixed_dictionaries({"log": tlog.tlog(strs=WS), "style": STYLE, "variant": st.sampled_from(VARIANTS), "how": st.sampled_from(["path", "gz", "api", "string", "gzstring"]), "rep": st.sampled_from([1, 1, 2, 5, 11])}),
         check, 1600, shards=4, rule="XES texts x reader x channel; non-trivial: > 1500 bytes"),
    Unit("params", st.fixed_dictionaries({"log": tlog.tlog(strs=WS), "style": STYLE, "variant": st.sampled_from(VARIANTS[:4]), "max": st.integers(1, 4), "rot": st.integers(0, 5), "rev": st.booleans()}),
         check_params, 500, shards=2, rule="max_traces / timestamp_sort; non-trivial: fewer traces asked than present"),
    Unit("nested", st.fixed_dictionaries({"t": NEST, "e": st.lists(NEST, min_size=1, max_size=4), "style": STYLE, "variant": st.sampled_from(["iterparse", "iterparse", "iterparse_20", "iterparse_mem_compressed", "traces", "events"]),
                                          "pad": st.one_of(st.just(3), st.integers(0, 33000), st.integers(31900, 32700), st.integers(31900, 32700), st.integers(31900, 32700)), "rep": st.sampled_from([1, 1, 2, 3]), "bar": st.booleans()}),
         check_nested, 600, shards=2, rule="nested attributes and lists; non-trivial: a nested event attribute in a text beyond one chunk of the XML reader"),
]
