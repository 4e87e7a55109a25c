"""C64 schemas of OCEL files: written files are valid, the validators see defects, attribute types survive"""
import copy, json, os, shutil, sqlite3, string, tempfile
import pandas as pd
from hypothesis import strategies as st
import ocel as oc
from core import Unit, require, req_eq
import pm4py

META = dict(
    title="OCEL files satisfy the published schemas, and validation sees defects",
    statement="Files written for an OCEL satisfy the published schemas of their formats (JSON and XML in versions 1.0 and 2.0, the structure of the OCEL 2.0 relational schema), and integers, decimals, booleans, texts (empty ones too) and time stamps of OCEL 2.0 XML files and typed values of JSON and SQLite files come back as such. "
              "The validators accept exactly the files that satisfy the schema: a missing or misnamed part of a document, or a missing table, column, type, key or reference of a database, makes exactly the constraints that mention it unsatisfied. Stripped type names are the capitalised words without other characters, up to the maximum length.",
    over=["inputs"], quant="generated OCELs with typed optional attributes, and generated relational schemas with up to four defects",
    why="tests validate three example files; files written for other logs and files with defects are never validated",
    files=["pm4py/objects/ocel/validation", "pm4py/objects/ocel/exporter", "pm4py/objects/ocel/importer/xmlocel/variants/ocel20.py", "pm4py/objects/ocel/util/names_stripping.py"],
    mech=[("apply", "pm4py/objects/ocel/validation/ocel20_rel_validation.py"), ("apply", "pm4py/objects/ocel/validation/xmlocel.py"), ("apply", "pm4py/objects/ocel/exporter/xmlocel/variants/ocel20.py"), ("apply", "pm4py/objects/ocel/util/names_stripping.py")],
    limits="Values of OCEL 2.0 JSON attributes may have their JSON type (the schema asks for texts); the exporter declares no keys, so only the structural constraints 1-13 are asked of written databases; dates of JSON and SQLite attributes come back as text.")
SCH = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "schemas")
KIND = {"n": st.integers(-2 ** 40, 2 ** 40) | st.integers(0, 3), "b": st.booleans(), "s": st.sampled_from(["", "x", "two words", "<&>", "Ä", "7", "true", "null", "None"]), "f": st.integers(-9, 9).map(lambda x: x / 2), "@d": st.integers(0, 10 ** 6)}


@st.composite
def files_st(draw):
    c = draw(oc.spec(attrs=False, two=True, quals=True, noqual=True, all_rel=True))
    # every type has its own attributes, present for all its events or objects (typed columns) or for some (mixed)
    for coll, key in (("events", "act"), ("objects", "type")):
        names = draw(st.lists(st.sampled_from(sorted(KIND)), unique=True, max_size=3))
        full = draw(st.booleans())
        for x in c[coll]:
            x["attrs"] = {n: draw(KIND[n]) for n in names if full or draw(st.booleans())}
    c["seed"] = draw(st.integers(0, 10 ** 6))
    return c


def relaxed(schema):
    s = json.load(open(os.path.join(SCH, schema)))
    if "ocel2" in schema:
        for k in ("events", "objects"):
            s["properties"][k]["items"]["properties"]["attributes"]["items"]["properties"]["value"].pop("type", None)
    return s


def rename(o):
    """attribute names of XML 1.0 are XML names"""
    o.events = o.events.rename(columns={"@d": "made"})
    o.objects = o.objects.rename(columns={"@d": "made"})
    return o


def typed(v):
    import numpy as np
    if v is None or (not isinstance(v, str) and pd.isna(v)):
        return None
    if isinstance(v, (bool, np.bool_)):
        return ("b", bool(v))
    if isinstance(v, (pd.Timestamp,)) or hasattr(v, "isoformat"):
        return ("d", pd.Timestamp(v).timestamp())
    if isinstance(v, (int, np.integer)):
        return ("n", float(v))
    if isinstance(v, (float, np.floating)):
        return ("n", float(v))
    return ("s", str(v))


def check_files(case, ctx):
    import jsonschema
    import lxml.etree as E
    from pm4py.objects.ocel.exporter.jsonocel import exporter as JE
    from pm4py.objects.ocel.exporter.xmlocel import exporter as XE
    from pm4py.objects.ocel.validation import jsonocel as JV, xmlocel as XV, ocel20_rel_validation as RV
    if not any(e["objs"] for e in case["events"]):
        return ctx.label("no relation")
    o = rename(oc.build(case))
    d = tempfile.mkdtemp(prefix="c64_")
    try:
        for nm, fn, schema in (("j1.jsonocel", lambda p: JE.apply(o, p, variant=JE.Variants.CLASSIC), "schema.json"),
                               ("j2l.jsonocel", lambda p: JE.apply(o, p, variant=JE.Variants.OCEL20), "schema.json"),
                               ("j2.jsonocel", lambda p: JE.apply(o, p, variant=JE.Variants.OCEL20_STANDARD), "schema_ocel2.json"),
                               ("x1.xmlocel", lambda p: XE.apply(o, p, variant=XE.Variants.CLASSIC), "schema.xml"),
                               ("x2.xmlocel", lambda p: pm4py.write_ocel2_xml(o, p), "ocel2-validation.xsd")):
            p = os.path.join(d, nm)
            fn(p)
            sp = os.path.join(SCH, schema)
            if nm.endswith("jsonocel"):
                sch = relaxed(schema)
                sp = os.path.join(d, "s_" + schema)
                json.dump(sch, open(sp, "w"))
                doc = json.load(open(p, encoding="utf-8"))
                err = [e.message for e in jsonschema.Draft7Validator(sch).iter_errors(doc)]
                require(not err, "%s does not satisfy %s: %s", nm, schema, err[:2])
                require(JV.apply(p, sp) is True, "%s is valid but rejected", nm)
                key = sorted(doc)[case["seed"] % len(doc)]
                if key in sch.get("required", []):
                    bad = copy.deepcopy(doc)
                    del bad[key]
                    q = os.path.join(d, "bad_" + nm)
                    json.dump(bad, open(q, "w"))
                    require(JV.apply(q, sp) is False, "%s without %s is accepted", nm, key)
            else:
                sch = E.XMLSchema(file=sp)
                doc = E.parse(p)
                ok = sch.validate(doc)
                require(ok, "%s does not satisfy %s: %s", nm, schema, str(sch.error_log)[:400])
                require(XV.apply(p, sp) is True, "%s is valid but rejected", nm)
                els = [x for x in doc.getroot().iter() if isinstance(x.tag, str) and x is not doc.getroot()]
                els[case["seed"] % len(els)].tag = "nonsense"
                q = os.path.join(d, "bad_" + nm)
                doc.write(q)
                require(XV.apply(q, sp) is False, "%s with an unknown element is accepted", nm)
        p = os.path.join(d, "x.sqlite")
        pm4py.write_ocel2_sqlite(o, p)
        sat, unsat = RV.apply(p)
        bad = [x for x in unsat if int(x.split("_")[1]) <= 13]
        require(not bad, "written database: %s unsatisfied", bad)
        # typed values come back
        p2 = os.path.join(d, "j2.jsonocel")
        for what, r, kinds in (("XML", pm4py.read_ocel2_xml(os.path.join(d, "x2.xmlocel")), "nbsfd"), ("JSON", pm4py.read_ocel2_json(p2), "nbsf"), ("SQLite", pm4py.read_ocel2_sqlite(p), "nsf")):
            for tab, idc, coll in (("events", "ocel:eid", case["events"]), ("objects", "ocel:oid", case["objects"])):
                src = {x[idc]: x for x in getattr(o, tab).to_dict("records")}
                got = {x[idc]: x for x in getattr(r, tab).to_dict("records")}
                by = {}
                for x in coll:
                    by.setdefault(x.get("act", x.get("type")), []).append(x)
                for x in coll:
                    if x["id"] not in got:
                        continue
                    for n in x["attrs"]:
                        col = "made" if n == "@d" else n
                        k = "d" if n == "@d" else n
                        if k not in kinds:
                            continue
                        # columns with gaps have no integer or boolean type in Pandas
                        if k == "b" and getattr(o, tab)[col].dtype != bool:
                            continue
                        req_eq(typed(got[x["id"]].get(col)), typed(src[x["id"]][col]), "%s: %s of %s" % (what, col, x["id"]))
                        ctx.label(what + " " + k)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    ctx.nontrivial(sum(len(x["attrs"]) for x in case["events"] + case["objects"]) >= 3)


# ---------------------------------------------------------------- relational schemas
@st.composite
def db_st(draw):
    ots = draw(st.lists(st.sampled_from(["Order", "Item", "A1"]), unique=True, max_size=2))
    ets = draw(st.lists(st.sampled_from(["Pick", "Ship", "B2"]), unique=True, max_size=2))
    T = base(ots, ets)
    defects = []
    for _ in range(draw(st.integers(0, 4))):
        t = draw(st.sampled_from(sorted(T)))
        k = draw(st.sampled_from(["table", "column", "type", "pk", "fk", "fk", "extra", "unmap"]))
        if k == "column":
            defects.append([k, t, draw(st.sampled_from(sorted(T[t]["cols"])))])
        elif k == "fk":
            if T[t]["fks"]:
                defects.append([k, t, draw(st.integers(0, len(T[t]["fks"]) - 1))])
        elif k == "extra":
            defects.append([k, draw(st.sampled_from(["object_Zzz", "event_Zzz", "other"])), 0])
        else:
            defects.append([k, t, 0])
    return {"ots": ots, "ets": ets, "defects": defects}


def base(ots, ets):
    T = {}
    for k, ts_ in (("event", ets), ("object", ots)):
        T[k + "_map_type"] = {"cols": {"ocel_type": ["TEXT", 1], "ocel_type_map": ["TEXT", 0]}, "fks": []}
        T[k] = {"cols": {"ocel_id": ["TEXT", 1], "ocel_type": ["TEXT", 0]}, "fks": [["ocel_type", k + "_map_type", "ocel_type"]]}
        for x in ts_:
            T[k + "_" + x] = {"cols": {"ocel_id": ["TEXT", 1 if k == "event" else 0], "ocel_time": ["TIMESTAMP", 0], "cost": ["REAL", 0]}, "fks": [["ocel_id", k, "ocel_id"]]}
    T["event_object"] = {"cols": {"ocel_event_id": ["TEXT", 1], "ocel_object_id": ["TEXT", 1], "ocel_qualifier": ["TEXT", 1]}, "fks": [["ocel_event_id", "event", "ocel_id"], ["ocel_object_id", "object", "ocel_id"]]}
    T["object_object"] = {"cols": {"ocel_source_id": ["TEXT", 1], "ocel_target_id": ["TEXT", 1], "ocel_qualifier": ["TEXT", 1]}, "fks": [["ocel_source_id", "object", "ocel_id"], ["ocel_target_id", "object", "ocel_id"]]}
    return T


def schema_of(case):
    T = base(case["ots"], case["ets"])
    M = {"event": list(case["ets"]), "object": list(case["ots"])}
    for k, t, x in case["defects"]:
        if k == "extra":
            T[t] = {"cols": {"ocel_id": ["TEXT", 0]}, "fks": []}
        elif t not in T:
            continue
        elif k == "table":
            del T[t]
        elif k == "column" and len(T[t]["cols"]) > 1:
            T[t]["cols"].pop(x, None)
            T[t]["fks"] = [f for f in T[t]["fks"] if f[0] != x]
        elif k == "type" and "ocel_time" in T[t]["cols"]:
            T[t]["cols"]["ocel_time"][0] = "TEXT"
        elif k == "pk":
            for c in T[t]["cols"].values():
                c[1] = 0
        elif k == "fk" and x < len(T[t]["fks"]):
            del T[t]["fks"][x]
        elif k == "unmap":
            for kind in M:
                if t.startswith(kind + "_") and t[len(kind) + 1:] in M[kind]:
                    M[kind].remove(t[len(kind) + 1:])
    return T, M


def expected(T, M):
    """indices of the constraints that do not hold"""
    bad = set()
    col = lambda t, c: t in T and c in T[t]["cols"]
    pk = lambda t, c: col(t, c) and T[t]["cols"][c][1]
    fk = lambda t, *f: t in T and list(f) in T[t]["fks"]
    six = ["event_map_type", "object_map_type", "event", "object", "event_object", "object_object"]

    def need(i, ok):
        if not ok:
            bad.add(i)
    need(1, all(t in T for t in six))
    for k, own, i2, i_id, i_t, i_fk in (("object", {"object_map_type", "object_object"}, 2, 10, 12, 24), ("event", {"event_map_type", "event_object"}, 3, 11, 13, 23)):
        if not col(k + "_map_type", "ocel_type_map"):
            bad |= {i2, i_id, i_t, i_fk} | ({18} if k == "event" else set())
            continue
        spec = [k + "_" + x for x in M[k]]
        have = [t for t in spec if t in T]
        other = [t for t in T if t.startswith(k + "_") and t not in spec]
        need(i2, len(have) == len(spec) and len(other) == 2)
        need(i_id, all(col(t, "ocel_id") for t in have))
        need(i_t, all(col(t, "ocel_time") and T[t]["cols"]["ocel_time"][0] == "TIMESTAMP" for t in have))
        need(i_fk, all(fk(t, "ocel_id", k, "ocel_id") for t in have))
        if k == "event":
            need(18, all(pk(t, "ocel_id") for t in have))
    need(4, all(col(t, "ocel_type") for t in six[:4]))
    need(5, all(col(t, "ocel_type_map") for t in six[:2]))
    need(6, all(col(t, "ocel_id") for t in six[2:4]))
    need(7, all(col(t, "ocel_qualifier") for t in six[4:]))
    need(8, col("event_object", "ocel_event_id") and col("event_object", "ocel_object_id"))
    need(9, col("object_object", "ocel_source_id") and col("object_object", "ocel_target_id"))
    need(14, all(pk(t, "ocel_type") for t in six[:2]))
    need(15, all(pk(t, "ocel_id") for t in six[2:4]))
    need(16, all(pk("event_object", c) for c in ("ocel_event_id", "ocel_object_id", "ocel_qualifier")))
    need(17, all(pk("object_object", c) for c in ("ocel_source_id", "ocel_target_id", "ocel_qualifier")))
    need(19, fk("event", "ocel_type", "event_map_type", "ocel_type"))
    need(20, fk("object", "ocel_type", "object_map_type", "ocel_type"))
    need(21, fk("event_object", "ocel_event_id", "event", "ocel_id") and fk("event_object", "ocel_object_id", "object", "ocel_id"))
    need(22, fk("object_object", "ocel_source_id", "object", "ocel_id") and fk("object_object", "ocel_target_id", "object", "ocel_id"))
    return bad


def check_db(case, ctx):
    from pm4py.objects.ocel.validation import ocel20_rel_validation as RV
    T, M = schema_of(case)
    d = tempfile.mkdtemp(prefix="c64_")
    try:
        p = os.path.join(d, "x.sqlite")
        con = sqlite3.connect(p)
        for t in T:
            cols = ["%s %s" % (c, ty) for c, (ty, _) in T[t]["cols"].items()]
            keys = [c for c, (_, k) in T[t]["cols"].items() if k]
            con.execute("CREATE TABLE %s (%s)" % (t, ", ".join(cols + (["PRIMARY KEY (%s)" % ", ".join(keys)] if keys else []) + ["FOREIGN KEY (%s) REFERENCES %s(%s)" % tuple(f) for f in T[t]["fks"]])))
        for k in M:
            mt = k + "_map_type"
            if mt in T:
                for x in M[k]:
                    vals = {"ocel_type": x.lower(), "ocel_type_map": x}
                    cs = [c for c in T[mt]["cols"]]
                    con.execute("INSERT INTO %s (%s) VALUES (%s)" % (mt, ", ".join(cs), ", ".join("?" * len(cs))), [vals[c] for c in cs])
        con.commit()
        con.close()
        before = open(p, "rb").read()
        sat, unsat = RV.apply(p)
        require(open(p, "rb").read() == before, "validation changes the database")
    finally:
        shutil.rmtree(d, ignore_errors=True)
    req_eq(sorted(int(x.split("_")[1]) for x in unsat), sorted(expected(T, M)), "unsatisfied constraints")
    req_eq(sorted(int(x.split("_")[1]) for x in list(sat) + list(unsat)), list(range(1, 25)), "all constraints")
    for k, *_ in case["defects"]:
        ctx.label(k)
    ctx.nontrivial(bool(case["defects"]) and bool(unsat))


@st.composite
def names_st(draw):
    words = draw(st.lists(st.text(alphabet=string.ascii_letters + string.digits + "-_.:&é", max_size=12), max_size=5))
    return {"x": " ".join(words), "max": draw(st.sampled_from([None, 1, 3, 10, 100, 150])), "rep": draw(st.sampled_from([1, 1, 1, 20]))}


def check_names(case, ctx):
    from pm4py.objects.ocel.util import names_stripping
    x = case["x"] * case["rep"]
    out = names_stripping.apply(x) if case["max"] is None else names_stripping.apply(x, case["max"])
    exp = "".join(c for c in "".join(w[:1].upper() + w[1:].lower() for w in x.split(" ")) if c.isalnum() and c.isascii())
    req_eq(out, exp[:100 if case["max"] is None else case["max"]], "stripped %r" % x)
    ctx.nontrivial(len(out) != len(x))


UNITS = [
    Unit("files", files_st(), check_files, quick=250, shards=4, rule="at least three attribute values"),
    Unit("databases", db_st(), check_db, quick=700, shards=2, rule="a defect that matters"),
    Unit("names", names_st(), check_names, quick=400, rule="something is removed"),
]
