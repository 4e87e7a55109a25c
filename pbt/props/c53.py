"""C53 decision mining: tables, trees and guards"""
import re
from collections import Counter, defaultdict
from hypothesis import strategies as st
import gen, build, ref
from core import Unit, require, req_eq
import pm4py
from pm4py.objects.log.obj import EventLog, Trace, Event

META = dict(
    title="Decision mining: decision tables, decision trees and guards",
    statement="The decision table of a decision point holds, for every firing of one of its alternatives in the replay or alignment of a case, the attribute values known just before it, from earlier events of the same case only, together with the alternative taken; decision points are exactly the places with several outgoing arcs. "
              "The learning table encodes exactly those rows, and when the alternative is a function of the attributes, the guards written into the data Petri net are true for the alternative taken and false for the others.",
    over=["inputs"], quant="generated block-structured nets with nested choices, loops and skips, and fitting or deviating logs with text and numeric attributes, also missing ones",
    why="tests only check that decision mining runs; attribution to places, silent steps, missing values and variant mixing need varied logs",
    files=["pm4py/algo/decision_mining", "pm4py/visualization/decisiontree/util"],
    mech=[("get_attributes", "pm4py/algo/decision_mining/algorithm.py"), ("create_data_petri_nets_with_decisions", "pm4py/algo/decision_mining/algorithm.py"), ("apply", "pm4py/visualization/decisiontree/util/dt_to_string.py")],
    limits="Guards are judged on fitting logs whose alternatives depend on attributes with well separated values; for deviating traces the alignment the library returns is taken as given.")
FLAG = st.sampled_from([False] * 4 + [True])


@st.composite
def dec_st(draw, fitting=False):
    t = draw(gen.tree(depth=3, ops=("->", "X", "X", "*", "+"), max_leaves=7, dup=False))
    if not isinstance(t, list) or not ref.tree_has(t, "X"):
        t = ["->", "p", ["X", t if not isinstance(t, str) else t, "q", None], "r"] if t != "p" else ["->", "o", ["X", "p", "q"], "r"]
    return {"tree": t, "pick": draw(st.lists(st.tuples(st.integers(0, 500), st.sampled_from([0, 0, 0, 1, 2])), min_size=1, max_size=6)),
            "at": draw(st.lists(st.tuples(st.sampled_from(["u", "v", "w", None]), st.sampled_from([1, 2, 10, 40.5, None])), min_size=3, max_size=9)),
            "k": draw(st.sampled_from([1, 1, 2])), "labels": draw(st.booleans()), "df": draw(st.booleans()), "tr": draw(FLAG), "sub": draw(FLAG)}


def mklog(case, lang):
    out, k = [], 0
    for i, (p, dev) in enumerate(case["pick"]):
        w = list(lang[p % len(lang)])
        if dev == 1:
            w.insert(p % (len(w) + 1), "zz")
        elif dev == 2 and len(w) > 1:
            w.pop(p % len(w))
        evs = []
        for a in w:
            s, n = case["at"][k % len(case["at"])]
            k += 1
            evs.append({"a": a, "s": s, "n": n})
        if evs:
            out.append(evs)
    return out


def tolog(rows):
    log = EventLog()
    for i, evs in enumerate(rows):
        t = Trace(attributes={"concept:name": "c%d" % i, "level": i % 3})
        for j, e in enumerate(evs):
            ev = {"concept:name": e["a"], "time:timestamp": build.ts(1000 * i + j)}
            for k, key in (("s", "grp"), ("n", "amount")):
                if e[k] is not None:
                    ev[key] = e[k]
            t.append(Event(ev))
        log.append(t)
    return log


def walk(case_rows, steps, attrs, k, fixed):
    """steps: list of (transition, event index or None, moved): yields (transition, [known attribute dicts])"""
    cur = {a: None for a in attrs}
    cur.update(fixed)
    last = [None] * k
    for t, j, sync in steps:
        if t is not None:
            yield t, [dict(x) for x in last if x is not None]
        if sync:
            for a in attrs:
                if a in case_rows[j]:
                    cur[a] = case_rows[j][a]
            last[j % k] = dict(cur)


def missing(d):
    return d["grp"] is None or d["grp"] != d["grp"] or d["amount"] is None or d["amount"] != d["amount"]


def check_table(case, ctx):
    from pm4py.algo.decision_mining import algorithm as DM
    from pm4py.algo.conformance.tokenreplay import algorithm as TR
    from pm4py.algo.conformance.alignments.petri_net import algorithm as AL
    from copy import copy
    net, im, fm = pm4py.convert_to_petri_net(build.tree(case["tree"]))
    lang = [w for w in sorted(ref.tree_lang(case["tree"], 6)) if w]
    rows = mklog(case, lang) if lang else []
    if not rows:
        return
    log = tolog(rows)
    obj = pm4py.convert_to_dataframe(log) if case["df"] else log
    labels = case["labels"]
    dps = {p.name: sorted(a.target.name for a in p.out_arcs) for p in net.places if len(p.out_arcs) >= 2}
    got = DM.get_decision_points(net, labels=False)
    req_eq({k: sorted(v) for k, v in got.items()}, dps, "decision points")
    byname = {t.name: t for t in net.transitions}
    req_eq({k: sorted(map(str, v)) for k, v in DM.get_decision_points(net, labels=True).items()}, {k: sorted(str(byname[x].label) for x in v) for k, v in dps.items()}, "decision points by label")
    if not dps:
        try:
            DM.get_decision_points(net, pre_decision_points=["source"])
        except Exception as e:
            require("decision point" in str(e), "unexpected %r", e)
        else:
            require(False, "a place with one outgoing arc accepted as decision point")
        return
    sel = sorted(dps)[:1] if case["sub"] else None
    use_tr = case["tr"]
    attrs = ["grp", "amount", "concept:name"]
    kw = {}
    if use_tr:
        kw = {"use_trace_attributes": True, "trace_attributes": ["t_level"]}
    before = [[dict(e) for e in t] for t in log]
    # which replay / optimal alignment the library chooses is not judged here: record its choice
    reps, alis, tr_apply, al_apply = [], {}, TR.apply, AL.apply

    def rec_tr(*a, **k):
        r = tr_apply(*a, **k)
        reps.append(r)
        return r

    def rec_al(tr, *a, **k):
        r = al_apply(tr, *a, **k)
        alis[tuple(e["e_concept:name"] if use_tr else e["concept:name"] for e in tr)] = r["alignment"]
        return r
    TR.apply, AL.apply = rec_tr, rec_al
    try:
        par = {"labels": labels}
        if use_tr:
            # the keys are renamed before the replay: give the activity key of the renamed log
            par["pm4py:param:activity_key"] = "e_concept:name"
        I, dp = DM.get_decisions_table(obj, net, im, fm, attributes=list(attrs), k=case["k"], pre_decision_points=sel, parameters=par, **kw)
    finally:
        TR.apply, AL.apply = tr_apply, al_apply
    if len(reps) != 1 or len(reps[0]) != len(rows):
        ctx.label("replay not observed")
        return
    req_eq([[dict(e) for e in t] for t in log], before, "the log is left as it was")
    req_eq(set(dp), set(sel or dps), "places of the table")
    exp = {p: [] for p in dp}
    variants = {}
    for i, evs in enumerate(rows):
        variants.setdefault(tuple(e["a"] for e in evs), []).append(i)
    dev = 0
    for v, idx in variants.items():
        r = reps[0][idx[0]]
        steps = []
        if v in alis:
            dev += 1
            j = 0
            for (ln, mn), (ll, ml) in alis[v]:
                inlog, inmod = ll != ">>", ml != ">>"
                steps.append((byname[mn] if inmod else None, j, inlog and inmod))
                j += inlog
        else:
            req_eq([t.label for t in r["activated_transitions"] if t.label is not None], list(v), "replay of a variant taken as fitting")
            j = 0
            for t in r["activated_transitions"]:
                steps.append((t, j if t.label is not None else None, t.label is not None))
                j += t.label is not None
        for i in idx:
            # in a dataframe, a missing value is a value of the event
            miss = {"grp": None, "amount": None} if case["df"] else {}
            er = [{(("e_" if use_tr else "") + k): x for k, x in {**miss, **dict(e)}.items()} for e in log[i]]
            at = [("e_" if use_tr else "") + a for a in attrs]
            for t, known in walk(er, steps, at, case["k"], {"t_level": i % 3} if use_tr else {}):
                for p in exp:
                    if any(a.source.name == p for a in t.in_arcs):
                        for d in known:
                            exp[p].append((d, t.label if labels and t.label is not None else t.name))
    canon = lambda rs: Counter((tuple(sorted((k, "None" if v is None or v != v else str(float(v)) if not isinstance(v, str) else v) for k, v in d.items())), y) for d, y in rs)
    for p in exp:
        req_eq(canon(I[p]), canon(exp[p]), "decisions at %s" % p)
    if any(len({y for _, y in x}) > 1 for x in exp.values()):
        ctx.nontrivial()
    if dev:
        ctx.label("deviating")
    # learning table of one point
    if use_tr or case["k"] > 1:
        return
    for p in exp:
        if not exp[p]:
            continue
        if any(missing(d) for d, _ in exp[p]):
            ctx.label("missing values")
            continue
        # (the table of this call: another optimal alignment may be chosen)
        seen, table = [], DM.get_decisions_table

        def rec(*a, **k):
            r = table(*a, **k)
            seen.append(r[0])
            return r
        DM.get_decisions_table = rec
        try:
            try:
                X, y, targets = DM.apply(obj, net, im, fm, decision_point=p, attributes=list(attrs), parameters={"labels": labels})
            except Exception:
                # (this time the chosen alignment may decide nothing, or with missing values)
                if len(seen) == 1 and seen[0][p] and not any(missing(d) for d, _ in seen[0][p]):
                    raise
                ctx.label("empty or missing")
                continue
        finally:
            DM.get_decisions_table = table
        if len(seen) != 1:
            ctx.label("table not observed")
            continue
        rr = seen[0][p]
        if any(missing(d) for d, _ in rr):
            continue
        cols = ["amount"] + ["grp_" + g for g in sorted({d["grp"] for d, _ in rr})]
        req_eq(sorted(X.columns), sorted(cols), "columns of the learning table")
        g = Counter((float(a["amount"]), tuple(c for c in cols[1:] if a[c])) + (targets[int(b)],) for a, b in zip(X.to_dict("records"), y))
        req_eq(g, Counter((float(d["amount"]), ("grp_" + d["grp"],), t) for d, t in rr), "rows of the learning table")


@st.composite
def guard_st(draw):
    """nets whose choices follow the attributes of the previous event"""
    n = draw(st.integers(2, 4))
    kind = draw(st.sampled_from(["num", "txt", "both"]))
    key = [(draw(st.sampled_from(["u", "v", "w", "x y", "é"])), draw(st.sampled_from([1, 2, 5, 10, 40, 100, 1000]))) for _ in range(draw(st.integers(2, 9)))]
    return {"n": n, "skip": draw(st.booleans()), "nest": draw(st.booleans()), "key": key, "rule": draw(st.lists(st.integers(0, 3), min_size=40, max_size=40)), "kind": kind}


def rule(case, g, a, which):
    """the alternative taken: a function of the attributes"""
    i = {"u": 0, "v": 1, "w": 2, "x y": 3, "é": 4}[g]
    j = {1: 0, 2: 1, 5: 2, 10: 3, 40: 4, 100: 5, 1000: 6}[a]
    x = j if case["kind"] == "num" else i if case["kind"] == "txt" else i + j
    return case["rule"][(x + 7 * which) % 40]


def eval_guard(g, d):
    out = False
    for conj in g.split(" || "):
        ok = True
        for c in conj.strip()[1:-1].split(" && "):
            m = re.fullmatch(r"(.+?) *(<=|>|<|>=) *(-?[0-9.]+)", c)
            require(m, "guard %r", c)
            v, x = float(d[m.group(1)]), float(m.group(3))
            ok = ok and {"<=": v <= x, ">": v > x, "<": v < x, ">=": v >= x}[m.group(2)]
        out = out or ok
    return out


def check_guard(case, ctx):
    from pm4py.objects.petri_net.data_petri_nets import semantics as dsem
    from pm4py.algo.decision_mining import algorithm as DM
    alts = ["A", "B", "C", "D"][:case["n"]] + ([None] if case["skip"] else [])
    tree = ["->", "s", ["X"] + alts, "t", ["X", "E", "F"] if case["nest"] else "E"]
    rows, dec = [], defaultdict(list)
    for g, a in case["key"]:
        first = alts[rule(case, g, a, 0) % len(alts)]
        second = ["E", "F"][rule(case, a and g, a, 1) % 2] if case["nest"] else "E"
        w = ["s"] + ([first] if first else []) + ["t", second]
        rows.append([{"a": x, "s": g, "n": a} for x in w])
        dec["first"].append((g, a, first))
        dec["second"].append((g, a, second))
    log = tolog(rows)
    net, im, fm = pm4py.convert_to_petri_net(build.tree(tree))
    n2, i2, f2 = DM.create_data_petri_nets_with_decisions(log, net, im, fm)
    require(n2 is net and i2 is im and f2 is fm, "another net is returned")
    cols = sorted({g for g, _ in case["key"]})
    point = {}
    for p in net.places:
        ls = {a.target.label for a in p.out_arcs}
        if len(p.out_arcs) > 1:
            point["second" if ls == {"E", "F"} else "first"] = p
    guarded = [t for t in net.transitions if "guard" in t.properties]
    for nm, p in point.items():
        d = dec[nm]
        taken = {x[2] for x in d}
        for t in (a.target for a in p.out_arcs):
            if t.label not in taken:
                require("guard" not in t.properties, "guard of %s, which was never taken", t)
                continue
            if len(taken) == 1:
                continue
            require("guard" in t.properties, "%s has no guard", t)
            g = t.properties["guard"]
            for x in d:
                data = {"amount": x[1]}
                data.update({"grp_" + c: 1 if c == x[0] else 0 for c in cols})
                req_eq(eval_guard(g, data), x[2] == t.label, "guard %s of %s for %s" % (g, t, x))
                if all(k.isidentifier() for k in data):
                    # the data Petri net decides the same
                    req_eq(bool(dsem.evaluate_guard(g, t.properties["readVariable"], data)), x[2] == t.label, "guard %s evaluated by the data Petri net for %s" % (g, x))
                    ctx.label("evaluated")
            req_eq({v for v in t.properties["readVariable"]} <= set(data), True, "read variables %s" % t.properties["readVariable"])
            ctx.nontrivial()
    out = {t for p in point.values() for t in (a.target for a in p.out_arcs)}
    require(set(guarded) <= out, "guards outside of decision points: %s", guarded)


UNITS = [
    Unit("table", dec_st(), check_table, quick=350, rule="some decision point with two alternatives taken"),
    Unit("guards", guard_st(), check_guard, quick=200, rule="a guard was evaluated"),
]
