"""C56: the drawings contain exactly the elements, labels, numbers and connections of the drawn objects"""
import os, re
from collections import Counter, defaultdict
from statistics import mean, median
from hypothesis import strategies as st
from core import Unit, require, req_eq
import build, dot, gen, nets
import ocel as oc
import pm4py
from props import c11, c17, c48, c49

META = dict(
    title="Drawings show exactly the elements and numbers of the drawn object",
    statement="The graph handed to Graphviz for a Petri net (plain, decorated with replay or alignment counts), DFG, process tree, BPMN diagram, transition system, prefix tree, POWL model, heuristics net, object-centric DFG or Petri net, object graph, or network analysis has exactly one node per element and one edge per connection, up to isomorphism, with the labels, frequencies, durations, arc weights, initial and final markings of the object. Footprint and alignment tables show every relation and every move in its place. Thresholds and limits on the number of edges keep exactly the elements announced, and dotted charts and performance spectra place every event at the point that its values give.",
    over=["inputs"], quant="generated models and logs with duplicated labels, weights, odd characters, ties x drawing options",
    why="tests only check that a picture is produced, for a handful of models",
    oracle="Graphviz parses the drawing; the graph must be isomorphic, with all labels, to the graph computed from the generated object",
    limits="Colours, sizes, positions of nodes other than in charts, and labels that Graphviz itself interprets (backslashes, labels in angle brackets) are not judged.",
    files=["pm4py/visualization", "pm4py/vis.py", "pm4py/util/vis_utils.py"],
    mech=[("Petri nets", "pm4py/visualization/petri_net/common/visualize.py"), ("DFG", "pm4py/visualization/dfg/util/dfg_gviz.py"), ("OC-DFG", "pm4py/visualization/ocel/ocdfg/variants/classic.py"), ("footprints", "pm4py/visualization/footprints/variants/single.py"), ("heuristics net", "pm4py/visualization/heuristics_net/variants/pydotplus_vis.py")])

LAB = ["A", "B", "C", "D", "a b", "x:y", "é & \u00df", "say \"hi\"", "10", "p>q", "it's"]
BALL, SQ = "\u25cf", "\u25a0"


def dur(s):
    """text of a duration in the largest unit that is not zero"""
    for n, u in ((31104000, "Y"), (2592000, "MO"), (86400, "D"), (3600, "h"), (60, "m"), (1, "s")):
        if s >= n:
            return "%d%s" % (s // n, u)
    return "%dms" % int(s * 1000) if int(s * 1000) > 0 else "%dns" % int(s * 10 ** 9)


# ---------------------------------------------------------------- Petri nets
def box(o):
    return "box" if o.get("shape") == "box" else "place"


def net_graph(s, tlab=None, alab=None, debug=False):
    W = any(a[3] != 1 for a in s["arcs"])
    N, E = {}, []
    for i, p in enumerate(s["places"]):
        k = str(i)
        l = (BALL if s["im"][k] == 1 else str(s["im"][k])) if k in s["im"] else SQ if k in s["fm"] else p if debug else ""
        N["p%d" % i] = (l, "place")
    for i, (n, l) in enumerate(s["trans"]):
        N["t%d" % i] = (n if debug else (tlab or {}).get(i) or l or "", "box")
    for k, a, b, w in s["arcs"]:
        l = (alab or {}).get((k, a, b)) or (str(w) if W else "")
        E.append(("p%d" % a, "t%d" % b, l) if k == "pt" else ("t%d" % a, "p%d" % b, l))
    return N, E


def petri(c, ctx):
    from pm4py.visualization.petri_net import visualizer as V
    s = c["net"]
    net, im, fm = build.net(s)[:3]
    par = {"debug": True} if c["debug"] else {}
    if c["rank"]:
        par["set_rankdir"] = c["rank"]
    dec, tl, al = None, {}, {}
    if c["dec"]:
        par["decorations"] = {}
        for x in list(net.transitions) + list(net.arcs):
            if hash((x.name if hasattr(x, "name") else (x.source.name, x.target.name), 0)) is None:
                continue
        tn = {t.name: t for t in net.transitions}
        for i, v in c["dec"]:
            t = i % len(s["trans"])
            par["decorations"][tn[s["trans"][t][0]]] = {"label": v, "color": "#FFFFFF"}
            tl[t] = v
            a = s["arcs"][i % len(s["arcs"])] if s["arcs"] else None
            if a:
                nm = (s["places"][a[1]], s["trans"][a[2]][0]) if a[0] == "pt" else (s["trans"][a[1]][0], s["places"][a[2]])
                arc = [q for q in net.arcs if (q.source.name, q.target.name) == nm]
                par["decorations"][arc[0]] = {"label": "n" + v, "penwidth": "2"}
                al[tuple(a[:3])] = "n" + v
    g = V.apply(net, im, fm, parameters=par)
    dot.same(g, *net_graph(s, tl, al, c["debug"]), "Petri net", kind=box)
    if len(s["arcs"]) > 4 and (any(a[3] != 1 for a in s["arcs"]) or len(set(l for _, l in s["trans"])) < len(s["trans"])):
        ctx.nontrivial()


@st.composite
def net_c(draw):
    s = draw(st.one_of(nets.free_net(labels=LAB), nets.tree_net(pool=LAB[:8], mutations=0), nets.free_net(max_w=3, max_tok=3)))
    seen, arcs = set(), []
    for a in s["arcs"]:
        if tuple(a[:3]) not in seen:
            seen.add(tuple(a[:3]))
            arcs.append(a)
    return {"net": dict(s, arcs=arcs), "debug": draw(st.sampled_from([False] * 3 + [True])), "rank": draw(st.sampled_from([None, "LR", "TB"])), "dec": draw(st.one_of(st.none(), st.lists(st.tuples(st.integers(0, 9), st.sampled_from(["3", "x (4)", "0.5"])).map(list), max_size=3)))}


def decorated(c, ctx):
    """counts of a log played out of the net"""
    from pm4py.visualization.petri_net import visualizer as V
    from pm4py.algo.conformance.alignments.petri_net import algorithm as A
    s = nets.tree_spec(c["tree"])
    net, im, fm = build.net(s)[:3]
    n = {i: l for i, (_, l) in enumerate(s["trans"])}
    trs = c["traces"]
    log = build.variants_log(trs)
    if c["k"] == "replay":
        import ref as R
        r = R.RNet(net, im, fm)
        trs = [t for t in trs if R.net_accepts(r, t)]
        if not trs:
            return
        # loops may be unfolded by silent moves only in trees of visible do-parts
        g = V.apply(net, im, fm, log=build.variants_log(trs), variant=V.Variants.FREQUENCY)
        gn, ge, gd, _ = dot.parse(g)
        cnt = Counter(a for t in trs for a in t)
        got = sorted(o["label"] for o in gn.values() if box(o) == "box" and o["label"])
        # what is never fired carries zero if it was enabled, and nothing otherwise
        got = sorted(l[:-4] if l.endswith(" (0)") else l for l in got)
        exp = sorted("%s (%d)" % (l, cnt[l]) if cnt[l] else l for l in n.values() if l is not None)
        req_eq(got, exp, "transitions with frequencies")
        for a, b, o in ge:
            for x in (gn[a], gn[b]):
                l = x["label"]
                if box(x) == "box" and l and l.endswith(")") and not l.endswith(" (0)"):
                    req_eq(o["label"], l[l.rindex("(") + 1:-1], "frequency of an arc of %s" % l)
        req_eq(len(ge), len(s["arcs"]), "arcs")
        req_eq(Counter(o["label"] for o in gn.values() if box(o) == "place")[BALL], 1, "initial marking")
        ctx.nontrivial(len(cnt) > 1)
        return
    al = A.apply(log, net, im, fm, parameters={"ret_tuple_as_trans_desc": True})
    from pm4py.visualization.petri_net.util import alignments_decoration as D
    g = V.apply(net, im, fm, variant=V.Variants.ALIGNMENTS, aggregated_statistics=D.get_alignments_decoration(net, im, fm, aligned_traces=al))
    fit, mod = Counter(), Counter()
    for x in al:
        for (nm, _) in x["alignment"]:
            (mod if nm[0] == ">>" else fit)[nm[1]] += 1
    tl = {i: "%s (%d,%d)" % (l, mod[nm], fit[nm]) for i, (nm, l) in enumerate(s["trans"]) if l is not None and mod[nm] + fit[nm]}
    dot.same(g, *net_graph(s, tl), "Petri net with alignments", kind=box)
    if sum(mod.values()) and sum(fit.values()):
        ctx.nontrivial()


@st.composite
def dec_c(draw):
    t = draw(gen.tree(ops=("->", "X", "+", "*"), dup=False, pool="abcdef", max_leaves=5))
    import ref as R
    from itertools import islice
    try:
        L = sorted(w for w in R.tree_lang(t, 6) if w)[:40]
    except R.Overflow:
        L = []
    trs = [list(x) for x in draw(st.lists(st.sampled_from(L), min_size=1, max_size=4))] if L else [["a"]]
    k = draw(st.sampled_from(["replay", "align"]))
    if k == "align":
        trs += draw(st.lists(st.lists(st.sampled_from("abcx"), min_size=1, max_size=4), max_size=2))
    return {"tree": t, "traces": trs, "k": k}


# ---------------------------------------------------------------- DFG
def dfg(c, ctx):
    from pm4py.visualization.dfg import visualizer as V
    d = {(a, b): v for a, b, v in c["dfg"]}
    sa, ea = dict(c["sa"]), dict(c["ea"])
    acts = {x for p in d for x in p} | set(sa) | set(ea)
    k = c["k"]
    par = {"format": "svg"}
    if c["ends"]:
        par.update({"start_activities": sa, "end_activities": ea})
    else:
        acts, sa, ea = {x for p in d for x in p}, {}, {}
    if c["max"] is not None:
        par["maxNoOfEdgesInDiagram"] = c["max"]
    N, E = {}, []
    if k == "frequency":
        cnt = None
        if c["counts"]:
            cnt = {a: 3 * i + 1 for i, a in enumerate(sorted(acts))}
        g = V.apply(d, variant=V.Variants.FREQUENCY, activities_count=cnt, parameters=par)
        cnt = cnt or {a: sum(v for p, v in d.items() if p[1] == a) + sa.get(a, 0) for a in acts}
        for a in acts:
            N[a] = "%s (%d)" % (a, cnt[a])
        w = d
    else:
        agg = c["agg"]
        w = {p: {"mean": v, "median": v + 7, "min": v / 3, "max": v * 100, "sum": v * 999, "stdev": 1.5}[agg] for p, v in d.items()}
        full = {p: {"mean": v, "median": v + 7, "min": v / 3, "max": v * 100, "sum": v * 999, "stdev": 1.5} for p, v in d.items()}
        acts = {x for p in d for x in p} | set(sa)
        serv = {a: 61 * i for i, a in enumerate(sorted(acts))} if c["counts"] else None
        par["aggregation_measure"] = agg
        g = V.apply(full if c["full"] else w, variant=V.Variants.PERFORMANCE, serv_time=serv, parameters=par)
        for a in acts:
            N[a] = "%s (%s)" % (a, dur(serv[a])) if serv else a
    ks = sorted(w, key=lambda p: (w[p], p), reverse=True)
    if c["max"] is not None:
        ks = ks[:c["max"]]
    for p in ks:
        E.append((p[0], p[1], str(w[p]) if k == "frequency" else dur(w[p])))
    for q, xs, mark in (("@s", sa, BALL), ("@e", ea, SQ)):
        xs = {a: v for a, v in xs.items() if a in acts}
        if xs:
            N[q] = mark
            for a, v in xs.items():
                l = str(v) if k == "frequency" else ""
                E.append((q, a, l) if q == "@s" else (a, q, l))
    dot.same(g, N, E, "DFG (%s)" % k)
    if len(d) > 2 and len(ks) != len(d) or k != "frequency":
        ctx.nontrivial()


@st.composite
def dfg_c(draw):
    n = draw(st.integers(1, 5))
    labs = draw(st.lists(st.sampled_from(LAB), min_size=n, max_size=n, unique=True))
    pair = st.tuples(st.sampled_from(labs), st.sampled_from(labs))
    k = draw(st.sampled_from(["frequency", "performance"]))
    val = st.integers(1, 6) if k == "frequency" else st.sampled_from([0.0000005, 0.02, 0.5, 1, 59, 60, 3599, 3600, 86400, 90000, 172800.5, 2591999, 2592000, 31104000, 98765432])
    ps = draw(st.lists(pair, min_size=1, max_size=8, unique=True))
    se = st.dictionaries(st.sampled_from(labs), st.integers(1, 5), max_size=3).map(lambda d: sorted(map(list, d.items())))
    return {"k": k, "dfg": [[a, b, draw(val)] for a, b in ps], "sa": draw(se), "ea": draw(se), "ends": draw(st.booleans()), "max": draw(st.one_of(st.none(), st.integers(1, 8))), "counts": draw(st.booleans()), "full": draw(st.booleans()), "agg": draw(st.sampled_from(["mean", "median", "min", "max", "sum", "stdev"]))}


# ---------------------------------------------------------------- trees, BPMN, POWL, prefix trees, transition systems
OPS = {"->": "seq", "X": "xor", "+": "and", "*": "xor loop", "O": "or", "<>": "interleaving"}


def ptree(c, ctx):
    from pm4py.visualization.process_tree import visualizer as V
    t = c["tree"]
    k = c["k"]
    N, E = {}, []
    m = build.tree(t)

    def props(n):
        n._properties.update({"num_events": 3 * len(N) + 7, "num_cases": 9})
        N[len(N)] = None
        for x in n.children:
            props(x)
    if k == "freq":
        props(m)
        N = {}

    def go(x):
        i = len(N)
        ev = 3 * i + 7
        if x is None:
            N[i] = ("tau", "")
        elif isinstance(x, str):
            N[i] = (x if k != "freq" else "%s\nC=9 E=%d" % (x, ev), "")
        else:
            N[i] = (x[0] if k == "symbolic" else OPS[x[0]], "")
            for y in x[1:]:
                E.append((i, len(N), ""))
                go(y)
    go(t)
    v = {"plain": V.Variants.WO_DECORATION, "symbolic": V.Variants.SYMBOLIC, "freq": V.Variants.FREQUENCY_ANNOTATION}[k]
    g = V.apply(m, variant=v)
    # the edges carry no direction, but lead from the parent to the child
    und = lambda es: es
    dot.same(g, N, und(E), "process tree (%s)" % k, directed=False, lab=lambda s: re.sub("^'(.*)'(?=$|\n)", r"\1", s))
    if len(E) > 3:
        ctx.nontrivial()


def bpmn(c, ctx):
    from pm4py.visualization.bpmn import visualizer as V
    for i, x in enumerate(c["nodes"]):
        x["n"] = LAB[(x["x"] + i) % len(LAB)]
    b = c11.mk(c)
    g = V.apply(b)
    mark = {"xor": "X", "and": "+", "or": "O"}
    N = {i: (x["n"].strip() if x["k"] == "task" else mark.get(x["k"], ""), "box" if x["k"] == "task" else "diamond" if x["k"] in mark else "circle") for i, x in enumerate(c["nodes"])}
    dot.same(g, N, [(f["s"], f["t"], "") for f in c["flows"]], "BPMN diagram", kind=lambda o: o["shape"])
    if len(c["flows"]) > 3:
        ctx.nontrivial()


def powl(c, ctx):
    from pm4py.visualization.powl.variants import basic
    N, E = {}, []
    m = c17.mk(c)
    # edges of a partial order start and end at the first drawn leaf or operator of the child; clusters tell which block is meant
    g = basic.apply(m)
    gn, ge, gd, cl = dot.parse(g)
    leaves, ops = [], Counter()

    def go(x):
        if x is None or isinstance(x, str):
            leaves.append(x or "")
        elif x[0] == "PO":
            for y in x[1]:
                go(y)
        else:
            ops[x[0]] += 1
            for y in x[1:]:
                go(y)
    go(c)
    im = {"X": "xor.svg", "*": "loop.svg"}
    req_eq(Counter(os.path.basename(o["image"]) for o in gn.values() if "image" in o), Counter({im[k]: v for k, v in ops.items()}), "operators")
    req_eq(Counter(o["label"] for o in gn.values() if "image" not in o), Counter(x.strip() for x in leaves), "activities")

    # every block: its cluster, the members, the edges between the blocks
    byname = {o["name"]: o for o in cl}
    ofnode = {o["name"]: o for o in gn.values()}
    key = {k: o["name"] for k, o in gn.items()}
    edges = Counter((e[2].get("ltail") or key[e[0]], e[2].get("lhead") or key[e[1]], e[2].get("style") == "dashed") for e in ge)

    def shape(x):
        """text of a block with the places of the order, from the model"""
        return repr(x)

    def red(n, es):
        es = {tuple(e) for e in es}
        return {(i, j) for i, j in es if not any((i, k) in es and (k, j) in es for k in range(n))}
    exp = 0

    def cnt(x):
        nonlocal exp
        if isinstance(x, list):
            if x[0] == "PO":
                exp += len(red(len(x[1]), x[2]))
                for y in x[1]:
                    cnt(y)
            else:
                exp += len(x) - 1
                for y in x[1:]:
                    cnt(y)
    cnt(c)
    req_eq(len(ge), exp, "edges")
    # rebuild the model from the drawing
    kids = defaultdict(list)
    inner = {}
    for o in cl:
        for s in o.get("subgraphs", []):
            inner[s] = o["_gvid"]
    sub = {o["_gvid"]: o for o in cl}
    for o in cl:
        mine = set(o.get("nodes", []))
        for s in o.get("subgraphs", []):
            mine -= set(sub[s].get("nodes", []))
        kids[o["name"]] = [sub[s]["name"] for s in o.get("subgraphs", [])] + [gn[k]["name"] for k in mine]
    tops = [o["name"] for o in cl if o["_gvid"] not in inner] or [o["name"] for o in gn.values()]
    req_eq(len(tops), 1, "outermost blocks")

    def back(nm):
        if nm in ofnode:
            return repr(ofnode[nm]["label"])
        op = [k for k in kids[nm] if k in ofnode and "image" in ofnode[k]]
        ch = [k for k in kids[nm] if k not in op]
        if op:
            q = sorted((edges.get((op[0], k, True), 0), back(k)) for k in ch)
            for k in ch:
                req_eq(edges.get((op[0], k, True), 0) + edges.get((op[0], k, False), 0), 1, "edges from an operator to a child")
            return "%s(%s)" % (os.path.basename(ofnode[op[0]]["image"])[:-4], ",".join("%d%s" % x for x in q))
        return "PO{%s|%s}" % (";".join(sorted(map(back, ch))), ";".join(sorted(back(a) + ">" + back(b) for a in ch for b in ch for _ in range(edges.get((a, b, False), 0)))))

    def fwd(x):
        if x is None or isinstance(x, str):
            return repr((x or "").strip())
        if x[0] == "PO":
            ch = list(map(fwd, x[1]))
            return "PO{%s|%s}" % (";".join(sorted(ch)), ";".join(sorted(ch[i] + ">" + ch[j] for i, j in red(len(ch), x[2]))))
        return "%s(%s)" % ({"X": "xor", "*": "loop"}[x[0]], ",".join("%d%s" % q for q in sorted((int(x[0] == "*" and i == 1), fwd(y)) for i, y in enumerate(x[1:]))))
    req_eq(back(tops[0]), fwd(c), "POWL model")
    if exp > 3:
        ctx.nontrivial()


def trie(c, ctx):
    from pm4py.visualization.trie import visualizer as V
    trs = c["traces"]
    t = pm4py.discover_prefix_tree(build.variants_log(trs))
    g = V.apply(t)
    pre = {tuple(x[:i]) for x in trs for i in range(1, len(x) + 1)}
    N = {p: (p[-1], "") for p in pre}
    dot.same(g, N, [(p[:-1], p, "") for p in pre if len(p) > 1], "prefix tree", directed=False)
    ctx.nontrivial(len(pre) > 4)


def tsys(c, ctx):
    from pm4py.visualization.transition_system import visualizer as V
    from pm4py.objects.transition_system.obj import TransitionSystem as T
    ts = T()
    S = [T.State(n) for n in c["states"]]
    ts.states.update(S)
    for a, b, l in c["arcs"]:
        from pm4py.objects.transition_system.utils import add_arc_from_to
        add_arc_from_to(l, S[a], S[b], ts)
    g = V.apply(ts, variant=V.Variants.VIEW_BASED, parameters={"show_names": c["names"], "show_labels": c["labels"]})
    dot.same(g, {i: (n if c["names"] else "", "") for i, n in enumerate(c["states"])}, [(a, b, l if c["labels"] else "") for a, b, l in c["arcs"]], "transition system")
    ctx.nontrivial(len(c["arcs"]) > 3)


@st.composite
def ts_c(draw):
    n = draw(st.integers(1, 5))
    st_ = draw(st.lists(st.sampled_from(LAB), min_size=n, max_size=n, unique=True))
    return {"states": st_, "arcs": [list(x) for x in draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(0, n - 1), st.sampled_from(LAB[:6])), max_size=7, unique=True))], "names": draw(st.sampled_from([True, True, False])), "labels": draw(st.sampled_from([True, True, False]))}


# ---------------------------------------------------------------- tables
def foot(c, ctx):
    from pm4py.visualization.footprints import visualizer as V

    def mk(x):
        return {"sequence": {tuple(p) for p in x["seq"]}, "parallel": {tuple(p) for p in x["par"]} | {tuple(p[::-1]) for p in x["par"]}, "activities": set(LAB), "start_activities": set(), "end_activities": set()}
    f1, f2 = mk(c["a"]), mk(c["b"])
    for f in (f1, f2):
        f["sequence"] -= f["parallel"]
        f["sequence"] = {p for p in f["sequence"] if p[::-1] not in f["sequence"] or p < p[::-1]}

    def sym(f, a, b):
        return "||" if (a, b) in f["parallel"] else ">" if (a, b) in f["sequence"] else "<" if (b, a) in f["sequence"] else "#"
    acts = sorted({x for k in ("sequence", "parallel") for p in f1[k] for x in p})
    rows = dot.table(V.apply(f1, variant=V.Variants.SINGLE))
    req_eq([[x[0] for x in r] for r in rows], [[""] + acts] + [[a] + [sym(f1, a, b) for b in acts] for a in acts], "footprints table")
    rows = dot.table(V.apply(f1, f2, variant=V.Variants.COMPARISON))
    exp = [[["", None]] + [[a, None] for a in acts]]
    for a in acts:
        r = [[a, None]]
        for b in acts:
            s = sym(f1, a, b)
            ok = s == "#" or ((a, b) in f2["parallel"] if s == "||" else ((a, b) if s == ">" else (b, a)) in f2["sequence"])
            r.append([s, "black" if ok else "red"])
        exp.append(r)
    req_eq(rows, exp, "comparison of footprints")
    a12 = [{x for k in ("sequence", "parallel") for p in f[k] for x in p} for f in (f1, f2)]
    al = sorted(a12[0] | a12[1])
    exp = [[["", None]] + [[a, None] for a in al]]
    for a in al:
        r = [[a, None]]
        for b in al:
            s1, s2 = [sym(f, a, b) if a in ac and b in ac else "?" for f, ac in zip((f1, f2), a12)]
            r.append([s1, "black"] if s1 == s2 else [s1 + "\u00a0\u00a0" + s2, "red"])
        exp.append(r)
    if al:
        req_eq(dot.table(V.apply(f1, f2, variant=V.Variants.COMPARISON_SYMMETRIC)), exp, "symmetric comparison of footprints")
    ctx.nontrivial(len(acts) > 2)


@st.composite
def foot_c(draw):
    n = draw(st.integers(1, 5))
    labs = draw(st.lists(st.sampled_from(LAB + ["<b>", "&lt;"]), min_size=n, max_size=n, unique=True))
    ps = st.lists(st.tuples(st.sampled_from(labs), st.sampled_from(labs)).map(list), max_size=6, unique_by=tuple)
    one = lambda: {"seq": draw(ps), "par": draw(ps)}
    a, b = one(), one()
    if draw(st.booleans()):
        b["seq"] = a["seq"][:2] + b["seq"]
        b["par"] = a["par"][:2] + b["par"]
    return {"a": a, "b": b}


def atable(c, ctx):
    from pm4py.visualization.align_table import visualizer as V
    trs = c["traces"]
    net, im, fm = build.net(nets.tree_spec(c["tree"]))[:3]
    log = build.variants_log(trs)
    al = pm4py.conformance_diagnostics_alignments(log, net, im, fm)
    rows = dot.table(V.apply(log, al))
    cnt = Counter(map(tuple, trs))
    first = {v: next(i for i, t in enumerate(trs) if tuple(t) == v) for v in cnt}
    # the cells of an alignment are nested: rows of the outer table and of the inner tables alternate
    req_eq([x[0] for x in rows[0]], ["Variant", "Alignment"], "head of the table")
    got = []
    for i in range(1, len(rows), 2):
        got.append((rows[i][0][0], [tuple(x) for x in rows[i + 1]]))
    col = lambda m: (str(m[1]), "lightgreen") if ">>" not in m else ("(LM)" + str(m[0]), "orange") if m[1] == ">>" else ("(MM)" + str(m[1]), "violet")
    exp = {v: [col(m) for m in al[first[v]]["alignment"]] for v in cnt}
    req_eq([int(g[0].split("(")[1].split()[0]) for g in got], sorted(cnt.values(), reverse=True), "occurrences of the variants")
    req_eq([g[0].split(" (")[0] for g in got], ["Variant %d" % (i + 1) for i in range(len(cnt))], "variants")
    req_eq(sorted((int(g[0].split("(")[1].split()[0]), g[1]) for g in got), sorted((cnt[v], exp[v]) for v in cnt), "alignments")
    ctx.nontrivial(len(cnt) > 1)


# ---------------------------------------------------------------- heuristics nets
def heur(c, ctx):
    from pm4py.visualization.heuristics_net.variants import pydotplus_vis as V
    log = build.fdf(c["log"])
    k = c["k"]
    hn = pm4py.discover_heuristics_net(log, dependency_threshold=c["th"], min_dfg_occurrences=c["min"], decoration=k)
    src = V.get_graph(hn).to_string()
    N, E = {}, []
    for a, n in hn.nodes.items():
        if n.input_connections or n.output_connections:
            N[a] = "%s (%d)" % (a, sum(e["a"] == a for q in c["log"]["cases"] for e in q["events"])) if k == "frequency" else None
    for a in N:
        for b, es in hn.nodes[a].output_connections.items():
            if b.node_name in N:
                for e in es:
                    E.append((a, b.node_name, str(e.repr_value) if k == "frequency" else dur(float(e.repr_value))))
    if k == "performance":
        for a in N:
            N[a] = "%s (%s)" % (a, dur(hn.sojourn_times[a]) if a in hn.sojourn_times else "0s")
    first, last = Counter(q["events"][0]["a"] for q in c["log"]["cases"]), Counter(q["events"][-1]["a"] for q in c["log"]["cases"])
    for q, xs, mark in (("@s", first, "@@S"), ("@e", last, "@@E")):
        if any(a in N for a in xs):
            N[q] = mark
            for a, v in xs.items():
                if a in N and v >= c["min"]:
                    l = str(v) if k == "frequency" else ""
                    E.append((q, a, l) if q == "@s" else (a, q, l))
    dot.same(src, N, E, "heuristics net (%s)" % k)
    ctx.nontrivial(len(E) > 3)


@st.composite
def heur_c(draw):
    lg = draw(gen.log(n_act=4, max_len=6, max_traces=6, gap=draw(st.sampled_from([3, 5000]))))
    return {"log": lg, "th": draw(st.sampled_from([0.5, 0.0, 0.3, 0.8])), "min": draw(st.sampled_from([1, 1, 2, 3])), "k": draw(st.sampled_from(["frequency", "performance"]))}


# ---------------------------------------------------------------- object-centric
def ocdfg(c, ctx):
    from pm4py.visualization.ocel.ocdfg import visualizer as V
    log = c["log"]
    o = oc.build(log)
    m = pm4py.discover_ocdfg(o)
    am, em, ann, at, et, ag = c["am"], c["em"], c["ann"], c["at"], c["et"], c["ag"]
    g = V.apply(m, parameters={"act_metric": am, "edge_metric": em, "act_threshold": at, "edge_threshold": et, "annotation": ann, "aggregationMeasure": ag})
    O = {x["id"]: x for x in log["objects"]}
    pre = {"events": "E=", "unique_objects": "UO=", "total_objects": "TO=", "event_couples": "EC="}
    pick = {"events": lambda p: {x[0] for x in p}, "unique_objects": lambda p: {x[-1] for x in p}, "total_objects": lambda p: p, "event_couples": lambda p: {x[:2] for x in p}}
    acts = defaultdict(list)
    for e in log["events"]:
        for i in e["objs"]:
            acts[e["act"]].append((e["id"], log["objects"][i]["id"]))
    N = {a: a + ("\n%s%d" % (pre[am], len(pick[am](p))) if ann == "frequency" else "") for a, p in acts.items() if len(pick[am](p)) >= at}
    ed, sa, ea = defaultdict(list), defaultdict(list), defaultdict(list)
    tm = {e["id"]: e["t"] for e in log["events"]}
    for x, es in c48.lives(log).items():
        t = O[x]["type"]
        for a, b in zip(es, es[1:]):
            ed[t, a["act"], b["act"]].append((a["id"], b["id"], x))
        sa[t, es[0]["act"]].append((es[0]["id"], x))
        ea[t, es[-1]["act"]].append((es[-1]["id"], x))
    E = []
    f = {"mean": mean, "median": median, "min": min, "max": max, "sum": sum}[ag]
    for (t, a, b), p in ed.items():
        if a in N and b in N and len(pick[em](p)) >= et:
            E.append((a, b, "%s %s%d" % (t, pre[em], len(pick[em](p))) if ann == "frequency" else "%s %s%s" % (t, pre[em], dur(f([tm[q[1]] - tm[q[0]] for q in pick[em](p)])))))
    for w, d in (("@s", sa), ("@e", ea)):
        for (t, a), p in d.items():
            n = len(pick[am](p))
            if a in N and n >= et:
                N[w, t] = t
                l = "%s %s%d" % (t, pre[em], n) if ann == "frequency" else ""
                E.append(((w, t), a, l) if w == "@s" else (a, (w, t), l))
    dot.same(g, N, E, "object-centric DFG")
    ctx.nontrivial(len(ed) > 2 and (at + et > 2 or ann != "frequency"))


@st.composite
def ocdfg_c(draw):
    em = draw(st.sampled_from(["event_couples", "unique_objects", "total_objects"]))
    return {"log": draw(oc.spec(attrs=False, min_ob=1, all_rel=True)), "am": draw(st.sampled_from(["events", "unique_objects", "total_objects"])), "em": em, "ann": "frequency" if em == "unique_objects" else draw(st.sampled_from(["frequency", "performance"])), "at": draw(st.sampled_from([0, 0, 2, 3])), "et": draw(st.sampled_from([0, 0, 2, 3])), "ag": draw(st.sampled_from(["mean", "median", "min", "max", "sum"]))}


def ocpn(c, ctx):
    from pm4py.visualization.ocel.ocpn import visualizer as V
    o = oc.build(c["log"])
    m = pm4py.discover_oc_petri_net(o, diagnostics_with_tbr=c["tbr"])
    g = V.apply(m)
    N, E = {a: (a, "box", "") for a in m["activities"]}, []
    # transitions with one label are one node: edges carry the diagnostics, double arcs are thick
    for ot, (net, im, fm) in m["petri_nets"].items():
        pd_, tr = m["tbr_results"].get(ot, ({}, {}))
        for p in net.places:
            l = ot if p in im or p in fm else ""
            if p in pd_:
                d = pd_[p]
                l = "p=%d m=%d\nc=%d r=%d" % (d["p"], d["m"], d["c"], d["r"])
            N["p", ot, p.name] = (l, "ellipse" if p in im else "underline" if p in fm else "circle")
        for t in net.transitions:
            if t.label is None:
                N["t", ot, t.name] = ("", "box")
        tk = lambda t: t.label if t.label is not None else ("t", ot, t.name)
        for a in net.arcs:
            pt = a.source in net.places
            t, p = (a.target, a.source) if pt else (a.source, a.target)
            l = "%s/%s" % (tr.get(t, ""), "4" if m["double_arcs_on_activity"][ot].get(t.label) else "1")
            E.append((("p", ot, p.name), tk(t), l) if pt else (tk(t), ("p", ot, p.name), l))
    gn, ge, gd, cl = dot.parse(g)
    import networkx as nx
    A, B = nx.MultiDiGraph(), nx.MultiDiGraph()
    for k, x in gn.items():
        A.add_node(k, x=(x["label"], x["shape"]))
    for a, b, x in ge:
        A.add_edge(a, b, x="%s/%d" % (x["label"], float(x["penwidth"])))
    for k, x in N.items():
        B.add_node(k, x=x[:2])
    for a, b, l in E:
        B.add_edge(a, b, x=l)
    f = lambda G: sorted((d["x"]) for _, d in G.nodes(data=True))
    h = lambda G: sorted((G.nodes[a]["x"], G.nodes[b]["x"], d["x"]) for a, b, d in G.edges(data=True))
    req_eq(f(A), f(B), "object-centric Petri net: nodes")
    req_eq(h(A), h(B), "object-centric Petri net: arcs")
    require(nx.is_isomorphic(A, B, node_match=lambda p, q: p["x"] == q["x"], edge_match=lambda p, q: sorted(v["x"] for v in p.values()) == sorted(v["x"] for v in q.values())), "object-centric Petri net: other connections")
    ctx.nontrivial(len(m["petri_nets"]) > 1)


def ograph(c, ctx):
    from pm4py.visualization.ocel.object_graph import visualizer as V
    log = c["log"]
    o = oc.build(log)
    gs = {}
    k = c["k"]
    es = {(log["objects"][a % len(log["objects"])]["id"], log["objects"][b % len(log["objects"])]["id"]) for a, b in c["edges"]}
    g = V.apply(o, es, parameters={"directed": k})
    ns = {x for e in es for x in e}
    dot.same(g, {n: n for n in ns}, [(a, b, "") for a, b in es], "object graph", directed=k)
    ctx.nontrivial(len(es) > 2)


def netan(c, ctx):
    from pm4py.visualization.network_analysis import visualizer as V
    d = {}
    for a, b, l, v in c["edges"]:
        d.setdefault((a, b), {})[l] = v
    at, et, perf = c["at"], c["et"], c["perf"]
    if perf:
        g = V.apply({p: {l: [float(v), float(v) * 3] for l, v in q.items()} for p, q in d.items()}, variant=V.Variants.PERFORMANCE, parameters={"activity_threshold": at, "edge_threshold": et, "aggregation_measure": c["ag"]})
    else:
        g = V.apply(d, variant=V.Variants.FREQUENCY, parameters={"activity_threshold": at, "edge_threshold": et})
    if perf:
        return netperf(d, g, c, ctx)
    i, o = Counter(), Counter()
    for (a, b), q in d.items():
        for l, v in q.items():
            if v >= et:
                i[b] += v
                o[a] += v
    N = {x: "%s\n(in=%d; out=%d)" % (x, i[x], o[x]) for p in d for x in p if max(i[x], o[x]) >= at}
    E = [(a, b, "%s\n%d" % (l, v)) for (a, b), q in d.items() for l, v in q.items() if v >= et and a in N and b in N]
    dot.same(g, N, E, "network analysis")
    ctx.nontrivial(len(E) > 2 and at + et > 2)


def netperf(d, g, c, ctx):
    f = {"mean": mean, "median": median, "min": min, "max": max, "sum": sum}[c["ag"]]
    at, et = c["at"], c["et"]
    i, o = Counter(), Counter()
    for (a, b), q in d.items():
        for l, v in q.items():
            if 2 >= et:
                i[b] += 2
                o[a] += 2
    N = {x: "%s\n(in=%d; out=%d)" % (x, i[x], o[x]) for p in d for x in p if max(i[x], o[x]) >= at}
    E = [(a, b, "%s\n%s" % (l, dur(f([float(v), float(v) * 3])))) for (a, b), q in d.items() for l, v in q.items() if 2 >= et and a in N and b in N]
    dot.same(g, N, E, "network analysis (performance)")
    ctx.nontrivial(len(E) > 2)


@st.composite
def netan_c(draw):
    n = draw(st.integers(1, 4))
    labs = LAB[:n]
    es = draw(st.lists(st.tuples(st.sampled_from(labs), st.sampled_from(labs), st.sampled_from(["x", "y z"]), st.integers(1, 5)), min_size=1, max_size=6, unique_by=lambda x: x[:3]))
    return {"edges": [list(x) for x in es], "at": draw(st.sampled_from([1, 1, 2, 4])), "et": draw(st.sampled_from([1, 1, 2, 3])), "perf": draw(st.booleans()), "ag": draw(st.sampled_from(["mean", "median", "min", "max", "sum"]))}


# ---------------------------------------------------------------- charts
def chart(c, ctx):
    from pm4py.visualization.dotted_chart import visualizer as V
    log = build.fdf(c["log"])
    evs = [(e["t"], q["id"], e["a"]) for q in c["log"]["cases"] for e in q["events"]]
    xs = c["attrs"]
    col = {"t": "time:timestamp", "c": "case:concept:name", "a": "concept:name"}
    p = V.apply(log, [col[x] for x in xs], parameters={"format": "dot"})
    try:
        with open(p, encoding="utf-8") as F:
            src = F.read()
    finally:
        os.remove(p)
    gn, ge, gd, _ = dot.parse(src)
    ix = {"t": 0, "c": 1, "a": 2}
    pts = [[e[ix[x]] for x in xs] for e in evs]
    # the layout moves the whole chart: coordinates are taken from where the axes meet
    pos = {k: tuple(map(float, o["pos"].rstrip("!").split(","))) for k, o in gn.items()}
    req_eq(len(ge), 2, "axes")
    org = set(ge[0][:2]) & set(ge[1][:2])
    req_eq(len(org), 1, "origin")
    ox, oy = pos[org.pop()]
    pos = {k: (x - ox, y - oy) for k, (x, y) in pos.items()}
    dots = [(pos[k], gn[k]["fillcolor"]) for k in gn if gn[k].get("shape") == "circle" and pos[k][0] > 0.5 and pos[k][1] > 0.5]
    req_eq(len(dots), len(evs), "dots")

    def axis(j):
        v = sorted({q[j] for q in pts})
        if xs[j] == "t":
            lo, hi, n = v[0], v[-1], len(v)
            return {x: 500 * (1 / n + (n - 1) / n * (x - lo) / (hi - lo + 0.00001)) for x in v}
        L = max(10, len(v) * (1.8 if j == 0 else 0.75)) * 50
        return {x: (i + 1) / (len(v) + 1) * L for i, x in enumerate(v)}
    X, Y = axis(0), axis(1)
    exp = sorted((X[q[0]], Y[q[1]]) for q in pts)
    # every event has its dot
    left = [p for p, _ in dots]
    for a, b in exp:
        k = min(range(len(left)), key=lambda i: abs(left[i][0] - a) + abs(left[i][1] - b))
        require(abs(left[k][0] - a) < 0.6 and abs(left[k][1] - b) < 0.6, "no dot at %s", (a, b))
        left.pop(k)
    labs = Counter(o["label"] for o in gn.values() if o.get("shape") == "none")
    for j, x in enumerate(xs[:2]):
        require(labs[col[x]] >= 1, "label of the axis %s", col[x])
        if x != "t":
            for v in {q[j] for q in pts}:
                require(labs[str(v).strip()] >= 1, "label %s of the axis", v)
    if len(xs) == 3:
        cols = defaultdict(set)
        for (x, y), f in dots:
            cols[x, y, tuple(sorted(r[2] for r in pts if abs(X[r[0]] - x) < 0.6 and abs(Y[r[1]] - y) < 0.6))].add(f)
        one = defaultdict(set)
        for (x, y, vs), f in cols.items():
            if len(set(vs)) == 1:
                one[vs[0]] |= f
        for v, f in one.items():
            req_eq(len(f), 1, "colours of the dots with the value %s" % v)
    ctx.nontrivial(len(evs) > 4)


@st.composite
def chart_c(draw):
    return {"log": draw(gen.log(n_act=3, max_traces=4, gap=draw(st.sampled_from([5, 5000])))), "attrs": draw(st.sampled_from([["t", "c"], ["t", "a"], ["c", "a"], ["t", "c", "a"], ["a", "t"], ["t", "a", "c"]]))}


def spectrum(c, ctx):
    from pm4py.visualization.performance_spectrum import visualizer as V
    pts, acts = c["points"], c["acts"]
    p = V.apply({"list_activities": acts, "points": pts}, parameters={"format": "dot", "perc_paths": c["perc"]})
    try:
        with open(p, encoding="utf-8") as F:
            src = F.read()
    finally:
        os.remove(p)
    gn, ge, gd, _ = dot.parse(src)
    import math
    P = {k: tuple(map(float, o["pos"].rstrip("!").split(","))) for k, o in gn.items()}
    n = len(acts)
    # coordinates are taken from the start of the line of the last activity
    flat = [P[x] for a, b, _ in ge for x in (a, b) if P[a][1] == P[b][1]]
    ox, oy = min(x for x, _ in flat), min(y for _, y in flat)
    P = {k: (x - ox, y - oy) for k, (x, y) in P.items()}
    lo, hi = min(q[0] for q in pts), max(q[-1] for q in pts)
    keep = sorted(pts, key=lambda q: q[-1] - q[0], reverse=True)[:math.ceil(c["perc"] * len(pts))]
    Y = [300 * (n - i - 1) for i in range(n)]
    f = lambda t: round((t - lo) / (hi - lo) * 1000) if hi > lo else 0
    segs = Counter()
    for a, b, o in ge:
        (x1, y1), (x2, y2) = P[a], P[b]
        if y1 != y2:
            segs[round(x1), round(y1), round(x2), round(y2)] += 1
    lens = sorted(q[-1] - q[0] for q in pts)
    exp = Counter()
    for q in keep:
        for i in range(n - 1):
            exp[f(q[i]), Y[i], f(q[i + 1]), Y[i + 1]] += 1
    req_eq(sum(segs.values()), sum(exp.values()), "segments")
    if len(set(lens)) == len(lens) or len(keep) == len(pts):
        near = lambda a, b: all(abs(x - y) <= 1 for x, y in zip(a, b))
        left = list(segs.elements())
        for s in exp.elements():
            k = [i for i, x in enumerate(left) if near(x, s)]
            require(k, "no segment %s in %s", s, sorted(segs.elements()))
            left.pop(k[0])
    labs = [o["label"] for o in gn.values() if o["label"]]
    for a in acts:
        require(a in labs, "label %s", a)
    ctx.nontrivial(len(pts) > 2)


@st.composite
def spec_c(draw):
    n = draw(st.integers(2, 3))
    acts = draw(st.lists(st.sampled_from("ABCD"), min_size=n, max_size=n))
    pts = draw(st.lists(st.lists(st.integers(0, 60), min_size=n, max_size=n).map(sorted), min_size=1, max_size=5))
    return {"acts": acts, "points": [[1577836800.0 + x for x in q] for q in pts], "perc": draw(st.sampled_from([1.0, 1.0, 0.5]))}


UNITS = [
    Unit("petri", net_c(), petri, quick=350, shards=2, rule="more than four arcs, with weights or duplicated labels"),
    Unit("decorated", dec_c(), decorated, quick=200, shards=2, rule="several activities, or moves of both kinds"),
    Unit("dfg", dfg_c(), dfg, quick=400, shards=2, rule="durations, or edges left out"),
    Unit("tree", st.fixed_dictionaries({"tree": gen.tree(ops=("->", "X", "+", "*", "O", "<>"), pool=LAB[:8]), "k": st.sampled_from(["plain", "symbolic", "freq"])}), ptree, quick=250, rule="more than three edges"),
    Unit("bpmn", c11.diag(), bpmn, quick=250, rule="more than three flows"),
    Unit("powl", c17.powl(odd=False), powl, quick=250, rule="more than three edges"),
    Unit("trie", st.fixed_dictionaries({"traces": gen.traces()}), trie, quick=150, rule="more than four prefixes"),
    Unit("ts", ts_c(), tsys, quick=150, rule="more than three arcs"),
    Unit("footprints", foot_c(), foot, quick=250, rule="more than two activities"),
    Unit("alignments", dec_c(), atable, quick=120, rule="more than one variant"),
    Unit("heuristics", heur_c(), heur, quick=250, shards=2, rule="more than three edges"),
    Unit("ocdfg", ocdfg_c(), ocdfg, quick=250, shards=2, rule="more than two edges, with thresholds or durations"),
    Unit("ocpn", st.fixed_dictionaries({"log": oc.spec(attrs=False, all_rel=True), "tbr": st.booleans()}), ocpn, quick=120, shards=2, rule="more than one type"),
    Unit("ograph", st.fixed_dictionaries({"log": oc.spec(attrs=False), "k": st.booleans(), "edges": st.lists(st.tuples(st.integers(0, 5), st.integers(0, 5)).map(list), min_size=1, max_size=6)}), ograph, quick=120, rule="more than two edges"),
    Unit("network", netan_c(), netan, quick=200, rule="more than two edges"),
    Unit("chart", chart_c(), chart, quick=150, shards=2, rule="more than four events"),
    Unit("spectrum", spec_c(), spectrum, quick=120, rule="more than two paths"),
]
