"""C33 alignments against process trees, directly-follows graphs and other logs"""
from itertools import combinations
import heapq, warnings
from hypothesis import strategies as st
import gen, build, ref, nets
from core import Unit, require, req_eq
import pm4py
from pm4py.objects.log.obj import EventLog, Trace
from pm4py.algo.conformance.alignments.process_tree.variants import search_graph_pt as sg
from pm4py.algo.conformance.alignments.process_tree import algorithm as pta
from pm4py.algo.conformance.alignments.dfg.variants import classic as dc
from pm4py.algo.conformance.alignments.edit_distance.variants import edit_distance as ed
from pm4py.util import string_distance

META = dict(
    title="Alignments against trees, directly-follows graphs and logs are valid and minimal",
    statement="An alignment of a trace with a process tree or with a directly-follows graph replays the trace on its log side and an execution of the model on its model side, its cost counts its deviations and no alignment is cheaper, and its fitness is 1 - cost / (cost of the empty trace + trace length), 1 exactly for the traces of the model. An alignment of a trace with another log does the same for a variant of that log at minimal (anti-alignments: maximal) edit distance. The same result is reported for every trace of a variant, in the order of the log, by every entry point and log representation; projecting a log on a directly-follows graph or variant keeps the model side of its alignments.",
    over=["inputs"], quant="process trees (all operators, silent and repeated labels) / directly-follows graphs / logs x logs",
    why="tests align example logs with one tree; ties, choices, moves before the first and after the last event and empty traces matter",
    oracle="shortest path on (position, state) of an independent model: net of the tree with inclusive choices expanded, graph of the DFG; textbook Levenshtein distance",
    limits="Minimal cost is claimed for trees without loops nested in loops (see the known finding); directly-follows graphs where no end activity is reachable are not generated; alignments with a log are only claimed valid (difflib does not minimise). The approximated tree variants are out of scope.",
    files=["pm4py/algo/conformance/alignments/process_tree", "pm4py/algo/conformance/alignments/dfg", "pm4py/algo/conformance/alignments/edit_distance", "pm4py/util/string_distance.py", "pm4py/objects/log/util/log_regex.py", "pm4py/conformance.py"],
    mech=[("tree search", "pm4py/algo/conformance/alignments/process_tree/variants/search_graph_pt.py"), ("tree semantics", "pm4py/algo/conformance/alignments/process_tree/util/search_graph_pt_replay_semantics.py"), ("DFG search", "pm4py/algo/conformance/alignments/dfg/variants/classic.py"), ("edit distance", "pm4py/algo/conformance/alignments/edit_distance/variants/edit_distance.py")])
warnings.simplefilter("ignore")
W = 10000


def expand(t):
    """O(..) as an exclusive choice between the concurrent executions of the non-empty subsets"""
    if t is None or isinstance(t, str):
        return t
    cs = [expand(c) for c in t[1:]]
    if t[0] == "O":
        subs = [s for k in range(1, len(cs) + 1) for s in combinations(cs, k)]
        return ["X"] + [s[0] if len(s) == 1 else ["+"] + list(s) for s in subs]
    return [t[0]] + cs


def nested_loop(t, inside=False):
    if t is None or isinstance(t, str):
        return False
    return (t[0] == "*" and inside) or any(nested_loop(c, inside or t[0] == "*") for c in t[1:])


trace_ = lambda acts: st.lists(st.sampled_from(acts), max_size=7)
FLAG = st.sampled_from([False] * 4 + [True])


@st.composite
def tree_case(draw):
    ops = draw(st.sampled_from([("->", "X", "+"), ("->", "X", "+", "*"), ("->", "X", "+", "*", "O"), ("->", "X", "O"), ("->", "+"), ("->", "*", "X")]))
    t = draw(gen.tree(depth=3, ops=ops, dup=draw(st.booleans()), max_leaves=6))
    trs = [draw(trace_(list(draw(st.sampled_from(["abcd", "abcdefz", "ab"]))))) for _ in range(draw(st.integers(1, 4)))]
    return dict(t=t, trs=trs, noise=draw(st.lists(st.tuples(st.integers(0, 9), st.sampled_from("-+s"), st.sampled_from("abcdz")), max_size=2)), seed=draw(st.integers(0, 99)))


def mutate(tr, noise):
    tr = list(tr)
    for i, k, a in noise:
        i = i % (len(tr) + 1)
        if k == "+":
            tr.insert(i, a)
        elif k == "-":
            del tr[i:i + 1]
        elif i + 1 < len(tr):
            tr[i], tr[i + 1] = tr[i + 1], tr[i]
    return tr


def valid(al, tr, cost_of, what):
    require([a for a, b in al if a != ">>"] == list(tr), "%s: the log side %r is not the trace %r", what, al, tr)
    c = 0
    for a, b in al:
        lab = getattr(b, "label", b)
        require(not (a == ">>" and b == ">>"), "%s: empty move in %r", what, al)
        if a != ">>" and b != ">>":
            require(a == lab, "%s: synchronous move %r of different labels", what, (a, b))
        else:
            c += cost_of(a, lab)
    return c


def chk_tree(case, ctx):
    t = case["t"]
    L = ref.tree_lang(t, 5)
    trs = list(case["trs"])
    if L:
        for w in sorted(L, key=lambda w: ((len(w) * 7 + case["seed"]) % 11, w))[:3]:
            trs.append(mutate(w, case["noise"]))
            trs.append(list(w))
    trs = trs + trs[:1]
    pt = build.tree(t)
    r = nets.SNet(nets.tree_spec(expand(t)))
    empty = ref.align_cost(r, [])
    el = build.variants_log(trs)
    before = build.untree(pt)
    res = sg.apply(el, pt)
    req_eq(build.untree(pt), before, "tree after the alignment")
    req_eq(len(res), len(trs), "number of alignments")
    hard = nested_loop(t) and not case.get("strict")
    for tr, x in zip(trs, res):
        al = x["alignment"]
        c = valid(al, tr, lambda a, b: 1 if b is not None else 0, "tree")
        req_eq(x["cost"], c, "cost of %r" % al)
        vis = [b.label for a, b in al if b != ">>" and b.label is not None]
        require(ref.align_cost(r, vis) == 0, "the model side %r of the alignment of %r is no execution of the tree", vis, tr)
        opt = ref.align_cost(r, tr)
        require(x["cost"] >= opt, "cost below the minimum?")
        if not hard:
            req_eq(x["cost"], opt, "cost of the alignment of %r" % (tr,))
            bwc = len(tr) + empty
            require(abs(x["fitness"] - (1 - opt / bwc if bwc else 1.0)) < 1e-9, "fitness %r of %r with cost %r, worst %r", x["fitness"], tr, opt, bwc)
    ctx.nontrivial(len(set(map(tuple, trs))) >= 3 and any(ref.tree_has(t, o) for o in "X+O*") and any(x["cost"] == 0 for x in res) and any(x["cost"] for x in res))
    key = lambda x: ([(a, getattr(b, "label", b)) for a, b in x["alignment"]], x["cost"], x.get("fitness"))
    ks = [key(x) for x in res]
    # entry points
    for n, tr in enumerate(trs[:2]):
        req_eq(key(sg.apply(el[n], pt))[:2], ks[n][:2], "alignment of a single trace")
        req_eq(key(sg.apply_variant(tuple(tr), pt)), ks[n], "alignment of a variant")
    how = case["seed"] % 4
    if how == 0:
        req_eq([key(x) for x in sg.apply_from_variants_list([tuple(x) for x in trs], pt)], ks, "alignments of a list of variants")
    elif how == 1:
        req_eq([key(x) for x in pm4py.conformance_diagnostics_alignments(el, pt)], ks, "pm4py.conformance_diagnostics_alignments")
    elif all(trs):
        df = build.variants_df(trs)
        f = pta.apply if how == 2 else pm4py.conformance_diagnostics_alignments
        req_eq([key(x) for x in f(df, pt)], ks, "alignments of the dataframe")


# directly-follows graphs
@st.composite
def dfg_case(draw):
    A = list("abcdef"[:draw(st.integers(1, 6))])
    arcs = draw(st.dictionaries(st.tuples(st.sampled_from(A), st.sampled_from(A)), st.integers(1, 9), max_size=9))
    sa = draw(st.dictionaries(st.sampled_from(A), st.integers(1, 5), min_size=1, max_size=3))
    ea = draw(st.dictionaries(st.sampled_from(A), st.integers(1, 5), min_size=1, max_size=3))
    walk = []
    for _ in range(draw(st.integers(0, 2))):
        cur = draw(st.sampled_from(sorted(sa)))
        w = [cur]
        for _ in range(6):
            nx = sorted(b for a, b in arcs if a == cur)
            if not nx or draw(st.integers(0, 3)) == 0:
                break
            cur = draw(st.sampled_from(nx))
            w.append(cur)
        walk.append(mutate(w, draw(st.lists(st.tuples(st.integers(0, 9), st.sampled_from("-+s"), st.sampled_from("abcz")), max_size=2))))
    return dict(d=[[a, b, n] for (a, b), n in arcs.items()], sa=sa, ea=ea, trs=[draw(trace_(A + ["y", "z"])) for _ in range(draw(st.integers(1, 4)))] + walk, costs=draw(st.sampled_from([None, None, 1])), c=[draw(st.integers(1, 5)) for _ in range(8)])


def dfg_opt(d, sa, ea, tr, lm, mm):
    nxt = {}
    for a, b in d:
        nxt.setdefault(a, []).append(b)
    h, seen, k = [(0, 0, 0, None)], set(), 0
    while h:
        c, _, i, m = heapq.heappop(h)
        if (i, m) in seen:
            continue
        seen.add((i, m))
        if i == len(tr) and m == ("end",):
            return c
        nx = list(sa) if m is None else [] if m == ("end",) else nxt.get(m, [])
        out = []
        if i < len(tr):
            out.append((c + lm(tr[i]), i + 1, m))
        if isinstance(m, str) and m in ea:
            out.append((c, i, ("end",)))
        for x in nx:
            out.append((c + mm(x), i, x))
            if i < len(tr) and tr[i] == x:
                out.append((c, i + 1, x))
        for c2, i2, m2 in out:
            k += 1
            heapq.heappush(h, (c2, k, i2, m2))
    return None


def chk_dfg(case, ctx):
    d = {(a, b): n for a, b, n in case["d"]}
    sa, ea = dict(case["sa"]), dict(case["ea"])
    acts = {x for p in d for x in p} | set(sa) | set(ea)
    trs = [list(x) for x in case["trs"]]
    trs += trs[:1]
    lm = mm = lambda x: W
    par = {}
    empty = dfg_opt(d, sa, ea, [], lm, mm)
    if empty is None:
        ctx.label("no accepting run")
        return
    el = build.variants_log(trs)
    res = dc.apply(el, d, sa, ea, parameters=par)
    req_eq((sa, ea), (dict(case["sa"]), dict(case["ea"])), "arguments")
    req_eq(len(res), len(trs), "number of alignments")
    fit = 0
    for tr, x in zip(trs, res):
        al = x["alignment"]
        c = valid(al, tr, lambda a, b: W, "dfg")
        req_eq(x["cost"], c, "cost of %r" % al)
        w = [b for a, b in al if b != ">>"]
        require(w and w[0] in sa and w[-1] in ea and all(p in d for p in zip(w, w[1:])), "the model side %r of the alignment of %r is no path of the DFG", w, tr)
        req_eq(c, dfg_opt(d, sa, ea, tr, lm, mm), "cost of the alignment of %r" % (tr,))
        require(abs(x["fitness"] - (1 - c / (empty + W * len(tr)))) < 1e-9, "fitness of %r", tr)
        req_eq(x["bwc"], empty + W * len(tr), "worst cost")
        fit += c == 0
    ctx.nontrivial(len(d) >= 2 and any(x["cost"] for x in res) and any(a == ">>" for x in res for a, b in x["alignment"]))
    if fit:
        ctx.label("with fitting trace")
    key = lambda x: (x["alignment"], x["cost"])
    ks = [key(x) for x in res]
    req_eq([x["fitness"] for x in pm4py.conformance_diagnostics_alignments(el, d, sa, ea)], [x["fitness"] for x in res], "pm4py on the log")
    for n in range(min(3, len(trs))):
        req_eq(dc.apply(el[n], d, sa, ea)["cost"], ks[n][1], "alignment of a single trace")
    var = [(tuple(t), 1) for t in trs]
    req_eq({k: x["cost"] for k, x in dc.apply_from_variants_list(var, d, sa, ea).items()}, {tuple(t): k[1] for t, k in zip(trs, ks)}, "alignments of a list of variants")
    if all(trs):
        df = build.variants_df(trs)
        req_eq([(x["cost"], x["fitness"]) for x in pm4py.conformance_diagnostics_alignments(df, d, sa, ea)], [(x["cost"], x["fitness"]) for x in res], "pm4py on the dataframe")
    pl = dc.project_log_on_dfg(el, d, sa, ea)
    chk_projected(pl, el, trs, lambda w: w and w[0] in sa and w[-1] in ea and all(p in d for p in zip(w, w[1:])), [x["cost"] for x in res])


def chk_projected(pl, el, trs, ok, costs=None):
    req_eq(len(pl), len(el), "traces of the projected log")
    for n, (p, tr) in enumerate(zip(pl, trs)):
        if not tr:
            continue
        w = [e["concept:name"] for e in p]
        require(ok(w), "projected trace %r", w)
        sync = [e for e in p if e["@@is_conforming"]]
        if costs is not None:
            req_eq((len(w) - len(sync)) + (len(tr) - len(sync)), costs[n] // W, "deviations of the projected trace")
        # the conforming events are events of the trace, in order, with their timestamps
        i = 0
        for e in sync:
            while i < len(tr) and not (tr[i] == e["concept:name"] and el[n][i]["time:timestamp"] == e["time:timestamp"]):
                i += 1
            require(i < len(tr), "conforming event %r %s is no (later) event of the trace %r", e["concept:name"], e["time:timestamp"], [(x["concept:name"], str(x["time:timestamp"])) for x in el[n]])
            i += 1


# log to log
@st.composite
def edit_case(draw):
    A = list("abcde")
    l2 = [draw(trace_(A)) for _ in range(draw(st.integers(1, 5)))]
    l1 = [draw(trace_(A + ["z"])) for _ in range(draw(st.integers(0, 3)))]
    l1 += [mutate(draw(st.sampled_from(l2)), draw(st.lists(st.tuples(st.integers(0, 9), st.sampled_from("-+s"), st.sampled_from("abcz")), max_size=2))) for _ in range(draw(st.integers(0, 3)))]
    return dict(a=l1 or [["a"]], b=l2, anti=draw(FLAG))


def lev(a, b):
    row = list(range(len(b) + 1))
    for i, x in enumerate(a, 1):
        new = [i]
        for j, y in enumerate(b, 1):
            new.append(min(row[j] + 1, new[-1] + 1, row[j - 1] + (x != y)))
        row = new
    return row[-1]


def chk_edit(case, ctx):
    l1, l2 = case["a"], case["b"]
    l1 = l1 + l1[:1]
    e1, e2 = build.variants_log(l1), build.variants_log(l2)
    anti = case["anti"]
    res = ed.apply(e1, e2, parameters={"perform_anti_alignment": True}) if anti else pm4py.conformance_diagnostics_alignments(e1, e2)
    req_eq(len(res), len(l1), "number of alignments")
    vs = {tuple(x) for x in l2}
    short = min(map(len, l2))
    best = max if anti else min
    for tr, x in zip(l1, res):
        al = x["alignment"]
        c = valid(al, tr, lambda a, b: W, "log")
        req_eq(x["cost"], c, "cost of %r" % al)
        w = tuple(b for a, b in al if b != ">>")
        require(w in vs, "the model side %r is no trace of the second log", w)
        req_eq(lev(tr, w), best(lev(tr, v) for v in vs), "edit distance of %r to the chosen trace %r" % (tr, w))
        req_eq(x["bwc"], W * (len(tr) + short), "worst cost")
        f = 1 if c == 0 else 1 - c / W / (len(tr) + short) if len(tr) + short else 0
        require(abs(x["fitness"] - f) < 1e-9, "fitness %r of %r", x["fitness"], tr)
        if not anti:
            req_eq(x["cost"] == 0, tuple(tr) in vs, "cost 0 exactly for the traces of the second log")
    ctx.nontrivial(len(vs) >= 3 and any(x["cost"] for x in res) and len(set(map(tuple, l1))) >= 2)
    if all(l1) and all(l2) and not anti:
        r2 = pm4py.conformance_diagnostics_alignments(build.variants_df(l1), build.variants_df(l2))
        req_eq([lev(t, [b for a, b in x["alignment"] if b != ">>"]) for t, x in zip(l1, r2)], [lev(t, [b for a, b in x["alignment"] if b != ">>"]) for t, x in zip(l1, res)], "alignments of the dataframes")
        for t, x in zip(l1, r2):
            valid(x["alignment"], t, lambda a, b: W, "dataframe")
    v = l2[0]
    pl = ed.project_log_on_variant(e1, v)
    chk_projected(pl, e1, l1, lambda w: w == v)
    # distances of strings
    ss = ["".join(x) for x in l2]
    for tr in l1:
        s = "".join(tr)
        for z in ss:
            req_eq(string_distance.levenshtein(s, z), lev(s, z), "levenshtein(%r, %r)" % (s, z))
        req_eq(lev(s, string_distance.argmin_levenshtein(s, ss)), min(lev(s, z) for z in ss), "argmin_levenshtein")
        req_eq(lev(s, string_distance.argmax_levenshtein(s, ss)), max(lev(s, z) for z in ss), "argmax_levenshtein")


UNITS = [Unit("tree", tree_case(), chk_tree, quick=330, shards=3, rule="tree with a choice, concurrency or loop; >= 3 distinct traces, some fitting and some not"),
         Unit("dfg", dfg_case(), chk_dfg, quick=500, rule=">= 2 arcs, a deviating trace and a move on the model"),
         Unit("edit", edit_case(), chk_edit, quick=300, rule=">= 3 variants to align with, >= 2 distinct traces, one not among them")]
