"""C66 command line interface"""
import os, re, sys, io, shutil, tempfile, contextlib
from collections import Counter
import pandas as pd
from hypothesis import strategies as st
import gen, build, ref
from core import Unit, require, req_eq
import pm4py

META = dict(
    title="The command line interface computes the named function for every input",
    statement="A method of the command line interface reads the given file (or every file of the given folders with the right extension, in all combinations), computes the function it is named after, and writes the result to the given file (or to one file per combination in the output folder, named after inputs and method, with the extension of its content). "
              "Existing results are kept, a file that cannot be processed does not keep the others from being processed, and unknown methods are refused.",
    over=["inputs"], quant="generated logs, models and graphs, single files and folders, for the conversion, discovery, conformance, filtering, play-out and generation methods",
    why="the command line interface has no tests at all",
    oracle="the definition (directly-follows graph, languages of trees, filters on the cases), or the function of the simplified interface on the same files",
    limits="Of pictures only the kind of file is judged; events of a case have distinct timestamps.",
    files=["pm4py/cli.py"], mech=[("cli_interface", "pm4py/cli.py")])

LOGM = ["ConvertToXES", "ConvertToCSV", "DiscoverPetriNetAlpha", "DiscoverPetriNetInductive", "DiscoverPetriNetHeuristics", "DiscoverBPMNInductive", "DiscoverProcessTreeInductive", "DiscoverDFG",
        "FilterVariantsTopK", "FilterVariantsCoverage", "FilterCasePerformance", "FilterTimeRange", "FilterTimeRange", "FilterCasePerformance"]
MODM = ["ConvertPNMLtoBPMN", "ConvertPNMLtoPTML", "ConvertPTMLtoPNML", "ConvertPTMLtoBPMN", "ConvertBPMNtoPNML", "ConvertDFGtoPNML", "PNMLplayout", "PTMLplayout", "DFGplayout", "GenerateProcessTree"]
CONM = ["ConformanceDiagnosticsTBR", "ConformanceDiagnosticsAlignments", "FitnessTBR", "FitnessAlignments", "PrecisionTBR", "PrecisionAlignments"]
VISM = ["SaveVisDFG", "SaveVisPNML", "SaveVisBPMN", "SaveVisPTML", "SaveVisTransitionSystem", "SaveVisTrie"]
IN = {"ConvertToXES": ".csv", "ConvertPNMLtoBPMN": ".pnml", "ConvertPNMLtoPTML": ".pnml", "ConvertPTMLtoPNML": ".ptml", "ConvertPTMLtoBPMN": ".ptml", "ConvertBPMNtoPNML": ".bpmn", "ConvertDFGtoPNML": ".dfg",
      "PNMLplayout": ".pnml", "PTMLplayout": ".ptml", "DFGplayout": ".dfg", "SaveVisDFG": ".dfg", "SaveVisPNML": ".pnml", "SaveVisBPMN": ".bpmn", "SaveVisPTML": ".ptml"}
OUT = {"ConvertToXES": ".xes", "ConvertToCSV": ".csv", "ConvertPNMLtoBPMN": ".bpmn", "ConvertPNMLtoPTML": ".ptml", "ConvertPTMLtoPNML": ".pnml", "ConvertPTMLtoBPMN": ".bpmn", "ConvertBPMNtoPNML": ".pnml", "ConvertDFGtoPNML": ".pnml",
       "DiscoverBPMNInductive": ".bpmn", "DiscoverProcessTreeInductive": ".ptml", "DiscoverDFG": ".dfg", "GenerateProcessTree": ".ptml"}


def out_ext(m):
    if m in OUT:
        return OUT[m]
    if m.startswith("Discover"):
        return ".pnml"
    return ".txt" if m in CONM else ".png" if m in VISM else ".xes"


def cli(*args):
    from pm4py import cli as C
    old = sys.argv
    o, e = io.StringIO(), io.StringIO()
    sys.argv = ["cli.py"] + [str(a) for a in args]
    try:
        with contextlib.redirect_stdout(o), contextlib.redirect_stderr(e):
            C.cli_interface()
    finally:
        sys.argv = old
    return e.getvalue()


def evs(log):
    """rows of a log: sequence of (case, [(activity, time)])"""
    return sorted((c["id"], [(e["a"], build.ts(e["t"])) for e in c["events"]]) for c in log["cases"])


def rows(df):
    df = pm4py.convert_to_dataframe(df)
    d = {}
    for c, a, t in zip(df["case:concept:name"], df["concept:name"], df["time:timestamp"]):
        d.setdefault(str(c), []).append((a, pd.Timestamp(t)))
    return sorted(d.items())


def same_log(got, exp, what):
    exp = [(c, [(a, pd.Timestamp(t)) for a, t in v]) for c, v in exp]
    req_eq([c for c, _ in got], [c for c, _ in exp], what + ": cases")
    for (c, g), (_, e) in zip(got, exp):
        req_eq([a for a, _ in g], [a for a, _ in e], "%s: activities of %s" % (what, c))
        require(all(x[1] == y[1] for x, y in zip(g, e)), "%s: times of %s: %s instead of %s", what, c, g, e)


def write_input(kind, x, p):
    if kind == ".xes":
        pm4py.write_xes(build.elog(x), p)
    elif kind == ".csv":
        build.df(x).to_csv(p, index=False)
    elif kind == ".pnml":
        pm4py.write_pnml(*pm4py.convert_to_petri_net(build.tree(x)), p)
    elif kind == ".ptml":
        pm4py.write_ptml(build.tree(x), p)
    elif kind == ".bpmn":
        pm4py.write_bpmn(pm4py.convert_to_bpmn(build.tree(x)), p)
    elif kind == ".dfg":
        d, s, e = dfg_of(x)
        pm4py.write_dfg(d, s, e, p)


def dfg_of(log):
    trs = [[e["a"] for e in c["events"]] for c in log["cases"]]
    return dict(Counter(z for t in trs for z in zip(t, t[1:]))), dict(Counter(t[0] for t in trs)), dict(Counter(t[-1] for t in trs))


L = 4


def lang(p):
    """bounded language of the model in a file"""
    if p.endswith(".ptml"):
        return ref.tree_lang(build.untree(pm4py.read_ptml(p)), L)
    if p.endswith(".bpmn"):
        return ref.net_lang(*pm4py.convert_to_petri_net(pm4py.read_bpmn(p)), L)
    return ref.net_lang(*pm4py.read_pnml(p), L)


def dfg_paths(log):
    d, s, e = dfg_of(log)
    cur, out = [(a,) for a in s], set()
    for _ in range(L):
        out |= {w for w in cur if w[-1] in e}
        cur = [w + (b,) for w in cur for a, b in d if a == w[-1]]
    return out


def judge(m, x, par, src, out, ctx):
    """the file out is the result of method m on the input x written in src"""
    if m in VISM:
        require(open(out, "rb").read(4) == b"\x89PNG", "%s: not a picture", m)
    elif m in ("ConvertToXES", "ConvertToCSV"):
        if m == "ConvertToXES":
            g = rows(pm4py.read_xes(out))
        else:
            d = pd.read_csv(out, dtype={"case:concept:name": str})
            d["time:timestamp"] = pd.to_datetime(d["time:timestamp"], utc=True, format="ISO8601")
            g = rows(d)
        same_log(g, evs(x), m)
    elif m == "DiscoverDFG":
        req_eq(tuple(map(dict, pm4py.read_dfg(out))), dfg_of(x), m)
    elif m.startswith("Discover"):
        log = pm4py.read_xes(src)
        f = {"DiscoverPetriNetAlpha": pm4py.discover_petri_net_alpha, "DiscoverPetriNetInductive": pm4py.discover_petri_net_inductive, "DiscoverPetriNetHeuristics": pm4py.discover_petri_net_heuristics,
             "DiscoverBPMNInductive": lambda l: pm4py.convert_to_petri_net(pm4py.discover_bpmn_inductive(l)), "DiscoverProcessTreeInductive": pm4py.discover_process_tree_inductive}[m]
        r = f(log)
        if m == "DiscoverProcessTreeInductive":
            req_eq(build.untree(pm4py.read_ptml(out)), build.untree(r), m)
        else:
            req_eq(lang(out), ref.net_lang(*r, L), m + ": language")
    elif m == "GenerateProcessTree":
        t = build.untree(pm4py.read_ptml(out))
        req_eq(len(ref.tree_labels(t)), par[0], m + ": activities")
    elif m.endswith("playout"):
        w = {tuple(e["concept:name"] for e in t) for t in pm4py.read_xes(out, return_legacy_log_object=True)}
        require(len(w) > 0, "%s: empty log", m)
        if m == "DFGplayout":
            d, s, e = dfg_of(x)
            for t in w:
                require(t[0] in s and t[-1] in e and all(z in d for z in zip(t, t[1:])), "%s: %s is no path of %s", m, t, (d, s, e))
        else:
            for t in w:
                require(ref.tree_accepts(x, t), "%s: %s is not accepted by %s", m, t, x)
    elif m.startswith("Convert"):
        exp = dfg_paths(x) if m == "ConvertDFGtoPNML" else ref.tree_lang(x, L)
        req_eq(lang(out), exp, m + ": language")
    elif m.startswith("Filter"):
        cs = evs(x)
        if m == "FilterCasePerformance":
            exp = [c for c in cs if par[0] <= (c[1][-1][1] - c[1][0][1]).total_seconds() <= par[1]]
        elif m == "FilterTimeRange":
            a, b = pd.Timestamp(par[0] + " 00:00:00", tz="UTC"), pd.Timestamp(par[1] + " 23:59:59", tz="UTC")
            exp = [(c, [e for e in v if a <= e[1] <= b]) for c, v in cs]
            exp = [c for c in exp if c[1]]
        else:
            f = {"FilterVariantsTopK": pm4py.filter_variants_top_k, "FilterVariantsCoverage": pm4py.filter_variants_by_coverage_percentage}[m]
            keep = {c for c, _ in rows(f(pm4py.read_xes(src), par[0]))}
            exp = [c for c in cs if c[0] in keep]
        same_log(rows(pm4py.read_xes(out)) if exp else [], exp, m)
        ctx.label("some left" if 0 < len(exp) < len(cs) else "all or none")


@st.composite
def case_st(draw):
    m = draw(st.sampled_from(LOGM + MODM + MODM + VISM[:1]))
    k = draw(st.sampled_from([1, 1, 1, 2, 3]))
    kind = IN.get(m, ".xes")
    par = []
    if m == "FilterVariantsTopK":
        par = [draw(st.integers(1, 3))]
    elif m == "FilterVariantsCoverage":
        par = [draw(st.sampled_from([0.1, 0.2, 0.25, 0.34, 0.5]))]
    elif m == "FilterCasePerformance":
        lo = draw(st.sampled_from([0, 1, 60, 86400]))
        par = [lo, lo + draw(st.sampled_from([0, 1, 5, 3600, 86400, 900000]))]
    elif m == "FilterTimeRange":
        a, b = sorted([draw(st.integers(0, 5)), draw(st.integers(0, 5))])
        par = [str((build.ts(0) + pd.Timedelta(days=z)).date()) for z in (a, b)]
    elif m == "GenerateProcessTree":
        return {"m": m, "xs": [None], "par": [draw(st.integers(2, 7))], "folder": False, "exists": False, "broken": False, "names": 0}
    if kind in (".xes", ".csv", ".dfg"):
        g = gen.log(max_traces=4, max_len=4, equal_ts=False, gap=2)
        xs = []
        for _ in range(k):
            l = draw(g)
            if m == "FilterTimeRange" or draw(st.booleans()):
                for c in l["cases"]:
                    for e in c["events"]:
                        e["t"] = e["t"] * 20000
            xs.append(l)
    else:
        xs = [draw(gen.tree(depth=2, max_leaves=4, dup=False, ops=("->", "X", "+", "*"))) for _ in range(k)]
        if m == "ConvertPNMLtoPTML":
            xs = [draw(gen.tree(depth=2, max_leaves=4, dup=False, ops=("->", "X", "+"), tau=False)) for _ in range(k)]
    return {"m": m, "xs": xs, "par": par, "folder": k > 1, "exists": draw(st.sampled_from([False] * 4 + [True])), "broken": draw(st.sampled_from([False] * 3 + [True])), "names": draw(st.integers(0, 2))}


def check_cli(case, ctx):
    m, xs, par = case["m"], case["xs"], case["par"]
    import random
    random.seed(1)
    ctx.label(m, "folder" if case["folder"] else "file")
    ext, oext = IN.get(m, ".xes"), out_ext(m)
    with tempfile.TemporaryDirectory() as T:
        if m == "GenerateProcessTree":
            out = os.path.join(T, "t.ptml")
            err = cli(m, par[0], out)
            require(os.path.exists(out), "%s: no result: %s", m, err[-400:])
            judge(m, None, par, None, out, ctx)
            return
        D = os.path.join(T, "in")
        os.mkdir(D)
        names = [["a", "b", "c"], ["log 1", "x.y", "z"], ["Ab_c", "c_", "d-e"]][case["names"]][:len(xs)]
        for n, x in zip(names, xs):
            write_input(ext, x, os.path.join(D, n + ext))
        ctx.nontrivial(len(xs) > 1 or par)
        if not case["folder"]:
            src, out = os.path.join(D, names[0] + ext), os.path.join(T, "res" + oext)
            if case["exists"]:
                open(out, "w").write("kept")
            err = cli(m, src, *par, out)
            req_eq(sorted(os.listdir(T)), sorted(["in", "res" + oext]), "%s: files (%s)" % (m, err[-300:]))
            if case["exists"]:
                req_eq(open(out).read(), "kept", m + ": the existing result")
            else:
                judge(m, xs[0], par, src, out, ctx)
            return
        O = os.path.join(T, "out")
        open(os.path.join(D, "other.txt"), "w").write("other")
        shutil.copy(os.path.join(D, names[0] + ext), os.path.join(D, "old" + ext + ".bak"))
        os.mkdir(os.path.join(D, "sub" + ext))
        if case["broken"]:
            open(os.path.join(D, "0bad" + ext), "w").write("<broken")
        stem = lambda n: "_".join([n] + [os.path.splitext(str(p))[0] for p in par]) + "_" + m + oext
        if case["exists"]:
            os.mkdir(O)
            open(os.path.join(O, stem(names[0])), "w").write("kept")
        err = cli(m, D, *par, O)
        got = [f for f in os.listdir(O) if not f.startswith("0bad")]
        req_eq(sorted(got), sorted(map(stem, names)), "%s: results (%s)" % (m, err[-300:]))
        for i, (n, x) in enumerate(zip(names, xs)):
            if case["exists"] and i == 0:
                req_eq(open(os.path.join(O, stem(n))).read(), "kept", m + ": the existing result")
            else:
                judge(m, x, par, os.path.join(D, n + ext), os.path.join(O, stem(n)), ctx)


def nums(text, keys):
    return [re.findall(r"'%s': ([-\w.]+)" % k, text) for k in keys]


def check_conf(case, ctx):
    """a log and a net, or folders of them"""
    m = case["m"]
    ctx.label(m)
    with tempfile.TemporaryDirectory() as T:
        A, B, O = (os.path.join(T, n) for n in ("logs", "nets", "out"))
        for d in (A, B, O):
            os.mkdir(d)
        ls, ns = [], []
        for i, l in enumerate(case["logs"]):
            ls.append(os.path.join(A, "l%d.xes" % i))
            write_input(".xes", l, ls[-1])
        for i, t in enumerate(case["trees"]):
            ns.append(os.path.join(B, "n%d.pnml" % i))
            write_input(".pnml", t, ns[-1])
        multi = len(ls) * len(ns) > 1
        ctx.nontrivial(multi)
        a, b = A if len(ls) > 1 else ls[0], B if len(ns) > 1 else ns[0]
        err = cli(m, a, b, O if multi else os.path.join(O, "l0_n0_%s.txt" % m))
        req_eq(sorted(os.listdir(O)), sorted("l%d_n%d_%s.txt" % (i, j, m) for i in range(len(ls)) for j in range(len(ns))), "%s: results (%s)" % (m, err[-300:]))
        for i, lp in enumerate(ls):
            for j, np_ in enumerate(ns):
                text = open(os.path.join(O, "l%d_n%d_%s.txt" % (i, j, m))).read()
                log, net = pm4py.read_xes(lp), pm4py.read_pnml(np_)
                f = {"ConformanceDiagnosticsTBR": pm4py.conformance_diagnostics_token_based_replay, "ConformanceDiagnosticsAlignments": pm4py.conformance_diagnostics_alignments, "FitnessTBR": pm4py.fitness_token_based_replay,
                     "FitnessAlignments": pm4py.fitness_alignments, "PrecisionTBR": pm4py.precision_token_based_replay, "PrecisionAlignments": pm4py.precision_alignments}[m]
                exp = f(log, *net)
                if m.startswith("Conf"):
                    keys = ["cost", "fitness"] if m.endswith("Alignments") else ["trace_is_fit", "missing_tokens", "consumed_tokens", "remaining_tokens", "produced_tokens"]
                    req_eq(nums(text, keys), nums(str(exp), keys), m)
                    req_eq(len(nums(text, keys)[0]), len(case["logs"][i]["cases"]), m + ": cases")
                else:
                    e = exp if isinstance(exp, dict) else {"v": exp}
                    g = eval(text, {"np": __import__("numpy")})
                    g = g if isinstance(g, dict) else {"v": g}
                    req_eq(set(g), set(e), m)
                    require(all(abs(g[k] - e[k]) < 1e-9 for k in e), "%s: %s instead of %s", m, g, e)


def check_misc(case, ctx):
    ctx.nontrivial()
    with tempfile.TemporaryDirectory() as T:
        src, out = os.path.join(T, "x" + IN.get(case["m"], ".xes")), os.path.join(T, "res.png")
        write_input(IN.get(case["m"], ".xes"), case["tree"] if IN.get(case["m"]) in (".pnml", ".ptml", ".bpmn") else case["log"], src)
        err = cli(case["m"], src, out)
        require(os.path.exists(out), "%s: no result: %s", case["m"], err[-400:])
        judge(case["m"], None, [], src, out, ctx)
        before = sorted(os.listdir(T))
        try:
            cli(case["m"] + "X", src, os.path.join(T, "other"))
            ok = False
        except Exception:
            ok = True
        require(ok, "an unknown method was accepted")
        req_eq(sorted(os.listdir(T)), before, "files after an unknown method")


SL = gen.log(max_traces=3, max_len=4, equal_ts=False, gap=2)
ST = gen.tree(depth=2, max_leaves=4)
CT = gen.tree(depth=2, max_leaves=4, dup=False, tau=False, ops=("->", "X", "+"), pool=gen.ACTS)   # no invisible transition: the replay is deterministic
UNITS = [
    Unit("files", case_st(), check_cli, 360, shards=3, rule="several input files, or a filter"),
    Unit("conformance", st.fixed_dictionaries({"m": st.sampled_from(CONM), "logs": st.lists(SL, min_size=1, max_size=2), "trees": st.lists(CT, min_size=1, max_size=2)}), check_conf, 100, shards=2, rule="several combinations of log and net"),
    Unit("pictures", st.fixed_dictionaries({"m": st.sampled_from(VISM), "log": SL, "tree": ST}), check_misc, 24, shards=1, rule="every case"),
]
