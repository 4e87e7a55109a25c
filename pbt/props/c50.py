"""C50 streaming algorithms"""
import json, random, datetime, logging
from collections import Counter
from hypothesis import strategies as st
from core import Unit, require, req_eq
import pm4py
import gen, nets, build
import ref as R
from pm4py.objects.log.obj import Event
from pm4py.algo.discovery.footprints import algorithm as fpd
from pm4py.streaming.util.dictio import generator
from pm4py.streaming.algo.discovery.dfg import algorithm as sdfg
from pm4py.streaming.algo.conformance.footprints import algorithm as sfp
from pm4py.streaming.algo.conformance.tbr import algorithm as stbr
from pm4py.streaming.algo.conformance.temporal import algorithm as stemp

META = dict(
    title="Streaming algorithms agree with their definition on the events so far",
    statement="After any prefix of a stream, with the cases interleaved in any way, the streaming directly-follows graph is the one of the events received so far; the streaming footprints conformance reports a case as fit exactly if all its activities, pairs, start and (on termination) end are allowed by the footprints; the streaming temporal profile reports exactly the deviating pairs of events of every case; the streaming token-based replay gives every case the tokens of its own events only, and calls it fit only if the net accepts it. "
              "Events without case or activity are ignored, and terminating a case frees it.",
    over=["inputs", "histories"], quant="all merges of up to 6 cases, moments of inspection and termination, footprints, profiles, and Petri nets (weighted, with silent transitions, state machines)",
    why="the repository has no test of the streaming algorithms; correctness must hold for every interleaving and moment",
    oracle="definitions on the prefix of every case; a reference token game; acceptance by an independent search",
    limits="Token-based replay takes silent transitions along shortest paths: exact token counts are judged for nets without silent transitions and with unique labels, exact fitness also for state machines; for other nets only that a case called fit is accepted. Cases with unknown activities only are not judged.",
    files=["pm4py/streaming/algo/discovery/dfg", "pm4py/streaming/algo/conformance/footprints", "pm4py/streaming/algo/conformance/tbr", "pm4py/streaming/algo/conformance/temporal", "pm4py/streaming/util/dictio"],
    mech=[("DFG", "pm4py/streaming/algo/discovery/dfg/variants/frequency.py"), ("footprints", "pm4py/streaming/algo/conformance/footprints/variants/classic.py"), ("token replay", "pm4py/streaming/algo/conformance/tbr/variants/classic.py"), ("temporal", "pm4py/streaming/algo/conformance/temporal/variants/classic.py")])
logging.disable(logging.CRITICAL)
VARS = {"classic": generator.Variants.CLASSIC, "safe": generator.Variants.THREAD_SAFE}
BASE = datetime.datetime(2024, 1, 1, tzinfo=datetime.timezone.utc)


def merged(c):
    """events of the cases in the drawn interleaving: [(case id, activity, index in the case)]"""
    pos = [0] * len(c["traces"])
    out = []
    order = list(c["order"])
    k = 0
    while True:
        left = [i for i, t in enumerate(c["traces"]) if pos[i] < len(t)]
        if not left:
            return out
        i = left[order[k % len(order)] % len(left)] if order else left[0]
        k += 1
        out.append((c["ids"][i], c["traces"][i][pos[i]], pos[i]))
        pos[i] += 1


def by_case(evs):
    d = {}
    for x in evs:
        d.setdefault(str(x[0]), []).append(x[1])
    return d


def params(c, more=None):
    p = {"dict_variant": VARS[c["dict"]]}
    if c["keys"]:
        p.update({"pm4py:param:case_id_key": "my case", "pm4py:param:activity_key": "act", "pm4py:param:timestamp_key": "when"})
    p.update(more or {})
    from pm4py.util import constants
    ren = {"pm4py:param:case_id_key": constants.PARAMETER_CONSTANT_CASEID_KEY, "pm4py:param:activity_key": constants.PARAMETER_CONSTANT_ACTIVITY_KEY, "pm4py:param:timestamp_key": constants.PARAMETER_CONSTANT_TIMESTAMP_KEY}
    return {ren.get(k, k): v for k, v in p.items()}


def event(c, x, t=None):
    ck, ak, tk = ("my case", "act", "when") if c["keys"] else ("case:concept:name", "concept:name", "time:timestamp")
    e = {ck: x[0], ak: x[1], "extra": 1}
    if t is not None:
        e[tk] = t
    return Event(e)


def noise(c, algo):
    """incomplete events, to be ignored"""
    if c["noise"]:
        e = dict(event(c, ("c1", "A")))
        for k in list(e)[:2]:
            algo.receive(Event({q: v for q, v in e.items() if q != k}))


def labels(c, ctx):
    ids = [x[0] for x in merged(c)]
    inter = any(ids[i] == ids[j] and ids[k] != ids[i] for i in range(len(ids)) for k in range(i + 1, len(ids)) for j in range(k + 1, len(ids)))
    ctx.label("interleaved" if inter else "sequential", c["dict"])
    return inter


def dfg(c, ctx):
    inter = labels(c, ctx)
    evs = merged(c)
    ctx.nontrivial(inter and len(evs) > 3)
    algo = sdfg.apply(parameters=params(c))
    cut = c["cut"] % (len(evs) + 1)
    for k in range(len(evs) + 1):
        if k == cut or k == len(evs):
            noise(c, algo)
            got = algo.get()
            require(got is not None, "no result after %d events", k)
            trs = list(by_case(evs[:k]).values())
            dfg_ = Counter((a, b) for t in trs for a, b in zip(t, t[1:]))
            req_eq([dict(x) for x in got], [dict(dfg_), dict(Counter(a for t in trs for a in t)), dict(Counter(t[0] for t in trs)), dict(Counter(t[-1] for t in trs))], "(dfg, activities, start, end) after %d events" % k)
            if trs:
                b = pm4py.discover_dfg(build.variants_log(trs))
                req_eq((dict(got[0]), dict(got[2]), dict(got[3])), tuple(dict(x) for x in b), "streaming vs batch DFG after %d events" % k)
        if k < len(evs):
            algo.receive(event(c, evs[k]))


def fp(c, ctx):
    inter = labels(c, ctx)
    evs = merged(c)
    A = sorted({a for t in c["traces"] for a in t} | {"A", "B"})
    rng = random.Random(c["seed"])
    known = {a for a in A if rng.random() < 0.85} or {A[0]}
    trs = c["traces"]
    pairs = {(a, b) for t in trs for a, b in zip(t, t[1:])}
    allowed = {p for p in pairs if rng.random() < c["keep"]}
    par = {p for p in allowed if rng.random() < 0.4}
    F = {"activities": known, "sequence": allowed - par, "parallel": par,
         "start_activities": {t[0] for t in trs if t and rng.random() < c["keep"]} | {A[0]}, "end_activities": {t[-1] for t in trs if t and rng.random() < c["keep"]} | {A[-1]}}
    if c["batch"]:
        F = fpd.apply(build.variants_log([t for t in trs if rng.random() < c["keep"]] + [["A"]]), variant=fpd.Variants.ENTIRE_EVENT_LOG)
        known = set(F["activities"])
        allowed = set(F["sequence"]) | set(F["parallel"])
    algo = sfp.apply(F, parameters=params(c))

    def dev(t, end=False):
        k = [a for a in t if a in known]
        n = len(t) - len(k) + sum(p not in allowed for p in zip(k, k[1:])) + (k[0] not in F["start_activities"]) + (end and k[-1] not in F["end_activities"])
        return n
    cut = c["cut"] % (len(evs) + 1)
    seen = set()
    for k in range(len(evs) + 1):
        if k == cut or k == len(evs):
            noise(c, algo)
            cur = {x: t for x, t in by_case(evs[:k]).items() if any(a in known for a in t)}
            for x, t in cur.items():
                r = algo.get_status(x)
                req_eq(r, dev(t) == 0, "status of case %s = %s with footprints %s" % (x, t, F))
                seen.add(r)
            d = algo.get()
            got = {r["case"]: r["is_fit"] for r in d.to_dict("records")} if len(d) else {}
            req_eq(got, {x: dev(t) == 0 for x, t in cur.items()}, "diagnostics after %d events" % k)
        if k < len(evs):
            algo.receive(event(c, evs[k]))
    ctx.nontrivial(inter and len(seen) == 2)
    full = {x: t for x, t in by_case(evs).items() if any(a in known for a in t)}
    order = sorted(full, key=lambda x: rng.random())
    for n, x in enumerate(order):
        req_eq(algo.terminate(x), dev(full[x], True) == 0, "termination of case %s = %s" % (x, full[x]))
        require(algo.get_status(x) is None, "a terminated case still has a status: %s", x)
        req_eq({r["case"] for r in algo.get().to_dict("records")} if n + 1 < len(order) else set(), set(order[n + 1:]), "cases left")
    if full:  # a terminated case can start again
        x = order[0]
        if not c["keys"]:
            for a in full[x]:
                algo.receive(event(c, (x, a)))
            req_eq(algo.get_status(x), dev(full[x]) == 0, "status of the restarted case %s = %s" % (x, full[x]))


@st.composite
def statemachine(draw):
    n = draw(st.integers(2, 5))
    labs = draw(st.lists(st.sampled_from(gen.ACTS[:5]), min_size=1, max_size=5, unique=True))
    s = {"places": ["p%d" % i for i in range(n)], "trans": [], "arcs": []}
    chain = draw(st.sampled_from([True, True, False]))
    for l in draw(st.permutations(labs + [None] * draw(st.integers(0, 3)))):
        k = len(s["trans"])
        s["trans"].append(["t%d" % k, l])
        a, b = (k, k + 1) if chain and k + 1 < n else (draw(st.integers(0, n - 1)), draw(st.integers(0, n - 1)))
        s["arcs"] += [["pt", a, k, 1], ["tp", k, b, 1]]
    s["im"], s["fm"] = {"0": 1}, {str(min(n - 1, len(s["trans"])) if chain else draw(st.integers(0, n - 1))): 1}
    return s


def unique(s):
    """spec without silent transitions and duplicate labels"""
    s = json.loads(json.dumps(s))
    for k, t in enumerate(s["trans"]):
        t[1] = gen.ACTS[k]
    return s


def tbr(c, ctx):
    inter = labels(c, ctx)
    evs = merged(c)
    spec = unique(c["net"]) if c["unique"] else c["net"]
    net, im, fm, ps, ts = build.net(spec)
    r = R.RNet(net, im, fm)
    labs = [t[1] for t in spec["trans"]]
    vis = {l for l in labs if l is not None}
    plain = len([l for l in labs if l is not None]) == len(vis)
    silent = None in labs
    kind = "state machine" if c["sm"] else ("plain" if plain and not silent else "silent")
    ctx.label(kind)
    pre = [dict() for _ in labs]
    post = [dict() for _ in labs]
    for k, a, b, w in spec["arcs"]:
        if k == "pt":
            pre[b][a] = pre[b].get(a, 0) + w
        else:
            post[a][b] = post[a].get(b, 0) + w
    F = {int(k): v for k, v in spec["fm"].items() if v}

    def play(t):
        """(marking, missing) of the token game"""
        m, miss = Counter({int(k): v for k, v in spec["im"].items()}), 0
        for a in t:
            if a in vis:
                k = labs.index(a)
                for p, w in pre[k].items():
                    if m[p] < w:
                        miss += w - m[p]
                        m[p] = w
                for p, w in pre[k].items():
                    m[p] -= w
                for p, w in post[k].items():
                    m[p] += w
        return {p: n for p, n in m.items() if n}, miss
    mk = lambda m: {ps.index(p): n for p, n in m.items() if n}
    exact = plain and not silent
    algo = stbr.apply(net, im, fm, parameters=params(c))
    cut = c["cut"] % (len(evs) + 1)
    for k in range(len(evs) + 1):
        if k == cut or k == len(evs):
            noise(c, algo)
            cur = {x: t for x, t in by_case(evs[:k]).items() if any(a in vis for a in t)}
            d = algo.get()
            got = {q["case"]: (q["is_fit"], q["missing"]) for q in d.to_dict("records")} if len(d) else {}
            req_eq(set(got), set(cur), "cases in the diagnostics after %d events" % k)
            for x, t in cur.items():
                s = algo.get_status(x)
                req_eq(got[x], (s["missing"] == 0, s["missing"]), "diagnostics vs status")
                require(s["missing"] >= 0, "negative missing tokens: %s", s)
                if exact:
                    req_eq((mk(s["marking"]), s["missing"]), play(t), "marking and missing tokens of case %s = %s" % (x, t))
        if k < len(evs):
            algo.receive(event(c, evs[k]))
    full = {x: t for x, t in by_case(evs).items() if any(a in vis for a in t)}
    fits = set()
    for x, t in full.items():
        alone = stbr.apply(net, im, fm, parameters=params(c))
        for a in t:
            alone.receive(event(c, (x, a)))
        if not silent and plain or c["sm"]:
            req_eq(algo.get_status(x)["missing"], alone.get_status(x)["missing"], "case %s alone" % x)
        res = algo.terminate(x)
        require(res is not None, "no result for %s", x)
        tv = [a for a in t if a in vis]
        acc = R.net_accepts(r, tv)
        fits.add(res["is_fit"])
        req_eq(res["is_fit"], res["missing"] == 0 and res["remaining"] == 0, "is_fit")
        require(res["missing"] >= 0 and res["remaining"] >= 0, "token counts %s", res)
        if res["is_fit"]:
            require(acc, "case %s is called fit but the net does not accept it", tv)
        if (exact or (c["sm"] and plain)) and acc:
            require(res["is_fit"], "the net accepts %s but the result is %s", tv, res)
        if exact:
            m, miss = play(t)
            req_eq((res["missing"], res["remaining"]), (miss + sum(max(0, n - m.get(p, 0)) for p, n in F.items()), sum(max(0, n - F.get(p, 0)) for p, n in m.items())), "tokens at the end of %s" % t)
        require(algo.get_status(x) is None, "a terminated case still has a status")
    ctx.nontrivial(len(full) > 1 and True in fits)
    ctx.label("fit+unfit" if len(fits) == 2 else "same")


def temporal(c, ctx):
    inter = labels(c, ctx)
    evs = merged(c)
    rng = random.Random(c["seed"])
    A = sorted({a for t in c["traces"] for a in t})
    prof = {(a, b): (float(rng.choice([0, 2, 5, 10])), float(rng.choice([0, 0, 1, 2]))) for a in A for b in A if rng.random() < 0.7}
    zeta = rng.choice([0.5, 1, 2, 6.0])
    T = {}
    rows = []
    for x, a, i in evs:
        t0 = T.get(x, 0)
        T[x] = t0 + rng.choice([0, 0, 1, 2, 5, 7])
        s = T[x] - rng.choice([0, 0, 1, 3]) if c["start"] else T[x]
        rows.append((x, a, s, T[x]))
    more = {"zeta": zeta}
    if c["start"]:
        from pm4py.util import constants
        more[constants.PARAMETER_CONSTANT_START_TIMESTAMP_KEY] = "start"
    algo = stemp.apply(prof, parameters=params(c, more))

    def exp(k):
        out, seen = {}, {}
        for x, a, s, e in rows[:k]:
            for pa, pe in seen.get(x, []):
                if s >= pe and (pa, a) in prof:
                    mean, std = prof[(pa, a)]
                    if abs((s - pe) - mean) > zeta * std:
                        out.setdefault(str(x), []).append((str(x), pa, a, float(s - pe), round(abs(s - pe - mean) / std, 9) if std else float("inf")))
            seen.setdefault(x, []).append((a, e))
        return out
    cut = c["cut"] % (len(evs) + 1)
    for k in range(len(evs) + 1):
        if k == cut or k == len(evs):
            noise(c, algo)
            got = {x: [(q[0], q[1], q[2], q[3], float("inf") if q[4] > 10 ** 15 else round(q[4], 9)) for q in l] for x, l in algo.get().items()}
            e = exp(k)
            req_eq(got, e, "deviations after %d events" % k)
        if k < len(evs):
            x, a, s, t = rows[k]
            ev = event(c, (x, a), BASE + datetime.timedelta(seconds=t))
            if c["start"]:
                ev["start"] = BASE + datetime.timedelta(seconds=s)
            algo.receive(ev)
    ctx.nontrivial(inter and 0 < sum(map(len, e.values())))


def S(**kw):
    idp = st.sampled_from([["c1", "c2", "c3", "c4", "c5", "c6"], [1, 2, 3, 4, 5, 6], ["a'b", "x\"y", "q\\", "é", "5", "it's \"z\""]])
    return st.fixed_dictionaries({"traces": gen.traces(5, 6, 6, 1), "ids": idp, "order": st.lists(st.integers(0, 5), min_size=1, max_size=20), "cut": st.integers(0, 40), "dict": st.sampled_from(sorted(VARS)),
                                  "keys": st.sampled_from([False, False, True]), "noise": st.booleans(), "seed": st.integers(0, 9999), **kw})


@st.composite
def replays(draw):
    kind = draw(st.sampled_from(["sm", "sm", "free", "unique", "tree", "tree"]))
    net = draw({"sm": statemachine(), "free": nets.free_net(5, 5, 2, 2), "unique": nets.free_net(5, 5, 2, 2), "tree": nets.tree_net(3, 5)}[kind])
    if kind == "unique":
        net = unique(net)
    c = draw(S(unique=st.just(kind == "unique"), sm=st.just(kind == "sm")))
    trs = [t for t in draw(nets.walks(net, (2, 6), 6, 1, gen.ACTS[:5])) if t]
    return dict(c, net=net, traces=trs or [["A"]])


ODD = ["A", "it's", 'x"y', "a, b", "(q)", "\\n"]
UNITS = [
    Unit("dfg", S().flatmap(lambda c: st.booleans().map(lambda o: dict(c, traces=[[dict(zip(gen.ACTS, ODD)).get(a, a) for a in t] for t in c["traces"]]) if o else c)), dfg, 500, shards=2, rule="non-trivial: interleaved cases, > 3 events"),
    Unit("footprints", S(keep=st.sampled_from([1.0, 0.8, 0.5]), batch=st.booleans()), fp, 900, shards=2, rule="non-trivial: interleaved, fit and unfit cases"),
    Unit("replay", replays(), tbr, 1200, shards=3, rule="non-trivial: several cases, one of them fit"),
    Unit("temporal", S(start=st.booleans()), temporal, 500, shards=1, rule="non-trivial: interleaved with deviations"),
]
