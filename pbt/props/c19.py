"""C19 stochastic languages and the earth mover distance"""
import math, random
from collections import Counter
from fractions import Fraction
import numpy as np
from hypothesis import strategies as st
from scipy.optimize import linprog
from core import Unit, require, req_eq
import pm4py
import gen, build, ref
from props.c33 import lev
from pm4py.util import string_distance as sd
from pm4py.algo.evaluation.earth_mover_distance import algorithm as emd_alg

META = dict(
    title="Stochastic languages are exact and the earth mover distance is optimal",
    statement="The stochastic language of a log assigns every variant its share of the cases; that of a model assigns to words of its language probabilities summing to one. "
              "The earth mover distance of two stochastic languages is the minimum cost of moving one onto the other under the normalised edit distance of the words (or the given distance): zero for equal languages, symmetric, at most one, and indifferent to the names of the activities.",
    over=["inputs"], quant="languages up to 6 words, also with the empty word, weights in twentieths; logs, process trees, nets, DFGs",
    why="tests check one distance of one log; optimality must hold for every pair of languages",
    oracle="linear programme over exact pairwise edit distances; counting; reference languages of the models",
    limits="Values agree up to the precision of the transport solver (1e-4); both languages have total probability one.",
    files=["pm4py/algo/evaluation/earth_mover_distance", "pm4py/statistics/variants/log/get.py", "pm4py/util/string_distance.py", "pm4py/stats.py"],
    mech=[("distance", "pm4py/algo/evaluation/earth_mover_distance/variants/pyemd.py"), ("language", "pm4py/statistics/variants/log/get.py"), ("edit distance", "pm4py/util/string_distance.py")])


def lang(spec):
    out = {}
    tot = sum(w for _, w in spec)
    for t, w in spec:
        out[tuple(t)] = out.get(tuple(t), 0) + w / tot
    return out


def nd(a, b):
    return lev(a, b) / max(len(a), len(b)) if a or b else 0.0


def lp(p, q, d):
    A, B = sorted(p), sorted(q)
    cost = [d(a, b) for a in A for b in B]
    eq, rhs = [], []
    for i, a in enumerate(A):
        eq.append([float(k // len(B) == i) for k in range(len(cost))])
        rhs.append(p[a])
    for j, b in enumerate(B):
        eq.append([float(k % len(B) == j) for k in range(len(cost))])
        rhs.append(q[b])
    r = linprog(cost, A_eq=eq[:-1], b_eq=rhs[:-1], bounds=(0, None), method="highs")
    return r.fun


def emd(c, ctx):
    p, q = lang(c["p"]), lang(c["q"])
    keep = (dict(p), dict(q))
    e = lp(p, q, nd)
    g = pm4py.compute_emd(p, q)
    ctx.nontrivial(len(p) > 1 and len(q) > 1 and e > 0)
    ctx.label("empty word" if () in p or () in q else "words")
    require(abs(g - e) < 1e-4, "earth mover distance: got %s expected %s", g, e)
    require(abs(pm4py.compute_emd(q, p) - g) < 1e-4, "symmetry")
    require(abs(pm4py.compute_emd(p, p)) < 1e-6, "distance of a language to itself")
    ren = {a: "act %d" % (9 - i) for i, a in enumerate(gen.ACTS)}
    rn = lambda l: {tuple(ren[a] for a in t): w for t, w in l.items()}
    require(abs(pm4py.compute_emd(rn(p), rn(q)) - g) < 1e-4, "renamed activities change the distance")
    dist = {"plain": lambda a, b: float(sd.levenshtein(a, b)), "equal": lambda a, b: float(a != b), "length": lambda a, b: float(abs(len(a) - len(b)))}[c["d"]]
    mine = {"plain": lambda a, b: float(lev(a, b)), "equal": lambda a, b: float(a != b), "length": lambda a, b: float(abs(len(a) - len(b)))}[c["d"]]
    g2 = emd_alg.apply(p, q, parameters={emd_alg.Variants.PYEMD.value.Parameters.STRING_DISTANCE: dist})
    e2 = lp(p, q, mine)
    require(abs(g2 - e2) < 1e-3, "distance with %s: got %s expected %s", c["d"], g2, e2)
    req_eq((p, q), keep, "the languages are unchanged")
    # edit distances
    words = sorted(set(map("".join, list(p) + list(q))))
    for x in words:
        for y in words:
            req_eq(sd.levenshtein(x, y), lev(x, y), "edit distance of %r and %r" % (x, y))
    for x in words:
        ds = [lev(x, y) for y in words[1:]]
        if ds:
            req_eq(lev(x, sd.argmin_levenshtein(x, words[1:])), min(ds), "closest word to %r in %s" % (x, words[1:]))
            req_eq(lev(x, sd.argmax_levenshtein(x, words[1:])), max(ds), "farthest word to %r in %s" % (x, words[1:]))
    require(sd.argmin_levenshtein("A", []) is None, "closest of nothing")


def languages(c, ctx):
    trs = build.acts_of(c["log"])
    o = {"log": build.elog, "df": build.df, "fdf": build.fdf}[c["rep"]](c["log"])
    exp = {t: Fraction(n, len(trs)) for t, n in Counter(map(tuple, trs)).items()}
    def same(got, what):
        req_eq(set(map(tuple, got)), set(exp), what)
        for k in got:
            require(abs(got[k] - float(exp[tuple(k)])) < 1e-9, "%s: probability of %s is %s, expected %s", what, k, got[k], exp[tuple(k)])
    l1 = pm4py.get_stochastic_language(o)
    same(l1, "language of the log")
    random.seed(c["seed"]); np.random.seed(c["seed"])
    t = c["tree"]
    pt = build.tree(t)
    from pm4py.util import constants
    if c["model"] == "tree":
        l2 = pm4py.get_stochastic_language(pt)
        ok = lambda w: ref.tree_accepts(t, list(w))
    elif c["model"] == "net":
        net, im, fm = pm4py.convert_to_petri_net(pt)
        l2 = pm4py.get_stochastic_language(net, im, fm)
        ok = lambda w: ref.tree_accepts(t, list(w))
    else:
        l = [x for x in trs if x]
        d = Counter((a, b) for x in l for a, b in zip(x, x[1:]))
        sa, ea = Counter(x[0] for x in l), Counter(x[-1] for x in l)
        l2 = pm4py.get_stochastic_language(dict(d), dict(sa), dict(ea))
        ok = lambda w: bool(w) and w[0] in sa and w[-1] in ea and all(p in d for p in zip(w, w[1:]))
    ctx.label(c["model"], c["rep"], "empty word" if () in l2 else "words")
    ctx.nontrivial(len(l2) > 1 and len(exp) > 1)
    require(abs(sum(l2.values()) - 1) < 1e-9 and min(l2.values()) > 0, "probabilities %s", l2)
    for w in l2:
        require(len(w) > 100 or ok(w), "word %s of the %s is not in its language", w, c["model"])
    p = {tuple(k): v for k, v in l1.items()}
    q = {tuple(k): v for k, v in l2.items()}
    if len(q) <= 12 and max(map(len, q)) <= 30:
        g = pm4py.compute_emd(l1, l2)
        e = lp(p, q, nd)
        require(abs(g - e) < 1e-4, "distance log to model: got %s expected %s", g, e)


WORD = st.lists(st.sampled_from(gen.ACTS[:4]), max_size=6)
LANG = st.lists(st.tuples(WORD, st.integers(1, 20)).map(list), min_size=1, max_size=6)
UNITS = [
    Unit("emd", st.fixed_dictionaries({"p": LANG, "q": LANG, "d": st.sampled_from(["plain", "equal", "length"])}), emd, 600, shards=3, rule="non-trivial: two languages of several words at positive distance"),
    Unit("languages", st.fixed_dictionaries({"log": gen.log(4, 5, 6), "rep": st.sampled_from(["log", "df", "fdf"]), "tree": gen.tree(depth=2, ops=("->", "X", "+", "*"), dup=False, max_leaves=4), "model": st.sampled_from(["tree", "net", "dfg"]), "seed": st.integers(0, 99)}), languages, 120, shards=3, rule="non-trivial: both languages have several words"),
]
