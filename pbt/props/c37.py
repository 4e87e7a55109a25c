"""C37 marking equations"""
import heapq, time
from hypothesis import strategies as st
import gen, build, ref, nets
from core import Unit, require, req_eq
import pm4py
from props.c32 import net_st, usable, tr, solver_variant, K

META = dict(
    title="Marking equations underestimate the cost of reaching the final marking",
    statement="The value of the (extended) marking equation never exceeds the cheapest cost of a firing sequence from the initial (or the changed initial) marking to the final one, hence of an optimal alignment on a synchronous product, and no value is reported only when no firing sequence exists; the solution vector is non-negative and, where integral, transforms the initial into the final marking and costs the reported value. "
              "The extended equation is at least as tight as the plain one, and the firing sequence searched among a solution is firable and reaches the final marking when it says so.",
    over=["inputs"], quant="generated bounded nets, transition costs, markings and noisy traces with every choice of split points, on both LP back ends",
    why="tests only call the two functions once; an overestimating heuristic silently makes A* alignments sub-optimal for the inputs that tests do not sample",
    files=["pm4py/algo/analysis/marking_equation", "pm4py/algo/analysis/extended_marking_equation", "pm4py/util/lp", "pm4py/objects/petri_net/utils/incidence_matrix.py", "pm4py/objects/petri_net/utils/consumption_matrix.py", "pm4py/analysis.py", "pm4py/objects/petri_net/utils/synchronous_product.py"],
    mech=[("solve", "pm4py/algo/analysis/marking_equation/variants/classic.py"), ("__build_Aub2", "pm4py/algo/analysis/extended_marking_equation/variants/classic.py"), ("search_path_among_sol", "pm4py/objects/petri_net/utils/align_utils.py"), ("encode_marking", "pm4py/objects/petri_net/utils/incidence_matrix.py")],
    limits="Nets are bounded; values are compared with a tolerance of 1 (the code truncates the optimum of the relaxation).")


class ilp_limit:
    """bounds the (native, uninterruptible) branch and bound search; .hit tells that the bound was reached"""

    def __enter__(self):
        from pm4py.util.lp.variants import cvxopt_solver_custom_align_ilp as I
        self.I, self.old, self.hit = I, I.custom_solve_ilp, False
        I.this_options["tm_lim"] = 3000

        def f(*a, **k):
            t = time.time()
            r = self.old(*a, **k)
            if time.time() - t > 2.5:
                self.hit = True
                raise ref.Overflow()
            return r
        I.custom_solve_ilp = f
        return self

    def __exit__(self, *a):
        self.I.custom_solve_ilp = self.old
        self.I.this_options.pop("tm_lim", None)


def cheapest(r, costs, src, cap=60000):
    """cheapest cost of reaching r.fm from the marking src (None: unreachable)"""
    dist, q, done, n = {src: 0}, [(0, 0, src)], set(), 0
    while q:
        d, _, m = heapq.heappop(q)
        if m in done:
            continue
        done.add(m)
        if len(done) > cap:
            raise ref.Overflow()
        if m == r.fm:
            return d
        for k in r.enabled(m):
            x = r.fire(m, k)
            if d + costs[k] < dist.get(x, 1e18):
                dist[x] = d + costs[k]
                n += 1
                heapq.heappush(q, (dist[x], n, x))
    return None


@st.composite
def plain_st(draw):
    s = draw(net_st())
    return {"net": s, "costs": [draw(st.sampled_from([0, 1, 1, 2, 7, 5000, 10000])) for _ in s["trans"]], "scipy": draw(st.booleans()), "walk": draw(st.lists(st.integers(0, 6), max_size=5))}


def linear(r, src, x, what):
    """src + A x = fm over the transition order of the reference net"""
    v = list(src)
    for k, n in enumerate(x):
        require(n >= 0, "%s: negative number of firings %s", what, x)
        for p, w in r.trans[k][1].items():
            v[p] -= w * n
        for p, w in r.trans[k][2].items():
            v[p] += w * n
    return tuple(v) == r.fm


def relaxed(r, costs):
    """optimum of the linear relaxation of the marking equation"""
    from scipy.optimize import linprog
    if not r.trans:
        return 0
    A = [[0] * len(r.trans) for _ in r.places]
    for k, t in enumerate(r.trans):
        for p, w in t[1].items():
            A[p][k] -= w
        for p, w in t[2].items():
            A[p][k] += w
    res = linprog(costs, A_eq=A, b_eq=[f - i for i, f in zip(r.im, r.fm)], bounds=(0, None))
    return res.fun if res.status == 0 else 0


def check_plain(case, ctx):
    from pm4py.algo.analysis.marking_equation import algorithm as M
    s = case["net"]
    if usable(case, ctx) is None:
        return
    net, im, fm, ps, ts = build.net(s)
    r = ref.RNet(net, im, fm)
    order = [ts.index(t[3]) for t in r.trans]
    pl = r.places
    costs = [case["costs"][i] for i in order]
    best = cheapest(r, costs, r.im)
    with solver_variant(case["scipy"]):
        h = pm4py.solve_marking_equation(net, im, fm, {ts[i]: case["costs"][i] for i in range(len(ts))})
        require(h is not None, "no value although the final marking is reachable")
        require(-1 <= h <= best + 1e-6, "value %s over the cheapest cost %s", h, best)
        h1 = pm4py.solve_marking_equation(net, im, fm)
        b1 = cheapest(r, [1] * len(costs), r.im)
        require(-1 <= h1 <= b1 + 1e-6, "value %s over the shortest firing sequence %s (default costs)", h1, b1)
        lp, lp1 = relaxed(r, costs), relaxed(r, [1] * len(costs))
        require(h >= lp - 1 - 1e-4, "value %s below the optimum %s of the linear relaxation", h, lp)
        require(h1 >= lp1 - 1 - 1e-4, "value %s below the optimum %s of the linear relaxation (default costs)", h1, lp1)
        if r.im == r.fm:
            req_eq((h, h1), (0, 0), "values for equal markings")
        elif not b1 == 0:
            ctx.nontrivial()
        me = M.build(net, im, fm, parameters={"costs": {ts[i]: case["costs"][i] for i in range(len(ts))}})
        # other initial markings, reachable or not
        cur, marks = r.im, []
        for w in case["walk"]:
            en = r.enabled(cur)
            if not en:
                break
            cur = r.fire(cur, en[w % len(en)])
            marks.append(cur)
        other = tuple((case["walk"] + [0] * len(pl))[i] % 2 for i in range(len(pl)))
        marks.append(other)
        from pm4py.objects.petri_net.obj import Marking
        for m in [r.im] + marks:
            mk = Marking({pl[i]: n for i, n in enumerate(m) if n})
            me.change_ini_vec(mk)
            h, x = me.solve()
            try:
                b = cheapest(r, costs, m, cap=4000)
            except ref.Overflow:
                continue
            if h is None:
                require(b is None, "no value from %s although the final marking is reachable", m)
                ctx.label("infeasible")
                continue
            if b is not None:
                require(-1 <= h <= b + 1e-6, "value %s over the cheapest cost %s from %s", h, b, m)
            xs = [x[me.incidence_matrix.transitions[r.trans[k][3]]] for k in range(len(r.trans))]
            if linear(r, m, xs, "solution from %s" % (m,)):
                ctx.label("integral")
                tot = sum(a * b_ for a, b_ in zip(xs, costs))
                require(abs(tot - h) <= 1 + 1e-6, "the solution costs %s, the reported value is %s", tot, h)
                seq, ok, ex = me.get_firing_sequence(x)
                c2 = m
                for t in seq:
                    k = [z[3] for z in r.trans].index(t)
                    require(k in r.enabled(c2), "firing sequence not firable")
                    require(xs[k] > 0, "firing sequence outside the solution")
                    c2 = r.fire(c2, k)
                if ok:
                    req_eq(c2, r.fm, "end of the firing sequence")
                    ctx.label("realised")


@st.composite
def ext_st(draw):
    s = draw(net_st())
    return {"net": s, "traces": draw(nets.walks(s, n=(1, 2), max_len=6)), "scipy": draw(st.booleans()), "split": draw(st.lists(st.integers(0, 9), max_size=6)), "k": draw(st.integers(1, 6)), "usesplit": draw(st.booleans())}


def check_ext(case, ctx):
    from pm4py.algo.analysis.extended_marking_equation import algorithm as EM
    from pm4py.algo.analysis.marking_equation import algorithm as M
    from pm4py.objects.petri_net.utils import align_utils
    r0 = usable(case, ctx)
    if r0 is None:
        return
    net, im, fm, ps, ts = build.net(case["net"])
    for t in case["traces"]:
        sn, si, sf = pm4py.construct_synchronous_product_net(tr(t), net, im, fm)
        opt = ref.align_cost(r0, t, move_log=lambda a: K, move_model=lambda l, k: K if l else 1)
        r = ref.RNet(sn, si, sf)
        cf = align_utils.construct_standard_cost_function(sn, ">>")
        b = cheapest(r, [cf[z[3]] for z in r.trans], r.im)
        req_eq(b, opt, "cheapest run of the synchronous product for %s" % (t,))
        with solver_variant(case["scipy"]), ilp_limit():
            me = M.build(sn, si, sf)
            h, x = me.solve()
            require(h is not None and h <= b, "plain value %s over the optimal cost %s for %s", h, b, t)
            e = pm4py.solve_extended_marking_equation(tr(t), sn, si, sf)
            require(e is not None, "no extended value for %s", t)
            require(h - 1 <= e <= b, "extended value %s outside [plain value %s, optimal cost %s] for %s", e, h, b, t)
            if e > h + 1:
                ctx.label("tighter")
            if b > K - 1 and len(t) > 1:
                ctx.nontrivial()
            sp = sorted(set(i % len(t) for i in case["split"]) - {0}) if t else []
            e1 = pm4py.solve_extended_marking_equation(tr(t), sn, si, sf, sp)
            e2 = EM.get_h_value(EM.build(tr(t), sn, si, sf, parameters={"split_idx": sp}))
            require(abs(e1 - e2) <= 1, "value %s with the given split points, %s expected for %s", e1, e2, t)
            for par in [{"split_idx": sp}] + [{"max_k_value": case["k"]}] + [{"split_idx": sp, "max_k_value": case["k"]}]:
                ee = EM.build(tr(t), sn, si, sf, parameters=par)
                e, x = ee.solve()
                require(e is not None, "no extended value for %s with %s", t, par)
                require(h - 1 <= e <= b, "extended value %s outside [plain value %s, optimal cost %s] for %s with %s", e, h, b, t, par)
                xs = [x[ee.incidence_matrix.transitions[r.trans[k][3]]] for k in range(len(r.trans))]
                require(linear(r, r.im, xs, "extended solution for %s" % (t,)), "the extended solution for %s does not reach the final marking", t)
                require(abs(sum(cf[r.trans[k][3]] * n for k, n in enumerate(xs)) - e) <= 1, "cost of the extended solution against %s", e)
                seq, ok, ex = ee.get_firing_sequence(x)
                c2 = r.im
                for q in seq:
                    k = [z[3] for z in r.trans].index(q)
                    require(k in r.enabled(c2), "firing sequence of the extended solution not firable")
                    c2 = r.fire(c2, k)
                if ok:
                    req_eq(c2, r.fm, "end of the firing sequence")


UNITS = [
    Unit("plain", plain_st(), check_plain, quick=480, shards=8, rule="the final marking is reachable and differs from the initial one"),
    Unit("extended", ext_st(), check_ext, quick=400, shards=8, rule="a trace of two or more events deviates from the net"),
]
