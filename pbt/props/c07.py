"""C07 token game"""
from collections import Counter
from hypothesis import strategies as st
import copy
import gen, build, ref, nets
from core import Unit, require, req_eq, Violation
import pm4py
from pm4py.objects.petri_net.obj import PetriNet, Marking, ResetNet, InhibitorNet, ResetInhibitorNet
from pm4py.objects.petri_net import semantics, properties
from pm4py.objects.petri_net.inhibitor_reset import semantics as ir
from pm4py.objects.petri_net.utils import petri_utils

META = dict(
    title="The token game of (weighted, inhibitor, reset, data, stochastic) nets is exact",
    statement="For every Petri net and marking, a transition is reported enabled exactly when each of its (ordinary) input places holds at least the arc weight, every inhibitor place is empty and (in data nets) its guard holds for the recorded data, and firing it yields exactly the marking with input weights removed, reset places emptied and output weights added, without touching the given marking, net or data; a disabled transition executes to nothing and a weak execution never leaves a place without tokens recorded. "
              "Markings behave as multisets of places (equality, inclusion, sum, difference, hashing, copies), net-editing utilities keep nodes, arcs and net consistent, and a deep copy of a net is an isomorphic, independent net. "
              "Firing probabilities of stochastic nets are the weight divided by the total weight of the enabled transitions.",
    over=["inputs", "histories"], quant="all bounded nets/markings and random firing or editing histories on them",
    why="tests fire a handful of transitions in one running example net; the token rule must hold for every net, weight, arc type, marking and history",
    files=["pm4py/objects/petri_net/semantics.py", "pm4py/objects/petri_net/inhibitor_reset/semantics.py", "pm4py/objects/petri_net/data_petri_nets/semantics.py",
           "pm4py/objects/petri_net/obj.py", "pm4py/objects/petri_net/utils/petri_utils.py", "pm4py/objects/petri_net/stochastic/semantics.py"],
    mech=[("is_enabled / execute / weak_execute", "pm4py/objects/petri_net/semantics.py"), ("Marking operators", "pm4py/objects/petri_net/obj.py")])


def nz(m):
    return {p: v for p, v in m.items() if v != 0}


def check_walk(case, ctx):
    s, picks = case["net"], case["picks"]
    net, im, fm, ps, ts = build.net(s)
    pre, post = nets.spec_rnet(s)
    sem = semantics.ClassicSemantics()
    m = Marking({ps[int(k)]: v for k, v in s["im"].items()})
    ref_m = Counter({int(k): v for k, v in s["im"].items()})
    fired = 0
    other = PetriNet.Transition("foreign", "A")
    require(not semantics.is_enabled(other, net, m), "a transition outside the net is never enabled")
    for pk in picks:
        exp_en = {i for i in range(len(ts)) if all(ref_m[p] >= w for p, w in pre[i].items())}
        before = dict(m)
        req_eq({ts.index(t) for t in pm4py.get_enabled_transitions(net, m)}, exp_en, "get_enabled_transitions in %s" % m)
        req_eq({ts.index(t) for t in sem.enabled_transitions(net, m)}, exp_en, "enabled_transitions in %s" % m)
        for i, t in enumerate(ts):
            req_eq(semantics.is_enabled(t, net, m), i in exp_en, "is_enabled")
            req_eq(sem.is_enabled(t, net, m), i in exp_en, "ClassicSemantics.is_enabled")
            req_eq(semantics.PetriNetSemantics.is_enabled(net, t, m), i in exp_en, "PetriNetSemantics.is_enabled")
            e = semantics.execute(t, net, m)
            w = semantics.weak_execute(t, m)
            em = Counter(ref_m)
            wm = Counter(ref_m)
            for p, k in pre[i].items():
                em[p] -= k
                wm[p] -= k
                if wm[p] <= 0:
                    del wm[p]
            for p, k in post[i].items():
                em[p] += k
                wm[p] += k
            req_eq({ps.index(p): v for p, v in w.items()}, {p: v for p, v in wm.items() if v}, "weak_execute of %s in %s" % (t, before))
            req_eq(sem.weak_execute(t, net, m), w, "ClassicSemantics.weak_execute")
            if i in exp_en:
                require(e is not None, "enabled transition executes")
                req_eq({ps.index(p): v for p, v in e.items()}, {p: v for p, v in em.items() if v}, "execute of %s in %s" % (t, before))
                req_eq(sem.execute(t, net, m), e, "ClassicSemantics.execute")
                f = semantics.PetriNetSemantics.fire(net, t, m)
                req_eq({ps.index(p): v for p, v in nz(f).items()}, {p: v for p, v in em.items() if v}, "PetriNetSemantics.fire")
            else:
                require(e is None and sem.execute(t, net, m) is None, "a disabled transition executes to None")
        req_eq(dict(m), before, "the marking is not modified")
        if exp_en:
            i = sorted(exp_en)[pk % len(exp_en)]
            m = semantics.execute(ts[i], net, m)
            for p, k in pre[i].items():
                ref_m[p] -= k
            for p, k in post[i].items():
                ref_m[p] += k
            ref_m = +ref_m
            fired += 1
            if max(ref_m.values(), default=0) > 100:
                break
        req_eq(nets_sig(net, ps, ts), {tuple(a) for a in s["arcs"]}, "the net is not modified")
    ctx.nontrivial(fired >= 2)
    ctx.label("fired%d" % min(fired, 5))


def nets_sig(net, ps, ts):
    return {("pt", ps.index(a.source), ts.index(a.target), a.weight) if isinstance(a.source, PetriNet.Place) else
            ("tp", ts.index(a.source), ps.index(a.target), a.weight) for a in net.arcs}


@st.composite
def ri_case(draw):
    s = draw(nets.free_net())
    have = {(a[0], a[1], a[2]) for a in s["arcs"]}
    sp = []
    for _ in range(draw(st.integers(1, 4))):
        p, t = draw(st.integers(0, len(s["places"]) - 1)), draw(st.integers(0, len(s["trans"]) - 1))
        kind = draw(st.sampled_from(["inhibitor", "reset"]))
        if ("pt", p, t) in have or ("tp", t, p) in have or any(x[1] == p and x[2] == t for x in sp):
            continue
        sp.append([kind, p, t])
    return {"net": s, "special": sp, "picks": draw(st.lists(st.integers(0, 7), min_size=1, max_size=8))}


def check_ri(case, ctx):
    s = case["net"]
    net = ResetInhibitorNet("n")
    ps = [PetriNet.Place(x) for x in s["places"]]
    ts = [PetriNet.Transition(x, l) for x, l in s["trans"]]
    net.places.update(ps)
    net.transitions.update(ts)
    for k, a, b, w in s["arcs"]:
        petri_utils.add_arc_from_to(ps[a], ts[b], net, weight=w) if k == "pt" else petri_utils.add_arc_from_to(ts[a], ps[b], net, weight=w)
    inh, res = [set() for _ in ts], [set() for _ in ts]
    for kind, p, t in case["special"]:
        petri_utils.add_arc_from_to(ps[p], ts[t], net, type=properties.INHIBITOR_ARC if kind == "inhibitor" else properties.RESET_ARC)
        (inh if kind == "inhibitor" else res)[t].add(p)
    pre, post = nets.spec_rnet(s)
    for i, t in enumerate(ts):
        req_eq(petri_utils.pre_set(t), {ps[p] for p in pre[i]}, "ordinary preset")
        req_eq(petri_utils.pre_set(t, properties.INHIBITOR_ARC), {ps[p] for p in inh[i]}, "inhibitor preset")
        req_eq(petri_utils.pre_set(t, properties.RESET_ARC), {ps[p] for p in res[i]}, "reset preset")
    sem = ir.InhibitorResetSemantics()
    ref_m = Counter({int(k): v for k, v in s["im"].items()})
    m = Marking({ps[k]: v for k, v in ref_m.items()})
    n = 0
    for pk in case["picks"]:
        en = {i for i in range(len(ts)) if all(ref_m[p] >= w for p, w in pre[i].items()) and all(ref_m[p] == 0 for p in inh[i])}
        req_eq({ts.index(t) for t in sem.enabled_transitions(net, m)}, en, "enabled in %s" % m)
        before = dict(m)
        for i, t in enumerate(ts):
            req_eq(sem.is_enabled(t, net, m), i in en, "is_enabled")
            e = sem.execute(t, net, m)
            w = sem.weak_execute(t, net, m)
            x, y = Counter(ref_m), Counter(ref_m)
            for p in res[i]:
                x[p] = 0
                y[p] = 0
            for p, k in pre[i].items():
                x[p] -= k
                y[p] = max(0, y[p] - k)
            for p, k in post[i].items():
                x[p] += k
                y[p] += k
            req_eq({ps.index(p): v for p, v in w.items()}, dict(+y), "weak_execute")
            if i in en:
                req_eq({ps.index(p): v for p, v in e.items()}, dict(+x), "execute of %s in %s" % (t, before))
            else:
                require(e is None, "disabled transition executes to None")
        req_eq(dict(m), before, "marking unchanged")
        if en:
            i = sorted(en)[pk % len(en)]
            m = sem.execute(ts[i], net, m)
            ref_m = Counter({ps.index(p): v for p, v in m.items()})
            n += 1
            if max(ref_m.values(), default=0) > 100:
                break
    ctx.nontrivial(n >= 1 and bool(case["special"]))
    from pm4py.objects.petri_net.utils.reachability_graph import marking_flow_petri


GUARDS = [("x > 2", lambda d: d.get("x") is not None and d["x"] > 2), ("x < 3 && y == 1", lambda d: None not in (d.get("x"), d.get("y")) and d["x"] < 3 and d["y"] == 1),
          ("x >= 1 || y > 0", None), ("true", lambda d: True), ("false", lambda d: False), ("z == 'u'", lambda d: d.get("z") == "u"),
          ("z == 'true' || z == \"a && false\"", lambda d: d.get("z") in ("true", "a && false")), ("x <= 2.50", lambda d: d.get("x") is not None and d["x"] <= 2), ("is_true == 1 && true", lambda d: d.get("is_true") == 1)]


def guard_ref(gi, d):
    if gi == 2:  # left to right, missing data makes the guard fail
        if d.get("x") is None:
            return False
        if d["x"] >= 1:
            return True
        return d.get("y") is not None and d["y"] > 0
    return GUARDS[gi][1](d)


dpn_case = st.fixed_dictionaries({"net": nets.free_net(max_p=3, max_t=4), "guards": st.lists(st.integers(-1, len(GUARDS) - 1), min_size=4, max_size=4),
                                  "events": st.lists(st.one_of(st.dictionaries(st.sampled_from(["x", "y", "is_true"]), st.integers(0, 4), max_size=2), st.fixed_dictionaries({"z": st.sampled_from(["u", "true", "True", "a && false", "a and False"])})), min_size=1, max_size=5),
                                  "picks": st.lists(st.integers(0, 5), min_size=5, max_size=5)})


def check_dpn(case, ctx):
    from pm4py.objects.petri_net.data_petri_nets.semantics import DataPetriNetSemantics
    from pm4py.objects.petri_net.data_petri_nets.data_marking import DataMarking
    s = case["net"]
    net, _, _, ps, ts = build.net(s)
    pre, post = nets.spec_rnet(s)
    for i, t in enumerate(ts):
        g = case["guards"][i % 4]
        if g >= 0:
            t.properties[properties.TRANS_GUARD] = GUARDS[g][0]
            t.properties[properties.READ_VARIABLE] = ["x", "y", "z", "is_true"]
    sem = DataPetriNetSemantics()
    ref_m = Counter({int(k): v for k, v in s["im"].items()})
    m = DataMarking({ps[k]: v for k, v in ref_m.items()})
    data = {}
    blocked = 0
    for e, pk in zip(case["events"], case["picks"]):
        d = dict(data)
        d.update(e)
        tok = {i for i in range(len(ts)) if all(ref_m[p] >= w for p, w in pre[i].items())}
        en = {i for i in tok if case["guards"][i % 4] < 0 or guard_ref(case["guards"][i % 4], d)}
        blocked += len(tok) - len(en)
        b1, b2 = dict(m), dict(m.data_dict)
        req_eq({ts.index(t) for t in sem.enabled_transitions(net, m, e=e)}, en, "enabled transitions with data %s" % d)
        for i, t in enumerate(ts):
            req_eq(bool(sem.is_enabled(t, net, m, e=e)), i in en, "is_enabled with data %s guard %s" % (d, t.properties.get(properties.TRANS_GUARD)))
            x = sem.execute(t, net, m, e=e)
            if i not in en:
                require(x is None, "a transition whose guard fails executes to None")
                continue
            y = Counter(ref_m)
            for p, k in pre[i].items():
                y[p] -= k
            for p, k in post[i].items():
                y[p] += k
            req_eq({ps.index(p): v for p, v in x.items()}, dict(+y), "tokens after firing")
            req_eq(dict(x.data_dict), d, "data after firing: earlier values overwritten by the event's")
        req_eq((dict(m), dict(m.data_dict)), (b1, b2), "the data marking is not modified")
        if en:
            i = sorted(en)[pk % len(en)]
            m = sem.execute(ts[i], net, m, e=e)
            ref_m = Counter({ps.index(p): v for p, v in m.items()})
            data = d
            if max(ref_m.values(), default=0) > 50:
                break
    ctx.nontrivial(blocked > 0)


mk = st.dictionaries(st.integers(0, 3).map(str), st.integers(1, 3), max_size=4)


def check_marking(case, ctx):
    a, b = ({int(k): v for k, v in case[i].items()} for i in (0, 1))
    ps = [PetriNet.Place("p%d" % i) for i in range(4)]
    A, B = Marking({ps[k]: v for k, v in a.items()}), Marking({ps[k]: v for k, v in b.items()})
    A2 = Marking({ps[k]: v for k, v in reversed(list(a.items()))})
    un = lambda m: {ps.index(p): v for p, v in m.items()}
    ctx.nontrivial(bool(a) and bool(b) and a != b)
    require(A == A2 and hash(A) == hash(A2) and not (A != A2), "equality and hash do not depend on insertion order")
    req_eq(A == B, a == b, "==")
    req_eq(A != B, a != b, "!=")
    req_eq(A <= B, all(b.get(k, 0) >= v for k, v in a.items()), "<= is multiset inclusion")
    req_eq(A < B, a != b and all(b.get(k, 0) >= v for k, v in a.items()), "<")
    S = A + B
    req_eq(un(S), {k: a.get(k, 0) + b.get(k, 0) for k in set(a) | set(b)}, "+")
    require(isinstance(S, Marking), "+ gives a marking")
    req_eq(un(S - B), a, "(A+B)-B")
    req_eq(un(S - A), b, "(A+B)-A")
    D = A - B
    req_eq(un(D), {k: a.get(k, 0) - b.get(k, 0) for k in set(a) | set(b) if a.get(k, 0) != b.get(k, 0)}, "-")
    req_eq((un(A), un(B)), (a, b), "operands unchanged")
    req_eq(un(copy.copy(A)), a, "copy")
    require(A in {A2: 1}, "usable as dictionary key")
    nm = pm4py.generate_marking(_net_with(ps), {p.name: A[p] for p in A}) if a else None
    if nm is not None:
        require(nm == A, "generate_marking from place names")
        require(pm4py.generate_marking(_net_with(ps), dict(A)) == A, "generate_marking from places")
    require(pm4py.generate_marking(_net_with(ps), "p2") == Marking({ps[2]: 1}), "generate_marking of one name")


def _net_with(ps):
    n = PetriNet("x")
    n.places.update(ps)
    return n


edit_case = st.builds(lambda p, t, l: [["P", 0, 0, 1]] * p + [["T", 0, 0, 1]] * t + l, st.integers(1, 3), st.integers(1, 3), st.lists(st.tuples(st.sampled_from(["P", "T", "A", "A", "A", "rP", "rT", "rA"]), st.integers(0, 9), st.integers(0, 9), st.integers(1, 2)).map(list), min_size=3, max_size=25))


def check_edit(case, ctx):
    net = PetriNet("e")
    P, T, A = [], [], {}
    removed = 0
    for op, x, y, w in case:
        if op == "P":
            P.append(petri_utils.add_place(net, "p%d" % len(P)))
        elif op == "T":
            T.append(petri_utils.add_transition(net, "t%d" % len(T), "A"))
        elif op == "A" and P and T:
            p, t = P[x % len(P)], T[y % len(T)]
            fr, to = (p, t) if (x + y + w) % 2 else (t, p)
            if (fr, to) in {(a.source, a.target) for a in A}:
                continue
            a = petri_utils.add_arc_from_to(fr, to, net, weight=w)
            require(a.source is fr and a.target is to and a.weight == w, "the arc returned is the one asked for")
            A[a] = 1
        elif op == "rP" and P:
            p = P.pop(x % len(P))
            petri_utils.remove_place(net, p)
            A = {a: 1 for a in A if p not in (a.source, a.target)}
            removed += 1
        elif op == "rT" and T:
            t = T.pop(x % len(T))
            petri_utils.remove_transition(net, t)
            A = {a: 1 for a in A if t not in (a.source, a.target)}
            removed += 1
        elif op == "rA" and A:
            a = sorted(A, key=lambda a: (a.source.name, a.target.name))[x % len(A)]
            petri_utils.remove_arc(net, a)
            del A[a]
            removed += 1
        req_eq(net.places, set(P), "places after %s" % op)
        req_eq(net.transitions, set(T), "transitions after %s" % op)
        req_eq(net.arcs, set(A), "arcs after %s" % op)
        for n in P + T:
            req_eq(set(n.in_arcs), {a for a in A if a.target is n}, "in_arcs of %s" % n)
            req_eq(set(n.out_arcs), {a for a in A if a.source is n}, "out_arcs of %s" % n)
            req_eq(petri_utils.pre_set(n), {a.source for a in A if a.target is n}, "pre_set")
            req_eq(petri_utils.post_set(n), {a.target for a in A if a.source is n}, "post_set")
    ctx.nontrivial(removed > 0 and len(A) > 1)


def check_copy(case, ctx):
    net, im, fm, ps, ts = build.net(case)
    ctx.nontrivial(len(case["arcs"]) > 2)
    n2, im2, fm2 = copy.deepcopy((net, im, fm))
    names = lambda n: ({p.name for p in n.places}, {(t.name, t.label) for t in n.transitions},
                       sorted((a.source.name, a.target.name, a.weight) for a in n.arcs))
    req_eq(names(n2), names(net), "deep copy is isomorphic")
    req_eq({p.name: v for p, v in im2.items()}, {p.name: v for p, v in im.items()}, "initial marking copied")
    req_eq({p.name: v for p, v in fm2.items()}, {p.name: v for p, v in fm.items()}, "final marking copied")
    require(set(im2) <= n2.places and set(fm2) <= n2.places, "the copied markings refer to the copied places")
    require(not (n2.places & net.places) and not (n2.transitions & net.transitions) and not (n2.arcs & net.arcs), "nothing is shared")
    for a in n2.arcs:
        require(a in a.source.out_arcs and a in a.target.in_arcs, "copied arcs registered")
        require(a.source in n2.places or a.source in n2.transitions, "copied arcs stay in the copy")
    before = names(net)
    for t in list(n2.transitions):
        petri_utils.remove_transition(n2, t)
    req_eq(names(net), before, "editing the copy leaves the original alone")


def check_trace_net(case, ctx):
    tr = build.variants_log([case])[0]
    net, im, fm = petri_utils.construct_trace_net(tr)
    ctx.nontrivial(len(case) > 1)
    req_eq(ref.net_lang(net, im, fm, len(case) + 1), {tuple(case)}, "language of the trace net")
    net, im, fm, cost = petri_utils.construct_trace_net_cost_aware(tr, list(range(len(case))))
    req_eq(ref.net_lang(net, im, fm, len(case) + 1), {tuple(case)}, "language of the cost-aware trace net")
    req_eq(sorted((v, t.label) for t, v in cost.items()), list(enumerate(case)), "cost of each position")


stoch_case = st.fixed_dictionaries({"net": nets.free_net(max_p=3), "w": st.lists(st.integers(1, 9), min_size=5, max_size=5)})


def check_stoch(case, ctx):
    from pm4py.objects.petri_net.stochastic.obj import StochasticPetriNet
    from pm4py.objects.petri_net.stochastic.semantics import StochasticPetriNetSemantics as S
    s = case["net"]
    net = StochasticPetriNet("n")
    ps = [StochasticPetriNet.Place(x) for x in s["places"]]
    ts = [StochasticPetriNet.Transition(x, l, weight=case["w"][i]) for i, (x, l) in enumerate(s["trans"])]
    net.places.update(ps)
    net.transitions.update(ts)
    for k, a, b, w in s["arcs"]:
        petri_utils.add_arc_from_to(ps[a], ts[b], net, weight=w) if k == "pt" else petri_utils.add_arc_from_to(ts[a], ps[b], net, weight=w)
    pre, post = nets.spec_rnet(s)
    m = Counter({ps[int(k)]: v for k, v in s["im"].items()})
    en = [i for i in range(len(ts)) if all(m[ps[p]] >= w for p, w in pre[i].items())]
    tot = sum(case["w"][i] for i in en)
    ctx.nontrivial(len(en) > 1)
    for i, t in enumerate(ts):
        p = S.probability_of_transition(net, t, m)
        require(abs(p - (case["w"][i] / tot if i in en else 0)) < 1e-9, "firing probability of %s: %s", t, p)
    if en:
        t = S.sample_enabled_transition(net, m, seed=3)
        require(ts.index(t) in en, "the sampled transition is enabled")


UNITS = [
    Unit("walk", st.fixed_dictionaries({"net": nets.free_net(), "picks": st.lists(st.integers(0, 7), min_size=1, max_size=8)}), check_walk, 700, rule="random weighted nets and firing sequences; non-trivial: >= 2 transitions fired"),
    Unit("inhibitor_reset", ri_case(), check_ri, 700, rule="nets with inhibitor/reset arcs; non-trivial: has such an arc and fired"),
    Unit("data", dpn_case, check_dpn, 700, rule="guarded nets and event data; non-trivial: a guard blocked a token-enabled transition"),
    Unit("marking", st.tuples(mk, mk).map(list), check_marking, 1500, rule="pairs of markings; non-trivial: both non-empty and different"),
    Unit("edit", edit_case, check_edit, 700, rule="edit scripts; non-trivial: something removed and >1 arcs left"),
    Unit("copy", nets.free_net(), check_copy, 500, rule="non-trivial: >2 arcs"),
    Unit("trace_net", st.lists(gen.acts(4), max_size=8), check_trace_net, 300, rule="non-trivial: >1 event"),
    Unit("stochastic", stoch_case, check_stoch, 400, rule="non-trivial: >1 enabled"),
]
