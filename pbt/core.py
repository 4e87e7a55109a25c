"""Harness: units = (strategy of JSON-able cases, check function).  See DESIGN.md."""
import hashlib, importlib, importlib.machinery, json, os, random, signal, sys, time, traceback, warnings

VT_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


class _OnlyHypothesis(importlib.machinery.PathFinder):
    """makes hypothesis importable from the tools venv, and nothing else from there"""
    names = ("hypothesis", "_hypothesis_globals", "_hypothesis_ftz_detector")

    @classmethod
    def find_spec(cls, fullname, path=None, target=None):
        if path is None and fullname in cls.names:
            return importlib.machinery.PathFinder.find_spec(fullname, [VT_SITE], target)
        return None


try:
    import hypothesis  # noqa
except ImportError:
    sys.meta_path.append(_OnlyHypothesis)
    import hypothesis  # noqa

import hypothesis.internal.conjecture.engine as _eng
_eng.MAX_SHRINKING_SECONDS = 45
from hypothesis import HealthCheck, Phase, given, settings, seed as hseed

REPO = os.environ.get("PM4PY_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(AssertionError):
    """the property does not hold on this case"""


class CaseTimeout(BaseException):
    pass


def require(cond, msg, *args):
    if not cond:
        try:
            text = msg % args if args else msg
        except TypeError:
            text = ": ".join([msg] + [short(a) for a in args])
        raise Violation(text)


def req_eq(got, exp, what):
    if not (got == exp):
        raise Violation("%s: got %s expected %s" % (what, short(got), short(exp)))


def short(x, n=600):
    s = repr(x)
    return s if len(s) <= n else s[:n] + "...(%d chars)" % len(s)


class Ctx:
    """per-case context: classification"""
    __slots__ = ("nontriv", "labels")

    def __init__(self):
        self.nontriv = False
        self.labels = []

    def nontrivial(self, cond=True):
        if cond:
            self.nontriv = True

    def label(self, *ls):
        self.labels.extend(ls)


class Unit:
    def __init__(self, name, strategy, check, quick, thorough=None, shards=1, rule=""):
        self.name = name
        self.strategy = strategy
        self.check = check
        self.quick = quick
        self.thorough = thorough or quick * 20
        self.shards = shards
        self.rule = rule


def subject_exception(e):
    """True if the exception was raised by the code under test (innermost repo/harness frame is pm4py's)"""
    last = None
    for fr, _ in traceback.walk_tb(e.__traceback__):
        fn = fr.f_code.co_filename
        if fn.startswith(REPO + "/"):
            last = "repo"
        elif fn.startswith(VERIF + "/"):
            last = "harness"
    return last == "repo"


def describe(e):
    tb = traceback.extract_tb(e.__traceback__)
    loc = [f for f in tb if f.filename.startswith((REPO, VERIF))]
    where = " <- ".join("%s:%s" % (os.path.relpath(f.filename, "/"), f.lineno) for f in reversed(loc[-4:]))
    return "%s: %s [%s]" % (type(e).__name__, str(e)[:1500], where)


CASE_CPU_S = 60


def _on_alarm(signum, frame):
    raise CaseTimeout()


def run_case(unit, case):
    """-> (kind, message, ctx); kind in ok / violation / error"""
    ctx = Ctx()
    signal.signal(signal.SIGPROF, _on_alarm)
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU_S, 5)
    try:
        unit.check(case, ctx)
        return "ok", "", ctx
    except Violation as e:
        return "violation", "%s" % describe(e), ctx
    except CaseTimeout:
        return "timeout", "no result within %d s of CPU time (cases of this size take well below 5 s)" % CASE_CPU_S, ctx
    except KeyboardInterrupt:
        raise
    except BaseException as e:
        if type(e).__name__ == "Overflow":  # the reference gave up: nothing decided
            ctx.label("overflow")
            return "ok", "", ctx
        if type(e).__module__.startswith("hypothesis"):
            raise
        if subject_exception(e):
            return "violation", "the code under test raised " + describe(e), ctx
        # the harness stumbled over what it was handed: every case passes on the reference tree
        return "violation", "the result does not have the expected shape: " + describe(e), ctx
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


def canon(case):
    return json.dumps(case, sort_keys=True, ensure_ascii=True)


def setup_subject():
    warnings.simplefilter("ignore")
    import logging
    logging.disable(logging.CRITICAL)
    import pm4py
    if not os.path.abspath(pm4py.__file__).startswith(REPO + "/"):
        raise RuntimeError("pm4py imported from %s" % pm4py.__file__)
    from pm4py.util import constants
    constants.SHOW_PROGRESS_BAR = False
    constants.SHOW_EVENT_LOG_DEPRECATION = False
    constants.SHOW_INTERNAL_WARNINGS = False
    warnings.simplefilter("ignore")
    return pm4py


def run_unit(unit, seed, n, budget_s):
    """one shard; returns a dict"""
    t0 = time.time()
    res = {"unit": unit.name, "evaluations": 0, "skipped_budget": 0, "labels": {}, "samples": [], "fail": None, "error": None}
    seen, nontriv = set(), set()
    best = {}

    class Stop(Exception):
        pass

    def body(case):
        if res.get("stop"):
            return
        if time.time() - t0 > budget_s:
            res["skipped_budget"] += 1
            return
        kind, msg, ctx = run_case(unit, case)
        key = canon(case)
        if kind == "ok":
            if not best:
                res["evaluations"] += 1
                h = hashlib.blake2b(key.encode(), digest_size=8).digest()
                seen.add(h)
                for l in ctx.labels:
                    res["labels"][l] = res["labels"].get(l, 0) + 1
                if ctx.nontriv:
                    if h not in nontriv and (len(res["samples"]) < 2 or (len(nontriv) in (20, 50))) and len(key) < 2500:
                        res["samples"].append(case)
                    nontriv.add(h)
            return
        if kind == "timeout":
            best.update(case=case, msg=msg, len=len(key))
            res["stop"] = True  # no shrinking of hangs
            raise Stop(msg)
        if kind == "violation":
            if "case" not in best or len(key) <= best["len"]:
                best.update(case=case, msg=msg, len=len(key))
            raise Violation("x")
        raise AssertionError(kind)

    test = given(unit.strategy)(body)
    test = settings(max_examples=n, deadline=None, database=None, derandomize=False, print_blob=False,
                    report_multiple_bugs=False, suppress_health_check=list(HealthCheck),
                    phases=(Phase.generate, Phase.shrink))(test)
    test = hseed(seed)(test)
    try:
        test()
    except Stop:
        pass
    except Violation:
        pass
    except BaseException as e:  # Flaky etc.: decided by what was recorded
        if isinstance(e, (KeyboardInterrupt, SystemExit)):
            raise
        if not best and res["error"] is None:
            res["error"] = "".join(traceback.format_exception(e))[-3000:]
    if best:
        res["fail"] = {"case": best["case"], "msg": best["msg"]}
        res["evaluations"] += 1
    res["distinct"] = len(seen)
    res["nontrivial_hashes"] = [h.hex() for h in nontriv]
    res["wall_s"] = time.time() - t0
    return res
