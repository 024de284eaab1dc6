"""Search engine of the checks: generated cases, explicit oracle, shrinking, replay files, evidence."""
import hashlib
import importlib
import json
import logging
import os
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
TOOLS = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def setup_path():
    """the code under test first, then its own environment, then the tools (hypothesis)"""
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    if TOOLS not in sys.path:
        sys.path.append(TOOLS)


setup_path()


def import_subject():
    """imports the code under test without any compiled file of it, after the libraries it uses"""
    import matplotlib.pyplot  # noqa
    import networkx  # noqa
    import pandas  # noqa
    import scipy.optimize  # noqa
    import hypothesis  # noqa
    sys.pycache_prefix = os.environ.get("VERIF_SCRATCH", "/nonexistent") + "/pyc"
    import sidermit.city  # noqa
    import sidermit.optimization.optimizer  # noqa
    return sidermit


class Violation(Exception):
    """the property does not hold for the case"""


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg.format(*args) if args else msg)


def close(a, b, rel=1e-9, abs_=1e-9):
    if a == b:
        return True
    try:
        if a != a or b != b or abs(a) == float("inf") or abs(b) == float("inf"):
            return False
        return abs(a - b) <= max(abs_, rel * max(abs(a), abs(b)))
    except TypeError:
        return False


def require_close(a, b, what, rel=1e-9, abs_=1e-9):
    require(close(a, b, rel, abs_), "{}: got {!r}, expected {!r}", what, a, b)


def raises(fn, *types):
    """runs fn, which must raise one of types (any Exception if none is given); returns the exception"""
    try:
        r = fn()
    except Exception as e:  # noqa
        if types and not isinstance(e, types):
            raise Violation("expected {}, got {}: {}".format("/".join(t.__name__ for t in types), type(e).__name__, e))
        return e
    raise Violation("expected {}, got no exception (result {!r})".format(
        "/".join(t.__name__ for t in types) or "an exception", r))


SHRINK = 120


class Part:
    """a generator of JSON cases with the oracle that judges them"""

    def __init__(self, name, strategy, check, quick, thorough=None, hang=60):
        self.name = name
        self.strategy = strategy
        self.check = check
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 25
        self.hang = hang


def case_hash(part, case):
    return hashlib.sha1((part + json.dumps(case, sort_keys=True, default=str)).encode()).hexdigest()[:16]


def judge(part, case):
    """outcome of a case: (nontrivial, tags); raises Violation"""
    try:
        out = part.check(case)
    except Violation:
        raise
    except (KeyboardInterrupt, SystemExit, MemoryError):
        raise
    except Exception as e:
        tb = traceback.format_exception(e)
        raise Violation("unexpected {}: {}\n{}".format(type(e).__name__, e, "".join(tb)[-3000:]))
    if out is None:
        return False, []
    return out


def load(prop):
    return importlib.import_module("pbt.props." + prop.lower())


def run_worker(prop, tier, seed, worker, n_workers, deadline, out_path):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    import hypothesis.internal.conjecture.engine as engine
    engine.MAX_SHRINKING_SECONDS = 45 if tier == "quick" else 240
    logging.disable(logging.CRITICAL)
    mod = load(prop)
    res = dict(evaluations=0, trivial=0, hashes=[], tags={}, samples=[], violation=None, parts={}, error=None,
               truncated=False)
    hashes = set()

    def save():
        res["hashes"] = sorted(hashes)
        tmp = out_path + ".tmp"
        with open(tmp, "w") as f:
            json.dump(res, f, default=str)
        os.replace(tmp, out_path)

    state = dict(case=None, part=None, current=None)

    def on_alarm(signum, frame):
        res["violation"] = dict(part=state["part"].name, case=state["case"],
                                message="the case did not finish in {} s".format(state["part"].hang))
        save()
        os._exit(0)

    def watch(seconds):
        # processor time, so that a busy machine does not count, and a wide limit for cases that wait
        signal.setitimer(signal.ITIMER_PROF, seconds)
        signal.setitimer(signal.ITIMER_REAL, 4 * seconds)

    signal.signal(signal.SIGALRM, on_alarm)
    signal.signal(signal.SIGPROF, on_alarm)

    for i, part in enumerate(mod.PARTS):
        total = part.quick if tier == "quick" else part.thorough
        n = total // n_workers + (1 if worker < total % n_workers else 0)
        if n == 0:
            continue
        failing = {}
        counted = dict(n=0)
        state["current"] = part

        def test(case):
            part = state["current"]
            if time.time() > deadline and not failing:
                res["truncated"] = True
                return
            state["case"], state["part"] = case, part
            res["evaluations"] += 1
            counted["n"] += 1
            if failing and time.time() > failing["since"] + SHRINK:
                return
            watch(part.hang)
            try:
                nontrivial, tags = judge(part, case)
            except Violation as e:
                watch(0)
                failing["case"], failing["message"] = case, str(e)
                failing.setdefault("since", time.time())
                # kept in case that there is no time to shrink it
                res["violation"] = dict(part=part.name, case=case, message=str(e))
                save()
                raise
            finally:
                watch(0)
            if nontrivial:
                h = case_hash(part.name, case)
                if h not in hashes:
                    hashes.add(h)
                    if len(res["samples"]) < 2 + i and len(json.dumps(case, default=str)) < 6000:
                        res["samples"].append(dict(part=part.name, tags=list(tags), case=case))
            else:
                res["trivial"] += 1
            for t in tags:
                res["tags"][t] = res["tags"].get(t, 0) + 1

        part_seed = int(hashlib.sha1("{}/{}/{}/{}/{}".format(prop, part.name, tier, seed, worker).encode())
                        .hexdigest()[:12], 16)
        strategy = part.strategy() if callable(part.strategy) else part.strategy
        t = settings(max_examples=n, database=None, deadline=None, derandomize=False, print_blob=False,
                     report_multiple_bugs=False, suppress_health_check=list(HealthCheck),
                     phases=[Phase.generate] if os.environ.get("VERIF_NO_SHRINK") else [Phase.generate, Phase.shrink])(hypothesis.seed(part_seed)(given(strategy)(test)))
        t0 = time.time()
        try:
            t()
        except Violation as e:
            res["violation"] = dict(part=part.name, case=failing["case"], message=failing["message"])
        except Exception as e:  # noqa: the harness itself, or a flaky failure
            if failing:
                # not shrunk to the end
                res["violation"] = dict(part=part.name, case=failing["case"],
                                        message=failing["message"] + "\n(engine: {})".format(type(e).__name__))
            else:
                res["error"] = "".join(traceback.format_exception(e))
        res["parts"][part.name] = dict(evaluations=counted["n"], seconds=round(time.time() - t0, 2))
        if res["violation"] or res["error"]:
            break
    save()


def write_json(path, obj):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + ".tmp{}".format(os.getpid())
    with open(tmp, "w") as f:
        json.dump(obj, f, indent=1, default=str)
    os.replace(tmp, path)
