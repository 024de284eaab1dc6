"""C23: the outer optimization loop."""
import contextlib

import numpy as np
import scipy.optimize
from hypothesis import strategies as st
from scipy.optimize import OptimizeResult

import sidermit.optimization.optimizer as module
from pbt import gen, ref, sub
from pbt.core import Part, close, raises, require, require_close
from pbt.gen import num
from pbt.props import c21
from pbt.props.c22 import _with
from sidermit.exceptions import (ConstraintViolationException, NegativeFrequencyException,
                                 NoOptimalSolutionFoundException, OptimizerException)
from sidermit.optimization.optimizer import Optimizer

RULE = ("sequences of 1 to 7 results of the solver (converged, failed, infeasible, with negative or small frequencies) "
        "with any tolerance and limit of iterations, in place of the solver; lists of results; and real optimizations "
        "of small problems; non-trivial: more than one result; distinct by case")
ASSUMPTIONS = ["the solver is replaced or observed at scipy.optimize.minimize",
               "limit N: the first iteration and at most N more (as the code does)",
               "the change of the first iteration is measured from the initial frequencies: those given, or those of the "
               "modes if none are given",
               "changes within 1e-9 of the tolerance are not judged"]
SMALL = 1 / 24


# ------------------------------------------------------------------ selection among results

def result():
    good = st.tuples(st.lists(st.one_of(num(0, 40), st.sampled_from([0, 1e-4, SMALL, 0.0416, 0.05])), min_size=2,
                              max_size=2),
                     st.sampled_from([1, 1, 2, 2, 2]), st.sampled_from([0, 0, 1e-6, 5e-4, 9e-4, -5e-4]), num(-100, 100))
    any_ = st.tuples(st.lists(st.one_of(num(0, 40), num(0, 40), st.sampled_from([-1e-9, -0.05, -3.0, -0.2])), min_size=2,
                              max_size=2),
                     st.sampled_from([0, 1, 2, 3, -1]), st.sampled_from([0, 0, 5e-4, 2e-3, 0.05, 0.5, -2e-3, -0.5, 40]),
                     num(-100, 100))
    return st.one_of(good, any_).map(lambda t: dict(x=t[0], status=t[1], cv=t[2], fun=t[3]))


def valid(r):
    return r["status"] in (1, 2) and abs(r["cv"]) < 0.001 and all(x >= 0 for x in r["x"])


def best(results):
    """values of the valid results of least objective"""
    ok = [r for r in results if valid(r)]
    low = min([r["fun"] for r in ok], default=None)
    return [r for r in ok if r["fun"] == low]


def as_tuple(r, i, arr=True):
    return (np.array(r["x"]) if arr else list(r["x"]), r["status"] in (1, 2), r["status"], "result %d" % i, r["cv"],
            r["fun"])


def check_selection(c):
    rs = c["results"]
    got = Optimizer.get_better_result([as_tuple(r, i, c["arrays"]) for i, r in enumerate(rs)])
    want = best(rs)
    if not want:
        require(got is None, "result {} although none is valid", got)
    else:
        require(got is not None, "no result, expected one of {}", want)
        i = int(got[3].split()[1])
        require(rs[i] in want, "result {}, expected one of {}", rs[i], want)
        x, success, status, message, cv, fun = got
        require(list(x) == rs[i]["x"] and (success, status, cv, fun) == as_tuple(rs[i], i)[1:3] + as_tuple(rs[i], i)[4:],
                "result {} was reported as {}", rs[i], got)
    return len(rs) > 1, ["valid" if want else "none valid"]


def check_status(c):
    r = c["result"]

    def run():
        return Optimizer.status_optimization(None if r is None else as_tuple(r, 0))

    bad = []
    if r is None:
        bad = [NoOptimalSolutionFoundException]
    else:
        # the order among several reasons is not judged
        if any(x < -0.1 for x in r["x"]):
            bad.append(NegativeFrequencyException)
        if abs(r["cv"]) > 0.1:
            bad.append(ConstraintViolationException)
        if r["status"] in (0, 3):
            bad.append(NoOptimalSolutionFoundException)
    if bad:
        e = raises(run, *bad)
        require(isinstance(e, OptimizerException), "{} is not an optimizer exception", type(e).__name__)
    else:
        require(run() is True, "a valid result is not accepted")
    return r is not None, [b.__name__ for b in bad] or ["accepted"]


@st.composite
def maps_case(draw):
    c = draw(gen.problem(1, 3, max_families=2, demand=False))
    c["prev"] = draw(st.lists(num(0, 40), min_size=1, max_size=6))
    c["new"] = draw(st.lists(num(0, 40), min_size=1, max_size=6))
    c["tol"] = draw(st.one_of(num(0, 5), num(0, 300), st.just(0.01)))
    return c


def check_maps(c):
    p = gen.Problem(c)
    if not p.routes:
        return None
    n = len(p.routes)
    opt = Optimizer(p.graph, gen.Demand(p.graph), p.pax, p.net, p.f)
    a = [c["prev"][i % len(c["prev"])] for i in range(n)]
    b = [c["new"][i % len(c["new"])] for i in range(n)]
    f = opt.fopt_to_f(a)
    require(dict(f) == {r.id: a[i] for i, r in enumerate(p.net.get_routes())}, "frequencies {} of {}", dict(f), a)
    dist = sum(abs(x - y) for x, y in zip(a, b))
    require_close(Optimizer.f_distance(a, b), dist, "change of frequency")
    if abs(dist - c["tol"]) > 1e-9:
        got = opt.external_optimization_tolerance(a, b, c["tol"])
        require(bool(got) == (dist < c["tol"]), "tolerance {} with change {}: {}", c["tol"], dist, got)
    want = gen.effective_f(p.routes, p.f)
    for name, (fini, fopt, pos) in (("given", opt.f0(p.f)), ("of the modes", opt.f0(None))):
        e = want if name == "given" else gen.effective_f(p.routes, None)
        require({r.id: fini[r.id] for r in p.routes} == e, "initial frequencies {}: {}", name, dict(fini))
        require(len(fopt) == n and [pos[i] for i in range(n)] == [r.id for r in p.net.get_routes()],
                "positions of lines {}", dict(pos))
        require(list(fopt) == [e[r.id] for r in p.routes], "initial vector {}", fopt)
    return n > 1, ["reached" if dist < c["tol"] else "not reached"]


# ------------------------------------------------------------------ outer loop with a scripted solver

@st.composite
def script(draw):
    c = draw(gen.problem(1, 3, max_families=1, max_custom=2, zeros=False))
    steps = []
    for _ in range(draw(st.integers(1, 7))):
        kind = draw(st.sampled_from(["jump", "jump", "jump", "near", "same"]))
        x = draw(st.lists(st.one_of(num(1, 40), num(0, 40), st.sampled_from([0, 0.001, SMALL, 0.0416, 0.04, 0.05])),
                          min_size=1, max_size=6))
        steps.append(dict(kind=kind, x=x, by=draw(st.sampled_from([1e-5, 1e-3, 0.02])),
                          status=draw(st.sampled_from([1, 2, 2, 1, 0, 3])),
                          cv=draw(st.sampled_from([0, 0, 0, 5e-4, 2e-3, 0.05, 0.5])), fun=draw(num(0, 1000)),
                          negative=draw(st.sampled_from([None, None, None, None, -1e-6, -0.05, -2.0]))))
    c["steps"] = steps
    c["limit"] = draw(st.one_of(st.none(), st.integers(0, 6)))
    c["tol"] = draw(st.sampled_from([0.01, 0.01, 0.5, 1e-4, 5.0]))
    c["probe"] = draw(st.lists(num(1, 50), min_size=1, max_size=5))
    c["entry"] = draw(st.sampled_from(["network", "external"]))
    return c


class Ended(Exception):
    """more runs of the solver than expected"""


@contextlib.contextmanager
def solver(fake):
    saved = scipy.optimize.minimize
    own = [k for k, v in vars(module).items() if v is saved]
    scipy.optimize.minimize = fake
    for k in own:
        setattr(module, k, fake)
    try:
        yield
    finally:
        scipy.optimize.minimize = saved
        for k in own:
            setattr(module, k, saved)


def dist(a, b):
    return sum(abs(x - y) for x, y in zip(a, b))


def plan(c, p, reachable):
    """vectors of the results and expected number of runs (several if not decided)"""
    n = len(p.routes)
    given = [gen.effective_f(p.routes, p.f)[r.id] for r in p.routes]
    prev, out, counts = given, [], set()
    undecided = False
    for i, s in enumerate(c["steps"]):
        if s["kind"] == "jump":
            x = [s["x"][j % len(s["x"])] for j in range(n)]
        else:
            x = [y + (s["by"] / n if s["kind"] == "near" else 0) for y in prev]
        if not reachable(x):
            x = [y if y > 0.5 else y + 0.5 for y in x]
        out.append(x)
        d = dist(prev, x)
        undecided = undecided or abs(d - c["tol"]) < 1e-9
        last = d < c["tol"] or (c["limit"] is not None and i >= c["limit"])
        if last:
            counts.add(i + 1)
        if last or i == len(c["steps"]) - 1:
            return out, counts, undecided, last
        prev = x


def check_loop(c):
    p = gen.Problem(c)
    if not p.routes:
        return None
    b = sub.Built(c)
    p = b.p
    if not b.pairs:
        return None

    def reachable(x):
        s = sub.Sub(_with(p, gen.freq_dict(p.routes, x)))
        return all(s.reachable(o, d) for o, d, _ in b.pairs)

    xs, counts, undecided, ended = plan(c, p, reachable)
    if undecided:
        return None
    results = [dict(x=list(x), status=s["status"], cv=s["cv"], fun=s["fun"], message="run %d" % i)
               for i, (x, s) in enumerate(zip(xs, c["steps"]))]
    last = c["steps"][len(xs) - 1]["negative"]
    if last is not None and c["limit"] == len(xs) - 1:
        # only in the last result: the next problem would be built with it
        results[-1]["x"][0] = last
    n = len(p.routes)
    probe = [c["probe"][i % len(c["probe"])] for i in range(n)]
    runs = []

    def fake(fun, x0, *args, **kw):
        k = len(runs)
        if k >= len(results):
            raise Ended()
        runs.append(k)
        f = p.f if k == 0 else gen.freq_dict(p.routes, xs[k - 1])
        other = Optimizer(p.graph, p.demand, p.pax, p.net, f)
        require_close(fun(list(probe)), other.VRC(list(probe)), "objective given to the solver in the run {}".format(k))
        start = gen.effective_f(p.routes, p.f)
        start = [start[r.id] for r in p.routes] if k == 0 else xs[k - 1]
        require(len(x0) == n and all(close(y, s) for y, s in zip(x0, start)), "the run {} starts from {}, expected {}", k,
                list(x0), start)
        problem(kw, args, other, probe, n)
        r = results[k]
        return OptimizeResult(x=np.array(r["x"], dtype=float), success=r["status"] in (1, 2), status=r["status"],
                              message=r["message"], constr_violation=r["cv"], fun=r["fun"], nit=3, nfev=7,
                              optimality=0.0)

    got = error = None
    with solver(fake):
        try:
            if c["entry"] == "network":
                opt = Optimizer.network_optimization(p.graph, p.demand, p.pax, p.net, p.f, c["tol"], c["limit"])
                got = opt.get_optimization_value()
                require(got == opt.better_res, "value saved {} and returned {}", opt.better_res, got)
            else:
                got = Optimizer.external_optimization(p.graph, p.demand, p.pax, p.net, p.f, c["tol"], c["limit"])
        except Ended:
            require(not ended, "more than {} runs of the solver", counts)
            return len(runs) > 1, ["goes on"]
        except OptimizerException as e:
            error = e
    require(len(runs) in counts, "{} runs of the solver, expected {} (none: more than the script has)", len(runs),
            sorted(counts))
    want = best(results[:len(runs)])
    if not want:
        require(error is not None, "result {} although no run is valid", got)
        return len(runs) > 1, ["none valid"]
    require(error is None, "{} although some run is valid", type(error).__name__)
    judge_result(got, results[:len(runs)], want)
    return len(runs) > 1, ["{} runs".format(min(len(runs), 4)), "limit" if c["limit"] == len(runs) - 1 else "tolerance"]


def judge_result(got, results, want):
    x, success, status, message, cv, fun = got
    for r in want:
        if [0 if y < SMALL else y for y in r["x"]] == list(x) and (status, cv, fun) == (r["status"], r["cv"], r["fun"]) \
                and success == (r["status"] in (1, 2)) and message == r["message"]:
            return
    require(False, "result {}, expected {}", got, want)


def problem(kw, args, other, probe, n):
    """constraints and bounds given to the solver"""
    con = kw.get("constraints", ())
    con = list(con) if isinstance(con, (list, tuple)) else [con]
    values = []
    for q in con:
        lb, ub = np.broadcast_to(q.lb, np.shape(q.fun(list(probe)))), np.broadcast_to(q.ub, np.shape(q.fun(list(probe))))
        for y, a, b in zip(q.fun(list(probe)), lb, ub):
            # each as a quantity that must not be positive
            if b < np.inf:
                values.append(y - b)
            if a > -np.inf:
                values.append(a - y)
    want = other.get_constrains(list(probe))
    require(len(values) == len(want) and all(close(x, y, 1e-9, 1e-7) for x, y in zip(sorted(values), sorted(want))),
            "constraints given to the solver {}, expected {}", sorted(values), sorted(want))
    bounds = kw.get("bounds")
    lb = [bounds.lb] * n if np.ndim(getattr(bounds, "lb", None)) == 0 and hasattr(bounds, "lb") else \
        list(bounds.lb) if hasattr(bounds, "lb") else [x[0] for x in bounds]
    ub = [bounds.ub] * n if np.ndim(getattr(bounds, "ub", None)) == 0 and hasattr(bounds, "ub") else \
        list(bounds.ub) if hasattr(bounds, "ub") else [np.inf if x[1] is None else x[1] for x in bounds]
    require(list(lb) == [0] * n and all(x == np.inf for x in ub), "bounds {} {}", lb, ub)


# ------------------------------------------------------------------ real optimizations

@st.composite
def real_case(draw):
    c = draw(gen.problem(1, 2, two=draw(st.sampled_from([None, False])), max_families=1, max_custom=0, zeros=False))
    for m in c["modes"]:
        # easy capacities
        m.update(kmax=max(m["kmax"], 100), fmax=max(m["fmax"], 50))
    if c["demand"]["kind"] == "param":
        c["demand"]["y"] = min(c["demand"]["y"], 500)
    else:
        c["demand"]["cells"] = [[o, d, min(v, 300)] for o, d, v in c["demand"]["cells"]]
    c["limit"] = draw(st.integers(0, 1))
    return c


def check_real(c):
    p = gen.Problem(c)
    if not p.routes or len(p.routes) > 6:
        return None
    b = sub.Built(c)
    p = b.p
    if not b.pairs:
        return None
    original = scipy.optimize.minimize
    runs = []

    def watched(fun, x0, *args, **kw):
        res = original(fun, x0, *args, **kw)
        runs.append((res, kw, fun))
        return res

    got = error = None
    with solver(watched):
        try:
            got = Optimizer.network_optimization(p.graph, p.demand, p.pax, p.net, p.f, 0.01,
                                                 c["limit"]).get_optimization_value()
        except OptimizerException as e:
            error = e
        except Exception as e:  # noqa: a frequency of the solver can leave a pair without service
            if type(e).__name__ != "TransportNetworkIsNotValidException" and not isinstance(e, ValueError):
                raise
            return False, [type(e).__name__]
    results = [dict(x=[float(y) for y in r.x], status=r.status, cv=r.constr_violation, fun=r.fun, message=r.message) for r, _, _ in runs]
    require(1 <= len(results) <= c["limit"] + 1, "{} runs of the solver with limit {}", len(results), c["limit"])
    f = p.f
    for (res, kw, fun), r in zip(runs, results):
        other = Optimizer(p.graph, p.demand, p.pax, p.net, f)
        require_close(r["fun"], other.VRC(r["x"]), "objective of the solution of the solver", 1e-9)
        worst = max([0] + list(other.get_constrains(r["x"])) + [-y for y in r["x"]])
        require_close(r["cv"], worst, "constraint violation", 1e-6, 1e-6)
        f = gen.freq_dict(p.routes, r["x"])
    want = best(results)
    if not want:
        require(error is not None, "result {} although no run is valid", got)
        return True, ["none valid"]
    require(error is None, "{} although some run is valid", error)
    judge_result(got, results, want)
    return True, ["optimum", "{} runs".format(len(results))]


PARTS = [Part("selection", lambda: st.fixed_dictionaries(dict(results=st.lists(result(), max_size=7),
                                                              arrays=st.booleans())), check_selection, 4800, 60000),
         Part("status", lambda: st.fixed_dictionaries(dict(result=st.one_of(st.none(), result(), result(), result()))),
              check_status, 1600, 16000),
         Part("maps", maps_case, check_maps, 960, 12000),
         Part("loop", script, check_loop, 960, 16000),
         Part("real", real_case, check_real, 240, 4000, hang=240)]
