"""C02: rejection of city and demand parameters out of range."""
from hypothesis import strategies as st

from pbt import gen
from pbt.core import Part, require, raises
from pbt.gen import num
from sidermit import exceptions as ex

RULE = ("parameter tuples obtained from valid ones (limits included) by damaging zero, one or several parameters; "
        "non-trivial: at least one damaged parameter, or a parameter exactly at a limit; distinct by tuple")
ASSUMPTIONS = ["numbers are finite; values of other types are only tried for the demand parameters, where documented"]

TINY = 5e-324


def bad_low(lo=0.0):
    return st.one_of(st.sampled_from([lo - 1e-12, lo - 1, -0.5 + lo, -TINY if lo == 0 else lo - 1e-9]),
                     st.integers(1, 12).map(lambda k: lo - 10.0 ** -k), st.floats(lo - 100, lo - 1e-9))


def bad_high(hi):
    return st.one_of(st.sampled_from([hi * (1 + 1e-12), hi + 1, hi + 0.25]),
                     st.integers(1, 10).map(lambda k: hi + 10.0 ** -k), st.floats(hi + 1e-6, hi * 2 + 100))


@st.composite
def city_case(draw):
    n = draw(st.integers(0, 5))
    c = draw(gen.param_city(n, n, l_min=0.0))
    c.pop("kind")
    if n and c["etha"] is None and draw(st.booleans()):
        c["etha"], c["etha_zone"] = draw(num(0, 1)), draw(st.integers(1, n))
    for k, hi in (("angles", 360), ("Gi", 3), ("Hi", 3)):
        if c[k] is None and draw(st.booleans()):
            c[k] = draw(st.lists(num(0, hi), min_size=n, max_size=n))
    damages = draw(st.lists(st.sampled_from(["n", "l", "g", "p", "etha", "etha_only", "zone_only", "zone", "angle",
                                             "angle_len", "Gi", "Gi_len", "Hi", "Hi_len"]), max_size=2, unique=True))
    done = []
    for d in damages:
        if d == "n":
            c["n"] = draw(st.integers(-4, -1))
        elif d in ("l", "g", "p"):
            c[d] = draw(bad_low())
        elif d == "etha":
            c["etha"] = draw(st.one_of(bad_low(), bad_high(1.0)))
            if c["etha_zone"] is None:
                c["etha_zone"] = 1
        elif d == "etha_only":
            c["etha"], c["etha_zone"] = draw(num(0, 1)), None
        elif d == "zone_only":
            c["etha"], c["etha_zone"] = None, draw(st.integers(0, max(1, n)))
        elif d == "zone":
            if c["etha"] is None:
                c["etha"] = draw(num(0, 1))
            c["etha_zone"] = draw(st.one_of(st.sampled_from([0, -1, n + 1, 1.5]), st.integers(n + 1, n + 10)))
        else:
            k = {"a": "angles", "G": "Gi", "H": "Hi"}[d[0]]
            vals = list(c[k]) if c[k] is not None else [1.0] * n
            if d.endswith("len"):
                vals = draw(st.sampled_from([vals + [1.0], vals[:-1] if n else [1.0], vals * 2 + [0.0]]))
            elif vals:
                i = draw(st.integers(0, len(vals) - 1))
                vals[i] = draw(st.one_of(bad_low(), bad_high(360.0)) if k == "angles" else bad_low())
            else:
                vals = [1.0]
            c[k] = vals
        done.append(d)
    return dict(c, damages=done)


def city_faults(c):
    """exceptions of the parameters that are out of their range"""
    out = []
    n = c["n"]
    if n < 0:
        out.append(ex.NIsNotValidNumberException)
    for k, e in (("l", ex.LIsNotValidNumberException), ("g", ex.GIsNotValidNumberException),
                 ("p", ex.PIsNotValidNumberException)):
        if c[k] < 0:
            out.append(e)
    if c["etha"] is None and c["etha_zone"] is not None:
        out.append(ex.EthaValueRequiredException)
    if c["etha"] is not None and c["etha_zone"] is None:
        out.append(ex.EthaZoneValueRequiredException)
    if c["etha"] is not None and c["etha_zone"] is not None:
        if c["etha"] < 0 or c["etha"] > 1:
            out.append(ex.EthaValueIsNotValidException)
        if c["etha_zone"] not in range(1, n + 1):
            out.append(ex.EthaZoneValueIsNotValidException)
    for k, le, ve in (("angles", ex.AngleListLengthIsNotValidException, ex.AngleValueIsNotValidException),
                      ("Gi", ex.GiListLengthIsNotValidException, ex.GiValueIsNotValidException),
                      ("Hi", ex.HiListLengthIsNotValidException, ex.HiValueIsNotValidException)):
        if c[k] is not None:
            if len(c[k]) != n:
                out.append(le)
            if any(v < 0 or (k == "angles" and v > 360) for v in c[k]):
                out.append(ve)
    return out


def check_city(c):
    c = dict(c)
    damages = c.pop("damages")
    faults = city_faults(c)
    for fn in (gen.Graph.build_from_parameters, gen.Graph.parameters_validator):
        if faults:
            raises(lambda: fn(**c), *faults)
        else:
            r = fn(**c)
            if fn is gen.Graph.parameters_validator:
                require(r is True, "the validator returned {!r}", r)
    limits = any(v in (0, 1) for v in (c["etha"],) if v is not None) or 0 in (c["l"], c["g"], c["p"]) or \
        any(v in (0, 360) for v in (c["angles"] or []))
    return bool(faults) or limits, (["valid"] if not faults else ["fault:" + f.__name__ for f in faults])


@st.composite
def demand_case(draw):
    n = draw(st.integers(0, 4))
    alpha = draw(num(0, 1))
    beta = draw(num(0, 1))
    c = dict(y=draw(num(0, 1000)), a=draw(num(0, 1)), alpha=alpha, beta=beta)
    if alpha + beta > 1 and draw(st.booleans()):
        c["beta"] = 1 - alpha
    if draw(st.integers(0, 3)) == 0:
        # close to the limit, at either side
        c["beta"] = 1 - alpha + draw(st.sampled_from([-1, 1])) * 10.0 ** -draw(st.integers(1, 12))
    for d in draw(st.lists(st.sampled_from(["y", "a", "alpha", "beta", "none"]), max_size=2, unique=True)):
        if d == "y":
            c["y"] = draw(bad_low())
        elif d == "none":
            k = draw(st.sampled_from(["y", "a", "alpha", "beta"]))
            c[k] = draw(st.sampled_from([None, "0.5"]))
        else:
            c[d] = draw(st.one_of(bad_low(), bad_high(1.0), st.just(1.0)))
    return dict(c, n=n)


def demand_faults(c):
    out = []
    for k, e in (("y", ex.YIsNotValidException), ("a", ex.AIsNotValidException), ("alpha", ex.AlphaIsNotValidException),
                 ("beta", ex.BetaIsNotValidException)):
        if c[k] is None or isinstance(c[k], str):
            out.append(e)
    ok = {k: not (c[k] is None or isinstance(c[k], str)) for k in ("y", "a", "alpha", "beta")}
    if ok["y"] and c["y"] < 0:
        out.append(ex.YOutOfRangeException)
    if ok["a"] and not 0 <= c["a"] <= 1:
        out.append(ex.AOutOfRangeException)
    if ok["alpha"] and not 0 <= c["alpha"] <= 1:
        out.append(ex.AlphaOutOfRangeException)
    if ok["beta"] and not 0 <= c["beta"] < 1:
        out.append(ex.BetaOutOfRangeException)
    if ok["alpha"] and ok["beta"] and c["alpha"] + c["beta"] > 1:
        out.append(ex.AlphaBetaOutOfRangeException)
    return out


def check_demand(c):
    c = dict(c)
    graph = gen.Graph.build_from_parameters(c.pop("n"))
    faults = demand_faults(c)
    for fn in (lambda **k: gen.Demand.build_from_parameters(graph, **k), gen.Demand.parameters_validator):
        if faults:
            raises(lambda: fn(**c), *faults)
        else:
            fn(**c)
    limits = any(v in (0, 1) for v in c.values()) or c["alpha"] is not None and c["beta"] is not None and not faults \
        and c["alpha"] + c["beta"] == 1
    return bool(faults) or limits, (["demand valid"] if not faults else ["fault:" + f.__name__ for f in faults])


PARTS = [Part("city", city_case, check_city, 18000, 200000), Part("demand", demand_case, check_demand, 9000, 100000)]
