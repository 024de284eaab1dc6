"""C03: attributes of modes and passengers."""
from hypothesis import strategies as st

from pbt import gen
from pbt.core import Part, require, raises
from sidermit import exceptions as ex

RULE = ("constructions and sequences of assignments of valid and invalid values to every attribute; non-trivial: the "
        "sequence has at least one rejected and one accepted assignment, or a rejected construction; distinct by case")
ASSUMPTIONS = ["numbers are finite (NaN is not an admissible value of any attribute and is not tried)",
               "a mode with d = 0 has frequencies 0 whatever the frequencies per line given: negative ones are not tried"]

MODE_EXC = dict(name=ex.NameIsNotValidExceptions, bya=ex.ByaIsNotValidExceptions, co=ex.CoIsNotValidExceptions,
                c1=ex.C1IsNotValidExceptions, c2=ex.C2IsNotValidExceptions, v=ex.VIsNotValidExceptions,
                t=ex.TIsNotValidExceptions, fmax=ex.FmaxIsNotValidExceptions, kmax=ex.KmaxIsNotValidExceptions,
                theta=ex.ThetaIsNotValidExceptions, tat=ex.TatIsNotValidExceptions, d=ex.DIsNotValidExceptions,
                fini=ex.FiniIsNotValidException)
PAX_EXC = dict(va=ex.VaIsNotValidExceptions, pv=ex.PvIsNotValidExceptions, pw=ex.PwIsNotValidExceptions,
               pa=ex.PaIsNotValidExceptions, pt=ex.PtIsNotValidExceptions, spv=ex.SpvIsNotValidExceptions,
               spw=ex.SpwIsNotValidExceptions, spa=ex.SpaIsNotValidExceptions, spt=ex.SptIsNotValidExceptions)


def valid(attr, v):
    if v is None:
        return False
    if attr == "name":
        return True
    if attr == "bya":
        return v in (0, 1)
    if attr == "theta":
        return 0 <= v <= 1
    if attr in ("v", "va"):
        return v > 0
    return v >= 0


def value(attr):
    if attr == "name":
        return st.one_of(st.none(), st.text("ab c", max_size=4), st.just(""))
    if attr == "bya":
        return st.one_of(st.sampled_from([0, 1, None, 2, -1, 0.5]), st.integers(-3, 3))
    base = [0, 1, None, -1, 0.0, -0.5, 5e-324, -5e-324, 1.0000000000000002, 0.5, 1e9, -1e-9]
    if attr == "d":
        return st.one_of(st.sampled_from([0, 1, 2, 4, 7, None, -1, -3]), st.integers(-2, 9))
    return st.one_of(st.sampled_from(base), st.floats(-2, 3), st.floats(-1e3, 1e6))


def good(attr):
    return value(attr).filter(lambda v: valid(attr, v))


@st.composite
def case(draw, attrs, exc):
    init = {a: draw(good(a)) for a in attrs}
    bad = draw(st.lists(st.sampled_from(attrs), max_size=2, unique=True)) if draw(st.integers(0, 2)) == 0 else []
    for a in bad:
        init[a] = draw(value(a))
    ops = draw(st.lists(st.sampled_from(attrs).flatmap(lambda a: st.tuples(st.just(a), value(a))), max_size=10))
    return dict(init=init, ops=[list(o) for o in ops])


def run(c, cls, attrs, exc, scaled):
    init = c["init"]
    faults = [a for a in attrs if not valid(a, init[a])]
    if scaled and init["d"] == 0 and any(a in scaled and init[a] is not None for a in faults):
        return None
    if faults:
        # a product with a wrong d can make other attributes look right or wrong: the fault must be one of those given
        raises(lambda: cls(**init), *[exc[a] for a in faults])
        return True, ["rejected construction", "init:" + faults[0]]
    obj = cls(**init)
    model = dict(init)
    for a in scaled:
        model[a] = init[a] * init["d"]

    def agree(where):
        for a in attrs:
            got = getattr(obj, a)
            require(got == model[a], "{}: {} is {!r}, expected {!r}", where, a, got,
                    model[a])
            require(valid(a, got), "{}: {} holds {!r}", where, a, got)

    agree("construction")
    ok = rej = 0
    for a, v in c["ops"]:
        if valid(a, v):
            setattr(obj, a, v)
            model[a] = v
            ok += 1
        else:
            raises(lambda: setattr(obj, a, v), exc[a])
            rej += 1
        agree("after {} = {!r}".format(a, v))
    return ok > 0 and rej > 0, ["accepted"] * (ok > 0) + ["rejected"] * (rej > 0)


def check_mode(c):
    return run(c, gen.TransportMode, gen.MODE_ARGS, MODE_EXC, ["fmax", "fini"])


def check_pax(c):
    return run(c, gen.Passenger, gen.PAX_ARGS, PAX_EXC, [])


PARTS = [Part("mode", lambda: case(gen.MODE_ARGS, MODE_EXC), check_mode, 4000, 120000),
         Part("passenger", lambda: case(gen.PAX_ARGS, PAX_EXC), check_pax, 3000, 80000)]
