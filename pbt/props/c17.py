"""C17: boardings, alightings and loads."""
from hypothesis import strategies as st

from pbt import gen, ref, sub
from pbt.core import Part, require
from sidermit.optimization.preoptimization import Assignment

RULE = ("problems of 1 to 4 zones (now and then 5 to 7) with one or two modes, their own or other frequencies (zeros included) and their own "
        "or other shares between stops; non-trivial: somebody travels; distinct by case")
ASSUMPTIONS = ["at every stop with passengers some attractive line has positive frequency",
               "the strategies of the code under test are taken as given (C13 and C14 decide them)"]


@st.composite
def case(draw):
    c = draw(gen.problem(1, 4, two=draw(st.sampled_from([None, True])), max_families=2))
    c["g"] = draw(st.one_of(st.none(), gen.freq_values(8)))
    c["split"] = draw(st.one_of(st.none(), st.sampled_from([0, 100, 50, 37.5, 0.25]))) if len(c["modes"]) == 2 else None
    return c


def conservation(b, z, v, load, f):
    """balance of every line, from the sequences alone"""
    total = max([1.0] + [x for t in (z, v, load) for x in t.values()])
    tol = 1e-8 * total
    keys = set()
    for ln in b.lines:
        for d, nodes, stops in ln.dirs:
            names = stops[1:] if ln.circular else stops
            keys |= {(ln.id, d, s) for s in names}
            up = sum(z.get((ln.id, d, s), 0) for s in names)
            down = sum(v.get((ln.id, d, s), 0) for s in names)
            require(abs(up - down) <= tol, "line {} {}: {} board and {} alight", ln.id, d, up, down)
            prev = load.get((ln.id, d, names[-1]), 0) if ln.circular else 0
            for s in names:
                k = ln.id, d, s
                now = load.get(k, 0)
                require(now >= 0 and z.get(k, 0) >= 0 and v.get(k, 0) >= 0, "negative passengers in {}", k)
                require(abs(prev + z.get(k, 0) - v.get(k, 0) - now) <= tol,
                        "line {} {} at {}: load {}, boardings {}, alightings {}, then load {}", ln.id, d, s, prev,
                        z.get(k, 0), v.get(k, 0), now)
                prev = now
            if not ln.circular:
                require(abs(prev) <= tol, "line {} {} ends with {} passengers", ln.id, d, prev)
    for name, t in (("boardings", z), ("alightings", v), ("loads", load)):
        require(set(t) <= keys, "{} out of the stops of the lines: {}", name, set(t) - keys)


def check(c):
    p = gen.Problem(c)
    if not p.routes:
        return None
    b = sub.Built(c)
    if c["split"] is not None:
        b.split(c["split"])
    f = b.repaired(c["g"] if c["g"] is not None else [b.s.f[r.id] for r in b.p.routes])
    before = {r.id: f[r.id] for r in b.p.routes}
    zi, vi, li = b.board_alight(f)
    require({r.id: f[r.id] for r in b.p.routes} == before, "frequencies were changed")
    z, v, load = sub.flat(zi), sub.flat(vi), sub.flat(li)
    fl = b.flows(f)
    sub.same(z, ref.per_vehicle(fl.board, f), "boardings")
    sub.same(v, ref.per_vehicle(fl.alight, f), "alightings")
    sub.same(load, ref.per_vehicle(fl.load, f), "load")
    conservation(b, z, v, load, f)
    got, want = Assignment.most_loaded_section(li), {}
    for (rid, d, s), x in load.items():
        want[rid] = max(want.get(rid, 0), x)
    for r in b.p.routes:
        require(got[r.id] == want.get(r.id, 0), "most loaded section of {}: {}, expected {}", r.id, got[r.id],
                want.get(r.id, 0))
    # the trips of one pair start at its origin and end at its destination
    o = b.opt
    for i, j, n in b.pairs[:2]:
        a, d = b.s.city(i), b.s.city(j)
        one = {a: {d: o.hyperpaths[a][d]}}
        zo, vo, _ = Assignment.get_alighting_and_boarding(o.Vij, one, o.successors, o.assignment, f)
        zo, vo = sub.flat(zo), sub.flat(vo)

        def net(city):
            return sum(x * f[k[0]] for k, x in zo.items() if k[2] == city) - \
                sum(x * f[k[0]] for k, x in vo.items() if k[2] == city)

        require(abs(net(i) - n) <= 1e-8 * max(1, n), "{} trips {}-{}: {} start at the origin", n, i, j, net(i))
        require(abs(net(j) + n) <= 1e-8 * max(1, n), "{} trips {}-{}: {} end at the destination", n, i, j, -net(j))
    tags = ["transfers"] * (sum(fl.board.values()) > sum(t[0] for t in b.trips()) * (1 + 1e-9))
    tags += ["circular"] * any(r.circular and any(k[0] == r.id for k in load) for r in b.lines)
    tags += ["both stops"] * any(len(x) == 2 for x in b.share.values())
    tags += ["zero frequency"] * any(f[r.id] == 0 for r in b.p.routes)
    return bool(fl.board), tags


PARTS = [Part("flows", case, check, 3000, 60000)]
