"""C13: labels against the optimal expected times of a reference (fixed point over all strategies)."""
from hypothesis import strategies as st

from pbt import gen, ref, sub
from pbt.core import Part, require

RULE = ("networks of one or two modes over cities of 1 to 4 zones (now and then 5 to 7) with frequencies given (zeros included) or not, and "
        "up to 4 OD pairs each; non-trivial: the destination can be reached from a stop of the origin of some pair; "
        "distinct by case")
ASSUMPTIONS = ["origin and destination differ and have stops; va, pv and pa are positive",
               "times compared with relative tolerance 1e-7"]


@st.composite
def case(draw):
    c = draw(gen.problem(1, 4, demand=False))
    n = gen.city_n(c["city"])
    roles = ["C"] + [k + str(z) for z in range(1, n + 1) for k in "PS"]
    c["pairs"] = draw(st.lists(st.lists(st.sampled_from(roles), min_size=2, max_size=2, unique=True), min_size=1,
                               max_size=4))
    if draw(st.integers(0, 5)) == 5:
        # many lines in common
        many = draw(gen.bundle(n, len(c["modes"]), "w"))
        c["lines"] = c["lines"] + many
        c["pairs"] = [[many[0]["ni"][0], many[0]["ni"][-1]]] + c["pairs"][:1]
        if c["f"] is not None:
            c["f"] = draw(st.lists(st.one_of(gen.num(0.05, 5), gen.num(0.05, 5), gen.num(1, 200)), min_size=8,
                                   max_size=16))
    return c


def check(c):
    s = sub.Sub(gen.Problem(c))
    tags, ok = set(), False
    for a, b in c["pairs"]:
        o, d = s.p.tok[a].id, s.p.tok[b].id
        if s.city(o) is None or s.city(d) is None:
            continue
        _, got, _ = s.hyper.build_hyperpath_graph(s.city(o), s.city(d))
        u = s.labels(o, d)
        want = s.ref.reported(o, d, s.pax, u)
        for k, node in s.node.items():
            x, y = got[node], want[k]
            if y == ref.INF or x == ref.INF:
                require(x == y, "time of {} in {}-{}: {}, expected {}", k, a, b, x, y)
            else:
                require(abs(x - y) <= 1e-9 + 1e-7 * abs(y), "time of {} in {}-{}: {}, expected {}", k, a, b, x, y)
        stops = [k for k in s.node if k[0] == "s" and k[2] == o]
        if any(want[k] < ref.INF for k in stops):
            ok = True
            tags.add("reachable")
        if any(want[k] == ref.INF for k in stops):
            tags.add("stop without way")
        if len(stops) == 2:
            tags.add("two stops")
        # a stop where several lines are worth waiting for
        for k in s.node:
            if k[0] == "s" and u[k] < ref.INF:
                go, lines = s.ref.options(k, o, d, s.pax)
                better = [f for f, x in lines if u[x] < s.ref.best_set(k, lines, u, s.pax) - 1e-12]
                if len(better) > 1:
                    tags.add("several lines")
                if len(lines) > len(better) > 0:
                    tags.add("some lines discarded")
                if go and min(t + u[x] for t, x in go) < s.ref.best_set(k, lines, u, s.pax):
                    tags.add("walks to another stop")
    return ok, sorted(tags)


PARTS = [Part("labels", case, check, 4800, 60000)]
