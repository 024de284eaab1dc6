"""C20: infrastructure of every mode."""
from hypothesis import strategies as st

from pbt import gen, ref
from pbt.core import Part, require, require_close
from sidermit.optimization import InfrastructureCost

RULE = ("networks of one or two modes over cities of 1 to 6 zones with frequencies of any zero pattern; non-trivial: "
        "some line with frequency; distinct by case")
ASSUMPTIONS = ["relative tolerance 1e-9"]


@st.composite
def case(draw):
    c = draw(gen.problem(1, 6, no_freq=False, demand=False))
    c["f"] = [x if draw(st.integers(0, 2)) else 0.0 for x in c["f"]]
    c["scale"] = draw(st.sampled_from([0.01, 0.5, 3, 1e4]))
    c["turn"] = draw(st.integers(0, 50))
    return c


def check(c):
    p = gen.Problem(c)
    pos = {n.id: (n.x, n.y) for n in p.graph.get_nodes()}
    lines = [ref.Line(r) for r in p.routes]

    def judge(net, f, what):
        got = InfrastructureCost.get_mode_network_distance(p.graph, net, f)
        require(set(got) <= set(p.modes + [p.idle]), "{}: modes {}", what, got)
        total = 0.0
        for m in p.modes:
            want = ref.mode_length(pos, lines, m, f)
            require_close(got.get(m, 0), want, "{}: length of {}".format(what, m.name))
            total += want * m.c2
        require_close(InfrastructureCost.get_infrastruture_cost(p.graph, net, f), total, what + ": cost")

    judge(p.net, p.f, "network")
    other = gen.freq_dict(p.routes, c["f"])
    for i, r in enumerate(p.routes):
        other[r.id] *= c["scale"] * (1 + i)
    judge(p.net, other, "other frequencies")
    t = c["turn"] % max(1, len(p.routes))
    again = gen.TransportNetwork(p.graph)
    for r in (p.routes[t:] + p.routes[:t])[::-1 if c["turn"] % 2 else 1]:
        again.add_route(r)
    judge(again, p.f, "other order")
    zero = sum(1 for r in p.routes if p.f[r.id] == 0)
    shared = len(p.routes) > 1
    return any(p.f[r.id] > 0 for r in p.routes), ["zeros"] * (zero > 0) + ["several lines"] * shared + \
        ["two modes"] * (len({r.mode.name for r in p.routes}) == 2)


PARTS = [Part("length", case, check, 6400, 60000)]
