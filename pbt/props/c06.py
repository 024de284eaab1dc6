"""C06: parametric OD matrix."""
from hypothesis import strategies as st

from pbt import gen
from pbt.core import Part, require
from pbt.gen import num

RULE = ("cities (parametric and with any node ids) of 0 to 8 zones with admissible (Y, a, alpha, beta), limits and "
        "alpha + beta = 1 included; non-trivial: at least one zone and Y > 0; distinct by case")
ASSUMPTIONS = ["cells are compared with tolerance 1e-9 Y"]


@st.composite
def case(draw):
    n = draw(st.integers(0, 8))
    c = draw(st.one_of(gen.param_city(n, n), gen.pajek_city(n, n)))
    style = draw(st.integers(0, 3))
    if style == 0:
        k = draw(st.integers(0, 100))
        m = draw(st.integers(0, 100 - k))
        alpha, beta = k / 100, m / 100
    elif style == 1:
        k = draw(st.integers(1, 100))
        alpha, beta = k / 100, (100 - k) / 100
    elif style == 2:
        alpha = draw(st.floats(0, 1))
        beta = draw(st.floats(0, 1)) * (1 - alpha)
    else:
        alpha, beta = draw(st.sampled_from([(0, 0), (1, 0), (0, 0.5), (0.5, 0.5), (1.0, 0.0), (0.25, 0.22)]))
    if beta >= 1 or alpha + beta > 1:
        beta = 0
    y = draw(st.one_of(num(0, 300000), st.integers(0, 10 ** 6), st.floats(0, 1e6)))
    return dict(city=c, y=y, a=draw(num(0, 1)), alpha=alpha, beta=beta)


def check(c):
    graph = gen.build_city(c["city"])
    y, a, alpha, beta = c["y"], c["a"], c["alpha"], c["beta"]
    dem = gen.Demand.build_from_parameters(graph, y, a, alpha, beta)
    m = dem.get_matrix()
    n = gen.city_n(c["city"])
    role = {x.id: gen.token(x) for x in graph.get_nodes()}
    tol = 1e-9 * max(1.0, y)
    require(sorted(m) == sorted(role), "origins {}", sorted(m))
    total = 0.0
    for i in list(m):
        require(sorted(m[i]) == sorted(role), "destinations of {}: {}", i, sorted(m[i]))
        for j in list(m[i]):
            o, d = role[i], role[j]
            same = o[1:] == d[1:]
            want = 0.0
            if n >= 1 and o[0] == "P":
                trips = a * y / n
                rest = 1 - alpha - beta
                if d[0] == "C":
                    want = alpha * trips
                elif d[0] == "S":
                    if n == 1:
                        want = (1 - alpha) * trips
                    else:
                        want = beta * trips if same else rest / (n - 1) * trips
            if n >= 1 and o[0] == "S":
                trips = (1 - a) * y / n
                if d[0] == "C":
                    want = trips if n == 1 else alpha / (1 - beta) * trips
                elif d[0] == "S" and not same:
                    want = (1 - alpha / (1 - beta)) / (n - 1) * trips
            got = m[i][j]
            require(got >= 0, "trips {}-{}: {}", o, d, got)
            require(abs(got - want) <= tol, "trips {}-{}: {}, expected {}", o, d, got, want)
            total += got
    want = y if n else 0
    require(abs(total - want) <= 10 * tol, "cells add up to {}, expected {}", total, want)
    require(abs(dem.get_total_trips() - want) <= 10 * tol, "total {}, expected {}", dem.get_total_trips(), want)
    return n > 0 and y > 0, ["n=%d" % min(n, 4), c["city"]["kind"]] + (["alpha+beta=1"] if alpha + beta == 1 else [])


PARTS = [Part("matrix", case, check, 9600, 60000)]
