"""C01: geometry of the cities built from parameters."""
import math

from hypothesis import strategies as st

from pbt import gen
from pbt.core import Part, require, require_close, close
from pbt.gen import num

RULE = ("cities built from generated parameters (0 to 14 zones, every combination of eccentricity, angles, Gi, Hi, "
        "values on and off their limits); non-trivial: at least one zone and one asymmetry, distinct by parameters")
ASSUMPTIONS = ["finite parameters; coordinates compared with relative tolerance 1e-9 of the city size"]


@st.composite
def case(draw):
    n = draw(st.one_of(st.integers(0, 14), st.integers(1, 5)))
    c = draw(gen.param_city(n, n, l_min=0.0, p_max=8.0))
    if draw(st.integers(0, 5)) == 0:
        # defaults of the optional parameters, left out
        c["omit"] = sorted(draw(st.sets(st.sampled_from(["etha", "angles", "Gi", "Hi"]))))
    if draw(st.integers(0, 9)) == 0:
        c["l"] = draw(st.floats(1e-3, 1e5))
    return c


def expected(c):
    n, l, g = c["n"], c["l"], c["g"]
    nodes = {}
    for z in range(1, n + 1):
        a = math.radians(c["angles"][z - 1] if c["angles"] is not None else 360.0 / n * (z - 1))
        r_sc = l * (c["Gi"][z - 1] if c["Gi"] is not None else 1)
        r_p = l * (1 + g) * (c["Hi"][z - 1] if c["Hi"] is not None else 1)
        nodes[2 * z - 1] = (r_p * math.cos(a), r_p * math.sin(a), "P", z)
        nodes[2 * z] = (r_sc * math.cos(a), r_sc * math.sin(a), "S", z)
    x = y = 0.0
    if c["etha"] is not None:
        sx, sy, _, _ = nodes[2 * c["etha_zone"]]
        x, y = c["etha"] * sx, c["etha"] * sy
    nodes[0] = (x, y, "C", 0)
    return nodes


def normal(c):
    c = {k: v for k, v in c.items() if k != "kind"}
    omit = c.pop("omit", [])
    for k in omit:
        for q in ([k, "etha_zone"] if k == "etha" else [k]):
            c.pop(q, None)
    full = dict(dict(etha=None, etha_zone=None, angles=None, Gi=None, Hi=None), **c)
    return c, full


def check(c):
    args, full = normal(c)
    graph = gen.Graph.build_from_parameters(**args)
    exp = expected(full)
    n = full["n"]
    size = 1e-9 * max(1.0, full["l"] * (1 + full["g"]) * max([1.0] + (full["Gi"] or []) + (full["Hi"] or [])))
    nodes = graph.get_nodes()
    require(sorted(x.id for x in nodes) == list(range(2 * n + 1)), "node ids {}", [x.id for x in nodes])
    for x in nodes:
        ex, ey, kind, zone = exp[x.id]
        require(gen.token(x) == ("C" if kind == "C" else kind + str(zone)), "node {} is a {} of zone {}", x.id,
                type(x).__name__, x.zone_id)
        require(x.zone_id == zone, "zone of {}: {}", x.id, x.zone_id)
        require(abs(x.x - ex) <= size and abs(x.y - ey) <= size, "node {} at ({}, {}), expected ({}, {})", x.id, x.x,
                x.y, ex, ey)
        require(x.width == full["p"], "width of {}: {}", x.id, x.width)
        require(abs(x.radius - math.hypot(ex, ey)) <= size, "radius of {}: {}", x.id, x.radius)
        require(abs(x.radius * math.cos(math.radians(x.angle)) - ex) <= size and
                abs(x.radius * math.sin(math.radians(x.angle)) - ey) <= size, "angle of {}: {}", x.id, x.angle)
    zones = graph.get_zones()
    require([z.id for z in zones] == list(range(1, n + 1)), "zones {}", [z.id for z in zones])
    by_id = {x.id: x for x in nodes}
    for z in zones:
        require(z.periphery is by_id[2 * z.id - 1] and z.subcenter is by_id[2 * z.id], "nodes of zone {}", z.id)
    require(graph.get_cbd() is by_id[0], "the CBD is not the node 0")
    want = set()
    for z in range(1, n + 1):
        want |= {(2 * z - 1, 2 * z), (2 * z, 0)}
        if n >= 2:
            want.add((2 * z, 2 * (z % n + 1)))
    want |= {(b, a) for a, b in want}
    got = [(e.node1.id, e.node2.id) for e in graph.get_edges()]
    require(len(got) == len(set(got)), "repeated edges in {}", got)
    require(set(got) == want, "edges {}, expected {}", sorted(got), sorted(want))
    ids = [e.id for e in graph.get_edges()]
    require(len(set(ids)) == len(ids), "repeated edge ids {}", ids)
    for e in graph.get_edges():
        require(e.node1 is by_id[e.node1.id] and e.node2 is by_id[e.node2.id], "edge between copies of nodes")
    dist = graph.get_edges_distance()
    pairs = {(i, j) for i in list(dist) for j in list(dist[i])}
    require(pairs == want, "distances of {}, expected {}", sorted(pairs), sorted(want))
    for i, j in want:
        require(abs(dist[i][j] - math.hypot(exp[i][0] - exp[j][0], exp[i][1] - exp[j][1])) <= 4 * size,
                "distance {}-{}: {}", i, j, dist[i][j])
        require(graph.edge_exist(i, j), "edge {}-{} does not exist", i, j)
    for i in range(2 * n + 1):
        for j in range(2 * n + 1):
            if (i, j) not in want:
                require(not graph.edge_exist(i, j), "edge {}-{} exists", i, j)
    rep = graph.get_parameters()
    require(tuple(rep) == (n, full["l"], full["g"], full["p"], full["etha"], full["etha_zone"], full["angles"],
                           full["Gi"], full["Hi"]), "parameters {}", rep)
    require(graph.get_n() == n, "n {}", graph.get_n())
    asym = [k for k in ("etha", "angles", "Gi", "Hi") if full[k] is not None]
    return n > 0 and bool(asym), ["n=%d" % min(n, 6)] + asym + (["combined"] if len(asym) > 1 else [])


PARTS = [Part("geometry", case, check, 14400, 150000)]
