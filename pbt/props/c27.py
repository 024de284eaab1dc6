"""C27: nodes, zones and edges built one by one, and polar coordinates."""
import math

from hypothesis import strategies as st

from pbt import gen
from pbt.core import Part, raises, require
from pbt.gen import num
from sidermit import exceptions as ex
from sidermit.city.graph import CBD, Edge, Node, Periphery, Subcenter, Zone

RULE = ("nodes of each kind with valid and invalid arguments, zones and edges over any of them; points and cities read from "
        "node lines with their polar coordinates; non-trivial: some argument is invalid or at a limit, or a point out of "
        "the origin; distinct by case")
ASSUMPTIONS = ["arguments are finite numbers (or None where an identifier or name is missing)",
               "edges from a node to itself or between two CBDs are not judged (no city has them)",
               "the direction is compared with tolerance 1e-5 degrees (it comes from an arc cosine)"]
KINDS = dict(CBD=CBD, P=Periphery, SC=Subcenter)


@st.composite
def node_args(draw, kind=None):
    kind = kind or draw(st.sampled_from(["CBD", "P", "SC", "P", "SC"]))
    a = dict(node_id=draw(st.integers(0, 50)), x=draw(num(-20, 20)), y=draw(num(-20, 20)), radius=draw(num(0, 20)),
             angle=draw(num(0, 360)), width=draw(num(0, 5)), zone_id=0 if kind == "CBD" else draw(st.integers(1, 3)),
             name=draw(st.sampled_from(["a", "CBD", "P_1", "é"])))
    for d in draw(st.lists(st.sampled_from(["node_id", "radius", "angle", "width", "zone_id", "name", "zone"]), max_size=2,
                           unique=True)) if draw(st.booleans()) else []:
        if d in ("node_id", "zone_id", "name"):
            a[d] = None
        elif d == "zone":
            a["zone_id"] = draw(st.sampled_from([0, 1, 2, 7, -1]))
        else:
            low = st.one_of(st.sampled_from([-1e-9, -1, -0.001]), st.floats(-1e3, -1e-9))
            high = st.one_of(st.sampled_from([360.001, 361, 360 + 1e-9]), st.floats(360.0001, 1e4))
            a[d] = draw(st.one_of(low, high) if d == "angle" else low)
    return dict(kind=kind, args=a)


def faults(spec):
    a, out = spec["args"], []
    if a["name"] is None:
        out.append(ex.NameIsNotDefinedException)
    if a["node_id"] is None:
        out.append(ex.NodeIdIsNotValidException)
    if a["zone_id"] is None or (spec["kind"] == "CBD" and a["zone_id"] != 0):
        out.append(ex.ZoneIdIsNotValidException)
    if a["radius"] < 0:
        out.append(ex.NodeRadiusIsNotValidException)
    if not 0 <= a["angle"] <= 360:
        out.append(ex.NodeAngleIsNotValidException)
    if a["width"] < 0:
        out.append(ex.NodeWidthIsNotValidException)
    return out


def make(spec):
    """the node, or None if it has to be rejected"""
    bad = faults(spec)
    cls = KINDS[spec["kind"]]
    if bad:
        raises(lambda: cls(**spec["args"]), *bad)
        return None
    n = cls(**spec["args"])
    a = spec["args"]
    got = dict(node_id=n.id, x=n.x, y=n.y, radius=n.radius, angle=n.angle, width=n.width, zone_id=n.zone_id, name=n.name)
    require(got == a, "node built with {} has {}", a, got)
    require(isinstance(n, Node) and [k for k, c in KINDS.items() if isinstance(n, c)] == [spec["kind"]], "kind of {}", n)
    return n


@st.composite
def elements(draw):
    nodes = draw(st.lists(node_args(), min_size=1, max_size=4))
    if draw(st.booleans()):
        # a zone that may be right
        p, s = draw(node_args("P")), draw(node_args("SC"))
        if draw(st.booleans()):
            s["args"]["zone_id"] = p["args"]["zone_id"]
        if draw(st.integers(0, 7)) == 7:
            p["args"]["zone_id"] = s["args"]["zone_id"] = draw(st.sampled_from([-1, 0, -3, 9]))
        nodes = [p, s] + nodes[:2]
        first = [(draw(st.sampled_from([p["args"]["zone_id"], p["args"]["zone_id"], 1])), 0, 1)]
    else:
        first = []
    return dict(nodes=nodes, zones=first + draw(st.lists(st.tuples(st.sampled_from([None, 0, -1, 1, 1, 2, 2, 3, 3]),
                                                           st.sampled_from([0, 0, 0, 1, 2, 3, 9]),
                                                           st.sampled_from([1, 1, 1, 0, 2, 3, 9])), min_size=1, max_size=3)),
                edges=draw(st.lists(st.tuples(st.sampled_from([None, 1, 2, 0]), st.integers(0, 3), st.integers(0, 3)),
                                    min_size=1, max_size=4)))


def check_elements(c):
    nodes = [make(s) for s in c["nodes"]]
    tags = set()
    bad = any(n is None for n in nodes)
    for zid, i, j in c["zones"]:
        a, b = (nodes[k] if k < len(nodes) else None for k in (i, j))
        out = []
        if zid is None or zid <= 0:
            out.append(ex.ZoneIdIsNotValidException)
        if not isinstance(a, Periphery):
            out.append(ex.PeripheryNodeTypeIsNotValidException)
        if not isinstance(b, Subcenter):
            out.append(ex.SubcenterNodeTypeIsNotValidException)
        if not out and not a.zone_id == b.zone_id == zid:
            out.append(ex.ZoneIdIsNotValidException)
        if out:
            raises(lambda: Zone(zid, a, b), *out)
            bad = True
            tags.add("zone rejected")
        else:
            z = Zone(zid, a, b)
            require(z.id == zid and z.periphery is a and z.subcenter is b, "zone {} has other data", zid)
            tags.add("zone")
    for eid, i, j in c["edges"]:
        if i == j or i >= len(nodes) or j >= len(nodes) or nodes[i] is None or nodes[j] is None:
            continue
        a, b = nodes[i], nodes[j]
        kinds = {type(a), type(b)}
        if kinds == {CBD}:
            continue
        out = []
        if eid is None:
            out.append(ex.EdgeIdIsNotValidException)
        if kinds == {Periphery} or kinds == {Periphery, CBD}:
            out.append(ex.EdgeIsNotAvailableException)
        if out:
            raises(lambda: Edge(eid, a, b), *out)
            bad = True
            tags.add("edge rejected")
        else:
            e = Edge(eid, a, b)
            require(e.id == eid and e.node1 is a and e.node2 is b, "edge {} has other data", eid)
            tags.add("edge")
    return bad, sorted(tags)


# ------------------------------------------------------------------ polar coordinates

@st.composite
def polar_case(draw):
    v = st.one_of(num(-20, 20), st.sampled_from([0.0, 1.0, -1.0]), st.floats(-1e4, 1e4).map(lambda x: round(x, 6)))
    return dict(points=draw(st.lists(st.tuples(v, v), min_size=1, max_size=6)),
                polar=draw(st.lists(st.tuples(num(0, 100), num(0, 360, 24)), min_size=1, max_size=6)),
                city=draw(gen.pajek_city(0, 5, same_width=False)))


def off(a, b):
    x = abs(a - b) % 360
    return min(x, 360 - x)


def check_polar(c):
    for x, y in c["points"]:
        a = gen.Graph.get_angle(x, y)
        require(0 <= a <= 360, "angle of ({}, {}): {}", x, y, a)
        if (x, y) != (0, 0):
            require(off(a, math.degrees(math.atan2(y, x))) <= 1e-5, "angle of ({}, {}): {}", x, y, a)
    for r, a in c["polar"]:
        x, y = gen.Graph.get_xy(r, a)
        require(math.hypot(x - r * math.cos(math.radians(a)), y - r * math.sin(math.radians(a))) <= 1e-9 * max(1, r),
                "point at {} and {} degrees: ({}, {})", r, a, x, y)
    graph = gen.build_city(c["city"])
    for n in graph.get_nodes():
        r = math.hypot(n.x, n.y)
        require(abs(n.radius - r) <= 1e-9 * max(1, r), "radius of ({}, {}): {}", n.x, n.y, n.radius)
        require(0 <= n.angle <= 360, "angle of ({}, {}): {}", n.x, n.y, n.angle)
        if r > 0:
            require(off(n.angle, math.degrees(math.atan2(n.y, n.x))) <= 1e-5, "angle of ({}, {}): {}", n.x, n.y, n.angle)
    by_id = {n.id: n for n in graph.get_nodes()}
    require(graph.get_cbd() is [n for n in graph.get_nodes() if isinstance(n, CBD)][0], "CBD of the city")
    for z in graph.get_zones():
        require(z.periphery is by_id[z.periphery.id] and z.subcenter is by_id[z.subcenter.id], "nodes of zone {}", z.id)
    ids = [e.id for e in graph.get_edges()]
    require(len(set(ids)) == len(ids), "repeated edge ids {}", ids)
    for e in graph.get_edges():
        require(e.node1 is by_id[e.node1.id] and e.node2 is by_id[e.node2.id], "edge between copies of nodes")
    return any(p != (0, 0) for p in map(tuple, c["points"])), ["city"] * bool(graph.get_zones())


PARTS = [Part("elements", elements, check_elements, 12000, 120000), Part("polar", polar_case, check_polar, 2400, 30000)]
