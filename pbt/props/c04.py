"""C04: Pajek export and import."""
import builtins
import contextlib
import math
import os

from hypothesis import strategies as st

from pbt import gen
from pbt.core import Part, require
from pbt.gen import num

RULE = ("representable cities (built from parameters, or from node lines with any ids, names and coordinates), exported "
        "with their lines in any order, read from text or file and exported again; non-trivial: at least one zone and "
        "(asymmetry, free coordinates or permuted lines); distinct by case")
ASSUMPTIONS = ["coordinates are 0 or between 1e-6 and 1e6 in absolute value, names have no white space",
               "cities whose mean radii of peripheries and subcenters differ by rounding only are not tried",
               "positions of the rebuilt city are compared with tolerance 1e-6 of the city size (the angle comes from an "
               "arc cosine)"]


@st.composite
def case(draw):
    n_max = draw(st.sampled_from([4, 4, 9]))
    if draw(st.integers(0, 60)) == 0:
        c = dict(kind="param", n=draw(st.integers(10, 120)), l=draw(num(0, 20)), g=draw(num(0, 2)), p=draw(num(0, 4)),
                 etha=None, etha_zone=None, angles=None, Gi=None, Hi=None)
    else:
        c = draw(st.one_of(gen.param_city(0, n_max, l_min=0.0), gen.pajek_city(0, n_max, same_width=False)))
    k = gen.city_n(c) * 2 + 1
    return dict(city=c, order=draw(st.permutations(range(k))), file=draw(st.booleans()), encoding=draw(st.sampled_from(["utf-8", "ascii", "latin-1"])),
                header=draw(st.sampled_from(["*vertices {}\n", "*Vertices {}\n", "*VERTICES   {}\n"])))


@contextlib.contextmanager
def default_encoding(name):
    """opens text files as Python does where the encoding of the locale is other"""
    real = builtins.open

    def fake(file, mode="r", buffering=-1, encoding=None, *args, **kw):
        return real(file, mode, buffering, name if encoding is None and "b" not in mode else encoding, *args, **kw)

    builtins.open = fake
    try:
        yield
    finally:
        builtins.open = real


def polar(n):
    return math.hypot(n.x, n.y)


def turn(a, b):
    """difference of direction of two points, in degrees"""
    x = abs(math.degrees(math.atan2(a.y, a.x) - math.atan2(b.y, b.x))) % 360
    return min(x, 360 - x)


def representable(graph):
    zs = graph.get_zones()
    if not zs:
        cbd = graph.get_cbd()
        return True
    sc = [polar(z.subcenter) for z in zs]
    p = [polar(z.periphery) for z in zs]
    coords = [abs(v) for n in graph.get_nodes() for v in (polar(n),) if v != 0]
    if coords and (min(coords) < 1e-6 or max(coords) > 1e6):
        return False
    # the same radii zone by zone, or a margin above rounding
    if not all(a == b for a, b in zip(sc, p)) and sum(p) < sum(sc) + 1e-9 * sum(sc):
        return False
    if sum(sc) == 0 and sum(p) != 0:
        return False
    cbd = graph.get_cbd()
    if polar(cbd) > 0:
        for z in zs:
            if polar(z.subcenter) > 0 and turn(cbd, z.subcenter) < 0.01 and polar(cbd) > polar(z.subcenter):
                return False
    return True


def describe(graph):
    return {n.id: (n.name, gen.token(n), n.zone_id, float(n.x), float(n.y), float(n.width)) for n in graph.get_nodes()}


def parse(text):
    """node lines of a Pajek text"""
    lines = text.split("\n")
    i = [k for k, x in enumerate(lines) if x.lower().startswith("*vertices")][0]
    out = []
    for x in lines[i + 1:]:
        if x.strip():
            a = x.split()
            out.append((int(a[0]), a[1], float(a[2]), float(a[3]), a[4], int(a[5]), float(a[6])))
    require(int(lines[i].split()[1]) == len(out), "the text announces {} nodes", lines[i])
    return out


def same_city(a, b, what):
    da, db = describe(a), describe(b)
    require(da == db, "{}: nodes {}, expected {}", what, db, da)
    za = [(z.id, z.periphery.id, z.subcenter.id) for z in a.get_zones()]
    zb = [(z.id, z.periphery.id, z.subcenter.id) for z in b.get_zones()]
    require(za == zb, "{}: zones {}, expected {}", what, zb, za)
    ea = sorted((e.node1.id, e.node2.id) for e in a.get_edges())
    eb = sorted((e.node1.id, e.node2.id) for e in b.get_edges())
    require(ea == eb, "{}: edges {}, expected {}", what, eb, ea)
    xa, xb = a.get_edges_distance(), b.get_edges_distance()
    for i, j in ea:
        require(abs(xa[i][j] - xb[i][j]) <= 1e-12 * max(1, xa[i][j]), "{}: distance {}-{}", what, i, j)


def check(c):
    spec = c["city"]
    graph = gen.build_city(spec)
    if spec["kind"] == "pajek":
        want = {x[0]: (x[1], {"CBD": "C"}.get(x[4], x[4][0] + str(x[5])), x[5], float(x[2]), float(x[3]), float(x[6]))
                for x in spec["nodes"]}
        got = describe(graph)
        require(got == want, "nodes {}, expected {}", got, want)
    elif not representable(graph):
        return None
    text = graph.export_graph()
    rows = parse(text)
    want_rows = sorted((i, d[0], d[3], d[4], {"C": "CBD", "P": "P", "S": "SC"}[d[1][0]], d[2], d[5])
                       for i, d in describe(graph).items())
    require(sorted(rows) == want_rows, "exported {}, expected {}", sorted(rows), want_rows)
    # the same lines in other order
    lines = text.split("\n")
    start = [k for k, x in enumerate(lines) if x.lower().startswith("*vertices")][0]
    body = [x for x in lines[start + 1:] if x.strip()]
    text2 = "\n".join(lines[:start]) + "\n" + c["header"].format(len(body)) + "\n".join(
        body[k] for k in c["order"]) + "\n"
    back = gen.Graph.build_from_content(text2)
    same_city(graph, back, "import")
    if c["file"]:
        path = gen.scratch_file(".pajek")
        with default_encoding(c["encoding"]):
            graph.graph_to_pajek_file(path)
        with default_encoding(c["encoding"]):
            back = gen.Graph.build_from_file(path)
        same_city(graph, back, "import of the file")
        with open(path, "w", encoding="utf-8") as f:
            f.write(text2)
        same_city(graph, gen.Graph.build_from_file(path), "import of the permuted file")
        os.unlink(path)
    require(sorted(parse(back.export_graph())) == want_rows, "export of the import {}, expected {}",
            sorted(parse(back.export_graph())), want_rows)
    # the parameters it reports
    n, l, g, p, etha, zone, angles, gi, hi = back.get_parameters()
    require(n == graph.get_n() and back.get_n() == n, "n {}", n)
    again = gen.Graph.build_from_parameters(n, l, g, p, etha, zone, angles, gi, hi)
    tok, tok2 = gen.tokens(back), gen.tokens(again)
    size = 1e-6 * max([1e-9] + [polar(x) for x in back.get_nodes()])
    tags = ["n=%d" % min(n, 5)]
    aligned = 0
    for z in back.get_zones():
        a, b = z.periphery, z.subcenter
        straight = polar(a) == 0 or polar(b) == 0 or turn(a, b) < 1e-9
        one_ray = straight
        # the other nodes keep at least their distance to the origin
        for k, x in (("P", a), ("S", b)):
            y = tok2[k + str(z.id)]
            require(abs(polar(x) - polar(y)) <= size, "distance to the origin of {}: {} rebuilt as {}", k + str(z.id),
                    polar(x), polar(y))
            if one_ray or k == "S":
                require(abs(x.x - y.x) <= size and abs(x.y - y.y) <= size, "{} at ({}, {}) rebuilt at ({}, {})",
                        k + str(z.id), x.x, x.y, y.x, y.y)
        aligned += one_ray
    cbd = tok["C"]
    rays = [z.subcenter for z in back.get_zones() if polar(z.subcenter) > 0]
    on_ray = polar(cbd) == 0 or any(turn(cbd, s) < 1e-9 for s in rays)
    if on_ray and n > 0:
        y = tok2["C"]
        require(abs(cbd.x - y.x) <= size and abs(cbd.y - y.y) <= size, "CBD at ({}, {}) rebuilt at ({}, {})", cbd.x,
                cbd.y, y.x, y.y)
        tags.append("cbd origin" if polar(cbd) == 0 else "cbd on ray")
    if aligned:
        tags.append("aligned zones")
    widths = {x.width for x in back.get_nodes()}
    if len(widths) == 1:
        require(p == widths.pop(), "width {}", p)
    return n > 0 and (spec["kind"] == "pajek" or c["order"] != sorted(c["order"]) or spec["angles"] is not None or
                      spec["Gi"] is not None or spec["Hi"] is not None or spec["etha"] is not None), \
        tags + [spec["kind"]] + (["file"] if c["file"] else [])


PARTS = [Part("round trip", case, check, 4800, 40000)]
