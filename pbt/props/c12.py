"""C12: extended graph against its definition."""
import collections

from hypothesis import strategies as st

from pbt import gen, ref, sub
from pbt.core import Part, require, require_close

RULE = ("networks of one or two modes over cities of 1 to 5 zones: predefined families with any variant and custom "
        "lines with any stops, frequencies given or not; non-trivial: at least one line; distinct by case")
ASSUMPTIONS = ["custom lines stop in the order in which they pass", "times compared with relative tolerance 1e-9"]


def case():
    return gen.problem(1, 5, demand=False)


def check(c):
    p = gen.Problem(c)
    before = None if p.f is None else dict(p.f)
    s = sub.Sub(p)
    want = s.ref
    tree = s.graph.get_extended_graph_nodes()
    seen = collections.Counter()
    nodes = set()
    for city in tree:
        seen[ref.key(city)] += 1
        nodes.add(id(city))
        require(p.tok[gen.token(city.graph_node)] is city.graph_node, "city node {} is not of the city", ref.key(city))
        for stop in tree[city]:
            seen[ref.key(stop)] += 1
            nodes.add(id(stop))
            require(stop.city_node is city, "city node of {}", ref.key(stop))
            require(any(stop.mode is m for m in p.modes), "mode of {}", ref.key(stop))
            for r in tree[city][stop]:
                seen[ref.key(r)] += 1
                nodes.add(id(r))
                require(r.stop_node is stop, "stop of {}", ref.key(r))
                require(any(r.route is x for x in p.routes) and r.route.mode is stop.mode, "line of {}", ref.key(r))
    require(set(seen) == want.nodes, "nodes: missing {}, not expected {}", sorted(want.nodes - set(seen), key=str),
            sorted(set(seen) - want.nodes, key=str))
    require(all(x == 1 for x in seen.values()), "repeated nodes {}", [k for k in seen if seen[k] > 1])
    tables = dict(access=want.access, board=want.board, alight=want.alight, ride=want.ride)
    got = collections.Counter()
    for e in s.graph.get_extended_graph_edges():
        kind, a, b = sub.edge_key(e)
        require(id(e.nodei) in nodes and id(e.nodej) in nodes, "{} edge {}-{} joins nodes out of the graph", kind, a, b)
        require((a, b) in tables[kind], "{} edge {}-{} should not exist", kind, a, b)
        got[kind, a, b] += 1
        value = tables[kind][(a, b)]
        if kind == "board":
            require_close(e.f, value, "frequency of boarding {}-{}".format(a, b))
            require(e.t == 0, "time of boarding {}-{}: {}", a, b, e.t)
        else:
            require(e.f == ref.INF, "frequency of {} edge {}-{}: {}", kind, a, b, e.f)
            require_close(e.t, value, "time of {} edge {}-{}".format(kind, a, b), abs_=1e-12)
    require(all(x == 1 for x in got.values()), "repeated edges {}", [k for k in got if got[k] > 1])
    for kind, t in tables.items():
        for a, b in t:
            require((kind, a, b) in got, "{} edge {}-{} is missing", kind, a, b)
    if before is not None:
        require({r.id: p.f[r.id] for r in p.routes} == before, "frequencies were changed")
    tags = ["two modes"] * (len({r.mode.name for r in p.routes}) == 2) + ["no frequencies"] * (c["f"] is None)
    tags += sorted({"circular" if gen.is_circular(r) else "express" if r.stops_sequence_i != r.nodes_sequence_i
                    else "all stops" for r in p.routes})
    tags += ["different return"] * any(r.nodes_sequence_r and r.nodes_sequence_i and
                                       r.nodes_sequence_r != r.nodes_sequence_i[::-1] for r in p.routes)
    return bool(p.routes), tags


PARTS = [Part("graph", case, check, 4800, 60000)]
