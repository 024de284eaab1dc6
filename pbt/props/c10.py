"""C10: histories of a transport network, against a list model."""
import csv
import os

from hypothesis import strategies as st

from pbt import gen
from pbt.core import Part, require, raises
from sidermit.publictransportsystem.network import RouteType

RULE = ("histories of 1 to 30 operations (add and remove lines and modes, families, look-ups, file) over a city of 1 to "
        "4 zones, a pool of 4 modes and few line ids, valid or not; non-trivial: at least one accepted and one "
        "rejected operation; distinct by case")
ASSUMPTIONS = ["removing a mode that is not registered may raise or have no effect",
               "attributes of modes and lines do not change while they are in the network"]

IDS = ["L1", "L2", "L3", "F_bus_1", 5, 'q;"']


@st.composite
def route_op(draw, n):
    adj = gen.token_adjacency(n)
    roles = sorted(adj)
    style = draw(st.integers(0, 6))
    if style <= 2:
        r = draw(gen.custom_route(n, 1, ""))
        ni, nr, si, sr = r["ni"], r["nr"], r["si"], r["sr"]
    elif style == 3:
        # ends joined by any sequence of nodes in one or both directions
        ni = draw(st.lists(st.sampled_from(roles), min_size=2, max_size=4, unique=True))
        mid = draw(st.lists(st.sampled_from(roles), max_size=3, unique=True))
        nr = ni[::-1] if draw(st.booleans()) else [ni[-1]] + [x for x in mid if x not in (ni[0], ni[-1])] + [ni[0]]
        si, sr = ni, nr
    else:
        good = draw(gen.simple_path(adj, min_len=2))
        mid = draw(st.lists(st.sampled_from(roles), max_size=3, unique=True))
        other = [good[-1]] + [x for x in mid if x not in (good[0], good[-1])] + [good[0]]
        ni, nr = (good, other) if style <= 5 else (other, good)
        si, sr = [ni[0], ni[-1]], [nr[0], nr[-1]]
    return ["add", draw(st.sampled_from(IDS)), draw(st.integers(0, 3)), ni, nr, si, sr]


@st.composite
def case(draw):
    c = draw(gen.city(1, 4))
    n = gen.city_n(c)
    pool = []
    names = draw(st.permutations(["bus", "metro", "tram"])) + ["bus"]
    ds = draw(st.lists(st.sampled_from([1, 1, 2, 3]), min_size=4, max_size=4))
    for name, d in zip(names, ds):
        pool.append(draw(gen.mode_spec(name, d)))
    op = st.one_of(route_op(n), route_op(n), route_op(n),
                   st.tuples(st.just("family"), st.sampled_from(["radial", "feeder", "circular", "diametral"]),
                             st.integers(0, 3)).map(list),
                   st.tuples(st.just("mode"), st.integers(0, 3)).map(list),
                   st.tuples(st.just("remove"), st.sampled_from(IDS + ["none"])).map(list),
                   st.tuples(st.just("unmode"), st.integers(0, 3)).map(list),
                   st.tuples(st.just("junk"), st.integers(0, 2)).map(list),
                   st.tuples(st.just("remove_at"), st.integers(0, 9)).map(list),
                   st.just(["file"]), st.just(["readd"]))
    return dict(city=c, modes=pool, ops=draw(st.lists(op, min_size=1, max_size=30)))


def check(c):
    graph = gen.build_city(c["city"])
    n = gen.city_n(c["city"])
    tok = gen.tokens(graph)
    adj = {tok[a].id: {tok[b].id for b in bs} for a, bs in gen.token_adjacency(n).items()}
    ms = [gen.build_mode(m) for m in c["modes"]]
    net = gen.TransportNetwork(graph)
    routes, modes, removed = [], [], []
    acc = rej = 0
    tags = set()

    def mode_ok(m):
        if any(m is x for x in modes):
            return True
        new = modes + [m]
        return len(new) <= 2 and len({x.name for x in new}) == len(new) and (
            len(new) < 2 or any(x.d == 1 for x in new))

    def edges_ok(r):
        return all(b in adj.get(a, ()) for q in (r.nodes_sequence_i, r.nodes_sequence_r) for a, b in zip(q, q[1:]))

    def add(r):
        nonlocal acc, rej
        if edges_ok(r) and all(x.id != r.id for x in routes) and mode_ok(r.mode):
            net.add_route(r)
            routes.append(r)
            if not any(r.mode is x for x in modes):
                modes.append(r.mode)
            acc += 1
            tags.add("route added")
        else:
            tags.add("bad edge" if not edges_ok(r) else ("bad mode" if not mode_ok(r.mode) else "repeated id"))
            raises(lambda: net.add_route(r))
            rej += 1

    def agree(where):
        got = net.get_routes()
        require(len(got) == len(routes) and all(a is b for a, b in zip(got, routes)), "after {}: lines {}, expected {}",
                where, [r.id for r in got], [r.id for r in routes])
        got = list(net.get_modes())
        require(len(got) == len(modes) and all(any(a is b for b in modes) for a in got),
                "after {}: modes {}, expected {}", where, [m.name for m in got], [m.name for m in modes])
        for r in routes:
            require(net.get_route(r.id) is r, "after {}: line {}", where, r.id)
        for i in IDS + ["none"]:
            if all(r.id != i for r in routes):
                raises(lambda: net.get_route(i))

    for op in c["ops"]:
        if op[0] == "add":
            def seq(q):
                return ",".join(str(tok[x].id) for x in q)
            add(gen.Route(op[1], ms[op[2]], *[seq(q) for q in op[3:]]))
        elif op[0] == "family":
            if op[1] in ("circular", "diametral") and n < 2:
                continue
            for r in gen.build_routes(net, graph, ms, [dict(fam=op[1], mode=op[2], short=False, express=False, jump=1)]):
                add(r)
                agree(op)
        elif op[0] == "mode":
            m = ms[op[1]]
            if mode_ok(m):
                net.add_transport_mode(m)
                if not any(m is x for x in modes):
                    modes.append(m)
                acc += 1
            else:
                raises(lambda: net.add_transport_mode(m))
                rej += 1
                tags.add("mode rejected")
        elif op[0] == "unmode":
            m = ms[op[1]]
            if any(m is x for x in modes):
                net.remove_transport_mode(m)
                removed += [r for r in routes if r.mode is m]
                modes[:] = [x for x in modes if x is not m]
                routes[:] = [r for r in routes if r.mode is not m]
                acc += 1
                tags.add("mode removed")
            else:
                try:
                    net.remove_transport_mode(m)
                except Exception:  # noqa
                    pass
        elif op[0] in ("remove", "remove_at"):
            i = op[1]
            if op[0] == "remove_at":
                if not routes:
                    continue
                i = routes[i % len(routes)].id
            if any(r.id == i for r in routes):
                net.remove_route(i)
                removed += [r for r in routes if r.id == i]
                routes[:] = [r for r in routes if r.id != i]
                acc += 1
                tags.add("route removed")
            else:
                raises(lambda: net.remove_route(i))
                rej += 1
        elif op[0] == "readd":
            if removed:
                add(removed[-1])
                tags.add("route added again")
        elif op[0] == "junk":
            raises(lambda: net.add_route([None, "L1", ms[0]][op[1]]))
            raises(lambda: net.add_transport_mode([None, "bus", 1][op[1]]))
            rej += 1
        else:
            path = gen.scratch_file(".csv")
            net.routes_to_file(path)
            with open(path, encoding="utf-8", newline="") as f:
                rows = list(csv.reader(f, delimiter=";"))
            os.remove(path)
            head = ["route_id", "mode", "nodes_sequence_i", "nodes_sequence_r", "stops_sequence_i", "stops_sequence_r"]
            require(rows[0] == head, "header {}", rows[0])
            want = [[str(r.id), r.mode.name] + [",".join(str(x) for x in q) for q in (
                r.nodes_sequence_i, r.nodes_sequence_r, r.stops_sequence_i, r.stops_sequence_r)] for r in routes]
            require(rows[1:] == want, "file {}, expected {}", rows[1:], want)
            tags.add("file")
        agree(op)
    return acc > 0 and rej > 0, sorted(tags)


PARTS = [Part("history", case, check, 4800, 60000)]
