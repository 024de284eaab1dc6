"""C14: strategies, frequencies and elementary paths against the labels."""
from hypothesis import strategies as st

from pbt import gen, ref, sub
from pbt.core import Part, require, require_close
from pbt.props import c13

RULE = ("networks of one or two modes over cities of 1 to 4 zones (now and then 5 to 7) with OD pairs or a whole OD matrix; non-trivial: "
        "some pair can be travelled; distinct by case")
ASSUMPTIONS = ["a line may be in or out of the set of a stop when its time equals that of the stop (tolerance 1e-9)",
               "origin and destination differ"]
TOL = 1e-9


def arc(s, e, d):
    """weighted time of an edge of the graph under test in a trip to d"""
    kind, a, b = sub.edge_key(e)
    if kind == "access":
        return e.t * s.pax["pa"] / s.pax["pv"]
    if kind == "alight" and b[2] == d:
        return 0.0
    return e.t


def strategy(s, o, d, label, succ, freq):
    """every node follows its best option; returns tags"""
    tags = set()
    edges = {}
    for e in s.graph.get_extended_graph_edges():
        edges.setdefault(e.nodei, []).append(e)

    def time(node):
        k = ref.key(node)
        if k[0] == "s" and k[2] == o:
            return label[node] - node.mode.tat / 60 * s.pax["pa"] / s.pax["pv"]
        return label[node]

    for k, node in s.node.items():
        u = time(node)
        if k == ("c", d):
            require(not succ[node] and u == 0, "the destination {} continues", k)
            continue
        if label[node] == ref.INF:
            continue
        tol = TOL * max(1.0, abs(u))
        out = succ[node]
        require(len(out) > 0, "{} has time {} but does not continue", k, u)
        for e in out:
            require(e.nodei is node and any(e is x for x in edges.get(node, ())), "{} continues by an edge of {}", k,
                    ref.key(e.nodei))
        require(len({id(e) for e in out}) == len(out), "{} continues twice by the same edge", k)
        kinds = {sub.edge_key(e)[0] for e in out}
        if kinds != {"board"}:
            require(len(out) == 1, "{} continues by {} edges {}", k, len(out), kinds)
            e = out[0]
            require(ref.key(e.nodej) != ("c", o), "{} goes through the origin", k)
            x = arc(s, e, d) + time(e.nodej)
            require(abs(x - u) <= tol, "{} has time {} and continues with {}", k, u, x)
            tags.add(kinds.pop())
            continue
        total = sum(e.f for e in out)
        require(total > 0, "{} waits for lines without frequency", k)
        require_close(freq[node], total, "accumulated frequency of {}".format(k))
        wait = node.mode.theta * s.pax["pw"] / s.pax["pv"]
        x = (wait + sum(e.f * time(e.nodej) for e in out)) / total
        require(abs(x - u) <= tol, "{} has time {} and its set gives {}", k, u, x)
        chosen = {id(e) for e in out}
        for e in edges[node]:
            if sub.edge_key(e)[0] != "board" or e.f == 0:
                continue
            t = time(e.nodej)
            if t < u - tol:
                require(id(e) in chosen, "{} (time {}) does not take line {} with time {}", k, u, e.nodej.route.id, t)
            if t > u + tol:
                require(id(e) not in chosen, "{} (time {}) takes line {} with time {}", k, u, e.nodej.route.id, t)
        tags.add("several lines" if len(out) > 1 else "one line")
    return tags


def follow(o_node, stop, dest, succ, limit=200000):
    """all the paths of the strategy"""
    out, stack, steps = [], [[o_node, stop]], 0
    while stack:
        path = stack.pop()
        steps += 1
        require(steps < limit and len(path) < 2000, "the strategy does not end")
        if path[-1] is dest:
            out.append(tuple(id(x) for x in path))
            continue
        for e in succ[path[-1]]:
            stack.append(path + [e.nodej])
    return out


def paths_of(s, o, d, paths, succ, label):
    o_node, d_node = s.city(o), s.city(d)
    stops = [n for k, n in s.node.items() if k[0] == "s" and k[2] == o]
    require(set(paths) <= set(stops), "paths of stops out of the origin")
    count = 0
    for stop in stops:
        want = sorted(follow(o_node, stop, d_node, succ)) if label[stop] < ref.INF else []
        got = sorted(tuple(id(x) for x in q) for q in (paths[stop] if stop in paths else []))
        require(got == want, "paths of stop {}: {}, following the strategy there are {}", ref.key(stop), len(got),
                len(want))
        require(len(set(got)) == len(got), "repeated paths of stop {}", ref.key(stop))
        count = max(count, len(got))
    return count


def check_pair(c):
    s = sub.Sub(gen.Problem(c))
    tags, ok = set(), False
    for a, b in c["pairs"]:
        o, d = s.p.tok[a].id, s.p.tok[b].id
        if s.city(o) is None or s.city(d) is None:
            continue
        paths, label, succ, freq = s.hyper.get_hyperpath_OD(s.city(o), s.city(d))
        tags |= strategy(s, o, d, label, succ, freq)
        n = paths_of(s, o, d, paths, succ, label)
        ok = ok or n > 0
        tags.add("%s paths" % ("no" if n == 0 else "1" if n == 1 else "2-9" if n < 10 else "10+"))
    return ok, sorted(tags)


def check_all(c):
    p = gen.Problem(c)
    if not p.routes:
        return None
    s = sub.Sub(p)
    pairs = gen.drop_unreachable(p, s.reachable)
    m = p.demand.get_matrix()
    before = {o: dict(m[o]) for o in m}
    hyp, lab, suc, fre, vij = s.hyper.get_all_hyperpaths(m)
    require({o: dict(m[o]) for o in m} == before, "the OD matrix was changed")
    want = {(o, d): v for o, d, v in pairs}
    for name, table in (("trips", vij), ("labels", lab), ("frequencies", fre), ("strategies", suc), ("paths", hyp)):
        got = {(x.graph_node.id, y.graph_node.id) for x in table for y in table[x]}
        require(got == set(want), "{} of pairs {}, with trips {}", name, got, set(want))
    for (o, d), v in want.items():
        a, b = s.city(o), s.city(d)
        require(vij[a][b] == v, "trips {}-{}: {}, in the matrix {}", o, d, vij[a][b], v)
        paths, label, succ, freq = s.hyper.get_hyperpath_OD(a, b)
        strategy(s, o, d, lab[a][b], suc[a][b], fre[a][b])
        paths_of(s, o, d, hyp[a][b], suc[a][b], lab[a][b])
        for k, node in s.node.items():
            require(lab[a][b][node] == label[node], "label of {} in {}-{}", k, o, d)
            require(fre[a][b][node] == freq[node], "frequency of {} in {}-{}", k, o, d)
            require({id(e) for e in suc[a][b][node]} == {id(e) for e in succ[node]}, "strategy of {} in {}-{}", k, o, d)
    return bool(want), ["pairs=%s" % (len(want) if len(want) < 5 else "5+")]


PARTS = [Part("pair", c13.case, check_pair, 3200, 60000),
         Part("matrix", lambda: gen.problem(1, 3, max_families=2), check_all, 960, 16000)]
