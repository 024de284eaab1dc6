"""C22: the objective function."""
import math

from hypothesis import strategies as st

from pbt import gen, ref, sub
from pbt.core import Part, require, require_close
from pbt.gen import num
from sidermit.exceptions import GraphException
from sidermit.optimization.optimizer import Optimizer
from sidermit.publictransportsystem.network import Route, RouteType

RULE = ("problems of 1 to 4 zones (now and then 5 to 7) with one or two modes and histories of evaluations of objective, constraints and "
        "reports with any frequencies (zeros included), and the same problem with other order of lines, other ids, and "
        "the city rotated and mirrored; non-trivial: somebody travels; distinct by case")
ASSUMPTIONS = ["at every stop with passengers some attractive line has positive frequency",
               "strategies and shares of the code under test are taken as given in the value (C13 to C16 decide them)",
               "invariance is judged when no two choices of any traveller are within 1e-6 of a tie",
               "relative tolerance 1e-8 (1e-6 between transformed problems)"]


@st.composite
def value_case(draw):
    c = draw(gen.problem(1, 4, two=draw(st.sampled_from([None, True])), max_families=2))
    c["xs"] = draw(st.lists(gen.freq_values(8), min_size=1, max_size=3))
    if c["f"] is not None and draw(st.integers(0, 2)) > 0:
        # vectors that hardly differ from the one of the problem
        if draw(st.booleans()):
            c["f"] = [draw(st.sampled_from([v, v, 0.0, 0.04, 0.5, 1.0])) for v in (c["f"] * 6)[:6]]
        c["xs"] = draw(st.lists(gen.near(c["f"]), min_size=1, max_size=2)) + c["xs"][:1]
    return c


def infrastructure(b, f):
    return sum(m.c2 * ref.mode_length(b.pos, b.lines, m, f) for m in b.p.modes)


def objective(b, f):
    """value of reference: operators, infrastructure and users"""
    fl = b.flows(f)
    z, v = ref.per_vehicle(fl.board, f), ref.per_vehicle(fl.alight, f)
    k = ref.max_load(fl.load, f)
    cyc = {ln.id: ref.cycle_time(b.pos, ln, z, v) for ln in b.lines}
    ta, te, tv, tr = ref.users_resources(b.s.ref, fl, b.origin_access(), z, v)
    pax = b.case["pax"]
    return (ref.operators_cost(b.s.ref, f, k, cyc), infrastructure(b, f),
            ta * pax["spa"] + te * pax["spw"] + tv * pax["spv"] + tr * pax["spt"] / 60 * pax["spv"])


def vector(b, f):
    return [f[r.id] for r in b.p.routes]


def check_value(c):
    p = gen.Problem(c)
    if not p.routes:
        return None
    b = sub.Built(c)
    for x in c["xs"]:
        f = b.repaired(x)
        parts = objective(b, f)
        require_close(b.opt.VRC(vector(b, f)), sum(parts), "objective of {} (operators, infrastructure and users "
                      "{})".format(vector(b, f), parts), 1e-8)
        # cost components as reported one by one
        zi, vi, li = b.board_alight(f)
        o = b.opt
        got = (o.operators_cost(zi, vi, f, o.get_k(li)), o.infrastructure_cost(f),
               o.user_cost(o.hyperpaths, o.Vij, o.assignment, o.successors, o.extended_graph_obj, f, zi, vi))
        for name, x_, y in zip(("operators", "infrastructure", "users"), got, parts):
            require_close(x_, y, name + " cost", 1e-8)
    tags = ["zero frequency"] * any(0 in vector(b, b.repaired(x)) for x in c["xs"])
    tags += ["two modes"] * (len({r.mode.name for r in b.p.routes}) == 2)
    return bool(b.pairs), tags + ["several vectors"] * (len(c["xs"]) > 1)


# ------------------------------------------------------------------ purity

OPS = ["vrc", "constrains", "network", "overall", "strings", "other"]


@st.composite
def history(draw):
    c = draw(gen.problem(1, 3, max_families=2))
    c["xs"] = draw(st.lists(gen.freq_values(6), min_size=1, max_size=3))
    if draw(st.booleans()):
        # vectors that hardly differ
        c["xs"] = (c["xs"] + [draw(gen.near(c["xs"][0]))])[-3:]
        if draw(st.booleans()) and c["f"] is not None:
            c["xs"] = ([draw(gen.near(c["f"]))] + c["xs"])[:3]
    c["ops"] = [list(x) for x in draw(st.lists(st.tuples(st.sampled_from(OPS), st.integers(0, 2)), min_size=2,
                                               max_size=10))]
    return c


def snapshot(p):
    """everything a user can see of the inputs of the problem"""
    def mode(m):
        return {a: getattr(m, a) for a in gen.MODE_ARGS}

    def route(r):
        return (r.id, r.mode.name, tuple(r.nodes_sequence_i), tuple(r.nodes_sequence_r), tuple(r.stops_sequence_i),
                tuple(r.stops_sequence_r), getattr(getattr(r, "_type", None), "name", None))

    m = p.demand.get_matrix()
    return dict(city=p.graph.graph_to_pajek_text() if hasattr(p.graph, "graph_to_pajek_text") else
                [(n.id, n.name, n.x, n.y, n.width, gen.token(n)) for n in p.graph.get_nodes()],
                edges=[(e.node1.id, e.node2.id) for e in p.graph.get_edges()],
                parameters=repr(p.graph.get_parameters()),
                demand=sorted((o, d, m[o][d]) for o in m for d in m[o] if m[o][d] != 0),
                pax={a: getattr(p.pax, a) for a in gen.PAX_ARGS},
                modes=[mode(x) for x in p.modes], net_modes=[x.name for x in p.net.get_modes()],
                routes=[route(r) for r in p.net.get_routes()],
                f=None if p.f is None else sorted((r.id, p.f[r.id]) for r in p.routes))


def evaluate(opt, op, x, dead):
    if op == "vrc":
        return opt.VRC(list(x))
    if op == "constrains":
        return list(opt.get_constrains(list(x)))
    if dead:
        return None
    opt.better_res = (list(x), True, 1, "m", 0, 0)
    if op == "network":
        return repr(opt.get_network_results())
    if op == "overall":
        o = opt.get_overall_results()
        return sorted((k, sorted((m.name, y) for m, y in v.items()) if hasattr(v, "items") else v)
                      for k, v in o.items())
    return opt.string_network_results(), opt.string_overall_results(), opt.string_network_optimization(opt.better_res)


def check_history(c):
    p = gen.Problem(c)
    if not p.routes:
        return None
    b = sub.Built(c)
    xs = [vector(b, b.repaired(x)) for x in c["xs"]]
    p = b.p
    before = snapshot(p)

    def fresh():
        return Optimizer(p.graph, p.demand, p.pax, p.net, p.f)

    # a report of a vector can starve the strategies that it gives rise to: outside of its domain
    dead = []
    for x in xs:
        f = gen.freq_dict(p.routes, x)
        s = sub.Sub(_with(p, f))
        dead.append(not b.pairs or any(not s.reachable(o, d) for o, d, _ in b.pairs))
    opt, want = b.opt, {}
    for op, i in c["ops"]:
        i %= len(xs)
        if op == "other":
            # other problems on the same objects, with other frequencies
            if not dead[i]:
                Optimizer(p.graph, p.demand, p.pax, p.net, gen.freq_dict(p.routes, xs[i])).VRC(list(xs[i]))
            continue
        got = evaluate(opt, op, xs[i], dead[i])
        if (op, i) not in want:
            want[op, i] = evaluate(fresh(), op, xs[i], dead[i])
        require(got == want[op, i], "{} of {} after other evaluations: {}, in a fresh problem {}", op, xs[i], got,
                want[op, i])
        if op == "vrc":
            arr = list(xs[i])
            opt.VRC(arr)
            require(arr == xs[i], "the frequencies given were changed to {}", arr)
    after = snapshot(p)
    for k in before:
        require(before[k] == after[k], "{} was changed: {}, now {}", k, before[k], after[k])
    kinds = {op for op, i in c["ops"]}
    return bool(b.pairs) and len(kinds) > 1, sorted(kinds)


class _with:
    """problem with other frequencies"""

    def __init__(self, p, f):
        self.graph, self.routes, self.pax, self.f, self.case = p.graph, p.routes, p.pax, f, p.case


# ------------------------------------------------------------------ invariance

@st.composite
def moved(draw):
    c = draw(gen.problem(1, 4, two=draw(st.sampled_from([None, True])), max_families=2))
    if draw(st.integers(0, 3)):
        # without ties between ways of the same length
        jitter = st.floats(1.001, 1.2, allow_nan=False).map(lambda x: round(x, 5))
        if c["city"]["kind"] == "param":
            n = c["city"]["n"]
            c["city"].update(Gi=draw(st.lists(jitter, min_size=n, max_size=n)),
                             Hi=draw(st.lists(jitter, min_size=n, max_size=n)), g=max(c["city"]["g"], 0.1))
        for m in c["modes"]:
            m.update(v=m["v"] * draw(jitter), tat=max(m["tat"], 0.1) * draw(jitter), theta=max(m["theta"], 0.1))
        c["pax"].update(pw=max(c["pax"]["pw"], 0.1), pt=max(c["pax"]["pt"], 0.1))
    c["x"] = draw(gen.freq_values(8))
    c["how"] = draw(st.sampled_from(["order", "ids", "rotation", "mirror", "all"]))
    c["turn"] = draw(num(0, 360))
    c["perm"] = draw(st.integers(0, 10 ** 6))
    return c


def visited(b, o, d):
    """nodes of the strategies of a pair"""
    seen, stack = set(), list(b.share[o, d])
    while stack:
        n = stack.pop()
        if n not in seen:
            seen.add(n)
            if not (n[0] == "s" and n[2] == d):
                stack += b.succ[o, d].get(n, [])
    return seen


def ambiguous(b):
    pax = b.case["pax"]
    width = next(iter(b.p.graph.get_nodes())).width
    walk = pax["pa"] / pax["pv"] / pax["va"]
    for o, d, _ in b.pairs:
        u = b.s.labels(o, d)
        if b.s.ref.ambiguous(o, d, pax, u, nodes=visited(b, o, d)):
            return True
        lab = b.s.ref.reported(o, d, pax, u)
        stops = [k for k in b.s.node if k[0] == "s" and k[2] == o and lab[k] < ref.INF]
        if len(stops) == 2:
            one, two = sorted(stops, key=lambda k: b.s.ref.modes[k[1]].d != 1)
            if ref.share_ambiguous(lab[one], lab[two], width, b.s.ref.modes[two[1]].d, walk):
                return True
    return False


def transform(c, p, order, ids, turn, mirror):
    """the same problem with other order of lines and nodes, other ids, and the city rotated and mirrored"""
    import random
    rng = random.Random(c["perm"])
    nodes = sorted(p.graph.get_nodes(), key=lambda n: n.id)
    new = {n.id: n.id for n in nodes}
    names = {n.id: n.name for n in nodes}
    if ids:
        for n, i in zip(nodes, rng.sample(range(10 * len(nodes)), len(nodes))):
            new[n.id], names[n.id] = i, "n%d" % rng.randrange(10 ** 6) + str(i)
    a = math.radians(turn)
    rows = []
    for n in nodes:
        x, y = n.x * (-1 if mirror else 1), n.y
        x, y = x * math.cos(a) - y * math.sin(a), x * math.sin(a) + y * math.cos(a)
        t = gen.token(n)
        rows.append([new[n.id], names[n.id], repr(x), repr(y), {"C": "CBD", "P": "P", "S": "SC"}[t[0]],
                     0 if t == "C" else int(t[1:]), repr(n.width)])
    if ids:
        rng.shuffle(rows)
    q = _with(p, None)
    q.graph = gen.build_city(dict(kind="pajek", nodes=rows))
    q.modes = [gen.build_mode(m) for m in c["modes"]]
    by_name = {m.name: m for m in q.modes}
    q.net = gen.TransportNetwork(q.graph)
    routes = list(p.routes)
    if order:
        rng.shuffle(routes)

    def seq(ns):
        return ",".join(str(new[i]) for i in ns)

    for r in routes:
        q.net.add_route(Route(r.id, by_name[r.mode.name], seq(r.nodes_sequence_i), seq(r.nodes_sequence_r),
                              seq(r.stops_sequence_i), seq(r.stops_sequence_r),
                              RouteType.CIRCULAR if gen.is_circular(r) else RouteType.CUSTOM))
    q.routes = q.net.get_routes()
    q.f = None if p.f is None else gen.freq_dict(routes, [p.f[r.id] for r in routes])
    q.demand = gen.Demand(q.graph)
    for o, d, v in gen.od_pairs(p.demand):
        q.demand.change_vij(new[o], new[d], v)
    return q


def check_moved(c):
    p = gen.Problem(c)
    if not p.routes:
        return None
    b = sub.Built(c)
    if not b.pairs or ambiguous(b):
        return False, ["tie" if b.pairs else "no trips"]
    how = c["how"]
    try:
        q = transform(c, b.p, how in ("order", "all"), how in ("ids", "all"),
                      c["turn"] if how in ("rotation", "all") else 0, how in ("mirror", "all"))
    except GraphException:
        # built from parameters that no file can represent
        return False, ["not representable"]
    opt = Optimizer(q.graph, q.demand, q.pax, q.net, q.f)
    f = b.repaired(c["x"])
    want = b.opt.VRC(vector(b, f))
    got = opt.VRC([f[r.id] for r in q.routes])
    require_close(got, want, "objective after {}".format(how), 1e-6, 1e-7)
    old = sorted(keyed(b.opt, vector(b, f), b.p.routes))
    new = sorted(keyed(opt, [f[r.id] for r in q.routes], q.routes))
    require(len(old) == len(new), "{} constraints, {} after {}", len(old), len(new), how)
    for x, y in zip(old, new):
        require(x[0] == y[0] and abs(x[1] - y[1]) <= 1e-6 * max(1, abs(x[1])), "load constraint {}, after {} {}", x,
                how, y)
    return True, [how]


def keyed(opt, x, routes):
    """load constraints by line"""
    con = opt.get_constrains(x)
    return [(r.id, con[i]) for i, r in enumerate(routes)]


PARTS = [Part("value", value_case, check_value, 1000, 32000), Part("history", history, check_history, 240, 12000),
         Part("moved", moved, check_moved, 1000, 32000)]
