"""C29: descriptions of the same problem in other units, or with the same lines written otherwise."""
import copy

from hypothesis import strategies as st

from pbt import gen, sub
from pbt.core import Part, require, require_close
from pbt.props.c22 import _with, ambiguous, vector
from sidermit.exceptions import GraphException
from sidermit.optimization.operators_cost import OperatorsCost
from sidermit.optimization.optimizer import Optimizer
from sidermit.optimization.users_cost import UsersCost
from sidermit.publictransportsystem.network import Route, RouteType

RULE = ("problems of 1 to 4 zones (now and then 5 to 7) with one or two modes, described again with lengths, time, money or "
        "passengers in other units (powers of two and any other factor), with the frequencies of the modes given one by "
        "one, with lines replaced by two of half the frequency or with their directions exchanged; non-trivial: somebody "
        "travels and no choice is within 1e-6 of a tie; distinct by case")
ASSUMPTIONS = ["at every stop with passengers some attractive line has positive frequency",
               "judged when no two choices of any traveller are within 1e-6 of a tie (and, for two halves of a line, "
               "when waiting has a cost)",
               "relative tolerance 1e-6, the one of C22 between transformed problems"]

REL = 1e-6
UNITS = ["length", "time", "money", "values", "passengers"]
# exponent of the factor in every observed value
POWER = dict(length=dict(),
             time=dict(total=1, operators=1, infrastructure=1, users=1, street=1, transfers=1),
             money=dict(total=1, operators=1, infrastructure=1, users=1),
             values=dict(),
             passengers=dict(users=1, load=1, access=1, waiting=1, riding=1, transfers=1))


@st.composite
def case(draw):
    c = draw(gen.problem(1, 4, two=draw(st.sampled_from([None, True])), max_families=2))
    if draw(st.integers(0, 3)):
        jitter = st.floats(1.001, 1.2, allow_nan=False).map(lambda x: round(x, 5))
        if c["city"]["kind"] == "param":
            n = c["city"]["n"]
            c["city"].update(Gi=draw(st.lists(jitter, min_size=n, max_size=n)),
                             Hi=draw(st.lists(jitter, min_size=n, max_size=n)), g=max(c["city"]["g"], 0.1))
        for m in c["modes"]:
            m.update(v=m["v"] * draw(jitter), tat=max(m["tat"], 0.1) * draw(jitter), theta=max(m["theta"], 0.1))
        c["pax"].update(pw=max(c["pax"]["pw"], 0.1), pt=max(c["pax"]["pt"], 0.1))
    if draw(st.integers(0, 3)):
        # lines of every mode to every zone: nobody is left without a way, and many choose between two stops
        c["lines"] += [dict(fam="radial", mode=k, short=False, express=False, jump=1, keep=None)
                       for k in range(len(c["modes"]))]
    c["x"] = draw(gen.freq_values(8))
    c["how"] = draw(st.sampled_from(["length"] * 4 + ["time"] * 3 + ["money", "values", "passengers", "passengers", "explicit"] +
                                    ["halves"] * 2 + ["directions"] * 2))
    c["factor"] = draw(st.one_of(st.integers(-12, 12).map(lambda k: 2.0 ** k), st.sampled_from([2.0 ** k for k in (-12, -10, -8, 8, 10, 12)]),
                                 st.sampled_from([2.0 ** k for k in (-12, -10, -8, 8, 10, 12)]), gen.num(0.1, 10).map(lambda x: x or 0.1)))
    c["which"] = draw(st.integers(0, 255))
    return c


# attributes that change with a unit: {unit: {attribute: exponent}}
CITY = dict(length=1)
MODE = dict(length=dict(v=1, c2=-1), time=dict(co=1, c1=1, c2=1, v=1, t=-1, fmax=1, tat=-1, fini=1),
            money=dict(co=1, c1=1, c2=1), values=dict(), passengers=dict(c1=-1, t=-1, kmax=1))
PAX = dict(length=dict(va=1), time=dict(va=1, pv=1, pw=1, pa=1, pt=-1, spv=1, spw=1, spa=1, spt=-1),
           money=dict(pv=1, pw=1, pa=1, spv=1, spw=1, spa=1), values=dict(pv=1, pw=1, pa=1), passengers=dict())
TRIPS = dict(time=1, passengers=1)


def rescaled(c, unit, s):
    """the case in other units"""
    c = copy.deepcopy(c)
    if c.pop("ints", None):
        c = gen.integers(c)
    k = CITY.get(unit, 0)
    if c["city"]["kind"] == "param":
        for a in ("l", "p"):
            c["city"][a] = c["city"][a] * s ** k
    else:
        for n in c["city"]["nodes"]:
            n[2], n[3], n[6] = (repr(float(n[i]) * s ** k) for i in (2, 3, 6))
    for m in c["modes"] + ([c["idle"]] if c.get("idle") else []):
        for a, k in MODE[unit].items():
            m[a] = m[a] * s ** k
    for a, k in PAX[unit].items():
        c["pax"][a] = c["pax"][a] * s ** k
    if unit == "time" and c["f"] is not None:
        c["f"] = [x * s for x in c["f"]]
    return c


def problem(c, unit, s, trips):
    p = gen.Problem(rescaled(c, unit, s))
    ids = [n.id for n in p.graph.get_nodes()]
    p.demand = gen.Demand(p.graph)
    for o, d, v in trips:
        require(o in ids and d in ids, "nodes {} in other units", ids)
        p.demand.change_vij(o, d, v * s ** TRIPS.get(unit, 0))
    return p


def scaled_demand(c, unit, s):
    """parametric demand in other units, or None"""
    d = c["demand"]
    if d["kind"] != "param":
        return None
    return dict(d, y=d["y"] * s ** TRIPS.get(unit, 0))


def seq(ns):
    return ",".join(str(i) for i in ns)


def rewritten(c, p, how):
    """the same problem with the same lines written otherwise, and the lines that replace each one"""
    q = _with(p, None)
    q.demand, q.modes = p.demand, p.modes
    q.net = gen.TransportNetwork(p.graph)
    if p.idle and p.case["idle_first"]:
        q.net.add_transport_mode(p.idle)
    names, f = {}, {}
    before = gen.effective_f(p.routes, p.f)
    for i, r in enumerate(p.routes):
        chosen = c["which"] >> (i % 8) & 1
        sides = [[r.nodes_sequence_i, r.stops_sequence_i], [r.nodes_sequence_r, r.stops_sequence_r]]
        if how == "directions" and chosen:
            sides = sides[::-1]
        names[r.id] = [r.id, r.id + "half"] if how == "halves" and chosen else [r.id]
        for k, rid in enumerate(names[r.id]):
            if how != "directions" and k == 0:
                q.net.add_route(r)
            else:
                q.net.add_route(Route(rid, r.mode, seq(sides[0][0]), seq(sides[1][0]), seq(sides[0][1]),
                                      seq(sides[1][1]), RouteType.CIRCULAR if gen.is_circular(r) else RouteType.CUSTOM))
            f[rid] = before[r.id] / len(names[r.id])
    if p.idle and not p.case["idle_first"]:
        q.net.add_transport_mode(p.idle)
    q.routes = q.net.get_routes()
    q.f = gen.collections.defaultdict(float, f)
    return q, names


def observed(b, f):
    """what is observed of a problem with frequencies f"""
    x = vector(b, f)
    z, v, load = b.board_alight(f)
    o = b.opt
    k = o.get_k(load)
    con = list(o.get_constrains(x))
    out = dict(total=o.VRC(x), operators=o.operators_cost(z, v, f, k), infrastructure=o.infrastructure_cost(f),
               users=o.user_cost(o.hyperpaths, o.Vij, o.assignment, o.successors, o.extended_graph_obj, f, z, v))
    out["access"], out["waiting"], out["riding"], out["transfers"] = UsersCost.resources_consumer(
        o.hyperpaths, o.Vij, o.assignment, o.successors, o.extended_graph_obj, b.p.pax.va, f, z, v)
    routes = b.p.routes
    cycle = OperatorsCost.get_cycle_time(z, v, routes, OperatorsCost.lines_travel_time(
        routes, b.p.graph.get_edges_distance()))
    n = len(routes)
    return out, {r.id: con[i] for i, r in enumerate(routes)}, con[n:], {r.id: f[r.id] * cycle[r.id] for r in routes}


def same(got, want, what, power, s):
    require_close(got, want * s ** power, what, REL, 1e-7 * min(1.0, s ** power))


def check(c):
    p = gen.Problem(c)
    if not p.routes:
        return None
    b = sub.Built(c)
    how, s = c["how"], float(c["factor"])
    if not b.pairs or ambiguous(b):
        return False, ["tie" if b.pairs else "no trips"]
    if how == "halves" and any(m["theta"] * c["pax"]["pw"] < 1e-3 for m in c["modes"]):
        return False, ["free waiting"]
    f = b.repaired(c["x"])
    if how in UNITS:
        try:
            q = problem(c, how, s, b.pairs)
        except GraphException:
            # built from parameters that no file can represent
            return False, ["not representable"]
        names = {r.id: [r.id] for r in b.p.routes}
        require([r.id for r in q.routes] == list(names), "lines in other units: {}", [r.id for r in q.routes])
        power = POWER[how]
        g = {rid: x * (s if how == "time" else 1) for rid, x in f.items()}
        spec = scaled_demand(c, how, s)
        if spec:
            one, two = gen.build_demand(b.p.graph, c["demand"]), gen.build_demand(q.graph, spec)
            for o, d, x in gen.od_pairs(one):
                same(two.get_matrix()[o][d], x, "trips from {} to {}".format(o, d), TRIPS.get(how, 0), s)
    else:
        q, names = rewritten(c, b.p, how)
        power, s = {}, 1.0
        g = {new: x / len(names[rid]) for rid, x in f.items() if rid in names for new in names[rid]}
    e = sub.Built(c, Optimizer(q.graph, q.demand, q.pax, q.net, q.f), q)
    g = gen.collections.defaultdict(float, g)
    w, wload, wstreet, wfleet = observed(b, f)
    h, hload, hstreet, hfleet = observed(e, g)
    text = "{} with {} in other units (x {})".format("{}", how, s) if how in UNITS else "{} with other " + how
    if how == "passengers":
        # only the users' cost grows
        w["total"] += w["users"] * (s - 1)
    for key in w:
        same(h[key], w[key], text.format(key), power.get(key, 0), s)
    for rid, new in names.items():
        kmax = next(r for r in b.p.routes if r.id == rid).mode.kmax
        for x in new:
            same(hload[x] + kmax * s ** power.get("load", 0), wload[rid] + kmax, text.format("load of " + rid),
                 power.get("load", 0), s)
        same(sum(hfleet[x] for x in new), wfleet[rid], text.format("fleet of " + rid), power.get("fleet", 0), s)
    require(len(hstreet) == len(wstreet), "{} street constraints, {} after {}", len(wstreet), len(hstreet), how)
    for x, y in zip(hstreet, wstreet):
        same(x, y, text.format("street constraint"), power.get("street", 0), s)
    tags = [how] + ["power of two"] * (how in UNITS and s in [2.0 ** k for k in range(-12, 13)])
    tags += ["choice of stop"] * any(len(x) == 2 for x in b.share.values())
    tags += ["modes' frequencies"] * (c["f"] is None)
    return True, tags


PARTS = [Part("described again", case, check, 1600, 40000)]
