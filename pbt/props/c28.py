"""C28: reproducibility."""
import copy
import os

from hypothesis import strategies as st

from pbt import gen, sub
from pbt.core import Part, close, require
from pbt.server import Server
from pbt.gen import num
from sidermit.optimization.optimizer import Optimizer
from sidermit.optimization.preoptimization import Assignment, ExtendedGraph, Hyperpath
from sidermit.publictransportsystem import TransportModeManager

RULE = ("problems of 1 to 3 zones computed here, again here, and in two other processes with other hash seeds that have "
        "computed other problems before, one of them a problem that differs in "
        "few values; some with a real optimization, and histories of changes of objects obtained by "
        "default, after which new ones are asked for; non-trivial: somebody travels, or something changes; distinct by case")
ASSUMPTIONS = ["numbers are compared with relative tolerance 1e-9, texts and the order of everything exactly"]


def text_of(fn):
    path = gen.scratch_file(".txt")
    fn(path)
    with open(path, encoding="utf-8") as f:
        out = f.read()
    os.unlink(path)
    return out


def compute(c):
    """everything a user can obtain of a problem, as lists of numbers and texts"""
    p = gen.Problem(c)
    out = [0, p.graph.export_graph(), text_of(p.graph.graph_to_pajek_file), list(p.graph.get_parameters())]
    out.append([[e.id, e.node1.id, e.node2.id] for e in p.graph.get_edges()])
    out.append([[r.id, r.mode.name, r.nodes_sequence_i, r.nodes_sequence_r, r.stops_sequence_i, r.stops_sequence_r]
                for r in p.routes])
    out += [text_of(p.net.routes_to_file), text_of(p.demand.matrix_to_file), p.demand.get_total_trips(),
            [r.id for r in p.net.get_routes()], [m.name for m in p.net.get_modes()]]
    if not p.routes:
        return out
    b = sub.Built(c)
    o = b.opt
    out[0] = len(b.pairs)
    out += [str(o.extended_graph_obj), str(ExtendedGraph(p.graph, p.routes, p.pax.pt)),
            [[i, j, x] for i, y in p.graph.get_edges_distance().items() for j, x in y.items()]]
    for i in o.hyperpaths:
        for d in o.hyperpaths[i]:
            out.append([i.graph_node.id, d.graph_node.id,
                        Hyperpath.string_hyperpath_graph(o.successors[i][d], o.labels[i][d], o.frequency[i][d]),
                        Hyperpath.string_hyperpaths_OD(o.hyperpaths[i][d], o.labels[i][d]),
                        [[s.mode.name, x] for s, x in o.assignment[i][d].items()]])
    out.append(Hyperpath.string_all_hyperpaths(o.hyperpaths, o.labels, o.successors, o.Vij))
    f = b.repaired(c["g"])
    x = [f[r.id] for r in b.p.routes]
    out += [float(o.VRC(x)), [float(y) for y in o.get_constrains(x)],
            o.string_network_optimization((x, True, 1, "m", 0.0, 0.0))]
    z, v, load = Assignment.get_alighting_and_boarding(o.Vij, o.hyperpaths, o.successors, o.assignment, f)
    out += [Assignment.str_boarding_alighting(z, v), [[r, y] for r, y in Assignment.most_loaded_section(load).items()]]
    if b.pairs:
        s = sub.Sub(_with(b.p, gen.freq_dict(b.p.routes, x)))
        if all(s.reachable(i, d) for i, d, _ in b.pairs):
            o.better_res = (x, True, 1, "m", 0.0, 0.0)
            out += [o.string_network_results(), o.string_overall_results()]
    if c["real"] and b.pairs and len(b.p.routes) <= 5:
        try:
            q = Optimizer.network_optimization(b.p.graph, b.p.demand, b.p.pax, b.p.net, b.p.f, 0.01, 1)
            r = q.get_optimization_value()
            out.append([[float(y) for y in r[0]], bool(r[1]), int(r[2]), str(r[3]), float(r[4]), float(r[5])])
        except Exception as e:  # noqa: the same outcome is expected in all the runs
            out.append(type(e).__name__)
    return out


class _with:
    def __init__(self, p, f):
        self.graph, self.routes, self.pax, self.f, self.case = p.graph, p.routes, p.pax, f, p.case


def differ(a, b, where=""):
    """place where two results differ, or None"""
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return "{}: {} items and {}".format(where, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            d = differ(x, y, "{}[{}]".format(where, i))
            if d:
                return d
        return None
    if isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool):
        return None if close(a, b) or (a != a and b != b) else "{}: {} and {}".format(where, a, b)
    return None if a == b else "{}: {!r} and {!r}".format(where, a, b)


@st.composite
def sibling(draw, c):
    """a problem that differs from other in few values"""
    c = copy.deepcopy(c)
    city, n = c["city"], gen.city_n(c["city"])
    for part in draw(st.lists(st.sampled_from(["city", "city", "modes", "modes", "pax", "demand", "f", "lines"]), min_size=1,
                              max_size=2, unique=True)):
        if part == "city" and city["kind"] == "param":
            new = draw(gen.param_city(n, n))
            for k in draw(st.lists(st.sampled_from(["l", "g", "p", "angles", "angles", "Gi", "Hi"]), min_size=1, max_size=2,
                                   unique=True)):
                city[k] = new[k] if k in "lgp" else draw(st.lists(num(0, 360 if k == "angles" else 3), min_size=n,
                                                                  max_size=n))
        elif part == "city":
            # mirrored, or wider
            if draw(st.booleans()):
                for x in city["nodes"]:
                    x[2], x[3] = x[3], x[2]
            else:
                for x in city["nodes"]:
                    x[6] += 1
        elif part == "modes":
            m = draw(st.sampled_from(c["modes"]))
            new = draw(gen.mode_spec(m["name"], d=m["d"]))
            for k in draw(st.lists(st.sampled_from(sorted(new)), min_size=1, max_size=3, unique=True)):
                m[k] = new[k]
            if draw(st.booleans()):
                m["fini"] = new["fini"]
        elif part == "pax":
            new = draw(gen.passenger())
            k = draw(st.sampled_from(sorted(new)))
            c["pax"][k] = new[k]
        elif part == "demand":
            c["demand"] = draw(gen.demand_spec(n, False))
        elif part == "f":
            c["f"] = draw(gen.freq_values(6))
        elif part == "lines":
            c["lines"] = c["lines"][::-1]
    return c


@st.composite
def case(draw, real=False):
    out = []
    for k in range(2):
        c = draw(gen.problem(1, 3, max_families=2, max_custom=2))
        c["g"] = draw(gen.freq_values(6))
        c["real"] = real and k == 0
        out.append(c)
    if draw(st.integers(0, 3)):
        out[1] = draw(sibling(out[0]))
        out[1]["real"] = False
    return dict(case=out[0], other=out[1])


def check(c):
    import json
    here = json.loads(json.dumps(compute(c["case"]), default=float))
    again = json.loads(json.dumps(compute(c["case"]), default=float))
    d = differ(here, again, "result")
    require(d is None, "computed twice in the same process: {}", d)
    for seed, before in ((1, False), (77, True)):
        if before:
            Server.call(seed, "c28", "compute", c["other"])
        r = Server.call(seed, "c28", "compute", c["case"])
        require("ok" in r, "in other process: {}", r.get("error"))
        d = differ(here, r["ok"], "result")
        require(d is None, "in other process{}: {}", " after other problem" if before else "", d)
    return here[0] > 0, ["optimized"] * (c["case"]["real"] and isinstance(here[-1], list))


# ------------------------------------------------------------------ default objects

def defaults():
    """attributes of all the objects given by default"""
    pax, modes, man = gen.Passenger.get_default_passenger(), gen.TransportMode.get_default_modes(), TransportModeManager()
    return ([{a: getattr(pax, a) for a in gen.PAX_ARGS}] +
            [[{a: getattr(m, a) for a in gen.MODE_ARGS} for m in x] for x in (modes, man.get_modes())] +
            [list(man.get_modes_names()), list(TransportModeManager(False).get_modes_names()),
             list(TransportModeManager(False).get_modes())] + [gen.Graph.build_from_parameters().export_graph()])


FIRST = copy.deepcopy(defaults())


@st.composite
def default_case(draw):
    change = st.one_of(
        st.tuples(st.just("pax"), st.integers(0, 0), st.sampled_from(gen.PAX_ARGS), num(0.5, 50)),
        st.tuples(st.just("mode"), st.integers(0, 1), st.sampled_from([a for a in gen.MODE_ARGS if a not in ("name", "bya")]),
                  num(0.1, 1)),
        st.tuples(st.just("manager"), st.integers(0, 1), st.sampled_from(["v", "d", "fini", "kmax"]), num(1, 50)),
        st.tuples(st.sampled_from(["add", "remove", "empty", "city"]), st.integers(0, 1), st.just(""), st.just(1)))
    return draw(st.lists(change.map(list), min_size=1, max_size=6))


def check_defaults(c):
    for what, i, name, value in c:
        man = TransportModeManager()
        if what == "pax":
            setattr(gen.Passenger.get_default_passenger(), name, value)
        elif what == "mode":
            setattr(gen.TransportMode.get_default_modes()[i], name, value)
        elif what == "manager":
            setattr(man.get_modes()[i], name, value)
        elif what == "add":
            man.add_mode(gen.TransportMode("new", 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1))
        elif what == "remove":
            man.remove_mode(man.get_modes_names()[i])
        elif what == "empty":
            TransportModeManager(False).add_mode(gen.TransportMode.get_default_modes()[i])
        else:
            # a city of default parameters, with the mode and the passenger of this use of the library
            g = gen.Graph.build_from_parameters()
            net = gen.TransportNetwork(g)
            for r in net.get_radial_routes(man.get_modes()[i]):
                net.add_route(r)
            man.get_modes()[i].v = 7.5
            gen.Demand.build_from_parameters(g, 100, 0.5, 0.3, 0.2).change_vij(1, 0, 5)
        now = defaults()
        require(now == FIRST, "the objects by default are {} after {} of other ones, before {}", now, what, FIRST)
    return True, sorted({x[0] for x in c})


PARTS = [Part("defaults", default_case, check_defaults, 400, 20000),
         Part("results", case, check, 480, 20000), Part("optimized", lambda: case(real=True), check, 32, 1200, hang=240)]
