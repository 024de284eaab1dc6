"""Generators of JSON cases and builders of the objects under test they describe."""
import collections
import os
import tempfile

from pbt import core

core.setup_path()

from hypothesis import strategies as st  # noqa: E402

from sidermit.city import Graph, Demand  # noqa: E402
from sidermit.city.graph import CBD, Periphery, Subcenter  # noqa: E402
from sidermit.publictransportsystem import TransportMode, TransportNetwork, Passenger  # noqa: E402
from sidermit.publictransportsystem.network import Route  # noqa: E402

MODE_ARGS = ["name", "bya", "co", "c1", "c2", "v", "t", "fmax", "kmax", "theta", "tat", "d", "fini"]
PAX_ARGS = ["va", "pv", "pw", "pa", "pt", "spv", "spw", "spa", "spt"]


def num(lo, hi, steps=8, digits=4):
    """numbers of [lo, hi]: a coarse grid with the limits (for ties and symmetric cases) and any other"""
    grid = st.integers(0, steps).map(lambda k: round(lo + (hi - lo) * k / steps, digits))
    free = st.floats(lo, hi, allow_nan=False)
    return st.one_of(grid, free.map(lambda x: round(x, digits)), grid, free.map(lambda x: round(x, digits)),
                     free.map(lambda x: round(x, digits + 5)))


def scratch_file(suffix=""):
    fd, path = tempfile.mkstemp(suffix=suffix, dir=os.environ.get("VERIF_SCRATCH", "/tmp"))
    os.close(fd)
    return path


# ------------------------------------------------------------------ cities

@st.composite
def param_city(draw, n_min=1, n_max=4, plain=0.4, l_min=1.0, p_max=4.0):
    n = draw(st.integers(n_min, n_max))
    spec = dict(kind="param", n=n, l=draw(num(l_min, 20)), g=draw(num(0, 2)), p=draw(num(0, p_max)), etha=None,
                etha_zone=None, angles=None, Gi=None, Hi=None)
    if n > 0 and draw(st.booleans()):
        spec["etha"] = draw(num(0, 1))
        spec["etha_zone"] = draw(st.integers(1, n))
    if draw(st.integers(0, 3)) == 0:
        spec["angles"] = draw(st.lists(num(0, 360), min_size=n, max_size=n))
    if draw(st.integers(0, 3)) == 0:
        spec["Gi"] = draw(st.lists(num(0, 3), min_size=n, max_size=n))
    if draw(st.integers(0, 3)) == 0:
        spec["Hi"] = draw(st.lists(num(0, 3), min_size=n, max_size=n))
    return spec


NAME = st.text("abcdefgXYZ_0123456789-.é", min_size=1, max_size=6)


# ids that begin or end with others
ALIKE = sorted({int(x + y + z) for x in ("", "1", "2") for y in ("", "0", "1", "2") for z in "012"})


@st.composite
def pajek_city(draw, n_min=1, n_max=4, ordered=False, coordinate=None, same_width=True, scale=20.0):
    """a representable city given by its node lines: any ids, names, order and coordinates"""
    n = draw(st.integers(n_min, n_max))
    kinds = [st.integers(0, 30), st.integers(0, 10 ** 6), st.sampled_from(ALIKE if n < 10 else range(99))]
    ids = draw(st.lists(draw(st.sampled_from(kinds)), min_size=2 * n + 1, max_size=2 * n + 1, unique=True))
    names = draw(st.lists(NAME, min_size=2 * n + 1, max_size=2 * n + 1, unique=True))
    if draw(st.integers(0, 7)) == 7:
        # names are not unique
        names = [names[draw(st.integers(0, 1)) if n else 0] for _ in names]
    width = draw(num(0, 4))
    import math

    def point(r, a):
        return r * math.cos(math.radians(a)), r * math.sin(math.radians(a))

    nodes = []
    r_sc, r_p, ang = [], [], []
    for z in range(n):
        r_sc.append(draw(num(0.5, scale)))
        ang.append(draw(num(0, 360)))
    for z in range(n):
        r_p.append(draw(num(0.0, 2 * scale)))
    # mean periphery radius >= mean subcenter radius: every pair is separated enough by construction
    lack = sum(r_sc) - sum(r_p)
    if lack > -1e-9 * max(1.0, sum(r_sc)):
        r_p = [r + lack / max(n, 1) + 1e-6 for r in r_p]
    for z in range(n):
        x, y = point(r_sc[z], ang[z])
        nodes.append([ids[2 * z + 2], names[2 * z + 2], x, y, "SC", z + 1, width])
        a_p = ang[z] if draw(st.booleans()) else draw(num(0, 360))
        x, y = point(r_p[z], a_p)
        nodes.append([ids[2 * z + 1], names[2 * z + 1], x, y, "P", z + 1, width])
    cbd = draw(st.integers(0, 2))
    x, y = 0, 0
    if cbd and n:
        r = draw(num(0, 1)) * min(r_sc)
        x, y = point(r, ang[draw(st.integers(0, n - 1))] if cbd == 1 else draw(num(0, 360)))
    nodes.append([ids[0], names[0], x, y, "CBD", 0, width])
    if not same_width:
        for node in nodes:
            node[6] = draw(num(0, 4))
    if not ordered:
        nodes = draw(st.permutations(nodes))
    return dict(kind="pajek", nodes=[list(x) for x in nodes])


def city(n_min=1, n_max=4, **kw):
    return st.one_of(param_city(n_min, n_max), param_city(n_min, n_max), pajek_city(n_min, n_max))


def distinct_names(case):
    """the same problem in a city without repeated names"""
    if case["city"]["kind"] == "pajek":
        nodes = case["city"]["nodes"]
        if len({x[1] for x in nodes}) < len(nodes):
            for x in nodes:
                x[1] = "{}_{}".format(x[1], x[0])
    return case


def pajek_text(nodes, header="*vertices {}\n"):
    return header.format(len(nodes)) + "".join(
        "{} {} {} {} {} {} {}\n".format(*x) for x in nodes)


def build_city(spec):
    if spec["kind"] == "pajek":
        return Graph.build_from_content(pajek_text(spec["nodes"]))
    return Graph.build_from_parameters(**{k: v for k, v in spec.items() if k != "kind"})


def token(node):
    """role of a node of the city: C, P<zone> or S<zone>"""
    if isinstance(node, CBD):
        return "C"
    return ("P" if isinstance(node, Periphery) else "S") + str(node.zone_id)


def tokens(graph):
    return {token(n): n for n in graph.get_nodes()}


def token_adjacency(n):
    """adjacent nodes of a city of n zones, by role, as the documentation of the city defines them"""
    adj = collections.defaultdict(set)

    def join(a, b):
        adj[a].add(b)
        adj[b].add(a)

    for z in range(1, n + 1):
        join("P%d" % z, "S%d" % z)
        join("S%d" % z, "C")
    if n == 2:
        join("S1", "S2")
    if n > 2:
        for z in range(1, n + 1):
            join("S%d" % z, "S%d" % (z % n + 1))
    return {k: sorted(v) for k, v in adj.items()}


# ------------------------------------------------------------------ modes and passengers

@st.composite
def mode_spec(draw, name, d=None, loose=False):
    return dict(name=name, bya=draw(st.integers(0, 1)), co=draw(num(0, 80)), c1=draw(num(0, 2)),
                c2=draw(num(0, 900)), v=draw(num(5, 60)), t=draw(num(0, 6)), fmax=draw(num(5, 150)),
                kmax=draw(num(5, 1500)), theta=draw(num(0, 1)), tat=draw(num(0, 5)),
                d=d if d is not None else draw(st.sampled_from([1, 2, 3, 4, 5, 6, 1, 2, 3, 4, 5, 8])), fini=draw(num(1, 60)))


@st.composite
def modes(draw, two=None):
    out = draw(any_modes(two))
    if draw(st.integers(0, 11)) == 11:
        for m in out:
            m.update(theta=0.0, tat=0.0)
    if draw(st.integers(0, 19)) == 19:
        # vehicles or streets without capacity
        draw(st.sampled_from(out))[draw(st.sampled_from(["kmax", "fmax"]))] = 0
    return out


@st.composite
def any_modes(draw, two):
    n = draw(st.integers(1, 2)) if two is None else (2 if two else 1)
    names = draw(st.sampled_from([["bus", "metro"], ["a", "b"], ["m_1", "m_11"], ["tram", "bus"], ["metro 1", "metro 2"], ["Bus", "bus"]]))
    if n == 1:
        return [draw(mode_spec(names[0]))]
    first = draw(mode_spec(names[0], d=1))
    style = draw(st.integers(0, 5))
    if style == 0:
        # twins: every label ties
        second = dict(first, name=names[1])
        second["d"] = draw(st.sampled_from([1, 1, 2, 3]))
    else:
        second = draw(mode_spec(names[1]))
        if style in (1, 2):
            second.update(v=first["v"], tat=first["tat"], theta=first["theta"])
    out = [first, second]
    return out if draw(st.booleans()) else out[::-1]


@st.composite
def passenger(draw):
    p = draw(any_passenger())
    if draw(st.integers(0, 11)) == 11:
        # no waiting and no transfer penalty: labels tie
        p.update(pw=0.0, pt=0.0)
    return p


@st.composite
def any_passenger(draw):
    return dict(va=draw(num(1, 6)), pv=draw(num(0.5, 6)), pw=draw(num(0, 12)), pa=draw(num(0.5, 18)),
                pt=draw(num(0, 30)), spv=draw(num(0, 6)), spw=draw(num(0, 12)), spa=draw(num(0, 18)),
                spt=draw(num(0, 30)))


def build_mode(spec):
    return TransportMode(**spec)


def build_passenger(spec):
    return Passenger(**spec)


# ------------------------------------------------------------------ lines

FAMS = ["circular", "feeder", "radial", "diametral", "tangencial"]


@st.composite
def family(draw, n, n_modes, fams=FAMS):
    fams = [f for f in fams if n >= 2 or f in ("feeder", "radial")]
    fam = draw(st.sampled_from(fams))
    spec = dict(fam=fam, mode=draw(st.integers(0, n_modes - 1)), short=False, express=False, jump=1, keep=None)
    if fam in ("radial", "diametral", "tangencial"):
        spec["short"] = draw(st.booleans())
        spec["express"] = draw(st.booleans())
    if fam in ("diametral", "tangencial"):
        spec["jump"] = draw(st.integers(1, n // 2))
    if draw(st.integers(0, 3)) == 0:
        spec["keep"] = draw(st.lists(st.integers(0, max(n - 1, 1)), min_size=1, max_size=2, unique=True))
    return spec


@st.composite
def simple_path(draw, adj, start=None, min_len=2, max_len=7):
    """a path without repeated nodes"""
    keys = sorted(adj)
    path = [start if start is not None else draw(st.sampled_from(keys))]
    want = draw(st.integers(min_len, max_len))
    while len(path) < want:
        nxt = [x for x in adj[path[-1]] if x not in path]
        if not nxt:
            break
        path.append(draw(st.sampled_from(nxt)))
    return path


def all_paths(adj, a, b, limit=40):
    out, stack = [], [[a]]
    while stack and len(out) < limit:
        p = stack.pop()
        if p[-1] == b:
            out.append(p)
            continue
        for x in adj[p[-1]]:
            if x not in p:
                stack.append(p + [x])
    return sorted(out)


@st.composite
def stops_of(draw, path):
    if draw(st.booleans()):
        return list(path)
    return [x for i, x in enumerate(path) if i in (0, len(path) - 1) or draw(st.booleans())]


@st.composite
def custom_route(draw, n, n_modes, rid):
    adj = token_adjacency(n)
    ni = draw(simple_path(adj))
    if draw(st.integers(0, 2)) > 0:
        nr = ni[::-1]
    else:
        nr = draw(st.sampled_from(all_paths(adj, ni[-1], ni[0])))
    si = draw(stops_of(ni))
    sr = si[::-1] if nr == ni[::-1] and draw(st.booleans()) else draw(stops_of(nr))
    return dict(fam="custom", id=rid, mode=draw(st.integers(0, n_modes - 1)), ni=ni, nr=nr, si=si, sr=sr)


@st.composite
def bundle(draw, n, n_modes, rid="b", size=12):
    """many lines along one corridor, with more or fewer stops"""
    adj = token_adjacency(n)
    path = draw(simple_path(adj, min_len=2, max_len=5))
    mode = draw(st.integers(0, n_modes - 1))
    out = []
    for k in range(draw(st.integers(4, size))):
        si = draw(stops_of(path))
        out.append(dict(fam="custom", id="%s%d" % (rid, k), mode=mode, ni=path, nr=path[::-1], si=si, sr=si[::-1]))
    return out


@st.composite
def lines(draw, n, n_modes, max_families=3, max_custom=3):
    """families of lines and custom ones; most of the time with lines that connect the whole city"""
    out = []
    base = draw(st.integers(0, 5))
    m = draw(st.integers(0, n_modes - 1))
    if base >= 1:
        out.append(dict(fam="radial", mode=m, short=False, express=False, jump=1, keep=None))
    if n_modes == 2 and draw(st.booleans()):
        out.append(draw(family(n, n_modes)))
        out[-1]["mode"] = 1 - m
    out += draw(st.lists(family(n, n_modes), min_size=0 if out else 1, max_size=max(max_families - 1, 0 if out else 1)))
    for k in range(draw(st.integers(0, max_custom))):
        out.append(draw(custom_route(n, n_modes, "x%d" % k)))
    if max_custom and out and out[-1]["fam"] == "custom" and draw(st.integers(0, 3)) == 3:
        # the same line again, in its mode or in the other
        out.append(dict(out[-1], id="y", mode=draw(st.integers(0, n_modes - 1))))
    if max_custom and draw(st.integers(0, 15)) == 15:
        out += draw(bundle(n, n_modes, size=9))
    return list(draw(st.permutations(out)))


def build_routes(net, graph, mode_objs, specs):
    """Route objects of the specifications, without repeated ids"""
    tok = tokens(graph)
    out, seen = [], set()
    for s in specs:
        m = mode_objs[s["mode"]]
        if s["fam"] == "custom":
            def seq(key):
                return ",".join(str(tok[t].id) for t in s[key])
            new = [Route(s["id"], m, seq("ni"), seq("nr"), seq("si"), seq("sr"))]
        elif s["fam"] == "circular":
            new = net.get_circular_routes(m)
        elif s["fam"] == "feeder":
            new = net.get_feeder_routes(m)
        elif s["fam"] == "radial":
            new = net.get_radial_routes(m, s["short"], s["express"])
        elif s["fam"] == "diametral":
            new = net.get_diametral_routes(m, s["jump"], s["short"], s["express"])
        else:
            new = net.get_tangencial_routes(m, s["jump"], s["short"], s["express"])
        if s.get("keep") is not None:
            new = [r for i, r in enumerate(new) if i in s["keep"]]
        for r in new:
            if r.id not in seen:
                seen.add(r.id)
                out.append(r)
    return out


def is_circular(route):
    return not (route.nodes_sequence_i and route.nodes_sequence_r)


# ------------------------------------------------------------------ demand

@st.composite
def demand_spec(draw, n, any_pair=False, cells=False):
    if not cells and draw(st.integers(0, 2)) == 0:
        alpha = draw(num(0, 1))
        beta = round(min(draw(num(0, 0.99)), 1 - alpha), 4)
        if beta >= 1:
            beta = 0.99
        return dict(kind="param", y=draw(num(1, 5000)), a=draw(num(0, 1)), alpha=alpha,
                    beta=max(0, beta - 0.0001 if alpha + beta > 1 else beta))
    roles = ["C"] + [k + str(z) for z in range(1, n + 1) for k in "PS"]
    cells = draw(st.lists(st.tuples(st.sampled_from(roles), st.sampled_from(roles), num(0.5, 3000)),
                          min_size=1, max_size=6))
    return dict(kind="cells", cells=[list(c) for c in cells if any_pair or c[0] != c[1]])


def build_demand(graph, spec):
    if spec["kind"] == "param":
        return Demand.build_from_parameters(graph, spec["y"], spec["a"], spec["alpha"], spec["beta"])
    tok = tokens(graph)
    dem = Demand(graph)
    for o, d, v in spec["cells"]:
        dem.change_vij(tok[o].id, tok[d].id, v)
    return dem


def od_pairs(demand):
    m = demand.get_matrix()
    return [(o, d, m[o][d]) for o in m for d in m[o] if m[o][d] != 0]


# ------------------------------------------------------------------ whole problems

@st.composite
def freq_values(draw, size, zeros=True):
    """one frequency per line, by position (cyclic)"""
    v = [num(1, 60), num(0.05, 200), num(1, 60), num(0.05, 200), st.sampled_from([0.04, 0.01, 0.001, 1e-4])]
    v = st.one_of(v + [st.just(0.0), st.just(0.0)] if zeros else v)
    return draw(st.lists(v, min_size=1, max_size=size))


@st.composite
def near(draw, values):
    """frequencies that hardly differ from others: all by little, or some lines"""
    e = draw(st.sampled_from([1e-9, 1e-6, 1e-4, 1e-3, 1e-2, 0.04, 0.4, 0.9, 1.1, 5.0]))
    if draw(st.integers(0, 2)) == 0:
        return [v + e for v in values]
    out = (values * 8)[:max(8, len(values))]
    for i in draw(st.lists(st.integers(0, 5), min_size=1, max_size=2, unique=True)):
        i %= len(out)
        out[i] = draw(st.sampled_from([0.0, 0.0, 0.04, 1 / 24, out[i] + e, max(out[i] - e, 0.0)]))
    return out


@st.composite
def problem(draw, n_min=1, n_max=4, two=None, zeros=True, no_freq=True, max_families=3, max_custom=3, demand=True,
            any_pair=False):
    large = n_max >= 3 and n_max > n_min and draw(st.integers(0, 24)) == 24
    c = draw(city(5, 7) if large else city(n_min, n_max))
    n = city_n(c)
    ms = draw(modes(two))
    case = dict(city=c, modes=ms, pax=draw(passenger()),
                lines=draw(lines(n, len(ms), 1 if large else max_families, min(max_custom, 2) if large else max_custom)))
    if len(ms) == 1 and two is None and draw(st.integers(0, 5)) == 5:
        # a mode of the network without lines
        case["idle"] = draw(mode_spec("idle", d=1 if ms[0]["d"] != 1 else None))
        case["idle_first"] = draw(st.booleans())
    if draw(st.integers(0, 5)) == 5:
        case["ints"] = True
    if no_freq and draw(st.integers(0, 4)) == 0:
        case["f"] = None
        if zeros and draw(st.integers(0, 3)) == 0:
            draw(st.sampled_from(ms))["fini"] = 0
    else:
        case["f"] = draw(freq_values(8, zeros))
    if demand:
        case["demand"] = draw(demand_spec(n, any_pair, cells=large))
    return case


def city_n(spec):
    return spec["n"] if spec["kind"] == "param" else (len(spec["nodes"]) - 1) // 2


class Problem:
    """objects under test of a case"""

    def __init__(self, case):
        if case.get("ints"):
            case = integers(case)
        self.case = case
        self.graph = build_city(case["city"])
        self.modes = [build_mode(m) for m in case["modes"]]
        self.pax = build_passenger(case["pax"])
        self.net = TransportNetwork(self.graph)
        self.routes = build_routes(self.net, self.graph, self.modes, case["lines"])
        self.idle = build_mode(case["idle"]) if case.get("idle") else None
        if self.idle and case["idle_first"]:
            self.net.add_transport_mode(self.idle)
        for r in self.routes:
            self.net.add_route(r)
        if self.idle and not case["idle_first"]:
            self.net.add_transport_mode(self.idle)
        self.f = freq_dict(self.routes, case["f"])
        self.demand = build_demand(self.graph, case["demand"]) if "demand" in case else None
        self.tok = tokens(self.graph)


def integers(x):
    """the same values, the whole ones as integers"""
    if isinstance(x, dict):
        return {k: integers(v) for k, v in x.items()}
    if isinstance(x, list):
        return [integers(v) for v in x]
    return int(x) if isinstance(x, float) and x.is_integer() else x


def freq_dict(routes, values):
    if values is None:
        return None
    out = collections.defaultdict(float)
    for i, r in enumerate(routes):
        out[r.id] = values[i % len(values)]
    return out


def effective_f(routes, f):
    """frequencies of the lines: those given, or those of the modes"""
    if f is not None:
        return {r.id: f[r.id] for r in routes}
    return {r.id: r.mode.fini for r in routes}


def drop_unreachable(p, reachable):
    """sets to zero the pairs with trips that cannot be travelled"""
    for o, d, v in od_pairs(p.demand):
        if not reachable(o, d):
            p.demand.change_vij(o, d, 0)
    return od_pairs(p.demand)
