"""Reference model of the transport network, written from the documentation and independent of the code under test.

Nodes of the extended graph are named by keys:
  ("c", id), ("s", mode name, id), ("r", route id, direction, id)
"""
import math

from pbt import gen

INF = float("inf")
EPS = 1e-9


def key(node):
    """key of an extended node of the code under test"""
    if hasattr(node, "route"):
        return ("r", node.route.id, node.direction, node.stop_node.city_node.graph_node.id)
    if hasattr(node, "mode"):
        return ("s", node.mode.name, node.city_node.graph_node.id)
    return ("c", node.graph_node.id)


class Line:
    """a line: its two directions as (direction, nodes, stops), and if it is circular"""

    def __init__(self, route):
        self.id = route.id
        self.mode = route.mode
        self.circular = gen.is_circular(route)
        self.dirs = []
        for d, nodes, stops in (("I", route.nodes_sequence_i, route.stops_sequence_i),
                                ("R", route.nodes_sequence_r, route.stops_sequence_r)):
            if nodes:
                self.dirs.append((d, list(nodes), list(stops)))


def dist(pos, a, b):
    return math.hypot(pos[a][0] - pos[b][0], pos[a][1] - pos[b][1])


def path_length(pos, nodes):
    return sum(dist(pos, a, b) for a, b in zip(nodes, nodes[1:]))


class Net:
    """extended graph of reference. f: frequency of each line; tp: transfer penalty [min]"""

    def __init__(self, graph, routes, f, tp):
        self.pos = {n.id: (n.x, n.y) for n in graph.get_nodes()}
        self.lines = [Line(r) for r in routes]
        self.line = {x.id: x for x in self.lines}
        self.f = f
        self.tp = tp
        self.modes = {}
        self.access, self.board, self.alight, self.ride = {}, {}, {}, {}
        self.nodes = set()
        for ln in self.lines:
            self.modes[ln.mode.name] = ln.mode
            for d, nodes, stops in ln.dirs:
                names = stops[1:] if ln.circular else stops
                for i, s in enumerate(names):
                    r, st, c = ("r", ln.id, d, s), ("s", ln.mode.name, s), ("c", s)
                    self.nodes |= {r, st, c}
                    self.access[(c, st)] = self.access[(st, c)] = ln.mode.tat / 60
                    if ln.circular or i < len(names) - 1:
                        self.board[(st, r)] = f[ln.id] / ln.mode.d
                    if ln.circular or i > 0:
                        self.alight[(r, st)] = tp / 60
                if ln.circular:
                    # one section per stop, the first one after the last one
                    for a, b in zip(nodes, nodes[1:]):
                        self.ride[(("r", ln.id, d, a), ("r", ln.id, d, b))] = dist(self.pos, a, b) / ln.mode.v
                else:
                    for a, b in zip(stops, stops[1:]):
                        part = nodes[nodes.index(a):nodes.index(b) + 1]
                        self.ride[(("r", ln.id, d, a), ("r", ln.id, d, b))] = path_length(self.pos, part) / ln.mode.v
        self.out = {}
        for kind, table in (("access", self.access), ("board", self.board), ("alight", self.alight),
                            ("ride", self.ride)):
            for (a, b), x in table.items():
                self.out.setdefault(a, []).append((kind, b, x))

    # ---------------------------------------------------------- labels

    def options(self, node, o, d, pax):
        """ways to continue from a node in the trip o-d: ([(time, next)], [(frequency, next)])"""
        go, lines = [], []
        for kind, b, x in self.out.get(node, []):
            if node == ("c", o) or b == ("c", o):
                continue
            if kind == "access":
                go.append((x * pax["pa"] / pax["pv"], b))
            elif kind == "alight":
                go.append((0.0 if b[2] == d else x, b))
            elif kind == "ride":
                go.append((x, b))
            elif x > 0:
                lines.append((x, b))
        return go, lines

    def best_set(self, node, lines, u, pax):
        """expected time of the best set of lines to wait for at a stop"""
        w = self.modes[node[1]].theta * pax["pw"] / pax["pv"]
        num, den, best = w, 0.0, INF
        for t, f in sorted((u[b], f) for f, b in lines):
            if t >= best or t == INF:
                break
            num += t * f
            den += f
            best = num / den
        return best

    def labels(self, o, d, pax):
        """minimum expected time of every node to the city node d, without passing through the city node o"""
        u = {n: INF for n in self.nodes}
        dest = ("c", d)
        if dest in u:
            u[dest] = 0.0
        opts = {n: self.options(n, o, d, pax) for n in self.nodes}
        order = sorted(self.nodes)
        # strategies do not visit a node twice, so they have at most as many steps as nodes
        for _ in range(3 * len(order) + 10):
            change = 0.0
            for n in order:
                if n == dest:
                    continue
                go, lines = opts[n]
                best = min([t + u[b] for t, b in go], default=INF)
                if lines:
                    best = min(best, self.best_set(n, lines, u, pax))
                if best < u[n]:
                    change = max(change, u[n] - best)
                    u[n] = best
            if change <= 1e-14:
                break
        return u

    def reported(self, o, d, pax, u=None):
        """labels as reported: those of the stops of the origin include the access time"""
        u = dict(u or self.labels(o, d, pax))
        for n in u:
            if n[0] == "s" and n[2] == o:
                u[n] += self.modes[n[1]].tat / 60 * pax["pa"] / pax["pv"]
        return u

    def reachable(self, o, d, pax):
        if o == d:
            return False
        u = self.labels(o, d, pax)
        return any(n[0] == "s" and n[2] == o and u[n] < INF for n in u)

    def ambiguous(self, o, d, pax, u=None, eps=1e-6, nodes=None):
        """two ways to continue are (almost) as good in some node of the trip (or of the nodes given)"""
        u = u or self.labels(o, d, pax)
        for n in self.nodes if nodes is None else nodes:
            if u[n] == INF or n == ("c", d):
                continue
            go, lines = self.options(n, o, d, pax)
            close = [1 for t, b in go if t + u[b] <= u[n] + eps]
            in_set = self.best_set(n, lines, u, pax) if lines else INF
            if in_set <= u[n] + eps:
                close.append(1)
            if len(close) > 1:
                return True
            if in_set < INF and any(abs(u[b] - in_set) <= eps for f, b in lines):
                # a single line without wait is as good as its set
                return True
        return False


# ------------------------------------------------------------------ lateral access

def strips(p, d):
    """positions of the lines of a mode with d parallel lines over a node of width p centred at 0"""
    return [-p / 2 + p / d * (k + 0.5) for k in range(d)]


def share_first(l1, l2, p, d2, walk):
    """% of users of a node of width p who choose the stop of label l1 at the centre (one line) rather than the stop
    of label l2 with d2 lines. walk: label units per unit of distance walked"""
    if p == 0:
        return 100.0 if l1 <= l2 else 0.0
    xs = strips(p, d2)

    def diff(x):
        # cost of the first minus cost of the second
        return l1 + walk * abs(x) - (l2 + walk * min(abs(x - y) for y in xs))

    # piecewise linear: breakpoints at the lines, the centre and the midpoints between lines
    cuts = sorted({-p / 2, p / 2, 0.0} | set(xs) | {(a + b) / 2 for a, b in zip(xs, xs[1:])})
    total = 0.0
    for a, b in zip(cuts, cuts[1:]):
        if b - a <= 0:
            continue
        da, db = diff(a), diff(b)
        tol = 1e-12 * max(1.0, abs(l1), abs(l2), walk * p)
        if da <= tol and db <= tol:
            total += b - a
        elif da >= -tol and db >= -tol:
            pass
        else:
            x = a + (b - a) * da / (da - db)
            total += (x - a) if da < 0 else (b - x)
    return total / p * 100


def share_ambiguous(l1, l2, p, d2, walk, eps=1e-6):
    """the share jumps if labels change a little"""
    dd = (l2 - l1) / walk
    if abs(dd) < eps and d2 % 2 == 1:
        return True
    if p > 0 and abs(dd - p / 2) < eps:
        return True
    return any(abs(dd - abs(x)) < eps for x in strips(p, d2))


# ------------------------------------------------------------------ passengers

class Flows:
    """passengers of every line, per hour and per vehicle, and resources of the users"""

    def __init__(self):
        self.board, self.alight, self.load = {}, {}, {}
        self.arcs = []  # (pax, kind, key i, key j, extra)


def add(table, k, x):
    table[k] = table.get(k, 0.0) + x


def trip_masses(succ, o_stop, trips, dest, f):
    """(pax, node i, node j, node before i) of each arc used from a stop by its trips, following its strategy.
    succ: key -> [key]; dest: id of the destination"""
    out = []
    stack = [(None, o_stop, trips)]
    steps = 0
    while stack:
        prev, node, pax = stack.pop()
        steps += 1
        if steps > 200000:
            raise RuntimeError("strategy with a loop")
        if pax == 0 or (node[0] == "s" and node[2] == dest):
            continue
        nxt = succ.get(node, [])
        boarding = [b for b in nxt if b[0] == "r"] if node[0] == "s" else []
        for b in nxt:
            m = pax
            if boarding:
                m = pax * f[b[1]] / sum(f[x[1]] for x in boarding)
            out.append((m, prev, node, b, sum(f[x[1]] for x in boarding) if boarding else None))
            stack.append((node, b, m))
    return out


def flows(trips, f):
    """trips: [(trips, origin stop key, destination id, succ)]; flows per hour of each line, direction and stop"""
    fl = Flows()
    for n, stop, dest, succ in trips:
        if n == 0:
            continue
        for m, prev, a, b, fs in trip_masses(succ, stop, n, dest, f):
            fl.arcs.append((m, prev, a, b, fs, dest))
            if a[0] == "s" and b[0] == "r":
                add(fl.board, b[1:], m)
            elif a[0] == "r" and b[0] == "s":
                add(fl.alight, a[1:3] + (b[2],), m)
            elif a[0] == "r" and b[0] == "r":
                add(fl.load, a[1:], m)
    return fl


def per_vehicle(table, f):
    return {k: (x / f[k[0]] if f[k[0]] != 0 else x) for k, x in table.items()}


def users_resources(net, fl, origin_access, z, v):
    """access, waiting, in-vehicle [h] and transfers. z, v: per vehicle, by (route id, direction, city id)"""
    ta, te, tv, tr = origin_access, 0.0, 0.0, 0.0
    for m, prev, a, b, fs, dest in fl.arcs:
        if a[0] == "s" and b[0] == "r":
            mode = net.modes[a[1]]
            if m:
                te += m * mode.theta / (fs / mode.d)
        elif a[0] == "r" and b[0] == "r":
            mode = net.line[a[1]].mode
            tv += m * net.ride[(a, b)]
            if prev is not None and prev[0] == "r":
                # stays on board at the stop of a
                zz, vv = z.get(a[1:], 0.0), v.get(a[1:], 0.0)
                dwell = max(zz, vv) if mode.bya == 1 else zz + vv
                tv += m * dwell * mode.t / 3600
        elif a[0] == "r" and b[0] == "s":
            mode = net.line[a[1]].mode
            tv += m * 0.5 * mode.t / 3600 * v.get(a[1:3] + (b[2],), 0.0)
            if b[2] != dest:
                tr += m
        elif a[0] == "s" and b[0] == "c":
            ta += m * net.modes[a[1]].tat / 60
        elif a[0] == "c" and b[0] == "s":
            ta += m * net.modes[b[1]].tat / 60
    return ta, te, tv, tr


# ------------------------------------------------------------------ operators, infrastructure, constraints

def running_time(pos, ln):
    return sum(path_length(pos, nodes) for _, nodes, _ in ln.dirs) / ln.mode.v


def cycle_time(pos, ln, z, v):
    t = running_time(pos, ln)
    stops = {k for k in list(z) + list(v) if k[0] == ln.id}
    for k in sorted(stops, key=str):
        a, b = z.get(k, 0.0), v.get(k, 0.0)
        t += ln.mode.t / 3600 * (max(a, b) if ln.mode.bya == 1 else a + b)
    return t


def operators_cost(net, f, k, cycle):
    return sum((ln.mode.co + ln.mode.c1 * k.get(ln.id, 0.0)) * f[ln.id] * cycle[ln.id]
               for ln in net.lines if f[ln.id] != 0)


def streets(ln):
    return [(a, b) for _, nodes, _ in ln.dirs for a, b in zip(nodes, nodes[1:])]


def mode_length(pos, lines, mode, f):
    pairs = {frozenset(s) for ln in lines if ln.mode is mode and f[ln.id] != 0 for s in streets(ln)}
    return sum(dist(pos, *sorted(s)) for s in pairs) * mode.d


def max_load(fl_load, f):
    """vehicle size of each line: its most loaded section per vehicle"""
    out = {}
    for (rid, d, s), x in per_vehicle(fl_load, f).items():
        out[rid] = max(out.get(rid, 0.0), x)
    return out
