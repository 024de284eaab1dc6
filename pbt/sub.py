"""Access to the code under test shared by the checks of strategies, assignment and costs."""
from pbt import gen, ref
from pbt.core import require
from sidermit.optimization.optimizer import Optimizer
from sidermit.optimization.preoptimization import Assignment, ExtendedGraph, Hyperpath

KIND = {"ACCESS": "access", "BOARDING": "board", "ALIGHTING": "alight", "ROUTE": "ride"}


class Sub:
    """extended graph and strategies of a problem, with the reference network and the nodes by key"""

    def __init__(self, p, graph=None):
        self.p = p
        self.graph = graph or ExtendedGraph(p.graph, p.routes, p.pax.pt, p.f)
        self.hyper = Hyperpath(self.graph, p.pax)
        self.f = gen.effective_f(p.routes, p.f)
        self.ref = ref.Net(p.graph, p.routes, self.f, p.pax.pt)
        self.node = {}
        tree = self.graph.get_extended_graph_nodes()
        for c in tree:
            self.node[ref.key(c)] = c
            for s in tree[c]:
                self.node[ref.key(s)] = s
                for r in tree[c][s]:
                    self.node[ref.key(r)] = r
        self.pax = p.case["pax"]
        self._labels = {}

    def city(self, i):
        return self.node.get(("c", i))

    def labels(self, o, d):
        if (o, d) not in self._labels:
            self._labels[o, d] = self.ref.labels(o, d, self.pax)
        return self._labels[o, d]

    def reachable(self, o, d):
        if o == d:
            return False
        u = self.labels(o, d)
        return any(k[0] == "s" and k[2] == o and u[k] < ref.INF for k in u)


def edge_key(e):
    return KIND[e.type.name], ref.key(e.nodei), ref.key(e.nodej)


class Built:
    """a problem whose pairs can be travelled, built by the code under test, with its strategies by key"""

    def __init__(self, case, opt=None, p=None):
        self.case = case
        self.p = p or gen.Problem(case)
        if opt is None:
            s = Sub(self.p)
            gen.drop_unreachable(self.p, s.reachable)
            opt = Optimizer(self.p.graph, self.p.demand, self.p.pax, self.p.net, self.p.f)
        self.opt = opt
        self.s = Sub(self.p, opt.extended_graph_obj)
        self.pairs = gen.od_pairs(self.p.demand)
        self.succ, self.share = {}, {}
        o_ = opt
        for o in o_.hyperpaths:
            for d in o_.hyperpaths[o]:
                k = o.graph_node.id, d.graph_node.id
                self.succ[k] = {ref.key(n): [ref.key(e.nodej) for e in es] for n, es in o_.successors[o][d].items()}
                self.share[k] = {ref.key(n): x for n, x in o_.assignment[o][d].items() if x != 0}
        self.pos = self.s.ref.pos
        self.lines = self.s.ref.lines

    def split(self, style):
        """replaces the shares of pairs with two stops so that all are used: style in [0, 100]"""
        for o in self.opt.hyperpaths:
            for d in self.opt.hyperpaths[o]:
                stops = list(self.opt.hyperpaths[o][d])
                if len(stops) == 2:
                    new = {stops[0]: style, stops[1]: 100 - style}
                    for s, x in new.items():
                        self.opt.assignment[o][d][s] = x
                    self.share[o.graph_node.id, d.graph_node.id] = {ref.key(s): x for s, x in new.items() if x}

    def trips(self):
        return [(v * x / 100, stop, d, self.succ[o, d]) for o, d, v in self.pairs
                for stop, x in self.share[o, d].items()]

    def repaired(self, values):
        """frequencies by position, positive where a stop with passengers would be without service"""
        f = gen.freq_dict(self.p.routes, values)
        while True:
            bad = None
            for n, stop, d, succ in self.trips():
                bad = bad or self.starved(n, stop, d, succ, f)
            if bad is None:
                return f
            for rid in bad:
                f[rid] = 1.0

    @staticmethod
    def starved(n, stop, dest, succ, f):
        stack = [(stop, n)]
        while stack:
            node, pax = stack.pop()
            if pax == 0 or (node[0] == "s" and node[2] == dest):
                continue
            nxt = succ.get(node, [])
            board = [b[1] for b in nxt if node[0] == "s" and b[0] == "r"]
            if board:
                total = sum(f[r] for r in board)
                if total == 0:
                    return board
                stack += [(b, pax * f[b[1]] / total) for b in nxt]
            else:
                stack += [(b, pax) for b in nxt]
        return None

    def flows(self, f):
        return ref.flows(self.trips(), f)

    def board_alight(self, f):
        o = self.opt
        return Assignment.get_alighting_and_boarding(o.Vij, o.hyperpaths, o.successors, o.assignment, f)

    def origin_access(self):
        """lateral and technological access at the origins [h]"""
        total = 0.0
        width = {n.id: n.width for n in self.p.graph.get_nodes()}
        va = self.case["pax"]["va"]
        for o, d, v in self.pairs:
            for stop, x in self.share[o, d].items():
                m = self.s.ref.modes[stop[1]]
                total += v * x / 100 * (m.tat / 60 + x / 100 * width[o] / (4 * va * m.d))
        return total


def flat(table):
    """{(line, direction, city id): value} of a table by line, direction and stop"""
    out = {}
    for rid in list(table):
        for d in list(table[rid]):
            for stop, x in table[rid][d].items():
                if x != 0:
                    out[rid, d, stop.city_node.graph_node.id] = x
    return out


def same(got, want, what, rel=1e-9):
    """tables with the same non-zero values"""
    scale = max([1.0] + [abs(x) for x in want.values()])
    for k in set(got) | set(want):
        a, b = got.get(k, 0), want.get(k, 0)
        require(abs(a - b) <= rel * scale, "{} of {}: {}, expected {}", what, k, a, b)
