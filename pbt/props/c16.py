"""C16: split of trips between the stops of a node."""
import collections

from hypothesis import strategies as st

from pbt import gen, ref, sub
from pbt.core import Part, require
from pbt.gen import num
from sidermit.optimization.preoptimization import Assignment, CityNode, StopNode
from sidermit.optimization.optimizer import Optimizer

RULE = ("1 to 4 OD pairs with one or two stops of any labels, d, width and passenger, with labels whose indifference "
        "walk falls on, before and after every line, and whole problems; non-trivial: some pair has two stops (in "
        "problems: some pair with trips); distinct by case")
ASSUMPTIONS = ["where the share jumps (equal labels of stops in the same place, indifference walk on a line or on the "
               "border) any value between those of labels 1e-9 lower and higher is accepted",
               "with two stops at least one mode has d = 1; va, pa and pv are positive"]
EPS = 1e-9


def bounds(l1, l2, p, d2, walk):
    eps = EPS * max(1.0, abs(l1), abs(l2))
    a = ref.share_first(l1, l2 - eps, p, d2, walk)
    b = ref.share_first(l1, l2 + eps, p, d2, walk)
    return min(a, b), max(a, b)


@st.composite
def synthetic(draw):
    p = draw(st.one_of(num(0, 4), num(0.1, 10), st.just(0)))
    vp, pa, pv = draw(num(1, 6)), draw(num(0.5, 18)), draw(num(0.5, 6))
    twin = draw(st.integers(0, 5)) == 0
    d2 = 1 if twin else draw(st.one_of(st.integers(1, 9), st.integers(1, 9), st.integers(10, 40)))
    pairs = []
    for _ in range(draw(st.integers(1, 4))):
        kind = draw(st.sampled_from(["first", "second", "both", "both", "both", "both"]))
        l1 = draw(num(0, 5))
        walk = pa / pv / vp
        style = draw(st.integers(0, 3))
        if style == 0:
            l2 = draw(num(0, 5))
        elif style == 1:
            # around the positions of the lines
            x = draw(st.sampled_from(ref.strips(p, d2) + [0, p / 2, -p / 2]))
            l2 = l1 + walk * x + draw(st.sampled_from([0, 0, 1e-3, -1e-3, 1e-6, -1e-6]))
        else:
            l2 = l1 + walk * p / 2 * draw(num(-1.2, 1.2))
        if l2 < 0:
            l1, l2 = l1 - l2, 0.0
        pairs.append(dict(kind=kind, l1=l1, l2=l2, up=draw(num(0, 2))))
    return dict(p=p, vp=vp, pa=pa, pv=pv, d2=d2, pairs=pairs, order=draw(st.booleans()))


def small_mode(name, d):
    return gen.build_mode(dict(name=name, bya=0, co=1, c1=1, c2=1, v=20, t=1, fmax=10, kmax=10, theta=0.5, tat=1, d=d,
                               fini=5))


def nested():
    return collections.defaultdict(lambda: collections.defaultdict(lambda: collections.defaultdict(float)))


def run(c, raise_first=None):
    """shares of each pair: [(first, second)], None if there is no such stop"""
    g = gen.Graph.build_from_parameters(2, 10, 0.5, c["p"])
    nodes = g.get_nodes()
    m1, m2 = small_mode("one", 1), small_mode("two", c["d2"])
    hyp, lab = nested(), nested()
    stops = []
    dest = CityNode(99, nodes[0])
    for i, q in enumerate(c["pairs"]):
        o = CityNode(i, nodes[1 + i])
        s1, s2 = StopNode(2 * i, m1, o), StopNode(2 * i + 1, m2, o)
        use = [s for s, k in ((s1, "first"), (s2, "second")) if q["kind"] in (k, "both")]
        for s in (use if c["order"] else use[::-1]):
            hyp[o][dest][s] = [[o, s, dest]]
            l1, l2 = q["l1"], q["l2"]
            if raise_first is not None:
                l1, l2 = (l1 + q["up"], l2) if raise_first else (l1, l2 + q["up"])
            lab[o][dest][s] = l1 if s is s1 else l2
        stops.append((o, s1, s2))
    a = Assignment.get_assignment(hyp, lab, c["p"], c["vp"], c["pa"], c["pv"])
    return [(a[o][dest][s1], a[o][dest][s2]) for o, s1, s2 in stops]


def check_synthetic(c):
    got = run(c)
    walk = c["pa"] / c["pv"] / c["vp"]
    tags = set()
    for q, (x, y) in zip(c["pairs"], got):
        require(-1e-9 <= x <= 100 + 1e-9 and -1e-9 <= y <= 100 + 1e-9, "shares {} and {}", x, y)
        require(abs(x + y - 100) <= 1e-7, "shares {} and {} of {}", x, y, q)
        if q["kind"] != "both":
            require((x, y) == ((100, 0) if q["kind"] == "first" else (0, 100)), "shares {} and {} with only the {} stop",
                    x, y, q["kind"])
            tags.add("one stop")
            continue
        a, b = bounds(q["l1"], q["l2"], c["p"], c["d2"], walk)
        require(a - 1e-4 <= x <= b + 1e-4, "share of the stop of d=1 with labels {} and {}, d={}, p={}: {}, expected {}",
                q["l1"], q["l2"], c["d2"], c["p"], x, a if a == b else (a, b))
        tags.add("tie" if b - a > 1e-3 else "all" if x in (0, 100) else "split")
    for first in (True, False):
        for q, old, new in zip(c["pairs"], got, run(c, first)):
            if q["kind"] == "both":
                i = 0 if first else 1
                require(new[i] <= old[i] + 1e-6, "the share of the {} stop grows from {} to {} when its label grows {}",
                        i + 1, old[i], new[i], q["up"])
    return any(q["kind"] == "both" for q in c["pairs"]), sorted(tags) + ["odd d" if c["d2"] % 2 else "even d"]


def check_problem(c):
    p = gen.Problem(c)
    if not p.routes:
        return None
    s = sub.Sub(p)
    pairs = gen.drop_unreachable(p, s.reachable)
    opt = Optimizer(p.graph, p.demand, p.pax, p.net, p.f)
    width = next(iter(p.graph.get_nodes())).width
    walk = c["pax"]["pa"] / c["pax"]["pv"] / c["pax"]["va"]
    found = {}
    for o in opt.assignment:
        for d in opt.assignment[o]:
            found[o.graph_node.id, d.graph_node.id] = {ref.key(x): v for x, v in opt.assignment[o][d].items()}
    tags = set()
    for o, d, _ in pairs:
        labels = s.ref.reported(o, d, s.pax, s.labels(o, d))
        stops = [k for k in s.node if k[0] == "s" and k[2] == o and labels[k] < ref.INF]
        got = found.get((o, d), {})
        require(set(k for k in got if got[k]) <= set(stops), "stops {} of {}-{}", got, o, d)
        require(abs(sum(got.values()) - 100) <= 1e-6, "shares {} of {}-{}", got, o, d)
        if len(stops) == 1:
            require(got[stops[0]] == 100, "shares {} of {}-{} with only one stop", got, o, d)
            tags.add("one stop")
        else:
            ms = {k: s.ref.modes[k[1]] for k in stops}
            one = [k for k in stops if ms[k].d == 1][0]
            two = [k for k in stops if k != one][0]
            eps = 1e-7 * max(1.0, labels[one], labels[two])
            ends = [ref.share_first(labels[one], labels[two] + e, width, ms[two].d, walk) for e in (-eps, eps)]
            x = got.get(one, 0)
            require(min(ends) - 1e-3 <= x <= max(ends) + 1e-3, "share of {} in {}-{}: {}, expected {}", one, o, d, x,
                    ends)
            tags.add("tie" if abs(ends[0] - ends[1]) > 1e-2 else "all" if x in (0, 100) else "split")
    return bool(pairs), sorted(tags)


PARTS = [Part("synthetic", synthetic, check_synthetic, 9600, 150000),
         Part("problem", lambda: gen.problem(1, 3, two=True, max_families=2), check_problem, 1120, 16000)]
