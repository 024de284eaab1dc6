"""C19: times of lines and operators cost."""
import collections

from hypothesis import strategies as st

from pbt import gen, ref, sub
from pbt.core import Part, require, require_close
from pbt.gen import num
from sidermit.optimization import OperatorsCost

RULE = ("lines of one or two modes over cities of 1 to 5 zones with any boardings and alightings per vehicle at any of "
        "their stops, vehicle sizes and frequencies (zeros included), and whole problems; non-trivial: some line with "
        "frequency; distinct by case")
ASSUMPTIONS = ["relative tolerance 1e-9"]


@st.composite
def synthetic(draw):
    c = draw(gen.problem(1, 5, demand=False, no_freq=False))
    v = st.one_of(st.just(0), st.none(), num(0, 50))
    c["z"] = draw(st.lists(v, min_size=1, max_size=9))
    c["v"] = draw(st.lists(v, min_size=1, max_size=7))
    c["k"] = draw(st.lists(num(0, 200), min_size=1, max_size=5))
    return c


def tables(s, values):
    """values at stops, by position; None leaves the stop out"""
    t = collections.defaultdict(lambda: collections.defaultdict(lambda: collections.defaultdict(float)))
    i = 0
    for ln in s.ref.lines:
        for d, nodes, stops in ln.dirs:
            for x in dict.fromkeys(stops):
                if values[i % len(values)] is not None:
                    t[ln.id][d][s.node["s", ln.mode.name, x]] = values[i % len(values)]
                i += 1
    return t


def judge(p, net, zi, vi, f, k):
    z, v = sub.flat(zi), sub.flat(vi)
    run = OperatorsCost.lines_travel_time(p.routes, p.graph.get_edges_distance())
    cyc = OperatorsCost.get_cycle_time(zi, vi, p.routes, run)
    want_cyc = {}
    for ln in net.lines:
        require_close(run[ln.id], ref.running_time(net.pos, ln), "running time of {}".format(ln.id), abs_=1e-12)
        want_cyc[ln.id] = ref.cycle_time(net.pos, ln, z, v)
        require_close(cyc[ln.id], want_cyc[ln.id], "cycle time of {}".format(ln.id), abs_=1e-12)
    cost = OperatorsCost.get_operators_cost(p.routes, cyc, f, k)
    require_close(cost, ref.operators_cost(net, f, k, want_cyc), "operators cost")
    require(sub.flat(zi) == z and sub.flat(vi) == v, "boardings or alightings were changed")
    return cost


def check_synthetic(c):
    p = gen.Problem(c)
    s = sub.Sub(p)
    k = gen.freq_dict(p.routes, c["k"])
    f = gen.freq_dict(p.routes, c["f"])
    judge(p, s.ref, tables(s, c["z"]), tables(s, c["v"]), f, k)
    tags = sorted({"simultaneous" if r.mode.bya else "sequential" for r in p.routes if f[r.id]})
    tags += ["circular"] * any(gen.is_circular(r) for r in p.routes)
    tags += ["zero frequency"] * any(f[r.id] == 0 for r in p.routes)
    return any(f[r.id] > 0 for r in p.routes), tags


def check_problem(c):
    p = gen.Problem(c)
    if not p.routes:
        return None
    b = sub.Built(c)
    f = b.repaired(c["f"] if c["f"] is not None else [b.s.f[r.id] for r in b.p.routes])
    zi, vi, li = b.board_alight(f)
    k = b.opt.get_k(li)
    want = ref.max_load(b.flows(f).load, f)
    for r in b.p.routes:
        require_close(k[r.id], want.get(r.id, 0), "vehicle size of {}".format(r.id))
    cost = judge(b.p, b.s.ref, zi, vi, f, k)
    require_close(b.opt.operators_cost(zi, vi, f, k), cost, "operators cost of the problem")
    return bool(b.pairs), []


PARTS = [Part("synthetic", synthetic, check_synthetic, 4000, 60000),
         Part("problem", lambda: gen.problem(1, 3, max_families=2), check_problem, 960, 12000)]
