"""C18: resources and cost of users."""
import collections

from hypothesis import strategies as st

from pbt import gen, ref, sub
from pbt.core import Part, require, require_close
from pbt.gen import num
from pbt.props import c17
from sidermit.optimization import UsersCost

RULE = ("problems of C17 with the boardings and alightings per vehicle of their flows or any other; non-trivial: "
        "somebody travels; distinct by case")
ASSUMPTIONS = c17.ASSUMPTIONS + ["the lateral access time at the origin is share * width / (4 * walking speed * d)"]


@st.composite
def case(draw):
    c = draw(c17.case())
    c["dwell"] = draw(st.one_of(st.none(), st.lists(num(0, 40), min_size=1, max_size=7)))
    c["factor"] = draw(st.sampled_from([2, 0.5, 3.7, 1e-3]))
    return c


def synthetic(b, values, shift):
    t = collections.defaultdict(lambda: collections.defaultdict(lambda: collections.defaultdict(float)))
    i = shift
    for ln in b.lines:
        for d, nodes, stops in ln.dirs:
            for s in dict.fromkeys(stops):
                t[ln.id][d][b.s.node["s", ln.mode.name, s]] = values[i % len(values)]
                i += 1
    return t


def check(c):
    p = gen.Problem(c)
    if not p.routes:
        return None
    b = sub.Built(c)
    if c["split"] is not None:
        b.split(c["split"])
    f = b.repaired(c["g"] if c["g"] is not None else [b.s.f[r.id] for r in b.p.routes])
    if c["dwell"] is None:
        zi, vi, _ = b.board_alight(f)
    else:
        zi, vi = synthetic(b, c["dwell"], 0), synthetic(b, c["dwell"], 3)
    z, v = sub.flat(zi), sub.flat(vi)
    fl = b.flows(f)
    want = ref.users_resources(b.s.ref, fl, b.origin_access(), z, v)
    o, pax = b.opt, c["pax"]
    got = UsersCost.resources_consumer(o.hyperpaths, o.Vij, o.assignment, o.successors, o.extended_graph_obj, pax["va"],
                                       f, zi, vi)
    names = ["access time", "waiting time", "time on board", "transfers"]
    for name, x, y in zip(names, got, want):
        require_close(x, y, name, 1e-8, 1e-9)
    cost = UsersCost().get_users_cost(o.hyperpaths, o.Vij, o.assignment, o.successors, o.extended_graph_obj, f,
                                      b.p.pax, zi, vi)
    ta, te, tv, tr = want
    require_close(cost, ta * pax["spa"] + te * pax["spw"] + tv * pax["spv"] + tr * pax["spt"] / 60 * pax["spv"],
                  "users cost", 1e-8, 1e-9)
    k = c["factor"]
    more = collections.defaultdict(lambda: collections.defaultdict(float))
    for a in o.Vij:
        for d in o.Vij[a]:
            more[a][d] = o.Vij[a][d] * k
    got2 = UsersCost.resources_consumer(o.hyperpaths, more, o.assignment, o.successors, o.extended_graph_obj, pax["va"],
                                        f, zi, vi)
    for name, x, y in zip(names, got, got2):
        require_close(y, x * k, "{} with {} times the trips".format(name, k), 1e-8, 1e-9)
    require(sub.flat(zi) == z and sub.flat(vi) == v, "boardings or alightings were changed")
    tags = ["transfers"] * (tr > 0) + ["both stops"] * any(len(x) == 2 for x in b.share.values())
    tags += ["stays on board"] * any(a[1] is not None and a[1][0] == "r" and a[2][0] == "r" and a[3][0] == "r"
                                     for a in fl.arcs)
    tags += ["changes mode"] * any(a[2][0] == "c" for a in fl.arcs)
    tags += sorted({"simultaneous" if b.s.ref.line[a[2][1]].mode.bya else "sequential" for a in fl.arcs
                    if a[2][0] == "r"})
    return bool(fl.board), tags


PARTS = [Part("resources", case, check, 2400, 48000)]
