"""C15: verdict of the network validation against reachability in the reference network."""
import collections

from hypothesis import strategies as st

from pbt import gen, ref, sub
from pbt.core import Part, require
from sidermit.exceptions import TransportNetworkException
from sidermit.optimization.optimizer import Optimizer

RULE = ("lists of lines of 0 to 3 modes with any d over cities of 1 to 4 zones, frequencies given (zeros included) or "
        "not, and OD matrices of 0 to 6 cells or parametric; non-trivial: at least one line and one pair with trips; "
        "distinct by case")
ASSUMPTIONS = ["two different modes have different names",
               "d is at least 1",
               "cases whose verdict depends on counting or not a mode all of whose lines have zero frequency are not "
               "judged"]


@st.composite
def case(draw):
    c = draw(gen.city(1, 4))
    n = gen.city_n(c)
    k = draw(st.sampled_from([1, 1, 2, 2, 2, 3, 3]))
    ms = [draw(gen.mode_spec(name)) for name in ["bus", "metro", "tram"][:k]]
    if draw(st.integers(0, 3)) > 0:
        ms[draw(st.integers(0, k - 1))]["d"] = 1
    if draw(st.integers(0, 5)) == 0:
        draw(st.sampled_from(ms))["fini"] = 0
    case = dict(city=c, modes=ms, pax=draw(gen.passenger()), f=draw(st.one_of(st.none(), gen.freq_values(8))),
                lines=draw(gen.lines(n, k, 3, 3) if draw(st.booleans()) else gen.lines(n, k, 1, 4)))
    if draw(st.integers(0, 19)) == 19:
        case["lines"] = []
    if case["f"] is not None and draw(st.integers(0, 2)) == 0:
        # some lines without service
        case["f"] = [x if draw(st.integers(0, 3)) else 0.0 for x in case["f"]]
    case["demand"] = draw(gen.demand_spec(n, any_pair=draw(st.integers(0, 9)) == 0))
    # usually keep only what can be travelled so that both verdicts are frequent
    case["trim"] = draw(st.sampled_from(["all", "all", "one", "none"]))
    case["extra"] = draw(st.lists(st.integers(0, 10 ** 6), min_size=1, max_size=4))
    return case


def verdict(fn):
    try:
        r = fn()
    except TransportNetworkException:
        return False
    require(r is not False, "the validation returned {!r}", r)
    return True


def check(c):
    graph = gen.build_city(c["city"])
    ms = [gen.build_mode(m) for m in c["modes"]]
    net = gen.TransportNetwork(graph)
    routes = gen.build_routes(net, graph, ms, c["lines"])
    f = gen.freq_dict(routes, c["f"])
    eff = gen.effective_f(routes, f)
    pax = gen.build_passenger(c["pax"])
    dem = gen.build_demand(graph, c["demand"])
    net_ref = ref.Net(graph, routes, eff, pax.pt)
    memo = {}

    def reach(o, d):
        if (o, d) not in memo:
            memo[o, d] = net_ref.reachable(o, d, c["pax"])
        return memo[o, d]

    pairs = gen.od_pairs(dem)
    bad = [(o, d) for o, d, v in pairs if not reach(o, d)]
    if c["trim"] != "none" and bad:
        keep = bad[c["extra"][0] % len(bad)] if c["trim"] == "one" else None
        for o, d in bad:
            if (o, d) != keep:
                dem.change_vij(o, d, 0)
        bad = [keep] if keep else []
    pairs = gen.od_pairs(dem)
    used = [m for m in ms if any(r.mode is m for r in routes)]
    served = [m for m in used if any(r.mode is m and eff[r.id] > 0 for r in routes)]

    def fine(x):
        return len(x) == 1 or (len(x) == 2 and any(m.d == 1 for m in x))

    if fine(used) != fine(served) and not bad:
        return None
    want = not bad and fine(used)
    m = dem.get_matrix()
    before = {o: dict(m[o]) for o in m}

    def hyper(rs):
        return sub.Hyperpath(sub.ExtendedGraph(graph, rs, pax.pt, f), pax)

    h = hyper(routes)
    for k in range(2):
        got = verdict(lambda: h.network_validator(m))
        require(got == want, "validation {}: {}, expected {} (without way: {}, modes {})", k + 1, got, want, bad,
                [x.name for x in used])
    got = verdict(lambda: h.get_all_hyperpaths(m))
    require(got == want, "all strategies: {}, expected {}", got, want)
    require(verdict(lambda: h.network_validator(m)) == want, "validation after the strategies, expected {}", want)
    require({o: dict(m[o]) for o in m} == before, "the OD matrix was changed")
    # other matrices with the same validator
    if pairs:
        empty = collections.defaultdict(lambda: collections.defaultdict(float))
        require(verdict(lambda: h.network_validator(empty)) == fine(used), "validation without trips")
        require(verdict(lambda: h.network_validator(m)) == want, "validation after that of another matrix")
    x = c["extra"][-1]
    other = routes[::-1] if x % 2 else routes[x % max(len(routes), 1):] + routes[:x % max(len(routes), 1)]
    rev = collections.defaultdict(lambda: collections.defaultdict(float))
    for o, d, v in pairs[::-1]:
        rev[o][d] = v
    require(verdict(lambda: hyper(other).network_validator(rev)) == want, "validation in other order, expected {}", want)
    try:
        for r in routes:
            net.add_route(r)
    except Exception:  # noqa: C10 decides which modes a network takes
        net = None
    if net is not None:
        for k in range(2):
            got = verdict(lambda: Optimizer(graph, dem, pax, net, f))
            require(got == want, "problem {}: {}, expected {} (without way: {})", k + 1, got, want, bad)
    return bool(routes and pairs), ["valid" if want else "no way" if bad else "modes",
                                    "modes=%d" % len(used)] + ["problem built"] * (net is not None)


PARTS = [Part("verdict", case, check, 1200, 40000)]
