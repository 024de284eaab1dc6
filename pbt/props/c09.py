"""C09: predefined families of lines."""
from hypothesis import strategies as st

from pbt import gen
from pbt.core import Part, Violation, require, raises
from sidermit import exceptions as ex

RULE = ("cities of 0 to 11 zones, parametric or with any node ids, with every family, variant and admissible jump of "
        "two modes, plus rejected jumps and modes; non-trivial: at least one zone; distinct by case")
ASSUMPTIONS = ["the order of the lines within a family is not part of the property"]


@st.composite
def case(draw):
    n = draw(st.integers(0, 11))
    if draw(st.booleans()):
        # geometry does not matter here
        c = dict(kind="param", n=n, l=10, g=0.5, p=2, etha=None, etha_zone=None, angles=None, Gi=None, Hi=None)
    else:
        c = draw(gen.pajek_city(n, n))
    names = draw(st.sampled_from([["bus", "metro"], ["a", "a_1"], ["1", "1_1"], ["R", "S_R"], ["I_b", "b"],
                                  ["metro", "b us"]]))
    return dict(city=c, names=names, bad_jump=draw(st.one_of(st.integers(-12, 0), st.integers(n // 2 + 1, 30),
                                                             st.sampled_from([0.5, 1.5, 2.5, -1.5]))),
                bad_mode=draw(st.sampled_from([None, "bus", 3])))


def line(ni, nr, si, sr):
    return tuple(ni), tuple(nr), tuple(si), tuple(sr)


def both(nodes, stops):
    return line(nodes, nodes[::-1], stops, stops[::-1])


def expected(n, fam, short, express, jump):
    out = []
    zs = range(1, n + 1)
    if fam == "circular":
        a = ["S%d" % z for z in zs] + ["S1"]
        b = ["S%d" % z for z in reversed(zs)] + ["S%d" % n]
        return [line(a, [], a, []), line([], b, [], b)]
    if fam == "feeder":
        return [both(["P%d" % z, "S%d" % z], ["P%d" % z, "S%d" % z]) for z in zs]
    if fam == "radial":
        for z in zs:
            nodes = (["S%d" % z, "C"] if short else ["P%d" % z, "S%d" % z, "C"])
            out.append(both(nodes, [nodes[0], nodes[-1]] if express else nodes))
        return out
    half = n // 2 if 2 * jump == n else n
    for z in range(1, half + 1):
        z2 = (z + jump - 1) % n + 1
        if fam == "diametral":
            nodes = ["S%d" % z, "C", "S%d" % z2]
        else:
            nodes = ["S%d" % ((z + k - 1) % n + 1) for k in range(jump + 1)]
        if not short:
            nodes = ["P%d" % z] + nodes + ["P%d" % z2]
        out.append(both(nodes, [nodes[0], nodes[-1]] if express else nodes))
    return out


def variants(n):
    out = [("circular", False, False, 0)] if n >= 2 else []
    out += [("feeder", False, False, 0)]
    for s in (False, True):
        for e in (False, True):
            out.append(("radial", s, e, 0))
            for j in range(1, n // 2 + 1):
                out.append(("diametral", s, e, j))
                out.append(("tangencial", s, e, j))
    return out


def build(net, mode, fam, short, express, jump):
    if fam == "circular":
        return net.get_circular_routes(mode)
    if fam == "feeder":
        return net.get_feeder_routes(mode)
    if fam == "radial":
        return net.get_radial_routes(mode, short, express)
    fn = net.get_diametral_routes if fam == "diametral" else net.get_tangencial_routes
    return fn(mode, jump, short, express)


def check(c):
    graph = gen.build_city(c["city"])
    n = gen.city_n(c["city"])
    role = {x.id: gen.token(x) for x in graph.get_nodes()}
    ms = [gen.build_mode(dict(name=x, bya=0, co=1, c1=1, c2=1, v=20, t=1, fmax=10, kmax=10, theta=0.5, tat=1,
                              d=i + 1, fini=5)) for i, x in enumerate(c["names"])]
    net = gen.TransportNetwork(graph)
    seen, every = {}, []
    for m in ms:
        for fam, s, e, j in variants(n):
            rs = build(net, m, fam, s, e, j)
            what = "{} short={} express={} jump={} n={}".format(fam, s, e, j, n)
            for r in rs:
                require(r.mode is m, "{}: mode of line {}", what, r.id)
            try:
                got = sorted(line(*[[role[x] for x in q] for q in (r.nodes_sequence_i, r.nodes_sequence_r,
                                                                   r.stops_sequence_i, r.stops_sequence_r)])
                             for r in rs)
            except KeyError as x:
                raise Violation("{}: node {} is not of the city".format(what, x))
            want = sorted(expected(n, fam, s, e, j))
            require(got == want, "{}: lines {}, expected {}", what, got, want)
            require(len({r.id for r in rs}) == len(rs), "{}: repeated ids", what)
            # a short radial line has no stop to omit: its express variant is the same line
            if (fam, s, e) == ("radial", True, True):
                continue
            for r in rs:
                require(r.id not in seen, "{}: id {} is also of {}", what, r.id, seen.get(r.id))
                seen[r.id] = what
                every.append(r)
    for r in every:
        net.add_route(r)
    require([r.id for r in net.get_routes()] == [r.id for r in every], "lines of the network")
    for fn in (net.get_diametral_routes, net.get_tangencial_routes):
        raises(lambda: fn(ms[0], c["bad_jump"]), ex.JumpIsNotValidException)
        raises(lambda: fn(c["bad_mode"], 1), ex.ModeIsNotValidException)
    for fn in (net.get_feeder_routes, net.get_radial_routes):
        raises(lambda: fn(c["bad_mode"]), ex.ModeIsNotValidException)
    if n < 2:
        raises(lambda: net.get_circular_routes(ms[0]), ex.CircularRouteIsNotValidException)
    else:
        raises(lambda: net.get_circular_routes(c["bad_mode"]), ex.ModeIsNotValidException)
    return n > 0, ["n=%d" % n, c["city"]["kind"]]


PARTS = [Part("families", case, check, 3200, 48000)]
