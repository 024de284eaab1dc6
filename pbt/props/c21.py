"""C21: capacity and frequency constraints."""
from hypothesis import strategies as st

from pbt import gen, ref, sub
from pbt.core import Part, require, require_close
from pbt.gen import num
from sidermit.optimization import Constrains

RULE = ("networks of one or two modes over cities of 1 to 5 zones with any loads and frequencies (zeros included), and "
        "whole problems; non-trivial: some line with frequency; distinct by case")
ASSUMPTIONS = ["a line that travels a street twice (only circular lines of two zones and custom lines whose directions "
               "share a street) counts twice in it", "relative tolerance 1e-9"]


@st.composite
def synthetic(draw):
    c = draw(gen.problem(1, 5, demand=False, no_freq=False))
    c["load"] = draw(st.lists(num(0, 2000), min_size=1, max_size=6))
    return c


def expected_f(graph, lines, modes, f):
    out = []
    for e in graph.get_edges():
        for m in modes:
            total = sum(f[ln.id] / m.d for ln in lines if ln.mode is m for s in ref.streets(ln)
                        if s == (e.node1.id, e.node2.id))
            out.append(total - m.fmax / m.d)
    return out


def compare(got, want, what):
    require(len(got) == len(want), "{}: {} constraints, expected {}", what, len(got), len(want))
    for i, (x, y) in enumerate(zip(got, want)):
        require_close(x, y, "{}: constraint {}".format(what, i), 1e-9, 1e-7)


def check_synthetic(c):
    p = gen.Problem(c)
    lines = [ref.Line(r) for r in p.routes]
    load = gen.freq_dict(p.routes, c["load"])
    want = [load[r.id] - r.mode.kmax for r in p.routes]
    compare(Constrains.most_loaded_section_constrains(p.routes, load), want, "load")
    want = expected_f(p.graph, lines, p.net.get_modes(), p.f)
    compare(Constrains.fmax_constrains(p.graph, p.routes, p.net.get_modes(), p.f), want, "frequency")
    return any(p.f[r.id] > 0 for r in p.routes), ["two modes"] * (len(p.net.get_modes()) == 2) + \
        ["violated" if any(x > 0 for x in want) else "satisfied"]


@st.composite
def whole(draw):
    c = draw(gen.problem(1, 3, max_families=2))
    c["g"] = draw(gen.freq_values(8))
    return c


def check_problem(c):
    p = gen.Problem(c)
    if not p.routes:
        return None
    b = sub.Built(c)
    f = b.repaired(c["g"])
    x = [f[r.id] for r in b.p.routes]
    got = b.opt.get_constrains(x)
    size = ref.max_load(b.flows(f).load, f)
    want_k = [size.get(r.id, 0) - r.mode.kmax for r in b.p.routes]
    want_f = expected_f(b.p.graph, b.lines, b.p.net.get_modes(), f)
    compare(list(got), want_k + want_f, "problem")
    _, _, li = b.board_alight(f)
    k, q = b.opt.constrains(li, f)
    compare(list(k), want_k, "load of the problem")
    compare(list(q), want_f, "frequency of the problem")
    return bool(b.pairs), ["violated" if any(y > 0 for y in want_k + want_f) else "satisfied"]


PARTS = [Part("synthetic", synthetic, check_synthetic, 4800, 60000),
         Part("problem", whole, check_problem, 1200, 12000)]
