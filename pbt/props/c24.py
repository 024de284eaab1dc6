"""C24: reports of a solution."""
import ast
import copy
import re

from hypothesis import strategies as st

from pbt import gen, ref, sub
from pbt.core import Part, raises, require, require_close
from pbt.props.c22 import _with, objective
from sidermit.exceptions import NoOptimalSolutionFoundException
from sidermit.optimization.optimizer import Optimizer

RULE = ("problems of 1 to 4 zones (now and then 5 to 7) with one or two modes, lines of every kind, other initial frequencies and a solution of "
        "any frequencies (zeros included); non-trivial: some line with frequency and somebody travels; distinct by case")
ASSUMPTIONS = ["there are trips and every pair with trips can be travelled with the frequencies of the solution",
               "strategies and shares of the code under test with the frequencies of the solution are taken as given "
               "(C13 to C16 decide them)", "relative tolerance 1e-8"]
REL = 1e-8


@st.composite
def case(draw):
    c = draw(gen.problem(1, draw(st.sampled_from([2, 3, 3, 4])), two=draw(st.sampled_from([None, True])),
                         max_families=draw(st.integers(1, 2))))
    if gen.city_n(c["city"]) >= 2 and draw(st.integers(0, 2)) == 0:
        c["lines"] = [x for x in c["lines"] if x["fam"] == "custom"] + \
            [dict(fam="circular", mode=0, short=False, express=False, jump=1, keep=draw(st.sampled_from([None, [0], [1]])))]
    if c["demand"]["kind"] == "param" and draw(st.booleans()):
        # fewer pairs, for speed
        c["demand"]["beta"], c["demand"]["alpha"] = 0, 1
    c["texts"] = draw(st.integers(0, 3)) == 0
    c["x"] = draw(gen.freq_values(8))
    c["res"] = draw(st.sampled_from([[True, 1, "`gtol` termination condition is satisfied.", 0.0, 12.5],
                                     [False, 2, "m", 1e-5, -3]]))
    return c


class Solution:
    """problem, solution and flows of reference"""

    def __init__(self, c):
        p = gen.Problem(c)
        self.ok = False
        if not p.routes:
            return
        self.p = p
        x = [c["x"][i % len(c["x"])] for i in range(len(p.routes))]
        self.x = x
        self.f = gen.freq_dict(p.routes, x)
        gen.drop_unreachable(p, sub.Sub(p).reachable)
        q = _with(p, self.f)
        q.demand, q.modes, q.net = p.demand, p.modes, p.net
        pairs = gen.drop_unreachable(q, sub.Sub(q).reachable)
        if sum(v for _, _, v in pairs) < 1e-6:
            # nobody, or what rounding leaves of a share of zero
            return
        self.ok = True
        self.pairs = pairs
        self.opt = Optimizer(p.graph, p.demand, p.pax, p.net, p.f)
        require(raises(self.opt.get_network_results, NoOptimalSolutionFoundException) and
                raises(self.opt.get_overall_results, NoOptimalSolutionFoundException), "reports without a solution")
        self.res = tuple([list(x)] + c["res"])
        self.opt.better_res = copy.deepcopy(self.res)
        c2 = dict(c)
        self.b = sub.Built(c2, Optimizer(p.graph, p.demand, p.pax, p.net, self.f), q)
        fl = self.b.flows(self.f)
        self.z = ref.per_vehicle(fl.board, self.f)
        self.v = ref.per_vehicle(fl.alight, self.f)
        self.load = ref.per_vehicle(fl.load, self.f)
        self.k = ref.max_load(fl.load, self.f)
        self.fl = fl
        self.cycle = {ln.id: ref.cycle_time(self.b.pos, ln, self.z, self.v) for ln in self.b.lines}


def section_loads(s, ln):
    """{direction: [(node i, node j, load as a fraction of the vehicle)]} from boardings and loads"""
    out = {"I": [], "R": []}
    k = s.k.get(ln.id, 0)
    for d, nodes, stops in ln.dirs:
        now = 0.0
        for a, b in zip(nodes, nodes[1:]):
            if a in stops:
                now = s.load.get((ln.id, d, a), 0.0)
            out[d].append((a, b, now / k if k > 0 else 0.0))
    return out


def check(c):
    s = Solution(c)
    if not s.ok:
        return None
    lines = {ln.id: ln for ln in s.b.lines}
    rows = s.opt.get_network_results()
    require([r[0] for r in rows] == [r.id for r in s.p.routes], "lines reported: {}", [r[0] for r in rows])
    for row in rows:
        rid, big, f, k, fleet, tc, co, low, ti, tr = row
        ln = lines[rid]
        m = ln.mode
        want = section_loads(s, ln) if s.f[rid] > 0 else section_loads_zero(ln)
        wf, wk = s.f[rid], s.k.get(rid, 0)
        board = sum(x for key, x in s.z.items() if key[0] == rid)
        if wf > 0:
            cyc = s.cycle[rid]
            wco = (m.co + m.c1 * wk) * wf * cyc / (board * wf) if board else 0
            values = (wf, wf / m.d, wk, wf * cyc, cyc * 60, wco, min(t[2] for d in want for t in want[d]))
        else:
            values = (0,) * 7
        names = ("frequency", "frequency per line of stops", "vehicle size", "fleet", "cycle time",
                 "operators cost per passenger", "least load")
        for name, x, y in zip(names, row[1:8], values):
            require_close(x, y, "{} of {}".format(name, rid), REL, 1e-8)
        for d, table in (("I", ti), ("R", tr)):
            require([t[:2] for t in table] == [t[:2] for t in want[d]], "sections of {} {}: {}, expected {}", rid, d, table,
                    want[d])
            for x, y in zip(table, want[d]):
                require_close(x[2], y[2], "load of {} {} from {} to {}".format(rid, d, x[0], x[1]), REL, 1e-8)
    overall(s, s.opt.get_overall_results())
    if c["texts"]:
        texts(s, rows)
    require(s.opt.better_res == s.res, "the solution was changed to {}", s.opt.better_res)
    used = [r for r in s.p.routes if s.f[r.id] > 0]
    tags = ["circular"] * any(gen.is_circular(r) and s.k.get(r.id) for r in used)
    tags += ["zero frequency"] * (len(used) < len(s.p.routes)) + ["empty line"] * any(not s.k.get(r.id) for r in used)
    tags += ["express"] * any(len(r.stops_sequence_i) < len(r.nodes_sequence_i) and s.k.get(r.id) for r in used
                              if not gen.is_circular(r))
    tags += ["two modes"] * (len({r.mode.name for r in used}) == 2)
    tags += ["texts"] * c["texts"]
    return bool(used), tags


def section_loads_zero(ln):
    out = {"I": [], "R": []}
    for d, nodes, stops in ln.dirs:
        out[d] = [(a, b, 0) for a, b in zip(nodes, nodes[1:])]
    return out


def overall(s, got):
    trips = sum(v for _, _, v in s.pairs)
    co, ci, cu = objective(s.b, s.f)
    ta, te, tv, tr = ref.users_resources(s.b.s.ref, s.fl, s.b.origin_access(), s.z, s.v)
    want = dict(VRC=co + ci + cu, operators_cost=co, infrastructure_cost=ci, users_cost=cu, travel_time_on_board=tv * 60,
                waiting_time=te * 60, access_time=ta * 60, transfers=tr)
    for k, v in want.items():
        require_close(got[k], v / trips, "overall " + k, REL, 1e-9)
    require_close(got["VRC"], s.b.opt.VRC(s.x) / trips, "overall cost and objective", REL, 1e-9)
    used = [ln for ln in s.b.lines if s.f[ln.id] > 0]
    for m in s.p.modes:
        mine = [ln for ln in used if ln.mode is m]
        b = sum(s.f[ln.id] * s.cycle[ln.id] for ln in mine)
        ks = [s.k.get(ln.id, 0) for ln in mine]
        require_close(got["vehicles_mode"].get(m, 0), b, "vehicles of " + m.name, REL)
        require_close(got["vehicle_capacity_mode"].get(m, 0), sum(ks) / len(ks) if ks else 0, "capacity of " + m.name,
                      REL)
        require(got["lines_mode"].get(m, 0) == m.d * len(mine), "lines of {}: {}", m.name, got["lines_mode"].get(m, 0))
    for k in ("vehicles_mode", "vehicle_capacity_mode", "lines_mode"):
        require(set(got[k]) <= set(s.p.modes), "modes of {}", k)


def rounded(text, value, what):
    require(re.fullmatch(r"-?\d+\.\d\d", text) is not None, "{} is printed as {!r}", what, text)
    require_close(float(text), value, what + " as printed", 1e-12, 0.005 + 1e-7 * max(1, abs(value)))


def texts(s, rows):
    text = s.opt.string_network_results()
    head, *body = text.split("\n")
    require(head.split(";") == ["route_id", "F[veh/hr]", "f[veh/hr-line]", "k[pax/veh]", "B[veh]", "tc[min]",
                                "CO[US$/hr-pax]", "load_min", "sub_table_i", "sub_table_r"], "header {}", head)
    require(len(body) == len(rows), "{} rows printed, expected {}", len(body), len(rows))
    for line, row in zip(body, rows):
        cells = line.split(";")
        require(len(cells) == 10 and cells[0] == row[0], "row {}", line)
        for name, x, y in zip(head.split(";")[1:8], cells[1:8], row[1:8]):
            rounded(x, y, "{} of {}".format(name, row[0]))
        for x, y in zip(cells[8:], row[8:]):
            require([tuple(t) for t in ast.literal_eval(x)] == [tuple(t) for t in y], "table {}, expected {}", x, y)
    path = gen.scratch_file(".csv")
    s.opt.write_file_network_results(path)
    with open(path, encoding="utf-8", newline="") as f:
        require(f.read() == text, "the file does not hold the text")
    o = s.opt.get_overall_results()
    text = s.opt.string_overall_results()
    labels = [("Objective function VRC [USD$/hr-pax]", o["VRC"]), ("Operators cost [USD$/hr-pax]", o["operators_cost"]),
              ("Infrastructure cost [USD$/hr-pax]", o["infrastructure_cost"]),
              ("Users cost [USD$/hr-pax]", o["users_cost"]),
              ("Time on board vehicle [min/pax]", o["travel_time_on_board"]),
              ("Waiting time [min/pax]", o["waiting_time"]), ("Access time [min/pax]", o["access_time"]),
              ("total travel time [min/pax]", o["travel_time_on_board"] + o["waiting_time"] + o["access_time"]),
              ("Transfers [transfers/pax]", o["transfers"])]
    general, *blocks = re.split(r"\n\s*Mode name: ", text)
    pairs = dict((a.strip(), b.strip()) for a, b in re.findall(r"^(.*?):(.*)$", general, re.M))
    for name, value in labels:
        require(name in pairs, "{} is not printed in {}", name, text)
        rounded(pairs[name], value, name)
    require(pairs.get("Transport mode information") == str(len(o["vehicles_mode"])), "modes printed: {}", pairs)
    want = {m.name: m for m in o["vehicles_mode"]}
    found = {}
    for block in blocks:
        name, *rest = block.split("\n")
        found[name] = dict((a.strip(), b.strip()) for a, b in re.findall(r"^(.*?):(.*)$", "\n".join(rest), re.M))
    require(set(found) == set(want) and len(blocks) == len(want), "modes printed {}, expected {}", list(found), list(want))
    for name, m in want.items():
        rounded(found[name]["B [veh]"], o["vehicles_mode"][m], "vehicles of " + name)
        rounded(found[name]["K [pax/veh]"], o["vehicle_capacity_mode"][m], "capacity of " + name)
        require(found[name]["L [lines]"] == str(o["lines_mode"][m]), "lines of {}: {}", name, found[name])


PARTS = [Part("reports", case, check, 1920, 40000)]
