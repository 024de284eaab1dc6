"""C26: printable summaries."""
import collections
import re

import numpy as np
from hypothesis import strategies as st
from scipy.optimize import OptimizeResult

from pbt import gen, ref, sub
from pbt.core import Part, close, require, require_close
from pbt.gen import num
from pbt.props.c22 import snapshot
from sidermit.optimization.optimizer import Optimizer
from sidermit.optimization.preoptimization import Assignment, Hyperpath

RULE = ("problems of 1 to 3 zones with one or two modes, with lines of every kind, any frequencies and OD matrix, and "
        "results of the optimizer; non-trivial: somebody travels; distinct by case")
ASSUMPTIONS = ["the summaries are read with the layout they have (one item per line); the order of the items is not "
               "judged, except in elementary paths",
               "printed numbers may differ from the value in half a unit of their last digit",
               "the names of the nodes of the city are distinct (the summaries identify nodes by name)"]


@st.composite
def case(draw):
    c = gen.distinct_names(draw(gen.problem(1, 3, two=draw(st.sampled_from([None, True])), max_families=2)))
    c["g"] = draw(gen.freq_values(8))
    c["zero"] = draw(st.lists(st.booleans(), min_size=1, max_size=4))
    c["res"] = [draw(num(0, 60)) for _ in range(4)]
    c["fun"], c["cv"], c["status"] = draw(num(-10, 1e5)), draw(num(0, 1e-3, digits=6)), draw(st.sampled_from([1, 2]))
    return c


def shown(text, value, digits, what):
    if value in (float("inf"), float("-inf")):
        require(text == str(value), "{}: printed {!r}, expected {!r}", what, text, value)
        return
    require(re.fullmatch(r"-?\d+(\.\d+)?(e[-+]\d+)?", text) is not None, "{}: printed {!r}, expected {!r}", what, text,
            value)
    if digits is not None:
        require("." in text and len(text.split(".")[1]) == digits, "{}: printed {!r} with other digits than {}", what,
                text, digits)
    tol = 0.5 * 10 ** -digits if digits is not None else 0
    require(abs(float(text) - value) <= tol * (1 + 1e-6) + 1e-9 * max(1, abs(value)), "{}: printed {!r}, expected {!r}",
            what, text, value)


def items(text):
    return [x.strip() for x in text.split("\n") if x.strip()]


# ------------------------------------------------------------------ extended graph

def parse_graph(text):
    """[city, [(mode, access, [(line, direction, frequency, penalty, previous, time)])]]"""
    cities, freq, pen = [], None, None
    it = iter(items(text))
    access = None

    def field(name, line=None):
        line = next(it) if line is None else line
        require(line.startswith(name), "found {!r} instead of {!r}", line, name)
        return line[len(name):].strip()

    for line in it:
        if line == "City node":
            cities.append([field("-Graph node name:"), []])
        elif line == "Access edge":
            require(access is None, "two access times in a row")
            access = field("-Access time:").split(" [min]")[0]
        elif line == "Stop node":
            cities[-1][1].append((field("-Mode name:"), access, []))
            access = None
        elif line == "Boarding edge":
            require(freq is None, "two frequencies in a row")
            freq = field("-Frequency:").split(" [veh/h]")[0]
        elif line == "Alighting edge":
            require(pen is None, "two penalties in a row")
            pen = field("-Penalty transfer:").split(" [min]")[0]
        elif line == "Route node":
            row = [field("-Route_id:"), field("-Direction:"), freq, pen, field("-Previous stop:"),
                   field("-Time to previous stop:").split(" [hrs]")[0]]
            cities[-1][1][-1][2].append(row)
            freq = pen = None
        else:
            require(False, "unknown item {!r}", line)
    require(access is None and freq is None and pen is None, "items without node at the end")
    return cities


def check_graph(b):
    net = b.s.ref
    name = {n.id: n.name for n in b.p.graph.get_nodes()}
    cities = parse_graph(str(b.opt.extended_graph_obj))
    served = [name[k[1]] for k in net.nodes if k[0] == "c"]
    require(sorted(x[0] for x in cities) == sorted(served), "nodes {}, expected {}", [x[0] for x in cities], served)
    ident = {v: k for k, v in name.items()}
    prev = {}
    for (a, c), t in net.ride.items():
        prev[c] = (a, t)
    for city, stops in cities:
        i = ident[city]
        want = {k[1] for k in net.nodes if k[0] == "s" and k[2] == i}
        require(sorted(x[0] for x in stops) == sorted(want), "stops of {}: {}, expected {}", city, [x[0] for x in stops],
                want)
        for mode, access, routes in stops:
            require(access is not None, "stop {} of {} without access time", mode, city)
            shown(access, net.access[("c", i), ("s", mode, i)] * 60, 2, "access time [min] of {} in {}".format(mode, city))
            keys = [("r", r[0], r[1], i) for r in routes]
            want = {k for k in net.nodes if k[0] == "r" and k[3] == i and net.line[k[1]].mode.name == mode}
            require(sorted(keys) == sorted(want), "lines of {} in {}: {}, expected {}", mode, city, keys, want)
            for k, (_, _, freq, pen, before, time) in zip(keys, routes):
                s = ("s", mode, i)
                for text, arc, table, scale, what in ((freq, (s, k), net.board, 1, "frequency"),
                                                      (pen, (k, s), net.alight, 60, "penalty [min]")):
                    require((text is not None) == (arc in table), "{} of {}: {}", what, k, text)
                    if text is not None:
                        shown(text, table[arc] * scale, 2, "{} of {}".format(what, k))
                first = before == "no data"
                if k in prev and not (first and net.line[k[1]].circular):
                    require(before == name[prev[k][0][3]], "previous stop of {}: {}", k, before)
                    shown(time, prev[k][1], None, "time from the previous stop of {}".format(k))
                else:
                    require(first, "previous stop of {}: {}", k, before)
                    shown(time, 0, 2, "time from the previous stop of {}".format(k))


# ------------------------------------------------------------------ strategies

def node_text(k, name):
    if k[0] == "c":
        return "Citynode: {}".format(name[k[1]])
    if k[0] == "s":
        return "Stopnode {}: {}".format(k[1], name[k[2]])
    return "Routenode {} {}: {}".format(k[1], k[2], name[k[3]])


def check_strategy(b, o, d, name):
    opt = b.opt
    suc, lab, freq = opt.successors[o][d], opt.labels[o][d], opt.frequency[o][d]
    numbers = {ref.key(n): (lab[n], freq[n]) for n in lab}
    text = Hyperpath.string_hyperpath_graph(suc, lab, freq)
    lines = items(text)
    require(lines[0] == "HyperPath Graph", "title {!r}", lines[0])
    blocks = []
    for x in lines[1:]:
        if x in ("City_node", "Stop_node", "Route_node"):
            blocks.append([x])
        else:
            blocks[-1].append(x)
    ident = {v: k for k, v in name.items()}
    seen = []
    for kind, *fields in blocks:
        v = dict(x[1:].split(":", 1) for x in fields)
        v = {a: y.strip() for a, y in v.items()}
        i = ident[v["Graph_node_name"]]
        k = ("c", i) if kind == "City_node" else ("s", v["Mode_name"], i) if kind == "Stop_node" else \
            ("r", v["route_id"], v["direction"], i)
        seen.append(k)
        require(k in numbers, "node {} is not in the strategy", k)
        shown(v["label"], numbers[k][0], 2, "label of {}".format(k))
        shown(v["Frequencies"], numbers[k][1], 2, "frequency of {}".format(k))
        want = sorted("[ExtendedEdgesType.{}: {} - {}]".format(
            {"c": "ACCESS", "s": "BOARDING" if y[0] == "r" else "ACCESS", "r": "ALIGHTING" if y[0] == "s" else "ROUTE"}
            [k[0]], node_text(k, name), node_text(y, name)) for y in b.succ[o.graph_node.id, d.graph_node.id].get(k, []))
        got = sorted(re.findall(r"\[ExtendedEdgesType.*?\](?= \[|$)", v["Successor"]))
        require(got == want, "successors of {}: {}, expected {}", k, got, want)
    require(sorted(seen) == sorted(numbers), "nodes of the strategy: {}, expected {}", sorted(seen), sorted(numbers))


def path_text(n, name):
    k = ref.key(n)
    return {"c": "City_node {}", "s": "Stop_node {} - {}", "r": "Route_node {} {} - {}"}[k[0]].format(
        *k[1:-1], name[k[-1]])


def check_paths(b, o, d, name):
    paths, lab = b.opt.hyperpaths[o][d], b.opt.labels[o][d]
    got, now = [], None
    for x in items(Hyperpath.string_hyperpaths_OD(paths, lab)):
        if x.endswith(" stop"):
            now = x[:-5]
        elif x == "New Path:":
            got.append((now, []))
        else:
            m = re.fullmatch(r"\[(.*): (\S+)\]", x)
            require(m is not None, "unknown item {!r}", x)
            got[-1][1].append(m.groups())
    want = [(s.mode.name, p) for s in paths for p in paths[s]]
    require(len(got) == len(want), "{} paths printed, expected {}", len(got), len(want))
    left = list(want)
    for mode, nodes in got:
        hit = [i for i, (m, p) in enumerate(left) if m == mode and [path_text(n, name) for n in p] == [x[0] for x in nodes]]
        require(hit, "path of {} that is not in the strategy: {}", mode, nodes)
        for n, x in zip(left.pop(hit[0])[1], nodes):
            shown(x[1], lab[n], 4, "label of {}".format(x[0]))


def check_all(b, name, zero):
    o_ = b.opt
    # the trips are data of the summary: any matrix with those strategies, some of its cells zero
    k = 0
    trips = collections.defaultdict(lambda: collections.defaultdict(float))
    for o in o_.Vij:
        for d in o_.Vij[o]:
            trips[o][d] = 0.0 if zero[k % len(zero)] else o_.Vij[o][d]
            k += 1
    old = repr([[(ref.key(o), ref.key(d), trips[o][d]) for d in trips[o]] for o in trips])
    text = Hyperpath.string_all_hyperpaths(o_.hyperpaths, o_.labels, o_.successors, trips)
    require(old == repr([[(ref.key(o), ref.key(d), trips[o][d]) for d in trips[o]] for o in trips]),
            "the trips were changed")
    lines = items(text)
    want = collections.Counter()
    values = {}
    for o in o_.hyperpaths:
        for d in o_.hyperpaths[o]:
            for s in o_.hyperpaths[o][d]:
                k = (o.graph_node.name, d.graph_node.name, s.mode.name)
                want[k] += 1
                values[k] = (trips[o][d], o_.labels[o][d][s], len(o_.hyperpaths[o][d][s]), len(o_.successors[o][d][s]))
    got = collections.Counter()
    require(len(lines) % 2 == 0, "lines {}", lines)
    for a, c in zip(lines[::2], lines[1::2]):
        x = re.fullmatch(r"origin: (.*), destination: (.*), vij: (\S+)", a)
        y = re.fullmatch(r"mode: (.*), label: (\S+) \[EIV\], n° elemental paths: (\d+), "
                         r"n° elemental paths \(successors\): (\d+)", c)
        require(x is not None and y is not None, "unknown items {!r} {!r}", a, c)
        k = (x[1], x[2], y[1])
        got[k] += 1
        require(k in values, "pair {} has no strategy", k)
        shown(x[3], values[k][0], 2, "trips of {}".format(k))
        shown(y[2], values[k][1], 2, "label of {}".format(k))
        require((int(y[3]), int(y[4])) == values[k][2:], "paths of {}: {}, expected {}", k, y.groups(), values[k])
    require(got == want, "pairs {}, expected {}", got, want)


# ------------------------------------------------------------------ passengers and results

def check_board(zi, vi, z, v, name):
    ident = {x: k for k, x in name.items()}
    text = Assignment.str_boarding_alighting(zi, vi)
    lines = items(text)
    require(lines[0] == "Boarding and Alighting information:", "title {!r}", lines[0])
    got = {"Boarding:": [], "Alighting:": []}
    rid = table = direction = None
    routes = []
    for x in lines[1:]:
        if x.startswith("New route: "):
            rid, table, direction = x[11:], None, None
            routes.append(rid)
        elif x in got:
            table, direction = x, None
        elif x.startswith("Direction: "):
            direction = x[11:]
        else:
            m = re.fullmatch(r"Stop (.*): (\S+)\[pax/veh\]", x)
            require(m is not None and direction is not None, "unknown item {!r}", x)
            stop = [i for i in ident if m[1].endswith("-" + i)]
            stop = max(stop, key=len)
            got[table].append(((rid, direction, ident[stop]), m[2]))
    require(len(set(routes)) == len(routes), "lines printed {}", routes)
    for key, want in (("Boarding:", z), ("Alighting:", v)):
        keys = [k for k, _ in got[key]]
        require(len(keys) == len(set(keys)), "{} repeated in {}", key, keys)
        require(set(want) <= set(keys), "{} {} is not printed", key, set(want) - set(keys))
        for k, t in got[key]:
            shown(t, want.get(k, 0), 2, "{} of {}".format(key, k))


def check_results(b, c):
    opt = b.opt
    x = [c["res"][i % len(c["res"])] for i in range(len(b.p.routes))]
    res = (x, True, c["status"], "the message", c["cv"], c["fun"])
    lines = items(opt.string_network_optimization(res))
    pos = lines.index("Frequency information [veh/hr]:")
    v = dict(y.split(": ", 1) for y in lines[:pos] if ": " in y)
    require(v["Success"] == "True" and v["Status"] == str(c["status"]) and v["Message"] == "the message" and
            close(float(v["Max constrain violation"]), c["cv"]) and close(float(v["VRC"]), c["fun"]), "results {}", v)
    got = [y.rsplit(": ", 1) for y in lines[pos + 1:]]
    require([y[0] for y in got] == [r.id for r in b.p.routes], "lines of the results: {}", got)
    for (rid, t), y in zip(got, x):
        shown(t, y, 2, "frequency of " + rid)
    r = OptimizeResult(x=np.array(x), success=True, status=c["status"], message="the message", constr_violation=c["cv"],
                       fun=c["fun"])
    text = Optimizer.string_information_internal_optimization(r)
    v = dict(y.split(": ", 1) for y in re.split(r"\n\t", text) if ": " in y)
    require(v["Success"] == "True" and v["Status"] == str(c["status"]) and v["Message"] == "the message" and
            close(float(v["Constrain violation"]), c["cv"]) and close(float(v["VRC"]), c["fun"]), "results {}", v)
    for t, y in zip(v["new_f"].strip("[]").split(), x):
        require_close(float(t), y, "frequency of the solver", 1e-6, 1e-6)


def check(c):
    p = gen.Problem(c)
    if not p.routes:
        return None
    b = sub.Built(c)
    name = {n.id: n.name for n in b.p.graph.get_nodes()}
    before = snapshot(b.p)
    f = b.repaired(c["g"])
    zi, vi, _ = b.board_alight(f)
    z, v = sub.flat(zi), sub.flat(vi)

    def state():
        o = b.opt
        return repr([[(ref.key(o_), ref.key(d), sorted((ref.key(n), len(x)) for n, x in o.successors[o_][d].items() if x),
                       sorted((ref.key(n), x) for n, x in o.labels[o_][d].items()),
                       sorted((ref.key(s), len(x)) for s, x in o.hyperpaths[o_][d].items()), o.Vij[o_][d])
                      for d in o.hyperpaths[o_]] for o_ in o.hyperpaths])

    old = state()
    check_graph(b)
    check_all(b, name, c["zero"])
    check_all(b, name, [False])
    for o in list(b.opt.hyperpaths)[:3]:
        for d in list(b.opt.hyperpaths[o])[:2]:
            check_strategy(b, o, d, name)
            check_paths(b, o, d, name)
    check_board(zi, vi, z, v, name)
    # tables with directions in which nobody boards or nobody alights
    part = [collections.defaultdict(lambda: collections.defaultdict(lambda: collections.defaultdict(float))) for _ in "zv"]
    for i, (new, table) in enumerate(zip(part, (zi, vi))):
        for j, rid in enumerate(table):
            new[rid] = collections.defaultdict(lambda: collections.defaultdict(float))
            for k, direction in enumerate(table[rid]):
                if c["res"][(i + 2 * j + k) % len(c["res"])] >= 1:
                    new[rid][direction].update(table[rid][direction])
    for rid in part[1]:
        part[0][rid]
    check_board(part[0], part[1], sub.flat(part[0]), sub.flat(part[1]), name)
    check_results(b, c)
    require(state() == old, "the strategies were changed")
    require(sub.flat(zi) == z and sub.flat(vi) == v, "boardings or alightings were changed")
    after = snapshot(b.p)
    for k in before:
        require(before[k] == after[k], "{} was changed", k)
    tags = ["circular"] * any(ln.circular for ln in b.lines) + ["both stops"] * any(len(x) == 2 for x in b.share.values())
    tags += ["several paths"] * any(len(x) > 1 for o in b.opt.hyperpaths for d in b.opt.hyperpaths[o]
                                    for x in b.opt.hyperpaths[o][d].values())
    return bool(b.pairs), tags


PARTS = [Part("summaries", case, check, 2560, 40000)]
