"""C25: plots."""
import matplotlib.collections
import matplotlib.figure
import matplotlib.image
import matplotlib.pyplot as plt
import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref, sub
from pbt.core import Part, raises, require
from pbt.gen import num
from pbt.props.c22 import snapshot
from sidermit.exceptions import RouteIdNotFoundException
from sidermit.optimization.preoptimization import Hyperpath

RULE = ("histories of 2 to 4 plots of cities and networks (all the lines, some of them, one direction, unknown lines) of "
        "one or two problems, and plots restricted to lines or to a direction of networks that only differ in the rest; "
        "non-trivial: some plot of a network with lines; distinct by case")
ASSUMPTIONS = ["images are compared pixel by pixel; the content of an image is judged by the presence of the colour of "
               "each kind of node and line, in cities whose nodes are apart and not in "
               "a line (the axes of a city in a line have no height, nothing is seen in them)",
               "the names of the nodes are distinct where a plot identifies nodes by name (elementary paths)"]
COLOURS = dict(periphery="red", subcenter="blue", cbd="purple", stop="yellow", street="orange", outward="lime",
               inward="aqua")


def picture(fn):
    path = gen.scratch_file(".png")
    fn(path)
    return np.round(matplotlib.image.imread(path) * 255).astype(int)[:, :, :3]


def equal(a, b):
    return a.shape == b.shape and bool((a == b).all())


def count(img, name):
    return int((img == np.array(rgb(name))).all(axis=2).sum())


@st.composite
def plot_op(draw):
    return dict(what=draw(st.sampled_from(["city", "network", "network", "network", "unknown"])),
                routes=draw(st.one_of(st.none(), st.lists(st.integers(0, 9), max_size=3, unique=True))),
                direction=draw(st.sampled_from([None, None, "I", "R"])), other=draw(st.integers(0, 1)))


@st.composite
def history(draw):
    return dict(first=draw(gen.problem(1, 4, two=False, max_families=2, max_custom=2, no_freq=False)),
                second=draw(gen.problem(1, 3, two=False, max_families=1, max_custom=1, no_freq=False)),
                ops=draw(st.lists(plot_op(), min_size=2, max_size=4)))


def ids(p, op):
    if op["routes"] is None:
        return None
    n = len(p.routes)
    return [p.routes[i].id for i in sorted({k % n for k in op["routes"]})] if n else []


def draw_plot(p, op, path):
    if op["what"] == "city":
        p.graph.plot(path)
    elif op["routes"] is None and op["direction"] is None:
        p.net.plot(path)
    else:
        p.net.plot(path, ids(p, op), op["direction"])


def check_history(c):
    ps = [gen.Problem(c["first"]), gen.Problem(c["second"])]
    before = [snapshot(p) for p in ps]
    known, used = {}, False
    for op in c["ops"]:
        p = ps[op["other"]]
        if op["what"] == "unknown":
            wanted = (ids(p, op) or []) + ["no such line"]
            raises(lambda: p.net.plot(gen.scratch_file(".png"), wanted, op["direction"]), RouteIdNotFoundException)
            continue
        used = used or (op["what"] == "network" and bool(p.routes))
        img = picture(lambda path: draw_plot(p, op, path))
        k = repr(sorted(op.items()))
        if k not in known:
            # alone, in a clean figure and with the same objects built again
            plt.close("all")
            q = gen.Problem(c["second"] if op["other"] else c["first"])
            known[k] = picture(lambda path: draw_plot(q, op, path))
        require(equal(img, known[k]), "the {} plotted (lines {}, direction {}) depends on previous plots", op["what"],
                ids(p, op), op["direction"])
    for p, old in zip(ps, before):
        new = snapshot(p)
        for k in old:
            require(old[k] == new[k], "{} was changed: {}, now {}", k, old[k], new[k])
    plt.close("all")
    return used, sorted({op["what"] for op in c["ops"]})


@st.composite
def restricted(draw):
    n = draw(st.integers(2, 4))
    c = draw(gen.problem(n, n, two=False, max_families=2, max_custom=2, demand=False, no_freq=False))
    # nodes are apart
    c["city"] = dict(kind="param", n=n, l=draw(num(8, 12)), g=draw(num(0.8, 1.2)), p=2, etha=None, etha_zone=None,
                     angles=[0, draw(st.sampled_from([90, 100, 120]))] if n == 2 else None, Gi=None, Hi=None)
    c["routes"] = draw(st.lists(st.integers(0, 9), min_size=1, max_size=3, unique=True))
    c["direction"] = draw(st.sampled_from([None, "I", "R"]))
    return c


def check_restricted(c):
    p = gen.Problem(c)
    if not p.routes:
        return None
    keep = sorted({k % len(p.routes) for k in c["routes"]})
    names = [p.routes[i].id for i in keep]
    d = c["direction"]
    plt.close("all")
    img = picture(lambda path: p.net.plot(path, names, d))
    alone = gen.TransportNetwork(p.graph)
    for i in keep:
        alone.add_route(p.routes[i])
    require(equal(img, picture(lambda path: alone.plot(path, None, d))), "the plot of {} depends on other lines", names)
    every = picture(lambda path: p.net.plot(path))
    require(equal(every, picture(lambda path: p.net.plot(path, [r.id for r in p.routes]))),
            "the plot of all the lines is not the plot of each of them")
    pick = [p.routes[i] for i in keep]
    content(img, p, pick, d)
    content(every, p, p.routes, None)
    if d is not None:
        # lines with the same sequences in the direction and nothing in the other one
        cut = gen.TransportNetwork(p.graph)
        for r in pick:
            seq, stops = (r.nodes_sequence_i, r.stops_sequence_i) if d == "I" else (r.nodes_sequence_r, r.stops_sequence_r)
            if not seq:
                continue
            if gen.is_circular(r):
                cut.add_route(r)
                continue
            a, b = ",".join(map(str, seq)), ",".join(map(str, stops))
            ra, rb = ",".join(map(str, seq[::-1])), ",".join(map(str, [seq[-1], seq[0]]))
            cut.add_route(gen.Route(r.id, r.mode, *((a, ra, b, rb) if d == "I" else (ra, a, rb, b))))
        if cut.get_routes():
            require(equal(img, picture(lambda path: cut.plot(path, None, d))),
                    "the plot of the direction {} of {} depends on the other direction", d, names)
    city = picture(lambda path: p.graph.plot(path))
    for name in ("periphery", "subcenter", "cbd", "street"):
        require(count(city, name) > 0, "the plot of the city has no {}", name)
    for name in ("stop", "outward", "inward"):
        require(count(city, name) == 0, "the plot of the city has some {}", name)
    plt.close("all")
    return True, ["some lines" if len(keep) < len(p.routes) else "all lines", str(d)]


def content(img, p, routes, d):
    stops, out, back = set(), set(), set()
    for r in routes:
        if d in (None, "I"):
            stops |= set(r.stops_sequence_i)
            out |= {frozenset(e) for e in zip(r.nodes_sequence_i, r.nodes_sequence_i[1:])}
        if d in (None, "R"):
            stops |= set(r.stops_sequence_r)
            back |= {frozenset(e) for e in zip(r.nodes_sequence_r, r.nodes_sequence_r[1:])}
    require((count(img, "stop") > 0) == bool(stops), "stops plotted: {}, expected {}", count(img, "stop"), stops)
    require((count(img, "inward") > 0) == bool(back), "lines inward plotted: {}, expected {}", count(img, "inward"), back)
    if out - back:
        require(count(img, "outward") > 0, "lines outward are not plotted: {}", out)
    if not out:
        require(count(img, "outward") == 0, "lines outward plotted, expected none")
    rest = {gen.token(n)[0] for n in p.graph.get_nodes() if n.id not in stops}
    for t, name in (("P", "periphery"), ("S", "subcenter"), ("C", "cbd")):
        require((count(img, name) > 0) == (t in rest), "nodes of kind {} without stop plotted: {}, expected {}", name,
                count(img, name), t in rest)


# ------------------------------------------------------------------ what is drawn

@st.composite
def shown_case(draw):
    return dict(problem=draw(gen.problem(1, 4, two=None, max_families=2, max_custom=2, demand=False, no_freq=False)),
                op=draw(plot_op()))


def figure(fn):
    """figure that a plot saves"""
    seen = []
    save = matplotlib.figure.Figure.savefig

    def keep(self, *a, **k):
        seen.append(self)
        return save(self, *a, **k)

    matplotlib.figure.Figure.savefig = keep
    try:
        fn(gen.scratch_file(".png"))
    finally:
        matplotlib.figure.Figure.savefig = save
    require(len(seen) > 0, "no figure was saved")
    return seen[-1]


def spot(x, y):
    return round(float(x), 6) + 0.0, round(float(y), 6) + 0.0


def check_shown(c):
    p = gen.Problem(c["problem"])
    op = c["op"]
    plt.close("all")
    fig = figure(lambda path: draw_plot(p, dict(op, what="city" if op["what"] == "unknown" else op["what"]), path))
    require(len(fig.axes) == 1, "{} axes", len(fig.axes))
    ax = fig.axes[0]
    nodes = {n.id: n for n in p.graph.get_nodes()}
    place = {}
    for n in nodes.values():
        place.setdefault(spot(n.x, n.y), []).append(n)
    alone = {k: v[0] for k, v in place.items() if len(v) == 1}
    # labels
    got = sorted((t.get_text(),) + spot(*t.get_position()) for t in ax.texts if t.get_text())
    want = sorted((str(n.id),) + spot(n.x, n.y) for n in nodes.values())
    require(got == want, "labels {}, expected {}", got, want)
    # nodes, the last one drawn is seen
    stops, secs = set(), {}
    if op["what"] == "network":
        keep = ids(p, op)
        for r in p.routes:
            if keep is not None and r.id not in keep:
                continue
            for k, seq, st_ in (("I", r.nodes_sequence_i, r.stops_sequence_i), ("R", r.nodes_sequence_r, r.stops_sequence_r)):
                if op["direction"] in (None, k):
                    stops |= set(st_)
                    secs.setdefault("outward" if k == "I" else "inward", set()).update(zip(seq, seq[1:]))
    colour = {}
    for q in sorted((x for x in ax.collections if isinstance(x, matplotlib.collections.PathCollection)),
                    key=lambda x: x.get_zorder()):
        for k, (x, y) in enumerate(q.get_offsets()):
            face = q.get_facecolor()
            colour[spot(x, y)] = tuple(np.round(np.array(face[k % len(face)][:3]) * 255).astype(int))
    require(set(colour) == set(place), "nodes drawn in {}, expected {}", sorted(colour), sorted(place))
    for k, n in alone.items():
        name = "stop" if n.id in stops else {"C": "cbd", "S": "subcenter", "P": "periphery"}[gen.token(n)[0]]
        require(colour[k] == rgb(name), "the node {} has the colour {}, expected the one of a {}", n.id, colour[k], name)
    # streets and lines
    arrows = {}
    for a in ax.patches:
        if hasattr(a, "_posA_posB"):
            ends = tuple(alone.get(spot(*q)) for q in a._posA_posB)
            arrows.setdefault(tuple(np.round(np.array(a.get_edgecolor()[:3]) * 255).astype(int)), set()).add(
                tuple(n.id if n is not None else None for n in ends))
    if arrows:
        secs["street"] = {(e.node1.id, e.node2.id) for e in p.graph.get_edges()}
        for name in ("street", "outward", "inward"):
            a = {x for x in secs.get(name, ()) if all(spot(nodes[k].x, nodes[k].y) in alone for k in x)}
            b = {x for x in arrows.get(rgb(name), ()) if None not in x}
            require(a == b, "sections of {} drawn {}, expected {}", name, sorted(b), sorted(a))
    plt.close("all")
    return len(alone) > 1, [op["what"], str(op["direction"])]


def rgb(name):
    return tuple(np.round(np.array(matplotlib.colors.to_rgb(COLOURS[name])) * 255).astype(int))


# ------------------------------------------------------------------ elementary paths

@st.composite
def paths_case(draw):
    return gen.distinct_names(draw(gen.problem(1, 3, two=draw(st.sampled_from([None, True])), max_families=2, max_custom=2)))


def check_paths(c):
    p = gen.Problem(c)
    if not p.routes:
        return None
    b = sub.Built(c)
    name = {n.id: n.name for n in b.p.graph.get_nodes()}

    def label(n):
        k = ref.key(n)
        return {"c": "{}", "s": "{} - {}", "r": "{} {} - {}"}[k[0]].format(*k[1:-1], name[k[-1]])

    done = 0
    tags = set()
    for o in b.opt.hyperpaths:
        for d in b.opt.hyperpaths[o]:
            if done == 2:
                break
            done += 1
            paths = b.opt.hyperpaths[o][d]
            old = repr([[ref.key(s), [[ref.key(n) for n in x] for x in paths[s]]] for s in paths])
            plt.close("all")
            Hyperpath.plot(paths)
            ax = plt.gca()
            where = {t.get_text(): t.get_position() for t in ax.texts if t.get_text()}
            seqs = [[label(n) for n in x] for s in paths for x in paths[s]]
            want = {x for q in seqs for x in q}
            require(set(where) == want, "nodes drawn {}, expected {}", sorted(where), sorted(want))
            require(len([t for t in ax.texts if t.get_text()]) == len(want), "nodes drawn twice")
            place = {v: k for k, v in where.items()}
            got = {(node_at(place, a._posA_posB[0]), node_at(place, a._posA_posB[1])) for a in ax.patches
                   if hasattr(a, "_posA_posB")}
            arcs = {(x, y) for q in seqs for x, y in zip(q, q[1:])}
            if any(hasattr(a, "_posA_posB") for a in ax.patches):
                require(got == arcs, "edges drawn {}, expected {}", sorted(got), sorted(arcs))
            require(old == repr([[ref.key(s), [[ref.key(n) for n in x] for x in paths[s]]] for s in paths]),
                    "the paths were changed")
            plt.close("all")
            tags |= {"several paths"} if len(seqs) > 1 else {"one path"}
    return done > 0, sorted(tags)


def node_at(place, pos):
    """node drawn in the position of an end of an arrow"""
    return place[min(place, key=lambda q: (q[0] - pos[0]) ** 2 + (q[1] - pos[1]) ** 2)]


PARTS = [Part("history", history, check_history, 120, 3000), Part("restricted", restricted, check_restricted, 120, 3000),
         Part("shown", shown_case, check_shown, 160, 4000),
         Part("paths", paths_case, check_paths, 80, 2000)]
