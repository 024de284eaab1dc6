"""C07: history and persistence of an OD matrix."""
import os

from hypothesis import strategies as st

from pbt import gen
from pbt.core import Part, require, raises
from pbt.gen import num
from sidermit import exceptions as ex

RULE = ("sequences of cell changes (accepted and rejected) interleaved with writing, reading and rebuilding, against a "
        "dictionary; and files and tables damaged in one place; non-trivial: a history with an overwritten cell, a "
        "rejected change and a persistence step, or a damaged file; distinct by case")
ASSUMPTIONS = ["totals are compared with tolerance 1e-9 of the largest total of the history"]

VALUES = st.one_of(num(0, 1000), st.floats(0, 1e6), st.just(0), st.integers(0, 10 ** 7), st.floats(0, 1e-3))


@st.composite
def op(draw, k):
    kind = draw(st.sampled_from(["set"] * 6 + ["negative", "origin", "destination", "file", "table", "both"]))
    # few cells, so that they are overwritten
    o = [kind, draw(st.integers(0, k - 1)), draw(st.integers(0, min(k - 1, 3)))]
    if kind in ("set", "origin", "destination", "both"):
        o.append(draw(VALUES))
    elif kind == "negative":
        o.append(draw(st.one_of(st.sampled_from([-1, -0.5, -5e-324]), st.floats(-1000, -1e-9))))
    return o


@st.composite
def history(draw):
    c = draw(st.one_of(gen.param_city(0, 3), gen.pajek_city(0, 3)))
    k = 2 * gen.city_n(c) + 1
    start = draw(st.booleans())
    return dict(city=c, start=start, ops=draw(st.lists(op(k), max_size=14)))


def agree(dem, model, ids, where, scale):
    m = dem.get_matrix()
    require(sorted(m) == sorted(ids), "{}: origins {}", where, sorted(m))
    for i in ids:
        require(sorted(m[i]) == sorted(ids), "{}: destinations of {}: {}", where, i, sorted(m[i]))
        for j in ids:
            require(m[i][j] == model.get((i, j), 0), "{}: cell {}-{} holds {}, expected {}", where, i, j, m[i][j],
                    model.get((i, j), 0))
    require(abs(dem.get_total_trips() - sum(model.values())) <= 1e-9 * max(1.0, scale), "{}: total {}, expected {}",
            where, dem.get_total_trips(), sum(model.values()))


def check_history(c):
    graph = gen.build_city(c["city"])
    ids = [n.id for n in graph.get_nodes()]
    unknown = max(ids) + 1
    while unknown in ids:
        unknown += 1
    dem = gen.Demand(graph)
    model = {}
    if c["start"]:
        dem = gen.Demand.build_from_parameters(graph, 100, 0.5, 0.25, 0.25)
        m = dem.get_matrix()
        model = {(i, j): m[i][j] for i in list(m) for j in list(m[i])}
    scale = 100.0
    agree(dem, model, ids, "start", scale)
    seen, over, rejected, kept = set(), False, False, False
    for o in c["ops"]:
        kind, i, j = o[0], ids[o[1]], ids[o[2]]
        if kind == "set":
            dem.change_vij(i, j, o[3])
            over = over or (i, j) in seen
            seen.add((i, j))
            model[(i, j)] = o[3]
            scale = max(scale, sum(model.values()))
        elif kind == "negative":
            raises(lambda: dem.change_vij(i, j, o[3]), ex.TripsValueIsNotValidException)
            rejected = True
        elif kind == "origin":
            raises(lambda: dem.change_vij(unknown, j, o[3]), ex.OriginIdDoesNotFoundException)
            rejected = True
        elif kind == "destination":
            raises(lambda: dem.change_vij(i, unknown, o[3]), ex.DestinationIdDoesNotFoundException)
            rejected = True
        elif kind == "both":
            raises(lambda: dem.change_vij(unknown, unknown, o[3]), ex.OriginIdDoesNotFoundException,
                   ex.DestinationIdDoesNotFoundException)
            rejected = True
        elif kind == "file":
            path = gen.scratch_file(".csv")
            dem.matrix_to_file(path)
            back = gen.Demand.build_from_file(graph, path)
            os.unlink(path)
            agree(dem, model, ids, "after writing", scale)
            dem = back
            kept = True
        else:
            m = dem.get_matrix()
            back = gen.Demand.build_from_content(graph, [[m[a.id][b.id] for b in graph.get_nodes()]
                                                         for a in graph.get_nodes()])
            agree(dem, model, ids, "after copying", scale)
            dem = back
            kept = True
        agree(dem, model, ids, "after {}".format(o), scale)
    return over and rejected and kept, [o[0] for o in c["ops"]]


DAMAGE = ["columns", "one column", "id", "origin", "destination", "negative", "value", "float id", "empty"]


@st.composite
def damaged(draw):
    c = draw(st.one_of(gen.param_city(0, 3), gen.pajek_city(0, 3)))
    k = 2 * gen.city_n(c) + 1
    cells = draw(st.lists(st.tuples(st.integers(0, k - 1), st.integers(0, k - 1), VALUES), max_size=6))
    return dict(city=c, cells=[list(x) for x in cells], damage=draw(st.sampled_from([None] + DAMAGE)),
                at=draw(st.integers(0, 200)), newline=draw(st.booleans()),
                table=draw(st.sampled_from([None, "row", "missing row", "long row", "short row", "negative"])))


def check_damaged(c):
    graph = gen.build_city(c["city"])
    ids = [n.id for n in graph.get_nodes()]
    rows = [[str(ids[i]), str(ids[j]), repr(v)] for i, j, v in c["cells"]]
    model = {(ids[i], ids[j]): v for i, j, v in c["cells"]}
    tags = []
    d = c["damage"]
    if d is not None and rows:
        r = rows[c["at"] % len(rows)]
        unknown = str(max(ids) + 1)
        if d == "columns":
            r.append("1")
        elif d == "one column":
            del r[1:]
        elif d == "id":
            r[c["at"] % 2] = "x"
        elif d == "float id":
            r[c["at"] % 2] += ".5"
        elif d == "origin":
            r[0] = unknown
        elif d == "destination":
            r[1] = unknown
        elif d == "negative":
            r[2] = "-" + (r[2] if float(r[2]) > 0 else "1")
        elif d == "value":
            r[2] = "many"
        elif d == "empty":
            r[c["at"] % 3] = ""
        tags.append("file: " + d)
    else:
        d = None
    text = "origin,destination,vij\n" + "\n".join(",".join(r) for r in rows)
    if rows and c["newline"]:
        text += "\n"
    path = gen.scratch_file(".csv")
    with open(path, "w") as f:
        f.write(text)
    try:
        if d is None:
            agree(gen.Demand.build_from_file(graph, path), model, ids, "file", sum(model.values()))
        else:
            raises(lambda: gen.Demand.build_from_file(graph, path))
    finally:
        os.unlink(path)
    k = len(ids)
    table = [[model.get((i, j), 0) for j in ids] for i in ids]
    t = c["table"]
    if t is not None:
        at = c["at"] % k
        if t == "row":
            table.append([0] * k)
        elif t == "missing row":
            table.pop(at)
        elif t == "long row":
            table[at].append(0)
        elif t == "short row":
            table[at].pop()
        else:
            table[at][(c["at"] // k) % k] = -0.25
        raises(lambda: gen.Demand.build_from_content(graph, table))
        tags.append("table: " + t)
    else:
        agree(gen.Demand.build_from_content(graph, table), model, ids, "table", sum(model.values()))
    return bool(tags), tags or ["undamaged"]


PARTS = [Part("history", history, check_history, 6400, 40000), Part("damaged", damaged, check_damaged, 6400, 40000)]
