"""C05: acceptance of Pajek texts."""
import math

from hypothesis import strategies as st

from pbt import gen
from pbt.core import Part, require, raises, Violation
from pbt.props.c04 import describe

RULE = ("texts of representable cities damaged by 0 to 3 edits of their lines and fields; a text with a documented fault "
        "must be rejected, one without faults accepted, and any accepted one must give a well formed city with the "
        "nodes of the text; non-trivial: at least one edit; distinct by text")
ASSUMPTIONS = ["the number announced by the *vertices line is the number of node lines",
               "texts without faults that describe a city with no parameters (g < 0, CBD beyond its subcenter) may be "
               "accepted or rejected"]

EDITS = ["dup_id", "type", "bad_type", "drop_line", "drop_two", "dup_line", "zone", "swap_zone", "cbd_zone", "bad_id",
         "bad_zone", "neg_width", "extra_field", "drop_field", "second_cbd", "blank", "coordinate", "move", "swap_types",
         "shift_zones", "no_cbd", "bad_number", "two_copies"]


@st.composite
def case(draw):
    c = draw(gen.pajek_city(0, 4, same_width=False))
    rows = [[repr(v) if isinstance(v, float) else str(v) for v in x] for x in c["nodes"]]
    edits = draw(st.lists(st.sampled_from(EDITS), max_size=3))
    for e in edits:
        if not rows:
            break
        i = draw(st.integers(0, len(rows) - 1))
        j = draw(st.integers(0, len(rows) - 1))
        r = rows[i]
        full = [k for k, x in enumerate(rows) if len(x) == 7]
        if e in ("drop_line", "drop_two", "dup_line", "blank", "two_copies"):
            if e == "drop_line" or e == "drop_two":
                rows.pop(i)
                if e == "drop_two" and rows:
                    rows.pop(j % len(rows))
            elif e == "blank":
                rows.insert(i, [])
            else:
                rows.insert(j, list(r))
                if e == "two_copies":
                    rows.insert(i, list(rows[j]))
            continue
        if len(r) != 7 or len(rows[j]) != 7:
            continue
        if e == "dup_id":
            r[0] = rows[j][0]
        elif e == "type":
            r[4] = draw(st.sampled_from(["CBD", "P", "SC"]))
        elif e == "bad_type":
            r[4] = draw(st.sampled_from(["cbd", "p", "sc", "X", "PSC", "CBD_", "S"]))
        elif e == "zone":
            r[5] = str(draw(st.integers(-1, 6)))
        elif e == "swap_zone":
            r[5], rows[j][5] = rows[j][5], r[5]
        elif e == "swap_types":
            r[4], rows[j][4] = rows[j][4], r[4]
        elif e == "cbd_zone":
            for x in rows:
                if len(x) == 7 and x[4] == "CBD":
                    x[5] = str(draw(st.integers(-1, 5)))
        elif e == "bad_id":
            r[0] = draw(st.sampled_from(["1.5", "a", "1e3", "2.0", "x1", "--1"]))
        elif e == "bad_zone":
            r[5] = draw(st.sampled_from(["1.5", "a", "1.0", "z1"]))
        elif e == "neg_width":
            r[6] = draw(st.sampled_from(["-1", "-0.0001", "-1e-300"]))
        elif e == "extra_field":
            r.insert(draw(st.integers(0, 7)), "7")
        elif e == "drop_field":
            r.pop(draw(st.integers(0, 6)))
        elif e == "second_cbd":
            r[4], r[5] = "CBD", "0"
        elif e == "no_cbd":
            for x in rows:
                if len(x) == 7 and x[4] == "CBD":
                    x[4] = draw(st.sampled_from(["P", "SC"]))
        elif e == "coordinate":
            r[2], r[3] = draw(st.sampled_from([("0", "0"), ("1e-3", "-5"), ("0", "-0.0"), ("-7", "0"), ("30", "30")]))
        elif e == "move":
            for k in (2, 3):
                r[k] = rows[j][k]
        elif e == "shift_zones":
            for x in rows:
                if len(x) == 7 and x[5].isdigit() and x[5] != "0":
                    x[5] = str(int(x[5]) + 1)
        elif e == "bad_number":
            r[draw(st.sampled_from([2, 3, 6]))] = draw(st.sampled_from(["x", "1,5", "--2"]))
    return dict(rows=rows, edits=edits)


def integer(s):
    try:
        return int(s)
    except ValueError:
        return None


def number(s):
    try:
        return float(s)
    except ValueError:
        return None


def verdict(rows):
    """faulty: has a documented fault; good: describes a representable city; odd: neither"""
    if any(len(r) != 7 for r in rows):
        return "fields"
    if len(rows) % 2 == 0:
        return "even"
    if any(integer(r[0]) is None or integer(r[5]) is None for r in rows):
        return "not integer"
    if any(r[4] not in ("CBD", "P", "SC") for r in rows):
        return "unknown type"
    if any(number(r[6]) is not None and number(r[6]) < 0 for r in rows):
        return "negative width"
    if any(number(r[k]) is None for r in rows for k in (2, 3, 6)):
        return "not a number"
    ids = [integer(r[0]) for r in rows]
    if len(set(ids)) < len(ids):
        return "duplicated id"
    cbd = [r for r in rows if r[4] == "CBD"]
    if len(cbd) != 1:
        return "missing or repeated CBD"
    if integer(cbd[0][5]) != 0:
        return "CBD outside zone 0"
    n = (len(rows) - 1) // 2
    for z in range(1, n + 1):
        if sorted(r[4] for r in rows if integer(r[5]) == z) != ["P", "SC"]:
            return "missing or repeated type in a zone"
    # representable?
    def rad(r):
        return math.hypot(float(r[2]), float(r[3]))

    def direction(r):
        return math.atan2(float(r[3]), float(r[2]))

    sc = [rad(r) for r in rows if r[4] == "SC"]
    p = [rad(r) for r in rows if r[4] == "P"]
    if any(0 < rad(r) < 1e-6 for r in rows):
        return "odd"
    if n and sum(p) < sum(sc) * (1 + 1e-9):
        return "odd"
    if n and sum(sc) == 0 and sum(p) > 0:
        return "odd"
    c = rad(cbd[0])
    for r in rows:
        if r[4] == "SC" and rad(r) > 0 and c > 0:
            a = abs(direction(r) - direction(cbd[0])) % (2 * math.pi)
            if min(a, 2 * math.pi - a) < 1e-3 and c > rad(r) * (1 - 1e-9):
                return "odd"
        if r[4] == "SC" and rad(r) > 0 and c > 0 and c > rad(r):
            a = math.degrees(direction(r)) % 360
            b = math.degrees(direction(cbd[0])) % 360
            if abs(a - b) < 0.01:
                return "odd"
    return "good"


def well_formed(graph, rows):
    n = (len(rows) - 1) // 2
    want = {integer(r[0]): (r[1], {"CBD": "C"}.get(r[4], r[4][0] + r[5].lstrip("0")), integer(r[5]), float(r[2]),
                            float(r[3]), float(r[6])) for r in rows}
    got = describe(graph)
    require(got == want and len(graph.get_nodes()) == len(rows), "nodes {}, expected {}", got, want)
    roles = sorted(x[1] for x in got.values())
    require(roles == sorted(["C"] + [k + str(z) for z in range(1, n + 1) for k in "PS"]), "roles {}", roles)
    tok = gen.tokens(graph)
    require(tok["C"].zone_id == 0, "zone of the CBD {}", tok["C"].zone_id)
    zones = graph.get_zones()
    require([(z.id, z.periphery, z.subcenter) for z in zones] ==
            [(z, tok["P%d" % z], tok["S%d" % z]) for z in range(1, n + 1)], "zones {}", [z.id for z in zones])
    edges = sorted((gen.token(e.node1), gen.token(e.node2)) for e in graph.get_edges())
    adj = gen.token_adjacency(n)
    require(edges == sorted((a, b) for a in adj for b in adj[a]), "edges {}", edges)


def check(c):
    rows = c["rows"]
    text = "*vertices {}\n".format(len(rows)) + "".join(" ".join(r) + "\n" for r in rows)
    v = verdict(rows)
    try:
        graph = gen.Graph.build_from_content(text)
    except Exception as e:
        if v == "good":
            raise Violation("a well formed text was rejected: {}: {}\n{}".format(type(e).__name__, e, text))
        return True, ["rejected: " + v]
    if v not in ("good", "odd"):
        raise Violation("a text with a fault ({}) was accepted\n{}".format(v, text))
    well_formed(graph, rows)
    return bool(c["edits"]), ["accepted: " + v]


PARTS = [Part("texts", case, check, 10000, 150000)]
