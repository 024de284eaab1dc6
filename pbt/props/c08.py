"""C08: rules of custom routes."""
from hypothesis import strategies as st

from pbt import gen
from pbt.core import Part, require, raises
from pbt.gen import Route
from sidermit.exceptions import TransportModeException, TransportNetworkException

RULE = ("quadruples of node and stop sequences built valid and then altered by 0 to 3 faults or changes, with ids and "
        "modes present or not, and arbitrary quadruples over few nodes; non-trivial: at least two nodes in some "
        "sequence; distinct by case")
ASSUMPTIONS = ["sequences are texts of integers separated by commas, empty texts or None",
               "the order and repetition of intermediate stops is not restricted by the rules"]

SEQS = ["ni", "nr", "si", "sr"]


@st.composite
def valid_route(draw):
    ids = draw(st.lists(st.one_of(st.integers(0, 12), st.integers(0, 10 ** 7)), min_size=1, max_size=7, unique=True))
    ni = ids
    if draw(st.booleans()) or len(ni) < 2:
        nr = ni[::-1]
    else:
        mid = draw(st.lists(st.integers(0, 14), max_size=4, unique=True))
        nr = [ni[-1]] + [x for x in mid if x not in (ni[0], ni[-1])] + [ni[0]]

    def stops(path):
        if len(path) < 3 or draw(st.booleans()):
            return list(path)
        inner = draw(st.lists(st.sampled_from(path), max_size=4)) if draw(st.integers(0, 4)) == 0 else \
            [x for x in path[1:-1] if draw(st.booleans())]
        return [path[0]] + inner + [path[-1]]

    return dict(id=draw(st.sampled_from(["L1", "a b", 7, 0, "x,y"])), mode="ok", ni=list(ni), nr=nr, si=stops(ni),
                sr=stops(nr))


@st.composite
def case(draw):
    if draw(st.integers(0, 7)) == 0:
        seq = st.lists(st.integers(0, 3), max_size=4)
        c = dict(id="L", mode="ok", ni=draw(seq), nr=draw(seq), si=draw(seq), sr=draw(seq))
        return c
    c = draw(valid_route())
    for _ in range(draw(st.integers(0, 3)) if draw(st.booleans()) else 0):
        k = draw(st.sampled_from(SEQS + ["si", "sr"]))
        what = draw(st.integers(0, 11))
        s = c[k]
        if what == 0:
            c[k] = draw(st.sampled_from([None, []]))
        elif what == 1:
            c["id"] = None
        elif what == 2:
            c["mode"] = draw(st.sampled_from([None, "bus", 1]))
        elif not s:
            continue
        elif what == 10:
            c[k] = s[1:] if draw(st.booleans()) else s[:-1]
        elif what == 11:
            c[k] = s + s[:1] if draw(st.booleans()) else s[-1:] + s
        elif what == 3:
            i = draw(st.integers(0, len(s)))
            c[k] = s[:i] + [draw(st.sampled_from(s + [3, 99]))] + s[i:]
        elif what == 4:
            i = draw(st.integers(0, len(s) - 1))
            c[k] = s[:i] + s[i + 1:]
        elif what == 5:
            c[k] = s[::-1]
        elif what == 6:
            i, j = draw(st.integers(0, len(s) - 1)), draw(st.integers(0, len(s) - 1))
            s = list(s)
            s[i], s[j] = s[j], s[i]
            c[k] = s
        elif what == 7:
            i = draw(st.integers(0, len(s) - 1))
            c[k] = s[:i] + [draw(st.integers(0, 20))] + s[i + 1:]
        elif what == 8:
            # a loop that keeps the ends
            i = draw(st.integers(0, len(s) - 1))
            c[k] = s[:i + 1] + s[i:]
        else:
            other = draw(st.sampled_from(SEQS))
            c[k] = list(c[other]) if c[other] else c[other]
    return c


def text(seq):
    return None if seq is None else ",".join(str(x) for x in seq)


def fault(c):
    if c["id"] is None:
        return "id"
    if c["mode"] != "ok":
        return "mode"
    if any(not c[k] for k in SEQS):
        return "empty"
    if c["ni"][0] != c["nr"][-1] or c["nr"][0] != c["ni"][-1]:
        return "cycle"
    for n, s in (("ni", "si"), ("nr", "sr")):
        if len(set(c[n])) != len(c[n]):
            return "loop"
        if not set(c[s]) <= set(c[n]):
            return "stop out of the line"
        if c[s][0] != c[n][0]:
            return "first stop"
        if c[s][-1] != c[n][-1]:
            return "last stop"
    return None


def check(c):
    mode = gen.TransportMode.get_default_modes()[0] if c["mode"] == "ok" else c["mode"]
    args = (c["id"], mode) + tuple(text(c[k]) for k in SEQS)
    bad = fault(c)
    size = max(len(c[k] or []) for k in SEQS)
    if bad is None:
        r = Route(*args)
        require(r.id == c["id"] and r.mode is mode, "id {!r} or mode of the route", r.id)
        for k, attr in zip(SEQS, ("nodes_sequence_i", "nodes_sequence_r", "stops_sequence_i", "stops_sequence_r")):
            got = getattr(r, attr)
            require(list(got) == c[k] and all(type(x) is int for x in got), "{}: {}, given {}", attr, got, c[k])
            back = Route.sequences_to_string(got)
            require(list(Route.sequences_to_list(back)) == c[k], "text {!r} of {}", back, c[k])
    else:
        raises(lambda: Route(*args), TransportNetworkException, TransportModeException)
    return size >= 2, [bad or "accepted"]


@st.composite
def seqs(draw):
    return draw(st.lists(st.one_of(st.integers(0, 30), st.integers(-10 ** 9, 10 ** 12)), max_size=12))


def check_text(seq):
    t = Route.sequences_to_string(seq)
    require(t == ",".join(str(x) for x in seq), "text of {}: {!r}", seq, t)
    require(list(Route.sequences_to_list(t)) == seq, "list of {!r}: {}", t, Route.sequences_to_list(t))
    return len(seq) > 1, []


PARTS = [Part("rules", case, check, 40000, 300000), Part("text", seqs, check_text, 4000, 20000)]
