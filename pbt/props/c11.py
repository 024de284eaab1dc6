"""C11: histories of the mode manager."""
from hypothesis import strategies as st

from pbt import gen
from pbt.core import Part, require, raises
from sidermit.publictransportsystem import TransportModeManager
from sidermit import exceptions as ex

RULE = ("histories of up to 25 additions, removals, look-ups and changes of d and name of the modes over few names, "
        "starting empty or with the default modes; non-trivial: at least one accepted and one rejected operation; "
        "distinct by case")
ASSUMPTIONS = []

NAMES = ["bus", "metro", "tram", "", "a b"]


@st.composite
def case(draw):
    pool = [[draw(st.sampled_from(NAMES)), draw(st.sampled_from([0, 1, 1, 2, 4]))] for _ in range(5)]
    op = st.one_of(st.tuples(st.just("add"), st.integers(0, 4)), st.tuples(st.just("add"), st.integers(0, 4)),
                   st.tuples(st.just("remove"), st.sampled_from(NAMES)), st.tuples(st.just("get"), st.sampled_from(NAMES)),
                   st.tuples(st.just("junk"), st.sampled_from([None, "bus", 3])),
                   st.tuples(st.just("d"), st.integers(0, 4), st.sampled_from([1, 2, 3])),
                   st.tuples(st.just("name"), st.integers(0, 4), st.sampled_from(NAMES)))
    return dict(default=draw(st.booleans()), pool=pool,
                ops=[list(o) for o in draw(st.lists(op, min_size=1, max_size=25))])


def check(c):
    man = TransportModeManager(add_default_mode=c["default"])
    # [name under which it was added, mode]
    model = [(m.name, m) for m in man.get_modes()]
    require([x for x, _ in model] == (["bus", "metro"] if c["default"] else []), "initial modes {}", model)
    pool = [gen.build_mode(dict(name=x, bya=0, co=1, c1=1, c2=1, v=20, t=1, fmax=10, kmax=10, theta=0.5, tat=1, d=d,
                                fini=5)) for x, d in c["pool"]]
    acc = rej = 0
    tags = set()
    for op in [["none"]] + c["ops"]:
        if op[0] == "add":
            m = pool[op[1]]
            if any(x == m.name for x, _ in model):
                raises(lambda: man.add_mode(m), ex.TransportModeException)
                rej += 1
            else:
                man.add_mode(m)
                model.append((m.name, m))
                acc += 1
        elif op[0] == "remove":
            if any(x == op[1] for x, _ in model):
                man.remove_mode(op[1])
                model = [x for x in model if x[0] != op[1]]
                acc += 1
                tags.add("removed")
            else:
                raises(lambda: man.remove_mode(op[1]), ex.TransportModeException)
                rej += 1
        elif op[0] == "junk":
            raises(lambda: man.add_mode(op[1]), ex.TransportModeException)
            rej += 1
        elif op[0] == "d":
            pool[op[1]].d = op[2]
        elif op[0] == "name":
            if any(m is pool[op[1]] and x != op[2] for x, m in model):
                tags.add("renamed")
            pool[op[1]].name = op[2]
        got = man.get_modes()
        require(len(got) == len(model) and all(a is b for a, (_, b) in zip(got, model)),
                "after {}: modes {}, expected {}", op, [m.name for m in got], [x for x, _ in model])
        require(list(man.get_modes_names()) == [x for x, _ in model], "after {}: names {}", op, man.get_modes_names())
        for x in NAMES:
            same = [m for y, m in model if y == x]
            if same:
                require(man.get_mode(x) is same[0], "after {}: mode {!r}", op, x)
            else:
                raises(lambda: man.get_mode(x), ex.TransportModeException)
        if len(model) == 1 or (len(model) == 2 and any(m.d == 1 for _, m in model)):
            require(man.is_valid_to_assignment_step() is True, "after {}: not valid", op)
            tags.add("valid")
        else:
            raises(man.is_valid_to_assignment_step, ex.TransportNetworkException)
            tags.add("%d modes not valid" % min(len(model), 3))
    return acc > 0 and rej > 0, sorted(tags)


PARTS = [Part("history", case, check, 24000, 120000)]
