from hypothesis import strategies as st

from rc import strat as s
from rc.common import DAY, window_total

CONF = dict(
    quick=500,
    thorough=8000,
    rule="a case is a history of declarations (windows in one or several calls, powers of every kind, series of any length, "
    "users, appliances and objects of other kinds, enlargement fractions, initialisations) on one use case, each accepted or "
    "refused according to a model of the documented conditions; non-trivial when it has both refused and accepted ones",
)

BAD_POWERS = ["none", "list", "dict", "set", "object", "complex", "text", "textnumber", "textobject", "emptytext", "bytes"]
GOOD_POWERS = ["int", "float", "npint", "npfloat", "frame", "array", "series", "text", "column"]
BAD_OBJECTS = ["text", "int", "none", "dict", "appliance", "class", "frame"]


@st.composite
def win_decl(draw):
    """announced number, windows given, functioning time"""
    n = draw(s.ints(1, 3))
    w = draw(s.windows(n=3))
    w = [list(x) for x in w]
    given = []
    for i in range(3):
        if i < n:
            g = draw(s.ints(0, 5)) > 0
        else:
            g = False
        given.append(w[i] if g else None)
    if given[0] is None and n > 1 and draw(st.booleans()):
        given[0] = w[0]
    # total time of the announced windows, the first being the whole day if left out
    total = sum((given[i][1] - given[i][0]) if given[i] else (DAY if i == 0 else 0) for i in range(n))
    ft = s.pick(draw, min(DAY, total), min(DAY, total + 1), max(1, total - 1), s.ints(1, DAY), s.ints(1, min(DAY, total)), 0)
    d = {"n": n, "w": given, "ft": ft}
    if draw(st.booleans()):
        d["rw"] = draw(st.sampled_from([0, 0.1, 0.5]))
    d["form"] = draw(st.sampled_from(["list", "array", "tuple"]))
    return d


@st.composite
def case(draw):
    ops = []
    for _ in range(draw(s.ints(1, 9))):
        k = draw(st.sampled_from(["app", "app", "app2", "rewin", "power", "power", "series", "series", "init", "init", "pe", "user", "users", "several", "wronguser", "wrongapp"]))
        if k in ("app", "app2"):
            ops.append([k, draw(win_decl())])
        elif k == "rewin":
            ops.append([k, draw(s.ints(0, 5)), draw(win_decl())])
        elif k == "power":
            ops.append([k, draw(st.sampled_from(BAD_POWERS + GOOD_POWERS))])
        elif k == "series":
            ops.append([k, draw(s.ints(1, 12)), draw(st.sampled_from(["frame", "array", "series", "text"])), draw(st.booleans())])
        elif k == "init":
            ops.append([k, draw(s.ints(1, 12)), draw(st.sampled_from([True, True, False]))])
        elif k == "pe":
            ops.append([k, draw(st.sampled_from([0.0, 0.15, 1.0, 3.5, -0.01, -1.0, -1, "0.1", "x", [0.1], {}])), draw(st.sampled_from(["set", "init", "calc"]))])
        elif k == "user":
            ops.append([k, draw(st.sampled_from([0, 0, 1, 3, 8, 12])), draw(st.sampled_from(["one", "list"]))])
        elif k == "users":
            ops.append([k, draw(st.lists(st.sampled_from([0, 0, 1, 5, 8, 12]), min_size=2, max_size=3))])
        elif k == "several":
            ops.append([k, draw(st.lists(st.sampled_from([0, 0, 1, 5, 8, 12]), min_size=2, max_size=3))])
        elif k == "wronguser":
            ops.append([k, draw(st.sampled_from(BAD_OBJECTS)), draw(st.sampled_from(["one", "list", "mixed", "new"]))])
        else:
            ops.append([k, draw(st.sampled_from(["text", "int", "none", "dict", "user", "class", "frame"])), draw(st.sampled_from(["last", "middle"]))])
    return {"dates": draw(st.sampled_from([None, None, 3, 6])), "more": draw(st.sampled_from([0, 0, 0, 0, 360])), "ops": ops, "rng": draw(s.rng(adversarial=False))}


FIXED = []
