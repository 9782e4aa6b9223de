from hypothesis import strategies as st

from rc import strat as s
from rc.common import DAY

CONF = dict(
    quick=60,
    thorough=1500,
    rule="a case is a spreadsheet: rows of users in any order, any subset of the optional columns and cells, columns in any "
    "order, powers as numbers, text arrays or ranges of other sheets (valid or not), one or no inconsistency between the rows of a "
    "user; non-trivial when it has a series or an optional cell left empty",
    assumptions=["the columns user_name, num_users, name, number, power and the windows announced are given (mandatory)"],
)

SHEETS = ["Sheet2", "ts", "My Sheet", "It's", "Données 2", "a-b", "P 1!", "P=5"]
BAD_SERIES = ["365", "367", "1", "three columns", "text", "object", "number", "empty cell", "text cell", "365 range", "367 range", "nested 3", "empty list", "whole columns", "whole columns"]
OPT = [
    "user_preference", "num_windows", "func_time", "time_fraction_random_variability", "func_cycle", "fixed", "fixed_cycle",
    "continuous_duty_cycle", "occasional_use", "flat", "thermal_p_var", "pref_index", "wd_we_type", "random_var_w",
]


@st.composite
def row(draw):
    """values of one row, optional ones possibly absent"""
    a = draw(s.full_app(pref=3, max_func_time=60))
    v = {"number": a["number"]}
    n = a["num_windows"]
    v["num_windows"] = n
    for i, w in enumerate(a["windows"], 1):
        v["window_%d_start" % i], v["window_%d_end" % i] = w
        if w[0] == 0 and draw(st.booleans()):
            del v["window_%d_start" % i]
    for k in OPT[1:]:
        if k in a:
            v[k] = a[k]
    for i, c in enumerate(a.get("cycles", []), 1):
        for key, name in (("p1", "p_%d1"), ("t1", "t_%d1"), ("p2", "p_%d2"), ("t2", "t_%d2"), ("rc", "r_c%d")):
            if key in c and draw(s.ints(0, 6)):
                v[name % i] = c[key]
        if draw(s.ints(0, 9)):
            v["cw%d1_start" % i], v["cw%d1_end" % i] = c["cw1"]
        if draw(s.ints(0, 2)) == 0:
            x = draw(s.ints(0, DAY - 1))
            v["cw%d2_start" % i], v["cw%d2_end" % i] = x, draw(s.ints(x + 1, DAY))
            if draw(s.ints(0, 2)) == 0:
                del v["cw%d2_start" % i]
    if draw(s.ints(0, 3)) == 0 and v.get("occasional_use") is None:
        v["occasional_use"] = 0.5
    if v["num_windows"] == 1 and draw(st.booleans()):
        del v["num_windows"]
    if draw(s.ints(0, 7)) == 0:
        v.pop("func_time")
        v.pop("func_cycle")
    return v


@st.composite
def power(draw, k):
    f = draw(st.sampled_from(["number", "number", "text", "pairs", "one", "one", "two", "two"]))
    if f == "number":
        return {"form": f, "v": draw(st.one_of(s.ints(0, 2000), st.sampled_from([0.5, 12.25, 1e6])))}
    p = {"form": f, "base": draw(s.ints(1, 300)), "step": draw(st.sampled_from([1, 3, 0.5, 1 / 3.0, 0.1])), "period": draw(st.sampled_from([2, 7, 366]))}
    if f in ("one", "two"):
        p["sheet"] = draw(st.sampled_from(SHEETS))
        p["row"], p["col"] = draw(s.ints(1, 5)), 1 + 4 * k
        p["abs"] = draw(st.booleans())
        p["stamp"] = draw(st.sampled_from(["date", "int", "text", "empty"]))
        if p["step"] in (1 / 3.0,):
            p["step"] = 0.375
    return p


@st.composite
def case(draw):
    users = draw(st.lists(st.sampled_from(["A", "B b", "Ü", "hospital", "7"]), min_size=1, max_size=3, unique=True))
    nums = [draw(st.sampled_from([1, 1, 2, 4])) for _ in users]
    prefs = [draw(st.sampled_from([None, 0, 1, 2, 3])) for _ in users]
    rows = []
    nrows = draw(s.ints(len(users), 5))
    order = list(range(len(users))) + [draw(s.ints(0, len(users) - 1)) for _ in range(nrows - len(users))]
    order = draw(st.permutations(order))
    for k, u in enumerate(order):
        v = draw(row())
        if (v.get("pref_index") or 0) > (prefs[u] or 0):
            v["pref_index"] = prefs[u] or 0
        rows.append({"u": u, "name": "app %d" % k, "v": v, "p": draw(power(k))})
    c = {"users": users, "nums": nums, "prefs": prefs, "rows": rows, "seed": draw(s.seeds)}
    c["blank"] = draw(st.lists(st.sampled_from(OPT), max_size=4, unique=True))
    c["prefcells"] = [draw(st.booleans()) for _ in rows]
    c["colseed"] = draw(s.ints(0, 9999))
    c["first"] = draw(st.sampled_from(["Sheet1", "input data", "Sheet"]))
    k = draw(st.sampled_from(["none", "none", "none", "none", "series", "series", "disagree"]))
    if k == "series":
        c["bad"] = [draw(s.ints(0, len(rows) - 1)), draw(st.sampled_from(BAD_SERIES))]
    elif k == "disagree" and len(rows) > len(users):
        c["disagree"] = draw(st.sampled_from(["num_users", "user_preference"]))
    c["filled"] = draw(s.ints(0, 3)) == 0
    c["rng"] = draw(s.rng(adversarial=False))
    return c


FIXED = []
