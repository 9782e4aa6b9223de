from hypothesis import strategies as st

from rc import strat as s
from rc.common import DAY, window_total

CONF = dict(
    quick=50,
    thorough=2500,
    rule="a case is a history on one use case of flat appliances: users and appliances added at any time (in every documented "
    "way), windows declared again, attributes set, calendars, initialisations, generations (sequential, parallel, by cases, user by "
    "user, for given days), saves into and loads from spreadsheets; each generation is compared with the reference sum of the "
    "declarations so far; non-trivial with two generations and a declaration between them",
    assumptions=["no two appliances of a user have equal parameters, so that none is left out as a duplicate"],
)


@st.composite
def app(draw, name, unique):
    a = draw(s.flat_app(name=draw(st.sampled_from([name, name, "lamp"]))))
    # (without effect on a flat appliance) no two appliances of a user are equal
    a["thermal_p_var"] = unique / 1000
    return a


@st.composite
def user(draw, k):
    apps = [draw(app("k%d a%d" % (k, j), 10 * k + j)) for j in range(draw(s.ints(0 if k else 1, 3)))]
    # several categories, and several appliances of a category, may have the same name
    return dict(name=draw(st.sampled_from(["user %d" % k] * 4 + ["user 0", "user 11"])), num_users=draw(st.sampled_from([1, 1, 2, 3, 7])), pref=0, apps=apps)


@st.composite
def case(draw):
    n = draw(st.sampled_from([1, 2, 2, 3, 5, 8]))
    long = draw(s.ints(0, 29)) == 0
    if long:
        n = draw(st.sampled_from([365, 366]))
    c = {
        "users": [draw(user(k)) for k in range(draw(s.ints(0, 3)))],
        "start": draw(s.start_dates()),
        "n": n,
        "ctor": draw(st.sampled_from(["dates", "dates", "start", "none"])),
        "parallel": n < 4 and draw(s.ints(0, 19)) == 0,
        "seed": draw(st.one_of(st.none(), s.ints(0, 9))),
    }
    ops = []
    nu, na = 10, 10
    pars = 0
    allowed = 0 if long else draw(st.sampled_from([0, 0, 0, 1, 2]))
    for _ in range(draw(s.ints(3, 5 if long else 14))):
        k = draw(st.sampled_from(["user", "app", "app", "app", "win", "set", "set", "init", "dates", "gen", "gen", "gen", "file", "more", "look", "days"]))
        x, y = draw(s.ints(0, 9)), draw(s.ints(0, 9))
        if k == "user":
            nu += 1
            ops.append([k, draw(user(nu)), draw(st.sampled_from(["one", "list"]))])
        elif k == "app":
            na += 1
            ops.append([k, x, draw(app("new %d" % na, 500 + na)), draw(st.sampled_from(["one", "parts", "object", "objects", "legacy"]))])
        elif k == "win":
            # windows for one, two and three announced ones, the longest time that any of them offers
            ops.append([k, x, y, [draw(s.windows(n=i)) for i in (1, 2, 3)]])
        elif k == "set":
            what = draw(st.sampled_from(["num_users", "num_users", "number", "number", "wd_we_type", "occasional_use"]))
            v = draw({"num_users": s.ints(0, 5), "number": s.ints(0, 5), "wd_we_type": s.ints(0, 2), "occasional_use": s.ints(0, 1)}[what])
            ops.append([k, x, y, what, v])
        elif k == "init":
            ops.append([k, draw(s.ints(1, 9)), draw(s.ints(0, 3)) > 0])
        elif k == "dates":
            ops.append([k, draw(s.start_dates())])
        elif k in ("gen", "days"):
            mode = draw(st.sampled_from(["flat", "rows", "rows", "cases", "users", "parallel"]))
            if mode == "parallel":
                pars += 1
                if pars > allowed:
                    mode = "rows"
            if k == "gen":
                ops.append([k, mode])
            else:
                d0 = draw(s.start_dates())
                days = [s.plus_days(d0, draw(s.ints(-3, 400)) if draw(st.booleans()) else i) for i in range(draw(s.ints(1, 5)))]
                ops.append([k, mode if mode != "users" else "rows", days])
        elif k == "file":
            ops.append([k, draw(st.sampled_from(["fresh", "dates", "initialized"]))])
        elif k == "more":
            nu += 2
            us = [draw(user(nu - 1)), draw(user(nu))][: draw(s.ints(1, 2))]
            if draw(st.booleans()):
                us[0]["name"] = "user 0"
            ops.append([k, us])
        else:
            ops.append([k, draw(st.sampled_from(["max", "peak", "table", "str", "seed", "userprofile"]))])
    ops.append(["gen", draw(st.sampled_from(["flat", "rows"]))])
    c["ops"] = ops
    c["rng"] = draw(s.rng())
    return c


FIXED = []
