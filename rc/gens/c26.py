from hypothesis import strategies as st

from rc import strat as s

CONF = dict(
    quick=110,
    thorough=4000,
    rule="a case is a community with a history of generations (appliance, user, category, use case, cases), re-initialisations, "
    "additions and peak range computations, declarations (windows again, numbers of units and of individuals, new appliances), between which the maximum profiles are requested; non-trivial when something was "
    "generated between two requests",
    assumptions=["the windows declared for one appliance do not overlap", "the scale of the maximum profile is free, but common to all appliances"],
)

OPS = ["single", "aggregated", "appliance", "generate", "reinit", "peak", "cases", "max", "enlarge", "windows", "windows", "units", "users", "add"]


@st.composite
def case(draw):
    users = draw(s.community(series=True, max_users=3, max_apps=3))
    for u in users:
        u["num_users"] = draw(st.sampled_from([1, 1, 2, 3, 10]))
        for a in u["apps"]:
            a["func_time"] = 0 if draw(s.ints(0, 9)) == 0 else min(a["func_time"], 60)
            if draw(s.ints(0, 4)) == 0:
                a["number"] = draw(st.sampled_from([0, 1, 25]))
    if draw(s.ints(0, 5)) == 0:
        users.append(dict(name="nothing", num_users=draw(s.ints(1, 3)), pref=0, apps=[]))
    ops = []
    for _ in range(draw(s.ints(1, 6))):
        o = draw(st.sampled_from(OPS))
        op = [o, draw(s.ints(0, 2)), draw(s.ints(0, 2)), draw(s.ints(0, 5)), draw(s.ints(0, 1))]
        if o == "windows":
            op.append([draw(s.windows(n=i)) for i in (1, 2, 3)])
        elif o == "add":
            op.append(draw(s.full_app(name="more %d" % len(ops), max_func_time=30, cycles=False)))
        ops.append(op)
    late = None
    if draw(s.ints(0, 3)) == 0:
        late = dict(name="late", num_users=draw(s.ints(1, 4)), pref=0, apps=[draw(s.full_app(name="x", max_func_time=30))])
    return {
        "users": users, "ops": ops, "late": late, "start": draw(s.start_dates()), "days": draw(s.ints(1, 2)),
        "seed": draw(s.seeds), "rng": draw(s.rng(False)),
    }


FIXED = []
