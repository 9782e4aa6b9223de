from hypothesis import strategies as st

from rc import strat as s
from rc.common import DAY

CONF = dict(
    quick=80,
    thorough=1800,
    rule="a case is a community simulated over 1-4 days: either with a daily energy known in advance (any number of users, "
    "units, windows, weekday or daily powers), or with individuals whose random variations must differ, requested flat, by "
    "day or by cases; non-trivial when there are several users, individuals or days",
)


@st.composite
def energy_app(draw, name):
    """random in time, of known daily energy"""
    w = draw(s.windows(touch=False))
    total = s.window_total(w)
    a = dict(windows=w, num_windows=len(w), func_cycle=1, fixed="yes", name=name)
    a["func_time"] = draw(s.ints(0, max(1, min(300, int(0.99 * total)))))
    a["number"] = draw(s.ints(1, 5))
    a["power"] = draw(s.power(series=True))
    a["wd_we_type"] = draw(st.sampled_from([0, 1, 2, 2, 2]))
    if draw(s.ints(0, 5)) == 0:
        a["occasional_use"] = draw(st.sampled_from([0, 1]))
    return a


@st.composite
def case(draw):
    k = draw(st.sampled_from(["energy", "energy", "energy", "individuals", "independent", "independent", "cases", "shape", "large"]))
    c = {"kind": k, "random_seed": draw(st.one_of(st.none(), s.ints(0, 9)))}
    cal, d, n = draw(s.calendar(max_days=4))
    c.update(start=d, days=n, cal=cal)
    if k in ("energy", "cases"):
        users = []
        for i in range(draw(s.ints(1, 3))):
            apps = [draw(energy_app("app%d" % j)) for j in range(draw(s.ints(1, 3)))]
            users.append(dict(name="u %d" % i, num_users=draw(st.sampled_from([1, 1, 2, 3, 5])), pref=draw(s.ints(0, 3)), apps=apps))
        c["users"] = users
        if k == "cases":
            c["labels"] = draw(st.sampled_from([[0, 1], ["a", "b", "c"], range(1), [0.1, 0.5], ["x"]]))
            c["labels"] = list(c["labels"])
    elif k == "individuals":
        fc = draw(s.ints(1, 30))
        a = dict(windows=[[0, DAY]], func_time=fc, func_cycle=fc, number=1, power=draw(s.ints(1, 99)), name="a", thermal_p_var=0.3)
        c["users"] = [dict(name="u", num_users=draw(s.ints(2, 5)), pref=0, apps=[a])]
        if draw(st.booleans()):
            c["users"].append(dict(c["users"][0], name="v"))
    elif k == "large":
        # every individual is on for one minute of the day
        a = dict(windows=[[0, DAY]], func_time=1, func_cycle=1, number=1, power=draw(s.ints(20, 99)), name="a", thermal_p_var=0.3)
        c["users"] = [dict(name="u", num_users=draw(st.sampled_from([30, 60, 99, 101, 130, 200, 300, 400])), pref=draw(s.ints(0, 1)), apps=[a])]
    elif k == "independent":
        # every source of randomness, alone or together
        u = dict(name="u", num_users=draw(s.ints(4, 8)), pref=draw(st.sampled_from([0, 0, 2, 3])), apps=[])
        for j in range(draw(st.sampled_from([1, 1, 1, 2, 3]))):
            lo = draw(s.ints(0, 1000))
            w = [lo, lo + draw(s.ints(60, 400))]
            a = dict(windows=[w], func_cycle=1, name="app%d" % j, number=draw(s.ints(1, 3)), power=draw(s.ints(10, 99)))
            a["func_time"] = draw(s.ints(10, (w[1] - w[0]) // 2))
            if draw(st.booleans()):
                a["flat"] = "yes"
            if draw(st.booleans()):
                a["fixed"] = "yes"
            for key, vals in (
                ("random_var_w", [0.1, 0.3]), ("occasional_use", [0.3, 0.5, 0.7]), ("thermal_p_var", [0.2, 0.5]),
                ("time_fraction_random_variability", [0.3, 0.8]),
            ):
                if draw(s.ints(0, 2)) == 0:
                    a[key] = draw(st.sampled_from(vals))
            if u["pref"] and draw(st.booleans()):
                a["pref_index"] = draw(s.ints(1, u["pref"]))
            u["apps"].append(a)
        c["users"] = [u]
        a = u["apps"][0]
        (lo, hi), = a["windows"]
        c["minutes"] = [draw(s.ints(lo, hi - 1)), lo, hi - 1]
    else:
        c["users"] = draw(s.community(stochastic=draw(st.booleans())))
        c["verbose"] = draw(st.booleans())
    p0 = k in ("individuals", "independent", "large")
    c["rng"] = draw(s.rng(not p0))
    return c


FIXED = []
