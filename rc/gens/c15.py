from hypothesis import strategies as st

from rc import strat as s
from rc.common import DAY, window_total

CONF = dict(
    quick=170,
    thorough=5000,
    rule="a case is a community over the whole documented space (edge values included: 0 units or watts, empty or full "
    "windows, variabilities up to 1, minimum cycles that may not fit, zero to four duty cycles with any windows, any "
    "frequency, preference and day type), a period and a history of generations, under a random stream that may sit at its "
    "extremes; non-trivial when some appliance was switched on",
    assumptions=["windows of one appliance do not overlap before their randomisation"],
)


@st.composite
def any_windows(draw):
    n = draw(st.sampled_from([1, 1, 2, 3]))
    cuts = sorted(draw(st.lists(s.ints(0, DAY), min_size=2 * n, max_size=2 * n)))
    k = draw(s.ints(0, 7))
    if k == 0:
        cuts[0], cuts[-1] = 0, DAY
    elif k == 1:
        cuts = [0] * n + [DAY] * n if n == 1 else cuts
    elif k == 2:
        # tiny windows
        x = draw(s.ints(0, DAY - 10))
        cuts = sorted(x + v for v in draw(st.lists(s.ints(0, 9), min_size=2 * n, max_size=2 * n)))
    elif k == 3 and n > 1:
        cuts[2] = cuts[1]
    w = [[cuts[2 * i], cuts[2 * i + 1]] for i in range(n)]
    if window_total(w) == 0:
        w[0] = [0, DAY] if n == 1 else w[0]
    return draw(st.permutations(w))


frac = st.sampled_from([0, 0, 0, 0.001, 0.05, 0.1, 0.3, 0.5, 0.9, 1])


@st.composite
def any_app(draw, name):
    w = draw(any_windows())
    total = window_total(w)
    a = dict(windows=w, num_windows=len(w), name=name)
    one = min(1, total)
    a["func_time"] = s.pick(
        draw, s.ints(one, min(total, 60)), s.ints(one, total), total, s.ints(one, min(total, 600)), s.ints(one, min(total, 200)), s.ints(0, one)
    )
    small = s.ints(1, max(1, min(total // 4, 30)))
    a["func_cycle"] = s.pick(
        draw, 1, small, small, small, s.ints(0, 1), s.ints(1, max(1, total)), min(a["func_time"], int(0.99 * total)), max(1, int(0.99 * total)), s.ints(0, DAY)
    )
    a["number"] = draw(st.sampled_from([1, 1, 1, 2, 2, 3, 5, 10, 0, 1000]))
    a["power"] = draw(
        st.one_of(
            s.ints(1, 3000), s.ints(1, 100), st.sampled_from([1, 0.5, 0.0001, 1e9, 0]), s.power(series=True),
            st.just({"base": 0, "step": 3, "period": 2}),
        )
    )
    a["random_var_w"] = draw(frac)
    a["time_fraction_random_variability"] = draw(frac)
    a["thermal_p_var"] = draw(frac)
    a["fixed"] = draw(st.sampled_from(["yes", "no", "no"]))
    a["occasional_use"] = draw(st.sampled_from([1, 1, 1, 1, 1, 0.9, 0.5, 0.01, 0]))
    a["flat"] = draw(st.sampled_from(["no", "no", "no", "yes"]))
    a["pref_index"] = draw(st.sampled_from([0, 0, 0, 0, 0, 1, 2, 3]))
    a["wd_we_type"] = draw(st.sampled_from([2, 2, 2, 2, 2, 0, 1]))
    n = draw(st.sampled_from([0, 0, 1, 2, 3, 4]))
    a["fixed_cycle"] = n
    a["continuous_duty_cycle"] = draw(s.ints(0, 1))
    cyc = []
    for i in range(min(n, 3)):
        c = dict(
            p1=draw(st.sampled_from([1, 50, 0.5, 0])), t1=s.pick(draw, 0, s.ints(0, 30), s.ints(0, DAY)),
            p2=draw(st.sampled_from([3, 20, 0])), t2=s.pick(draw, 0, s.ints(0, 30), s.ints(0, DAY)),
        )
        c["rc"] = draw(frac)
        for k in ("cw1", "cw2"):
            m = draw(s.ints(0, 5))
            if m <= 1:
                c[k] = [0, DAY]
            elif m <= 3:
                x = draw(s.ints(0, DAY))
                c[k] = [x, draw(s.ints(x, DAY))]
            elif m == 4:
                c[k] = list(draw(st.sampled_from(w)))
        cyc.append(c)
    if cyc and draw(s.ints(0, 9)):
        a["cycles"] = cyc
    return a


@st.composite
def case(draw):
    users = []
    for i in range(draw(st.sampled_from([1, 1, 2]))):
        apps = [draw(any_app("app%d" % j)) for j in range(draw(st.sampled_from([1, 1, 2, 3])))]
        users.append(dict(name="u%d" % i, num_users=draw(st.sampled_from([1, 1, 1, 2, 3, 5, 0])), pref=draw(s.ints(0, 3)), apps=apps))
    cal, d, n = draw(s.calendar(max_days=3))
    c = {"users": users, "cal": cal, "start": d, "days": n}
    if draw(s.ints(0, 40)) == 0:
        # beyond one year: constant powers only, seldom used
        for u in users:
            u["num_users"] = min(1, u["num_users"])
            for a in u["apps"]:
                a["occasional_use"] = 0.01
                a["func_time"] = min(a["func_time"], 60)
                if isinstance(a["power"], dict):
                    a["power"] = 7
        c["days"] = draw(st.sampled_from([366, 367, 368, 400, 740]))
        c["cal"] = {"date_start": d, "num_days": c["days"]}
    c["pe"] = draw(st.sampled_from([None, 0.0, 0.15, 1.0, 5.0]))
    c["hist"] = draw(st.sampled_from(["plain", "plain", "late users", "late apps", "twice", "reinit"]))
    c["rng"] = draw(s.rng())
    return c


def _f(apps, hist="plain", days=3, p=0.5, **k):
    u = dict(name="u", num_users=1, pref=0, apps=apps)
    u.update(k)
    return {"users": [u], "cal": {"date_start": "2020-02-27", "num_days": days}, "start": "2020-02-27", "days": days, "pe": None,
            "hist": hist, "rng": {"seed": 1, "p": p}}


FIXED = [
    _f([dict(windows=[[0, 1440]], func_time=1440, func_cycle=1, power=1, number=1, name="full")]),
    _f([dict(windows=[[0, 1440]], func_time=600, func_cycle=0, power=1, number=0, name="none")], days=20),
    _f([dict(windows=[[100, 103], [500, 503], [900, 905]], num_windows=3, func_time=5, func_cycle=1, power=1, number=2, random_var_w=1, name="v")], days=40),
    _f([dict(windows=[[0, 1440]], func_time=100, func_cycle=1, power=3, number=1, name="late")], hist="late apps", days=400),
    _f([dict(windows=[[600, 601]], func_time=1, func_cycle=1, power=3, number=1, name="one")]),
    _f([dict(windows=[[0, 500]], func_time=100, func_cycle=1, power=3, number=1, fixed_cycle=1, random_var_w=1, name="nocw", cycles=[dict(p1=1, t1=5, p2=2, t2=5, rc=1)])], days=20),
]
