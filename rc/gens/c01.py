from hypothesis import strategies as st

from rc import strat as s
from rc.common import DAY

CONF = dict(
    quick=400,
    thorough=6000,
    rule="a case is one appliance (1-3 disjoint windows, possibly touching or randomised without overlap; "
    "functioning time, minimum cycle, variability at and around their limits; in a quarter of the cases with up to three duty cycles covering the day, a window or a part of it) simulated over several days "
    "with a random stream that may sit at its extremes, or one variable appliance over 250 days for the "
    "average; non-trivial when the appliance was on at least one day and the events did not simply fill "
    "a single window",
    assumptions=[
        "windows of an appliance stay disjoint when randomised (overlapping windows have no documented meaning)",
        "a load above 0.01 W means the appliance is on (free minutes of a window are marked with 0.001 W)",
    ],
)


@st.composite
def cycle(draw, wins):
    c = dict(p1=draw(s.ints(1, 9)), t1=draw(s.ints(1, 30)), p2=draw(s.ints(1, 9)), t2=draw(s.ints(1, 30)))
    if draw(st.booleans()):
        c["rc"] = draw(st.sampled_from([0, 0.2, 0.5]))
    c["cw1"] = draw(zone(wins))
    if draw(s.ints(0, 2)) == 0:
        c["cw2"] = draw(zone(wins))
    return c


@st.composite
def zone(draw, wins):
    k = draw(st.sampled_from(["day", "window", "window", "part", "any"]))
    if k == "day":
        return [0, DAY]
    w = draw(st.sampled_from(wins))
    if k == "window":
        return list(w)
    if k == "part":
        x = draw(s.ints(w[0], max(w[0], w[1] - 5)))
        return [x, draw(s.ints(min(x + 5, w[1]), w[1]))]
    x = draw(s.ints(0, DAY - 10))
    return [x, draw(s.ints(x + 10, DAY))]


@st.composite
def case(draw):
    if draw(st.integers(0, 11)) == 0:
        # statistics of the on-time
        w = draw(s.windows(min_total_len=150, touch=False))
        total = s.window_total(w)
        a = dict(windows=w, num_windows=len(w), power=10, number=1)
        v = draw(st.sampled_from([0.1, 0.3, 0.5]))
        ft = draw(s.ints(20, max(20, int(0.98 * total / (1 + v)) - 2)))
        a.update(
            func_time=ft,
            time_fraction_random_variability=v,
            func_cycle=draw(s.ints(1, max(1, min(15, int(ft * (1 - v)) // 2)))),
        )
        return {"kind": "stat", "app": a, "days": 250, "rng": draw(s.rng(False)), "peak": [600, 700]}
    if draw(st.integers(0, 15)) == 0:
        # the minimum cycle is longer than 99 % of the windows: no on-time can honour both
        w = draw(s.windows(touch=False, min_len=5))
        total = s.window_total(w)
        fc = draw(s.ints(int(0.99 * total) + 1, total + 3))
        a = dict(windows=w, num_windows=len(w), power=10, func_cycle=fc, func_time=draw(s.ints(1, total)))
        if draw(st.booleans()):
            a["time_fraction_random_variability"] = 0.2
        return {"kind": "nofit", "app": a, "days": 3, "peak": [600, 700], "rng": draw(s.rng())}
    a = draw(s.app(rw=True, tfrv=True, numbers=s.ints(1, 3), zero_cycle=True))
    if draw(st.booleans()):
        a["time_fraction_random_variability"] = 0
    if draw(s.ints(0, 3)) == 0:
        # with duty cycles, which may allow events in a part of the windows only
        n = draw(s.ints(1, 3))
        a["fixed_cycle"] = n
        a["cycles"] = [draw(cycle(a["windows"])) for _ in range(n)]
        if draw(st.booleans()):
            a["continuous_duty_cycle"] = draw(s.ints(0, 1))
        if draw(st.booleans()):
            # a window which holds one event exactly
            x, y = draw(st.sampled_from(a["windows"]))
            if y - x <= a["func_cycle"] or (y - x <= 60 and not a.get("random_var_w")):
                a["func_cycle"] = min(y - x, int(0.99 * s.window_total(a["windows"]))) or 1
                a["func_time"] = max(a["func_time"], a["func_cycle"])
    return {
        "kind": "days",
        "app": a,
        "days": draw(s.ints(1, 5)),
        "peak": draw(s.peak()),
        "rng": draw(s.rng()),
    }


def _c(app, days=30, p=0.0, kind="days"):
    return {"kind": kind, "app": app, "days": days, "peak": [600, 700], "rng": {"seed": 3, "p": p}}


FIXED = [
    # windows that touch, with one-minute events at the common bound
    _c(dict(windows=[[0, 480], [480, 1440]], num_windows=2, func_time=1400, func_cycle=1, power=5), 20),
    _c(dict(windows=[[0, 10], [10, 20]], num_windows=2, func_time=19, func_cycle=1, power=5), 200),
    _c(dict(windows=[[10, 20], [0, 10]], num_windows=2, func_time=19, func_cycle=1, power=5), 200, 0.5),
    _c(dict(windows=[[0, 30]], func_time=30, func_cycle=0, power=5), 20),
    # the only window which a duty cycle covers holds one event exactly
    _c(
        dict(
            windows=[[0, 10], [500, 900]], num_windows=2, func_time=100, func_cycle=10, power=5, fixed_cycle=1,
            cycles=[dict(p1=5, t1=20, p2=3, t2=10, cw1=[0, 10])],
        ),
        20,
    ),
    _c(dict(windows=[[0, 30]], func_time=12, func_cycle=0, power=5), 20, 0.5),
    _c(dict(windows=[[0, 1440]], func_time=1440, func_cycle=1, power=5), 3),
    _c(dict(windows=[[100, 200]], func_time=100, func_cycle=60, power=5), 20),
    _c(dict(windows=[[100, 200], [300, 500], [900, 1000]], num_windows=3, func_time=240, func_cycle=10, power=5), 20),
]
