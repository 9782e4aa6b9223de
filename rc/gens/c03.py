from hypothesis import strategies as st

from rc import strat as s

CONF = dict(
    quick=400,
    thorough=9000,
    rule="a case is one appliance (1-12 units, constant or daily power, with or without thermal variability, "
    "switched together or not) simulated on several days of the year, alone or in a use case, or 300 days of "
    "single events for the law of the thermal factor; non-trivial when it was on and had several units, a "
    "thermal variability or a daily power",
)


@st.composite
def case(draw):
    k = draw(st.sampled_from(["days"] * 6 + ["usecase"] * 3 + ["stat"]))
    c = {"kind": k, "peak": draw(s.peak()), "rng": draw(s.rng(k != "stat"))}
    if k == "stat":
        w = draw(s.windows(n=1, min_len=40))
        fc = draw(s.ints(1, 20))
        c["app"] = dict(
            windows=w, func_time=fc, func_cycle=fc, fixed="yes",
            number=draw(s.ints(1, 5)), power=draw(s.power()),
            thermal_p_var=draw(st.sampled_from([0.05, 0.2, 0.5, 0.9])),
        )
        c["days"] = 300
        if draw(st.booleans()):
            # units not always together: the bands of different numbers of units stay apart
            n = draw(s.ints(2, 4))
            c["app"].update(fixed="no", number=n, thermal_p_var=draw(st.sampled_from([0.3, 0.8])) / (2 * n - 1))
            c["days"] = 700
        return c
    c["app"] = draw(
        s.app(tfrv=True, thermal=True, numbers=s.ints(1, 12), series=True, flat=draw(st.integers(0, 5)) == 0)
    )
    if k == "days":
        c["prof_i"] = draw(st.lists(st.one_of(s.ints(0, 365), st.sampled_from([0, 364, 365])), min_size=1, max_size=5))
    else:
        c["date_start"] = draw(s.start_dates())
        c["num_days"] = draw(s.ints(1, 5))
        c["num_users"] = 1
    return c


FIXED = [
    {
        "kind": "stat", "days": 900, "peak": [600, 700], "rng": {"seed": 5, "p": 0.0},
        "app": dict(windows=[[100, 400]], func_time=5, func_cycle=5, fixed="no", number=2, power=100, thermal_p_var=0.3),
    }
]
