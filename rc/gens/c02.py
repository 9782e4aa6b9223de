from hypothesis import strategies as st

from rc import strat as s

CONF = dict(
    quick=250,
    thorough=8000,
    rule="a case is an appliance (flat or not) with 1-3 windows (in a quarter of the cases declared differently before) and a window variability in [0,1], simulated over "
    "several days, or over 300 days for the distribution of the bounds; non-trivial when the appliance consumed "
    "and, with a declared variability, at least one window bound moved",
    assumptions=["widened windows of one appliance do not overlap, except in the plain containment cases"],
)


@st.composite
def case(draw):
    k = draw(st.sampled_from(["days"] * 7 + ["wide"] * 3 + ["stat", "reach"]))
    c = {"kind": k, "peak": draw(s.peak()), "days": draw(s.ints(1, 6))}
    if k == "days":
        c["app"] = draw(s.app(rw=True, tfrv=True, numbers=s.ints(1, 3), flat=draw(st.booleans())))
    elif k == "wide":
        # any variability in [0, 1], windows may overlap or vanish once randomised
        w = draw(s.windows(min_len=2))
        c["app"] = dict(
            windows=w,
            num_windows=len(w),
            random_var_w=draw(st.sampled_from([0.05, 0.2, 0.5, 0.6, 0.8, 1.0])),
            func_time=draw(s.ints(1, s.window_total(w))),
            func_cycle=1,
            power=draw(s.ints(1, 1000)),
            number=draw(s.ints(1, 3)),
        )
        if draw(st.booleans()):
            c["app"]["flat"] = "yes"
    elif k == "stat":
        w = draw(s.windows(min_len=10, touch=False))
        c["app"] = dict(
            windows=w, num_windows=len(w), func_time=5, func_cycle=1, power=10, flat="yes",
            random_var_w=draw(st.sampled_from([0.1, 0.2, 0.35, 0.5])),
        )
        c["app"]["random_var_w"] = min(c["app"]["random_var_w"], s.max_rv(w))
        c["days"] = 400
    else:
        a = draw(s.ints(0, 800))
        length = draw(s.ints(60, 400))
        a = max(a, length // 2)
        b = min(a + length, 1439 - length // 2)
        c["app"] = dict(
            windows=[[a, b]], func_time=int(0.9 * (b - a)), func_cycle=1, power=10,
            random_var_w=draw(st.sampled_from([0.3, 0.4, 0.5])),
        )
        c["days"] = 80
    if draw(s.ints(0, 3)) == 0:
        # the windows were declared differently before, and the appliance possibly used
        a = c["app"]
        n = len(a["windows"])
        w = draw(s.windows(n=n))
        if s.window_total(w) < a["func_time"]:
            w = [[0, 480], [480, 960], [960, 1440]][:n]
            w[-1][1] = 1440
        c["first"] = {"windows": w, "random_var_w": draw(st.sampled_from([0, 0.2, 0.5])), "used": draw(st.booleans())}
    c["rng"] = draw(s.rng(k in ("days", "wide")))
    return c


def _c(app, days=20, kind="wide", p=0.5):
    return {"kind": kind, "app": app, "days": days, "peak": [600, 700], "rng": {"seed": 5, "p": p}}


FIXED = [
    _c(dict(windows=[[600, 700]], func_time=20, power=5, random_var_w=1.0, flat="yes"), 60),
    _c(dict(windows=[[600, 700]], func_time=20, power=5, random_var_w=0.8), 60),
    _c(dict(windows=[[0, 1440]], func_time=20, power=5, random_var_w=0.5), 60),
    _c(dict(windows=[[0, 100], [1340, 1440]], num_windows=2, func_time=20, power=5, random_var_w=0.35), 60, "days"),
    _c(dict(windows=[[0, 100], [1340, 1440]], num_windows=2, func_time=20, power=5, random_var_w=0.35, flat="yes"), 60, "days"),
    _c(dict(windows=[[300, 400], [600, 640], [1000, 1200]], num_windows=3, func_time=20, power=5, random_var_w=0.5, flat="yes"), 400, "stat", 0.0),
    _c(dict(windows=[[0, 100], [1340, 1440]], num_windows=2, func_time=20, power=5, random_var_w=0.5, flat="yes"), 400, "stat", 0.0),
    _c(dict(windows=[[300, 500]], func_time=180, power=5, random_var_w=0.4), 80, "reach", 0.0),
]
