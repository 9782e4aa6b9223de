from hypothesis import strategies as st

from rc import strat as s
from rc.common import DAY

CONF = dict(
    quick=26,
    thorough=500,
    rule="a case is one appliance of 1-20 units simulated 500-900 days against a peak range that contains, crosses, touches "
    "or misses its events; every event of a day is identified (each has its own slight power variation) and classified by "
    "its overlap with the peak range; the counts of units per class are compared with the law of the class; non-trivial "
    "when at least 200 events were counted",
    assumptions=["each single statistical decision errs with probability below 1e-11"],
)


@st.composite
def case(draw):
    n = draw(st.sampled_from([1, 2, 2, 3, 4, 5, 7, 10, 20]))
    kind = draw(st.sampled_from(["multi", "multi", "touch", "touch", "inside", "cycle", "cut"]))
    a = {"number": n, "power": draw(s.ints(1, 500)), "thermal_p_var": 0.01}
    c = {"kind": kind, "app": a}
    if kind in ("touch", "cycle"):
        # one event of known length per day, starting on one of two minutes
        fc = draw(st.sampled_from([1, 1, 2, 10, 60, 200]))
        x = draw(s.ints(0, DAY - fc - 3))
        length = fc + 1 if fc > 1 else 3
        if fc >= 100:
            length = fc + 3
        a.update(windows=[[x, x + length]], func_time=fc, func_cycle=fc)
        c["days"] = 900
        side = draw(st.sampled_from(["left", "right"]))
        off = draw(s.ints(-1, 2))
        size = draw(st.sampled_from([2, 2, 4, 60]))
        if side == "left":
            # the peak range begins around the last minute of the event
            p0 = max(0, x + fc - 1 + off)
            c["peak"] = [p0, p0 + size]
        else:
            p1 = x + off
            c["peak"] = [p1 - size, p1]
        if kind == "cycle":
            a.update(fixed_cycle=1, thermal_p_var=0, cycles=[dict(p1=a["power"], t1=5, p2=a["power"], t2=7, cw1=[0, DAY])])
    elif kind == "cut":
        # the second event of the day is cut short by the total time, the part cut off may be in the peak
        fc = draw(s.ints(15, 90))
        ft = fc + draw(s.ints(3, max(3, fc // 3)))
        L = draw(s.ints(3 * fc, 4 * fc))
        x = draw(s.ints(0, DAY - L))
        a.update(windows=[[x, x + L]], func_time=ft, func_cycle=fc, number=draw(st.sampled_from([2, 5, 10, 20])))
        c["days"] = 2000
        c["peak"] = [x + L - fc - draw(s.ints(0, fc)), x + L + 2]
    else:
        fc = draw(s.ints(1, 40))
        ft = fc * draw(s.ints(1, 4))
        L = draw(s.ints(ft + 2, min(DAY, 6 * ft + 60)))
        x = draw(s.ints(0, DAY - L))
        a.update(windows=[[x, x + L]], func_time=ft, func_cycle=fc)
        c["days"] = 500
        if kind == "inside":
            c["peak"] = draw(st.sampled_from([[0, DAY], [DAY, DAY + 30], [x, x + L], [-30, 0]]))
        else:
            p0 = draw(s.ints(max(0, x - 20), x + L))
            c["peak"] = [p0, p0 + 2 * draw(s.ints(1, 60))]
    if draw(s.ints(0, 7)) == 0:
        a["fixed"] = "yes"
    c["rng"] = draw(s.rng(False))
    return c


FIXED = []
