from hypothesis import strategies as st

from rc import strat as s
from rc.common import DAY

CONF = dict(
    quick=130,
    thorough=5000,
    rule="a case is an appliance with one to three duty cycles (phase powers 1-40 W made distinct, phase durations 0-60 min, "
    "cycle windows covering, splitting or only partly covering the windows of use, thermal and duration variabilities, "
    "continuous or one-shot), simulated over several days and parsed against the admissible patterns, or 200 days for the "
    "laws of the durations and of the phase order; non-trivial when both phases of a cycle were observed or two cycles "
    "could be chosen",
    assumptions=[
        "an event that merely touches the closing minute of a cycle window may be counted as overlapping it or not",
    ],
)


@st.composite
def cycle(draw, i, rc=False, tmin=0):
    p = draw(st.sampled_from([[1, 2], [2, 1], [3, 10], [10, 3], [5, 0], [0, 5]]))
    scale = [1, 7, 50][i]
    t1 = draw(st.one_of(s.ints(tmin, 5), s.ints(max(tmin, 3), 40)))
    t2 = draw(st.one_of(s.ints(tmin, 5), s.ints(max(tmin, 3), 40)))
    if t1 + t2 == 0:
        t1 = 1
    if p[0] * t1 + p[1] * t2 == 0:
        # a cycle without any power is not observable
        p = [1, 2]
    c = dict(p1=p[0] * scale + (0.25 if p[0] else 0), t1=t1, p2=p[1] * scale + (0.25 if p[1] else 0), t2=t2)
    if rc:
        c["rc"] = draw(st.sampled_from([0, 0.1, 0.25, 0.5]))
    return c


@st.composite
def cycle_windows(draw, n, wins):
    """two windows (or one) per cycle"""
    k = draw(st.sampled_from(["all", "split", "free", "partial"]))
    out = []
    if k == "all":
        for i in range(n):
            out.append([[0, DAY], None])
    elif k == "split":
        cuts = sorted(draw(st.lists(s.ints(0, DAY), min_size=n - 1, max_size=n - 1))) if n > 1 else []
        # cut where the appliance is used
        cuts = [0] + cuts + [DAY]
        segs = [[cuts[i], cuts[i + 1]] for i in range(n)]
        segs = draw(st.permutations(segs))
        out = [[g, None] for g in segs]
        if draw(st.booleans()):
            i = draw(s.ints(0, n - 1))
            a = draw(s.ints(0, DAY - 1))
            out[i][1] = [a, draw(s.ints(a + 1, DAY))]
    else:
        for i in range(n):
            ws = []
            for _ in range(2):
                w = draw(st.sampled_from(wins))
                lo = max(0, w[0] - draw(s.ints(0, 30)))
                a = draw(s.ints(lo, max(lo, w[1] - 1)))
                ws.append([a, min(DAY, draw(s.ints(a + 1, max(a + 1, w[1] + 20))))])
            if draw(st.booleans()):
                ws[1] = None
            out.append(ws)
        if k == "free":
            # the last cycle covers everything left
            out[-1][0] = [0, DAY]
    return out


@st.composite
def case(draw):
    k = draw(st.sampled_from(["single", "single", "single", "multi", "multi", "multi", "oneshot", "oneshot", "stat"]))
    n = draw(s.ints(1, 3))
    c = {"kind": k, "peak": draw(s.peak())}
    a = {}
    if k in ("single", "stat"):
        # one window in which a single, complete event takes place each day
        fc = draw(s.ints(2, 90)) if k == "single" else 90
        start = draw(st.sampled_from([0, 0, 1, 5, 300, 700])) if draw(st.booleans()) else draw(s.ints(0, DAY - 2 * fc))
        start = min(start, DAY - 2 * fc)
        wins = [[start, start + 2 * fc - 1]]
        length = 2 * fc - 1
        cap = int(0.99 * length)
        fc = min(fc, cap)
        a.update(func_cycle=fc, func_time=draw(s.ints(fc, length)))
        if fc < 1:
            fc = 1
    elif k == "oneshot":
        wins = draw(s.windows(min_total_len=20, touch=False, n=draw(st.sampled_from([1, 1, 2, 3]))))
        total = s.window_total(wins)
        ft = draw(s.ints(1, min(total, 250)))
        a.update(func_time=ft, func_cycle=draw(s.ints(1, max(1, min(ft, s.feasible_cycle(wins, 0), 30)))))
    else:
        wins = draw(s.windows(min_total_len=20, touch=False, n=draw(st.sampled_from([1, 1, 2, 3]))))
        total = s.window_total(wins)
        ft = draw(s.ints(1, min(total, 250)))
        a.update(func_time=ft, func_cycle=draw(s.ints(1, max(1, min(ft, s.feasible_cycle(wins, 0), 80)))))
    a["windows"] = wins
    a["num_windows"] = len(wins)
    if k == "stat":
        cyc = []
        for i in range(n):
            rc = draw(st.sampled_from([0, 0.2, 0.5]))
            cc = draw(cycle(i, tmin=2))
            cc["p1"] = max(cc["p1"], 1 * [1, 7, 50][i])
            cc["p2"] = max(cc["p2"], 1 * [1, 7, 50][i])
            if cc["p1"] == cc["p2"]:
                cc["p2"] = 2 * cc["p1"]
            cc["t1"] = min(max(cc["t1"], 4), 28)
            cc["t2"] = min(max(cc["t2"], 4), 28)
            cc["rc"] = rc
            cyc.append(cc)
        which = draw(s.ints(0, n - 1))
        for i, cc in enumerate(cyc):
            cc["cw1"] = [0, DAY] if i == which else ([1435, 1440] if wins[0][1] < 1400 else [0, 2])
            if wins[0][0] < 10 and i != which:
                cc["cw1"] = [1435, 1440]
            cc["cw2"] = None
        c["which"] = which
        c["days"] = 200
        a["thermal_p_var"] = draw(st.sampled_from([0, 0.1, 0.2]))
        a["fixed"] = "yes"
        a["continuous_duty_cycle"] = draw(st.sampled_from([0, 1]))
        if a["continuous_duty_cycle"] == 0:
            # no room for a second event, even after the shortest cycle
            wins = [[start, start + 93]]
            a["windows"] = wins
            a["func_time"] = 90
    else:
        var = draw(st.sampled_from(["none", "none", "thermal", "rc"])) if k == "single" else "none"
        cyc = [draw(cycle(i, rc=var == "rc")) for i in range(n)]
        if var != "none" or k == "oneshot":
            for cc in cyc:
                cc["p1"] = max(cc["p1"], 1)
                cc["p2"] = max(cc["p2"], 1)
        cws = draw(cycle_windows(n, wins))
        for cc, ws in zip(cyc, cws):
            cc["cw1"], cc["cw2"] = ws
        if n == 1 and draw(st.booleans()) and len(wins) <= 2:
            # windows of the cycle are those of the appliance by default
            del cyc[0]["cw1"], cyc[0]["cw2"]
        if var == "thermal":
            a["thermal_p_var"] = draw(st.sampled_from([0.05, 0.2]))
        a["continuous_duty_cycle"] = 0 if k == "oneshot" else draw(st.sampled_from([0, 1, 1, 1])) if k == "single" and var != "rc" else 1
        c["days"] = draw(s.ints(1, 6))
        if draw(st.booleans()):
            a["fixed"] = "yes"
        # (power of an appliance with duty cycles is not used)
    a["number"] = draw(s.ints(1, 3)) if k != "stat" else 2
    a["fixed_cycle"] = n
    a["cycles"] = cyc
    a["power"] = draw(s.ints(1, 100))
    c["app"] = a
    c["rng"] = draw(s.rng(k != "stat"))
    if k in ("oneshot", "multi") and c["rng"]["p"] > 0.1:
        # the code redraws events outside the cycle windows: keep the number of draws small
        c["rng"]["p"] = 0.1
    if k == "oneshot":
        shortest = max(1, min(cc["t1"] + cc["t2"] for cc in cyc))
        a["func_time"] = max(a["func_cycle"], min(a["func_time"], 40 * shortest))
        c["days"] = min(c["days"], 3)
    return c


def _c(app, days=20, kind="single", p=0.0, **k):
    d = {"kind": kind, "app": app, "days": days, "peak": [600, 700], "rng": {"seed": 5, "p": p}}
    d.update(k)
    return d


FIXED = [
    # an undeclared second window of cycle 1 must not catch events at midnight
    _c(
        dict(windows=[[0, 19]], func_time=18, func_cycle=10, number=1, power=1, fixed_cycle=2, cycles=[
            dict(p1=1, t1=3, p2=2, t2=3, cw1=[600, 700]), dict(p1=7, t1=3, p2=14, t2=2, cw1=[0, 600])]), 40),
    # window wider than the windows of the cycle
    _c(
        dict(windows=[[0, 1440]], func_time=200, func_cycle=5, number=2, power=1, fixed_cycle=1, cycles=[
            dict(p1=1, t1=3, p2=2, t2=3, cw1=[600, 620])]), 3, "multi"),
    # three windows of use, default windows of the cycle: the third one is unused
    _c(
        dict(windows=[[0, 100], [200, 300], [400, 500]], num_windows=3, func_time=270, func_cycle=5, number=1, power=1, fixed_cycle=1, cycles=[
            dict(p1=1, t1=3, p2=2, t2=3)]), 3, "multi"),
    # one-shot cycles with randomised durations down to zero
    _c(
        dict(windows=[[0, 100]], func_time=20, func_cycle=1, number=1, power=1, fixed_cycle=1, continuous_duty_cycle=0, cycles=[
            dict(p1=3, t1=1, p2=2, t2=1, rc=1)]), 60, "robust"),
    _c(
        dict(windows=[[0, 100]], func_time=20, func_cycle=1, number=1, power=1, fixed_cycle=3, continuous_duty_cycle=0, cycles=[
            dict(p1=3, t1=1, p2=2, t2=0, rc=0.5, cw1=[0, 30]), dict(p1=3, t1=0, p2=2, t2=1, rc=0.5, cw1=[30, 60]), dict(p1=3, t1=1, p2=2, t2=1, rc=1, cw1=[60, 100])]), 60, "robust"),
]
