from hypothesis import strategies as st

from rc import strat as s
from rc.common import DAY

CONF = dict(
    quick=45,
    thorough=2000,
    rule="a case is an appliance with 1-3 windows whose first or second switch-on event can be identified in the profile, "
    "simulated over 700 to 1500 days; non-trivial when several starts (or durations) are possible",
    assumptions=[
        "the law of the first event is observed where only one event fits, that of the second one where the first is longer than the minimum cycle",
        "whether the largest duration itself can be drawn is not decided",
    ],
)


@st.composite
def case(draw):
    k = draw(st.sampled_from(["start", "start", "few", "few", "duration", "duration", "second"]))
    c = {"kind": k, "rng": draw(s.rng(False)), "days": 700, "peak": draw(s.peak())}
    a = dict(number=1, power=draw(s.ints(10, 500)), fixed=draw(st.sampled_from(["yes", "no"])))
    if k == "start":
        w = draw(s.windows(min_len=3, touch=False))
        longest = max(y - x for x, y in w)
        fc = draw(st.one_of(s.ints(1, max(1, longest // 2)), s.ints(1, max(1, min(longest, 30)))))
        fc = max(1, min(fc, int(0.99 * s.window_total(w))))
        a.update(windows=w, func_time=fc, func_cycle=fc)
    elif k == "few":
        # few possible starts, all of them have to be reached
        n = draw(st.sampled_from([1, 2, 2, 3]))
        fc = draw(st.sampled_from([1, 2, 5, 20, 60]))
        if n == 1:
            fc = max(fc, 2)
        pos = draw(st.sampled_from([0, 0, draw(s.ints(0, 900))]))
        w = []
        left = 24
        for i in range(n):
            extra = draw(s.ints(0, left // (n - i)))
            w.append([pos, pos + fc + extra])
            left -= extra
            pos = w[-1][1] + draw(st.sampled_from([1, 7, 100]))
        if draw(s.ints(0, 3)) == 0:
            shift = DAY - w[-1][1]
            w = [[x + shift, y + shift] for x, y in w]
        if n > 1:
            w = draw(st.permutations(w))
        w = [list(x) for x in w]
        if fc > int(0.99 * s.window_total(w)):
            fc = int(0.99 * s.window_total(w))
        fc = max(1, fc)
        a.update(windows=w, func_time=fc, func_cycle=fc)
    elif k == "duration":
        fc = draw(s.ints(6, 200))
        length = draw(s.ints(fc + fc // 2, 2 * fc - 1))
        x = draw(st.sampled_from([0, DAY - length, draw(s.ints(0, DAY - length))]))
        cap = int(0.99 * length)
        a.update(windows=[[x, x + length]], func_cycle=fc, func_time=draw(st.sampled_from([cap, length, draw(s.ints(fc + 1, cap))])))
    else:
        fc = draw(s.ints(4, 30))
        w = draw(s.windows(min_len=3 * fc, touch=False, n=draw(s.ints(1, 3))))
        a.update(windows=w, func_cycle=fc, func_time=2 * fc, thermal_p_var=0.5)
    a["num_windows"] = len(a["windows"])
    c["app"] = a
    return c


FIXED = []
