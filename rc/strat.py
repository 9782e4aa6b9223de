"""Hypothesis strategies for RAMP models (CPython side).  Everything is valid by construction."""
from hypothesis import strategies as st

from rc.common import DAY, min_total, window_total, rv_of


def ints(lo, hi):
    return st.integers(lo, hi)


def pick(draw, *alts):
    """one of several strategies or constants, equally weighted"""
    a = draw(st.sampled_from(range(len(alts))))
    a = alts[a]
    return draw(a) if isinstance(a, st.SearchStrategy) else a


seeds = st.integers(0, 2**31 - 1)


@st.composite
def rng(draw, adversarial=True):
    p = draw(st.sampled_from([0.0, 0.0, 0.1, 0.5, 0.9])) if adversarial else 0.0
    return {"seed": draw(seeds), "p": p}


fractions = st.sampled_from([0.01, 0.05, 0.1, 0.2, 0.25, 0.3, 0.33, 0.5, 0.7, 0.75, 0.9, 0.99, 1.0])


@st.composite
def windows(draw, n=None, min_len=1, min_total_len=2, touch=True, order=True):
    """one to three disjoint windows, possibly touching, in any order"""
    if n is None:
        n = draw(st.sampled_from([1, 1, 2, 3]))
    style = draw(st.sampled_from(["cuts", "cuts", "short", "full", "edges"]))
    if style == "full" and n == 1:
        wins = [[0, DAY]]
    elif style == "short":
        # short windows somewhere in the day
        wins = []
        pos = draw(ints(0, 300))
        for _ in range(n):
            length = draw(ints(max(min_len, 1), max(min_len, 1) + draw(st.sampled_from([1, 10, 60]))))
            if pos + length > DAY:
                pos = DAY - length
            wins.append([pos, pos + length])
            gap = draw(st.sampled_from([0, 1, 5, 60, 200] if touch else [1, 5, 60, 200]))
            pos = pos + length + gap
    else:
        # n lengths and n+1 gaps sharing the day
        free = DAY - n * min_len
        cuts = sorted(draw(st.lists(ints(0, free), min_size=2 * n, max_size=2 * n)))
        if not touch:
            for i in range(1, n):
                if cuts[2 * i] == cuts[2 * i - 1] and cuts[2 * i] < free:
                    cuts[2 * i] += 1
                    for j in range(2 * i + 1, 2 * n):
                        cuts[j] = max(cuts[j], cuts[j - 1])
        elif n > 1 and draw(st.booleans()):
            i = draw(ints(1, n - 1))
            cuts[2 * i] = cuts[2 * i - 1]
        if style == "edges":
            if draw(st.booleans()):
                cuts[0] = 0
            if draw(st.booleans()):
                cuts[-1] = free
        wins = []
        for i in range(n):
            wins.append([cuts[2 * i] + i * min_len, cuts[2 * i + 1] + (i + 1) * min_len])
    short = min_total_len - window_total(wins)
    if short > 0:
        # lengthen the last window of the day, to the right if possible, else restart from 0
        if wins[-1][1] + short <= DAY:
            wins[-1][1] += short
        else:
            wins[0][0] = max(0, wins[0][0] - short)
        if window_total(wins) < min_total_len:
            m = -(-min_total_len // n)
            wins = [[i * (m + 1), i * (m + 1) + m] for i in range(n)]
    if order and n > 1:
        wins = draw(st.permutations(wins))
    return [list(w) for w in wins]


def max_rv(wins):
    """largest common variability fraction for which widened windows stay disjoint"""
    ws = sorted(wins)
    best = 0.5
    for (a, b), (c, d) in zip(ws, ws[1:]):
        best = min(best, (c - b) / float((b - a) + (d - c)))
    return int(best * 100) / 100.0


@st.composite
def power(draw, series=False, integer=True):
    k = draw(st.sampled_from(["int", "int", "float", "series" if series else "int"]))
    if k == "series":
        base = draw(ints(1, 500))
        period = draw(st.sampled_from([2, 3, 7, 30, 366]))
        step = draw(ints(1, 20))
        p = {"base": base, "step": step, "period": period}
        if draw(st.booleans()):
            p["over"] = {"365": base}
        return p
    if k == "float" and not integer:
        return draw(ints(1, 4000)) / 4.0
    return draw(st.one_of(ints(1, 12), ints(1, 3000)))


def feasible_cycle(wins, rw):
    """largest minimum cycle that always fits the documented constraint"""
    return int(0.99 * min_total(wins, rw))


@st.composite
def app(
    draw,
    wins=None,
    rw=False,
    tfrv=False,
    thermal=False,
    numbers=ints(1, 6),
    series=False,
    flat=None,
    fixed=None,
    zero_cycle=False,
    touch=True,
    max_cycle=None,
    nwin=None,
    max_func_time=None,
):
    """An appliance without duty cycles, all-week, full frequency, without preference."""
    w = draw(windows(n=nwin, touch=touch)) if wins is None else wins
    a = {"windows": w, "num_windows": len(w)}
    var = 0
    if rw:
        lim = max_rv(w)
        var = draw(st.sampled_from([0, lim, lim / 2, min(lim, 0.1), min(lim, 0.35)]))
        var = round(var, 4)
        if feasible_cycle(w, var) < 1:
            var = 0
    if var or (rw and draw(st.booleans())):
        a["random_var_w"] = var
    total = window_total(w)
    cap = feasible_cycle(w, var)
    hi = total if max_func_time is None else min(total, max_func_time)
    a["func_time"] = pick(draw, ints(1, hi), ints(1, max(1, hi // 4)), hi, ints(1, min(hi, 10)))
    fhi = cap if max_cycle is None else min(cap, max_cycle)
    longest = max(y - x for x, y in w)
    a["func_cycle"] = pick(
        draw,
        1,
        ints(1, min(fhi, 10)),
        ints(1, fhi),
        min(fhi, a["func_time"]),
        min(fhi, longest),
        min(fhi, max(1, a["func_time"] // 3)),
    )
    if zero_cycle and draw(st.integers(0, 7)) == 0:
        a["func_cycle"] = 0
    a["number"] = draw(numbers)
    a["power"] = draw(power(series=series))
    if tfrv:
        a["time_fraction_random_variability"] = draw(
            st.sampled_from([0, 0.05, 0.1, 0.25, 0.5, 0.9, 1])
        )
    if thermal:
        a["thermal_p_var"] = draw(st.sampled_from([0, 0.05, 0.1, 0.2, 0.5]))
    fx = draw(st.sampled_from(["yes", "no"])) if fixed is None else fixed
    if fx == "yes" or draw(st.booleans()):
        a["fixed"] = fx
    if flat:
        a["flat"] = "yes"
    return a


@st.composite
def peak(draw, wins=None):
    """a peak time range [start, stop): anywhere, or next to the windows"""
    k = draw(st.sampled_from(["any", "any", "night", "all", "minute"]))
    if k == "all":
        return [0, DAY]
    if k == "night":
        return [DAY, DAY + 10]
    s = draw(ints(0, DAY - 1))
    if k == "minute":
        return [s, s + 2]
    return [s, s + draw(ints(2, 400))]


@st.composite
def start_dates(draw):
    """ISO dates, biased to the boundaries of months, years and leap days"""
    y = draw(st.sampled_from([1999, 2000, 2015, 2016, 2019, 2020, 2021, 2023, 2024, 2100]))
    k = draw(st.sampled_from(["any", "yearend", "leap", "monthend"]))
    import datetime

    if k == "yearend":
        d = datetime.date(y, 12, 31) - datetime.timedelta(days=draw(ints(0, 3)))
    elif k == "leap":
        d = datetime.date(y, 3, 1) - datetime.timedelta(days=draw(ints(0, 3)))
    elif k == "monthend":
        m = draw(ints(2, 12))
        d = datetime.date(y, m, 1) - datetime.timedelta(days=draw(ints(0, 2)))
    else:
        d = datetime.date(y, 1, 1) + datetime.timedelta(days=draw(ints(0, 364)))
    return d.isoformat()


def plus_days(iso, n):
    import datetime

    return (datetime.date.fromisoformat(iso) + datetime.timedelta(days=n)).isoformat()


names = st.sampled_from(
    ["Low Income", "High income", "hospital", "School", "Bar", "user 1", "Ménage", "x", "A-B_c.d"]
)


@st.composite
def flat_app(draw, series=True, wd=True, name=None):
    """flat appliance with fixed windows: no randomness at all"""
    w = draw(windows())
    total = window_total(w)
    if feasible_cycle(w, 0) < 1:
        w = [[w[0][0], min(DAY, w[0][0] + 3)]] if w[0][0] < DAY - 3 else [[100, 103]]
        total = window_total(w)
    a = {"windows": w, "num_windows": len(w), "flat": "yes", "func_cycle": 1}
    a["func_time"] = pick(draw, total, ints(1, total))
    a["number"] = draw(ints(1, 6))
    a["power"] = draw(power(series=series, integer=False))
    if wd:
        a["wd_we_type"] = draw(st.sampled_from([0, 1, 2, 2, 2]))
    # parameters without effect on a flat appliance with fixed windows
    if draw(st.integers(0, 3)) == 0:
        a["thermal_p_var"] = draw(st.sampled_from([0.1, 0.5]))
    if draw(st.integers(0, 3)) == 0:
        a["fixed"] = "yes"
    if draw(st.integers(0, 3)) == 0:
        a["time_fraction_random_variability"] = 0.3
    if name:
        a["name"] = name
    return a


@st.composite
def flat_community(draw, max_users=4, max_apps=4, series=True):
    users = []
    for i in range(draw(ints(1, max_users))):
        apps = [
            draw(flat_app(series=series, name="app%d" % j)) for j in range(draw(ints(1, max_apps)))
        ]
        users.append(
            dict(name="%s %d" % (draw(names), i), num_users=draw(st.sampled_from([1, 1, 2, 3, 7])), pref=0, apps=apps)
        )
    return users


@st.composite
def calendar(draw, max_days=10, days=None):
    """date_start/date_end/num_days as accepted by the interface"""
    d = draw(start_dates())
    n = draw(ints(1, max_days)) if days is None else days
    k = draw(st.sampled_from(["start+n", "start+end", "end+n", "all"]))
    c = {}
    if k != "end+n":
        c["date_start"] = d
    if k != "start+n":
        c["date_end"] = plus_days(d, n - 1)
    if k != "start+end":
        c["num_days"] = n
    return c, d, n


@st.composite
def duty(draw, i, tmax=40):
    """one duty cycle covering the whole day or a part of it"""
    t1 = draw(st.one_of(ints(0, 5), ints(1, tmax)))
    t2 = draw(st.one_of(ints(0, 5), ints(1, tmax)))
    c = dict(p1=draw(ints(1, 500)), t1=t1 or 1, p2=draw(ints(1, 500)), t2=t2)
    rc = draw(st.sampled_from([None, 0, 0.1, 0.5]))
    if rc is not None:
        c["rc"] = rc
    return c


@st.composite
def full_app(draw, pref=0, series=False, cycles=True, max_func_time=400, name=None, stochastic=False):
    """any appliance: all parameters of the declaration"""
    a = draw(app(rw=draw(st.booleans()), tfrv=True, thermal=True, series=series, max_func_time=max_func_time))
    if stochastic:
        # a continuous random variable that shows in the profile every day
        a["thermal_p_var"] = 0.2
        rw = a.get("random_var_w", 0)
        a["func_cycle"] = max(1, min([a["func_cycle"]] + [max(y - x - 2 * rv_of(rw, (x, y)) for x, y in a["windows"])]))
    else:
        if draw(ints(0, 3)) == 0:
            a["occasional_use"] = draw(st.sampled_from([0, 0.3, 0.7, 1]))
        if draw(ints(0, 3)) == 0:
            a["wd_we_type"] = draw(ints(0, 2))
        if pref and draw(st.booleans()):
            a["pref_index"] = draw(ints(0, pref))
        if draw(ints(0, 5)) == 0:
            a["flat"] = "yes"
        if cycles and draw(ints(0, 3)) == 0:
            n = draw(ints(1, 3))
            a["fixed_cycle"] = n
            a["cycles"] = [draw(duty(i)) for i in range(n)]
            cuts = sorted(draw(st.lists(ints(1, DAY - 1), min_size=n - 1, max_size=n - 1, unique=True)))
            cuts = [0] + cuts + [DAY]
            for i, c in enumerate(a["cycles"]):
                c["cw1"] = [cuts[i], cuts[i + 1]]
            if draw(st.booleans()):
                a["continuous_duty_cycle"] = draw(ints(0, 1))
    if name:
        a["name"] = name
    return a


@st.composite
def community(draw, max_users=3, max_apps=3, series=False, stochastic=False, cycles=True):
    users = []
    for i in range(draw(ints(1, max_users))):
        pref = draw(st.sampled_from([0, 0, 1, 2, 3]))
        apps = []
        for j in range(draw(ints(1, max_apps))):
            apps.append(
                draw(
                    full_app(
                        pref=pref, series=series, cycles=cycles, name="app%d" % j,
                        stochastic=stochastic and i == 0 and j == 0,
                    )
                )
            )
        users.append(
            dict(name="%s %d" % (draw(names), i), num_users=draw(st.sampled_from([1, 1, 2, 4])), pref=pref, apps=apps)
        )
    return users
