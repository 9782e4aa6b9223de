"""On-time of an appliance over a day."""
import math

from rc.common import rv_of, min_total, max_total
from rc.model import bad, mk_user, day_profile, require, runs_of, DAY

ON = 0.01


def bounds(a):
    w = a["windows"]
    rw = a.get("random_var_w", 0)
    v = a.get("time_fraction_random_variability", 0)
    ft = a["func_time"]
    fc = a["func_cycle"]
    lo = math.floor(ft * (1 - v) + 1e-9) if v else ft
    hi = math.ceil(ft * (1 + v) - 1e-9) if v else ft
    if v:
        # the randomised functioning time is cut to a whole number of minutes
        lo = min(lo, int(ft * (1 - v)))
    lo, hi = max(lo, fc), max(hi, fc)
    tmin, tmax = min_total(w, rw), max_total(w, rw)
    cap_lo = min(int(0.99 * tmin), (99 * tmin) // 100)
    cap_hi = max(int(0.99 * tmax), (99 * tmax) // 100)
    return min(lo, cap_lo), min(hi, cap_hi)


def check(case, ctx):
    a = case["app"]
    user = mk_user({"apps": [a]})
    if case["kind"] == "nofit":
        for d in range(case["days"]):
            try:
                n = int((day_profile(user, d, case["peak"]) > ON).sum())
            except ValueError:
                continue
            bad("nofit", "on for %d minutes, although the minimum cycle of %d exceeds 99 %% of the windows %s", n, a["func_cycle"], a["windows"])
        ctx.label("nofit")
        ctx.nontrivial = True
        return
    w = a["windows"]
    rw = a.get("random_var_w", 0)
    fc = max(1, a["func_cycle"])
    lo, hi = bounds(a)
    counts = []
    for d in range(case["days"]):
        prof = day_profile(user, d % 366, case["peak"])
        on = prof > ON
        n = int(on.sum())
        counts.append(n)
        require(
            n <= hi, "on-time-above", "on for %d minutes, at most %d expected (day %d)", n, hi, d
        )
        if n < lo:
            free = 0
            zones = [[0, DAY]]
            if "cycles" in a:
                # events have to meet a window of a duty cycle
                zones = [c[k] for c in a["cycles"] for k in ("cw1", "cw2") if k in c]
            for x, y in w:
                r = rv_of(rw, (x, y))
                if x + r < y - r:
                    core = ~on[x + r : y - r]
                    for s, e in runs_of(core):
                        s, e = s + x + r, e + x + r
                        if any(s < z1 and e > z0 for z0, z1 in zones if z0 < z1):
                            free = max(free, e - s)
            require(
                free < fc,
                "on-time-below",
                "on for %d minutes, at least %d expected, although a stretch of %d free minutes "
                "could hold the minimum cycle of %d (day %d)",
                n, lo, free, fc, d,
            )
            ctx.label("shortfall")
        else:
            ctx.label("exact" if lo == hi else "range")
    if case["kind"] == "stat":
        ft, v = a["func_time"], a["time_fraction_random_variability"]
        n = len(counts)
        mean = sum(counts) / n
        # spread bounded by ft*v: Hoeffding
        eps = ft * v * 2 * math.sqrt(26.0 / (2 * n)) + 1.0
        require(
            abs(mean - ft) <= eps,
            "on-time-mean",
            "mean on-time %.1f over %d days, declared %d (+-%.1f)", mean, n, ft, eps,
        )
        if ft * v >= 4:
            below = sum(c < ft for c in counts)
            above = sum(c > ft for c in counts)
            require(
                below > 0 and above > 0,
                "on-time-variability",
                "on-time never goes %s the declared value in %d days although variability is %s",
                "below" if below == 0 else "above", n, v,
            )
            spread = max(counts) - min(counts)
            require(
                spread >= 0.5 * ft * v,
                "on-time-variability",
                "on-time varies by %d minutes only over %d days (%s variability of %d)",
                spread, n, v, ft,
            )
        ctx.label("stat")
        ctx.nontrivial = True
    elif max(counts) > 0:
        ctx.nontrivial = not (len(w) == 1 and max(counts) >= w[0][1] - w[0][0])
    if "cycles" in a:
        ctx.label("duty cycles")
    if any(w1[1] == w2[0] for w1 in w for w2 in w):
        ctx.label("touching windows")
    if rw:
        ctx.label("randomised windows")
    if a["func_cycle"] == 0:
        ctx.label("func_cycle 0")
