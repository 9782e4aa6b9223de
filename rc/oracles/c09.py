"""Number of units switched on together, per class of overlap with the peak time range."""
import math

from rc.common import multinomial_check, phi
from rc.model import mk_user, day_profile, require, level_runs

ON = 0.01
OFF = ("before", "after", "just before", "just after", "cut before the peak")


def law_peak(n):
    mu, sd = 0.5 * n, 0.25 * n
    cdf = [phi((k - mu) / sd) for k in range(1, n)] + [1.0]
    return [cdf[0]] + [cdf[i] - cdf[i - 1] for i in range(1, n)]


def law_off(n):
    return [1.0 / (n - 0.5)] * (n - 1) + [0.5 / (n - 0.5)]


def check(case, ctx):
    a = case["app"]
    n, power = a["number"], float(a["power"])
    p0, p1 = case["peak"][0], case["peak"][1] - 1  # first and last minute of the peak range
    user = mk_user({"apps": [a]})
    groups = {}
    total = 0
    for d in range(case["days"]):
        prof = day_profile(user, d % 366, case["peak"])
        for s, e, level in level_runs(prof, prof > ON):
            last = e - 1
            k = int(round(level / power))
            require(
                1 <= k <= n and abs(level / power - k) <= 0.0101 * k,
                "level", "a level of %r is not 1 to %d units of %s W", level, n, power,
            )
            if last < p0:
                g = "just before" if last == p0 - 1 else "before"
            elif s > p1:
                g = "just after" if s == p1 + 1 else "after"
            elif last == p0:
                g = "last minute in peak"
            elif s == p1:
                g = "first minute in peak"
            else:
                g = "in peak"
            if case["kind"] == "cut" and e - s < a["func_cycle"] and last < p0 <= s + a["func_cycle"] - 1:
                g = "cut before the peak"
            groups.setdefault(g, [0] * n)[k - 1] += 1
            total += 1
    for g, counts in list(groups.items()):
        t = "off peak" if g in OFF else "overlapping the peak"
        if t not in groups:
            groups[t] = [0] * n
        groups[t] = [x + y for x, y in zip(groups[t], counts)]
    for g, counts in sorted(groups.items()):
        ctx.label(g, sum(counts))
        off = g in OFF or g == "off peak"
        if a.get("fixed") == "yes":
            require(
                sum(counts) == counts[-1], "fixed",
                "units declared always together: counts %s of 1..%d units (%s)", counts, n, g,
            )
            continue
        law, other = (law_off(n), law_peak(n)) if off else (law_peak(n), law_off(n))
        m = multinomial_check(counts, law)
        if m is None:
            # a likelihood ratio of r in favour of another law has a probability below 1/r
            lr = sum(c * math.log(q / p) for c, p, q in zip(counts, law, other))
            if lr > 26:
                m = "the %d events are exp(%.0f) times more likely %s" % (sum(counts), lr, "in the peak" if off else "off peak")
        require(m is None, "law-off" if off else "law-peak", "%d units, events %s: %s", n, g, m)
    require(total > 0, "no-event", "no event in %d days", case["days"])
    ctx.nontrivial = total >= 200
