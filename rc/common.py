"""Helpers shared by the generators (CPython + Hypothesis) and the oracles (PyPy + ramp).

Python 3.9 syntax; standard library only.
"""
import json
import math

DAY = 1440


def power_values(p, n=366):
    """Expand the compact power description of a case into a list of daily values.

    number                               -> constant
    {"base","step","period","over"}      -> base + step*(i % period), single days overridden
    """
    if isinstance(p, (int, float)):
        return [p] * n
    size = p.get("len", n)
    vals = [p["base"] + p["step"] * (i % p["period"]) for i in range(size)]
    for k, v in p.get("over", {}).items():
        if int(k) < size:
            vals[int(k)] = v
    return vals


def is_series(p):
    return isinstance(p, dict)


def rv_of(rw, w):
    """declared variability of one window, in minutes"""
    return int(rw * (w[1] - w[0]))


def window_total(wins):
    return sum(b - a for a, b in wins)


def min_total(wins, rw):
    """smallest possible total time of the randomised windows (random_var_w <= 0.5)"""
    return sum(max(0, (b - a) - 2 * rv_of(rw, (a, b))) for a, b in wins)


def max_total(wins, rw):
    return sum(
        min(DAY, b + rv_of(rw, (a, b))) - max(0, a - rv_of(rw, (a, b))) for a, b in wins
    )


def canon(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


# ---------------------------------------------------------------- statistics
LOG_ALPHA = math.log(2e11)  # every single statistical decision errs with prob. < 1e-11


def dkw_eps(n):
    """two-sided Dvoretzky-Kiefer-Wolfowitz radius at the error level above"""
    return math.sqrt(LOG_ALPHA / (2.0 * n))


def pit_check(pairs):
    """Distribution test valid for discrete and continuous laws.

    pairs: list of (F(x-), F(x)) of the observations under their expected law
    (independent, possibly each with its own law).  Under the law there is, for each
    observation, a uniform variable between the two values.  Returns None if compatible
    or a message.
    """
    n = len(pairs)
    if n == 0:
        return None
    eps = dkw_eps(n)
    ups = sorted(u for _, u in pairs)
    los = sorted(l for l, _ in pairs)
    worst = 0.0
    for i, u in enumerate(ups):
        # (i+1) observations have an upper PIT <= u: at most u*n + eps*n expected
        d = (i + 1) / n - u
        if d > worst:
            worst = d
            where = u
    for i, l in enumerate(los):
        # observations with lower PIT < l are i: at least (l - eps) n expected
        d = l - i / n
        if d > worst:
            worst = d
            where = l
    if worst > eps + 1e-12:
        return "empirical distribution deviates by %.3f (> %.3f) at quantile %.3f, n=%d" % (
            worst,
            eps,
            where,
            n,
        )
    return None


def kl_bern(a, p):
    t = 0.0
    if a > 0:
        t += a * math.log(a / p) if p > 0 else math.inf
    if a < 1:
        t += (1 - a) * math.log((1 - a) / (1 - p)) if p < 1 else math.inf
    return t


def binom_check(k, n, p):
    """Chernoff bound on k successes out of n with probability p"""
    if n == 0:
        return None
    if n * kl_bern(k / n, p) > LOG_ALPHA:
        return "%d successes out of %d, expected probability %.4f" % (k, n, p)
    return None


def multinomial_check(counts, probs):
    """each category tested with an exact tail bound, then the grouped cumulative sums"""
    n = sum(counts)
    for i, (c, p) in enumerate(zip(counts, probs)):
        m = binom_check(c, n, min(1.0, p))
        if m:
            return "category %d: %s (counts %s, expected %s)" % (
                i,
                m,
                counts,
                ["%.3f" % x for x in probs],
            )
    cc = 0
    pp = 0.0
    for i, (c, p) in enumerate(zip(counts, probs)):
        cc += c
        pp = min(1.0, pp + p)
        if i < len(probs) - 1:
            m = binom_check(cc, n, pp)
            if m:
                return "categories up to %d: %s (counts %s)" % (i, m, counts)
    return None


def corr_check(xs, ys):
    """Pearson correlation of independent samples (n large): |r| sqrt(n) < 7"""
    n = len(xs)
    if n < 100:
        return None
    mx = sum(xs) / n
    my = sum(ys) / n
    sx = sum((x - mx) ** 2 for x in xs)
    sy = sum((y - my) ** 2 for y in ys)
    if sx == 0 or sy == 0:
        return None
    r = sum((x - mx) * (y - my) for x, y in zip(xs, ys)) / math.sqrt(sx * sy)
    if abs(r) * math.sqrt(n) > 7.0:
        return "correlation %.3f over %d samples that should be independent" % (r, n)
    return None


def phi(z):
    return 0.5 * math.erfc(-z / math.sqrt(2.0))


def normal_check(zs, what, slack=0.0):
    """mean and mean square of standardised normal variables (Chernoff bounds), slack: error of each z"""
    n = len(zs)
    if n < 50:
        return None
    m = sum(zs) / n
    if abs(m) > slack + math.sqrt(2 * LOG_ALPHA / n):
        return "%s: standardised mean %.3f over %d draws" % (what, m, n)
    return square_check([z * z for z in zs], what, slack)


def square_check(qs, what, slack=0.0):
    n = len(qs)
    if n < 50:
        return None
    x = sum(qs) / n
    lo, hi = x * (1 - slack) - slack**2, x * (1 + slack) + slack**2
    if lo <= 1 <= hi:
        return None
    y = lo if lo > 1 else hi
    if y <= 0 or n / 2.0 * (y - 1 - math.log(y)) > LOG_ALPHA:
        return "%s: mean square %.3f of the expected one over %d draws" % (what, x, n)
    return None
