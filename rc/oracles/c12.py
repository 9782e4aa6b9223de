"""Community load: sum over individuals, one row per day."""
import datetime
import random

import numpy as np

from rc import rng
from rc.common import DAY, power_values, window_total
from rc.model import mk_usecase, mk_user, require, level_runs, to_date

EPS = 0.001


def expected_energy(users, day, i):
    """(energy, tolerance) of the i-th simulated day"""
    tot = tol = 0.0
    we = 1 if day.weekday() >= 5 else 0
    for u in users:
        for a in u["apps"]:
            if a.get("wd_we_type", 2) not in (2, we) or a.get("occasional_use", 1) == 0 or a["func_time"] == 0:
                continue
            tot += u["num_users"] * a["number"] * power_values(a["power"])[i] * a["func_time"]
            tol += u["num_users"] * EPS * window_total(a["windows"]) * 1.01
    return tot, tol + 1e-9 * tot


def check_energy(case, rows, what):
    day0 = to_date(case["start"])
    for i in range(case["days"]):
        day = day0 + datetime.timedelta(days=i)
        want, tol = expected_energy(case["users"], day, i)
        got = float(rows[i].sum())
        require(
            abs(got - want) <= tol, "energy",
            "%s: day %d (%s) has an energy of %.3f Wmin instead of %.3f", what, i, day, got, want,
        )


def finite(x):
    require(bool(np.all(np.isfinite(x))), "finite", "non-finite values")


def statistics(user, case, n, seed):
    """energy and load at some minutes, over n independent days"""
    random.seed(seed)
    out = []
    peak = np.arange(600, 700)
    for i in range(n):
        p = np.asarray(user.generate_aggregated_load_profile(0, peak, 0), dtype=float)
        out.append([p.sum()] + [p[m] if p[m] > 1 else 0.0 for m in case["minutes"]])
    return np.array(out)


def excess(one, many, m):
    """{statistic: variance of the category over m times the variance of one individual}, where it can be judged"""
    out = {}
    for j in range(one.shape[1]):
        x, y = one[:, j], many[:, j]
        vx, vy = x.var(), y.var()
        if vx <= 1e-9 * (1 + x.mean() ** 2):
            continue
        kurt = ((x - x.mean()) ** 4).mean() / vx**2
        if kurt > 8:
            continue
        out[j] = vy / (m * vx)
    return out


def check_independent(case, ctx, r):
    """the variances of independent individuals add up"""
    u = case["users"][0]
    m = u["num_users"]
    one = mk_user(dict(u, num_users=1))
    many = mk_user(u)
    ratio = excess(statistics(one, case, 150, r["seed"]), statistics(many, case, 150, r["seed"] + 1), m)
    if any(v > 1.7 or v < 0.55 for v in ratio.values()):
        # confirm with more samples
        ratio2 = excess(statistics(one, case, 800, r["seed"] + 2), statistics(many, case, 800, r["seed"] + 3), m)
        for j in ratio:
            for v in [ratio2.get(j, 1)]:
                require(
                    0.5 < v < 1.9, "dependent",
                    "the variance of the %s of %d individuals is %.2f times the sum of their variances",
                    "energy" if j == 0 else "load at minute %d" % case["minutes"][j - 1], m, v,
                )
    ctx.nontrivial = bool(ratio)


def check(case, ctx):
    n = case["days"]
    k = case["kind"]
    if k == "independent":
        ctx.label(k)
        return check_independent(case, ctx, case["rng"])
    uc = mk_usecase(dict(users=case["users"], random_seed=case.get("random_seed"), **case["cal"]))
    r = case["rng"]

    def again():
        rng.reset(r["seed"], r["p"])

    if k == "energy":
        flat = np.asarray(uc.generate_daily_load_profiles())
        require(flat.shape == (n * DAY,), "shape", "flat profiles of %d days have shape %s", n, flat.shape)
        finite(flat)
        check_energy(case, flat.reshape(n, DAY), "flat")
        two = np.asarray(uc.generate_daily_load_profiles(flat=False))
        require(two.shape == (n, DAY), "shape", "profiles of %d days have shape %s", n, two.shape)
        check_energy(case, two, "by day")
    elif k == "cases":
        labels = case["labels"]
        res = uc.generate_daily_load_profiles(cases=labels)
        df = res.df
        require(
            [str(c) for c in df.columns] == ["case %s" % x for x in labels], "case-columns",
            "cases %s give columns %s", labels, list(df.columns),
        )
        t0 = datetime.datetime.combine(to_date(case["start"]), datetime.time())
        require(
            len(df) == n * DAY
            and df.index[0].to_pydatetime() == t0
            and df.index[-1].to_pydatetime() == t0 + datetime.timedelta(minutes=n * DAY - 1),
            "case-index", "index from %s to %s (%d rows) for %d days from %s", df.index[0], df.index[-1], len(df), n, t0,
        )
        for c in df.columns:
            v = np.asarray(df[c].values, dtype=float)
            finite(v)
            check_energy(case, v.reshape(n, DAY), str(c))
        v = df.values
        if r["p"] == 0 and len(labels) > 1 and v.sum() > 0:
            dup = [
                (i, j)
                for i in range(len(labels))
                for j in range(i)
                if np.array_equal(v[:, i], v[:, j])
            ]
            # identical cases need identical random placements
            free = any(
                a["func_time"] > 5 and window_total(a["windows"]) - a["func_time"] > 30 and a.get("wd_we_type", 2) == 2
                and a.get("occasional_use", 1) == 1
                for u in case["users"] for a in u["apps"]
            )
            require(not (dup and free), "case-copies", "cases %s are copies of one another", dup)
    elif k == "large":
        a = case["users"][0]["apps"][0]
        m, p = case["users"][0]["num_users"], float(a["power"])
        rows = np.asarray(uc.generate_daily_load_profiles(flat=False))[:2]
        for prof in rows:
            on = prof[prof > 0.1 * p] - 0.001 * (m - 1)
            require(bool(np.all(on > 0.699 * p)), "level", "minute at %r although every individual takes at least %r", float(on.min()) if len(on) else None, 0.7 * p)
            mean = DAY * (1 - (1 - 1.0 / DAY) ** m)
            require(
                abs(len(on) - mean) <= 6 * np.sqrt(m) and len(on) <= m, "large",
                "%d individuals on for one random minute each take %d minutes instead of about %d", m, len(on), mean,
            )
            e = float(on.sum()) / p
            require(abs(e - m) <= 7 * 0.174 * np.sqrt(m) + 0.01 * m, "large", "%d individuals have the energy of %.2f", m, e)
            levels = set(round(x, 9) for x in on.tolist())
            require(len(levels) >= len(on) - 1, "copies", "%d minutes of %d individuals only have %d levels", len(on), m, len(levels))
    elif k == "individuals":
        a = case["users"][0]["apps"][0]
        m = sum(u["num_users"] for u in case["users"])
        copies = few = days = 0
        seen = set()
        for _ in range(8):
            two = np.asarray(uc.generate_daily_load_profiles(flat=False))
            require(two.shape == (n, DAY), "shape", "profiles of %d days have shape %s", n, two.shape)
            for i in range(n):
                prof = two[i]
                # every individual is on exactly func_time minutes with its own factor
                on = prof > 0.01
                e = float(prof.sum())
                lo, hi = 0.7 * m * a["power"] * a["func_time"], 1.3 * m * a["power"] * a["func_time"]
                require(lo - 1e-6 <= e <= hi + m * EPS * DAY * 1.01, "energy", "energy %r of %d individuals", e, m)
                levels = set(round(lev, 9) for s, t, lev in level_runs(prof, on))
                require(
                    not (levels <= seen), "days-copies", "a day has the very levels of other days: %s", sorted(levels)[:4]
                )
                seen |= levels
                days += 1
                copies += len(levels) < 2
                few += len(levels) < m
        # two individuals coincide with a probability below 0.1 % when they are independent
        require(
            copies <= days // 2, "copies",
            "%d individuals have one common level on %d days of %d: copies of one another?", m, copies, days,
        )
        require(
            few <= days // 2, "copies",
            "%d individuals have less than %d distinct levels on %d days of %d", m, m, few, days,
        )
    else:
        again()
        flat = np.array(uc.generate_daily_load_profiles(verbose=case.get("verbose", False)))
        again()
        two = np.array(uc.generate_daily_load_profiles(flat=False))
        require(flat.shape == (n * DAY,) and two.shape == (n, DAY), "shape", "shapes %s and %s for %d days", flat.shape, two.shape, n)
        finite(flat)
        require(
            np.array_equal(flat, two.reshape(-1)), "flat-order",
            "the flat profile is not the daily profiles in order",
        )
    ctx.label(k)
    ctx.nontrivial = n > 1 or len(case["users"]) > 1 or any(u["num_users"] > 1 for u in case["users"])
