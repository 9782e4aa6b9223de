"""Levels of the load of one appliance."""
import numpy as np

from rc.common import power_values, is_series, pit_check
from rc.model import mk_user, mk_usecase, day_profile, require, level_runs

ON = 0.01
TOL = 1e-9


def check_levels(a, prof, day, ctx):
    p = power_values(a["power"])[day]
    n = a.get("number", 1)
    flat = a.get("flat") == "yes"
    v = 0 if flat else a.get("thermal_p_var", 0)
    on = prof > ON
    if not on.any():
        return []
    rs = level_runs(prof, on)
    fixed = a.get("fixed") == "yes" or flat
    for s, e, lv in rs:
        if fixed:
            ok = n * p * (1 - v) * (1 - TOL) <= lv <= n * p * (1 + v) * (1 + TOL)
        else:
            ok = any(
                k * p * (1 - v) * (1 - TOL) <= lv <= k * p * (1 + v) * (1 + TOL) for k in range(1, n + 1)
            )
        require(
            ok,
            "level",
            "load of %r W during minutes [%d, %d) of day %d: not a whole number of %d unit(s) of %s W "
            "(fixed=%s, thermal variability %s)", lv, s, e, day, n, p, fixed, v,
        )
    if v and not flat:
        # every event has its own factor: constant stretches last at least the minimum cycle, one excepted
        short = [r for r in rs if r[1] - r[0] < a["func_cycle"]]
        require(
            len(short) <= 1,
            "level-not-constant-during-event",
            "several constant stretches %s shorter than the minimum cycle %d (day %d)",
            short[:3], a["func_cycle"], day,
        )
    return rs


def check(case, ctx):
    a = case["app"]
    n = a.get("number", 1)
    any_on = False
    levels = set()
    if case["kind"] == "usecase":
        uc = mk_usecase(
            dict(
                users=[dict(name="u", apps=[a])],
                date_start=case["date_start"],
                num_days=case["num_days"],
            )
        )
        arr = np.asarray(uc.generate_daily_load_profiles(flat=False))
        require(arr.shape == (case["num_days"], 1440), "shape", "shape %s", arr.shape)
        for d in range(case["num_days"]):
            rs = check_levels(a, arr[d], d, ctx)
            any_on = any_on or bool(rs)
        ctx.label("usecase")
    elif case["kind"] == "days":
        user = mk_user({"apps": [a]})
        for d in case["prof_i"]:
            rs = check_levels(a, day_profile(user, d, case["peak"]), d, ctx)
            any_on = any_on or bool(rs)
            levels.update(round(r[2], 6) for r in rs)
        ctx.label("days")
    else:
        user = mk_user({"apps": [a]})
        v = a["thermal_p_var"]
        vals = power_values(a["power"])
        pairs = {}
        for d in range(case["days"]):
            prof = day_profile(user, d % 366, case["peak"])
            rs = check_levels(a, prof, d % 366, ctx)
            require(len(rs) == 1, "single-event", "one event expected on day %d, got %s", d, rs[:3])
            f = rs[0][2] / vals[d % 366]
            # the number of units which run
            k = n if a.get("fixed") == "yes" else min(range(1, n + 1), key=lambda x: abs(f / x - 1))
            u = (f / k - (1 - v)) / (2 * v)
            pairs.setdefault(k, []).append((min(1, max(0, u)), min(1, max(0, u))))
        any_on = True
        for k in sorted(pairs):
            m = pit_check(pairs[k])
            require(m is None, "thermal-law", "factor within +-%s of %d units running is not uniform: %s", v, k, m)
        ctx.label("stat")
    if len(levels) > 1:
        ctx.label("several levels")
    if is_series(a["power"]):
        ctx.label("daily power")
    if a.get("thermal_p_var", 0):
        ctx.label("thermal")
    if a.get("fixed") == "yes":
        ctx.label("fixed")
    ctx.nontrivial = any_on and (n > 1 or bool(a.get("thermal_p_var", 0)) or is_series(a["power"]))
