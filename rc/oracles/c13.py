"""Parallel generation against sequential generation and against known results."""
import datetime
import multiprocessing

import numpy as np

from rc.common import DAY, binom_check, multinomial_check
from rc.model import mk_usecase, require, level_runs, to_date
from rc.oracles import c12
from rc.oracles.c15 import upper_bound


def check(case, ctx):
    k = case["kind"]
    n = case["days"]
    old = multiprocessing.cpu_count
    multiprocessing.cpu_count = lambda: case["procs"]
    try:
        uc = mk_usecase(dict(users=case["users"], parallel=True, **case["cal"]))
        two = np.asarray(uc.generate_daily_load_profiles(flat=False), dtype=float)
        flat = None
        if k in ("flat", "empty"):
            flat = np.asarray(uc.generate_daily_load_profiles(), dtype=float)
    finally:
        multiprocessing.cpu_count = old
    require(two.shape == (n, DAY), "shape", "parallel profiles of %d days have shape %s", n, two.shape)
    require(bool(np.all(np.isfinite(two)) and np.all(two >= 0)), "finite", "non-finite or negative values")
    ctx.label(k)
    tasks = n * sum(u["num_users"] * len(u["apps"]) for u in case["users"])
    ctx.nontrivial = tasks > 1
    if flat is not None:
        require(
            flat.shape == (n * DAY,) and bool(np.allclose(flat, two.reshape(-1), rtol=1e-9, atol=1e-9)), "flat",
            "flat parallel profiles (shape %s) differ from the daily ones", flat.shape,
        )
    if k in ("flat", "empty"):
        seq = mk_usecase(dict(users=case["users"], **case["cal"]))
        ref = np.asarray(seq.generate_daily_load_profiles(flat=False), dtype=float)
        ok = np.isclose(two, ref, rtol=1e-9, atol=1e-9)
        if not ok.all():
            d, m = [int(x[0]) for x in np.where(~ok)]
            require(
                False, "sequential", "day %d minute %d: %r in parallel, %r sequentially", d, m, float(two[d, m]), float(ref[d, m])
            )
        if case.get("empty") in ("no users", "no appliances", "unused"):
            require(not two.any(), "empty", "a model without active appliance has a load")
    elif k == "energy":
        c12.check_energy(case, two, "parallel")
    elif k == "pref":
        for u in case["users"]:
            counts = [0] * u["pref"]
            same = 0
            for d in range(n):
                per = {}
                for a in u["apps"]:
                    x, y = a["windows"][0]
                    lev = two[d, x:y] / 10.0
                    m = int(round(float(lev[0])))
                    require(bool(np.all(np.abs(lev - m) < 1e-6)), "level", "levels %s in slot %s", lev.tolist(), x)
                    per.setdefault(a["pref_index"], set()).add(m)
                for p, ms in per.items():
                    require(
                        len(ms) == 1, "preference",
                        "appliances of preference %d are used by %s individuals of %s on day %d", p, sorted(ms), u["name"], d,
                    )
                require(per[0] == {u["num_users"]}, "preference", "appliances without preference are used by %s individuals of %d", per[0], u["num_users"])
                got = [per[p].copy().pop() for p in range(1, u["pref"] + 1)]
                require(
                    sum(got) == u["num_users"], "preference",
                    "%d individuals have %s preferences of each kind on day %d", u["num_users"], got, d,
                )
                same += max(got) == u["num_users"]
                counts = [x + y for x, y in zip(counts, got)]
            m = multinomial_check(counts, [1.0 / u["pref"]] * u["pref"])
            require(m is None, "preference-law", "preferences of %s: %s", u["name"], m)
            if u["num_users"] > 1 and u["pref"] > 1:
                m = binom_check(same, n, float(u["pref"]) ** (1 - u["num_users"]))
                require(m is None, "preference-independence", "all %d individuals of %s have the same preference: %s", u["num_users"], u["name"], m)
    elif k == "many":
        factors = {}
        for d in range(n):
            for a in case["users"][0]["apps"]:
                x, y = a["windows"][0]
                levels = set(float(v) / a["power"] for v in two[d, x:y] if v > 0.01)
                require(len(levels) == 1, "level", "levels %s of one event of %s on day %d", sorted(levels), a["name"], d)
                f = round(levels.pop(), 12)
                require(0.7 - 1e-9 <= f <= 1.3 + 1e-9, "level", "%s takes %r times its power", a["name"], f)
                require(
                    f not in factors, "tasks-copies", "%s on day %d and %s have the very same random factor", a["name"], d, factors.get(f),
                )
                factors[f] = (a["name"], d)
    elif k == "individuals":
        a = case["users"][0]["apps"][0]
        m = case["users"][0]["num_users"]
        few = 0
        seen = set()
        for d in range(n):
            on = two[d] > 0.01
            e = float(two[d].sum())
            lo, hi = 0.7 * m * a["power"] * a["func_time"], 1.3 * m * a["power"] * a["func_time"]
            require(lo - 1e-6 <= e <= hi + m * c12.EPS * DAY * 1.01, "energy", "energy %r of %d individuals", e, m)
            levels = set(round(lev, 9) for s, t, lev in level_runs(two[d], on))
            require(not (levels & seen and levels <= seen), "days-copies", "day %d has the very levels of other days", d)
            seen |= levels
            few += len(levels) < m
        require(
            few <= n // 2, "copies",
            "%d individuals have less than %d distinct levels on %d days of %d: copies of one another?", m, m, few, n,
        )
    else:
        day0 = to_date(case["start"])
        for d in range(n):
            ub = upper_bound(case["users"], d, day0 + datetime.timedelta(days=d))
            require(
                bool(np.all(two[d] <= ub + 1e-6)), "bound",
                "day %d reaches %r, all units together at most %r", d, float(two[d].max()), ub,
            )
