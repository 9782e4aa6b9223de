"""Totality over the documented parameter space, with an upper bound of the load."""
import datetime

import numpy as np

from rc.common import DAY, power_values
from rc.model import mk_user, mk_usecase, mk_app, require, bad, to_date, UseCase

NOT_FIT = "func_cycle"


def app_bound(a, d, day):
    we = 1 if day.weekday() >= 5 else 0
    if a["func_time"] == 0 or a.get("occasional_use", 1) == 0 or a.get("wd_we_type", 2) not in (2, we):
        return 0.0
    n = a.get("number", 1)
    p = power_values(a["power"], max(366, d + 1))[d] if a.get("power") is not None else 0
    if a.get("flat") == "yes":
        return float(n * p)
    if a.get("fixed_cycle", 0) > 0:
        p = max([0] + [c[k] for c in a.get("cycles", []) for k in ("p1", "p2")])
    return max(0.001, n * p * (1 + a.get("thermal_p_var", 0)))


def upper_bound(users, d, day):
    return sum(u["num_users"] * app_bound(a, d, day) for u in users for a in u["apps"])


def shortest_total(a):
    rw = a.get("random_var_w", 0)
    return sum(max(0, (y - x) - 2 * int(rw * (y - x))) for x, y in a["windows"])


def may_refuse(a):
    if a["func_time"] == 0 or a.get("occasional_use", 1) == 0:
        return False
    return a.get("func_cycle", 1) > int(0.99 * shortest_total(a))


def check(case, ctx):
    n = case["days"]
    day0 = to_date(case["start"])
    users = case["users"]
    hist = case["hist"]
    m = dict(case["cal"])
    if case["pe"] is not None:
        m["peak_enlarge"] = case["pe"]
    if hist == "late users":
        uc = mk_usecase(dict(m, users=[]), init=True)
        for u in users:
            uc.add_user(mk_user(u))
    elif hist == "late apps":
        uc = mk_usecase(dict(m, users=[dict(u, apps=u["apps"][:1] if n <= 366 else []) for u in users]), init=False)
        for user, u in zip(uc.users, users):
            for a in u["apps"][1 if n <= 366 else 0 :]:
                mk_app(user, a)
        uc.initialize(num_days=m.get("num_days"), force=True)
    else:
        uc = mk_usecase(dict(m, users=users))
    rounds = 2 if hist in ("twice", "reinit") else 1
    used = False
    for r in range(rounds):
        try:
            got = np.asarray(uc.generate_daily_load_profiles(flat=False), dtype=float)
        except ValueError as e:
            if NOT_FIT in str(e) and "too large" in str(e):
                culprits = [a["name"] for u in users for a in u["apps"] if may_refuse(a)]
                if not any((" %s " % c) in str(e) for c in culprits):
                    bad("refused", "refused although the minimum cycle fits: %s", e)
                ctx.label("refused: cycle does not fit")
                return
            raise
        require(got.shape == (n, DAY), "shape", "profiles of %d days have shape %s", n, got.shape)
        require(bool(np.all(np.isfinite(got))), "finite", "non-finite values")
        require(bool(np.all(got >= 0)), "negative", "negative load %r", float(got.min()))
        for d in range(n):
            ub = upper_bound(users, d, day0 + datetime.timedelta(days=d))
            require(
                bool(np.all(got[d] <= ub * (1 + 1e-9) + 1e-9)), "bound",
                "day %d reaches %r W although all units at their highest power make %r W", d, float(got[d].max()), ub,
            )
        used = used or bool(np.any(got > 0.01))
        if hist == "reinit":
            uc.initialize(num_days=m.get("num_days"), force=True)
    ctx.label(hist)
    ctx.label("over a year" if n > 366 else "short")
    ctx.nontrivial = used
