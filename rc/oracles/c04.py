"""Deterministic models against a reference sum."""
import datetime

import numpy as np

from rc.common import power_values, DAY
from rc.model import mk_user, mk_usecase, require, UseCase


def day_of(users, i, kind, n):
    out = np.zeros(DAY)
    active = 0
    for u in users:
        for a in u["apps"]:
            if a.get("wd_we_type", 2) not in (2, kind):
                continue
            mask = np.zeros(DAY)
            for x, y in a["windows"]:
                mask[x:y] = 1
            out += u["num_users"] * a.get("number", 1) * power_values(a["power"], n)[i] * mask
            active += 1
    return out, active


def reference(users, first, n):
    d0 = datetime.date.fromisoformat(first)
    out = np.zeros((n, DAY))
    active = 0
    for i in range(n):
        kind = 1 if (d0 + datetime.timedelta(days=i)).isoweekday() >= 6 else 0
        out[i], k = day_of(users, i, kind, n)
        active += k
    return out, active


def compare(got, want, key, first):
    got = np.asarray(got, dtype=float)
    require(got.shape == want.shape, "shape", "%s: shape %s instead of %s", key, got.shape, want.shape)
    diff = np.abs(got - want) > 1e-9 * np.maximum(1.0, np.abs(want))
    if diff.any():
        i = tuple(int(x[0]) for x in np.where(diff))
        require(
            False, key, "load %r instead of %r at (day, minute) %s of the run from %s",
            float(got[i]), float(want[i]), i, first,
        )


def check(case, ctx):
    users, n = case["users"], case["n"]
    want, active = reference(users, case["first"], n)
    m = dict(users=users, random_seed=case["random_seed"])
    m.update(case["cal"])
    if case["late"]:
        # users added after the creation of the use case
        m2 = dict(m, users=[])
        m2.pop("date_end", None) if "num_days" in m2 else None
        from rc.model import UseCase

        kw = {k: m[k] for k in ("date_start", "date_end") if k in m}
        if len(kw) == 2:
            kw = {"date_start": case["first"]}
            nd = n
        else:
            nd = m.get("num_days")
        uc = UseCase(name="late", random_seed=case["random_seed"], **kw)
        us = [mk_user(u) for u in users]
        uc.add_user(us)
        uc.initialize(num_days=nd)
    else:
        uc = mk_usecase(m)
    got = np.asarray(uc.generate_daily_load_profiles(flat=case["flat"]))
    if case["flat"]:
        require(got.shape == (n * DAY,), "shape", "flat profile of shape %s", got.shape)
        got = got.reshape(n, DAY)
    compare(got, want, "not-the-sum", case["first"])
    again = np.asarray(uc.generate_daily_load_profiles(flat=False))
    compare(again, want, "second-generation", case["first"])
    # other order of declaration
    users2 = [dict(users[i]) for i in case["perm"]]
    if case["rev"]:
        for u in users2:
            u["apps"] = u["apps"][::-1]
    uc2 = mk_usecase(dict(m, users=users2, random_seed=7))
    compare(uc2.generate_daily_load_profiles(flat=False), want, "order-dependent", case["first"])
    for i, kind in case.get("alone", []):
        for u in users:
            got = mk_user(u).generate_aggregated_load_profile(i, np.arange(600, 700), kind)
            compare(got, day_of([u], i, kind, max(n, 366))[0], "user-alone", "day %d, type %d" % (i, kind))
    kinds = set(a.get("wd_we_type", 2) for u in users for a in u["apps"])
    ctx.label("late" if case["late"] else "at construction")
    ctx.label("calendar " + "+".join(sorted(case["cal"])))
    if len(kinds) > 1:
        ctx.label("several day types")
    ctx.nontrivial = active > 1 and (
        sum(len(u["apps"]) for u in users) > 1 or users[0]["num_users"] > 1 or n > 1
    )
