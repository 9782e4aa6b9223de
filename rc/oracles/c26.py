"""The theoretical maximum profile, before and after generations."""
import random

import numpy as np

from rc.common import DAY, power_values, is_series
from rc.model import mk_app, mk_usecase, mk_user, require


def close(a, b):
    return bool(np.all(np.abs(a - b) <= 1e-9 * np.maximum(np.abs(a), np.abs(b))))


def expected_app(a):
    v = power_values(a["power"])
    mean = sum(v) / float(len(v))
    out = np.zeros(DAY)
    for x, y in a["windows"]:
        out[x:y] = mean * a["number"]
    return out


def check(case, ctx):
    users = [dict(u, apps=[dict(a) for a in u["apps"]]) for u in case["users"]]
    uc = mk_usecase(dict(users=users, date_start=case["start"], num_days=case["days"]))
    scale = [None]
    generated = [False]

    def look(when):
        total = np.zeros(DAY)
        for u, spec in zip(uc.users, users):
            sub = np.zeros(DAY)
            for x, a in zip(u.App_list, spec["apps"]):
                got = np.asarray(x.maximum_profile, dtype=float)
                want = expected_app(a)
                require(got.shape == (DAY,), "shape", "maximum profile of shape %s", got.shape)
                zero = (want == 0) & (got != 0)
                require(
                    not zero.any(), "outside",
                    "%s: the maximum profile of %s (windows %s) is not zero at minute %s", when, a["name"], a["windows"], np.flatnonzero(zero)[:1],
                )
                if scale[0] is None and want.max() > 0:
                    i = int(np.argmax(want))
                    scale[0] = got[i] / want[i]
                    require(scale[0] > 0, "zero", "%s: the maximum profile of %s is zero inside its windows", when, a["name"])
                if scale[0] is not None:
                    i = np.flatnonzero(np.abs(got - scale[0] * want) > 1e-9 * np.abs(scale[0] * want))
                    require(
                        len(i) == 0, "app",
                        "%s: the maximum profile of %s is %s at minute %s, expected %s (windows %s)", when, a["name"],
                        got[i[:1]], i[:1], scale[0] * want[i[:1]], a["windows"],
                    )
                sub = sub + want
            got = np.asarray(u.maximum_profile, dtype=float)
            want = sub * spec["num_users"]
            require(got.shape == (DAY,), "shape", "maximum profile of a user of shape %s", got.shape)
            if scale[0] is not None:
                require(
                    close(got, scale[0] * want), "user",
                    "%s: the maximum profile of a category of %d users is not the sum over its appliances", when, spec["num_users"],
                )
            total = total + want
        return total

    def peak_of(s):
        random.seed(s)
        return list(uc.calc_peak_time_range())

    look("before")
    p0 = peak_of(case["seed"])
    between = False
    declared = False
    for o, i, j, prof_i, dt, *new in case["ops"]:
        ui = i % len([u for u in uc.users if u.App_list])
        u = uc.users[ui]
        ai = j % len(u.App_list)
        spec = users[ui]["apps"][ai]
        if o in ("windows", "units", "users", "add"):
            declared = True
            if o == "windows":
                w = new[0][int(u.App_list[ai].num_windows) - 1]
                if sum(y - x for x, y in w) < spec["func_time"]:
                    continue
                u.App_list[ai].windows(**{"window_%d" % (q + 1): x for q, x in enumerate(w)})
                spec["windows"] = w
            elif o == "units":
                spec["number"] = prof_i
                u.App_list[ai].number = prof_i
            elif o == "users":
                users[ui]["num_users"] = prof_i
                u.num_users = prof_i
            else:
                mk_app(u, new[0])
                users[ui]["apps"].append(new[0])
        peak = np.arange(600, 700)
        # an appliance added to an initialised use case has as many powers as there are days
        prof_i %= min(len(a.power) for a in u.App_list)
        try:
            if o == "single":
                u.generate_single_load_profile(prof_i, peak, dt)
            elif o == "aggregated":
                u.generate_aggregated_load_profile(prof_i, peak, dt)
            elif o == "appliance":
                a = u.App_list[j % len(u.App_list)]
                a.generate_load_profile(prof_i, peak, dt, power=a.power[prof_i])
            elif o == "generate":
                uc.generate_daily_load_profiles(flat=bool(dt))
            elif o == "cases":
                uc.generate_daily_load_profiles(cases=[1, 2])
            elif o == "reinit":
                uc.initialize(num_days=case["days"], force=True)
            elif o == "peak":
                uc.calc_peak_time_range()
            elif o == "enlarge":
                uc.peak_enlarge = 0.15
        except ValueError as e:
            if "too large" not in str(e):
                raise
            ctx.label("cycle does not fit")
        if o in ("single", "aggregated", "appliance", "generate", "cases"):
            between = True
        ctx.label(o)
        look("after %s" % o)
    p1 = peak_of(case["seed"])
    require(declared or p0 == p1, "peak-history", "the peak time range starts at %s after %s, at %s before, from the same random state", p1[:1], [o[0] for o in case["ops"]], p0[:1])
    if case["late"]:
        users.append(case["late"])
        uc.add_user(mk_user(case["late"]))
        look("after the addition of a user")
        fresh = mk_usecase(dict(users=users, date_start=case["start"], num_days=case["days"]))
        random.seed(case["seed"])
        want = list(fresh.calc_peak_time_range())
        require(peak_of(case["seed"]) == want, "peak-late", "the peak time range of a used use case with an added user differs from that of a new one")
    ctx.nontrivial = between
