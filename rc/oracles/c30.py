"""Histories of declarations and generations on one use case against the reference sum of what it holds."""
import copy
import datetime
import os
import random

import numpy as np
import pandas as pd

from rc.common import DAY, is_series, power_values, window_total
from rc.model import Appliance, UseCase, User, app_kwargs, bad, mk_user, require, scratch, window_kwargs
from rc.oracles.c04 import compare


def day_sum(users, day, power_day):
    """load of the 1440 minutes of one date"""
    kind = 1 if day.isoweekday() >= 6 else 0
    out = np.zeros(DAY)
    for u in users:
        for a in u["apps"]:
            if a.get("wd_we_type", 2) not in (2, kind) or a.get("occasional_use", 1) == 0 or a["func_time"] == 0:
                continue
            for x, y in a["windows"]:
                out[x:y] += u["num_users"] * a.get("number", 1) * power_values(a["power"], 400)[power_day]
    return out


def expected(users, days):
    if not users:
        return np.zeros((len(days), DAY))
    return np.array([day_sum(users, d, i) for i, d in enumerate(days)])


def series_length(users):
    """days which the shortest daily power series covers"""
    return min([power_values(a["power"]).__len__() for u in users for a in u["apps"] if is_series(a["power"])] or [10**6])


def declare(user, a, how):
    if how == "one":
        kw = app_kwargs(a)
        kw.update(window_kwargs(a))
        user.add_appliance(**kw)
    elif how == "parts":
        app = user.add_appliance(**app_kwargs(a))
        app.windows(**window_kwargs(a))
    elif how == "legacy":
        kw = app_kwargs(a)
        names = ["number", "power", "num_windows", "func_time"]
        args = [kw.pop(k) for k in names]
        if "thermal_p_var" in kw:
            kw["thermal_P_var"] = kw.pop("thermal_p_var")
        app = user.Appliance(user, *args, **kw)
        app.windows(**window_kwargs(a))
    else:
        app = Appliance(user, **app_kwargs(a))
        app.windows(**window_kwargs(a))
        if how == "objects":
            # already held: stays there once
            user.add_appliance(app)


def check(case, ctx):
    users = copy.deepcopy(case["users"])
    start, n = datetime.date.fromisoformat(case["start"]), case["n"]
    kw = {}
    if case["ctor"] != "none":
        kw["date_start"] = start.isoformat()
    if case["ctor"] == "dates":
        kw["date_end"] = (start + datetime.timedelta(days=n - 1)).isoformat()
    objs = [mk_user(u) for u in users]
    uc = UseCase(name="h", users=list(objs), random_seed=case["seed"], parallel_processing=case["parallel"], **kw)
    days = [start + datetime.timedelta(days=i) for i in range(n)] if case["ctor"] == "dates" else None
    gens, between = 0, 0
    changed = False

    def pick(x):
        return x % len(users) if users else None

    for step, op in enumerate(case["ops"]):
        k = op[0]
        what = "step %d %s" % (step, str(op)[:90])
        if k == "user":
            u = copy.deepcopy(op[1])
            users.append(u)
            o = mk_user(u)
            uc.add_user(o if op[2] == "one" else [o])
            changed = True
        elif k == "app":
            i = pick(op[1])
            if i is None:
                continue
            users[i]["apps"].append(copy.deepcopy(op[2]))
            declare(uc.users[i], op[2], op[3])
            changed = True
        elif k in ("win", "set"):
            i = pick(op[1])
            if i is None:
                continue
            u, o = users[i], uc.users[i]
            if k == "set" and op[3] == "num_users":
                u["num_users"] = op[4]
                o.num_users = op[4]
                changed = True
                continue
            if not u["apps"]:
                continue
            j = op[2] % len(u["apps"])
            a, p = u["apps"][j], o.App_list[j]
            if k == "set":
                a[op[3]] = op[4]
                setattr(p, op[3], op[4])
            else:
                w = op[3][len(a["windows"]) - 1]
                if window_total(w) < a["func_time"]:
                    continue
                a["windows"] = [list(x) for x in w]
                p.windows(**window_kwargs(a))
                require(sum(x is p for x in o.App_list) == 1 and len(o.App_list) == len(u["apps"]), "list", "%s: the user holds %d appliances instead of %d", what, len(o.App_list), len(u["apps"]))
            changed = True
        elif k == "dates":
            start = datetime.date.fromisoformat(op[1])
            uc.date_end = None
            uc.date_start = start.isoformat() if step % 2 else start
        elif k == "init":
            m, force = op[1:]
            if uc.date_start is None:
                uc.date_start = start
            uc.initialize(num_days=m, force=force)
            if days is None or force:
                days = [start + datetime.timedelta(days=i) for i in range(m)]
            ctx.label("initialised")
        elif k in ("gen", "days"):
            mode = op[1]
            given = None
            if k == "days":
                given = [datetime.date.fromisoformat(x) for x in op[2]]
                passed = [pd.DatetimeIndex(op[2]), given, list(op[2]), [pd.Timestamp(x) for x in op[2]]][step % 4]
            elif days is None:
                if uc.date_start is None:
                    uc.date_start = start
                uc.initialize(num_days=n)
                days = [start + datetime.timedelta(days=i) for i in range(n)]
            which = given or days
            args = {} if given is None else {"days": passed}
            want = expected(users, which)
            if mode == "flat":
                got = np.asarray(uc.generate_daily_load_profiles(**args))
                require(got.shape == (len(which) * DAY,), "shape", "%s: shape %s", what, got.shape)
                got = got.reshape(len(which), DAY)
            elif mode == "rows":
                got = uc.generate_daily_load_profiles(flat=False, **args)
            elif mode == "parallel":
                got = uc.generate_daily_load_profiles_parallel(flat=False, **args)
            elif mode == "users":
                got = np.zeros(want.shape)
                for i, d in enumerate(which):
                    for o in uc.users:
                        got[i] += o.generate_aggregated_load_profile(i, uc.peak_time_range, int(d.isoweekday() >= 6))
            else:
                df = uc.generate_daily_load_profiles(cases=["a", "b"], **args).DataFrame
                require(df.shape == (len(which) * DAY, 2), "shape", "%s: table of shape %s", what, df.shape)
                stamps = [t.to_pydatetime() for t in df.index[::DAY]]
                require(
                    stamps == [datetime.datetime.combine(d, datetime.time()) for d in which] and (df.index[DAY - 1] - df.index[0]).total_seconds() == 60 * (DAY - 1),
                    "index", "%s: days of the table %s", what, stamps[:3],
                )
                for c in df:
                    got = df[c].values.reshape(len(which), DAY)
                    compare(got, want, "not-what-is-held", "%s (%s)" % (which[0], what))
            compare(got, want, "not-what-is-held", "%s (%s)" % (which[0], what))
            if given is not None:
                known = None if uc.days is None else [d.date() for d in uc.days]
                require(known == days, "calendar", "%s: the days of the use case became %s", what, known and known[:3])
                ctx.label("given days" + ("" if days else ", not initialised"))
            ctx.label("generated " + mode)
            if gens and changed:
                between += 1
            if want.any():
                gens += 1
            changed = False
        elif k == "file":
            # (a user without appliances cannot be saved, and users of the same name are one user in a file)
            if not users or any(not u["apps"] for u in users) or len({u["name"] for u in users}) < len(users):
                continue
            with scratch() as d:
                uc.save(os.path.join(d, "db"))
                new = UseCase(name="again", parallel_processing=uc.parallel_processing)
                if op[1] != "fresh" and days is not None:
                    new.date_start, new.date_end = days[0].isoformat(), days[-1].isoformat()
                    if op[1] == "initialized":
                        new.initialize()
                new.load(os.path.join(d, "db.xlsx"))
            if new.date_start is None:
                days = None
            elif not new.is_initialized:
                new.initialize()
            start = days[0] if days is not None else start
            uc = new
            changed = True
            ctx.label("saved and loaded")
        elif k == "more":
            other = [copy.deepcopy(u) for u in op[1]]
            if any(not u["apps"] for u in other) or len({u["name"] for u in other}) < len(other):
                continue
            if {u["name"] for u in other} & {u["name"] for u in users}:
                ctx.label("loaded users with names already held")
            with scratch() as d:
                UseCase(users=[mk_user(u) for u in other]).save(os.path.join(d, "more"))
                uc.load(os.path.join(d, "more.xlsx"))
            users.extend(other)
            changed = True
            ctx.label("loaded more")
        else:
            o = uc.users[step % len(uc.users)] if uc.users else None
            if op[1] == "max" and o is not None:
                o.maximum_profile
            elif op[1] == "peak":
                uc.calc_peak_time_range()
            elif op[1] == "table" and users and all(u["apps"] for u in users):
                t = uc.export_to_dataframe()
                got = list(zip(t["user_name"].tolist(), t["name"].tolist(), t["number"].tolist()))
                want = [(u["name"], a["name"], a.get("number", 1)) for u in users for a in u["apps"]]
                require(got == want, "table", "%s: table lists %s instead of %s", what, got, want)
            elif op[1] == "str":
                str(o)
            elif op[1] == "seed":
                random.seed(step)
            elif op[1] == "userprofile" and o is not None and uc.is_initialized:
                o.generate_single_load_profile(0, uc.peak_time_range, 1)
        require(
            [(u.user_name, len(u.App_list)) for u in uc.users] == [(u["name"], len(u["apps"])) for u in users],
            "held", "%s: holds %s", what, [(u.user_name, len(u.App_list)) for u in uc.users],
        )
    ctx.nontrivial = gens > 1 and between > 0
