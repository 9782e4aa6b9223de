"""Generating profiles leaves the model as it is."""
import random

import numpy as np

from rc import rng
from rc.model import bad, diff_state, mk_usecase, require, user_state
from rc.oracles.c17 import same_cell


def snapshot(uc, table=True):
    t = uc.export_to_dataframe() if table else {}
    return (
        [user_state(u) for u in uc.users],
        dict((c, t[c].tolist()) for c in t),
        [len(a.power) for u in uc.users for a in u.App_list],
        [[id(a) for a in u.App_list] for u in uc.users],
        [str(d) for d in uc.days],
        uc.num_days,
        [int(x) for x in uc.peak_time_range],
        (str(uc.date_start), str(uc.date_end), uc.peak_enlarge, uc.parallel_processing, uc.name, len(uc.datetimeindex)),
    )


NAMES = ["parameters", "table", "power", "appliances", "days", "number of days", "peak time range", "settings"]


def outputs(uc):
    """what was generated last, per user and appliance"""
    out = {}
    for i, u in enumerate(uc.users):
        out[i, None] = None if u.load is None else np.array(u.load)
        for j, a in enumerate(u.App_list):
            out[i, j] = np.array(a.daily_use)
    return out


def same(a, b):
    return (a is None and b is None) or (a is not None and b is not None and np.array_equal(a, b))


def check(case, ctx):
    m = dict(users=case["users"], date_start=case["start"])

    def fresh():
        random.seed(case["seed"])
        uc = mk_usecase(m, init=False)
        uc.initialize(num_days=case["days"])
        return uc

    uc = fresh()
    before = snapshot(uc)
    peak = uc.peak_time_range
    kept = []
    generated = False
    rng.reset(case["rng"]["seed"], case["rng"]["p"])
    for n, (o, i, j, prof_i, dt) in enumerate(case["ops"]):
        ui = i % len(uc.users)
        u = uc.users[ui]
        old = outputs(uc)
        res = None
        touched = set()
        try:
            if o == "single":
                touched = {(ui, x) for x in range(len(u.App_list))}
                res = u.generate_single_load_profile(prof_i, peak, dt)
            elif o == "aggregated":
                touched = {(ui, x) for x in [None] + list(range(len(u.App_list)))}
                res = u.generate_aggregated_load_profile(prof_i, peak, dt)
            elif o == "appliance":
                touched = {(ui, j % len(u.App_list))}
                a = u.App_list[j % len(u.App_list)]
                a.generate_load_profile(prof_i, peak, dt, power=a.power[prof_i])
            elif o == "generate":
                touched = set(old)
                res = uc.generate_daily_load_profiles(flat=bool(dt))
            elif o == "parallel":
                touched = set(old)
                uc.parallel_processing = True
                try:
                    res = uc.generate_daily_load_profiles(flat=bool(dt))
                finally:
                    uc.parallel_processing = False
            elif o == "cases":
                touched = set(old)
                res = uc.generate_daily_load_profiles(cases=["x", "y"]).df.values
            elif o == "max":
                res = u.maximum_profile
            elif o == "save":
                u.save()
            elif o == "str":
                str(u)
                repr(u.App_list[0])
            elif o == "peak":
                res = uc.calc_peak_time_range()
        except ValueError as e:
            if "too large" not in str(e):
                raise
            ctx.label("cycle does not fit")
        ctx.label(o)
        now = snapshot(uc, n == len(case["ops"]) - 1)
        for name, x, y in zip(NAMES, before, now):
            if name == "table":
                for c in y:
                    for k, (p, q) in enumerate(zip(x[c], y[c])):
                        require(same_cell(p, q), "changed", "after %s, column %s of row %d is %s instead of %s", o, c, k, str(q)[:80], str(p)[:80])
            elif x != y:
                bad("changed", "after %s, %s: %s", o, name, diff_state(x, y))
        new = outputs(uc)
        for key in new:
            if key not in touched and not same(old[key], new[key]):
                bad("others", "%s of user %d changed the profile of user %d, appliance %s", o, ui, key[0], key[1])
        for what, r, copy in kept:
            require(np.array_equal(r, copy), "aliased", "the result of %s changed after %s", what, o)
        if res is not None:
            generated = generated or o not in ("max", "peak")
            kept.append((o, res, np.array(res)))
    ref = fresh()
    ui = case["ops"][0][1] % len(ref.users)
    out = []
    for x in (uc, ref):
        random.seed(case["seed"] + 1)
        try:
            if case["check"] == "usecase":
                out.append(np.array(x.generate_daily_load_profiles(flat=False)))
            elif case["check"] == "user":
                out.append(np.array(x.users[ui].generate_aggregated_load_profile(0, x.peak_time_range, 1)))
            else:
                out.append(np.array(x.users[ui].generate_single_load_profile(1, x.peak_time_range, 0)))
        except ValueError as e:
            if "too large" not in str(e):
                raise
            out.append(None)
    require(same(out[0], out[1]), "history", "a used model and a fresh one give different profiles from the same random state (%s, after %s)", case["check"], [o[0] for o in case["ops"]])
    # once more after re-initialisation
    for x in (uc, ref):
        random.seed(case["seed"] + 2)
        x.initialize(num_days=case["days"] + 1, force=True)
    require([int(v) for v in uc.peak_time_range] == [int(v) for v in ref.peak_time_range], "peak-history", "peak ranges differ")
    ctx.nontrivial = generated and out[0] is not None and bool(np.any(out[0] > 0.01))
