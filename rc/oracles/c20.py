"""The same appliances declared in different ways."""
import json
import random

import numpy as np
import pandas as pd

from rc.common import is_series, power_values
from rc.model import (
    DEFAULTS, ARG_KEYS, Appliance, UseCase, User, app_state, bad, cycle_kwargs, diff_state, require, user_state, window_arg,
)
from rc.oracles.c17 import compare_tables


def power_of(p, h):
    if is_series(p):
        v = power_values(p)
        return {
            "frame": lambda: pd.DataFrame(v),
            "series": lambda: pd.Series(v),
            "array": lambda: np.array(v),
            "column": lambda: np.array(v).reshape(-1, 1),
            "json": lambda: json.dumps(list(v)),
        }[h["power"]]()
    if h["num"] == "float":
        return float(p)
    if h["num"] == "numpy":
        return np.float64(p)
    return p


def declare(user, a, h):
    """declare the appliance described by a in the way described by h"""
    full = dict(DEFAULTS)
    full.update({k: a[k] for k in ARG_KEYS if k in a})
    full["num_windows"] = len(a["windows"])
    full["power"] = power_of(a["power"], h)
    given = {k: full[k] for k in ARG_KEYS if k in a or k == "num_windows"}
    if h.get("omit"):
        # values which are the documented defaults are left out
        given = {k: v for k, v in given.items() if k == "power" or v != DEFAULTS[k]}
    form = h["form"]
    wins = {"window_%d" % i: window_arg(w, form) for i, w in enumerate(a["windows"], 1)}
    if h["unused"]:
        # windows which are not used are often declared empty
        for i in range(len(a["windows"]) + 1, 4):
            wins["window_%d" % i] = window_arg([0, 0], form)
    if "random_var_w" in a:
        wins["random_var_w"] = a["random_var_w"]
    cycles = a.get("cycles", [])
    sty = h["style"]

    def kwargs_of_cycle(i, c):
        kw = cycle_kwargs(i, c, form)
        if h.get("omit"):
            # powers, durations and variabilities of zero are the documented defaults
            kw = {k: v for k, v in kw.items() if k.startswith("cw") or v != 0}
        return kw

    def set_windows(app):
        if sty in ("split-pos", "standalone-pos", "legacy-user"):
            w = [wins.get("window_1"), wins.get("window_2"), wins.get("random_var_w", 0), wins.get("window_3")]
            n = 4 if w[3] is not None else 3 if w[2] else 2 if w[1] is not None else 1
            app.windows(*w[:n])
        else:
            app.windows(**wins)

    def set_cycles(app):
        for i, c in enumerate(cycles, 1):
            kw = kwargs_of_cycle(i, c)
            if sty == "cycle-n":
                app.specific_cycle(i, **kw)
            elif sty in ("behaviour", "split-pos", "legacy", "legacy-user"):
                kw.pop("cw%d1" % i, None)
                kw.pop("cw%d2" % i, None)
                f = getattr(app, "specific_cycle_%d" % i)
                if sty == "behaviour":
                    f(**kw)
                else:
                    f(c["p1"], c["t1"], c["p2"], c["t2"], *([c["rc"]] if "rc" in c else []))
            else:
                getattr(app, "specific_cycle_%d" % i)(**kw)
        if cycles and sty in ("behaviour", "split-pos", "legacy", "legacy-user"):
            cws = []
            for i, c in enumerate(cycles):
                # an appliance with one cycle uses its windows as default
                d1 = a["windows"][0] if len(cycles) == 1 else [0, 0]
                d2 = a["windows"][1] if len(cycles) == 1 and len(a["windows"]) > 1 else [0, 0]
                cws += [window_arg(c.get("cw1") or d1, form), window_arg(c.get("cw2") or d2, form)]
            app.cycle_behaviour(*cws)

    def set_both(app):
        if h["order"] == "cycles first" and len(cycles) != 1:
            set_cycles(app)
            set_windows(app)
        else:
            set_windows(app)
            set_cycles(app)

    if sty in ("kw", "positional", "mixed"):
        kw = dict(wins)
        for i, c in enumerate(cycles, 1):
            kw.update(kwargs_of_cycle(i, c))
        n = {"kw": 0, "positional": len(ARG_KEYS), "mixed": h["npos"]}[sty]
        args = [full[k] for k in ARG_KEYS[:n]]
        kw.update({k: given[k] for k in ARG_KEYS[n:] if k in given})
        app = user.add_appliance(*args, **kw)
    elif sty.startswith("split") or sty in ("cycle-n", "behaviour"):
        app = user.add_appliance(**given)
        set_both(app)
    elif sty.startswith("legacy"):
        keys = [k for k in ARG_KEYS if k != "continuous_duty_cycle"]
        n = min(h["npos"], len(keys))
        args = [full[k] for k in keys[:n]]
        kw = {"thermal_P_var" if k == "thermal_p_var" else k: given[k] for k in keys[n:] if k in given}
        if sty == "legacy-user":
            args = [user] + args
        app = user.Appliance(*args, **kw)
        set_both(app)
    else:
        if sty == "standalone-pos":
            app = Appliance(user, *[full[k] for k in ARG_KEYS])
        else:
            app = Appliance(user, **given)
        set_both(app)
        if sty == "standalone+add":
            user.add_appliance(app)
    return app


def new_user(u, way):
    if way == "positional":
        return User(u["name"], u["num_users"], u["pref"])
    kw = dict(user_name=u["name"], num_users=u["num_users"], user_preference=u["pref"])
    if way == "omit":
        kw = {k: v for k, v in kw.items() if v != dict(user_name="", num_users=1, user_preference=0)[k]}
    return User(**kw)


def own_list():
    """the list given at construction stays the one of the caller: it and the use case change independently"""
    given = [User("one"), User("two", 3)]
    kept = list(given)
    uc = UseCase(users=given)
    require(len(uc.users) == 2 and all(x is y for x, y in zip(uc.users, kept)), "list", "users of the use case: %s", len(uc.users))
    uc.add_user(User("three"))
    require(
        len(given) == 2 and all(x is y for x, y in zip(given, kept)), "list",
        "a user added to the use case was added to the list given at construction: %d users", len(given),
    )
    given.append(User("four"))
    del given[0]
    require(
        [u.user_name for u in uc.users] == ["one", "two", "three"], "list",
        "changing the list given at construction changed the users of the use case: %s", [u.user_name for u in uc.users],
    )


def build(case, side):
    w = case[side]
    users = [new_user(u, case.get("user", "positional") if side == "b" else "positional") for u in case["users"]]
    apps = []
    for user, u, hs in zip(users, case["users"], w["apps"]):
        for a, h in zip(u["apps"], hs):
            n = len(user.App_list)
            app = declare(user, a, h)
            require(
                isinstance(app, Appliance) and len(user.App_list) == n + 1 and user.App_list[-1] is app, "added",
                "after the declaration (%s) the user holds %d appliances instead of %d", h["style"], len(user.App_list), n + 1,
            )
    dates = dict(date_start=case["start"])
    reg = w["reg"]
    if reg == "construction":
        own_list()
        uc = UseCase(users=users, **dates)
    else:
        uc = UseCase(**dates)
        if "after init" in reg:
            uc.initialize(num_days=case["days"])
        if reg in ("list", "list after init"):
            uc.add_user(users)
        elif reg == "nested":
            uc.add_user(users[:1])
            uc.add_user(users[1:])
        else:
            for u in users:
                uc.add_user(u)
    require(len(uc.users) == len(users) and all(x is y for x, y in zip(uc.users, users)), "users", "users of the use case: %s", len(uc.users))
    random.seed(case["seed"])
    uc.initialize(num_days=case["days"], force=True)
    return uc


def check(case, ctx):
    a = build(case, "a")
    b = build(case, "b")
    sa, sb = [user_state(u) for u in a.users], [user_state(u) for u in b.users]
    ways = "%s / %s" % ([[h["style"] for h in hs] for hs in case["a"]["apps"]], [[h["style"] for h in hs] for hs in case["b"]["apps"]])
    if sa != sb:
        bad("state", "%s: %s", ways, diff_state(sa, sb))
    for ua, ub, spec in zip(a.users, b.users, case["users"]):
        require(bool(ua == ub), "users-equal", "the users do not compare equal")
        for x, y, ap in zip(ua.App_list, ub.App_list, spec["apps"]):
            require(bool(x == y), "equal", "%s: the appliances %s do not compare equal", ways, x.name)
            # both are what was declared
            st = app_state(x)
            for k in ARG_KEYS:
                if k in ("power", "name"):
                    continue
                want = ap.get(k, DEFAULTS[k]) if k != "num_windows" else len(ap["windows"])
                require(st[k] == want, "declared", "%s: %s is %r instead of %r", ways, k, st[k], want)
            for i, w in enumerate(ap["windows"], 1):
                require(st["window_%d" % i] == w, "declared", "%s: window %d is %s instead of %s", ways, i, st["window_%d" % i], w)
            for i, c in enumerate(ap.get("cycles", []), 1):
                for k, v in cycle_kwargs(i, c).items():
                    require(st[k] == v, "declared", "%s: %s is %s instead of %s", ways, k, st[k], v)
            require("name" not in ap or st["name"] == ap["name"], "declared", "name %r", st["name"])
    compare_tables(a.export_to_dataframe(), b.export_to_dataframe(), ways)
    require(list(a.peak_time_range) == list(b.peak_time_range), "peak", "%s: peak ranges differ with the same seed", ways)
    require([id(x) for x in b.appliances] == [id(x) for u in b.users for x in u.App_list], "appliances", "appliances not collected")
    out = []
    for uc in (a, b):
        random.seed(case["seed"] + 1)
        try:
            out.append(np.asarray(uc.generate_daily_load_profiles(flat=True)))
        except ValueError as e:
            if "too large" not in str(e):
                raise
            out.append(np.zeros(1))
            ctx.label("cycle does not fit")
    i = np.flatnonzero(out[0] != out[1]) if out[0].shape == out[1].shape else [0]
    require(len(i) == 0, "profile", "%s: profiles differ from minute %s", ways, i[:1])
    for side in ("a", "b"):
        for hs in case[side]["apps"]:
            for h in hs:
                ctx.label(h["style"])
    ctx.nontrivial = case["a"] != case["b"] and bool(np.any(out[0]))
