"""Equality of appliances and users, and the appliances a user keeps."""
import json

import numpy as np
import pandas as pd

from rc.common import is_series, power_values
from rc.model import Appliance, DEFAULTS, UseCase, User, bad, require, window_arg

# declared in other types without changing the meaning
FREE = ("time_fraction_random_variability", "occasional_use", "thermal_p_var", "random_var_w", "pref_index", "wd_we_type", "number")


def build(user, kw, form, alone=False):
    out = {}
    for k, v in kw.items():
        if k.startswith("window_") or k.startswith("cw"):
            v = window_arg(v, form["win"])
        elif k == "power":
            if is_series(v):
                v = power_values(v)
                v = {
                    "frame": lambda: pd.DataFrame(v),
                    "array": lambda: np.array(v),
                    "series": lambda: pd.Series(v),
                    "text": lambda: json.dumps(v),
                }[form["pow"]]()
            elif form["num"] != "plain":
                v = float(v) if form["num"] == "float" else np.float64(v)
        elif k in FREE and form["num"] != "plain":
            v = float(v) if form["num"] == "float" else (np.int64(v) if isinstance(v, int) else np.float64(v))
        out[k] = v
    if not alone:
        return user.add_appliance(**out)
    wins = {k: out.pop(k) for k in list(out) if k.startswith("window_") or k == "random_var_w"}
    cyc = {}
    for k in list(out):
        if k[:2] in ("p_", "t_", "r_", "cw"):
            cyc.setdefault(int(k[3] if k.startswith("r_") else k[2]), {})[k] = out.pop(k)
    app = Appliance(user, **out)
    app.windows(**wins)
    for i in cyc:
        app.specific_cycle(i, **cyc[i])
    return app


def mk(form, **k):
    u = User("u", 1, 3)
    if form["days"]:
        uc = UseCase(name="x", users=[u])
        uc.initialize(num_days=form["days"])
    return u


def norm(kw):
    """all parameters of a declaration"""
    e = dict(DEFAULTS, random_var_w=0)
    for i in (1, 2, 3):
        e["window_%d" % i] = [0, 0]
    e.update(kw)
    for i in (1, 2, 3):
        for j in (1, 2):
            e.setdefault("p_%d%d" % (i, j), 0)
            e.setdefault("t_%d%d" % (i, j), 0)
            e.setdefault("cw%d%d" % (i, j), e["window_%d" % j] if e["fixed_cycle"] == 1 and i == 1 else [0, 0])
        e.setdefault("r_c%d" % i, 0)
    return e


def same_power(p, q):
    """True, False or None (undecided)"""
    if is_series(p) != is_series(q):
        v = power_values(p if is_series(p) else q)
        return None if all(x == v[0] for x in v) else False
    return power_values(p) == power_values(q)


def compare(a, b, expect, what):
    for x, y in ((a, b), (b, a)):
        r = x == y
        require(r in (True, False), "answer", "%s: comparison answers %r", what, r)
        if bool(r) != expect:
            bad("equal" if expect else "different", "%s: compare %s", what, "unequal although all parameters are the same" if expect else "equal although a parameter differs")
        require((x != y) is not r and bool(x != y) != expect, "unequal", "%s: == and != do not contradict each other", what)
    require(bool(a == a), "self", "%s: appliance does not equal itself", what)


def check(case, ctx):
    t = case["type"]
    if t == "pair":
        f1, f2 = case["f1"], case["f2"]
        kw = case["kw"]
        other = dict(kw)
        d = case["delta"]
        if d:
            other[d[0]] = d[1]
        if (f1["days"] or 0) > 366 or (f2["days"] or 0) > 366:
            if is_series(kw["power"]):
                f1, f2 = dict(f1, days=None), dict(f2, days=None)
        a = build(mk(f1), kw, f1)
        b = build(mk(f2), other, f2)
        expect = d is None
        if d and d[0] == "power":
            p = same_power(kw["power"], other["power"])
            if p is None:
                return
            expect = p
        compare(a, b, expect, "pair (%s)" % (d,))
        for x in (5, None, "x", kw, object()):
            require(not (a == x) and a != x, "other-kind", "an appliance equals %r", x)
        ctx.label("different " + d[0].rstrip("123") if d else "same")
        ctx.nontrivial = d is not None or f1 != f2
    elif t == "history":
        kws = [norm(k) for k in case["kws"]]
        user = User("u", 1, 3)
        kept = []  # index of the first kw equal to each appliance
        keep = []  # the objects
        same = {}
        for i in range(len(kws)):
            for j in range(len(kws)):
                same[i, j] = all(kws[i][k] == kws[j][k] for k in kws[i] if k != "power") and same_power(kws[i]["power"], kws[j]["power"])
                if same[i, j] is None:
                    return
        # explicit defaults
        joined = False
        for n, (i, form, how) in enumerate(case["ops"]):
            form = dict(form, days=None)
            what = "step %d (%s)" % (n, how)
            if how == "join":
                if not joined:
                    uc = UseCase(name="x", users=[user])
                    uc.initialize(num_days=form["win"] == "list" and 3 or 30)
                    joined = True
                continue
            if how == "again" and keep:
                user.add_appliance(keep[i % len(keep)])
            else:
                known = any(same[i, j] for j in kept)
                helper = User("u", 1, 3)
                if how == "add":
                    app = build(user, case["kws"][i], form)
                elif how == "several":
                    app = build(helper, case["kws"][i], form, alone=True)
                    app.user = user
                    user.add_appliance(*(keep[:1] + [app, app]) if keep else (app, app))
                else:
                    app = build(helper, case["kws"][i], form, alone=True)
                    app.user = user
                    user.add_appliance(app)
                if not known:
                    kept.append(i)
                    keep.append(app)
                else:
                    ctx.label("already there")
            require(
                [id(x) for x in user.App_list] == [id(x) for x in keep], "kept",
                "%s: the user keeps %d appliances (%s) instead of %d", what, len(user.App_list), [x.name for x in user.App_list], len(keep),
            )
        ctx.label("history")
        ctx.nontrivial = len(keep) > 1
    else:
        apps = case["apps"]
        k = case["change"]
        f1, f2 = dict(case["f1"], days=None), dict(case["f2"], days=None)
        args = {"user_name": "u", "num_users": 3, "user_preference": 1}
        u = User(**args)
        other = dict(args)
        if k in args:
            other[k] = {"user_name": "v", "num_users": 4, "user_preference": 2}[k]
        v = User(**other)
        for i, kw in enumerate(apps):
            build(u, kw, f1)
            if k == "less" and i == len(apps) - 1:
                continue
            if k == "app" and i == case["which"]:
                if case["delta"][0] == "power" and same_power(kw["power"], case["delta"][1]) is not False:
                    return
                kw = dict(kw, **{case["delta"][0]: case["delta"][1]})
            build(v, kw, f2)
        expect = k == "same"
        for x, y in ((u, v), (v, u)):
            r = bool(x == y)
            if r and not expect:
                bad("user-eq-true", "users that differ (%s) compare equal", k)
            require(r == expect, "user-equal", "users with the same parameters and appliances compare unequal")
        require(bool(u == u), "user-self", "a user does not equal itself")
        ctx.label("users " + k)
        ctx.nontrivial = bool(apps)
