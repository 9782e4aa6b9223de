"""Acceptance and refusal of declarations, by histories on one use case."""
import datetime
import json

import numpy as np
import pandas as pd

from ramp.errors_logs.errors import InvalidType, InvalidWindow

from rc.common import DAY
from rc.model import Appliance, UseCase, User, bad, diff_state, require, user_state, window_arg

WINS = [[0, 400], [500, 800], [900, DAY]]


def good_power(kind, n=366):
    v = [3.0 + (i % 7) for i in range(n)]
    return {
        "int": lambda: 5,
        "float": lambda: 2.5,
        "npint": lambda: np.int64(4),
        "npfloat": lambda: np.float64(4.5),
        "frame": lambda: pd.DataFrame(v),
        "array": lambda: np.array(v),
        "column": lambda: np.array(v).reshape(-1, 1),
        "series": lambda: pd.Series(v),
        "text": lambda: json.dumps(v),
    }[kind]()


BAD_POWER = {
    "none": lambda: None,
    "list": lambda: [object()],
    "dict": lambda: {"a": 1},
    "set": lambda: {1, 2},
    "object": lambda: object(),
    "complex": lambda: 1j,
    "text": lambda: "fifty",
    "textnumber": lambda: "50",
    "textobject": lambda: '{"a": 1}',
    "emptytext": lambda: "",
    "bytes": lambda: b"50",
}


def wrong(kind, user):
    return {
        "text": "user",
        "int": 5,
        "none": None,
        "dict": {"user_name": "x"},
        "class": User,
        "frame": pd.DataFrame({"a": [1]}),
        "user": User("other"),
        "appliance": Appliance(user, name="x", func_time=5),
    }[kind]


def state(uc, users):
    s = {
        "users": [id(u) for u in uc.users],
        "tables": [user_state(u) for u in users],
        "apps": [[id(a) for a in u.App_list] for u in users],
        "pe": uc.peak_enlarge,
        "init": uc.is_initialized,
    }
    if uc.is_initialized:
        s["days"] = [str(d) for d in uc.days]
        s["n"] = uc.num_days
        s["idx"] = [str(uc.datetimeindex[0]), str(uc.datetimeindex[-1]), len(uc.datetimeindex)]
        s["peak"] = np.asarray(uc.peak_time_range).tolist()
    return s


class Model:
    pass


def attempt(ctx, what, uc, users, expect, fn):
    """expect: None (accepted) or the exception class that refuses"""
    before = state(uc, users)
    try:
        r = fn()
    except BaseException as e:
        if expect is None:
            bad("refused", "%s: valid but refused with %s: %s", what, type(e).__name__, e)
        if not isinstance(e, expect) or (isinstance(e, InvalidWindow) and expect is not InvalidWindow):
            bad("wrong-error", "%s: refused with %s (%s) instead of %s", what, type(e).__name__, e, expect.__name__)
        after = state(uc, users)
        if after != before:
            bad("changed", "%s: refused, but changed the declared model: %s", what, diff_state(before, after))
        ctx.refused += 1
        ctx.label("refused " + what.split()[0])
        return None
    if expect is not None:
        bad("accepted", "%s: accepted although it has to be refused with %s", what, expect.__name__)
    ctx.accepted += 1
    ctx.label("accepted " + what.split()[0])
    return r if r is not None else True


def win_verdict(d):
    total = 0
    for i in range(d["n"]):
        w = d["w"][i]
        if w is None:
            if i:
                return InvalidWindow
            w = [0, DAY]
        total += w[1] - w[0]
    return InvalidWindow if total < d["ft"] else None


def win_kw(d):
    kw = {}
    for i, w in enumerate(d["w"]):
        if w is not None:
            kw["window_%d" % (i + 1)] = window_arg(w, d["form"])
    if "rw" in d:
        kw["random_var_w"] = d["rw"]
    return kw


def check(case, ctx):
    ctx.refused = ctx.accepted = 0
    user = User("main", 2)
    users = [user]
    kw = {}
    n = case["dates"]
    # all numbers of days (of calendars and series) are around a year in some cases
    more = case.get("more", 0)
    if n:
        n += more
        end = datetime.date(2021, 5, 1) + datetime.timedelta(days=n - 1)
        kw = dict(date_start="2021-05-01", date_end=end.isoformat())
    uc = UseCase(name="c", users=[user], **kw)
    lens = []  # lengths of the series in the use case
    names = 0
    for i, op in enumerate(case["ops"]):
        k = op[0]
        what = "%s (step %d, %s)" % (k, i, json.dumps(op)[:150])
        names += 1
        name = "a%d" % names
        if k == "app":
            d = op[1]
            wk = win_kw(d)
            if not wk:
                wk = {"window_1": None}
            app = attempt(
                ctx, what, uc, users, win_verdict(d),
                lambda: user.add_appliance(name=name, power=3, num_windows=d["n"], func_time=d["ft"], **wk),
            )
            if app is not None:
                require(any(a is app for a in user.App_list), "not-added", "%s: appliance not in the user's list", what)
        elif k == "app2":
            d = op[1]
            app = user.add_appliance(name=name, power=3, num_windows=d["n"], func_time=d["ft"])
            attempt(ctx, what, uc, users, win_verdict(d), lambda: app.windows(**win_kw(d)))
        elif k == "rewin":
            if not user.App_list:
                continue
            app = user.App_list[op[1] % len(user.App_list)]
            d = dict(op[2], n=int(app.num_windows), ft=app.func_time)
            # windows beyond the announced number are not given
            d["w"] = d["w"][: d["n"]] + [None] * (3 - d["n"])
            attempt(ctx, what, uc, users, win_verdict(d), lambda: app.windows(**win_kw(d)))
        elif k == "power":
            kind = op[1]
            if kind in BAD_POWER:
                attempt(
                    ctx, what, uc, users, ValueError,
                    lambda: user.add_appliance(name=name, power=BAD_POWER[kind](), func_time=10, window_1=[0, 100]),
                )
            else:
                series = kind not in ("int", "float", "npint", "npfloat")
                app = attempt(
                    ctx, what, uc, users, ValueError if series and n and n > 366 else None,
                    lambda: user.add_appliance(name=name, power=good_power(kind), func_time=10, window_1=[0, 100]),
                )
                if app is None:
                    continue
                if series:
                    lens.append(366)
                want = {"int": 5, "float": 2.5, "npint": 4, "npfloat": 4.5}.get(kind)
                want = [3.0 + (j % 7) for j in range(366)] if want is None else [want] * 366
                m = min(len(app.power), 366)
                require(len(app.power) >= (n or 1) and list(app.power[:m]) == want[:m], "power", "%s: powers are %s", what, list(app.power[:8]))
        elif k == "series":
            L, form, direct = op[1:]
            L += more
            p = good_power(form, L)
            verdict = ValueError if n and L < n else None
            if direct:
                r = attempt(ctx, what, uc, users, verdict, lambda: user.add_appliance(name=name, power=p, func_time=10, window_1=[0, 100]))
            else:
                app = Appliance(user, name=name, power=p, func_time=10)
                r = attempt(ctx, what, uc, users, verdict, lambda: user.add_appliance(app))
            if r is not None:
                lens.append(L)
        elif k == "init":
            m, force = op[1:]
            m += more
            if n and not force:
                attempt(ctx, what, uc, users, None, lambda: uc.initialize(num_days=m))
                require(uc.num_days == n, "calendar", "%s: unforced initialisation changed the number of days", what)
                continue
            verdict = ValueError if any(L < m for L in lens) else None
            if attempt(ctx, what, uc, users, verdict, lambda: uc.initialize(num_days=m, force=force)) is not None:
                n = m
                require(uc.num_days == n and len(uc.days) == n, "calendar", "%s: %s days", what, uc.num_days)
                require(all(len(a.power) >= n for u in uc.users for a in u.App_list), "power-length", "%s: power shorter than the period", what)
        elif k == "pe":
            v, via = op[1:]
            verdict = None
            if not isinstance(v, float):
                verdict = TypeError
            elif v < 0:
                verdict = ValueError
            if via == "init" or not n:
                m = n or 4
                if verdict is None and any(L < m for L in lens):
                    verdict = ValueError
                elif verdict is not None and any(L < m for L in lens):
                    continue
                r = attempt(ctx, what, uc, users, verdict, lambda: uc.initialize(num_days=m, peak_enlarge=v, force=True))
                if r is not None:
                    n = m
            elif via == "set":
                r = attempt(ctx, what, uc, users, verdict, lambda: setattr(uc, "peak_enlarge", v))
            else:
                r = attempt(ctx, what, uc, users, verdict, lambda: uc.calc_peak_time_range(peak_enlarge=v))
            if r is not None:
                require(uc.peak_enlarge == v, "pe-value", "%s: value is %r", what, uc.peak_enlarge)
        elif k == "user":
            L, how = op[1:]
            L = L and L + more
            u = User("u%d" % names, 1)
            u.add_appliance(name="s", power=good_power("frame", L) if L else 5, func_time=10, window_1=[0, 100])
            verdict = ValueError if n and L and L < n else None
            if attempt(ctx, what, uc, users, verdict, lambda: uc.add_user(u if how == "one" else [u])) is not None:
                require(any(x is u for x in uc.users), "not-added", "%s: user not in the use case", what)
                users.append(u)
                if L:
                    lens.append(L)
        elif k == "users":
            us = []
            ls = [L and L + more for L in op[1]]
            for L in ls:
                u = User("u%d" % names, 1)
                u.add_appliance(name="s", power=good_power("frame", L) if L else 5, func_time=10, window_1=[0, 100])
                us.append(u)
            verdict = ValueError if n and any(L and L < n for L in ls) else None
            if attempt(ctx, what, uc, users + us, verdict, lambda: uc.add_user(list(us))) is not None:
                require([id(x) for x in uc.users[-len(us):]] == [id(u) for u in us], "not-added", "%s: users not in the use case", what)
                users.extend(us)
                lens.extend(L for L in ls if L)
        elif k == "several":
            # several appliances in one call
            ls = [L and L + more for L in op[1]]
            apps = [Appliance(user, name="%s %d" % (name, j), power=good_power("frame", L) if L else 5, func_time=10) for j, L in enumerate(ls)]
            verdict = ValueError if n and any(L and L < n for L in ls) else None
            if attempt(ctx, what, uc, users, verdict, lambda: user.add_appliance(*apps)) is not None:
                require([id(x) for x in user.App_list[-len(apps):]] == [id(x) for x in apps], "not-added", "%s: appliances not in the user's list", what)
                lens.extend(L for L in ls if L)
        elif k == "wronguser":
            kind, how = op[1:]
            x = wrong(kind, user)
            if how == "new":
                attempt(ctx, what, uc, users, InvalidType, lambda: UseCase(users=[x]))
            elif how == "one":
                attempt(ctx, what, uc, users, InvalidType, lambda: uc.add_user(x))
            elif how == "list":
                attempt(ctx, what, uc, users, InvalidType, lambda: uc.add_user([x]))
            else:
                attempt(ctx, what, uc, users, InvalidType, lambda: uc.add_user([User("fine"), x]))
        else:
            kind, how = op[1:]
            x = wrong(kind, user)
            a, b = Appliance(user, name=name, power=3, func_time=5), Appliance(user, name=name + "b", power=3, func_time=5)
            args = (a, b, x) if how == "last" else (a, x, b)
            attempt(ctx, what, uc, users, TypeError, lambda: user.add_appliance(*args))
    ctx.nontrivial = ctx.refused > 0 and ctx.accepted > 0
