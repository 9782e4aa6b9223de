"""Calendar of a use case after any history of initialisations."""
import datetime

import numpy as np
import pandas as pd

from rc.common import DAY
from rc.model import mk_user, require, UseCase, to_date

DAYD = datetime.timedelta(days=1)


def cast(s, form):
    if s is None or form == "str":
        return s
    d = to_date(s)
    if form == "date":
        return d
    if form == "timestamp":
        return pd.Timestamp(d.year, d.month, d.day)
    return datetime.datetime(d.year, d.month, d.day)


def verify(uc, want, ctx, user, what, deep):
    n = len(want)
    days = [d.date() if hasattr(d, "date") else d for d in uc.days]
    require(days == want, "days", "%s: days are %s..%s (%d), requested %s..%s (%d)", what, days[0], days[-1], len(days), want[0], want[-1], n)
    require(uc.num_days == n, "num_days", "%s: num_days is %r for %d days", what, uc.num_days, n)
    idx = uc.datetimeindex
    v = idx.values.astype("datetime64[m]").astype(np.int64)
    t0 = (want[0] - datetime.date(1970, 1, 1)).days * DAY
    require(
        len(v) == n * DAY and int(v[0]) == t0 and bool(np.all(np.diff(v) == 1)),
        "index", "%s: time index from %s to %s, %d values for %d days from %s", what, idx[0], idx[-1], len(v), n, want[0],
    )
    require(bool(np.all(idx.values == idx.values.astype("datetime64[m]"))), "index", "%s: index not on whole minutes", what)
    if deep:
        got = np.asarray(uc.generate_daily_load_profiles(flat=False))
        require(got.shape == (n, DAY), "shape", "%s: profiles have shape %s for %d days", what, got.shape, n)
        if user:
            for i, d in enumerate(want):
                we = d.weekday() >= 5
                lev = (float(got[i][5]), float(got[i][15]))
                require(
                    lev == (3.0 * (i + 1), 7.0 if we else 0.0), "day-content",
                    "%s: day %d (%s, %s) has levels %s", what, i, d, "weekend" if we else "weekday", lev,
                )
        ctx.label("generated")


def check(case, ctx):
    form = case["form"]
    user = case["user"]
    users = []
    if user:
        u = {
            "apps": [
                dict(windows=[[0, 10]], func_time=1, flat="yes", power={"base": 3, "step": 3, "period": 366}, name="d"),
                dict(windows=[[10, 20]], func_time=1, flat="yes", power=7, wd_we_type=1, name="we"),
            ]
        }
        users = [mk_user(u)]
    start, end = case["start"], case["end"]
    uc = UseCase(name="c", users=users, date_start=cast(start, form), date_end=cast(end, form))
    start, end = start and to_date(start), end and to_date(end)
    want = None
    before = datetime.date.today()
    inits = 0

    def calendar(n):
        if start and end and n is None:
            n = (end - start).days + 1
            return [start + DAYD * i for i in range(n)]
        if start:
            return [start + DAYD * i for i in range(n)]
        if end:
            return [end - DAYD * (n - 1 - i) for i in range(n)]
        return [datetime.date.today() + DAYD * i for i in range(n)]

    if start and end:
        want = calendar(None)
        inits += 1
        verify(uc, want, ctx, user, "new", len(want) <= 60)
    for i, op in enumerate(case["ops"]):
        what = "step %d %s" % (i, op)
        if op[0] == "set":
            if op[1]:
                uc.date_start = cast(op[1], form)
                start = to_date(op[1])
            if op[2]:
                uc.date_end = cast(op[2], form)
                end = to_date(op[2])
        elif op[0] == "read":
            require(want is not None or (start and end), "history", "%s: nothing to read", what)
            getattr(uc, op[1])
            if want is None:
                want = calendar(None)
                inits += 1
        else:
            n, force = op[1], op[2]
            before = datetime.date.today()
            uc.initialize(num_days=n, force=force)
            if want is None or force:
                if n is None and not (start and end):
                    n = len(want)
                want = calendar(n)
                inits += 1
        if not start and not end and want is not None and datetime.date.today() != before:
            return  # midnight passed
        if want is not None:
            verify(uc, want, ctx, user, what, len(want) <= 60 and (i == len(case["ops"]) - 1 or inits < 3))
    ctx.label("re-initialised" if inits > 1 else "one initialisation")
    ctx.nontrivial = inits > 1 or (want is not None and len(want) > 0 and want[0].month != want[-1].month)
