"""Weekdays and weekends, against an independent day count."""
import datetime

import numpy as np
import pandas as pd

from rc.model import require
from ramp import get_day_type, yearly_pattern
import ramp.core.utils as utils


def leap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


MONTHS = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


def month_len(y, m):
    return 29 if m == 2 and leap(y) else MONTHS[m - 1]


def weekend(y, m, d):
    """1 on Saturdays and Sundays; day count from Monday 1 January of year 1"""
    p = y - 1
    n = 365 * p + p // 4 - p // 100 + p // 400
    n += sum(month_len(y, k) for k in range(1, m)) + d - 1
    return 1 if n % 7 >= 5 else 0


def one(x, want, what):
    for f in (get_day_type, utils.get_day_type):
        got = f(x)
        require(
            isinstance(got, (int, np.integer)) and int(got) == want, "day-type",
            "%s %s is classified as %r instead of %d", what, x, got, want,
        )


def check(case, ctx):
    k = case["kind"]
    kinds = set()
    if k == "default":
        p = yearly_pattern()
        want = [1 if i % 7 in (5, 6) else 0 for i in range(365)]
        require([int(x) for x in p] == want, "default-pattern", "default pattern differs: %d values, first days %s", len(p), list(p)[:14])
        kinds = {0, 1}
    elif k == "days":
        for y, m, d in case["days"]:
            want = weekend(y, m, d)
            kinds.add(want)
            one(datetime.date(y, m, d), want, "date")
            one(datetime.datetime(y, m, d, 23, 59, 59), want, "datetime")
            one("%04d-%02d-%02d" % (y, m, d), want, "text")
            if 1678 <= y <= 2261:
                one(pd.Timestamp(y, m, d), want, "timestamp")
    else:
        y = case["year"]
        days = [(m, d) for m in range(1, 13) for d in range(1, month_len(y, m) + 1)]
        want = [weekend(y, m, d) for m, d in days]
        kinds = set(want)
        p = yearly_pattern(y)
        require(len(p) == len(days), "pattern-length", "pattern of %d has %d days instead of %d", y, len(p), len(days))
        for (m, d), w, x in zip(days, want, p):
            require(int(x) == w, "pattern", "%d-%d-%d is %r in the pattern of the year instead of %d", y, m, d, x, w)
            one(datetime.date(y, m, d), w, "date")
            one("%04d-%02d-%02d" % (y, m, d), w, "text")
            one(datetime.datetime(y, m, d, case["hour"], case["minute"]), w, "datetime")
        idx = pd.date_range("%d-01-01" % y, periods=len(days), freq="D", tz=case["tz"])
        require([int(get_day_type(t)) for t in idx] == want, "day-type", "timestamps (%s) of %d differ", case["tz"], y)
    ctx.label(k)
    ctx.nontrivial = kinds == {0, 1}
