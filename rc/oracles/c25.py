"""Files of results, read back."""
import datetime
import os
import random

import numpy as np
import pandas as pd

from ramp import Plot
from ramp.post_process import post_process as pp
from rc.common import DAY
from rc.model import require, scratch, to_date
from rc.oracles.c24 import STEP, stamps


def exact(p, times, cols, what):
    require(isinstance(p, Plot), "type", "%s: %s", what, type(p).__name__)
    df = p.DataFrame
    require(list(df.columns) == [c for c, _ in cols], "columns", "%s: columns %s instead of %s", what, list(df.columns), [c for c, _ in cols])
    require(isinstance(df.index, pd.DatetimeIndex), "index", "%s: index of type %s (%s)", what, type(df.index).__name__, list(df.index)[:2])
    require(stamps(df.index) == times, "index", "%s: index %s.. (%d rows) instead of %s.. (%d)", what, stamps(df.index)[:2], len(df), times[:2], len(times))
    for k, (c, v) in enumerate(cols):
        got = [float(x) for x in df.iloc[:, k].tolist()]
        for i, (x, y) in enumerate(zip(got, v)):
            require(x == y, "value", "%s: column %s, row %d: %r instead of %r", what, c, i, x, y)


def table(case, d):
    n = len(case["vals"][0])
    t0 = datetime.datetime.combine(to_date(case["start"]), datetime.time(case["hour"]))
    times = [t0 + datetime.timedelta(minutes=STEP[case["step"]] * i) for i in range(n)]
    cols = list(zip(case["cols"], case["vals"]))
    df = pd.DataFrame(np.array(case["vals"], dtype=float).T, columns=case["cols"], index=pd.DatetimeIndex(times))
    p = Plot(df)
    path = os.path.join(d, case["fname"] + "." + case["kind"])
    os.makedirs(os.path.dirname(path), exist_ok=True)
    csv = case["kind"] == "csv"
    other = None
    if case["index"] == "shifted":
        other = [t + datetime.timedelta(days=366) for t in times]
    if case["index"] == "int":
        # results are also written with the number of the minute as index
        other = times
        df2 = df.copy()
        df2.index = range(n)
        if csv:
            df2.to_csv(path, sep=case["sep"])
        else:
            df2.to_excel(path)
    elif csv:
        require((p.to_csv(path, sep=case["sep"]) if case["sep"] != "," else p.to_csv(path)) is None, "type", "to_csv returns something")
    else:
        p.to_excel(path)
    require(os.listdir(os.path.dirname(path)) == [os.path.basename(path)], "file", "files written: %s", os.listdir(os.path.dirname(path)))
    exact(p, times, cols, "the data written")
    kw = {}
    if other is not None:
        kw["index"] = pd.DatetimeIndex(other)
    if csv and case["sep"] != ",":
        kw["sep"] = case["sep"]
    if not csv and case["sheet"] is not None:
        kw["sheet_name"] = case["sheet"]
    q = Plot.from_file(path, **kw)
    exact(q, other or times, cols, "%s read back" % case["kind"])
    # the data read can be analysed like the original one
    a, b = p.mean().DataFrame["Mean"].tolist(), q.mean().DataFrame["Mean"].tolist()
    require(a == b, "mean", "means differ after reading")
    path2 = os.path.join(d, "again." + case["kind"])
    q.to_csv(path2) if csv else q.to_excel(path2)
    exact(Plot.from_file(path2), other or times, cols, "written and read twice")


def profiles(case):
    r = random.Random(case["rng"]["seed"])
    n = case["days"]
    if case["level"]:
        return np.array([[r.random() * case["level"] if r.random() < 0.7 else 0.0 for _ in range(DAY)] for _ in range(n)])
    return np.zeros((n, DAY))


def check(case, ctx):
    with scratch() as d:
        if case["kind"] in ("csv", "xlsx"):
            table(case, d)
            ctx.nontrivial = len(case["vals"][0]) > 1 and any(x != int(x) for v in case["vals"] for x in v)
        else:
            n = case["days"]
            prof = profiles(case)
            keep = prof.copy()
            given = prof if case["kind"] == "export" else [row for row in prof]
            avg, kw, series = pp.Profile_formatting(given)
            require(np.array_equal(prof, keep), "modified", "the profiles were modified")
            rows = prof.tolist()
            require(np.asarray(avg).shape == (DAY,), "average", "average of shape %s", np.asarray(avg).shape)
            for m in range(DAY):
                want = sum(rows[i][m] for i in range(n)) / n
                require(abs(avg[m] - want) <= 1e-9 * abs(want), "average", "average at minute %d is %r instead of %r", m, avg[m], want)
            require(len(kw) == n, "kW", "%d days in kW instead of %d", len(kw), n)
            for i in range(n):
                x = np.asarray(kw[i])
                require(x.shape == (DAY,) and bool(np.all(np.abs(x * 1000 - prof[i]) <= 1e-9 * np.abs(prof[i]))), "kW", "day %d in kW differs", i)
            series = np.asarray(series)
            require(series.shape == (n * DAY,) and np.array_equal(series, prof.reshape(-1)), "series", "the series is not the days one after the other")
            if case["kind"] == "export":
                path = os.path.join(d, case["fname"] + ".csv")
                os.makedirs(os.path.dirname(path), exist_ok=True)
                pp.export_series(series, ofname=path)
                require(os.listdir(os.path.dirname(path)) == [os.path.basename(path)], "file", "files written: %s", os.listdir(os.path.dirname(path)))
                with open(path) as f:
                    lines = f.read().splitlines()
                require(len(lines) == n * DAY + 1, "rows", "%d lines for %d minutes", len(lines), n * DAY)
                flat = prof.reshape(-1).tolist()
                for i, l in enumerate(lines[1:]):
                    a, b = l.split(",")
                    require(int(a) == i and float(b) == flat[i], "export", "line %d of the export is %r instead of %r", i + 1, l, flat[i])
                t0 = datetime.datetime.combine(to_date(case["start"]), datetime.time())
                times = [t0 + datetime.timedelta(minutes=i) for i in range(n * DAY)]
                q = Plot.from_file(path, index=pd.DatetimeIndex(times))
                exact(q, times, [("0", flat)], "export read back")
            ctx.nontrivial = n > 1 and bool(case["level"])
    ctx.label(case["kind"])
