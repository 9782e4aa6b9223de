"""Analysis of results against plain arithmetic."""
import datetime
import math

import numpy as np
import pandas as pd

from ramp import Plot
from rc.model import bad, require, to_date

STEP = {"min": 1, "15min": 15, "h": 60, "D": 1440}
FREQ = {"min": 1, "5min": 5, "15min": 15, "30min": 30, "h": 60, "2h": 120, "3h": 180, "6h": 360, "12h": 720, "D": 1440, "2D": 2880}


def num(a, b):
    if isinstance(b, float) and (math.isnan(b) or math.isinf(b)):
        return (math.isnan(a) and math.isnan(b)) or a == b
    return abs(a - b) <= 1e-9 * max(abs(a), abs(b), 1e-300)


class Table:
    """the model: times and columns as plain lists"""

    def __init__(self, times, cols):
        self.times = list(times)
        self.cols = [(c, list(v)) for c, v in cols]

    def names(self):
        return [c for c, _ in self.cols]

    def get(self, name):
        return dict(self.cols)[name]

    def take(self, rows, names):
        d = dict(self.cols)
        return Table([self.times[i] for i in rows], [(c, [d[c][i] for i in rows]) for c in names])


def stamps(index):
    return [t.to_pydatetime() for t in index]


def same(p, t, what):
    """p is a Plot holding exactly the table t"""
    require(isinstance(p, Plot), "type", "%s: %s instead of a Plot", what, type(p).__name__)
    df = p.DataFrame
    require(isinstance(df, pd.DataFrame), "type", "%s: data of type %s", what, type(df).__name__)
    require(list(df.columns) == t.names() and p.columns == t.names(), "columns", "%s: columns %s instead of %s", what, list(df.columns), t.names())
    require(isinstance(df.index, pd.DatetimeIndex), "index", "%s: index of type %s", what, type(df.index).__name__)
    got = stamps(df.index)
    require(got == t.times and stamps(p.index) == t.times, "index", "%s: %d rows from %s instead of %d from %s", what, len(got), got[:2], len(t.times), t.times[:2])
    for k, (c, v) in enumerate(t.cols):
        for i, (x, y) in enumerate(zip(df.iloc[:, k].tolist(), v)):
            require(num(x, y), "value", "%s: %s at %s is %r instead of %r", what, c, t.times[i], x, y)


RULES = {
    "mean": lambda v: sum(v) / float(len(v)),
    "sum": sum, "max": max, "min": min, "first": lambda v: v[0], "last": lambda v: v[-1], "count": len,
}


def resampled(t, freq, rule, conv):
    width = FREQ[freq]
    day0 = datetime.datetime.combine(t.times[0].date(), datetime.time())
    bins = {}
    for i, x in enumerate(t.times):
        bins.setdefault(int((x - day0).total_seconds() // 60) // width, []).append(i)
    lo, hi = min(bins), max(bins)
    require(len(bins) == hi - lo + 1, "harness", "empty bins")
    keys = range(lo, hi + 1)
    return Table(
        [day0 + datetime.timedelta(minutes=width * k) for k in keys],
        [(c, [RULES[rule]([v[i] / conv for i in bins[k]]) for k in keys]) for c, v in t.cols],
    )


def traces(fig):
    out = []
    for tr in fig.data:
        out.append((tr.name, [pd.Timestamp(x).to_pydatetime() if not isinstance(x, (int, np.integer)) else int(x) for x in list(tr.x)], [float(y) for y in list(tr.y)]))
    return out


def same_trace(tr, name, x, y, what):
    require(name is None or tr[0] == name, "figure", "%s: trace %r instead of %r", what, tr[0], name)
    if tr[1] is not None:
        require(tr[1] == x, "figure", "%s: abscissa of %r from %s instead of %s", what, name, tr[1][:2], x[:2])
    require(len(tr[2]) == len(y) and all(num(a, b) for a, b in zip(tr[2], y)), "figure", "%s: values of %r differ: %s instead of %s", what, name, tr[2][:5], y[:5])


def drawn(fig):
    """lines of a matplotlib figure: (label, None, values)"""
    import matplotlib.pyplot as plt

    ax = fig[1] if isinstance(fig, tuple) else fig
    require(hasattr(ax, "get_lines"), "figure", "%s is returned instead of a graph", type(ax).__name__)
    out = [(str(l.get_label()), None, [float(y) for y in l.get_ydata()]) for l in ax.get_lines()]
    plt.close(ax.figure)
    return out


def figure(f, o, **kw):
    engine = o.get("engine", "plotly")
    fig = f(engine=engine, **kw)
    return drawn(fig) if engine.lower() == "matplotlib" else traces(fig)


def refused(f, what, errors=(ValueError, KeyError)):
    try:
        r = f()
    except errors:
        return
    bad("accepted", "%s is accepted and gives %s", what, type(r).__name__)


def do(p, t, o, ctx):
    """applies one operation to p, checks what it returns, returns the table expected in p afterwards"""
    k = o["op"]
    n = len(t.times)
    if k.startswith("resample"):
        conv = o["conversion"] or 1
        kw = {} if o["conversion"] is None else {"conversion": o["conversion"]}
        want = resampled(t, o["freq"], o["rule"], conv)
        what = "resample(%s, %s, conversion=%s)" % (o["freq"], o["rule"], conv)
        if k == "resample":
            same(p.resample(o["freq"], o["rule"], **kw), want, what)
        else:
            r = p.resample(o["freq"], o["rule"], inplace=True, **kw)
            require(r is None, "type", "%s in place returns %s", what, type(r).__name__)
            same(p, want, what + " in place")
            return want
    elif k == "mean":
        same(p.mean(), Table(t.times, [("Mean", [sum(v[i] for _, v in t.cols) / float(len(t.cols)) for i in range(n)])]), k)
    elif k == "sum":
        same(p.sum(), Table(t.times, [("Sum", [sum(v[i] for _, v in t.cols) for i in range(n)])]), k)
    elif k == "peak":
        r = p.peak
        require(sorted(r) == sorted(t.names()), "peak", "peak of %s instead of %s", sorted(r), sorted(t.names()))
        for c, v in t.cols:
            m = max(v)
            want = [t.times[i] for i in range(n) if v[i] == m]
            require(stamps(r[c].index) == want and all(x == m for x in r[c].tolist()), "peak", "peak of %s: %s at %s instead of %r at %s", c, r[c].tolist()[:3], stamps(r[c].index)[:3], m, want[:3])
    elif k == "error":
        b, v = t.get(o["base"]), t.get(o["ref"])
        want = []
        for x, y in zip(b, v):
            if y == 0:
                want.append(0.0 if x == 0 else math.inf if x > 0 else -math.inf)
            else:
                want.append((x - y) / float(y) * 100)
        r = p.error(o["base"], o["ref"])
        require(stamps(r.index) == t.times, "error", "error has another index")
        for i, (x, y) in enumerate(zip(r.tolist(), want)):
            require(num(x, y) or abs(x - y) < 1e-9, "error", "error of %r with respect to %r is %r instead of %r", b[i], v[i], x, y)
    elif k == "ldc":
        tr = figure(p.load_duration_curve, o, column=o["col"])
        require(len(tr) == 1, "figure", "load duration curve with %d traces", len(tr))
        same_trace(tr[0], o["col"], list(range(1, n + 1)), sorted(t.get(o["col"]), reverse=True), "load duration curve")
    elif k in ("loc", "iloc"):
        select(p, t, o)
    elif k == "head":
        same(p.head(o["n"]), t.take(range(min(n, o["n"])), t.names()), "head(%d)" % o["n"])
    elif k == "getitem":
        key = o["key"]
        same(p[key], t.take(range(n), [key] if isinstance(key, str) else key), "[%r]" % (key,))
    elif k == "copy":
        c = p.copy()
        same(c, t, "copy")
        c.add_column(pd.DataFrame({"only in the copy": [0.0] * n}, index=c.index))
        c.DataFrame.iloc[0, 0] = -123456.0
    elif k == "add":
        new = pd.DataFrame(dict((c, [x / 4.0 for x in v]) for c, v in o["new"].items()), index=p.index)
        r = p.add_column(Plot(new) if o["as"] == "plot" else new)
        cols = list(t.cols)
        for c, v in o["new"].items():
            v = [x / 4.0 for x in v]
            if c in t.names():
                cols = [(x, v if x == c else y) for x, y in cols]
            else:
                cols.append((c, v))
        want = Table(t.times, cols)
        same(p, want, "add_column(%s)" % list(o["new"]))
        return want
    elif k in ("line", "area"):
        key = o["key"]
        names = t.names() if key is None else [key] if isinstance(key, str) else key
        tr = figure(getattr(p, k), o, columns=key, title="x")
        require(len(tr) == len(names), "figure", "%s of %s has %d traces", k, names, len(tr))
        for x, c in zip(tr, names):
            same_trace(x, c, t.times, t.get(c), k)
    elif k == "shadow":
        key, main = o["key"], o["main"]
        kw = {} if key is None else {"columns": key}
        names = t.names() if key in (None, "all") else [key] if isinstance(key, str) else key
        if main is not None:
            kw.update(main_column=main, average=False)
            first, vals = main, t.get(main)
        else:
            first, vals = "Average", [sum(v[i] for _, v in t.cols) / float(len(t.cols)) for i in range(n)]
        tr = figure(p.shadow, o, **kw)
        require(len(tr) == 1 + len(names), "figure", "shadow plot of %s has %d traces", names, len(tr))
        same_trace(tr[0], first, t.times, vals, k)
        for x, c in zip(tr[1:], names):
            same_trace(x, None, t.times, t.get(c), k)
    elif k == "invalid":
        invalid(p, t, o["what"])
    elif k == "columns":
        new = ["%s%d" % (o["prefix"], i) for i in range(len(t.cols))]
        old = p.columns
        p.columns = new
        same(p, Table(t.times, [(c, v) for c, (_, v) in zip(new, t.cols)]), "columns = %s" % new)
        p.columns = old
    elif k == "freq":
        require(p.freq == p.index.freq, "freq", "freq is %s", p.freq)
        str(p), repr(p)
    return t


def select(p, t, o):
    n, names = len(t.times), t.names()
    c = [x for x in o["c"] if x < len(names)] or [0]
    i, j = sorted((o["i"] % n, o["j"] % n))
    rows = o["rows"]
    lst = [x % n for x in o["list"]]
    lst = [x for k, x in enumerate(lst) if x not in lst[:k]]
    loc = o["op"] == "loc"
    ts = [pd.Timestamp(x) for x in t.times]
    want_r = range(n)
    kw = {}
    if rows == "one":
        kw["index"] = ts[i] if loc else i
        want_r = [i]
    elif rows == "neg":
        kw["index"] = -1 - i
        want_r = [n - 1 - i]
    elif rows == "list":
        kw["index"] = [ts[x] for x in lst] if loc else lst
        want_r = lst
    elif rows == "slice":
        # slices of labels include their end
        kw["index"] = slice(ts[i], ts[j]) if loc else slice(i, j)
        want_r = range(i, j + 1 if loc else j)
    elif rows == "text":
        kw["index"] = slice(str(ts[i]), str(ts[j]))
        want_r = range(i, j + 1)
        if n > 1 and all(x.hour == 0 and x.minute == 0 for x in (ts[i], ts[j])):
            # a text without time stands for the whole day
            kw["index"] = slice(ts[i].strftime("%Y-%m-%d %H:%M:00"), ts[j].strftime("%Y-%m-%d %H:%M:00"))
    elif rows == "mask":
        m = [x in lst for x in range(n)]
        kw["index"] = m
        want_r = [x for x in range(n) if m[x]]
    want_c = names
    if o["cols"] == "one":
        kw["columns"] = names[c[0]] if loc else c[0]
        want_c = [names[c[0]]]
    elif o["cols"] == "list":
        kw["columns"] = [names[x] for x in c] if loc else c
        want_c = [names[x] for x in c]
    elif o["cols"] == "slice":
        lo, hi = min(c), max(c)
        kw["columns"] = slice(names[lo], names[hi]) if loc else slice(lo, hi)
        want_c = names[lo : hi + 1 if loc else hi]
    if not want_c:
        kw["columns"] = slice(0, 1)
        want_c = names[:1]
    same(getattr(p, o["op"])(**kw), t.take(want_r, want_c), "%s(%s)" % (o["op"], kw))


def invalid(p, t, what):
    n = len(t.times)
    frame = pd.DataFrame({"new": [1.0] * n}, index=p.index)
    if what == "engine":
        for f in ("line", "area", "shadow"):
            refused(lambda: getattr(p, f)(engine="gnuplot"), "engine gnuplot of %s" % f)
        refused(lambda: p.load_duration_curve(t.names()[0], engine=""), "no engine")
    elif what == "add-index":
        late = frame.copy()
        late.index = late.index + pd.Timedelta(1, "min")
        refused(lambda: p.add_column(late), "add_column with a shifted index")
        more = pd.DataFrame({"new": [1.0] * (n + 1)}, index=list(p.index) + [p.index[-1] + pd.Timedelta(1, "min")])
        refused(lambda: p.add_column(more), "add_column with a longer index")
        refused(lambda: p.add_column(Plot(more)), "add_column of a plot with a longer index")
    elif what == "add-series":
        refused(lambda: p.add_column(frame["new"]), "add_column of a series")
        refused(lambda: p.add_column([1.0] * n), "add_column of a list")
    elif what == "series":
        refused(lambda: Plot(frame["new"]), "a plot of a series")
    elif what == "set-series":
        def f():
            p.DataFrame = frame["new"]
        refused(f, "a series as data")
    elif what == "int-index":
        refused(lambda: Plot(pd.DataFrame({"new": [1.0] * n})), "a plot without time index")
    elif what == "shadow-both":
        refused(lambda: p.shadow(main_column=t.names()[0], engine="plotly"), "a shadow plot with both main column and average")
    elif what == "shadow-none":
        refused(lambda: p.shadow(average=False, engine="plotly"), "a shadow plot with neither main column nor average")
    elif what == "column":
        refused(lambda: p["missing"], "a missing column")
        refused(lambda: p.error("missing", t.names()[0]), "the error of a missing column")
        refused(lambda: p.load_duration_curve("missing", engine="plotly"), "the load duration curve of a missing column")
    elif what == "loc-column":
        refused(lambda: p.loc(columns=["missing"]), "the selection of a missing column")
        refused(lambda: p.iloc(columns=[99]), "the selection of a missing column", (ValueError, KeyError, IndexError))
    else:
        refused(lambda: Plot.from_file("results.txt"), "a text file")


def check(case, ctx):
    n = len(case["vals"][0])
    t0 = datetime.datetime.combine(to_date(case["start"]), datetime.time(case["hour"]))
    times = [t0 + datetime.timedelta(minutes=STEP[case["step"]] * i) for i in range(n)]
    t = Table(times, [(c, [x / 4.0 for x in v]) for c, v in zip(case["cols"], case["vals"])])
    index = pd.date_range(t0, periods=n, freq=case["step"])
    data = dict((c, v) for c, v in t.cols)
    if case["given"] == "index":
        raw = pd.DataFrame(data)
        p = Plot(raw, index=index)
        require(list(raw.index) == list(range(n)), "modified", "the table given was modified")
    else:
        p = Plot(pd.DataFrame(data, index=index))
    same(p, t, "construction")
    for o in case["ops"]:
        # names may have been replaced: skip operations on columns which do not exist any more
        t = do(p, t, o, ctx)
        same(p, t, "the data after %s" % o["op"])
        if len(t.times) != n:
            break
        ctx.label(o["op"])
    distinct = any(len(set(v)) > 1 for _, v in t.cols)
    ctx.nontrivial = n > 1 and distinct and sum(o["op"] not in ("invalid", "freq") for o in case["ops"]) >= 2
