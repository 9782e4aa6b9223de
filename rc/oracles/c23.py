"""One input file per month: both result files against a reference."""
import datetime
import os
import sys

import numpy as np
import pandas as pd

from rc.common import DAY
from rc.model import bad, mk_usecase, require, scratch
from rc.oracles.c04 import reference


def check(case, ctx):
    import ramp
    import matplotlib.pyplot as plt
    from ramp import cli

    assert not os.path.realpath(ramp.__file__).startswith("/repo/"), ramp.__file__
    argv, show = sys.argv, plt.show
    written = {}
    keep = {c: c.to_csv for c in (pd.DataFrame, pd.Series)}

    def fast(cls):
        def to_csv(self, path=None, *a, **k):
            # the minute table is recorded rather than written, which takes long
            if a or k or len(self) < 100000 or not isinstance(path, str):
                return keep[cls](self, path, *a, **k)
            with open(path, "w") as f:
                f.write("recorded")
            written[os.path.realpath(path)] = self.copy()

        return to_csv

    with scratch() as d:
        try:
            plt.show = lambda *a, **k: None
            if not case["real"]:
                for c in keep:
                    c.to_csv = fast(c)
            run(case, ctx, os.path.realpath(d), cli, written)
        finally:
            sys.argv, plt.show = argv, show
            for c, f in keep.items():
                c.to_csv = f
            plt.close("all")


def model(case, k):
    apps = []
    for a in case["apps"]:
        a = dict(a)
        a["power"] = a["power"] + case["step"] * k
        apps.append(a)
    return [dict(name="u", num_users=case["users"], pref=0, apps=apps)]


def name(case, k):
    if case["scheme"].startswith("mixed"):
        return case["scheme"] % ("%02d" % k if case["pad"][k % 12] else "%d" % k)
    return case["scheme"] % k


def run(case, ctx, d, cli, written):
    folder, year = case["folder"], case["year"]
    os.makedirs(folder)
    order = [k for k in case["shuffle"]]
    if case["count"] != 12:
        order = list(range(case["count"]))
    for k in order:
        f = os.path.join(folder, name(case, k + 1))
        mk_usecase(dict(users=model(case, k), date_start="2020-01-01", num_days=1), init=False).save(f[: -len(".xlsx")])
    for x in case["noise"]:
        f = os.path.join(folder, x)
        if x == "sub":
            os.makedirs(f)
        else:
            open(f, "w").close()
    path = os.path.join(d, folder) if case["abs"] else folder
    args = ["-i", path + ("/" if case["slash"] else ""), "-y", str(year)]
    out = d
    if case["out"] == "there":
        os.makedirs("there")
    if case["out"]:
        args += ["-o", os.path.join(d, case["out"]) if case["abs"] else case["out"]]
        out = os.path.join(d, case["out"])
    if case["n"]:
        args += ["-n", "1"]
    if case["ext"]:
        args += ["--ext", "xlsx"]
    sys.argv = ["ramp"] + args
    what = "ramp " + " ".join(args)
    before = files(d)
    if case["count"] != 12:
        try:
            cli.main()
        except ValueError:
            require(files(d) == before, "refused-but-written", "%s: files written: %s", what, files(d) - before)
            ctx.label("refused")
            ctx.nontrivial = True
            return
        bad("not-refused", "%s: %d files were accepted", what, case["count"])
    cli.main()
    fmin = os.path.join(out, "yearly_profile_min_resolution.csv")
    fhour = os.path.join(out, "yearly_profile_hourly_resolution.csv")
    require(files(d) - before == {fmin, fhour}, "files", "%s: files written: %s", what, sorted(files(d) - before))
    # reference
    want, months = [], []
    for k in range(12):
        a = datetime.date(year, k + 1, 1)
        b = datetime.date(year + (k == 11), (k + 1) % 12 + 1, 1)
        w, _ = reference(model(case, k), a.isoformat(), (b - a).days)
        want.append(w.reshape(-1))
    want = np.concatenate(want)
    days = len(want) // DAY
    t0 = datetime.datetime(year, 1, 1)
    one = datetime.timedelta(minutes=1)
    if fmin in written:
        df = written[fmin]
        times, got = list(df.index), np.asarray(df.values, dtype=float).reshape(-1)
        index = pd.DatetimeIndex(np.datetime64(t0) + np.arange(days * DAY) * np.timedelta64(1, "m"))
        require(len(times) == len(index), "minutes", "%s: %d minutes instead of %d", what, len(times), len(index))
        require(bool((df.index == index).all()), "minutes", "%s: the minutes are not those of %d", what, year)
        ctx.label("minute table recorded")
    else:
        got = []
        with open(fmin) as f:
            f.readline()
            t = t0
            for l in f:
                a, b = l.rstrip("\n").split(",")
                require(datetime.datetime.fromisoformat(a) == t, "minutes", "%s: minute %s instead of %s", what, a, t)
                t += one
                got.append(float(b))
        require(len(got) == days * DAY, "minutes", "%s: %d minutes instead of %d", what, len(got), days * DAY)
        got = np.array(got)
        ctx.label("minute file read")
    wrong = np.flatnonzero(np.abs(got - want) > 1e-9 * np.maximum(1, want))
    if len(wrong):
        i = int(wrong[0])
        bad("values", "%s: %r instead of %r at %s", what, float(got[i]), float(want[i]), t0 + i * one)
    with open(fhour) as f:
        head = f.readline().rstrip("\n").split(",")
        rows = [l.rstrip("\n").split(",") for l in f]
    require(sorted(head[1:]) == ["max", "mean", "min"], "hourly", "%s: columns %s", what, head)
    require(len(rows) == days * 24, "hours", "%s: %d hours instead of %d", what, len(rows), days * 24)
    h = want.reshape(-1, 60)
    ref = {"mean": h.mean(axis=1).tolist(), "max": h.max(axis=1).tolist(), "min": h.min(axis=1).tolist()}
    for i, r in enumerate(rows):
        t = t0 + 60 * i * one
        require(datetime.datetime.fromisoformat(r[0]) == t, "hours", "%s: hour %s instead of %s", what, r[0], t)
        for c, v in zip(head[1:], r[1:]):
            require(abs(float(v) - ref[c][i]) <= 1e-9 * max(1, ref[c][i]), "hourly", "%s: %s of %s is %s instead of %r", what, c, t, v, ref[c][i])
    ctx.label("year of %d days" % days)
    ctx.nontrivial = bool(np.any(want))


def files(d):
    return {os.path.join(b, f) for b, _, fs in os.walk(d) for f in fs}
