"""The ramp command line: which runs it starts, and what they write."""
import builtins
import datetime
import inspect
import os
import sys

import numpy as np

from rc.common import DAY
from rc.model import Violation, bad, mk_usecase, require, scratch
from rc.oracles.c04 import reference

SCRIPT = """import sys, os
with open(%r, "a") as f:
    f.write("%d\\n")
"""


def expected_period(p, i):
    """(first day or None, number of days)"""
    d = datetime.date.fromisoformat
    if "years" in p:
        a, b = datetime.date(p["years"][0], 1, 1), datetime.date(p["years"][-1], 12, 31)
        return a, (b - a).days + 1
    n = None
    if "n" in p:
        n = p["n"][i] if len(p["n"]) > 1 else p["n"][0]
    if "start" in p and "end" in p:
        return d(p["start"]), (d(p["end"]) - d(p["start"])).days + 1
    if "start" in p:
        a = d(p["start"])
        return a, n if n is not None else (datetime.date(a.year, 12, 31) - a).days + 1
    if "end" in p:
        b = d(p["end"])
        if n is not None:
            return b - datetime.timedelta(days=n - 1), n
        return datetime.date(b.year, 1, 1), b.timetuple().tm_yday
    return None, n if n is not None else p["answer"]


def as_date(x):
    return None if x is None else datetime.date(x.year, x.month, x.day)


def given_period(kw, answer):
    """the days a use case built with these arguments simulates"""
    a, b, n = as_date(kw["date_start"]), as_date(kw["date_end"]), kw["num_days"]
    if a and b:
        return a, (b - a).days + 1
    if a and n is not None:
        return a, n
    if b and n is not None:
        return b - datetime.timedelta(days=n - 1), n
    if a or b:
        return None, "asked although a date is given"
    return None, answer if n is None else n


class Asked(Exception):
    pass


def check(case, ctx):
    import ramp
    from ramp import cli, ramp_run
    import matplotlib.pyplot as plt

    argv, names, ask, show = sys.argv, {}, builtins.input, plt.show
    results = os.path.join(os.path.dirname(os.path.abspath(ramp.__file__)), "results")
    assert not os.path.realpath(results).startswith("/repo/"), results
    for m in (cli, ramp_run):
        names[m] = m.run_usecase if hasattr(m, "run_usecase") else None

    def clean():
        for f in os.listdir(results):
            if f.endswith(".csv"):
                os.remove(os.path.join(results, f))

    clean()
    with scratch() as d:
        try:
            try:
                run(case, ctx, os.path.realpath(d), cli, ramp_run, plt, results)
            except Violation:
                if case["real"]:
                    raise
                # what was asked from run_usecase is confirmed by what is really simulated
                for m, f in names.items():
                    if f is not None:
                        m.run_usecase = f
                clean()
                os.mkdir("real")
                os.chdir("real")
                run(dict(case, real=True), ctx, os.path.realpath("."), cli, ramp_run, plt, results)
        finally:
            sys.argv, builtins.input, plt.show = argv, ask, show
            for m, f in names.items():
                if f is not None:
                    m.run_usecase = f
            plt.close("all")
            clean()


def run(case, ctx, d, cli, ramp_run, plt, results):
    p, inputs = case["period"], case["inputs"]
    log = os.path.join(d, "log")
    fnames, m = [], len(inputs)
    for i, x in enumerate(inputs):
        os.makedirs(os.path.join(d, x["dir"]), exist_ok=True)
        base = os.path.join(x["dir"], x["stem"])
        if x["kind"] == "xlsx":
            mk_usecase(dict(users=x["users"], date_start="2020-01-01", num_days=1), init=False).save(base)
        elif x["kind"] == "py":
            with open(base + ".py", "w") as f:
                f.write(SCRIPT % (log, i))
        elif x["kind"] in ("csv", "xls"):
            with open(base + "." + x["kind"], "w") as f:
                f.write("a,b\n1,2\n")
        ext = x["kind"].replace("missing.", "")
        fnames.append(os.path.join(d if case["abs"] else "", base + "." + ext))
    ofnames = None
    if case["out"] is not None:
        os.makedirs(os.path.join(d, "out dir"), exist_ok=True)
        ofnames = [os.path.join(d if case["abs"] else "", case["out"], "o%d.csv" % i) for i in range(case["n_out"])]
    groups = []
    if not case["no_input"]:
        groups.append(["-i"] + fnames)
    if ofnames:
        groups.append(["-o"] + ofnames)
    if "n" in p:
        groups.append(["-n"] + [str(x) for x in p["n"]])
    if "years" in p:
        groups.append(["-y"] + [str(x) for x in p["years"]])
    if "start" in p:
        groups.append(["--start-date", p["start"]])
    if "end" in p:
        groups.append(["--end-date", p["end"]])
    if case["parallel"]:
        groups.append(["-p"])
    k = case["order"] % max(1, len(groups))
    groups = groups[k:] + groups[:k]
    args = [a for g in groups for a in g]
    sys.argv = ["ramp"] + args
    what = "ramp " + " ".join(repr(a) if " " in a else a for a in args)

    calls = []
    asked = []
    real = ramp_run.run_usecase
    sig = inspect.signature(real)

    def recorder(*a, **kw):
        got = sig.bind(*a, **kw)
        got.apply_defaults()
        got = dict(got.arguments)
        if not all(x in got for x in ("fname", "ofname", "num_days", "date_start", "date_end", "parallel")):
            return real(*a, **kw)
        calls.append(got)

    def answer(*a):
        asked.append(1)
        if "answer" not in p:
            raise Asked("the number of days is asked although it is given by %s" % p)
        return str(p["answer"])

    builtins.input = answer
    plt.show = lambda *a, **k: None
    if not case["real"]:
        for mod in (cli, ramp_run):
            if hasattr(mod, "run_usecase"):
                mod.run_usecase = recorder
    refuse = None
    if "years" in p and ("start" in p or "end" in p):
        refuse = "years with dates"
    elif not case["no_input"]:
        if "n" in p and len(p["n"]) not in (1, m):
            refuse = "numbers of days"
        elif ofnames and len(ofnames) != m:
            refuse = "numbers of outputs"
    before = files(d)
    error = None
    try:
        cli.main()
    except Asked as e:
        bad("asked", "%s: %s", what, e)
    except (ValueError, TypeError, FileNotFoundError) as e:
        error = e
    after = files(d) | {os.path.join(results, f) for f in os.listdir(results) if f.endswith(".csv")}
    new = sorted(after - before)
    ran = open(log).read().split() if os.path.exists(log) else []
    new = [f for f in new if f != log]
    if refuse:
        require(error is not None, "not-refused", "%s: the contradiction (%s) was not refused", what, refuse)
        require(isinstance(error, ValueError), "refusal", "%s: refused with %r", what, error)
        require(not calls and not new and not ran, "ran-anyway", "%s: refused, but %d runs started, files %s", what, len(calls), new)
        ctx.label("refused: " + refuse)
        ctx.nontrivial = True
        return
    if case["no_input"]:
        require(error is None and not calls and not new and not ran, "no-input", "%s: %r, %d runs", what, error, len(calls))
        ctx.label("no input")
        return
    if not case["real"] and calls:
        if error is not None:
            bad("refused", "%s: %r", what, error)
        require(len(calls) == m, "runs", "%s: %d runs for %d inputs", what, len(calls), m)
        for i, c in enumerate(calls):
            require(c["fname"] == fnames[i], "input", "%s: run %d is of %s", what, i + 1, c["fname"])
            require(c["ofname"] == (ofnames[i] if ofnames else None), "output", "%s: run %d writes to %s", what, i + 1, c["ofname"])
            require(bool(c["parallel"]) == case["parallel"], "parallel", "%s: parallel is %s", what, c["parallel"])
            want, got = expected_period(p, i), given_period(c, p.get("answer"))
            require(got == want, "period", "%s: run %d simulates %s (%s days) instead of %s (%s days)", what, i + 1, got[0], got[1], want[0], want[1])
        ctx.label("recorded")
        ctx.nontrivial = m > 1 or want[1] > 1
        return
    # really run, in order, until an input which is not valid
    done = []
    for i, x in enumerate(inputs):
        if x["kind"] not in ("xlsx", "py"):
            kind = x["kind"]
            require(
                isinstance(error, FileNotFoundError if kind.startswith("missing") else TypeError), "invalid-input",
                "%s: the input %s gives %r", what, fnames[i], error,
            )
            ctx.label("invalid input")
            break
        done.append(i)
    else:
        if error is not None:
            raise error
    require(ran == [str(i) for i in done if inputs[i]["kind"] == "py"], "scripts", "%s: scripts run: %s", what, ran)
    xl = [i for i in done if inputs[i]["kind"] == "xlsx"]
    require(0 <= len(asked) - (len(xl) if "answer" in p else 0) <= (1 if "answer" in p and len(done) < m else 0), "asked", "%s: asked %d times", what, len(asked))
    expected = []
    for i in xl:
        if ofnames:
            f = os.path.join(d, ofnames[i])
        else:
            f = os.path.join(results, "output_file_%s.csv" % os.path.basename(fnames[i]).replace(".", "_"))
        expected.append(f)
        require(os.path.exists(f), "output", "%s: %s was not written, but %s", what, f, new)
        first, n = expected_period(p, i)
        users = inputs[i]["users"]
        if first is None:
            wants = [reference(users, (datetime.date(2024, 1, 1) + datetime.timedelta(days=q)).isoformat(), n)[0] for q in range(7)]
        else:
            wants = [reference(users, first.isoformat(), n)[0]]
        with open(f) as g:
            lines = g.read().splitlines()
        require(len(lines) == n * DAY + 1, "rows", "%s: %d minutes written instead of %d days", what, len(lines) - 1, n)
        got = []
        for j, l in enumerate(lines[1:]):
            a, b = l.split(",")
            require(int(a) == j, "rows", "%s: line %d is %r", what, j + 1, l)
            got.append(float(b))
        got = np.array(got).reshape(n, DAY)
        ok = any(bool(np.all(np.abs(got - w) <= 1e-9 * np.maximum(1, w))) for w in wants)
        if not ok:
            q = tuple(int(z[0]) for z in np.where(np.abs(got - wants[0]) > 1e-9 * np.maximum(1, wants[0])))
            bad("values", "%s: %s holds %r instead of %r at (day, minute) %s from %s", what, f, got[q], wants[0][q], q, first)
    require(sorted(new) == sorted(expected), "files", "%s: files written: %s, expected %s", what, new, expected)
    ctx.label("simulated")
    ctx.label("simulated in parallel" if case["parallel"] else "sequential")
    ctx.nontrivial = len(done) > 1 or (bool(xl) and expected_period(p, xl[0])[1] > 1)


def files(d):
    return {os.path.join(b, f) for b, _, fs in os.walk(d) for f in fs if "__pycache__" not in b}
