"""Conversion of legacy python files: compared with the model the file itself defines."""
import os
import pathlib
import sys

import numpy as np
import pandas as pd

from rc.model import ARG_KEYS, DEFAULTS, Appliance, UseCase, bad, diff_state, require, scratch, user_state

MARK = "# Code automatically added by ramp_convert_old_input_files.py"
SERIES = [float((7 * i) % 50 + 20) / 4 for i in range(366)]


def text_of(src, k, bump):
    """python text of a legacy input file"""
    # a file may start with the import, without anything above it
    L = ["# -*- coding: utf-8 -*-", "'''", "An input file", "'''"] if src.get("header", True) else []
    imp = src["imports"]
    if imp == "core":
        L += ["from core import User, np"]
    elif imp == "core *":
        L += ["from core import *", "import numpy as np"]
    elif imp == "two lines":
        L += ["from core import User", "from core import np"]
    elif imp == "comment":
        L += ["from core import User, np", "# the line above was: from core import Appliance, User, np"]
    elif imp == "indented":
        L += ["if True:", "    from core import User, np"]
    elif imp == "ramp":
        L += ["import numpy as np", "from ramp import User"]
    else:
        L += ["from ramp.core.core import User, np"]
    L += ["import os", "import pandas as pd", "User_list = []", "kept = []", "SERIES = [float((7 * i) % 50 + 20) / 4 for i in range(366)]"]
    if src["helper"]:
        L += ["from helper_%d import factor" % k]
    else:
        L += ["factor = 1"]
    for i, u in enumerate(src["users"]):
        L += ["", "U%d = User(%r, %d * factor, %d)" % (i, u["name"], u["num_users"] + bump, u["pref"]), "User_list.append(U%d)" % i]
        for j, a in enumerate(u["apps"]):
            v = {"var": "v%d_%d" % (i, j), "again": "v%d_%d" % (i, j), "a": "a", "i": "i"}.get(a["var"], "_tmp")
            full = dict(DEFAULTS)
            full.update({q: a[q] for q in ARG_KEYS if q in a})
            full["num_windows"] = len(a["windows"])
            r = {q: repr(full[q]) for q in ARG_KEYS}
            if a.get("series") == "frame":
                r["power"] = "pd.DataFrame(SERIES)"
            elif a.get("series") == "csv":
                r["power"] = "pd.read_csv(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'power_%d.csv'))" % k
            sty = a["style"]
            old = [q for q in ARG_KEYS if q not in ("continuous_duty_cycle", "name")]
            given = [q for q in old if q in a or q in ("num_windows", "power")]
            wins = ["window_%d=%r" % (n + 1, w) for n, w in enumerate(a["windows"])]
            if "random_var_w" in a:
                wins.append("random_var_w=%r" % a["random_var_w"])
            cycs = []
            for n, c in enumerate(a.get("cycles", []), 1):
                cycs.append((n, c))
            if sty == "kw":
                args = ["%s=%s" % (q, r[q]) for q in given] + wins
                if "continuous_duty_cycle" in a:
                    args.append("continuous_duty_cycle=%r" % a["continuous_duty_cycle"])
                if "name" in a:
                    args.append("name=%r" % a["name"])
                for n, c in cycs:
                    args += ["p_%d1=%r" % (n, c["p1"]), "t_%d1=%r" % (n, c["t1"]), "p_%d2=%r" % (n, c["p2"]), "t_%d2=%r" % (n, c["t2"])]
                    if "rc" in c:
                        args.append("r_c%d=%r" % (n, c["rc"]))
                    if c.get("cw1"):
                        args.append("cw%d1=%r" % (n, c["cw1"]))
                L += ["%s = U%d.add_appliance(%s)" % (v, i, ", ".join(args))]
            else:
                if sty == "new":
                    args = ["%s=%s" % (q, r[q]) for q in given]
                    if "continuous_duty_cycle" in a:
                        args.append("continuous_duty_cycle=%r" % a["continuous_duty_cycle"])
                    if "name" in a:
                        args.append("name=%r" % a["name"])
                    call = "add_appliance"
                elif sty == "legacy-kw":
                    args = [r[q] for q in old[:4]] + ["%s=%s" % ("thermal_P_var" if q == "thermal_p_var" else q, r[q]) for q in old[4:] if q in given]
                    call = "Appliance"
                else:
                    args = (["U%d" % i] if sty == "legacy-user" else []) + [r[q] for q in old]
                    call = "Appliance"
                L += ["%s = U%d.%s(%s)" % (v, i, call, ", ".join(args))]
                if sty == "new":
                    L += ["%s.windows(%s)" % (v, ", ".join(wins))]
                else:
                    w = a["windows"] + [None] * (3 - len(a["windows"]))
                    L += ["%s.windows(%r, %r, %r, %r)" % (v, w[0], w[1], a.get("random_var_w", 0), w[2])]
                for n, c in cycs:
                    rc = ", %r" % c["rc"] if "rc" in c else ""
                    L += ["%s.specific_cycle_%d(%r, %r, %r, %r%s)" % (v, n, c["p1"], c["t1"], c["p2"], c["t2"], rc)]
                if any(c.get("cw1") for n, c in cycs):
                    args = ["cw%d1=%r" % (n, c["cw1"]) for n, c in cycs if c.get("cw1")]
                    L += ["%s.cycle_behaviour(%s)" % (v, ", ".join(args))]
            if a["var"] == "again":
                L += ["other_%d_%d = %s" % (i, j, v)]
            if a["var"] == "list":
                L += ["kept.append(_tmp)"]
            if v == "_tmp":
                L += ["del _tmp"]
    return "\n".join(L) + ("\n" if src["newline"] else "")


def run_text(text, fname, folder, named):
    """the users the python text defines"""
    text = text.replace("from core import", "from ramp.core.core import")
    ns = {"__name__": "user_file", "__file__": fname}
    old = sys.path[:]
    sys.path.insert(0, folder)
    try:
        exec(compile(text, fname, "exec"), ns)
    finally:
        sys.path[:] = old
    if named:
        for n, x in list(ns.items()):
            if isinstance(x, Appliance):
                x.name = n
    return ns["User_list"]


def check(case, ctx):
    from ramp import ramp_convert_old_input_files as conv

    path, mods, argv = sys.path[:], set(sys.modules), sys.argv
    with scratch() as d:
        try:
            run(case, ctx, conv, os.path.realpath(d))
        finally:
            sys.path[:] = path
            sys.argv = argv
            for m in set(sys.modules) - mods:
                f = getattr(sys.modules[m], "__file__", None) or ""
                if os.path.realpath(d) in os.path.realpath(f) or m.startswith("helper_"):
                    del sys.modules[m]


def run(case, ctx, conv, d):
    work = os.path.join(d, "work")
    os.makedirs(os.path.join(work, "out"))
    os.makedirs(os.path.join(d, "elsewhere"))
    os.chdir(work)
    files = []
    seen = set()
    for k, src in enumerate(case["files"]):
        stem = src["stem"]
        while (src["dir"], stem) in seen:
            stem += "_"
        seen.add((src["dir"], stem))
        folder = os.path.join(work, src["dir"]) if src["dir"] else work
        os.makedirs(folder, exist_ok=True)
        rel = os.path.join(src["dir"], stem + ".py")
        if src["helper"]:
            with open(os.path.join(folder, "helper_%d.py" % k), "w") as f:
                f.write("factor = 2\n")
        pd.DataFrame(SERIES).to_csv(os.path.join(folder, "power_%d.csv" % k), index=False)
        with open(rel, "w") as f:
            f.write(text_of(src, k, 0))
        files.append(dict(rel=rel, stem=stem, folder=folder, src=src, bump=0, named=False, k=k))
    total = 0
    for n, stp in enumerate(case["steps"]):
        chosen = [files[k] for k in stp["files"]]
        if stp["by"] not in ("cli",):
            chosen = chosen[:1]
        if stp["out"] is not None:
            # inputs of one name cannot go to one folder
            chosen = [f for i, f in enumerate(chosen) if f["stem"] not in [g["stem"] for g in chosen[:i]]]
        keep = stp["keep"] or stp["by"] == "cli"
        outdir = {None: None, "out": "out", "out/": "out/", "abs": os.path.join(d, "elsewhere")}[stp["out"]]
        if n and stp["edit"]:
            # the user goes on working on his file
            for f in chosen:
                f["bump"] += 1
                old = open(f["rel"]).read()
                new = text_of(f["src"], f["k"], f["bump"])
                if MARK in old:
                    new = new.rstrip("\n") + "\n" + old[old.index(MARK) :]
                with open(f["rel"], "w") as g:
                    g.write(new)
            ctx.label("edited")
        paths = []
        for f in chosen:
            p = {
                "relative": f["rel"],
                "absolute": os.path.join(work, f["rel"]),
                "dot": os.path.join(".", f["rel"]),
                "up": os.path.join("..", "work", f["rel"]),
                "pathlib": f["rel"],
            }[stp["path"]]
            if stp["path"] == "pathlib" and stp["by"] != "cli":
                p = pathlib.Path(p)
            paths.append(p)
        before = snapshot(d)
        if stp["by"] == "cli":
            sys.argv = ["ramp_convert", "-i"] + [str(p) for p in paths]
            if outdir is not None:
                sys.argv += ["-o", outdir]
            if stp["suffix"] is not None:
                sys.argv += ["--suffix", stp["suffix"]]
            conv.cli()
        else:
            for p in paths:
                kw = {}
                if outdir is not None:
                    kw["output_path"] = outdir
                if stp["suffix"] is not None:
                    kw["suffix"] = stp["suffix"]
                if not keep:
                    kw["keep_names"] = False
                if stp["by"] == "positional":
                    conv.convert_old_user_input_file(p, kw.get("output_path"), kw.get("suffix", ""), kw.get("keep_names", True))
                else:
                    conv.convert_old_user_input_file(p, **kw)
        what = "step %d (%s, %s path, %s)" % (n + 1, stp["by"], stp["path"], [str(p) for p in paths])
        expected = []
        for f in chosen:
            f["named"] = f["named"] or keep
            folder = f["folder"] if outdir is None else os.path.join(work, outdir)
            expected.append(os.path.normpath(os.path.join(folder, f["stem"] + (stp["suffix"] or "") + ".xlsx")))
        after = snapshot(d)
        written = sorted(p for p in after if after[p] != before.get(p))
        touched = sorted(os.path.join(work, f["rel"]) for f in chosen)
        for e in expected:
            require(os.path.exists(e), "file", "%s: %s was not written, but %s", what, e, [w for w in written if w not in touched])
        require(
            not [w for w in written if w not in expected and w not in touched], "file", "%s: other files written: %s", what, written
        )
        for f, e in zip(chosen, expected):
            want = run_text(text_of(f["src"], f["k"], f["bump"]), os.path.join(work, f["rel"]), f["folder"], f["named"])
            ref = [user_state(u) for u in want]
            uc = UseCase(name="loaded", date_start="2020-01-01", date_end="2020-01-02")
            uc.load(e)
            got = [user_state(u) for u in uc.users]
            if got != ref:
                bad("state", "%s: the spreadsheet differs from the python file: %s", what, diff_state(ref, got))
            # the file still defines the model
            with open(f["rel"]) as g:
                text = g.read()
            require(text.count(MARK) == (1 if f["named"] else 0), "file-edit", "%s: the code is added %d times", what, text.count(MARK))
            again = [user_state(u) for u in run_text(text, os.path.join(work, f["rel"]), f["folder"], False)]
            if again != ref:
                bad("file", "%s: the python file defines another model after the conversion: %s", what, diff_state(ref, again))
            total += sum(len(u[3]) for u in ref)
        # the files are usable with the current package
        for f in chosen:
            with open(f["rel"]) as g:
                for l in g:
                    require(
                        l.lstrip().startswith("#") or "from core import" not in l, "import", "%s: import not adapted: %s", what, l.strip()
                    )
        ctx.label(stp["by"])
        ctx.label("path " + stp["path"])
        ctx.label("out %s" % stp["out"])
    ctx.nontrivial = total > 1


def snapshot(d):
    out = {}
    for base, dirs, names in os.walk(d):
        dirs[:] = [x for x in dirs if x != "__pycache__"]
        for n in names:
            p = os.path.join(base, n)
            st = os.stat(p)
            with open(p, "rb") as f:
                out[p] = (st.st_mtime_ns, f.read())
    return out
