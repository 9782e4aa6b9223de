"""Reading of spreadsheets against an independent interpretation of their cells."""
import datetime
import json
import os
import random

import numpy as np
import openpyxl
from openpyxl.utils import get_column_letter

from rc.common import DAY
from rc.model import DEFAULTS, UseCase, User, bad, diff_state, require, scratch, user_state

TYPES = ["p", "t", "cw", "r"]


def values(p):
    v = [p["base"] + p["step"] * (i % p["period"]) for i in range(366)]
    # the cells of a spreadsheet hold at most 15 digits
    return [round(x, 6) for x in v] if p["form"] in ("one", "two") else v


def quoted(name):
    if name.replace("_", "").isalnum() and name.isascii():
        return name
    return "'%s'" % name.replace("'", "''")


def write_range(wb, p, vals, columns):
    if p["sheet"] not in wb.sheetnames:
        wb.create_sheet(p["sheet"])
    ws = wb[p["sheet"]]
    r0, c0 = p["row"], p["col"]
    for i, v in enumerate(vals):
        for j in range(columns - 1):
            if p["stamp"] == "date":
                ws.cell(row=r0 + i, column=c0 + j, value=datetime.datetime(2020, 1, 1) + datetime.timedelta(days=i))
            elif p["stamp"] == "int":
                ws.cell(row=r0 + i, column=c0 + j, value=1000 + i)
            elif p["stamp"] == "text":
                ws.cell(row=r0 + i, column=c0 + j, value="day %d" % i)
        if v is not None:
            ws.cell(row=r0 + i, column=c0 + columns - 1, value=v)
    # neighbours which do not belong to the range
    ws.cell(row=r0 + len(vals), column=c0 + columns - 1, value=-77)
    a = "$" if p["abs"] else ""
    return "=%s!%s%s%s%d:%s%s%s%d" % (
        quoted(p["sheet"]), a, get_column_letter(c0), a, r0, a, get_column_letter(c0 + columns - 1), a, r0 + len(vals) - 1,
    )


def bad_cell(wb, kind, k):
    v = [float(i) for i in range(366)]
    p = dict(sheet="bad", row=1, col=1, abs=False, stamp="int")
    return {
        "365": lambda: json.dumps(v[:365]),
        "367": lambda: json.dumps(v + [1.0]),
        "1": lambda: json.dumps(v[:1]),
        "empty list": lambda: "[]",
        "text": lambda: "high",
        "object": lambda: '{"0": 1}',
        "number": lambda: "50",
        "nested 3": lambda: json.dumps([[i, i, i] for i in v]),
        "whole columns": lambda: write_range(wb, p, v, 1 + k % 2).split("!")[0] + ("!A:A" if k % 2 == 0 else "!$A:$B"),
        "three columns": lambda: write_range(wb, p, v, 3),
        "365 range": lambda: write_range(wb, p, v[:365], 1 + k % 2),
        "367 range": lambda: write_range(wb, p, v + [1.0], 1 + k % 2),
        "empty cell": lambda: write_range(wb, p, v[:100] + [None] + v[101:], 1 + k % 2),
        "text cell": lambda: write_range(wb, p, v[:7] + ["x"] + v[8:], 1 + k % 2),
    }[kind]()


def expected_app(v, p, name):
    e = dict(DEFAULTS)
    for k in DEFAULTS:
        if k in v:
            e[k] = v[k]
    e["name"] = name
    pv = [p["v"]] * 366 if p["form"] == "number" else values(p)
    e["power"] = float(pv[0]) if all(x == pv[0] for x in pv) else pv
    for i in (1, 2, 3):
        if "window_%d_end" % i in v:
            e["window_%d" % i] = [v.get("window_%d_start" % i, 0), v["window_%d_end" % i]]
        else:
            e["window_%d" % i] = [0, 0]
    e["random_var_w"] = v.get("random_var_w", 0)
    e["random_var"] = [int(e["random_var_w"] * (e["window_%d" % i][1] - e["window_%d" % i][0])) for i in (1, 2, 3)]
    for i in (1, 2, 3):
        for j in (1, 2):
            e["p_%d%d" % (i, j)] = v.get("p_%d%d" % (i, j), 0)
            e["t_%d%d" % (i, j)] = v.get("t_%d%d" % (i, j), 0)
            cw = "cw%d%d" % (i, j)
            if cw + "_end" in v:
                e[cw] = [v.get(cw + "_start", 0), v[cw + "_end"]]
            elif i == 1 and e["fixed_cycle"] == 1:
                e[cw] = e["window_%d" % j]
            else:
                e[cw] = [0, 0]
        e["r_c%d" % i] = v.get("r_c%d" % i, 0)
    return e


def check(case, ctx):
    users = case["users"]
    rows = []
    for r in case["rows"]:
        rows.append(dict(r, v={k: x for k, x in r["v"].items() if k not in case["blank"]}))
    for r in rows:
        # windows beyond the number (the default 1 if blank) are left out
        n = r["v"].get("num_windows", 1)
        for i in range(n + 1, 4):
            r["v"].pop("window_%d_start" % i, None)
            r["v"].pop("window_%d_end" % i, None)
        total = sum(r["v"]["window_%d_end" % i] - r["v"].get("window_%d_start" % i, 0) for i in range(1, n + 1))
        if r["v"].get("func_time", 0) > total:
            r["v"]["func_time"] = total
    prefs = [None if "user_preference" in case["blank"] else p for p in case["prefs"]]
    expect_refusal = None
    with scratch() as d:
        wb = openpyxl.Workbook()
        ws = wb.active
        ws.title = case["first"]
        cols = ["user_name", "num_users", "name", "number", "power"]
        opt = sorted(set(k for r in rows for k in r["v"]) - set(cols))
        # two bounds of a window column always come together
        if any(p is not None for p in prefs):
            opt.append("user_preference")
        allcols = cols + opt
        rnd = random.Random(case["colseed"])
        if case["colseed"] % 3:
            rnd.shuffle(allcols)
        # writes
        for j, c in enumerate(allcols, 1):
            ws.cell(row=1, column=j, value=c)
        seen = {}
        empties = 0
        for k, r in enumerate(rows):
            vals = dict(r["v"], user_name=users[r["u"]], num_users=case["nums"][r["u"]], name=r["name"])
            p = prefs[r["u"]]
            if p or (p == 0 and case["prefcells"][k]):
                vals["user_preference"] = p
            pw = r["p"]
            if case.get("bad") and case["bad"][0] == k:
                vals["power"] = bad_cell(wb, case["bad"][1], k)
                expect_refusal = case["bad"][1]
            elif pw["form"] == "number":
                vals["power"] = pw["v"]
            elif pw["form"] == "text":
                vals["power"] = json.dumps(values(pw))
            elif pw["form"] == "pairs":
                vals["power"] = json.dumps([[1577836800000 + 86400000 * i, x] for i, x in enumerate(values(pw))])
            else:
                vals["power"] = write_range(wb, pw, values(pw), 1 if pw["form"] == "one" else 2)
            if case.get("disagree") and r["u"] in seen and expect_refusal is None:
                key = case["disagree"]
                vals[key] = (vals.get(key) or 0) + 1
                if key in allcols:
                    expect_refusal = "rows disagree on " + key
            seen[r["u"]] = True
            for j, c in enumerate(allcols, 1):
                if c in vals:
                    ws.cell(row=k + 2, column=j, value=vals[c])
                else:
                    empties += 1
        path = os.path.join(d, "in put.xlsx")
        if case["colseed"] % 5 == 0:
            notes = wb.create_sheet("notes")
            notes["A1"], notes["B3"] = "user_name", 4
        # the sheet selected by the last person who saved the file is without meaning
        wb.active = (case["colseed"] // 5) % len(wb.sheetnames)
        wb.save(path)
        uc = UseCase(name="c", date_start="2021-01-01", date_end="2021-01-02")
        held = []
        if case.get("filled"):
            # a use case which already holds users
            for i in range(2):
                u = User("before %d" % i, 1)
                u.add_appliance(power=1, func_time=10, window_1=[0, 100], name="x")
                uc.add_user(u)
                held.append(u)
        try:
            uc.load(path)
        except ValueError as e:
            if expect_refusal:
                ctx.label("refused " + expect_refusal)
                require(
                    [id(u) for u in uc.users] == [id(u) for u in held] and all(len(u.App_list) == 1 for u in held) and [id(a) for a in uc.appliances] == [id(u.App_list[0]) for u in held],
                    "changed", "a refused file changed the use case: users %s", [u.user_name for u in uc.users],
                )
                ctx.nontrivial = True
                return
            bad("refused", "valid file refused: %s: %s", type(e).__name__, e)
        if expect_refusal:
            bad("accepted", "file accepted although it has to be refused: %s", expect_refusal)
        order = []
        for r in rows:
            if r["u"] not in order:
                order.append(r["u"])
        want = []
        for u in order:
            want.append(
                (users[u], case["nums"][u], prefs[u] or 0, [expected_app(r["v"], r["p"], r["name"]) for r in rows if r["u"] == u])
            )
        require([id(u) for u in uc.users[: len(held)]] == [id(u) for u in held], "held", "loading replaced the users already held: %s", [u.user_name for u in uc.users])
        got = [user_state(u) for u in uc.users[len(held) :]]
        if got != want:
            bad("content", "read differently: %s", diff_state(want, got))
        # the same model declared in python
        ref = UseCase(name="ref", date_start="2021-01-01", date_end="2021-01-02")
        if held:
            h = UseCase(users=held, date_start="2021-01-01", date_end="2021-01-02")
            ref.add_user(list(h.users))
        for name, num, pref, apps in want:
            u = User(name, num, pref)
            for a in apps:
                kw = {k: x for k, x in a.items() if k != "random_var"}
                if isinstance(kw["power"], list):
                    kw["power"] = np.array(kw["power"])
                for k in kw:
                    if "cw" in k or k.startswith("window_"):
                        kw[k] = np.array(kw[k])
                u.add_appliance(**kw)
            ref.add_user(u)
        res = []
        for x in (uc, ref):
            random.seed(case["seed"])
            x.initialize(force=True)
            try:
                res.append(np.asarray(x.generate_daily_load_profiles()))
            except ValueError as e:
                if "too large" not in str(e):
                    raise
                res.append(None)
        if res[0] is None or res[1] is None:
            require(res[0] is None and res[1] is None, "profile", "only one of the loaded and the declared model is refused")
            ctx.label("cycle does not fit")
        else:
            require(np.array_equal(res[0], res[1]), "profile", "profiles of the loaded and the declared model differ")
    ctx.label("accepted")
    for r in rows:
        ctx.label("power " + r["p"]["form"])
    ctx.nontrivial = empties > 0 or any(r["p"]["form"] != "number" for r in rows)
