"""Round trip of a model through a spreadsheet."""
import os
import random

import numpy as np

from rc.common import DAY, is_series
from rc.model import UseCase, User, bad, diff_state, mk_user, require, scratch, user_state


def same_cell(a, b):
    if isinstance(a, (list, np.ndarray)) or isinstance(b, (list, np.ndarray)):
        return isinstance(a, (list, np.ndarray)) and isinstance(b, (list, np.ndarray)) and list(a) == list(b)
    return a == b


def compare_tables(t1, t2, what):
    require(list(t1.columns) == list(t2.columns), "columns", "%s: columns %s instead of %s", what, list(t2.columns), list(t1.columns))
    require(len(t1) == len(t2), "rows", "%s: %d rows instead of %d", what, len(t2), len(t1))
    for c in t1.columns:
        for i, (a, b) in enumerate(zip(t1[c].tolist(), t2[c].tolist())):
            require(same_cell(a, b), "table", "%s: row %d, column %s: %s instead of %s", what, i, c, str(b)[:80], str(a)[:80])


def profiles(uc, seed):
    random.seed(seed)
    uc.initialize(num_days=2, force=True)
    peak = list(uc.peak_time_range)
    return peak, np.asarray(uc.generate_daily_load_profiles(flat=True))


def check(case, ctx):
    users = case["users"]
    with scratch() as d:
        orig = [mk_user(u) for u in users]
        if case["by"] == "user":
            orig = orig[:1]
        for u, spec in zip(orig, users):
            if len(u.App_list) != len(spec["apps"]):
                ctx.label("identical appliances")
        first = UseCase(name="first", users=orig, date_start="2020-12-31", date_end="2021-01-01")
        ref = [user_state(u) for u in orig]
        cur = first
        for r in range(case["rounds"]):
            fname = os.path.join(d, "r%d" % r, case["fname"])
            os.makedirs(os.path.dirname(fname))
            if case["by"] == "user":
                cur.users[-1].save(fname)
            else:
                cur.save(fname)
            require(os.path.exists(fname + ".xlsx"), "file", "no file %s.xlsx", case["fname"])
            require(os.listdir(os.path.dirname(fname)) == [os.path.basename(fname) + ".xlsx"], "file", "other files written: %s", os.listdir(os.path.dirname(fname)))
            kw = {}
            extra = []
            if case["into"] in ("dates",):
                kw = dict(date_start="2020-12-31", date_end="2021-01-01")
            new = UseCase(name="new", **kw)
            if case["into"] == "initialized":
                new.initialize(num_days=3)
            if case["into"] == "filled" and r == case["rounds"] - 1:
                e = User("extra of the target", 3)
                e.add_appliance(name="e", power=5, func_time=3, window_1=[0, 9])
                extra = [e]
                new.add_user(e)
            new.load(fname + ".xlsx")
            loaded = new.users[len(extra) :]
            require(new.users[: len(extra)] == extra or not extra, "filled", "the users already there were changed")
            got = [user_state(u) for u in loaded]
            if got != ref:
                bad("state", "round %d: loaded model differs: %s", r + 1, diff_state(ref, got))
            require(
                [id(a) for a in new.appliances] == [id(a) for u in new.users for a in u.App_list], "appliances",
                "the list of appliances of the use case does not hold the appliances of its users",
            )
            if not extra:
                compare_tables(first.save(), new.save(), "round %d" % (r + 1))
                compare_tables(first.export_to_dataframe(), new.export_to_dataframe(), "export")
            for u, v in zip(orig, loaded):
                require(len(u.App_list) == len(v.App_list), "apps", "%d appliances instead of %d", len(v.App_list), len(u.App_list))
                for a, b in zip(u.App_list, v.App_list):
                    require(bool(a == b), "equality", "appliance %s does not compare equal to the loaded one", a.name)
            cur = new
        if not extra:
            kw = dict(date_start="2020-12-31", date_end="2021-01-01")
            for uc in (first, cur):
                uc.date_start, uc.date_end = "2020-12-31", "2021-01-01"
            try:
                p1, y1 = profiles(first, case["seed"])
            except ValueError as e:
                if "too large" not in str(e):
                    raise
                ctx.label("cycle does not fit")
                p1 = None
            if p1 is not None:
                p2, y2 = profiles(cur, case["seed"])
                require(p1 == p2, "peak", "peak ranges differ with the same seed: %s.. and %s..", p1[:2], p2[:2])
                i = np.flatnonzero(y1 != y2)
                require(len(i) == 0, "profile", "profiles differ at minute %s: %s and %s", i[:1], y1[i[:1]], y2[i[:1]])
                if np.any(y1):
                    ctx.label("consuming")
    ctx.label(case["by"])
    ctx.label(case["into"])
    apps = [a for u in users for a in u["apps"]]
    ctx.nontrivial = len(apps) > 1 and any(
        is_series(a["power"]) or a.get("cycles") or a.get("pref_index") for a in apps
    )
