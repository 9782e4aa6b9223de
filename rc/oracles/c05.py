"""Activation of appliances per day."""
import datetime

import numpy as np

from rc.model import mk_usecase, require

ON = 0.01


def check(case, ctx):
    m = dict(users=case["users"])
    m.update(case["cal"])
    uc = mk_usecase(m)
    arr = np.asarray(uc.generate_daily_load_profiles(flat=False))
    require(arr.shape == (case["n"], 1440), "shape", "%s", arr.shape)
    d0 = datetime.date.fromisoformat(case["first"])
    must = mustnot = False
    for i in range(case["n"]):
        day = d0 + datetime.timedelta(days=i)
        kind = "we" if day.isoweekday() in (6, 7) else "wd"
        for u in case["users"]:
            prefs_seen = set()
            for a in u["apps"]:
                x, y = a["windows"][0]
                on = bool((arr[i, x:y] > ON).any())
                t = a["wd_we_type"]
                never = (
                    (t == 0 and kind == "we")
                    or (t == 1 and kind == "wd")
                    or a["func_time"] == 0
                    or a["occasional_use"] == 0
                    or (a["pref_index"] > u["pref"])
                )
                always = not never and (a["pref_index"] == 0 or (u["pref"] == 1 and a["pref_index"] == 1))
                if never:
                    mustnot = True
                    require(
                        not on, "runs-on-wrong-day",
                        "appliance %s (type %s, functioning time %s, frequency %s, preference %s of %s) runs on %s (%s)",
                        a["name"], t, a["func_time"], a["occasional_use"], a["pref_index"], u["pref"], day, kind,
                    )
                elif always:
                    must = True
                    require(
                        on, "does-not-run",
                        "appliance %s (type %s, functioning time %s, frequency %s, preference %s of %s) does not run on %s (%s)",
                        a["name"], t, a["func_time"], a["occasional_use"], a["pref_index"], u["pref"], day, kind,
                    )
                else:
                    if on:
                        prefs_seen.add(a["pref_index"])
            if u["num_users"] == 1:
                require(
                    len(prefs_seen) <= 1, "several-preferences",
                    "one individual runs appliances of preferences %s on %s", sorted(prefs_seen), day,
                )
        ctx.label(kind)
    ctx.nontrivial = must and mustnot
