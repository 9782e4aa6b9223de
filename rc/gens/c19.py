from hypothesis import strategies as st

from rc import strat as s
from rc.common import DAY

CONF = dict(
    quick=420,
    thorough=14000,
    rule="a case is a pair of appliances that are the same (written in other containers, types or for other periods) or differ in "
    "one bound or value of one parameter, a history of additions of such appliances to one user, or a pair of users; non-trivial "
    "when the two sides differ in one value or in their way of writing only",
    assumptions=[
        "appliances are named and completely declared when they are added",
        "whether a constant power equals a series of constant values is not decided",
    ],
)


@st.composite
def base(draw, name=None):
    """keyword arguments of a complete declaration"""
    a = draw(s.full_app(pref=3, max_func_time=100, series=True))
    kw = {k: a[k] for k in a if k not in ("windows", "cycles", "name")}
    kw["name"] = name or draw(st.sampled_from(["tv", "radio", "x"]))
    for i, w in enumerate(a["windows"], 1):
        kw["window_%d" % i] = w
    for i, c in enumerate(a.get("cycles", []), 1):
        kw.update({"p_%d1" % i: c["p1"], "t_%d1" % i: c["t1"], "p_%d2" % i: c["p2"], "t_%d2" % i: c["t2"]})
        if "rc" in c:
            kw["r_c%d" % i] = c["rc"]
        kw["cw%d1" % i] = c["cw1"]
        if draw(st.booleans()):
            x = draw(s.ints(0, DAY))
            kw["cw%d2" % i] = [x, draw(s.ints(x, DAY))]
    return kw


NUM = {
    "number": 1, "func_time": 0, "func_cycle": 1, "fixed_cycle": 0, "continuous_duty_cycle": 1, "pref_index": 0, "wd_we_type": 2,
    "time_fraction_random_variability": 0, "occasional_use": 1, "thermal_p_var": 0, "random_var_w": 0,
}
FRAC = ("time_fraction_random_variability", "occasional_use", "thermal_p_var", "random_var_w")


@st.composite
def delta(draw, kw):
    """one attribute and its other value"""
    cyc = [k for k in kw if k[:2] in ("p_", "t_", "r_", "cw")]
    wins = [k for k in kw if k.startswith("window_")]
    k = draw(st.sampled_from(sorted(NUM) + ["name", "fixed", "flat", "power", "power", "extra window"] + wins + wins + cyc))
    if k == "name":
        return [k, kw["name"] + "2"]
    if k in ("fixed", "flat"):
        return [k, "no" if kw.get(k, "no") == "yes" else "yes"]
    if k in FRAC:
        v = kw.get(k, NUM[k])
        return [k, v / 2 if v else 0.01] if k != "random_var_w" else [k, v / 2 if v else 0.001]
    if k in NUM:
        v = kw.get(k, NUM[k])
        if k == "continuous_duty_cycle":
            return [k, 1 - v]
        if k == "func_time":
            return [k, v - 1 if v else 1]
        if k in ("wd_we_type", "pref_index", "fixed_cycle"):
            return [k, (v + 1) % 3]
        return [k, v + 1]
    if k == "power":
        p = kw["power"]
        if isinstance(p, dict):
            # the values of a constant series differ from it in one day only
            i = draw(st.sampled_from([0, 1, 100, 364, 365]))
            q = dict(p)
            if draw(s.ints(0, 2)) == 0:
                # the same values, on a different number of days
                q["len"] = draw(st.sampled_from([365, 367, 380, 400, 732]))
                return [k, q]
            q["over"] = dict(q.get("over", {}))
            q["over"][str(i)] = 1234.5
            return [k, q]
        return [k, p + draw(st.sampled_from([1, 0.25, 1e-6]))]
    if k == "extra window":
        if "window_2" not in kw:
            return ["window_2", [3, 5]]
        if "window_3" not in kw:
            return ["window_3", [3, 5]]
        return ["window_3", [kw["window_3"][0], min(DAY, kw["window_3"][1] + 1)] if kw["window_3"][1] < DAY else [kw["window_3"][0] - 1, DAY]]
    if k.startswith("window_"):
        a, b = kw[k]
        # longer windows stay valid
        return [k, [a - 1, b]] if a > 0 and draw(st.booleans()) or b >= DAY and a > 0 else ([k, [a, b + 1]] if b < DAY else ["number", kw["number"] + 1])
    if k.startswith("cw"):
        a, b = kw[k]
        return [k, [a, b + 1]] if b < DAY and draw(st.booleans()) else [k, [a + 1, max(b, a + 1)]]
    v = kw[k]
    return [k, v + 1] if k[0] in "pt" else [k, v / 2 if v else 0.5]


form = st.fixed_dictionaries(
    {
        "win": st.sampled_from(["list", "tuple", "array"]),
        "num": st.sampled_from(["plain", "plain", "float", "numpy"]),
        "pow": st.sampled_from(["frame", "array", "series", "text"]),
        "days": st.sampled_from([None, None, 1, 10, 365, 400]),
    }
)


@st.composite
def case(draw):
    t = draw(st.sampled_from(["pair", "pair", "pair", "history", "users"]))
    c = {"type": t, "rng": draw(s.rng(adversarial=False))}
    if t == "pair":
        kw = draw(base())
        d = draw(delta(kw)) if draw(s.ints(0, 2)) else None
        c.update(kw=kw, delta=d, f1=draw(form), f2=draw(form))
    elif t == "history":
        kws = [draw(base(name=draw(st.sampled_from(["a", "b"]))))]
        for _ in range(draw(s.ints(1, 3))):
            src = draw(st.sampled_from(kws))
            d = draw(delta(src))
            kws.append(dict(src, **{d[0]: d[1]}))
        ops = draw(
            st.lists(
                st.tuples(s.ints(0, len(kws) - 1), form, st.sampled_from(["add", "add", "alone", "again", "join", "several"])), min_size=2, max_size=7
            )
        )
        c.update(kws=kws, ops=[list(o) for o in ops])
    else:
        apps = [draw(base(name="a%d" % i)) for i in range(draw(s.ints(0, 3)))]
        k = draw(st.sampled_from(["same", "same", "user_name", "num_users", "user_preference", "app", "less"]))
        if not apps and k in ("app", "less"):
            k = "same"
        c.update(apps=apps, change=k, f1=draw(form), f2=draw(form))
        if k == "app":
            i = draw(s.ints(0, len(apps) - 1))
            c["which"] = i
            c["delta"] = draw(delta(apps[i]))
    return c


FIXED = []
