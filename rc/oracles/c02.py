"""Consumption inside windows; randomisation of the window bounds."""
import numpy as np

from rc.common import rv_of, pit_check, corr_check
from rc.model import mk_user, day_profile, require, runs_of, window_kwargs, DAY

ON = 0.01


def clip(x):
    return max(0, min(DAY, x))


def one_day(a, prof, ctx, d, exact_flat):
    """checks one day, returns the observed bounds of the flat windows (or None)"""
    w = a["windows"]
    rw = a.get("random_var_w", 0)
    allowed = np.zeros(DAY, dtype=bool)
    for x, y in w:
        r = rv_of(rw, (x, y))
        allowed[clip(x - r) : clip(y + r)] = True
    out = np.where(~allowed & (prof != 0))[0]
    require(
        len(out) == 0,
        "outside-window",
        "load %r at minute %s outside the windows %s (variability %s), day %d",
        float(prof[out[0]]) if len(out) else 0, out[:3].tolist(), w, rw, d,
    )
    if a.get("flat") != "yes":
        return None
    from rc.common import power_values

    level = power_values(a["power"])[d % 366] * a.get("number", 1)
    on = prof > ON
    lv = prof[on]
    require(
        bool(np.all(np.abs(lv - level) <= 1e-9 * level)),
        "flat-level",
        "flat appliance of %s W has levels %s", level, sorted(set(lv.tolist()))[:4],
    )
    if not exact_flat:
        return None
    obs = []
    # touching windows without variability are checked through the union
    if not rw:
        want = np.zeros(DAY, dtype=bool)
        for x, y in w:
            want[x:y] = True
        require(
            bool(np.array_equal(on, want)),
            "flat-fill",
            "flat appliance is on during %s instead of its windows %s (day %d)",
            runs_of(on)[:4], w, d,
        )
        return None
    touching = any(x[1] + rv_of(rw, x) >= y[0] - rv_of(rw, y) for x in w for y in w if y[0] > x[0])
    if touching:
        # windows that may meet: each core is filled, that is all that can be said
        for x, y in w:
            r = rv_of(rw, (x, y))
            require(
                bool(np.all(on[x + r : y - r])), "flat-fill", "core of window %s not filled (day %d)", [x, y], d
            )
        return None
    for x, y in w:
        r = rv_of(rw, (x, y))
        lo, hi = clip(x - r), clip(y + r)
        rs = runs_of(on[lo:hi])
        if not rs and x + r >= y - r:
            return None
        require(
            len(rs) == 1,
            "flat-fill",
            "flat window %s is not filled by one stretch: %s (day %d)", [x, y], rs[:4], d,
        )
        s, e = rs[0][0] + lo, rs[0][1] + lo
        require(
            clip(x - r) <= s <= clip(x + r) and clip(y - r) <= e <= clip(y + r),
            "flat-bounds",
            "flat window %s observed as [%d, %d], bounds may move by %d (day %d)", [x, y], s, e, r, d,
        )
        obs.append((s, e))
    return obs


def unif(k, lo, hi):
    """pair F(k-), F(k) of the discrete uniform law on lo..hi"""
    n = hi - lo + 1.0
    return ((k - lo) / n, (k - lo + 1) / n)


def clipped_pair(k, lo, hi, cl):
    """the same once clipped to cl=(0, DAY)"""
    a, b = unif(k, lo, hi)
    if k == cl[0] and lo < cl[0]:
        a = 0.0
    if k == cl[1] and hi > cl[1]:
        b = 1.0
    return (max(0.0, a), min(1.0, b))


def check(case, ctx):
    a = case["app"]
    first = case.get("first")
    if first:
        user = mk_user({"apps": [dict(a, windows=first["windows"], random_var_w=first["random_var_w"])]})
        if first["used"]:
            try:
                day_profile(user, 0, case["peak"])
            except ValueError as e:
                if "func_cycle" not in str(e):
                    raise
        user.App_list[0].windows(**window_kwargs(a))
        ctx.label("declared again")
    else:
        user = mk_user({"apps": [a]})
    w = a["windows"]
    rw = a.get("random_var_w", 0)
    exact = case["kind"] != "wide"
    allobs = []
    moved = False
    consumed = False
    after = before = 0
    for d in range(case["days"]):
        try:
            prof = day_profile(user, d % 366, case["peak"])
        except ValueError as e:
            # only once windows that can vanish did so may the documented refusal be raised
            room = sum(max(0, (y - x) - 2 * rv_of(rw, (x, y))) for x, y in w)
            if "func_cycle" in str(e) and int(0.99 * room) < max(1, a.get("func_cycle", 1)):
                ctx.label("refused: windows too small that day")
                continue
            raise
        obs = one_day(a, prof, ctx, d, exact)
        on = prof > ON
        consumed = consumed or bool(on.any())
        if obs:
            allobs.append(obs)
            moved = moved or any((s, e) != tuple(x) for (s, e), x in zip(obs, w))
        elif rw:
            inside = np.zeros(DAY, dtype=bool)
            for x, y in w:
                inside[x:y] = True
            moved = moved or bool((on & ~inside).any())
        if case["kind"] == "reach":
            x, y = w[0]
            before += bool(on[: x].any())
            after += bool(on[y:].any())
    ctx.label(case["kind"] + (" flat" if a.get("flat") == "yes" else ""))
    if case["kind"] == "reach":
        require(
            before >= 5 and after >= 5,
            "window-never-widened",
            "in %d days the appliance started before its window %d times and ended after it %d times, "
            "although the bounds may move by %d minutes", case["days"], before, after, rv_of(rw, w[0]),
        )
        # and some days are shortened: first on-minute well after the declared start
    if case["kind"] == "stat" and allobs:
        cols = []
        for i, (x, y) in enumerate(w):
            r = rv_of(rw, (x, y))
            if x + r > y - r and r:
                continue
            starts = [o[i][0] for o in allobs]
            ends = [o[i][1] for o in allobs]
            m = pit_check([clipped_pair(k, x - r, x + r, (0, DAY)) for k in starts])
            require(m is None, "bounds-law", "start of window %s (+-%d): %s", [x, y], r, m)
            m = pit_check([clipped_pair(k, y - r, y + r, (0, DAY)) for k in ends])
            require(m is None, "bounds-law", "end of window %s (+-%d): %s", [x, y], r, m)
            if r:
                # both extremes are reached with the probability they have
                for name, vals, lo, hi in (("start", starts, x - r, x + r), ("end", ends, y - r, y + r)):
                    p = (1 - 1.0 / (2 * r + 1)) ** len(vals)
                    if p < 1e-11:
                        require(
                            min(vals) <= max(lo, 0) and max(vals) >= min(hi, DAY),
                            "bounds-law",
                            "%s of window %s spans %d..%d in %d days, %d..%d possible",
                            name, [x, y], min(vals), max(vals), len(vals), lo, hi,
                        )
            cols += [starts, ends]
        for i in range(len(cols)):
            for j in range(i):
                m = corr_check(cols[i], cols[j])
                require(m is None, "bounds-dependent", "bounds of windows %s: %s", w, m)
    ctx.nontrivial = consumed and (moved or not rw)
