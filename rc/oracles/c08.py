"""Duty cycles: the day is parsed into events, each of them following an admissible pattern."""
import numpy as np

from rc.common import binom_check, pit_check, DAY
from rc.model import mk_user, day_profile, require, runs_of, level_runs

ON = 0.01
TOL = 1e-9


def cw_list(a, c, i):
    out = []
    for j, k in enumerate(("cw1", "cw2")):
        w = c.get(k)
        if w is None and i == 0 and a["fixed_cycle"] == 1:
            # the windows of a single cycle default to the first two windows of use of the appliance
            if j < len(a["windows"]):
                w = a["windows"][j]
        if w is not None and w[1] > w[0]:
            out.append(w)
    return out


def overlap(s, e, w, inclusive):
    """event [s, e) against a cycle window"""
    return s < w[1] + (1 if inclusive else 0) and e > w[0]


def _selected(cws, s, e):
    """set of the cycles that may be the first one overlapped by [s, e); None in it: no cycle"""
    got = set()
    for incl in (False, True):
        for i, ws in enumerate(cws):
            if any(overlap(s, e, w, incl) for w in ws):
                got.add(i)
                break
        else:
            got.add(None)
    return got


def patterns(a, c):
    """possible minute patterns of a cycle without variability"""
    one = [c["p1"]] * c["t1"] + [c["p2"]] * c["t2"]
    two = [c["p2"]] * c["t2"] + [c["p1"]] * c["t1"]
    if a["fixed_cycle"] >= 3 and two != one:
        return [one, two]
    return [one]


def close(x, y):
    return abs(x - y) <= TOL * max(1.0, abs(y))


def parse_zone(vals, z0, z1, w, pats, cws, a, hi, full_zone):
    """smallest number of irregular events explaining minutes z0..z1 of window w.

    pats: one pattern per cycle (list of levels).  Irregular: shortened, or selected on the part that was cut.
    Returns None if impossible.
    """
    n = z1 - z0
    N = a["number"]
    ks = [N] if a.get("fixed") == "yes" else list(range(1, N + 1))
    oneshot = a.get("continuous_duty_cycle", 1) == 0
    fc = a["func_cycle"]
    INF = 99
    memo = {}

    def selected(cws, s, e):
        r = memo.get((s, e))
        if r is None:
            r = memo[s, e] = _selected(cws, s, e)
        return r

    f = [INF] * (n + 1)
    f[0] = 0
    for i in range(n):
        base = f[i]
        if base >= 2:
            if full_zone:
                continue
        if base >= INF:
            continue
        s = z0 + i
        for ci, pat in enumerate(pats):
            if not pat:
                continue
            L = len(pat)
            need = min(fc, L) if oneshot else fc
            # the event, before any shortening, ended somewhere in [j, limit]
            limit = min(w[1], s + hi)
            for k in ks:
                j = i
                while j < n:
                    t = j - i
                    if oneshot and t >= L:
                        break
                    if not close(vals[z0 + j], k * pat[t % L]):
                        break
                    j += 1
                    e = z0 + j
                    length = j - i
                    sel = selected(cws, s, e)
                    if oneshot:
                        if length == L:
                            ok = any(ci in selected(cws, s, x) for x in range(e, limit + 1))
                            cost = 0
                        else:
                            ok = any(ci in selected(cws, s, x) for x in range(e, limit + 1))
                            cost = 0 if (ci in sel and length >= need) else 1
                    else:
                        if ci in sel:
                            ok, cost = True, (0 if length >= need else 1)
                        else:
                            ok = any(ci in selected(cws, s, x) for x in range(e + 1, limit + 1))
                            cost = 1
                    if ok and base + cost < f[j]:
                        f[j] = base + cost
    return f[n] if f[n] < INF else None


def check_parse(case, ctx, prof, d):
    a = case["app"]
    cyc = a["cycles"]
    cws = [cw_list(a, c, i) for i, c in enumerate(cyc)]
    vals = prof.tolist()
    ft = a["func_time"]
    total = sum(y - x for x, y in a["windows"])
    hi = min(max(ft, a["func_cycle"]), max(int(0.99 * total), 99 * total // 100))
    on = prof > ON
    n_on = int(on.sum())
    zero_phase = any((c["p1"] == 0 and c["t1"]) or (c["p2"] == 0 and c["t2"]) for c in cyc)
    require(n_on <= hi, "on-time", "on for %d minutes, at most %d expected (day %d)", n_on, hi, d)
    if not zero_phase:
        cover = all(
            any(w[0] <= x and w[1] >= y for ws in cws for w in ws) for x, y in a["windows"]
        )
        if n_on < hi - 1 and cover:
            free = max([0] + [e - s for x, y in a["windows"] for s, e in runs_of(~on[x:y])])
            require(
                free < a["func_cycle"], "on-time",
                "on for %d minutes of %d although %d free minutes can hold the minimum cycle %d (day %d)",
                n_on, hi, free, a["func_cycle"], d,
            )
        ctx.label("covered" if cover else "not covered")
    import itertools

    combos = list(itertools.product(*[patterns(a, c) for c in cyc]))
    # minutes with exactly 0 are a phase of zero power or outside the events
    best = None
    for pats in combos:
        cost = 0
        for w in a["windows"]:
            if zero_phase:
                # events may contain off minutes: zones are delimited by untouched (0.001) minutes
                touched = np.array([not (0 < v < ON) for v in vals[w[0] : w[1]]])
            else:
                touched = on[w[0] : w[1]]
            for s, e in runs_of(touched):
                r = parse_zone(vals, s + w[0], e + w[0], w, pats, cws, a, hi, True)
                if r is None:
                    cost = None
                    break
                cost += r
            if cost is None:
                break
        if cost is not None and (best is None or cost < best):
            best = cost
    require(
        best is not None,
        "pattern",
        "day %d cannot be explained by the duty cycles: %s",
        d, [(s, e, round(l, 3)) for s, e, l in level_runs(prof, on)[:12]],
    )
    require(
        best <= 1,
        "pattern-irregular",
        "day %d needs at least two shortened events: %s",
        d, [(s, e, round(l, 3)) for s, e, l in level_runs(prof, on)[:12]],
    )
    return n_on


def dur_range(t, rc):
    return int(t * (1 - rc) + 1e-9), int(t * (1 + rc) + 1e-9)


def check_single_var(case, ctx, prof, d):
    """one continuous event per day with random durations or powers: its structure is fitted"""
    a = case["app"]
    cyc = a["cycles"]
    cws = [cw_list(a, c, i) for i, c in enumerate(cyc)]
    on = prof > ON
    runs = runs_of(on)
    if not runs:
        require(
            selected_none_possible(a, cws), "no-event", "no event at all on day %d", d
        )
        return 0
    if a.get("continuous_duty_cycle", 1) == 0:
        # several truncated events may exist; only levels are checked
        check_levels(a, prof, on, range(len(cyc)), d)
        return int(on.sum())
    require(len(runs) == 1, "single-event", "one event expected, got %s (day %d)", runs[:4], d)
    s, e = runs[0]
    require(e - s >= a["func_cycle"], "short", "event of %d minutes, minimum cycle %d (day %d)", e - s, a["func_cycle"], d)
    sel = [i for i in _selected(cws, s, e) if i is not None]
    require(bool(sel), "outside-cycle", "event [%d, %d) outside every cycle window %s (day %d)", s, e, cws, d)
    lv = level_runs(prof, on)
    ok = False
    for ci in sel:
        c = cyc[ci]
        if fits(a, c, lv, e - s):
            ok = True
    require(
        ok,
        "pattern",
        "event %s of day %d does not follow cycle %s %s",
        [(x, y, round(l, 3)) for x, y, l in lv[:10]], d, [i + 1 for i in sel], [cyc[i] for i in sel],
    )
    if len(lv) > 1:
        ctx.label("both phases")
    return e - s


def selected_none_possible(a, cws):
    """can the only event of the day be impossible because no cycle window overlaps the window of use"""
    x, y = a["windows"][0]
    return not any(overlap(x, y, w, False) for ws in cws for w in ws)


def lev_ok(a, p, lv):
    v = a.get("thermal_p_var", 0)
    N = a["number"]
    ks = [N] if a.get("fixed") == "yes" else range(1, N + 1)
    return [k for k in ks if k * p * (1 - v) * (1 - TOL) <= lv <= k * p * (1 + v) * (1 + TOL)]


def check_levels(a, prof, on, cycles, d):
    for s, e, l in level_runs(prof, on):
        require(
            any(lev_ok(a, p, l) for i in cycles for p in (a["cycles"][i]["p1"], a["cycles"][i]["p2"])),
            "level", "level %r of minutes [%d, %d) of day %d is not that of a phase", l, s, e, d,
        )


def fits(a, c, lv, length):
    """runs of constant level against alternating phases of constant durations and powers"""
    rc = c.get("rc", 0)
    orders = [0] if a["fixed_cycle"] < 3 else [0, 1]
    for o in orders:
        ph = [(c["p1"], c["t1"]), (c["p2"], c["t2"])]
        if o:
            ph = ph[::-1]
        (pa, ta), (pb, tb) = ph
        alo, ahi = dur_range(ta, rc)
        blo, bhi = dur_range(tb, rc)
        # possibility 1: a single level all along
        if len(lv) == 1:
            l = lv[0][2]
            if ahi >= 1 and lev_ok(a, pa, l) and (blo == 0 or ahi >= length):
                return True
            if bhi >= 1 and alo == 0 and lev_ok(a, pb, l):
                return True
            # (both phases can have the same power)
            if lev_ok(a, pa, l) and lev_ok(a, pb, l):
                return True
            continue
        # possibility 2: alternation
        ds = [y - x for x, y, _ in lv]
        ls = [l for _, _, l in lv]
        if not (set(lev_ok(a, pa, ls[0])) & set(lev_ok(a, pb, ls[1]))):
            continue
        if not all(close(l, ls[i % 2]) for i, l in enumerate(ls)):
            continue
        if not (alo <= ds[0] <= ahi and ds[0] >= 1):
            continue
        inner = ds[:-1]
        if not all(x == inner[i % 2] for i, x in enumerate(inner)):
            continue
        if len(inner) > 1 and not (blo <= inner[1] <= bhi):
            continue
        last = ds[-1]
        lim = inner[(len(ds) - 1) % 2] if len(inner) > (len(ds) - 1) % 2 else bhi
        if last > lim:
            continue
        return True
    return False


def check_stat(case, ctx, user):
    """laws of the durations of both phases, of their powers and of their order"""
    a = case["app"]
    c = a["cycles"][case["which"]]
    rc, v, n3 = c.get("rc", 0), a.get("thermal_p_var", 0), a["fixed_cycle"] >= 3
    pd, pp = ([], []), ([], [])
    swapped = total = 0
    for d in range(case["days"]):
        prof = day_profile(user, d, case["peak"])
        lv = level_runs(prof, prof > ON)
        if len(lv) < 2:
            require(False, "pattern", "both phases expected on day %d: %s", d, lv[:4])
        if a["continuous_duty_cycle"] == 0:
            require(
                len(lv) == 2 and lv[0][1] == lv[1][0], "one-shot", "one execution of the cycle expected on day %d: %s", d, lv[:5]
            )
        is1 = bool(lev_ok(a, c["p1"], lv[0][2]))
        is2 = bool(lev_ok(a, c["p2"], lv[0][2]))
        require(is1 or is2, "level", "level %r is not that of a phase of %s", lv[0][2], c)
        if is1 and is2:
            continue
        total += 1
        first = 0 if is1 else 1
        swapped += first
        require(n3 or first == 0, "order", "phases in reversed order on day %d", d)
        require(fits(a, c, lv, sum(y - x for x, y, _ in lv)), "pattern", "day %d: %s does not follow %s", d, lv[:6], c)
        ts = (c["t1"], c["t2"])
        ps = (c["p1"], c["p2"])
        obs = [(first, lv[0])]
        if len(lv) > 2 or a["continuous_duty_cycle"] == 0 and len(lv) == 2:
            obs.append((1 - first, lv[1]))
        for which, (x, y, l) in obs:
            m = y - x
            t = ts[which]
            if rc:
                # int(t * U), U uniform in [1-rc, 1+rc]
                lo, w = t * (1 - rc), 2 * rc * t
                pd[which].append((min(1, max(0, (m - lo) / w)), min(1, max(0, (m + 1 - lo) / w))))
                require(int(lo + 1e-9) <= m <= int(t * (1 + rc) + 1e-9), "duration", "phase of %d minutes lasts %d (variability %s)", t, m, rc)
            else:
                require(m == t, "duration", "phase of %d minutes lasts %d (day %d)", t, m, d)
            if v:
                f = l / (a["number"] * ps[which])
                u = min(1, max(0, (f - 1 + v) / (2 * v)))
                pp[which].append((u, u))
    for which in (0, 1):
        m = pit_check(pd[which])
        require(m is None, "duration-law", "phase %d of %s: %s", which + 1, c, m)
        m = pit_check(pp[which])
        require(m is None, "power-law", "phase %d of %s: %s", which + 1, c, m)
    if n3:
        m = binom_check(swapped, total, 0.5)
        require(m is None, "order-law", "phases swapped: %s", m)


def check(case, ctx):
    a = case["app"]
    user = mk_user({"apps": [a]})
    kind = case["kind"]
    ctx.label(kind + (" one-shot" if a.get("continuous_duty_cycle", 1) == 0 else ""))
    ctx.label("%d cycle(s)" % a["fixed_cycle"])
    if kind == "stat":
        ctx.nontrivial = True
        check_stat(case, ctx, user)
        return
    variable = a.get("thermal_p_var", 0) or any(c.get("rc", 0) for c in a["cycles"])
    for d in range(case["days"]):
        prof = day_profile(user, d, case["peak"])
        if kind == "robust":
            on = prof > ON
            check_levels(a, prof, on, range(len(a["cycles"])), d)
            require(int(on.sum()) == a["func_time"], "on-time", "on for %d minutes instead of %d", int(on.sum()), a["func_time"])
            ctx.nontrivial = True
            continue
        n = check_single_var(case, ctx, prof, d) if variable else check_parse(case, ctx, prof, d)
        if n and len(level_runs(prof, prof > ON)) > 1:
            ctx.nontrivial = True
