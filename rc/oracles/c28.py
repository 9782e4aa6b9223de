"""Distribution of the start and duration of switch-on events."""
from rc.common import pit_check, corr_check, multinomial_check
from rc.model import mk_user, day_profile, require, level_runs, runs_of


def starts_in(stretches, fc):
    """all minutes at which an event of fc minutes may start"""
    return [m for x, y in stretches for m in range(x, y - fc + 1)]


def check(case, ctx):
    a = case["app"]
    k = case["kind"]
    user = mk_user({"apps": [a]})
    w = sorted(a["windows"])
    fc, ft = a["func_cycle"], a["func_time"]
    valid = starts_in(w, fc)
    index = dict((m, i) for i, m in enumerate(valid))
    n = len(valid)
    seen = {}
    per_win = [0] * len(w)
    pits, dpits, xs, ys = [], [], [], []
    for d in range(case["days"]):
        prof = day_profile(user, 0, case["peak"])
        on = prof > 0.01
        if k == "second":
            ev = [(s, e) for s, e, _ in level_runs(prof, on)]
            if len(ev) != 2:
                continue
            ev.sort(key=lambda v: v[0] - v[1])
            (s1, e1), (s2, e2) = ev
            if e1 - s1 <= fc or e2 - s2 != ft - (e1 - s1):
                # which one came first is not known
                continue
            rest = []
            for x, y in w:
                if x <= s1 and e1 <= y:
                    rest += [(x, s1), (e1, y)]
                else:
                    rest.append((x, y))
            free = starts_in(rest, fc)
            require(s2 in free, "start-impossible", "second event at %d, minimum cycle %d, windows %s, first event %s", s2, fc, w, (s1, e1))
            i = free.index(s2)
            pits.append((i / len(free), (i + 1) / len(free)))
            continue
        ev = runs_of(on)
        require(len(ev) == 1, "one-event", "%d events for a functioning time of %d, a minimum cycle of %d and the windows %s", len(ev), ft, fc, w)
        s, e = ev[0]
        require(s in index, "start-impossible", "event starts at %d, minimum cycle %d, windows %s", s, fc, w)
        seen[s] = seen.get(s, 0) + 1
        i = index[s]
        pits.append((i / n, (i + 1) / n))
        j = [j for j, (x, y) in enumerate(w) if x <= s < y][0]
        per_win[j] += 1
        if k == "duration":
            dur = e - s
            m = min(ft, int(0.99 * (w[0][1] - w[0][0])), w[0][1] - s)
            require(fc <= dur <= m, "duration-range", "event of %d minutes, between %d and %d possible", dur, fc, m)
            if m > fc + 1:
                # the largest duration may or may not be included
                dpits.append(((dur - fc) / (m - fc + 1.0), min(1.0, (dur - fc + 1.0) / (m - fc))))
                if m - fc >= 12:
                    xs.append((dur - fc + 0.5) / (m - fc))
                    ys.append(s)
        else:
            require(e - s == fc, "duration-range", "event of %d minutes instead of %d", e - s, fc)
    what = "starts of events (minimum cycle %d, windows %s)" % (fc, w)
    msg = pit_check(pits)
    require(msg is None, "start-law", "%s: %s", what, msg)
    if k != "second":
        total = case["days"]
        if len(w) > 1:
            msg = multinomial_check(per_win, [max(0, y - x - fc + 1) / float(n) for x, y in w])
            require(msg is None, "window-law", "%s: %s", what, msg)
        if total / float(n) > 26:
            missing = [m for m in valid if m not in seen]
            require(not missing, "start-unreachable", "%s: minutes %s never drawn in %d days", what, missing[:5], total)
            msg = multinomial_check([seen.get(m, 0) for m in valid], [1.0 / n] * n)
            require(msg is None, "start-law", "%s: %s", what, msg)
        elif total > 26:
            # first and last tenth of all starts
            q = max(1, n // 10)
            lo = sum(c for m, c in seen.items() if index[m] < q)
            hi = sum(c for m, c in seen.items() if index[m] >= n - q)
            msg = multinomial_check([lo, total - lo - hi, hi], [q / float(n), 1 - 2.0 * q / n, q / float(n)]) if 2 * q < n else None
            require(msg is None, "start-law", "%s: ends %s", what, msg)
    msg = pit_check(dpits)
    require(msg is None, "duration-law", "durations (%d to %d, windows %s): %s", fc, ft, w, msg)
    msg = corr_check(xs, ys)
    require(msg is None, "duration-dependent", "start and relative duration: %s", msg)
    ctx.label(k)
    ctx.nontrivial = n > 1 and len(pits) > 50
