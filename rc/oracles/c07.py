"""Durations and limits of switch-on events."""
from rc.common import rv_of
from rc.model import mk_user, day_profile, require, runs_of, level_runs

ON = 0.01


def check(case, ctx):
    a = case["app"]
    user = mk_user({"apps": [a]})
    fc = max(1, a["func_cycle"])
    w = a["windows"]
    rw = a.get("random_var_w", 0)
    v = a.get("thermal_p_var", 0)
    several = False
    for d in range(case["days"]):
        prof = day_profile(user, d, case["peak"])
        on = prof > ON
        runs = runs_of(on)
        if not runs:
            continue
        # stretches of on-minutes inside one window
        if not rw:
            bounds = set()
            for x, y in w:
                bounds.update((x, y))
            pieces = []
            for s, e in runs:
                cuts = [s] + sorted(b for b in bounds if s < b < e) + [e]
                pieces += list(zip(cuts, cuts[1:]))
        else:
            pieces = runs
        short = [p for p in pieces if p[1] - p[0] < fc]
        require(
            len(short) <= 1,
            "short-event",
            "%d stretches on for less than the minimum cycle of %d minutes on day %d: %s",
            len(short), fc, d, short[:4],
        )
        if v:
            # a level is one event: its duration, and it stays within one window
            evs = level_runs(prof, on)
            several = several or len(evs) > 1
            short = [p for p in evs if p[1] - p[0] < fc]
            require(
                len(short) <= 1,
                "short-event",
                "%d events shorter than the minimum cycle of %d minutes on day %d: %s",
                len(short), fc, d, short[:4],
            )
            if not rw and case["rng"]["p"] == 0:
                # (extreme draws repeat themselves: two adjacent events may then look like one)
                for s, e, lv in evs:
                    require(
                        any(x <= s and e <= y for x, y in w),
                        "crosses-window",
                        "event [%d, %d) is not within one of the windows %s (day %d)", s, e, w, d,
                    )
            ctx.label("events", len(evs))
        else:
            several = several or len(runs) > 1
        if short:
            ctx.label("shortened last event")
        ctx.label("fc>1" if fc > 1 else "fc<=1")
        if len(runs) > 1 or fc > 1:
            ctx.nontrivial = True
