"""Peak time range against the law around an independently computed theoretical peak."""
import numpy as np

from rc.common import DAY, pit_check, phi, power_values, normal_check, square_check
from rc.model import mk_app, mk_user, mk_usecase, require, UseCase


def theoretical_peak(users):
    tot = [0] * DAY
    for u in users:
        for a in u["apps"]:
            vals = power_values(a["power"])
            w2 = sum(vals) * a["number"] * u["num_users"]  # times 366: exact integers
            for x, y in a["windows"]:
                for t in range(x, y):
                    tot[t] += w2
    m = max(tot)
    return [t for t in range(DAY) if tot[t] == m]


def check(case, ctx):
    users = case["users"]
    pw = theoretical_peak(users)
    mu2 = 2.0 * sum(pw) / len(pw)
    mean = mu2 / 2
    lo_mu, hi_mu = round(mean), round(mean)
    if abs(mean - int(mean) - 0.5) < 1e-9:
        lo_mu, hi_mu = int(mean), int(mean) + 1
    sd = (pw[-1] - pw[0]) / 3.0
    pe = case["pe"]
    how = case["how"]
    if how == "late":
        uc = UseCase(name="c", date_start="2021-03-01", date_end="2021-03-02", peak_enlarge=pe)
        for u in users:
            uc.add_user(mk_user(u))
    elif how == "force":
        # appliances declared after a first initialisation count from the next one on
        uc = UseCase(name="c", users=[mk_user(dict(users[0], apps=users[0]["apps"][:1]))], date_start="2021-03-01", date_end="2021-03-02", peak_enlarge=pe)
        for a in users[0]["apps"][1:]:
            mk_app(uc.users[0], a)
        for u in users[1:]:
            uc.add_user(mk_user(dict(u, apps=u["apps"][:1])))
            for a in u["apps"][1:]:
                mk_app(uc.users[-1], a)
        uc.initialize(force=True)
    elif how == "init":
        uc = mk_usecase({"users": users, "peak_enlarge": pe, "num_days": 2})
    else:
        uc = mk_usecase({"users": users, "num_days": 2}, init=False)
        if how == "initialize":
            uc.initialize(num_days=2, peak_enlarge=pe)
        elif how == "setter":
            uc.peak_enlarge = pe
            uc.initialize(num_days=2)
        elif how == "after":
            uc.initialize(num_days=2)
            uc.generate_daily_load_profiles()
            uc.initialize(num_days=2, peak_enlarge=pe, force=True)
        else:
            uc.initialize(num_days=2)
            uc.calc_peak_time_range(peak_enlarge=pe)
    first = uc.peak_time_range
    pits_c, pits_w = [], []
    zs, qs = [], []
    for i in range(case["draws"]):
        if i == 0:
            r = first
        elif how == "force":
            uc.initialize(force=True)
            r = uc.peak_time_range
        else:
            r = uc.calc_peak_time_range(peak_enlarge=pe) if how == "calc" else uc.calc_peak_time_range()
        r = np.asarray(r)
        require(r.ndim == 1 and len(r) >= 2, "empty", "peak time range %r", r)
        v = [float(x) for x in r]
        require(
            all(x == int(x) for x in v) and all(v[j + 1] == v[j] + 1 for j in range(len(v) - 1)),
            "contiguous", "peak time range is not a contiguous range of minutes: %s", v[:8],
        )
        require(len(v) % 2 == 0, "symmetric", "peak time range has %d minutes, not symmetric", len(v))
        half = len(v) // 2
        centre = int(v[0]) + half
        if sd == 0:
            require(
                lo_mu <= centre <= hi_mu, "centre",
                "peak time %d although the theoretical peak is minute %s", centre, mean,
            )
        else:
            zs.append((centre - mean) / sd)
            pits_c.append((phi((centre - 0.5 - hi_mu) / sd), phi((centre + 0.5 - lo_mu) / sd)))
        s = abs(pe * centre)
        if s == 0:
            require(half == 1, "half-length", "half-length %d without enlargement", half)
        else:
            up = 2 * phi((half + 0.5) / s) - 1
            lo = 0.0 if half == 1 else 2 * phi((half - 0.5) / s) - 1
            pits_w.append((lo, up))
            if s >= 20:
                qs.append((half / s) ** 2)
    m = pit_check(pits_c)
    require(m is None, "centre-law", "peak time, window %s..%s: %s", pw[0], pw[-1], m)
    m = pit_check(pits_w)
    require(m is None, "half-length-law", "half-length, enlargement %s: %s", pe, m)
    if sd >= 20:
        m = normal_check(zs, "peak time", 0.05)
        require(m is None, "centre-law", "window %s..%s: %s", pw[0], pw[-1], m)
    m = square_check(qs, "half-length", 0.03)
    require(m is None, "half-length-law", "half-length, enlargement %s: %s", pe, m)
    ctx.label("single minute" if len(pw) == 1 else "split" if pw[-1] - pw[0] + 1 != len(pw) else "window")
    ctx.label(how)
    ctx.nontrivial = len(pw) < DAY
