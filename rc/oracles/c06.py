"""Frequency of use and daily preferences."""
import math

import numpy as np

from rc.common import binom_check, multinomial_check, corr_check
from rc.model import mk_user, mk_usecase, require


def binom_pmf(n, p):
    return [math.comb(n, k) * p**k * (1 - p) ** (n - k) for k in range(n + 1)]


def fine(case, ctx):
    npref, days = case["pref"], case["days"]
    apps = [dict(pref_index=p) for p in range(1, npref + 1)] + [dict(occasional_use=f) for f in case["freqs"]]
    for i, a in enumerate(apps):
        a.update(windows=[[30 * i, 30 * i + 10]], func_time=5, power=10, name="s%d" % i, flat="yes")
    user = mk_user(dict(name="u", num_users=1, pref=npref, apps=apps))
    peak = np.arange(600, 700)
    counts = [0] * len(apps)
    for d in range(days):
        prof = user.generate_single_load_profile(0, peak, 0)
        n = 0
        for i in range(len(apps)):
            if prof[30 * i + 5] > 1:
                counts[i] += 1
                n += i < npref
        require(n == min(1, npref), "one-preference", "%d preferences on one day", n)
    for a, k in zip(apps, counts):
        p = 1.0 / npref if "pref_index" in a else a["occasional_use"]
        m = binom_check(k, days, p)
        require(m is None, "frequency", "frequency of use %s, preference %s of %s: %s", a.get("occasional_use", 1), a.get("pref_index", 0), npref, m)
    ctx.label("fine")
    ctx.nontrivial = True


def check(case, ctx):
    if case.get("kind") == "fine":
        return fine(case, ctx)
    u = case["user"]
    N, npref, days = u["num_users"], u["pref"], case["days"]
    if case["usecase"]:
        uc = mk_usecase(dict(users=[u], date_start="2023-01-02", num_days=days))
        arr = np.asarray(uc.generate_daily_load_profiles(flat=False))
    else:
        user = mk_user(u)
        arr = np.array(
            [
                np.array(
                    user.generate_aggregated_load_profile(
                        prof_i=d, peak_time_range=np.arange(600, 700), day_type=0
                    )
                )
                for d in range(days)
            ]
        )
    counts = {}
    for a in u["apps"]:
        x, y = a["windows"][0]
        if a.get("flat") == "yes":
            c = arr[:, x] / 10.0
        else:
            c = arr[:, x:y].sum(axis=1) / 100.0  # 10 minutes of 10 W per active individual
        k = np.rint(c)
        require(
            bool(np.all(np.abs(c - k) < 0.01)) and k.max() <= N,
            "individuals", "number of active individuals %s is not whole or above %d", c[:5].tolist(), N,
        )
        counts[a["name"]] = k.astype(int).tolist()
    first_of = {}
    for a in u["apps"]:
        k = counts[a["name"]]
        f = a.get("occasional_use", 1)
        p = a.get("pref_index", 0)
        prob = f * (1.0 / npref if p else 1.0)
        if p == 0 and f == 1:
            require(all(c == N for c in k), "always", "appliance of full frequency not always used: %s", k[:10])
            continue
        m = binom_check(sum(k), N * days, prob)
        require(m is None, "frequency", "frequency %s, preference %s of %s: %s", f, p, npref, m)
        pm = binom_pmf(N, prob)
        hist = [k.count(i) for i in range(N + 1)]
        m = multinomial_check(hist, pm)
        require(m is None, "individuals-law", "users active per day, frequency %s, preference %s of %s: %s", f, p, npref, m)
        m = corr_check(k[:-1], k[1:])
        require(m is None, "days-dependent", "use of consecutive days: %s", m)
        m = corr_check(k[:-7], k[7:])
        require(m is None, "days-dependent", "use one week apart: %s", m)
        if p and f == 1:
            if p in first_of:
                require(
                    k == first_of[p], "same-preference",
                    "two appliances of preference %d are not used by the same number of individuals", p,
                )
            first_of[p] = k
        if p and f < 1 and p in first_of:
            require(
                all(x <= y for x, y in zip(k, first_of[p])), "other-preference",
                "more individuals use an appliance of preference %d than drew it", p,
            )
    if npref:
        tot = [sum(first_of[p][d] for p in range(1, npref + 1)) for d in range(days)]
        require(
            all(t == N for t in tot), "one-preference",
            "individuals drawing preferences per day: %s, %d individuals", sorted(set(tot)), N,
        )
        if N == 1:
            # the sequence of drawn preferences: independent pairs
            seq = [next(p for p in first_of if first_of[p][d]) for d in range(days)]
            same = sum(a == b for a, b in zip(seq[::2], seq[1::2]))
            m = binom_check(same, len(seq) // 2, 1.0 / npref)
            require(m is None, "days-dependent", "same preference on consecutive days: %s", m)
    occ = [a for a in u["apps"] if a.get("occasional_use", 1) < 1 and not a.get("pref_index")]
    for i in range(len(occ)):
        for j in range(i):
            m = corr_check(counts[occ[i]["name"]], counts[occ[j]["name"]])
            require(m is None, "appliances-dependent", "use of two occasional appliances: %s", m)
    ctx.label("individuals %d" % N)
    ctx.label("preferences %d" % npref)
    ctx.nontrivial = True
