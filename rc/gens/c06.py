from hypothesis import strategies as st

from rc import strat as s

CONF = dict(
    quick=26,
    thorough=600,
    rule="a case is one user category (1-6 individuals, 0-3 preferences) with appliances in separate slots of the day, "
    "some with a frequency of use and some attached to preferences, simulated 300 times, or one individual with rare (almost constant) use or preferences over 4000 to 8000 days; every case is non-trivial "
    "(each one compares a distribution)",
    assumptions=["each single statistical decision errs with probability below 1e-11"],
)


SMALL = [0.001, 0.003, 0.012, 0.988, 0.995, 0.999]


def fine(pref, freqs, days, seed):
    """one individual over many days, for small deviations"""
    return {"kind": "fine", "pref": pref, "freqs": freqs, "days": days, "rng": {"seed": seed, "p": 0.0}}


@st.composite
def case(draw):
    if draw(s.ints(0, 9)) == 0:
        return fine(draw(st.sampled_from([0, 2, 3])), draw(st.lists(st.sampled_from(SMALL), min_size=1, max_size=2)), 4000, draw(s.seeds))
    pref = draw(st.sampled_from([0, 2, 3, 3]))
    apps = []
    slot = 0
    nfreq = draw(s.ints(1, 2))
    for j in range(nfreq):
        apps.append(dict(occasional_use=draw(st.sampled_from([0.1, 0.25, 0.4, 0.5, 0.6, 0.8, 0.95]))))
    for p in range(1, pref + 1):
        apps.append(dict(pref_index=p))
    if pref:
        apps.append(dict(pref_index=draw(s.ints(1, pref))))
        if draw(st.booleans()):
            apps.append(dict(pref_index=draw(s.ints(1, pref)), occasional_use=draw(st.sampled_from([0.3, 0.7]))))
        apps.append(dict(pref_index=0))
    apps = draw(st.permutations(apps))
    out = []
    for a in apps:
        a = dict(a)
        a.update(windows=[[slot, slot + 20]], func_time=10, func_cycle=10, power=10, number=1, fixed="yes", name="s%d" % slot)
        if draw(st.booleans()):
            a["flat"] = "yes"
        slot += 40
        out.append(a)
    return {
        "user": dict(name="u", num_users=draw(st.sampled_from([1, 1, 2, 4, 6])), pref=pref, apps=out),
        "days": 300,
        "usecase": draw(st.booleans()),
        "rng": draw(s.rng(False)),
    }


FIXED = [
    fine(3, [], 8000, 11),
    fine(2, [], 8000, 12),
    fine(0, [0.001, 0.995], 6000, 13),
    fine(0, [0.003, 0.012], 6000, 14),
]
