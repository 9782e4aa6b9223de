from hypothesis import strategies as st

from rc import strat as s
from rc.common import DAY
from rc.gens.c12 import energy_app

CONF = dict(
    quick=16,
    thorough=300,
    rule="a case is a community without randomness, or of known daily energy, or with preferences, or with individual "
    "variations, or without any active appliance, simulated in parallel by 2-3 processes over 1-4 days; non-trivial when "
    "more than one task is run",
)


@st.composite
def case(draw):
    k = draw(st.sampled_from(["flat", "flat", "energy", "pref", "pref", "individuals", "many", "empty", "any"]))
    c = {"kind": k, "procs": draw(st.sampled_from([1, 2, 2, 3]))}
    cal, d, n = draw(s.calendar(max_days=4))
    c.update(start=d, days=n, cal=cal)
    if k == "flat":
        c["users"] = draw(s.flat_community())
    elif k == "energy":
        users = []
        for i in range(draw(s.ints(1, 3))):
            apps = [draw(energy_app("app%d" % j)) for j in range(draw(s.ints(1, 3)))]
            users.append(dict(name="u %d" % i, num_users=draw(st.sampled_from([1, 2, 3, 5])), pref=draw(s.ints(0, 3)), apps=apps))
        c["users"] = users
    elif k == "pref":
        users = []
        slot = 0
        for i in range(draw(s.ints(1, 2))):
            pref = draw(s.ints(1, 3))
            apps = []
            for p in list(range(0, pref + 1)) + [draw(s.ints(1, pref)), draw(s.ints(1, pref))]:
                apps.append(
                    dict(windows=[[slot, slot + 4]], func_time=4, flat="yes", func_cycle=1, power=10, number=1, pref_index=p, name="s%d" % slot)
                )
                slot += 5
            users.append(dict(name="u%d" % i, num_users=draw(s.ints(1, 6)), pref=pref, apps=draw(st.permutations(apps))))
        c["users"] = users
        c["start"] = "2023-01-01"
        c["days"] = 40
        c["cal"] = {"date_start": "2023-01-01", "num_days": 40}
    elif k == "many":
        # two appliances of a single individual over many days
        apps = [
            dict(windows=[[x, x + 5]], func_time=2, func_cycle=2, number=1, power=draw(s.ints(1, 99)), name="a%d" % x, thermal_p_var=0.3)
            for x in (100, 700)
        ]
        c["users"] = [dict(name="u", num_users=1, pref=0, apps=apps)]
        c["start"] = "2023-01-01"
        c["days"] = 250
        c["cal"] = {"date_start": "2023-01-01", "num_days": 250}
    elif k == "individuals":
        fc = draw(s.ints(1, 30))
        a = dict(windows=[[0, DAY]], func_time=fc, func_cycle=fc, number=1, power=draw(s.ints(1, 99)), name="a", thermal_p_var=0.3)
        c["users"] = [dict(name="u", num_users=draw(s.ints(2, 9)), pref=0, apps=[a])]
        c["days"] = 20
        c["start"] = "2023-01-01"
        c["cal"] = {"date_start": "2023-01-01", "num_days": 20}
    elif k == "empty":
        e = draw(st.sampled_from(["no users", "no appliances", "unused", "some days"]))
        c["empty"] = e
        if e == "no users":
            c["users"] = []
        else:
            apps = []
            if e == "unused":
                apps = [dict(windows=[[0, 100]], func_time=0, power=5, name="z"), dict(windows=[[0, 100]], func_time=10, occasional_use=0, power=5, name="y")]
            elif e == "some days":
                apps = [dict(windows=[[0, 100]], func_time=100, power=5, name="z", flat="yes", wd_we_type=draw(s.ints(0, 1)))]
            c["users"] = [dict(name="u", num_users=2, pref=0, apps=apps)]
    else:
        c["users"] = draw(s.community(cycles=True))
    c["rng"] = draw(s.rng(False))
    return c


FIXED = []
