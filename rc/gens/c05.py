from hypothesis import strategies as st

from rc import strat as s

CONF = dict(
    quick=220,
    thorough=5000,
    rule="a case is a community of 1-2 users with up to 6 appliances, each in its own slot of the day so that its activity is "
    "visible, with activation parameters (day type, functioning time 0, frequency 0 or 1, preference) over a calendar "
    "of up to 16 days; non-trivial when some appliance must run and some must not on a simulated day",
    assumptions=["frequencies other than 0 and 1 and the choice of preferences are decided by C06"],
)


@st.composite
def case(draw):
    users = []
    slot = 0
    for i in range(draw(s.ints(1, 2))):
        apps = []
        pref = draw(s.ints(0, 3))
        for j in range(draw(s.ints(1, 3))):
            w = [slot * 240 + 5, slot * 240 + 5 + draw(s.ints(3, 200))]
            slot += 1
            a = dict(
                windows=[w], power=draw(s.ints(1, 100)), number=draw(s.ints(1, 3)),
                func_time=draw(st.one_of(st.just(0), s.ints(1, w[1] - w[0]), s.ints(1, w[1] - w[0]))),
                func_cycle=1, name="a%d" % slot,
                wd_we_type=draw(st.sampled_from([0, 1, 2])),
                occasional_use=draw(st.sampled_from([1, 1, 1, 1.0, 0, 0.0])),
                pref_index=draw(st.sampled_from([0, 0, 0, 1, 2, 3])),
            )
            if draw(st.booleans()):
                a["flat"] = "yes"
            apps.append(a)
        users.append(dict(name="u%d" % i, num_users=draw(s.ints(1, 2)), pref=pref, apps=apps))
    cal, d, n = draw(s.calendar(16))
    return {"users": users, "cal": cal, "first": d, "n": n, "rng": draw(s.rng())}


FIXED = []
