from hypothesis import strategies as st

from rc import strat as s

CONF = dict(
    quick=140,
    thorough=5000,
    rule="a case is a community of 1-4 user categories with 1-4 flat appliances with fixed windows (constant or daily power, "
    "weekday/weekend types), a calendar (up to 10 days, one case in twenty about one or two years), a permutation of the declarations and a seed, generated twice (and user by user, for days of a year) and compared "
    "minute by minute with an independent reference sum; non-trivial with at least two appliances active on a "
    "simulated day, or several users, units or day types",
)


@st.composite
def case(draw):
    if draw(s.ints(0, 19)) == 0:
        # periods of about a year or two
        users = draw(s.flat_community(max_users=2, max_apps=2))
        n = draw(st.sampled_from([360, 364, 365, 366, 367, 400, 731, 800]))
        cal, d, n = draw(s.calendar(days=n))
        for u in users:
            for a in u["apps"]:
                if isinstance(a["power"], dict):
                    # the series covers the simulated period
                    a["power"]["len"] = max(366, n + draw(s.ints(0, 2)))
                    a["power"]["period"] = draw(st.sampled_from([7, 366, 1000]))
    else:
        users = draw(s.flat_community())
        cal, d, n = draw(s.calendar())
    return {
        "users": users,
        "cal": cal,
        "first": d,
        "n": n,
        "flat": draw(st.booleans()),
        "late": draw(st.booleans()),
        "perm": draw(st.permutations(range(len(users)))),
        "rev": draw(st.booleans()),
        "random_seed": draw(st.one_of(st.none(), s.ints(0, 5))),
        # days of a year and day types, for users outside of any use case
        "alone": draw(st.lists(st.tuples(st.one_of(st.sampled_from([0, 364, 365]), s.ints(0, 365)), s.ints(0, 1)), max_size=3)),
        "rng": draw(s.rng()),
    }


FIXED = []
