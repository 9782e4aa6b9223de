from hypothesis import strategies as st

from rc import strat as s
from rc.common import DAY

CONF = dict(
    quick=30,
    thorough=800,
    rule="a case is a community of 1-4 categories of 1-3 appliances (constant or daily powers, 1-3 windows), whose sums of "
    "maximum profiles are all distinct, an enlargement fraction and a way of passing it; the peak range is drawn 400 times "
    "and compared with the law around the independently computed theoretical peak; non-trivial when the peak window is "
    "not the whole day",
    assumptions=["each single statistical decision errs with probability below 1e-11"],
)


@st.composite
def case(draw):
    users = []
    unit = 1
    for i in range(draw(s.ints(1, 4))):
        apps = []
        nu = draw(st.sampled_from([1, 1, 2, 5]))
        for j in range(draw(s.ints(1, 3))):
            w = draw(s.windows())
            number = draw(s.ints(1, 3))
            # every appliance weighs more than all the previous ones together: equal sums are the same appliances
            p = unit
            unit = unit * 2 * number * nu + 1
            a = dict(windows=w, num_windows=len(w), func_time=1, number=number, power=p, name="a%d" % j)
            if draw(s.ints(0, 3)) == 0:
                # same mean over the year
                a["power"] = {"base": 0, "step": 2 * p, "period": 2}
            if draw(s.ints(0, 3)) == 0:
                a["occasional_use"] = draw(st.sampled_from([0, 0.3]))
            if draw(s.ints(0, 3)) == 0:
                a["wd_we_type"] = draw(s.ints(0, 1))
            apps.append(a)
        users.append(dict(name="u%d" % i, num_users=nu, pref=0, apps=draw(st.permutations(apps))))
    if draw(s.ints(0, 4)) == 0:
        # the peak is a single minute or a pair of remote minutes
        x = draw(st.sampled_from([0, 1, 720, 1439]))
        ws = [[x, x + 1]]
        if draw(st.booleans()):
            y = draw(s.ints(0, 1439))
            if y != x:
                ws.append([y, y + 1])
        users[0]["apps"].append(
            dict(windows=ws, num_windows=len(ws), func_time=0, number=1, power=unit, name="z")
        )
    c = {"users": draw(st.permutations(users))}
    c["pe"] = draw(st.sampled_from([0.15, 0.15, 0.0, 0.05, 0.3, 1.0]))
    c["how"] = draw(st.sampled_from(["init", "setter", "initialize", "calc", "late", "after", "force", "force"]))
    c["draws"] = 400
    c["rng"] = draw(s.rng(False))
    return c


FIXED = []
