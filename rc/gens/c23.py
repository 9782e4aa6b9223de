from hypothesis import strategies as st

from rc import strat as s

CONF = dict(
    quick=4,
    thorough=60,
    copy=True,
    rule="a case is a folder of spreadsheets (naming scheme, numbers padded or not, other files beside, right or wrong number "
    "of files), a year and an output folder; twelve different models without randomness are simulated and both files compared "
    "minute by minute with a reference; non-trivial when a whole year is written or a wrong folder is refused",
    assumptions=["numbers in the names of the files are written in one way when the names hold other digits"],
)

SCHEMES = [
    "%d.xlsx", "%02d.xlsx", "month_%d.xlsx", "%d - input.xlsx", "case 2022_%02d.xlsx", "v2.%d.xlsx", "input_%03d_of_12.xlsx",
    "%d_b7.xlsx", "mixed_%s.xlsx",
]


@st.composite
def case(draw):
    scheme = draw(st.sampled_from(SCHEMES))
    apps = []
    for j in range(draw(s.ints(1, 3))):
        a = draw(s.flat_app(series=False, name="a%d" % j))
        a["power"] = draw(st.one_of(s.ints(1, 1000), s.ints(1, 9999).map(lambda x: x / 8.0), s.ints(1, 99).map(lambda x: x / 7.0)))
        apps.append(a)
    apps[0]["wd_we_type"] = 2
    c = {
        "scheme": scheme,
        "pad": [draw(st.booleans()) for _ in range(12)],
        "folder": draw(st.sampled_from(["in", "2019", "data 2020 v3/in", "7"])),
        "abs": draw(st.booleans()),
        "slash": draw(st.booleans()),
        "year": draw(st.sampled_from([1900, 1999, 2000, 2019, 2020, 2021, 2022, 2023, 2024, 2100])),
        "apps": apps,
        "step": draw(s.ints(1, 7)),
        "users": draw(s.ints(1, 3)),
        "shuffle": draw(st.permutations(range(12))),
        "noise": draw(st.lists(st.sampled_from(["notes.txt", "0.csv", "3.py", "sub", "99.xlsx.bak"]), max_size=3, unique=True)),
        "out": draw(st.sampled_from([None, "new", "there", "new"])),
        "n": draw(st.booleans()),
        "ext": draw(st.booleans()),
        "real": draw(s.ints(0, 4)) == 0,
        "rng": draw(s.rng(adversarial=False)),
    }
    if draw(s.ints(0, 3)) == 2:
        c["count"] = draw(st.sampled_from([0, 1, 11, 11, 13, 13, 24]))
    else:
        c["count"] = 12
    return c


FIXED = []
