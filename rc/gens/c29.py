from hypothesis import strategies as st

from rc import strat as s

CONF = dict(
    quick=80,
    thorough=2500,
    rule="a case is a year, all days of which are classified as dates, datetimes at any time, timestamps and texts, with its "
    "yearly pattern, or isolated days from year 1 to 9999; non-trivial when both kinds of day occur",
    assumptions=["texts are ISO dates; pandas timestamps are limited to the years 1678 to 2261"],
)


@st.composite
def case(draw):
    c = {"rng": draw(s.rng(False))}
    c["kind"] = draw(st.sampled_from(["year", "year", "days", "default"]))
    if c["kind"] == "year":
        c["year"] = draw(st.one_of(s.ints(1900, 2100), st.sampled_from([1678, 1700, 1800, 1899, 1999, 2000, 2016, 2020, 2023, 2024, 2100, 2200, 2261])))
        c["hour"] = draw(st.sampled_from([0, 0, 1, 12, 23]))
        c["minute"] = draw(st.sampled_from([0, 30, 59]))
        c["tz"] = draw(st.sampled_from([None, None, "UTC", "Europe/Berlin"]))
    elif c["kind"] == "days":
        c["days"] = draw(st.lists(st.dates().map(lambda d: [d.year, d.month, d.day]), min_size=20, max_size=60))
    return c


FIXED = [
    {"kind": "default", "rng": {"seed": 1, "p": 0}},
    {"kind": "days", "days": [[1, 1, 1], [9999, 12, 31], [2000, 2, 29], [1900, 2, 28], [1900, 3, 1]], "rng": {"seed": 1, "p": 0}},
]
