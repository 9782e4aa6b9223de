from hypothesis import strategies as st

from rc import strat as s

CONF = dict(
    quick=130,
    thorough=5000,
    rule="a case is a table of results (any floats for csv, numbers of at most 15 digits for spreadsheets, any text as column "
    "names) written and read back, or 1 to 5 daily profiles formatted and exported; non-trivial when the table has several rows "
    "and non-integer values",
    assumptions=["column names are distinct and not empty", "spreadsheets hold 15 digits"],
)

text = st.one_of(
    st.sampled_from(["case 1", "a,b", "a;b", "x|y", "1", "Mean", "é ü", "it's", 'quo"te', "t\tb", "NA", "nan", "2020-01-01", "0.5"]),
    st.text(alphabet="abcXYZ019 _-.:/éß;,|", min_size=1, max_size=8).filter(lambda x: x.strip() == x and x != ""),
)
anyfloat = st.one_of(
    s.ints(-10**6, 10**6).map(lambda x: x / 3.0),
    st.floats(allow_nan=False, allow_infinity=False, width=64),
    s.ints(0, 10**9).map(float),
    st.just(0.1 + 0.2),
)
digits15 = st.one_of(s.ints(0, 10**6).map(lambda x: x / 1000.0), s.ints(-10**9, 10**9).map(float), st.sampled_from([0.1, 1e-9, 123456.789, 0.0]))


@st.composite
def case(draw):
    k = draw(st.sampled_from(["csv", "csv", "csv", "xlsx", "xlsx", "export", "export", "format"]))
    c = {"kind": k, "rng": draw(s.rng(False)), "start": draw(s.start_dates())}
    c["fname"] = draw(st.sampled_from(["res", "my results", "v1.2", "données", "a.csv.b", "sub/res"]))
    if k in ("csv", "xlsx"):
        n = draw(st.one_of(s.ints(1, 6), s.ints(2, 40)))
        c["step"] = draw(st.sampled_from(["min", "15min", "h", "D"]))
        c["hour"] = draw(st.sampled_from([0, 0, 5, 23])) if c["step"] != "D" else 0
        c["cols"] = draw(st.lists(text, min_size=1, max_size=4, unique=True))
        val = anyfloat if k == "csv" else digits15
        c["vals"] = [[draw(val) for _ in range(n)] for _ in c["cols"]]
        c["sep"] = draw(st.sampled_from([",", ",", ";", "\t", "|"]))
        c["index"] = draw(st.sampled_from(["none", "none", "shifted", "int"]))
        c["sheet"] = draw(st.sampled_from([None, 0, "Sheet1"]))
    else:
        c["days"] = draw(s.ints(1, 5))
        c["level"] = draw(st.sampled_from([0, 1, 1 / 3.0, 1e6]))
    return c


FIXED = []
