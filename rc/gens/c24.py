from hypothesis import strategies as st

from rc import strat as s

CONF = dict(
    quick=170,
    thorough=6000,
    rule="a case is a table of 1 to 120 rows (ties, zeros, negative values) over a time index of any step with 1 to 4 columns and "
    "two to six analysis operations on it; non-trivial when the table has several rows with different values and two operations "
    "returned values",
    assumptions=["values are multiples of 1/4, so that sums are exact", "figures are requested from the plotly engine, and load duration curves and shadow plots also from matplotlib (whose time axes stop this PyPy build)"],
)

STEPS = ["min", "15min", "h", "D"]
FREQS = {"min": ["min", "5min", "15min", "h", "3h", "D"], "15min": ["30min", "h", "6h", "D"], "h": ["h", "2h", "12h", "D", "2D"], "D": ["D", "2D"]}
NAMES = ["case 1", "case 2", "a", "b", "Mean", "Sum", "x y", "é", "all cases"]
ENGINES = ["plotly", "plotly", "Plotly", "matplotlib", "Matplotlib"]
OPS = [
    "resample", "resample", "resample-inplace", "mean", "sum", "peak", "error", "ldc", "loc", "loc", "iloc", "iloc", "head", "getitem",
    "copy", "add", "add", "line", "area", "shadow", "invalid", "invalid", "columns", "freq",
]


@st.composite
def column(draw, n):
    k = draw(st.sampled_from(["any", "ties", "zero", "const", "big"]))
    if k == "zero":
        return [0] * n
    if k == "const":
        return [draw(s.ints(-50, 50))] * n
    lim = {"any": 400, "ties": 3, "big": 10**8}[k]
    lo = draw(st.sampled_from([0, -lim]))
    return [draw(s.ints(lo, lim)) for _ in range(n)]


@st.composite
def op(draw, step, n, cols, free):
    o = draw(st.sampled_from(OPS))
    d = {"op": o}
    pos = s.ints(0, n - 1)
    if o.startswith("resample"):
        d["freq"] = draw(st.sampled_from(FREQS[step]))
        d["rule"] = draw(st.sampled_from(["mean", "sum", "max", "min", "first", "last", "count"]))
        d["conversion"] = draw(st.sampled_from([None, 1, 2, 4, 1000, 0.5]))
    elif o == "error":
        d["base"], d["ref"] = draw(st.sampled_from(cols)), draw(st.sampled_from(cols))
    elif o == "ldc":
        d["engine"] = draw(st.sampled_from(ENGINES))
        d["col"] = draw(st.sampled_from(cols))
    elif o in ("loc", "iloc"):
        d["rows"] = draw(st.sampled_from(["all", "one", "list", "slice", "mask", "text"] if o == "loc" else ["all", "one", "list", "slice", "mask", "neg"]))
        d["i"], d["j"] = draw(pos), draw(pos)
        d["list"] = draw(st.lists(pos, min_size=1, max_size=5, unique=True))
        d["cols"] = draw(st.sampled_from(["all", "one", "list", "slice"]))
        d["c"] = draw(st.lists(s.ints(0, len(cols) - 1), min_size=1, max_size=3, unique=True))
    elif o == "head":
        d["n"] = draw(s.ints(0, n + 2))
    elif o == "getitem":
        d["key"] = draw(st.one_of(st.sampled_from(cols), st.lists(st.sampled_from(cols), min_size=1, max_size=3, unique=True)))
    elif o == "add":
        k = draw(s.ints(1, 2))
        names = draw(st.lists(st.sampled_from(free + cols), min_size=k, max_size=k, unique=True))
        d["new"] = {x: [draw(s.ints(-9, 9)) for _ in range(n)] for x in names}
        d["as"] = draw(st.sampled_from(["frame", "plot"]))
    elif o in ("line", "area"):
        d["engine"] = "plotly"
        d["key"] = draw(st.one_of(st.none(), st.sampled_from(cols), st.lists(st.sampled_from(cols), min_size=1, max_size=3, unique=True)))
    elif o == "shadow":
        d["engine"] = draw(st.sampled_from(ENGINES))
        d["main"] = draw(st.one_of(st.none(), st.sampled_from(cols)))
        d["key"] = draw(st.one_of(st.none(), st.just("all"), st.sampled_from(cols), st.lists(st.sampled_from(cols), min_size=1, max_size=3, unique=True)))
    elif o == "invalid":
        d["what"] = draw(st.sampled_from(["engine", "add-index", "add-series", "series", "int-index", "shadow-both", "shadow-none", "column", "file", "set-series", "loc-column"]))
    elif o == "columns":
        d["prefix"] = draw(st.sampled_from(["n", "col "]))
    return d


@st.composite
def case(draw):
    step = draw(st.sampled_from(STEPS))
    n = draw(st.one_of(s.ints(1, 8), s.ints(2, 40), st.sampled_from([1, 2, 60, 61, 120])))
    cols = draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=4, unique=True))
    vals = [draw(column(n)) for _ in cols]
    free = [x for x in NAMES if x not in cols] + ["new"]
    ops = [draw(op(step, n, cols, free)) for _ in range(draw(s.ints(2, 6)))]
    return {
        "step": step, "start": draw(s.start_dates()), "hour": draw(st.sampled_from([0, 0, 0, 5, 23])) if step != "D" else 0,
        "cols": cols, "vals": vals, "given": draw(st.sampled_from(["index", "frame"])), "ops": ops, "rng": draw(s.rng(False)),
    }


FIXED = []
