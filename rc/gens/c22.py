import datetime

from hypothesis import strategies as st

from rc import strat as s

CONF = dict(
    quick=40,
    thorough=1500,
    copy=True,
    rule="a case is a command line (one to three inputs, outputs, dates, years, numbers of days, parallel flag in any order, "
    "valid or contradictory); either the runs it starts are recorded, or tiny models without randomness are really simulated "
    "and the files compared with a reference sum; non-trivial when several inputs or a period of several days are run, or a "
    "contradiction is refused",
    assumptions=[
        "inputs without an output file have different names",
        "years are given in ascending order",
        "without any date the first simulated day is not decided (today's date is used, the documentation says a monday)",
    ],
)


@st.composite
def model(draw):
    apps = [draw(s.flat_app(series=False, name="a%d" % j)) for j in range(draw(s.ints(1, 2)))]
    return [dict(name="u", num_users=draw(s.ints(1, 3)), pref=0, apps=apps)]


@st.composite
def period(draw, real):
    c = {}
    if real:
        n = draw(s.ints(1, 6))
        k = draw(st.sampled_from(["n", "start+n", "end+n", "both", "both+n", "start", "end", "prompt"]))
    else:
        n = draw(st.sampled_from([1, 2, 10, 365, 400]))
        k = draw(
            st.sampled_from(
                ["n", "start+n", "end+n", "both", "both+n", "start", "end", "prompt", "year", "year", "years", "year+n",
                 "year+start", "year+end", "year+both", "year+start+n", "year+end+n"]
            )
        )
    d = draw(s.start_dates())
    y = int(d[:4])
    if k == "start" and real:
        d = datetime.date(y, 12, 31 - n + 1).isoformat()
    if k == "end" and real:
        d = datetime.date(y, 1, n).isoformat()
    if k in ("start+n", "both", "both+n", "start", "year+start", "year+start+n", "year+both"):
        c["start"] = d
    if k in ("both", "both+n", "year+both"):
        c["end"] = s.plus_days(d, n - 1)
    if k in ("end+n", "end", "year+end", "year+end+n"):
        c["end"] = d
    if k.startswith("year"):
        c["years"] = [y] if k != "years" else draw(st.sampled_from([[y, y + 1], [y, y + 1, y + 2], [y, y]]))
    if k.endswith("+n") or k == "n":
        c["n"] = [n]
    if k == "prompt":
        c["answer"] = n
    return c


@st.composite
def case(draw):
    real = draw(s.ints(0, 3)) == 0
    m = draw(st.sampled_from([1, 1, 1, 2, 2, 3]))
    inputs = []
    for i in range(m):
        kind = draw(st.sampled_from(["xlsx"] * 5 + ["py"]))
        stem = draw(st.sampled_from(["in", "in", "my file", "case.v1", "2020", "A-b_c"])) + draw(st.sampled_from(["%d", "_%d", " %d"])) % i
        inputs.append(dict(kind=kind, dir=draw(st.sampled_from(["", "sub", "my dir"])), stem=stem, users=draw(model())))
    if draw(s.ints(0, 9)) == 0:
        inputs[draw(s.ints(0, m - 1))]["kind"] = draw(st.sampled_from(["csv", "xls", "missing.py", "missing.xlsx"]))
    c = {"real": real, "inputs": inputs, "period": draw(period(real))}
    n = c["period"].get("n")
    if n and m > 1:
        k = draw(st.sampled_from(["one", "each", "each", "wrong"]))
        if k == "each":
            c["period"]["n"] = [draw(s.ints(1, 5)) for _ in range(m)]
        elif k == "wrong":
            c["period"]["n"] = [1] * (m + draw(st.sampled_from([-1, 1])))
            if len(c["period"]["n"]) == 1:
                c["period"]["n"] = [1] * (m + 1)
    k = draw(st.sampled_from(["none", "each", "each", "each", "wrong"]))
    if k == "none":
        c["out"] = None
    else:
        c["out"] = draw(st.sampled_from(["", "out dir/"]))
        c["n_out"] = m if k == "each" else draw(st.sampled_from([x for x in (1, m - 1, m + 1) if x >= 1 and x != m]))
    c["parallel"] = draw(s.ints(0, 5 if real else 2)) == 0
    c["no_input"] = draw(s.ints(0, 20)) == 13
    c["order"] = draw(s.ints(0, 5))
    c["abs"] = draw(st.booleans())
    c["rng"] = draw(s.rng(adversarial=False))
    return c


FIXED = []
