import datetime

from hypothesis import strategies as st

from rc import strat as s

CONF = dict(
    quick=130,
    thorough=4000,
    rule="a case is a use case built with any of start date, end date (text, date or datetime) and a history of changes of "
    "these dates and of initialisations with or without number of days and force (or by reading the number of days or the time index); after each step the calendar is compared "
    "with the one defined by the current values; non-trivial when the calendar was initialised at least twice or spans the "
    "end of a month",
)


@st.composite
def case(draw):
    ops = []
    start = end = None
    base = draw(s.start_dates())

    def date(after=None, before=None):
        if after is not None:
            return s.plus_days(after, draw(s.ints(0, draw(st.sampled_from([0, 3, 40])))))
        if before is not None:
            return s.plus_days(before, -draw(s.ints(0, draw(st.sampled_from([0, 3, 40])))))
        return draw(s.start_dates())

    k = draw(st.sampled_from(["none", "start", "end", "both", "both"]))
    if k in ("start", "both"):
        start = base
    if k in ("end", "both"):
        end = date(after=base) if k == "both" else base
    form = draw(st.sampled_from(["str", "str", "date", "datetime", "timestamp"]))
    c = {"start": start, "end": end, "form": form}
    init = k == "both"
    for _ in range(draw(s.ints(1, 5))):
        o = draw(st.sampled_from(["init", "init", "set", "noop"]))
        if o == "set":
            which = draw(st.sampled_from(["start", "end", "both"]))
            if which == "start":
                start = date(before=end) if end else date()
                ops.append(["set", start, None])
            elif which == "end":
                end = date(after=start) if start else date()
                ops.append(["set", None, end])
            else:
                start = date()
                end = date(after=start)
                ops.append(["set", start, end])
        elif not init and start and end and draw(st.booleans()):
            # reading the calendar initialises it
            ops.append(["read", draw(st.sampled_from(["num_days", "datetimeindex"]))])
            init = True
        elif o == "noop" and init:
            ops.append(["init", draw(st.sampled_from([None, 1, 5])), False])
        else:
            need = not (start and end) and not init
            n = draw(s.ints(1, draw(st.sampled_from([3, 40]))))
            if not need and draw(st.booleans()):
                n = None
            ops.append(["init", n, init or draw(s.ints(0, 3)) == 0])
            init = True
    if not init:
        ops.append(["init", draw(s.ints(1, 6)), False])
    c["ops"] = ops
    c["user"] = draw(st.booleans())
    c["rng"] = draw(s.rng())
    return c


FIXED = [
    # the number of days follows the dates
    {"start": "2020-01-01", "end": "2020-01-03", "form": "str", "ops": [["set", None, "2020-01-10"], ["init", None, True]], "user": True, "rng": {"seed": 1, "p": 0}},
    {"start": None, "end": None, "form": "str", "ops": [["init", 3, False], ["init", 2, True]], "user": True, "rng": {"seed": 1, "p": 0}},
    {"start": "2019-12-31", "end": "2020-12-31", "form": "date", "ops": [["init", None, False]], "user": False, "rng": {"seed": 1, "p": 0}},
]
