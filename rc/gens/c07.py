from hypothesis import strategies as st

from rc import strat as s

CONF = dict(
    quick=400,
    thorough=9000,
    rule="a case is one appliance (1-3 windows, touching or not, any minimum cycle and functioning time, fixed or "
    "randomised windows) over several days under a random stream that may sit at its extremes; single units with "
    "a thermal variability make each event visible as one constant stretch; non-trivial when some day had several "
    "events or an event of the minimum cycle above one minute",
)


@st.composite
def case(draw):
    a = draw(s.app(rw=draw(st.booleans()), tfrv=True, numbers=st.sampled_from([1, 1, 1, 4]), zero_cycle=True))
    if draw(st.integers(0, 3)):
        a["thermal_p_var"] = draw(st.sampled_from([0.1, 0.2, 0.5]))
    if draw(st.booleans()):
        # functioning time a few times the cycle, so that several full events fit
        a["func_cycle"] = max(1, min(a["func_cycle"], a["func_time"] // draw(s.ints(1, 6))))
    return {"app": a, "days": draw(s.ints(1, 6)), "peak": draw(s.peak()), "rng": draw(s.rng())}


FIXED = []
