from hypothesis import strategies as st

from rc import strat as s

CONF = dict(
    quick=40,
    thorough=1800,
    rule="a case is a stochastic community, an initialisation style, a seed (0, negative and large ones included) and two "
    "earlier uses of the random generator; the model is built and generated from scratch twice, and once with another "
    "seed; non-trivial when the profiles of the other seed differ",
)


@st.composite
def case(draw):
    users = draw(s.community(stochastic=True))
    cal, d, n = draw(s.calendar(max_days=3))
    m = dict(users=users, **cal)
    m["random_seed"] = draw(st.sampled_from([0, 0, 1, -1, 7, -12345, 2**31, 2**70, 42]))
    return {
        "m": m,
        "other_seed": draw(s.ints(100, 10**6)),
        "priors": [draw(s.ints(0, 10**6)), draw(s.ints(0, 10**6))],
        "draws": draw(s.ints(0, 20)),
        "late": draw(st.sampled_from(["no", "no", "users", "apps"])),
        "again": draw(st.sampled_from(["generate", "cases", "force"])),
        "parallel": draw(s.ints(0, 14)) == 0,
        "rng": {"seed": draw(s.seeds), "p": 0.0},
    }


_APP = dict(windows=[[300, 900]], num_windows=1, func_time=60, func_cycle=10, number=3, power=100, thermal_p_var=0.2, name="a")
_APP2 = dict(windows=[[0, 400], [700, 1440]], num_windows=2, func_time=200, func_cycle=5, number=2, power=50, occasional_use=0.5,
             random_var_w=0.1, pref_index=1, name="b")


def _c(par, proc):
    return {
        "m": dict(users=[dict(name="u", num_users=3, pref=2, apps=[_APP, _APP2])], date_start="2024-02-28", date_end="2024-03-01", random_seed=5),
        "other_seed": 77, "priors": [1, 2], "draws": 3, "late": "no", "again": "generate", "parallel": par, "process": proc,
        "rng": {"seed": 3, "p": 0.0},
    }


FIXED = [_c(False, True), _c(True, False), _c(False, True)]
FIXED[2]["m"] = dict(FIXED[2]["m"], random_seed=0)
