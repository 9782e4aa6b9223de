from hypothesis import strategies as st

from rc import strat as s
from rc.common import DAY

CONF = dict(
    quick=24,
    thorough=900,
    rule="a case is a community (all parameters, daily power series of whole or broken numbers, any text as names), saved by "
    "the use case or one user and loaded into a new, initialised or already filled use case; non-trivial when it has at least "
    "two appliances and a series, a duty cycle or a preference",
    assumptions=["user names are distinct texts, every user has an appliance, numbers have at most 15 digits (xlsx)"],
)

texts = st.one_of(
    st.sampled_from(["Bar", "", "NA", "None", "nan", "12", "Ménage à 2", "a,b;c", "TRUE", "x y", "1e3", "'q'", "ünï", "a!b", " lead", "trail "]),
    st.text(alphabet="abcXYZ019 _-.:/éß", min_size=1, max_size=12).filter(lambda t: t.strip() != ""),
)


@st.composite
def series(draw):
    k = draw(st.sampled_from(["int", "third", "tiny", "ends", "zero"]))
    p = {"base": draw(s.ints(0, 500)), "step": draw(s.ints(1, 20)), "period": draw(st.sampled_from([2, 3, 7, 30, 366]))}
    if k == "third":
        p["base"] = draw(s.ints(1, 500)) / 3.0
        p["step"] = draw(s.ints(1, 500)) / 7.0
    elif k == "tiny":
        p["step"] = draw(st.sampled_from([1e-7, 1e-10, 3e-13]))
    elif k == "ends":
        p["over"] = {"365": p["base"]}
    elif k == "zero":
        p["over"] = {"0": 0, "365": 0}
    return p


# fractions of one to twelve digits
fracs = st.one_of(s.ints(1, 999).map(lambda x: x / 1000.0), s.ints(1, 10**12 - 1).map(lambda x: x / 1e12))


@st.composite
def any_app(draw, pref, name):
    a = draw(s.full_app(pref=pref, max_func_time=120))
    a["name"] = name
    k = draw(s.ints(0, 5))
    if k <= 1:
        a["power"] = draw(series())
    elif k == 2:
        a["power"] = draw(st.one_of(s.ints(0, 10**6).map(lambda x: x / 1000.0), fracs.map(lambda x: float("%.12g" % (x * 3000)))))
    if draw(s.ints(0, 2)) == 0:
        a["occasional_use"] = draw(fracs)
    if draw(s.ints(0, 2)) == 0:
        a["thermal_p_var"] = draw(fracs)
    if draw(s.ints(0, 2)) == 0:
        a["time_fraction_random_variability"] = draw(fracs)
    if draw(s.ints(0, 5)) == 0:
        a["func_time"] = 0
    if draw(s.ints(0, 6)) == 0:
        a["number"] = 0
    for c in a.get("cycles", []):
        if draw(s.ints(0, 2)) == 0:
            c["rc"] = draw(fracs)
        if draw(s.ints(0, 2)) == 0:
            c["p1"] = draw(s.ints(1, 10**9)) / 1e6
            c["p2"] = float("%.12g" % (draw(fracs) * 500))
        if draw(st.booleans()):
            x = draw(s.ints(0, DAY))
            c["cw2"] = [x, draw(s.ints(x, DAY))]
    return a


@st.composite
def case(draw):
    users = []
    names = draw(st.lists(texts, min_size=1, max_size=3, unique=True))
    for n in names:
        pref = draw(st.sampled_from([0, 0, 1, 2, 3]))
        apps = []
        for j in range(draw(s.ints(1, 3))):
            nm = draw(st.one_of(st.just(""), texts, st.just("same")))
            apps.append(draw(any_app(pref, nm)))
        users.append(dict(name=n, num_users=draw(st.sampled_from([1, 1, 2, 5, 0])), pref=pref, apps=apps))
    return {
        "users": users,
        "by": draw(st.sampled_from(["usecase", "usecase", "user"])),
        "into": draw(st.sampled_from(["new", "dates", "initialized", "filled"])),
        "fname": draw(st.sampled_from(["db", "sub/data base", "v1.2", "données"])),
        "rounds": draw(s.ints(1, 2)),
        "seed": draw(s.seeds),
        "rng": draw(s.rng(adversarial=False)),
    }


FIXED = []
