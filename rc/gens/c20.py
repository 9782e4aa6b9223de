from hypothesis import strategies as st

from rc import strat as s
from rc.common import DAY

CONF = dict(
    quick=110,
    thorough=4000,
    rule="a case is a community (all parameters, series of powers, one to three windows, up to three duty cycles) built twice "
    "through different documented interfaces (keywords, positional arguments, separate windows/cycles, stand-alone objects, "
    "legacy interface, other containers) and user registrations; non-trivial when the two ways differ and something is declared "
    "beyond the defaults",
    assumptions=[
        "windows are declared before the duty cycles of an appliance with one cycle, which uses them as default cycle windows",
        "every appliance gets at least its first window",
    ],
)

STYLES = ["kw", "positional", "mixed", "split", "split-pos", "cycle-n", "behaviour", "standalone", "standalone+add", "standalone-pos", "legacy", "legacy-user"]


@st.composite
def an_app(draw, pref, j):
    a = draw(s.full_app(pref=pref, max_func_time=120, series=True))
    k = draw(s.ints(0, 3))
    if k:
        a["name"] = "app%d" % j
    else:
        a.pop("name", None)
    cyc = a.get("cycles", [])
    for i, c in enumerate(cyc):
        z = draw(st.sampled_from([None, None, "p1", "t1", "p2", "t2"]))
        if z and (z[0] == "p" or c["t2" if z == "t1" else "t1"]):
            c[z] = 0
        if draw(st.booleans()):
            x = draw(s.ints(0, DAY - 1))
            c["cw2"] = [x, draw(s.ints(x, DAY))]
    if len(cyc) == 1 and draw(st.booleans()):
        cyc[0].pop("cw1")
    if draw(s.ints(0, 7)) == 0 and not cyc:
        a["func_time"] = 0
    # explicit or implicit defaults
    for key, v in (("fixed", "no"), ("flat", "no"), ("wd_we_type", 2), ("pref_index", 0), ("number", 1), ("occasional_use", 1)):
        if draw(s.ints(0, 4)) == 0:
            a.setdefault(key, v)
    return a


@st.composite
def how(draw, a):
    sty = draw(st.sampled_from(STYLES))
    if sty.startswith("legacy") and a.get("continuous_duty_cycle", 1) != 1:
        sty = "split"
    return dict(
        style=sty,
        form=draw(st.sampled_from(["list", "tuple", "array"])),
        power=draw(st.sampled_from(["frame", "series", "array", "column", "json"])),
        num=draw(st.sampled_from(["plain", "plain", "float", "numpy"])),
        npos=draw(s.ints(0, 15)),
        order=draw(st.sampled_from(["windows first", "cycles first"])),
        unused=draw(st.booleans()),
        omit=draw(st.booleans()),
    )


@st.composite
def case(draw):
    users = []
    for i in range(draw(s.ints(1, 3))):
        pref = draw(st.sampled_from([0, 0, 1, 2, 3]))
        apps = [draw(an_app(pref, j)) for j in range(draw(s.ints(1, 3)))]
        users.append(dict(name="u%d" % i, num_users=draw(st.sampled_from([1, 1, 2, 3])), pref=pref, apps=apps))
    reg = lambda: draw(st.sampled_from(["construction", "one by one", "list", "nested", "after init", "list after init"]))
    return {
        "users": users,
        "a": {"apps": [[draw(how(a)) for a in u["apps"]] for u in users], "reg": reg()},
        "b": {"apps": [[draw(how(a)) for a in u["apps"]] for u in users], "reg": reg()},
        "interleave": draw(st.booleans()),
        "user": draw(st.sampled_from(["positional", "omit", "keywords"])),
        "start": draw(s.start_dates()),
        "days": draw(s.ints(1, 3)),
        "seed": draw(s.seeds),
        "rng": draw(s.rng(adversarial=False)),
    }


FIXED = []
