from hypothesis import strategies as st

from rc import strat as s

CONF = dict(
    quick=30,
    thorough=1200,
    rule="a case is one to three generated legacy python files (import form, legacy and current declarations, series, "
    "preferences, duty cycles, appliances kept in lists or named twice, helper modules, data files) and a history of "
    "conversions (function or command line, path forms, output folder, suffix, names kept or not, file edited in between); "
    "non-trivial when at least two appliances are converted",
    assumptions=[
        "names of users are distinct, every user has an appliance",
        "two inputs of the same name are not written to the same folder",
        "the requested output folder exists",
    ],
)

STEMS = ["input_file", "case 1", "case.v2", "my.python", "json", "core", "3rd", "a-b", "x", "py", "inputs.py"]
DIRS = ["", "", "sub", "sub/deep", "dir.with.dots", "my dir", "data.py"]


@st.composite
def source(draw, k):
    users = []
    for i in range(draw(s.ints(1, 3))):
        pref = draw(st.sampled_from([0, 0, 1, 2, 3]))
        apps = []
        for j in range(draw(s.ints(1, 3))):
            a = draw(s.full_app(pref=pref, max_func_time=120))
            if len(a.get("cycles", [])) == 1 and draw(st.booleans()):
                a["cycles"][0].pop("cw1")
            a["style"] = draw(st.sampled_from(["legacy", "legacy", "legacy-user", "legacy-user", "legacy-kw", "new", "kw"]))
            if a.get("continuous_duty_cycle", 1) != 1 and a["style"].startswith("legacy"):
                a["style"] = "new"
            a["var"] = draw(st.sampled_from(["var", "var", "var", "var", "list", "again", "none", "a", "i"]))
            if a["style"] in ("new", "kw") and draw(s.ints(0, 2)) == 0:
                a["name"] = "given %d" % j
            if draw(s.ints(0, 3)) == 0:
                a["series"] = draw(st.sampled_from(["frame", "csv"]))
            apps.append(a)
        users.append(dict(name="user %d.%d" % (k, i), num_users=draw(st.sampled_from([1, 1, 2, 30])), pref=pref, apps=apps))
    return dict(
        users=users,
        imports=draw(st.sampled_from(["core", "core", "core *", "two lines", "comment", "ramp.core.core", "ramp", "indented"])),
        helper=draw(s.ints(0, 3)) == 0,
        newline=draw(st.booleans()),
        header=draw(st.sampled_from([True, True, False])),
        dir=draw(st.sampled_from(DIRS)),
        stem=draw(st.sampled_from(STEMS)),
    )


@st.composite
def step(draw, n):
    return dict(
        files=draw(st.lists(s.ints(0, n - 1), min_size=1, max_size=n, unique=True)),
        by=draw(st.sampled_from(["function", "function", "positional", "cli"])),
        path=draw(st.sampled_from(["relative", "relative", "absolute", "dot", "up", "pathlib"])),
        out=draw(st.sampled_from([None, None, "out", "out/", "abs"])),
        suffix=draw(st.sampled_from([None, "", "_converted", ".v3"])),
        keep=draw(st.sampled_from([True, True, True, False])),
        edit=draw(s.ints(0, 2)) == 0,
    )


@st.composite
def case(draw):
    n = draw(st.sampled_from([1, 1, 2, 2, 3]))
    files = [draw(source(k)) for k in range(n)]
    if n > 1 and draw(st.booleans()):
        # the same name in different folders
        for k, f in enumerate(files):
            f["stem"] = files[0]["stem"]
            f["dir"] = ["", "sub", "my dir"][k]
    return {
        "files": files,
        "steps": [draw(step(n)) for _ in range(draw(s.ints(1, 3)))],
        "rng": draw(s.rng(adversarial=False)),
    }


FIXED = []
