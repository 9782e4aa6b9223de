from hypothesis import strategies as st

from rc import strat as s

CONF = dict(
    quick=70,
    thorough=3500,
    rule="a case is a community (all parameters) with a history of generations of single appliances, users, categories, use cases "
    "and cases under extreme random streams, compared with a fresh model from the same random state; non-trivial when the history "
    "generated a profile and the last generation consumes",
)

OPS = ["single", "single", "aggregated", "aggregated", "appliance", "generate", "cases", "max", "save", "str", "peak", "parallel"]


@st.composite
def case(draw):
    users = draw(s.community(series=True, max_users=3, max_apps=3))
    for u in users:
        for a in u["apps"]:
            a["func_time"] = min(a["func_time"], 80)
            for cy in a.get("cycles", []):
                cy["rc"] = draw(st.sampled_from([0, 0.2, 0.8]))
    ops = []
    for _ in range(draw(s.ints(1, 6))):
        o = draw(st.sampled_from(OPS))
        if o == "parallel" and draw(s.ints(0, 7)):
            o = "aggregated"
        ops.append([o, draw(s.ints(0, 2)), draw(s.ints(0, 2)), draw(s.ints(0, 5)), draw(s.ints(0, 1))])
    return {
        "users": users, "ops": ops, "start": draw(s.start_dates()), "days": draw(s.ints(1, 3)),
        "check": draw(st.sampled_from(["usecase", "usecase", "user", "single"])),
        "seed": draw(s.seeds), "rng": draw(s.rng(True)),
    }


FIXED = []
