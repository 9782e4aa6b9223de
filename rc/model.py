"""Building RAMP objects from case descriptions (runs under PyPy)."""
import contextlib
import datetime
import os
import warnings

import numpy as np
import pandas as pd

warnings.simplefilter("ignore")
import ramp  # noqa: E402
from ramp import UseCase, User, Appliance  # noqa: E402

from rc.common import power_values, is_series, DAY  # noqa: E402

warnings.simplefilter("ignore")


class Violation(Exception):
    def __init__(self, key, msg):
        Exception.__init__(self, "%s: %s" % (key, msg))
        self.key = key
        self.msg = msg


def bad(key, msg, *a):
    raise Violation(key, msg % a if a else msg)


def require(cond, key, msg, *a):
    if not cond:
        bad(key, msg, *a)


ARG_KEYS = (
    "number",
    "power",
    "num_windows",
    "func_time",
    "time_fraction_random_variability",
    "func_cycle",
    "fixed",
    "fixed_cycle",
    "continuous_duty_cycle",
    "occasional_use",
    "flat",
    "thermal_p_var",
    "pref_index",
    "wd_we_type",
    "name",
)
DEFAULTS = dict(
    number=1,
    power=0,
    num_windows=1,
    func_time=0,
    time_fraction_random_variability=0,
    func_cycle=1,
    fixed="no",
    fixed_cycle=0,
    continuous_duty_cycle=1,
    occasional_use=1,
    flat="no",
    thermal_p_var=0,
    pref_index=0,
    wd_we_type=2,
    name="",
)


def power_arg(p, form="frame"):
    if not is_series(p):
        return p
    vals = power_values(p)
    return pd.DataFrame(vals)


def window_arg(w, form="list"):
    if form == "array":
        return np.array(w)
    if form == "tuple":
        return tuple(w)
    return list(w)


def cycle_kwargs(i, c, form="list"):
    """keyword arguments of the i-th (1-based) duty cycle"""
    kw = {
        "p_%d1" % i: c["p1"],
        "t_%d1" % i: c["t1"],
        "p_%d2" % i: c["p2"],
        "t_%d2" % i: c["t2"],
    }
    if "rc" in c:
        kw["r_c%d" % i] = c["rc"]
    if c.get("cw1") is not None:
        kw["cw%d1" % i] = window_arg(c["cw1"], form)
    if c.get("cw2") is not None:
        kw["cw%d2" % i] = window_arg(c["cw2"], form)
    return kw


def app_kwargs(a):
    """keyword arguments of the declaration of an appliance, without windows and cycles"""
    kw = {}
    for k in ARG_KEYS:
        if k in a:
            kw[k] = a[k]
    if "power" in kw:
        kw["power"] = power_arg(kw["power"])
    kw.setdefault("num_windows", max(1, len(a.get("windows", []))))
    return kw


def window_kwargs(a, form="list"):
    kw = {}
    for i, w in enumerate(a.get("windows", []), 1):
        kw["window_%d" % i] = window_arg(w, form)
    if "random_var_w" in a:
        kw["random_var_w"] = a["random_var_w"]
    return kw


def mk_app(user, a, form="list"):
    kw = app_kwargs(a)
    kw.update(window_kwargs(a, form))
    for i, c in enumerate(a.get("cycles", []), 1):
        kw.update(cycle_kwargs(i, c, form))
    return user.add_appliance(**kw)


def mk_user(u, form="list"):
    user = User(
        user_name=u.get("name", "user"),
        num_users=u.get("num_users", 1),
        user_preference=u.get("pref", 0),
    )
    for a in u["apps"]:
        mk_app(user, a, form)
    return user


def mk_usecase(m, init=True, **over):
    """m: {users, date_start, date_end, num_days, parallel, peak_enlarge, random_seed}"""
    kw = dict(name=m.get("name", "uc"))
    users = [mk_user(u) for u in m["users"]]
    kw["users"] = users
    for k in ("date_start", "date_end"):
        if m.get(k) is not None:
            kw[k] = m[k]
    if "parallel" in m:
        kw["parallel_processing"] = m["parallel"]
    if "peak_enlarge" in m:
        kw["peak_enlarge"] = m["peak_enlarge"]
    if "random_seed" in m:
        kw["random_seed"] = m["random_seed"]
    kw.update(over)
    uc = UseCase(**kw)
    if init and not uc.is_initialized:
        uc.initialize(num_days=m.get("num_days"))
    return uc


def day_profile(user, prof_i=0, peak=(600, 700), day_type=0):
    prof = user.generate_single_load_profile(
        prof_i=prof_i, peak_time_range=np.arange(peak[0], peak[1]), day_type=day_type
    )
    prof = np.asarray(prof, dtype=float)
    require(prof.shape == (DAY,), "shape", "daily profile has shape %s", prof.shape)
    require(bool(np.all(np.isfinite(prof))), "finite", "daily profile has non-finite values")
    return prof


def runs_of(mask):
    """maximal runs of True as (start, end) pairs, end exclusive"""
    m = np.concatenate(([0], np.asarray(mask, dtype=int), [0]))
    d = np.diff(m)
    return list(zip(np.where(d == 1)[0].tolist(), np.where(d == -1)[0].tolist()))


def level_runs(prof, mask):
    """maximal runs of a constant level inside the True zones of mask: (start, end, level)"""
    out = []
    vals = prof.tolist()
    for s, e in runs_of(mask):
        i = s
        while i < e:
            j = i + 1
            while j < e and abs(vals[j] - vals[i]) <= 1e-12 * abs(vals[i]):
                j += 1
            out.append((i, j, vals[i]))
            i = j
    return out


@contextlib.contextmanager
def scratch():
    import tempfile
    import shutil

    d = tempfile.mkdtemp(prefix="rcscratch", dir=os.environ.get("RC_SCRATCH") or None)
    old = os.getcwd()
    os.chdir(d)
    try:
        yield d
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


def iso(d):
    return d.isoformat()


def to_date(s):
    return datetime.date.fromisoformat(s)


def app_state(app):
    """declared parameters of an appliance as plain values"""
    from ramp.core.constants import APPLIANCE_ATTRIBUTES

    out = {}
    for k in APPLIANCE_ATTRIBUTES:
        v = getattr(app, k)
        if k == "power" and len(v) and bool(np.all(np.asarray(v) == v[0])):
            # the number of values of a constant power is not declared
            v = float(v[0])
        if isinstance(v, np.ndarray):
            v = v.tolist()
        elif isinstance(v, (list, tuple)):
            v = [x.item() if isinstance(x, np.generic) else x for x in v]
        elif isinstance(v, np.generic):
            v = v.item()
        out[k] = v
    out["random_var"] = [int(getattr(app, "random_var_%d" % i)) for i in (1, 2, 3)]
    return out


def user_state(user):
    return (
        user.user_name,
        int(user.num_users),
        int(user.user_preference),
        [app_state(a) for a in user.App_list],
    )


def diff_state(a, b):
    """first difference between two nested states, as text"""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b)):
            if a.get(k) != b.get(k):
                return "%s: %s" % (k, diff_state(a.get(k), b.get(k)))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return "%d instead of %d items" % (len(b), len(a))
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return "[%d] %s" % (i, diff_state(x, y))
    return "%r became %r" % (a, b)
