"""Same seed: identical peak range and profiles, whatever happened before."""
import hashlib
import json
import multiprocessing
import os
import random
import subprocess
import sys

import numpy as np

from rc.model import mk_user, mk_usecase, mk_app, require, UseCase, User


def build_and_run(case, seed):
    m = dict(case["m"], random_seed=seed)
    if case["parallel"]:
        m["parallel"] = True
    late = case.get("late", "no")
    if late == "users":
        uc = mk_usecase(dict(m, users=m["users"][:1]), init=False)
        for u in m["users"][1:]:
            uc.add_user(mk_user(u))
        if not uc.is_initialized:
            uc.initialize(num_days=m.get("num_days"))
    else:
        uc = mk_usecase(m)
    out = [np.asarray(uc.peak_time_range, dtype=float)]
    out.append(np.array(uc.generate_daily_load_profiles(), dtype=float))
    again = case["again"]
    if again == "generate":
        out.append(np.array(uc.generate_daily_load_profiles(flat=False), dtype=float))
    elif again == "cases":
        out.append(np.array(uc.generate_daily_load_profiles(cases=["a", "b"]).df.values, dtype=float))
    else:
        uc.initialize(num_days=m.get("num_days"), force=True)
        out.append(np.asarray(uc.peak_time_range, dtype=float))
        out.append(np.array(uc.generate_daily_load_profiles(), dtype=float))
    return out


def same(xs, ys):
    return len(xs) == len(ys) and all(
        x.shape == y.shape and bool(np.array_equal(x, y)) for x, y in zip(xs, ys)
    )


def digest(arrays):
    h = hashlib.sha256()
    for a in arrays:
        h.update(repr(a.shape).encode())
        h.update(np.ascontiguousarray(a).tobytes())
    return h.hexdigest()


def check(case, ctx):
    old = multiprocessing.cpu_count
    multiprocessing.cpu_count = lambda: 2
    try:
        seed = case["m"]["random_seed"]
        runs = []
        for i, prior in enumerate(case["priors"]):
            random.seed(prior)
            np.random.seed(prior % 2**32)
            for _ in range(case["draws"] * i):
                random.gauss(0, 1)
            runs.append(build_and_run(case, seed))
        a, b = runs
        require(
            np.array_equal(a[0], b[0]), "peak",
            "the same seed %s gives peak time ranges %s and %s", seed, a[0][[0, -1]].tolist(), b[0][[0, -1]].tolist(),
        )
        require(
            same(a, b), "profiles",
            "the same seed %s gives different profiles (parallel: %s)", seed, case["parallel"],
        )
        other = build_and_run(case, case["other_seed"])
        require(
            not np.array_equal(other[1], a[1]), "other-seed",
            "seeds %s and %s give identical profiles of a stochastic model", seed, case["other_seed"],
        )
    finally:
        multiprocessing.cpu_count = old
    if case.get("process"):
        # fresh interpreters with the original generator and different hash seeds
        got = []
        for hs in ("0", "77"):
            p = subprocess.run(
                [sys.executable, "-m", "rc.oracles.c11"],
                input=json.dumps(case), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                env=dict(os.environ, PYTHONHASHSEED=hs), text=True, timeout=200,
            )
            lines = p.stdout.strip().splitlines()
            require(bool(lines) and lines[-1].startswith("DIGEST "), "process", "the process failed (%s)", p.returncode)
            got.append(lines[-1])
        require(got[0] == got[1], "process", "two processes give different results for seed %s", seed)
        ctx.label("other process")
    ctx.label("parallel" if case["parallel"] else "sequential")
    ctx.label("seed %s" % ("0" if seed == 0 else "negative" if seed < 0 else "positive"))
    ctx.nontrivial = True


def _main():
    case = json.loads(sys.stdin.read())
    sys.path.insert(0, os.environ.get("RC_REPO", "/repo"))
    print("DIGEST " + digest(build_and_run(case, case["m"]["random_seed"])))


if __name__ == "__main__":
    _main()
