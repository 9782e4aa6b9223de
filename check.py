#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough] [--seed N] [--shards N]
   check.py --replay FILE

Decides one property by generated-input search: exit 0 if it held on everything explored, exit 1 and
a line "VIOLATION property=<id> replay=<path>" if not, exit 2 if the check itself failed.
"""
import argparse
import hashlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VT = "/opt/veriftools/pyvenv/bin/python"
sys.dont_write_bytecode = True
if os.path.exists(VT) and os.path.realpath(sys.prefix) != "/opt/veriftools/pyvenv":
    if not os.environ.get("RC_REEXEC"):
        os.environ["RC_REEXEC"] = "1"
        os.execv(VT, [VT, os.path.abspath(__file__)] + sys.argv[1:])
sys.path.insert(0, HERE)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--shards", type=int, default=8)
    ap.add_argument("--shard", type=int)
    ap.add_argument("--out")
    ap.add_argument("--scratch")
    ap.add_argument("--replay")
    a = ap.parse_args()
    from rc import driver

    if a.replay:
        rep, ans = driver.replay(a.replay)
        print(json.dumps(ans, indent=1))
        if ans["violations"]:
            print("VIOLATION property=%s replay=%s" % (rep["property"], a.replay))
            return 1
        return 0
    if a.shard is not None:
        driver.run_shard(a.prop, a.shard, a.shards, a.seed, a.tier, a.scratch, a.out)
        return 0

    t0 = time.time()
    prop = a.prop
    os.environ["PYTHONHASHSEED"] = "0"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    import importlib

    gen = importlib.import_module("rc.gens." + prop.lower())
    root = tempfile.mkdtemp(prefix="rc-%s-" % prop)
    procs = []
    try:
        for s in range(a.shards):
            d = os.path.join(root, "s%d" % s)
            os.mkdir(d)
            env = dict(
                os.environ, PYTHONPATH=HERE, TMPDIR=d, HYPOTHESIS_STORAGE_DIRECTORY=d
            )
            procs.append(
                (
                    s,
                    os.path.join(root, "out%d.json" % s),
                    subprocess.Popen(
                        [
                            sys.executable, os.path.abspath(__file__), prop,
                            "--shard", str(s), "--shards", str(a.shards),
                            "--seed", str(a.seed), "--tier", a.tier,
                            "--scratch", d, "--out", os.path.join(root, "out%d.json" % s),
                        ],
                        env=env,
                        start_new_session=True,
                    ),
                )
            )
        results = {}
        pending = list(procs)
        fail_seen = None
        while pending:
            time.sleep(0.1)
            still = []
            for s, path, p in pending:
                if p.poll() is None:
                    still.append((s, path, p))
                    continue
                if os.path.exists(path):
                    with open(path) as f:
                        results[s] = json.load(f)
                    if results[s]["failing"] and fail_seen is None:
                        fail_seen = time.time()
                else:
                    results[s] = {"error": "shard %d ended with status %s" % (s, p.returncode)}
            pending = still
            if fail_seen is not None and time.time() - fail_seen > 5:
                break
    finally:
        for s, path, p in procs:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
        shutil.rmtree(root, ignore_errors=True)

    errors = [r["error"] for r in results.values() if r.get("error")]
    good = [r for r in results.values() if "evaluations" in r]
    evaluations = sum(r["evaluations"] for r in good)
    nontrivial = set()
    labels, known = {}, {}
    samples = []
    for s in sorted(results):
        r = results[s]
        if "evaluations" not in r:
            continue
        nontrivial.update(r["nontrivial"])
        for k, v in r["labels"].items():
            labels[k] = labels.get(k, 0) + v
        for k, v in r["known"].items():
            known.setdefault(k, {"count": 0, "msg": v["msg"]})
            known[k]["count"] += v["count"]
        samples += r["samples"][:1]
    failing = [r["failing"] for r in good if r["failing"]]
    rc = 0
    lines = []
    listed = driver.load_known(prop)
    for k in sorted(known):
        lines.append(
            "KNOWN-FINDING: property=%s %s: %s" % (prop, k, listed[k].get("what", known[k]["msg"]))
        )
    if failing:
        best = min(failing, key=lambda f: f["size"])
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        h = hashlib.sha1(json.dumps(best["case"], sort_keys=True).encode()).hexdigest()[:10]
        path = os.path.join(HERE, "replays", "%s-%s.json" % (prop, h))
        with open(path, "w") as f:
            json.dump(
                {
                    "property": prop,
                    "violations": best["violations"],
                    "case": best["case"],
                    "replay_with": "python3 check.py --replay " + path,
                },
                f,
                indent=1,
            )
        for v in best["violations"]:
            lines.append("  %s: %s" % (v["key"], v["msg"]))
        lines.append("VIOLATION property=%s replay=%s" % (prop, path))
        rc = 1
    elif errors:
        for e in errors:
            lines.append("CHECK ERROR: " + e)
        rc = 2
    elif evaluations == 0:
        lines.append("CHECK ERROR: nothing was evaluated")
        rc = 2

    def short(c):
        t = json.dumps(c)
        return c if len(t) < 1500 else t[:1500] + "..."

    ev = {
        "property": prop,
        "tier": "thorough" if a.tier == "thorough" else "quick",
        "seed": a.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(nontrivial),
            "rule": gen.CONF["rule"],
            "samples": [short(c) for c in samples[:4]],
            "labels": dict(sorted(labels.items())),
            "shards": len(good),
            "cases_skipped_by_time_budget": sum(r.get("skipped", 0) for r in good),
            "known_findings_met": {k: v["count"] for k, v in known.items()},
        },
        "assumptions": gen.CONF.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(failing),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(
        "%s: %d cases, %d distinct non-trivial, %.1f s"
        % (prop, evaluations, len(nontrivial), time.time() - t0)
    )
    if os.environ.get("RC_SLOW"):
        for r in sorted(good, key=lambda r: -r["slowest"][0])[:3]:
            print("slow %.1f s (shard %d, %.1f s): %s" % (r["slowest"][0], r["shard"], r["wall"], json.dumps(r["slowest"][1])[:400]))
    for l in lines:
        print(l)
    return rc


if __name__ == "__main__":
    sys.exit(main())
