"""CPython side: Hypothesis generates cases, a PyPy worker decides them.  One process = one shard."""
import importlib
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYPY = os.environ.get("RC_PYPY", "/opt/pypyvenv/bin/python")
REPO = os.environ.get("RC_REPO", "/repo")
WALL_LIMIT = int(os.environ.get("RC_WALL_LIMIT", "300"))


class HarnessError(Exception):
    pass


class StopSearch(KeyboardInterrupt):
    """leaves the Hypothesis engine at once"""


def copy_of_package(scratch):
    """the package writes results next to its own files: run it from a copy"""
    import shutil

    root = os.path.join(scratch, "package")
    if not os.path.exists(root):
        shutil.copytree(
            os.path.join(REPO, "ramp"),
            os.path.join(root, "ramp"),
            ignore=shutil.ignore_patterns("__pycache__", "test", "output_file_*.csv"),
        )
        os.makedirs(os.path.join(root, "ramp", "results"), exist_ok=True)
    return root


class Worker:
    def __init__(self, scratch, prop):
        self.scratch = scratch
        self.proc = None
        gen = importlib.import_module("rc.gens." + prop.lower())
        self.repo = copy_of_package(scratch) if gen.CONF.get("copy") else REPO

    def start(self):
        env = dict(os.environ)
        env.update(
            PYTHONHASHSEED="0",
            PYTHONDONTWRITEBYTECODE="1",
            PYTHONPATH=HERE + os.pathsep + self.repo,
            MPLBACKEND="Agg",
            MPLCONFIGDIR=os.path.join(self.scratch, "mpl"),
            RC_SCRATCH=self.scratch,
            BROWSER="true",
            HOME=self.scratch,
            RC_PYPY=PYPY,
            RC_REPO=self.repo,
            OMP_NUM_THREADS="1",
            OPENBLAS_NUM_THREADS="1",
        )
        env["PATH"] = os.path.dirname(PYPY) + os.pathsep + env.get("PATH", "")
        self.proc = subprocess.Popen(
            [PYPY, "-m", "rc.worker"],
            stdin=subprocess.PIPE,
            stdout=subprocess.PIPE,
            stderr=None,
            cwd=self.scratch,
            env=env,
            text=True,
            bufsize=1,
        )
        line = self.proc.stdout.readline()
        if not line or not json.loads(line).get("ready"):
            raise HarnessError("the PyPy worker did not start (ramp not importable?)")

    def run(self, prop, case, retry=True):
        if self.proc is None:
            self.start()
        try:
            self.proc.stdin.write(json.dumps({"prop": prop, "case": case}) + "\n")
            self.proc.stdin.flush()
            if not self.wait():
                self.kill()
                return {
                    "labels": {},
                    "nontrivial": True,
                    "no_shrink": True,
                    "violations": [
                        {
                            "key": "non-termination",
                            "msg": "no answer after %d s" % WALL_LIMIT,
                        }
                    ],
                }
            line = self.proc.stdout.readline()
        except (BrokenPipeError, OSError):
            line = ""
        if not line:
            rc = self.proc.wait()
            self.proc = None
            if retry:
                return self.run(prop, case, retry=False)
            if rc == -9:
                raise HarnessError("worker killed (out of memory?)")
            return {
                "labels": {},
                "nontrivial": True,
                "no_shrink": True,
                "violations": [
                    {
                        "key": "process-death",
                        "msg": "the interpreter died (status %s) on this case, twice" % rc,
                    }
                ],
            }
        ans = json.loads(line)
        if ans.get("harness_error"):
            raise HarnessError(ans["harness_error"])
        return ans

    def wait(self):
        """waits for an answer (or the end of the worker)"""
        import select

        return bool(select.select([self.proc.stdout], [], [], WALL_LIMIT)[0])

    def kill(self):
        """ends the worker and the processes it started"""
        import signal

        pids = [self.proc.pid]
        for pid in pids:
            try:
                with open("/proc/%d/task/%d/children" % (pid, pid)) as f:
                    pids += [int(x) for x in f.read().split()]
            except OSError:
                pass
        for pid in pids:
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
        self.proc.wait()
        self.proc = None

    def stop(self):
        if self.proc is not None:
            try:
                self.proc.stdin.close()
                self.proc.wait(timeout=10)
            except Exception:
                self.proc.kill()
                self.proc.wait()
            self.proc = None


def load_known(prop):
    path = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(path):
        return {}
    with open(path) as f:
        data = json.load(f)
    return {k["key"]: k for k in data.get("known", []) if k["property"] == prop}


def run_shard(prop, shard, nshards, seed, tier, scratch, out_path):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    from rc.common import canon

    gen = importlib.import_module("rc.gens." + prop.lower())
    conf = gen.CONF
    n = conf["quick"] if tier == "quick" else conf.get("thorough", conf["quick"] * 12)
    n = int(os.environ.get("RC_EXAMPLES", n))
    budget = float(
        os.environ.get("RC_BUDGET", "330" if tier == "quick" else "3000")
    )
    shrink_budget = float(os.environ.get("RC_SHRINK", "45"))
    known = load_known(prop)
    worker = Worker(scratch, prop)
    t0 = time.time()
    st = dict(
        evaluations=0,
        nontrivial=set(),
        labels={},
        samples=[],
        known={},
        failing=None,
        first_fail=None,
        skipped=0,
        slowest=(0.0, None),
    )

    def judge(case):
        """returns the list of unlisted violations"""
        t1 = time.time()
        ans = worker.run(prop, case)
        t1 = time.time() - t1
        if t1 > st["slowest"][0]:
            st["slowest"] = (t1, case)
        fresh = []
        for v in ans["violations"]:
            if v["key"] in known:
                st["known"].setdefault(v["key"], {"count": 0, "msg": v["msg"], "case": case})
                st["known"][v["key"]]["count"] += 1
            else:
                fresh.append(v)
        return ans, fresh

    def one(case):
        if st["first_fail"] is None:
            if time.time() - t0 > budget:
                st["skipped"] += 1
                return
        elif time.time() - st["first_fail"] > shrink_budget:
            raise StopSearch()
        ans, fresh = judge(case)
        if st["first_fail"] is None:
            st["evaluations"] += 1
            for k, v in ans["labels"].items():
                st["labels"][k] = st["labels"].get(k, 0) + v
            if ans["nontrivial"]:
                c = canon(case)
                h = hash(c)
                if h not in st["nontrivial"]:
                    st["nontrivial"].add(h)
                    if len(st["samples"]) < 2 and len(c) < 3000:
                        st["samples"].append(case)
        if fresh:
            size = len(canon(case))
            if st["failing"] is None or size <= st["failing"]["size"]:
                st["failing"] = dict(case=case, violations=fresh, size=size)
            if st["first_fail"] is None:
                st["first_fail"] = time.time()
            if ans.get("no_shrink"):
                raise StopSearch()
            raise AssertionError(fresh[0]["key"])

    error = None
    try:
        worker.start()
        fixed = getattr(gen, "FIXED", [])
        for i, case in enumerate(fixed):
            if i % nshards == shard:
                one(case)

        @hypothesis.seed(seed * 1009 + shard)
        @settings(
            max_examples=max(1, n),
            database=None,
            deadline=None,
            phases=(Phase.generate, Phase.shrink),
            suppress_health_check=list(HealthCheck),
            report_multiple_bugs=False,
            print_blob=False,
        )
        @given(gen.case())
        def search(case):
            one(case)

        if n > 0:
            search()
    except (AssertionError, StopSearch):
        if st["failing"] is None:
            error = "search stopped without a recorded failure"
    except hypothesis.errors.Flaky:
        if st["failing"] is None:
            raise
    except HarnessError as e:
        error = str(e)
    except BaseException:
        import traceback

        if st["failing"] is None:
            error = traceback.format_exc()
    finally:
        worker.stop()
    res = dict(
        shard=shard,
        evaluations=st["evaluations"],
        nontrivial=sorted(st["nontrivial"]),
        labels=st["labels"],
        samples=st["samples"],
        known=st["known"],
        failing=st["failing"],
        skipped=st["skipped"],
        slowest=st["slowest"],
        error=error,
        wall=time.time() - t0,
    )
    tmp = out_path + ".tmp"
    with open(tmp, "w") as f:
        json.dump(res, f)
    os.replace(tmp, out_path)


def replay(path):
    with open(path) as f:
        rep = json.load(f)
    import shutil
    import tempfile

    scratch = tempfile.mkdtemp(prefix="rcreplay")
    w = Worker(scratch, rep["property"])
    try:
        ans = w.run(rep["property"], rep["case"])
    finally:
        w.stop()
        shutil.rmtree(scratch, ignore_errors=True)
    return rep, ans
