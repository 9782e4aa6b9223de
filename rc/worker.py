"""PyPy side: executes cases against the real code of /repo and decides them.

Protocol: one JSON request per line on stdin, one JSON answer per line on the original stdout.
Everything the code under test prints goes to /dev/null.
"""
import importlib
import json
import os
import signal
import sys
import traceback

REPO = os.environ.get("RC_REPO", "/repo")
CPU_LIMIT = int(os.environ.get("RC_CPU_LIMIT", "150"))


class CpuLimit(BaseException):
    pass


class Ctx:
    def __init__(self):
        self.labels = {}
        self.nontrivial = False
        self.violations = []

    def label(self, name, n=1):
        self.labels[name] = self.labels.get(name, 0) + n

    def report(self, key, msg):
        self.violations.append({"key": key, "msg": msg})


def main():
    out = os.fdopen(os.dup(1), "w")
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    if not os.environ.get("RC_DEBUG"):
        os.dup2(devnull, 2)
    sys.path.insert(0, REPO)
    sys.setrecursionlimit(1000)
    os.environ["MPLBACKEND"] = "Agg"

    from rc import rng

    rng.install()
    import warnings

    warnings.simplefilter("ignore")
    import ramp

    assert os.path.realpath(ramp.__file__).startswith(os.path.realpath(REPO) + os.sep), (
        ramp.__file__
    )
    from rc.model import Violation
    import numpy as np

    def on_cpu(signum, frame):
        raise CpuLimit()

    signal.signal(signal.SIGVTALRM, on_cpu)
    cache = {}
    scratch_cwd = os.getcwd()
    out.write(json.dumps({"ready": True}) + "\n")
    out.flush()
    parent = os.getpid()

    for line in sys.stdin:
        req = json.loads(line)
        prop, case = req["prop"], req["case"]
        ctx = Ctx()
        ans = {}
        try:
            if prop not in cache:
                cache[prop] = importlib.import_module("rc.oracles." + prop.lower()).check
            check = cache[prop]
        except Exception:
            ans["harness_error"] = traceback.format_exc()
            out.write(json.dumps(ans) + "\n")
            out.flush()
            continue
        r = case.get("rng") or {}
        rng.reset(r.get("seed", 0), r.get("p", 0.0))
        np.random.seed(r.get("seed", 0) % (2**32))
        warnings.simplefilter("ignore")
        signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT)
        try:
            check(case, ctx)
        except Violation as v:
            ctx.report(v.key, v.msg)
        except rng.Runaway as e:
            ctx.report("non-termination", str(e))
            ans["no_shrink"] = True
        except CpuLimit:
            ctx.report(
                "non-termination", "still running after %d s of CPU time" % CPU_LIMIT
            )
            ans["no_shrink"] = True
        except (MemoryError, KeyboardInterrupt):
            ans["harness_error"] = traceback.format_exc()
        except BaseException as e:
            if os.getpid() != parent:
                os._exit(1)
            tb = traceback.format_exc().strip().splitlines()
            ctx.report(
                "exception:" + type(e).__name__,
                "%s | %s" % (tb[-1], " <- ".join(t.strip() for t in tb[-6:-1])),
            )
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            os.chdir(scratch_cwd)
        ans["labels"] = ctx.labels
        ans["nontrivial"] = bool(ctx.nontrivial)
        ans["violations"] = ctx.violations
        out.write(json.dumps(ans) + "\n")
        out.flush()


if __name__ == "__main__":
    main()
