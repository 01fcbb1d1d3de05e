"""Shared machinery of all checks: environment, evidence, violations, known findings.

A check module defines   run(ctx)   and calls   common.main("Cxx", run, level=...).
Inside run the monitor reports through the context:

  ctx.case(key, nontrivial=True, sample=None)   one evaluated case (key identifies distinct ones)
  ctx.event(name, n=1)                          monitor events actually observed
  ctx.violation(mechanism, message, data)       the property is broken: recorded, replay written
  ctx.tick()                                    raises StopRun once enough violations were found

Verdict: exit 0 when nothing was violated and every required event was observed; exit 1 with a
VIOLATION line otherwise.  A required event that was never observed while the workload ran is a
violation as well when the workload itself raised (an API that stopped working is a broken
guarantee), reported with the traceback.
"""
import contextlib
import hashlib
import io
import json
import os
import random
import shutil
import sys
import tempfile
import time
import traceback

# the code under test sleeps through this function, however it imports it: a check sets SLEEP[0]
REAL_SLEEP = time.sleep
SLEEP = [REAL_SLEEP]


def _sleep(seconds):
    return SLEEP[0](seconds)


time.sleep = _sleep

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
KNOWN = os.path.join(VERIF, "known_findings.txt")

for k, v in (("OMP_NUM_THREADS", "1"), ("OPENBLAS_NUM_THREADS", "1"), ("MPLBACKEND", "Agg"),
             ("PYTHONDONTWRITEBYTECODE", "1")):
    os.environ.setdefault(k, v)
sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)


def load(*names):
    """Import modules of the code under test from /repo's sources, never from stale bytecode."""
    import importlib
    import numpy, scipy.linalg, matplotlib.pyplot  # noqa: cached bytecode is fine for these
    sys.pycache_prefix = os.path.join(tempfile.gettempdir(), "verif_no_such_cache")
    with Quiet():
        mods = [importlib.import_module(n) for n in names]
    import pibronic
    assert os.path.realpath(pibronic.__file__).startswith(os.path.realpath(REPO) + os.sep)
    return mods[0] if len(mods) == 1 else mods


class StopRun(Exception):
    pass


class Quiet:
    """Silence stdout/stderr of the code under test (it prints a lot), file-descriptor level off."""
    def __enter__(self):
        self.o, self.e = sys.stdout, sys.stderr
        sys.stdout = io.StringIO()
        sys.stderr = io.StringIO()
        return self

    def __exit__(self, *a):
        self.text = sys.stdout.getvalue()
        sys.stdout, sys.stderr = self.o, self.e
        return False


def die_with_parent():
    """in a forked process: end with the process of the check, however that ends"""
    import ctypes
    import signal
    ctypes.CDLL(None).prctl(1, signal.SIGKILL, 0, 0, 0)


def known_findings(prop):
    """mechanism keys listed for this property in known_findings.txt"""
    out = {}
    if os.path.isfile(KNOWN):
        for line in open(KNOWN, encoding="utf-8"):
            line = line.strip()
            if not line.startswith("finding:"):
                continue
            parts = dict(p.split("=", 1) for p in line[len("finding:"):].split() if "=" in p)
            if parts.get("property") == prop:
                what = line.split("what=", 1)[1] if "what=" in line else ""
                out[parts["mechanism"]] = what
    return out


class Ctx:
    MAX_VIOLATIONS = 25

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.cases = 0
        self.distinct = set()
        self.samples = []
        self.events = {}
        self.violations = []
        self.suppressed = {}
        self.known = known_findings(prop)
        self.notes = {}
        self.replay_dir = os.path.join(VERIF, "replay")
        self.scratch_root = tempfile.mkdtemp(prefix="verif_%s_" % prop)
        self._n = 0

    # ---- budget -----------------------------------------------------------------------------
    def scale(self, quick, thorough):
        return thorough if self.tier == "thorough" else quick

    def rng(self, *salt):
        import numpy as np
        h = hashlib.sha256(repr((self.seed, self.prop) + salt).encode()).digest()
        return np.random.RandomState(int.from_bytes(h[:4], "little"))

    def seed_globals(self, *salt):
        """seed numpy's and random's global generators, which the code under test uses"""
        import numpy as np
        h = hashlib.sha256(repr(("g", self.seed, self.prop) + salt).encode()).digest()
        np.random.seed(int.from_bytes(h[:4], "little"))
        random.seed(int.from_bytes(h[4:12], "little"))

    # ---- scratch ----------------------------------------------------------------------------
    def scratch(self, name=None):
        self._n += 1
        d = os.path.join(self.scratch_root, name or ("s%05d" % self._n))
        os.makedirs(d)
        return d

    def drop(self, d):
        if os.path.realpath(d).startswith(os.path.realpath(self.scratch_root) + os.sep):
            shutil.rmtree(d, ignore_errors=True)

    # ---- observations -----------------------------------------------------------------------
    def case(self, key, nontrivial=True, sample=None):
        self.cases += 1
        if nontrivial:
            k = hashlib.md5(repr(key).encode()).hexdigest()
            if k not in self.distinct:
                self.distinct.add(k)
                if len(self.samples) < 6:
                    self.samples.append(sample if sample is not None else repr(key)[:300])

    def event(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + n

    def violation(self, mechanism, message, data=None):
        if mechanism in self.known:
            self.suppressed[mechanism] = self.suppressed.get(mechanism, 0) + 1
            return
        self.violations.append((mechanism, message, data))
        if len(self.violations) >= self.MAX_VIOLATIONS:
            raise StopRun()

    def check(self, ok, mechanism, message, data=None):
        self.event("assertions")
        if not ok:
            self.violation(mechanism, message, data)
        return bool(ok)

    def expect_raise(self, fn, mechanism, message, data=None, exc=Exception):
        """fn must raise; returns the exception or None"""
        self.event("assertions")
        try:
            with Quiet():
                r = fn()
        except exc as e:
            return e
        self.violation(mechanism, message + " (returned %s)" % (repr(r)[:120],), data)
        return None

    @contextlib.contextmanager
    def guard(self, mechanism, what, data=None):
        """Any exception of the code under test in a situation where it must work is a violation."""
        try:
            yield
        except (StopRun, KeyboardInterrupt, MemoryError):
            raise
        except BaseException as e:  # noqa: the code under test may raise anything
            tb = traceback.format_exc()
            self.event("exceptions")
            self.violation(mechanism, "%s raised %s: %s" % (what, type(e).__name__, str(e)[:300]),
                           dict(data=data, traceback=tb[-3000:]))


def jsonable(x, depth=0):
    try:
        import numpy as np
    except Exception:
        np = None
    if depth > 6:
        return repr(x)[:200]
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [jsonable(v, depth + 1) for v in list(x)[:400]]
    if np is not None and isinstance(x, np.ndarray):
        return dict(shape=list(x.shape), values=x.ravel()[:400].tolist())
    if np is not None and isinstance(x, np.generic):
        return x.item() if not isinstance(x, np.bytes_) else repr(x)
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)[:1000]


def main(prop, run, level="exploration", rule="", required=(), assumptions=()):
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    if "--quick" in sys.argv:
        tier = "quick"
    os.environ["VERIF_TIER"] = tier
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    ctx = Ctx(prop, tier, seed)
    if os.environ.get("VERIF_LIMIT"):   # where the workload is shortly before run.sh gives up on it
        import faulthandler
        os.makedirs(ctx.replay_dir, exist_ok=True)
        stuck = open(os.path.join(ctx.replay_dir, "%s_never_ends.txt" % prop), "w")
        faulthandler.dump_traceback_later(float(os.environ["VERIF_LIMIT"]) - 3, file=stuck)
    os.umask(0o022)
    cwd = os.getcwd()
    try:
        os.chdir(ctx.scratch_root)
        try:
            run(ctx)
        except StopRun:
            pass
        except (KeyboardInterrupt, MemoryError):
            raise
        except BaseException as e:
            # the workload could not be driven: the API that the property is about does not work
            ctx.violations.append(("workload-error",
                                   "the workload could not be completed: %s: %s" % (type(e).__name__, str(e)[:300]),
                                   dict(traceback=traceback.format_exc()[-4000:])))
        for name in required:
            if ctx.events.get(name, 0) == 0 and not ctx.violations:
                ctx.violations.append(("nothing-observed",
                                       "monitor observed no '%s' event although the workload ran" % name,
                                       dict(events=ctx.events)))
    finally:
        os.chdir(cwd)
        shutil.rmtree(ctx.scratch_root, ignore_errors=True)

    wall = time.time() - ctx.t0
    ev = dict(property=prop, tier=tier, seed=seed, level=level,
              coverage=dict(evaluations=ctx.cases, distinct_nontrivial=len(ctx.distinct),
                            rule=rule, samples=jsonable(ctx.samples),
                            monitor_events=dict(sorted(ctx.events.items())),
                            known_findings_observed=ctx.suppressed, **ctx.notes),
              assumptions=list(assumptions), wall_s=round(wall, 3), violations=len(ctx.violations))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=repr)

    print("%s tier=%s seed=%d cases=%d distinct=%d events=%s wall=%.1fs" % (
        prop, tier, seed, ctx.cases, len(ctx.distinct),
        json.dumps(dict(sorted(ctx.events.items()))), wall))
    for m, what in sorted(ctx.known.items()):
        if ctx.suppressed.get(m):
            print("KNOWN-FINDING: property=%s mechanism=%s %s" % (prop, m, what))
    if ctx.violations:
        os.makedirs(ctx.replay_dir, exist_ok=True)
        path = os.path.join(ctx.replay_dir, "%s_%s_%d.json" % (prop, tier, seed))
        with open(path, "w") as f:
            json.dump(dict(property=prop, tier=tier, seed=seed,
                           rerun="cd /verif && VERIF_SEED=%d VERIF_TIER=%s checks/run.sh %s" % (seed, tier, prop),
                           violations=[dict(mechanism=m, message=s, data=jsonable(d)) for m, s, d in ctx.violations]),
                      f, indent=1, default=repr)
        seen = set()
        for m, s, d in ctx.violations:
            if m not in seen:
                seen.add(m)
                print("  [%s] %s" % (m, s))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        sys.stdout.flush()
        os._exit(1)
    print("OK property=%s" % prop)
    sys.stdout.flush()
    os._exit(0)
