"""C21: the tables that map a tuning value to a rotation, and the data generated for plots of them.

The functions write into the directory of their own module, so every case works on a scratch copy of the
package, in its own process.  Oracle: the distance of exp(x S) from the identity in closed form, from the
eigenvalues of the sign matrix S, which is built here.
"""
import json
import os
import shutil
import subprocess
import sys
import numpy as np
import common

STEP = 100.0 / 9999
PLOTS = {}   # (order, name of the file of plot data) -> kind


class Ref:
    """exp(x S) - 1 and its norms for the sign matrix of this order"""
    def __init__(self, order):
        i = np.arange(order)
        self.S = np.sign(i[None] - i[:, None]).astype(float)
        lam, self.V = np.linalg.eigh(1j * self.S)
        self.lam, self.order = lam, order

    def d(self, x):
        x = np.asarray(x, dtype=float)
        return np.sqrt((4 * np.sin(x[..., None] * self.lam / 2) ** 2).sum(axis=-1))

    def diff(self, x):
        return ((self.V * np.exp(-1j * x * self.lam)) @ self.V.conj().T).real - np.eye(self.order)


PROG = r'''
import json, os, sys, hashlib
sys.path.insert(0, sys.argv[1])
what, order, seed = sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
import numpy as np
np.random.seed(seed)
sys.stdout = open(os.devnull, "w")
from pibronic.vibronic.orthonormal import sequences as s
from pibronic.vibronic.orthonormal import create as c
assert os.path.realpath(s.__file__).startswith(os.path.realpath(sys.argv[1]))
D = os.path.dirname(os.path.realpath(s.__file__))


def state():
    return {f: hashlib.md5(open(os.path.join(D, f), "rb").read()).hexdigest()
            for f in sorted(os.listdir(D)) if os.path.isfile(os.path.join(D, f))}


def attempt(f):
    try:
        f()
        return "no error"
    except Exception as e:
        return type(e).__name__


out = {"dir": D, "before": state()}
if what == "full":
    s.generate_full_monotonic_sequence(order)
    out["loaded"] = len(s.load_sequence(order))
    out["mats"] = [[t, c.create_orthonormal_matrix_lambda_close_to_identity(order, t).tolist()] for t in (0.0, 0.1, 0.4, 0.7, 0.95, 1.0)]
elif what == "first":
    s.generate_monotonic_sequence_to_first_turn_around(order)
elif what in ("norms", "turning", "plotfull"):
    mats = lambda: [c.create_orthonormal_matrix_lambda_close_to_identity(order, t).tolist() for t in (0.0, 0.3, 0.8, 1.0)]
    if os.path.isfile(s.path_to_sequence_file(order)):
        out["matsbefore"] = mats()
    {"norms": s.generate_sequences_for_plotting, "turning": s.generate_turning_point_sequence_for_plotting,
     "plotfull": s.generate_full_monotonic_sequence_for_plotting}[what](order)
    if os.path.isfile(s.path_to_sequence_file(order)):
        out["matsafter"] = mats()
elif what == "table":
    r = np.random.RandomState(seed)
    n = int(r.randint(50, 400))
    seq = [(float(y), float(x)) for y, x in zip(np.cumsum(r.exponential(size=n)) * 10.0 ** r.randint(-12, 12), np.cumsum(r.exponential(size=n)))]
    short = seq[:int(r.randint(0, 50))]
    out["missing"] = attempt(lambda: s.load_sequence(order))
    out["short"] = attempt(lambda: s.save_sequence(order, short))
    out["aftershort"] = state()
    s.save_sequence(order, seq)
    got = s.load_sequence(order)
    out["same"] = len(got) == len(seq) and all(len(g) == 2 and (g[0], g[1]) == q for g, q in zip(got, seq))
    out["again"] = attempt(lambda: s.save_sequence(order, short))
    got = s.load_sequence(order)
    out["kept"] = len(got) == len(seq) and all((g[0], g[1]) == q for g, q in zip(got, seq))
    out["orders"] = [attempt(lambda: s.build_SKSM_and_identity(o)) for o in (0, -1, -3, 2.0, "2", None)]
    S, I = s.build_SKSM_and_identity(order)
    out["S"], out["I"] = np.asarray(S).tolist(), np.asarray(I).tolist()
out["after"] = state()
json.dump(out, open(sys.argv[5], "w"))
'''


def table(path):
    rows = []
    for line in open(path):
        rows.append([None if c.strip() == "None" else float(c) for c in line.split(",")])
    return rows


def run(ctx):
    orders = sorted({2, 3, 4, 11, int(ctx.rng("o").randint(5, 11)), int(ctx.rng("o2").randint(12, 17))}) \
        if ctx.scale(0, 1) == 0 else list(range(2, 26))
    jobs = []
    for o in orders:
        jobs.append(("full", o))
        if o in (2, 3, 11) or o % 2 == 0 or ctx.scale(0, 1):
            jobs.append(("first", o))
        if o in (3, 4, 11) or ctx.scale(0, 1):
            jobs += [("norms", o), ("turning", o), ("plotfull", o)]
    jobs += [("table", int(o)) for o in ctx.rng("t").permutation(np.arange(2, 60))[:ctx.scale(6, 40)] if o > 10]
    base = ctx.scratch()
    d = os.path.join(common.REPO, "pibronic")
    pending = list(enumerate(jobs))
    running = []
    while pending or running:
        while pending and len(running) < 8:
            k, (what, o) = pending.pop(0)
            root = os.path.join(base, "w%d" % k)
            os.makedirs(root)
            shutil.copytree(d, os.path.join(root, "pibronic"), ignore=shutil.ignore_patterns("__pycache__"))
            log = open(os.path.join(root, "err"), "wb")
            p = subprocess.Popen([sys.executable, "-W", "ignore", "-c", PROG, root, what, str(o), str(ctx.rng("s", k).randint(1 << 30)),
                                  os.path.join(root, "out.json")], stdout=subprocess.DEVNULL, stderr=log, cwd=root)
            running.append((p, what, o, root))
        p, what, o, root = running.pop(0)
        p.wait()
        judge(ctx, p.returncode, what, o, root)
        shutil.rmtree(root, ignore_errors=True)
    ctx.drop(base)


def judge(ctx, rc, what, o, root):
    tag = "%s order %d" % (what, o)
    ctx.case((what, o), True, tag)
    if not ctx.check(rc == 0 and os.path.isfile(os.path.join(root, "out.json")), "raises", tag + ": " +
                     open(os.path.join(root, "err"), errors="replace").read()[-500:], (what, o)):
        return
    out = json.load(open(os.path.join(root, "out.json")))
    D, ref = out["dir"], Ref(o)
    before, after = out["before"], out["after"]
    changed = {f for f in after if before.get(f) != after[f]}
    gone = set(before) - set(after)
    ctx.check(not gone, "files", "%s: files have gone: %s" % (tag, sorted(gone)), (what, o))
    seqf, pairf = "sequence_%d.data" % o, "sequence_%d.pairs" % o
    stored = os.path.join(common.REPO, "pibronic/vibronic/orthonormal")
    grid = np.linspace(0, 100, 10000)

    def pairs():
        p = np.atleast_2d(np.loadtxt(os.path.join(D, pairf), delimiter=","))
        ok = ctx.check(p.shape[1] == 2 and p[0, 0] == 0.0 and (p[:, 0] <= p[:, 1]).all() and (p[1:, 0] > p[:-1, 1]).all(), "intervals",
                       "%s: the intervals are not increasing: %s" % (tag, p[:4].tolist()), (what, o))
        if not ok:
            return None
        y = ref.d(grid)
        inside = np.zeros(len(grid), dtype=bool)
        for lo, hi in p:
            inside |= (grid >= lo - 1e-9) & (grid <= hi + 1e-9)
        # a grid point belongs to an interval exactly when nothing before it is further away, up to rounding
        best, want, sure = -1.0, np.zeros(len(grid), dtype=bool), np.zeros(len(grid), dtype=bool)
        for k, v in enumerate(y):
            want[k], sure[k] = v >= best, abs(v - best) > 1e-9
            best = max(best, v)
        wrong = np.nonzero((want != inside) & sure)[0]
        ctx.check(len(wrong) == 0, "intervals", "%s: at x=%s the intervals say %s" % (tag, grid[wrong[:1]], inside[wrong[:1]]), (what, o))
        ctx.event("interval_points", len(grid))
        return p

    if what in ("full", "first"):
        ctx.check(changed <= {seqf, pairf} and seqf in after, "files", "%s: changed files %s" % (tag, sorted(changed)), (what, o))
        a = np.loadtxt(os.path.join(D, seqf), delimiter=",")
        ctx.event("sequence_rows", len(a))
        if not ctx.check(a.ndim == 2 and a.shape[1] == 2 and len(a) >= 50, "shape", "%s: %s" % (tag, a.shape), (what, o)):
            return
        y, x = a[:, 0], a[:, 1]
        ctx.check(x[0] == 0 and abs(y[0]) < 1e-9, "start", "%s: the sequence starts at %s" % (tag, a[0]), (what, o))
        ctx.check((np.diff(x) > 0).all() and (np.diff(y) > 0).all(), "monotonic", "%s: not increasing" % tag, (what, o))
        err = np.abs(y - ref.d(x)).max()
        ctx.check(err < 1e-9, "distance", "%s: a distance is wrong by %.2g" % (tag, err), (what, o))
        gaps = np.diff(x)
        ctx.check(gaps.max() < 1.001 * gaps.min(), "spacing", "%s: spacing %.3g to %.3g" % (tag, gaps.min(), gaps.max()), (what, o))
        if what == "full":
            quarter = np.sqrt(o) / 2
            ctx.check(y[-1] <= quarter * (1 + 1e-12), "range", "%s: distance %.6f exceeds a quarter of the maximum %.6f" % (tag, y[-1], quarter), (what, o))
            ctx.check(ref.d(x[-1] + STEP * 1.0001) > quarter, "range", "%s: ends at %.6f, short of %.6f" % (tag, y[-1], quarter), (what, o))
            p = pairs()
            if p is not None:
                ctx.check(any(lo <= x[0] and x[-1] <= hi for lo, hi in p), "intervals", "%s: the sequence leaves its interval" % tag, (what, o))
            f = os.path.join(stored, seqf)
            if os.path.isfile(f):
                b = np.loadtxt(f, delimiter=",")
                ctx.check(b.shape == a.shape and np.abs(a - b).max() < 1e-9, "stored", "%s: differs from the stored sequence" % tag, (what, o))
                b = np.atleast_2d(np.loadtxt(os.path.join(stored, pairf), delimiter=","))
                ctx.event("stored_compared")
            last = -1.0
            for t, M in out["mats"]:
                M = np.array(M)
                dist = np.linalg.norm(M - np.eye(o))
                ctx.check(np.allclose(M @ M.T, np.eye(o), atol=1e-12) and dist >= last - 1e-12 and abs(dist - t * y[-1]) < 1.1 * np.diff(y).max() + 1e-9,
                          "matrices", "%s: tuning %s gives distance %.6f of %.6f" % (tag, t, dist, y[-1]), (what, o))
                last = dist
                ctx.event("matrices")
        else:
            yg = ref.d(grid)
            k = np.nonzero(np.diff(yg) < -1e-12)[0][0]
            ctx.check(abs(x[-1] - grid[k] / 2) < 1e-9, "range", "%s: ends at x=%.6f instead of %.6f" % (tag, x[-1], grid[k] / 2), (what, o))
    elif what == "table":
        ctx.check(out["missing"] != "no error", "missing", tag + ": a missing sequence was loaded")
        ctx.check(out["short"] != "no error" and out["aftershort"] == before, "too-short", "%s: a sequence below the minimum length: %s, files changed: %s" % (tag, out["short"], out["aftershort"] != before))
        ctx.check(out["again"] != "no error" and out["kept"], "too-short", "%s: a sequence below the minimum length replaced a good one" % tag)
        ctx.check(out["same"], "round-trip", tag + ": loading gives other values than were saved")
        ctx.check("no error" not in out["orders"], "orders", "%s: unusable orders: %s" % (tag, out["orders"]))
        ctx.check(np.array_equal(out["S"], ref.S) and np.array_equal(out["I"], np.eye(o)), "generator", tag + ": the generator is not the sign matrix")
        ctx.event("tables")
    else:
        new = sorted(f for f in changed if f not in before and f not in (seqf, pairf))
        ctx.check({f for f in changed if f in before} <= {pairf}, "clobbered", "%s: data for a plot replaced %s" % (tag, sorted(f for f in changed if f in before)), (what, o))
        ctx.check(out.get("matsbefore") is None or out["matsbefore"] == out.get("matsafter"), "clobbered", tag + ": the matrices have changed", (what, o))
        ctx.check(seqf in before or seqf not in after, "clobbered", tag + ": data for a plot is stored as a sequence", (what, o))
        if not ctx.check(len(new) == 1, "files", "%s: new files %s" % (tag, new), (what, o)):
            return
        other = PLOTS.setdefault((o, new[0]), what)
        ctx.check(other == what, "clobbered", "%s: its data replace those of %s in %s" % (tag, other, new[0]), (what, o))
        rows = table(os.path.join(D, new[0]))
        ctx.event("plot_rows", len(rows))
        x = np.array([r[-1] for r in rows])
        if what == "norms":
            ok = ctx.check(len(rows) == 10000 and np.allclose(x, grid, atol=1e-9), "plot-x", tag + ": abscissa", (what, o))
            bad = 0
            for r in rows[::7]:
                M = ref.diff(r[3])
                w = (np.abs(M).sum(axis=0).max(), np.sqrt((M * M).sum()), np.abs(M).sum(axis=1).max())
                bad += not np.allclose(r[:3], w, atol=1e-8)
            ctx.check(ok and bad == 0, "plot-norms", "%s: %d rows with wrong norms" % (tag, bad), (what, o))
        else:
            y = np.array([r[0] for r in rows])
            err = np.abs(y - ref.d(x)).max()
            ctx.check(len(rows) == 10000 and (np.diff(x) > 0).all() and x[0] == 0 and err < 1e-9, "plot-x", "%s: distances wrong by %.2g" % (tag, err), (what, o))
            marked = [k for k, r in enumerate(rows) if r[1] is not None]
            ctx.check(all(abs(rows[k][1] - rows[k][0]) < 1e-9 for k in marked), "plot-marks", "%s: a marked value is not that of its place" % tag, (what, o))
            yy = ref.d(x)
            best, rec, sure = -1.0, np.zeros(len(x), dtype=bool), np.zeros(len(x), dtype=bool)
            for k, v in enumerate(yy):
                rec[k], sure[k] = v >= best, abs(v - best) > 1e-9
                best = max(best, v)
            m = np.zeros(len(x), dtype=bool)
            m[marked] = True
            if what == "plotfull":
                # inside an interval of the other grid: never where an earlier point is clearly further away
                p = pairs()
                if p is not None:
                    want = np.zeros(len(x), dtype=bool)
                    for lo, hi in p:
                        want |= (x >= lo) & (x <= hi)
                    edge = np.zeros(len(x), dtype=bool)
                    for e in p.ravel()[1:]:
                        edge |= np.abs(x - e) < 1e-9
                    ctx.check(((want == m) | edge).all(), "plot-marks", "%s: %d points are marked, %d lie in the intervals" % (tag, m.sum(), want.sum()), (what, o))
            else:
                # first and last points of the runs of record distances (the start does not count)
                nxt = np.append(rec[1:], False)
                prv = np.append(True, rec[:-1])
                want = rec & (~nxt | ~prv)
                unsure = ~sure | np.append(~sure[1:], True) | np.append(True, ~sure[:-1])
                wrong = np.nonzero((want != m) & ~unsure)[0]
                ctx.check(len(wrong) == 0, "plot-marks", "%s: turning points are marked at the wrong places, first x=%s" % (tag, x[wrong[:3]]), (what, o))
        ctx.event("plots_checked")


common.main("C21", run, level="exploration",
            rule="a case is one generated table (kind, order) whose rows were all compared with the closed form",
            required=("sequence_rows", "interval_points", "matrices", "tables", "plots_checked", "stored_compared"))
