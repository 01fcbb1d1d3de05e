"""C22: whole studies, from the model to the reported thermodynamics.

Monitor: studies made of the package's own steps (import of an operator file or a model file or a rotated diagonal
model, sampling models, submissions to a stand-in scheduler, the recorded jobs run by the sampling script they name,
results moved as the job script moves them, analyses) are interleaved with edits of either model.  Every path that a
job draws is recorded.  The study's own log says which jobs ran for which contents of the two model files; at every
analysis each reported value is compared with an extended-precision evaluation that starts from nothing but the
recorded paths and the model that the user put in.  Long runs are compared with the exact discretised partition
function, energy and heat capacity (transfer matrix on a grid), within statistical errors estimated here.
"""
import contextlib
import glob
import hashlib
import json
import os
import runpy
import shutil
import sys
import numpy as np
import c13_submission as c13
import common
import histories
import models
import refpi
import refstats

EXAMPLES = os.path.join(common.REPO, "examples")


def op_text(rng, m):
    """an operator file of a model without off-diagonal energies; the values are those written in it"""
    A, N = m["A"], m["N"]
    r = lambda label, v: "%-25s=%15s    , ev " % (label, v)  # noqa
    m = dict(m, E=np.diag(np.round(np.diag(m["E"]), 6)), w=np.round(m["w"], 6), lin=np.round(m["lin"], 6), quad=np.round(m["quad"], 6))
    L = ["OP_DEFINE-SECTION", "title", "IP", "end-title", "end-op_define-section", "", "", "PARAMETER-SECTION", "", "", "#        Frequencies ", "# ------------------------ ", ""]
    L += [r("w%02d" % (j + 1), "%.6f" % m["w"][j]) for j in range(N)]
    L += ["", "#        Zeropoint energy     %.6f" % (m["w"].sum() / 2), "", "#   Electronic Hamitonian ", "#   Vertical energies - Zeropoint ", "# ------------------------------- ", ""]
    L += [r("EH_s%02d_s%02d" % (a + 1, a + 1), "%.6f" % m["E"][a, a]) for a in range(A)]
    L += ["", "#     Electronic transition moments ", "# ----------------------------------", "", "#     Magnetic transition moments ", "# ----------------------------------", ""]
    pairs = [(a, a) for a in range(A)] + [(a, b) for a in range(A) for b in range(a + 1, A)]
    L += ["#  Linear Coupling Constants ", "# -------------------------- ", ""]
    L += [r("C1_s%02d_s%02d_v%02d" % (a + 1, b + 1, j + 1), "%.6f" % m["lin"][j, a, b]) for a, b in pairs for j in range(N) if m["lin"][j, a, b]]
    L += ["", "#  Diagonal Quadratic Coupling Constants ", "# -------------------------- ", ""]
    L += [r("C2_s%02ds%02d_v%02dv%02d" % (a + 1, b + 1, j + 1, j + 1), "%.6f" % m["quad"][j, j, a, b]) for a, b in pairs for j in range(N) if m["quad"][j, j, a, b]]
    L += ["", "# Off_diagonal Quadratic Coupling Constants ", "# ----------------------------------------- ", ""]
    L += [r("C2_s%02ds%02d_v%02dv%02d" % (a + 1, b + 1, j + 1, i + 1), "%.6f" % m["quad"][j, i, a, b]) for a, b in pairs for j in range(N) for i in range(j) if m["quad"][j, i, a, b]]
    for t in ("Cubic Coupling", "Quartic Coupling", "Bi-Cubic", "Bi-Quartic"):
        L += ["", "#  %s Constants " % t, "# -------------------------- ", ""]
    L += ["", "end-parameter-section", "", "HAMILTONIAN-SECTION ", "end-hamiltonian-section", "", "end-operator", ""]
    return "\n".join(L) + "\n", m


def read(path, diagonal):
    """a model file, read without the package"""
    d = json.load(open(path))
    K = models.KEYS
    A, N = d[K["A"]], d[K["N"]]
    tail = (A,) if diagonal else (A, A)
    return dict(A=A, N=N, E=np.array(d[K["E"]], dtype=float), w=np.array(d[K["w"]], dtype=float),
                lin=np.array(d[K["lin"]], dtype=float) if K["lin"] in d else np.zeros((N,) + tail),
                quad=np.array(d[K["quad"]], dtype=float) if K["quad"] in d else np.zeros((N, N) + tail))


def same(a, b):
    return all(np.shape(a[k]) == np.shape(b[k]) and np.allclose(a[k], b[k], rtol=1e-12, atol=1e-13) for k in ("A", "N", "E", "w", "lin", "quad"))


def rho_analytic(m, T):
    """Z, E, Cv of displaced oscillators, and Z at both shifted inverse temperatures"""
    e = m["E"] - 0.5 * (m["lin"] ** 2 / m["w"][:, None]).sum(axis=0)

    def lz(b):
        x = -b * e
        mx = x.max()
        return mx + np.log(np.exp(x - mx).sum()) - np.log(2 * np.sinh(b * m["w"] / 2)).sum()
    b, db = refpi.beta_of(T), refpi.DBETA
    p = np.exp(-b * (e - e.min()))
    p /= p.sum()
    h = m["w"] / 2
    E = (p * e).sum() + (h / np.tanh(b * h)).sum()
    var = (p * e ** 2).sum() - (p * e).sum() ** 2 + (h ** 2 / np.sinh(b * h) ** 2).sum()
    return dict(Z=float(np.exp(lz(b))), E=float(E), Cv=float(var / (refpi.KB * T ** 2)), Zp=float(np.exp(lz(b + db))), Zm=float(np.exp(lz(b - db))))


def exact_log_Z(m, P, taus):
    """log of the discretised partition function of a model with one or two modes, by products of transfer matrices"""
    A, N = m["A"], m["N"]
    axes = []
    lind = np.stack([np.diag(m["lin"][i]) for i in range(N)])
    tau = taus[0]
    for i in range(N):
        c = -lind[i] / m["w"][i]
        s = np.sqrt(0.5 / np.tanh(0.5 * tau * P * m["w"][i]))
        h = 0.75 * np.sqrt(np.tanh(tau * m["w"][i]))
        h = min(h, 0.5 * s)
        reach = 6.0 * s
        n = int(np.ceil((c.max() - c.min() + 2 * reach) / h))
        axes.append(np.linspace(c.min() - reach, c.max() + reach, n))
    grid = np.stack(np.meshgrid(*axes, indexing="ij")).reshape(N, -1)          # (N,n)
    cell = np.prod([a[1] - a[0] for a in axes])
    n = grid.shape[1]
    if n * A > 4200:
        return None
    V = refpi.coupling(grid[None], m)[0] if n else None
    ev, U = np.linalg.eigh(V)
    out = []
    for tau in taus:
        M = np.einsum("pab,pb,pcb->pac", U, np.exp(-tau * ev), U)
        K = np.zeros((n, A, n, A))
        for b in range(A):
            lo = np.full((n, n), -tau * m["E"][b, b])
            for i in range(N):
                w = m["w"][i]
                th = tau * w
                q = grid[i] + lind[i, b] / w
                lo += tau * 0.5 * lind[i, b] ** 2 / w + 0.5 * np.log(1 / np.sinh(th)) - 0.5 * np.log(2 * np.pi) \
                    - 0.5 * ((q[:, None] ** 2 + q[None, :] ** 2) / np.tanh(th) - 2 * q[:, None] * q[None, :] / np.sinh(th))
            O = np.exp(lo) * cell
            for a in range(A):
                K[:, a, :, b] = M[:, a, b][:, None] * O
        K = K.reshape(n * A, n * A)
        R, log, first = None, 0.0, True
        base, e, lb = K, P, 0.0
        while e:                                           # binary power with running scale
            if e & 1:
                R, log = (base, lb) if first else (R @ base, log + lb)
                first = False
                s = np.abs(R).max()
                R, log = R / s, log + np.log(s)
            e >>= 1
            if e:
                base, lb = base @ base, 2 * lb
                s = np.abs(base).max()
                base, lb = base / s, lb + np.log(s)
        out.append(np.log(np.trace(R)) + log)
    return out


class Recorder:
    """records the paths of every block that any run object transforms"""

    def __init__(self, pimc):
        self.pimc, self.seen, self.saved = pimc, [], []

    def __enter__(self):
        seen = self.seen
        for cls in (self.pimc.BoxData, self.pimc.BoxDataPM):
            f = vars(cls).get("transform_sampled_coordinates")
            if f is None:
                continue

            def wrapper(obj, sample_view, *a, _f=f, **k):
                r = _f(obj, sample_view, *a, **k)
                q = np.asarray(obj.qTensor)
                q = q[:, 0] if q.ndim == 4 else q
                seen.append(q.reshape(-1, q.shape[-2], q.shape[-1]).copy())
                return r
            self.saved.append((cls, f))
            setattr(cls, "transform_sampled_coordinates", wrapper)
        return self

    def __exit__(self, *a):
        for cls, f in self.saved:
            setattr(cls, "transform_sampled_coordinates", f)
        return False


@contextlib.contextmanager
def argv(*a):
    old = sys.argv
    sys.argv = list(a)
    try:
        yield
    finally:
        sys.argv = old


def digest(path):
    return hashlib.sha256(open(path, "rb").read()).hexdigest()


def execute(pimc, jid, words, temper=None):
    """run a recorded job: the sampling script it names, in this process, then the moves of the job script"""
    o, pos = c13.options(words)
    env = c13.exported(o)
    scratch = env["SCRATCH_DIR"]
    os.makedirs(os.path.join(scratch, "execution_output"), exist_ok=True)
    os.makedirs(os.path.join(scratch, "results"), exist_ok=True)
    with Recorder(pimc) as rec, common.Quiet(), argv(env["SAMPLING_SCRIPT"], env["EXECUTION_PARAMETERS"], scratch, str(jid)):
        runpy.run_path(env["SAMPLING_SCRIPT"], run_name="__main__")
    moved = []
    for f in sorted(glob.glob(glob.escape(env["COPY_FROM"].strip('"')) + "*")):
        dst = os.path.join(env["COPY_TO"].strip('"'), os.path.basename(f))
        shutil.move(f, dst)
        moved.append(dst)
    p = json.loads(env["EXECUTION_PARAMETERS"].replace(";", ","))
    return rec.seen, moved, p


def terms(paths, vib, rho, T, P):
    """weight ratios of the recorded paths, from the models alone"""
    b, db = refpi.beta_of(T), refpi.DBETA
    lr = refpi.rho_log(paths, rho, b / P)
    out = [np.ones(len(paths))]
    for s in (0.0, db, -db):
        sg, lg, la = refpi.g_weights(paths, vib, (b + s) / P)
        out.append(sg * np.exp(lg - lr))
    return out


def magnitude(paths, m, T, P):
    """size of the exponents whose rounding limits the precision of the weights"""
    tau = refpi.beta_of(T) / P
    diagonal = m["lin"].ndim == 2
    big = 0.0
    for a in range(m["A"]):
        d = (m["lin"][:, a] if diagonal else m["lin"][:, a, a]) / m["w"]
        q = paths + d[None, :, None]
        big = max(big, float((q ** 2 / np.tanh(tau * m["w"])[None, :, None]).sum(axis=(1, 2)).max()))
    return big + P


def compare(ctx, tag, out, s, T, an, alpha, jack, size):
    """reported values against the definitions evaluated on the recorded paths"""
    X = len(s[0])
    full, tol = refstats.full(*s, T, refpi.DBETA, alpha), refstats.tolerances(*s, T, refpi.DBETA, alpha)
    slack = 30.0 + size                                    # the weights are rounded like their exponents; measured: less than a tenth of this
    loo = refstats.leave_one_out(*s, T, refpi.DBETA, alpha) if jack else None
    for k in ("Z", "E", "Cv"):
        want = float(full[k]) + (an[k] if k != "Z" else 0.0)
        t = slack * tol[k] + 1e-9 * abs(want)
        ctx.check(k in out and abs(out[k] - want) <= t, "value-" + k, "%s: %s is reported as %r, the drawn paths and the models give %r (tolerance %.2g)" % (tag, k, out.get(k), want, t))
        ctx.event("values_compared")
        ctx.event("values_resolved", int(abs(float(full[k])) > 50 * t))
    want = float(full["Z error"])
    ctx.check(abs(out.get("Z error", np.nan) - want) <= 1e-7 * want + slack * tol["Z"], "value-Zerr", "%s: the error of Z is %r instead of %r" % (tag, out.get("Z error"), want))
    if jack:
        loose = refstats.worst_tolerances(*s, T, refpi.DBETA, alpha)
        for k, n in (("jk_E", "E"), ("jk_Cv", "Cv")):
            want = float(loo[k]) + an[n]
            t = slack * X * loose[n] + 1e-9 * abs(want)
            ctx.check(k in out and abs(out[k] - want) <= t, "value-" + k, "%s: %s is reported as %r, the drawn paths and the models give %r (tolerance %.2g)" % (tag, k, out.get(k), want, t))
            want = float(loo[k + " error"])
            t = slack * np.sqrt(X) * loose[n] + 1e-7 * want
            ctx.check(abs(out.get(k + " error", np.nan) - want) <= t, "value-" + k + "-error", "%s: %s error is %r instead of %r (tolerance %.2g)" % (tag, k, out.get(k + " error"), want, t))
            ctx.event("values_compared", 2)
            ctx.event("errors_resolved", int(want > 50 * t))


def rotate(rng, FS, m, vIO):
    """makes the artificial model of the data set anew; m is the model that it began with"""
    A = m["A"]
    with common.Quiet():
        if rng.randint(3) == 0:
            vIO.create_fake_coupled_model(FS, tuning_parameter=float(rng.choice([0.02, 0.1, 0.3])))
        else:
            q, _ = np.linalg.qr(rng.standard_normal((A, A)))
            vIO.create_fake_coupled_model(FS, transformation_matrix=q)
    U = np.load(FS.path_ortho_mat)
    rot = lambda x: np.einsum("ij,...jk,lk->...il", U, x, U)  # noqa
    return dict(m, E=rot(m["E"]), lin=rot(m["lin"]), quad=rot(m["quad"]), start=m)


def prepare(ctx, rng, FS, kind, vIO):
    """puts a model into an empty data set; returns the model that the user means"""
    if kind == "shipped":
        f = sorted(glob.glob(os.path.join(EXAMPLES, "paper_1.5025058", "input_json", "*.json")))
        f = f[int(rng.randint(len(f)))]
        shutil.copy(f, FS.path_vib_model)
        return read(f, False), os.path.basename(f)[:-5]
    A, N = int(rng.choice([1, 2, 2, 3])), int(rng.choice([1, 1, 2, 3]))
    if kind == "artificial":
        A = max(A, 2)
    m = models.coupled(rng, A, N, lin_scale=float(rng.choice([0.3, 0.8])), quad_scale=float(rng.choice([0.0, 0.1])), e_off=float(rng.choice([0.02, 0.1])))
    if kind == "op":
        text, m = op_text(rng, m)
        src = os.path.join(FS.path_es, "vibron.op")
        with open(src, "w") as f:
            f.write(text)
        with common.Quiet():
            vIO.create_coupling_from_op_file(FS, src)
        return m, "operator file %dx%d" % (A, N)
    if kind == "artificial":
        off = 1 - np.eye(A)
        for k in ("E", "lin", "quad"):
            m[k] = m[k] * (1 - off)
        models.write_json(FS.path_vib_model, m)
        return rotate(rng, FS, m, vIO), "rotated model %dx%d" % (A, N)
    models.write_json(FS.path_vib_model, m)
    return m, "model file %dx%d" % (A, N)


def sampling_model(ctx, rng, FS, vib, kind, name, vIO):
    if kind == "basic":
        with common.Quiet():
            vIO.create_basic_diagonal_model(FS)
        want = models.diagonal_of(vib)
        ctx.check(same(read(FS.path_rho_model, True), want), "sampling-model", "the sampling model of %s is not the diagonal of the model" % name)
        return want
    if kind == "alternate":
        stem, k = name.rsplit("_", 1)
        f = os.path.join(EXAMPLES, "paper_1.5025058", "alternate_rhos", "%s_D%s_R1.json" % (stem, k))
        shutil.copy(f, FS.path_rho_model)
        return read(f, True)
    B = int(rng.choice([1, 2, 4]))
    m = models.diagonal(rng, B, vib["N"], w=vib["w"], lin_scale=0.5)
    models.write_json(FS.path_rho_model, m)
    if kind == "weighted":                                 # as for the iterative method: energies from the model itself
        with common.Quiet():
            vIO.recalculate_energy_values_of_diagonal_model(FS, FS.path_rho_model)
        low = np.empty(B)
        lin = np.stack([np.diag(vib["lin"][i]) for i in range(vib["N"])])
        for a in range(B):
            R = -m["lin"][:, a] / m["w"]
            H = vib["E"] + np.einsum("i,iab->ab", R, vib["lin"]) + np.eye(vib["A"]) * 0.5 * (vib["w"] * R ** 2).sum()
            low[a] = np.linalg.eigvalsh(H)[0]
        m = dict(m, E=low + 0.5 * (m["lin"] ** 2 / m["w"][:, None]).sum(axis=0))
        ctx.check(same(read(FS.path_rho_model, True), m), "weighted-model", "the recalculated energies of a sampling model of %s are %s instead of %s" % (name, read(FS.path_rho_model, True)["E"], m["E"]))
    return m


class Study:
    """one data set with some sampling models, and the log of what was done to it"""

    def __init__(self, ctx, rng, farm, top, vIO, fs, Sub, pimc, kind):
        self.ctx, self.rng, self.farm, self.vIO, self.fs, self.Sub, self.pimc = ctx, rng, farm, vIO, fs, Sub, pimc
        ctx._n += 1
        self.root = os.path.join(top, "study%d" % ctx._n)
        os.makedirs(self.root)
        self.D = int(rng.choice([0, 1, 7, 11, 42, 103]))
        FS = self.object(0)
        self.vib, self.name = prepare(ctx, rng, FS, kind, vIO)
        ctx.check(same(read(FS.path_vib_model, False), self.vib), "imported-model", "the model file of %s holds another model" % self.name)
        kinds = ["basic", "hand"] + (["alternate"] if kind == "shipped" else []) + (["weighted"] if not np.any(self.vib["quad"]) else [])
        self.rho = {}
        ids = [0] + sorted(int(x) for x in rng.choice([1, 2, 11, 12, 20], 1 + (rng.rand() < 0.5), replace=False))
        for n, R in enumerate(ids):
            FS = self.object(R)
            self.rho[R] = sampling_model(ctx, rng, FS, self.vib, kinds[n % len(kinds)] if n == 0 or rng.rand() < 0.3 else kinds[int(rng.randint(1, len(kinds)))], self.name, vIO)
        self.pending, self.log, self.hist, self.edited = [], [], [], False
        self.drawn = set()
        self.tag = "study of %s (data set %d)" % (self.name, self.D)

    def object(self, R):
        with common.Quiet():
            return self.fs.FileStructure(self.root, self.D, R)

    def submit(self, R, Ps, Ts, n, block):
        self.farm.reset()
        FS = self.object(R)
        with common.Quiet():
            A, N = self.vIO.extract_dimensions_of_model(FS=FS)
            self.Sub(FS, dict(number_of_samples=n, block_size=block, number_of_states=A, number_of_modes=N, bead_list=list(Ps), temperature_list=list(Ts), id_data=self.D, id_rho=R)).submit_jobs()
        jobs = self.farm.jobs()
        base = int(os.environ["FAKE_BASE"])
        os.environ["FAKE_BASE"] = str(base + len(jobs))
        todo = [(P, T) for T in Ts for P in Ps]
        parts = -(-n // (n - n % block))
        self.ctx.check(len(jobs) >= parts * len(todo), "jobs", "%s: %d jobs for %s" % (self.tag, len(jobs), todo))
        for k, (j, words) in enumerate(jobs):
            self.pending.append((R, base + k + 1, words, n, block))
        self.hist.append("submit R%d P%s T%s %dx%d" % (R, list(Ps), list(Ts), n, block))

    def run_job(self, k):
        R, jid, words, n, block = self.pending.pop(k)
        FS = self.object(R)
        key = (digest(FS.path_vib_model), digest(FS.path_rho_model))
        self.ctx.seed_globals("job", self.root, jid)
        seen, moved, p = execute(self.pimc, jid, words)
        P, T = int(p["number_of_beads"]), float(p["temperature"])
        self.hist.append("job %d R%d P%d T%g" % (jid, R, P, T))
        self.ctx.check(len(moved) == 1 and os.path.dirname(moved[0]) == os.path.normpath(FS.path_rho_results), "no-result", "%s: job %d left %s" % (self.tag, jid, moved), self.hist)
        paths = np.concatenate(seen) if seen else None
        if paths is None or paths.shape != (n - n % block, self.vib["N"], P):
            self.ctx.event("jobs_without_observed_paths")
            paths = None
        else:
            self.ctx.event("paths_observed", len(paths))
            rows = {x.tobytes() for x in paths}
            self.ctx.check(len(rows) == len(paths) and not rows & self.drawn, "same-paths",
                           "%s: job %d (R%d P%d T%g) draws %d paths that an earlier job or it itself has drawn already" % (self.tag, jid, R, P, T, len(paths) - len(rows - self.drawn)), self.hist)
            self.drawn |= rows
        self.log.append(dict(R=R, P=P, T=T, key=key, paths=paths, n=n - n % block, vib=self.vib, rho=self.rho[R]))
        self.ctx.event("jobs_executed")

    def edit(self, what, R=None):
        if what == "vib" and "start" in self.vib and not self.edited and self.rng.rand() < 0.6:
            FS, start = self.object(int(self.rng.choice(sorted(self.rho)))), self.vib["start"]
            if self.rng.rand() < 0.5:                      # from the model that it was made of, or once more
                shutil.copy(FS.path_orig_model, FS.path_vib_model)
                m = start
            else:
                m = {k: v for k, v in self.vib.items() if k != "start"}
            self.vib = rotate(self.rng, FS, m, self.vIO)
            self.ctx.check(same(read(self.object(0).path_vib_model, False), self.vib), "rotated-again", "%s: the artificial model made anew is another one" % self.tag, self.hist)
            self.ctx.event("rotated_again")
        elif what == "vib" and self.name.startswith("operator") and not self.edited and self.rng.rand() < 0.7:
            FS = self.object(int(self.rng.choice(sorted(self.rho))))
            m = dict(self.vib, E=self.vib["E"] + np.diag(self.rng.uniform(-0.02, 0.02, self.vib["A"])))
            text, self.vib = op_text(self.rng, m)          # the operator file has changed and is imported again
            src = os.path.join(FS.path_es, "vibron.op")
            with open(src, "w") as f:
                f.write(text)
            with common.Quiet():
                self.vIO.create_coupling_from_op_file(FS, src)
            self.ctx.check(same(read(FS.path_vib_model, False), self.vib), "imported-model", "%s: after another import the model file holds another model" % self.tag, self.hist)
            self.ctx.event("imported_again")
        elif what == "vib":
            m = dict(self.vib, E=self.vib["E"] + np.diag(np.round(self.rng.uniform(-0.02, 0.02, self.vib["A"]), 5)))
            models.write_json(self.object(0).path_vib_model, m)
            self.vib, self.edited = m, True
        elif self.rng.rand() < 0.3:                        # bring a sampling model up to date with the model
            self.rho[R] = sampling_model(self.ctx, self.rng, self.object(R), self.vib, "basic", self.name, self.vIO)
            self.ctx.event("diagonal_made_again")
        else:
            m = dict(self.rho[R], E=self.rho[R]["E"] + np.round(self.rng.uniform(-0.02, 0.02, self.rho[R]["A"]), 5))
            models.write_json(self.object(R).path_rho_model, m)
            self.rho[R] = m
        self.ctx.event("edits_" + what)
        self.hist.append("edit %s %s" % (what, R))

    def analyse(self, R, kind, method, walker=None, real_pool=False):
        FS = walker if walker is not None else self.object(R)
        with common.Quiet():
            if walker is not None and FS.id_rho != R:
                FS.change_rho(R)
            FS.generate_model_hashes()
        key = (digest(FS.path_vib_model), digest(FS.path_rho_model))
        now = {}
        for j in self.log:
            if j["R"] == R and j["key"] == key:
                now.setdefault((j["P"], j["T"]), []).append(j)
        if not now:
            return 0
        Ts = {j["T"] for j in self.log if j["R"] == R}
        table = {T: rho_analytic(self.rho[R], T) for T in Ts}
        histories.write_analytic(FS, FS.hash_vib, FS.hash_rho, table)
        files = lambda: glob.glob(glob.escape(FS.path_rho_results) + "*_thermo")  # noqa
        if self.rng.rand() < 0.5:
            for f in files():
                os.remove(f)
        before = {os.path.basename(f): open(f, "rb").read() for f in files()}
        self.hist.append("analyse R%d %s %s" % (R, kind, method))
        histories.analyse(FS, kind, method, real_pool=real_pool)
        outs = histories.thermo_files(FS)
        want = {"P%d_T%.2f_X%d_thermo" % (P, T, sum(j["n"] for j in js)): (P, T, js) for (P, T), js in now.items()}
        old = {f: b for f, b in before.items() if f not in want}    # reports on other models or fewer jobs
        self.ctx.check(set(outs) == set(want) | set(old), "outputs", "%s: outputs %s, expected %s and still %s" % (self.tag, sorted(outs), sorted(want), sorted(old)), self.hist)
        now_there = {os.path.basename(f): open(f, "rb").read() for f in files()}
        self.ctx.check(all(now_there.get(f) == b for f, b in old.items()), "old-report", "%s: an analysis changed the reports %s of other models" % (self.tag, sorted(old)), self.hist)
        self.ctx.event("old_reports_kept", len(old))
        self.ctx.event("reports_replaced", sum(f in before for f in want))
        for name, (P, T, js) in want.items():
            if name not in outs or any(j["paths"] is None for j in js):
                continue
            w = [terms(j["paths"], j["vib"], j["rho"], T, P) for j in js]
            s = [np.concatenate([x[k] for x in w]) for k in range(4)]
            an = table[T]
            alpha = (an["Z"] / an["Zp"], an["Z"] / an["Zm"]) if method == "alpha" else None
            known = len(self.ctx.violations)
            compare(self.ctx, "%s, sampling model %d, %s" % (self.tag, R, name), outs[name], s, T, an, alpha, kind == "jackknife", max(max(magnitude(j["paths"], j["vib"], T, P), magnitude(j["paths"], j["rho"], T, P)) for j in js))
            if len(self.ctx.violations) > known:
                self.ctx.violations[-1] = self.ctx.violations[-1][:2] + (dict(history=self.hist, vib=self.vib, rho=self.rho[R]),)
            self.ctx.event("outputs_compared")
            self.ctx.event("outputs_of_several_jobs", int(len(js) > 1))
            self.ctx.event("stale_jobs_left_out", sum(j["R"] == R and j["key"] != key and (j["P"], j["T"]) == (P, T) for j in self.log))
        return len(want)


def exact(ctx, i, farm, top, vIO, fs, Sub, pimc):
    """a long run against the exact discretised values"""
    rng = ctx.rng("exact", i)
    tag = "long run %d" % i
    kind = ["shipped", "op", "json", "artificial"][i % 4]
    for attempt in range(40):
        st = Study(ctx, ctx.rng("exact", i, attempt), farm, top, vIO, fs, Sub, pimc, kind)
        if st.vib["N"] <= 2 and st.vib["A"] <= 3:
            break
        shutil.rmtree(st.root)
    P = int(rng.choice([3, 4, 6]))
    T = float(rng.choice([300.0, 400.0, 600.0]))
    R = sorted(st.rho)[int(rng.randint(len(st.rho)))]
    n = ctx.scale(6000, 30000)
    st.submit(R, [P], [T], n, n // 4)
    st.run_job(0)
    j = st.log[0]
    if j["paths"] is None:
        return
    s = terms(j["paths"], st.vib, st.rho[R], T, P)
    r = s[1] / s[0]
    ess = abs(r.sum()) ** 2 / (r ** 2).sum()
    if not ess > 0.3 * n or r.std() == 0:                  # heavy tails: no reliable error bars
        ctx.event("long_runs_not_decisive")
        shutil.rmtree(st.root)
        return
    b, db = refpi.beta_of(T), refpi.DBETA
    ref = exact_log_Z(st.vib, P, [b / P, (b + db) / P, (b - db) / P])
    if ref is None:
        ctx.event("long_runs_not_decisive")
        shutil.rmtree(st.root)
        return
    an = rho_analytic(st.rho[R], T)
    FS = st.object(R)
    with common.Quiet():
        FS.generate_model_hashes()
    histories.write_analytic(FS, FS.hash_vib, FS.hash_rho, {T: an})
    histories.analyse(FS, "plain", "alpha")
    outs = list(histories.thermo_files(FS).values())
    if not ctx.check(len(outs) == 1, "outputs", "%s: %d outputs" % (tag, len(outs))):
        return
    o = outs[0]
    z, zp, zm = ref
    E = -(zp - zm) / (2 * db)
    # errors of the estimators by blocks of the recorded paths
    al = (an["Z"] / an["Zp"], an["Z"] / an["Zm"])
    nb = 40
    est = np.array([[float(x) for x in refstats.estimate(*(np.asarray(a[k::nb], dtype=refstats.L) for a in refstats.terms(*s, db)), T, db, al)] for k in range(nb)])
    sE, sC = est.std(axis=0, ddof=1) / np.sqrt(nb)
    Zr = np.exp(z - np.log(an["Z"]))
    var = ((zp - 2 * z + zm) / db ** 2)
    Cv = var / (refpi.KB * T ** 2)
    for what, got, want, err in (("partition function", o["Z"], Zr, r.std() / np.sqrt(n)), ("energy", o["E"], E, sE), ("heat capacity", o["Cv"], Cv, sC)):
        bias = {"partition function": 1e-6, "energy": 1e-5, "heat capacity": 1e-7}[what]
        zscore = (got - want) / (err + 1e-300)
        ctx.check(abs(got - want) <= 7 * err + bias + 1e-6 * abs(want), "exact-" + what.split()[0],
                  "%s of %s, sampling model %d, P=%d T=%g: the %s is reported as %r, exactly it is %r (%.1f standard errors)" % (tag, st.name, R, P, T, what, got, want, zscore))
        ctx.event("exact_values_compared")
    ctx.event("long_runs")
    ctx.case(("exact", st.name, R, P, T), sample="%s R%d P%d T%g: Z %.6g E %.6g+-%.1g Cv %.3g+-%.1g" % (st.name, R, P, T, o["Z"], o["E"], sE, o["Cv"], sC))
    shutil.rmtree(st.root)


def run(ctx):
    pimc, jb, fs, vIO = common.load("pibronic.pimc.pimc", "pibronic.server.job_boss", "pibronic.data.file_structure", "pibronic.vibronic.vibronic_model_io")
    constants = common.load("pibronic.constants")
    ctx.check(abs(constants.delta_beta - refpi.DBETA) < 1e-18, "beta-step", "the common beta step is %r" % constants.delta_beta)
    farm = c13.Farm(ctx)
    top = ctx.scratch("work_area")
    Sub = jb.PimcSubmissionClass

    kinds = ["op", "json", "artificial", "shipped"]
    for i in range(ctx.scale(48, 500)):
        rng = ctx.rng("study", i)
        farm.cluster(["nlogn", "feynman"][i % 2])
        ctx.seed_globals("study", i)
        with ctx.guard("raises", "study %d of a model from %s" % (i, kinds[i % 4])):
            st = Study(ctx, rng, farm, top, vIO, fs, Sub, pimc, kinds[i % 4])
            Ps = [int(x) for x in rng.choice([3, 4, 8, 13, 50] if i % 12 else [3, 100, 128], 2, replace=False)]
            Ts = [float(x) for x in rng.choice([300.0, 250.0, 77.35, 1000.0, 300.01], 1 + (rng.rand() < 0.5), replace=False)]
            walker = st.object(0) if rng.rand() < 0.4 else None
            try:
                ops = ["submit", "job", "job", "analyse", "submit", "job", "vib", "rho", "job", "job", "analyse", "job", "job", "analyse", "vib", "submit", "job", "job", "analyse"]
                drop = rng.rand(len(ops)) < 0.2
                drop[:4] = False
                for n, op in enumerate(ops):
                    if drop[n]:
                        continue
                    R = sorted(st.rho)[int(rng.randint(len(st.rho)))]
                    if op == "submit":
                        block = int(rng.choice([1, 4, 5]))
                        st.submit(R, Ps[:1 + int(rng.randint(2))], Ts, block * int(rng.randint(2, 5)) + (int(rng.randint(block)) if rng.rand() < 0.3 else 0), block)
                    elif op == "job":
                        for _ in range(int(rng.randint(1, 4))):
                            if st.pending:
                                st.run_job(int(rng.randint(len(st.pending))))
                    elif op in ("vib", "rho"):
                        st.edit(op, R)
                    else:
                        kind, method = ["plain", "jackknife"][int(rng.randint(2))], ["basic", "alpha"][int(rng.randint(2))]
                        for R in sorted(st.rho):
                            if st.analyse(R, kind, method, walker, real_pool=(i % 16 == 5)):
                                ctx.event("analyses_%s_%s" % (kind, method))
                while st.pending:
                    st.run_job(0)
                for R in sorted(st.rho):
                    st.analyse(R, "jackknife", "alpha", walker)
            except common.StopRun:
                raise
            except BaseException as e:
                e.args = ("%s after %s" % (str(e)[:200], st.hist[-8:]),)
                raise
            ctx.event("studies_" + kinds[i % 4])
            ctx.case(("study", i, st.name, tuple(st.hist)), sample="%s: %s" % (st.tag, "; ".join(st.hist))[:400])
            shutil.rmtree(st.root)

    for i in range(ctx.scale(12, 80)):
        farm.cluster(["nlogn", "feynman"][i % 2])
        with ctx.guard("raises", "long run %d" % i):
            exact(ctx, i, farm, top, vIO, fs, Sub, pimc)


if __name__ == "__main__":
    common.main("C22", run, level="exploration",
                rule="distinct = histories of studies (import, submissions, jobs, edits, analyses), and long runs compared with exact values",
                required=("jobs_executed", "outputs_compared", "outputs_of_several_jobs", "stale_jobs_left_out", "values_compared", "values_resolved", "errors_resolved", "edits_vib", "edits_rho",
                          "studies_op", "studies_json", "studies_artificial", "studies_shipped", "long_runs"),
                assumptions=["the file with the analytic values of the sampling model comes from a program outside the repository: the check writes it",
                             "the scheduler, and the moves of the job script, are stand-ins (C13 runs the job script itself)",
                             "exact comparison for one and two modes, at 7 standard errors, where the weights have no heavy tails"])
