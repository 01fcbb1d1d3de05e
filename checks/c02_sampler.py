"""C02: the drawn paths against the distribution the sampling model defines.

Monitor: every path drawn by complete runs is recorded.  Oracle: exact first and second moments of the
mixture (all bead pairs through the collective coordinates), posterior state weights, fourth moments,
serial/cross-block independence, and for one-mode models the exact discretised partition functions
(transfer matrix) against the mean of the stored ratios.  Every statistic is turned into a z-score with
its own sample standard error; |z| > 6.5 is a violation.
"""
import os
import subprocess
import sys
import numpy as np
import common
import drive
import models
import refpi

ZMAX = 6.5


class Stats:
    def __init__(self, ctx):
        self.ctx, self.max, self.pools, self.spread = ctx, 0.0, {}, {}

    def pool(self, key, values):
        """values whose mean is exactly zero: only their sums over all runs are kept"""
        v = np.asarray(values, dtype=float).ravel()
        a = self.pools.setdefault(key, [0, 0.0, 0.0])
        a[0] += len(v)
        a[1] += v.sum()
        a[2] += (v * v).sum()

    def judge_pools(self):
        """the same statistics over every run together: sees deviations that are small in each run; and the
        averages of independent draws scatter around their exact values, neither less nor more than their
        standard errors say"""
        for mech, low in (("mean", 0.4), ("state-weights", 0.15), ("variance", 0.4), ("bead", 0.3)):
            v = np.array(self.spread.get(mech, []))
            if len(v) >= 40:
                self.ctx.event("scatter_tests")
                self.ctx.check(low < (v ** 2).mean() < 4.0, "scatter", "%s: the mean square of %d deviations is %.3f standard errors "
                               "instead of about 1: the paths are not independent draws" % (mech, len(v), (v ** 2).mean()))
                self.ctx.notes["scatter_" + mech] = round(float((v ** 2).mean()), 3)
        for (mech, what), (n, s, ss) in sorted(self.pools.items()):
            self.ctx.event("pooled_tests")
            self.ctx.event("pooled_observations", n)
            if n < 1000:
                continue
            z = s / np.sqrt(ss) if ss > 0 else 0.0
            self.max = max(self.max, abs(z)) if abs(z) <= ZMAX else self.max
            self.ctx.check(np.isfinite(s) and abs(z) <= ZMAX, mech,
                           "all runs together, %s: %.4g instead of 0 (z=%.1f over %d observations)" % (what, s / n, z, n))

    def z(self, mech, values, expected, tag, min_n=200):
        """values: per-sample observations whose mean must be `expected`"""
        v = np.asarray(values, dtype=float)
        n = len(v)
        sd = v.std()
        self.ctx.event("z_tests")
        if not np.isfinite(sd):
            self.ctx.violation(mech, "%s: not finite" % tag)
            return
        se = sd / np.sqrt(n) + 1e-12 * max(1.0, abs(expected))
        z = (v.mean() - expected) / se
        self.max = max(self.max, abs(z)) if abs(z) <= ZMAX else self.max
        if sd > 1e-9 * max(1.0, abs(expected)):
            self.spread.setdefault(mech, []).append(z)
        if abs(z) > ZMAX:
            self.ctx.violation(mech, "%s: mean %.6g, exact %.6g, z=%.1f over %d paths"
                               % (tag, v.mean(), expected, z, n))


def moments(ctx, st, R, rho, P, T, blocks, bs, tag):
    X, N, _ = R.shape
    beta = refpi.beta_of(T)
    tau = beta / P
    pi = refpi.rho_state_weights(rho, beta)
    d = -(rho["lin"] / rho["w"][:, None])              # (N,B)
    B = rho["A"]
    # states: posterior probability of each state has mean pi_a whatever state was drawn
    _, ls = refpi.rho_log(R, rho, tau, per_state=True)
    post = np.exp(ls - ls.max(axis=1, keepdims=True))
    post /= post.sum(axis=1, keepdims=True)
    for a in range(B):
        if B > 1 and pi[a] * X > 60 and (1 - pi[a]) * X > 60:
            st.z("state-weights", post[:, a], pi[a], tag + " state %d" % a)
            ctx.event("state_weight_tests")
        elif pi[a] * X < 1e-3:
            # a state that is drawn essentially never: its posterior may not dominate many paths
            ctx.check((post[:, a] > 0.9).sum() <= 8, "state-weights",
                      tag + ": state %d with weight %.2g dominates %d of %d paths"
                      % (a, pi[a], (post[:, a] > 0.9).sum(), X))
    # collective coordinates (any orthonormal eigenbasis of the ring)
    k = np.arange(P)
    basis = [np.ones(P) / np.sqrt(P)]
    for m in range(1, (P - 1) // 2 + 1):
        basis += [np.sqrt(2 / P) * np.cos(2 * np.pi * m * k / P), np.sqrt(2 / P) * np.sin(2 * np.pi * m * k / P)]
    if P % 2 == 0:
        basis.append(np.sqrt(1 / P) * np.cos(np.pi * k))
    U = np.array(basis)                                # (P,P) rows
    Y = np.einsum("kp,xnp->xnk", U, R)
    for n in range(N):
        C = refpi.ring_covariance(rho["w"][n], tau, P)
        lam = np.einsum("kp,pq,kq->k", U, C, U)
        mu = np.zeros((P, B))
        mu[0] = np.sqrt(P) * d[n]
        for kk in range(P):
            m1 = float(mu[kk] @ pi)
            st.z("mean", Y[:, n, kk], m1, tag + " mode %d collective %d mean" % (n, kk))
            m2 = float(lam[kk] + (mu[kk] ** 2) @ pi)
            st.z("variance", Y[:, n, kk] ** 2, m2, tag + " mode %d collective %d second moment" % (n, kk))
            if kk:
                st.z("kurtosis", (Y[:, n, kk] ** 2 / lam[kk] - 1) ** 2, 2.0,
                     tag + " mode %d collective %d fourth moment" % (n, kk))
                st.z("correlation", Y[:, n, kk] * Y[:, n, kk - 1], 0.0 if kk > 1 else m1 * float(mu[0] @ pi),
                     tag + " mode %d collective %d-%d" % (n, kk - 1, kk))
        # every run together, in units of the exact width: whole path, and by state, block and mode
        for kk in range(P):
            e = (Y[:, n, kk, None] - mu[kk][None]) / np.sqrt(lam[kk])          # (X,B)
            x1, x2 = (post * e).sum(axis=1), (post * (e ** 2 - 1)).sum(axis=1)
            where = "centroid" if kk == 0 else "highest collective" if kk == P - 1 else "other collectives"
            for what in (where, "all"):
                st.pool(("mean", what + " deviation"), x1)
                st.pool(("variance", what + " squared deviation"), x2)
            st.pool(("variance", "squared deviation, first mode" if n == 0 else "squared deviation, other modes"), x2)
            st.pool(("variance", "squared deviation, first block"), x2[:bs])
            if blocks > 1:
                st.pool(("variance", "squared deviation, later blocks"), x2[bs:])
                st.pool(("mean", "deviation, later blocks"), x1[bs:])
            for a in sorted({0, B - 1}):
                st.pool(("variance", "squared deviation, %s state" % ("first" if a == 0 else "last")), post[:, a] * (e[:, a] ** 2 - 1))
                st.pool(("mean", "deviation, %s state" % ("first" if a == 0 else "last")), post[:, a] * e[:, a])
            if kk:
                st.pool(("kurtosis", "fourth moment"), (e[:, 0] ** 2 - 1) ** 2 - 2.0)
            st.pool(("serial-correlation", "consecutive samples"), (x1[1:] * x1[:-1]))
        # individual beads and neighbours, directly
        for p in (0, P // 2):
            q = (p + 1) % P
            m2 = float((d[n] ** 2) @ pi)
            st.z("bead", R[:, n, p] ** 2, C[p, p] + m2, tag + " mode %d bead %d" % (n, p))
            st.z("bead", R[:, n, p] * R[:, n, q], C[p, q] + m2, tag + " mode %d beads %d,%d" % (n, p, q))
        if n:
            st.z("mode-correlation", Y[:, n, 0] * Y[:, n - 1, 0], P * float((d[n] * d[n - 1]) @ pi),
                 tag + " modes %d,%d" % (n - 1, n))
            st.z("mode-correlation", Y[:, n, -1] * Y[:, n - 1, -1], 0.0, tag + " modes %d,%d high" % (n - 1, n))
            st.z("mode-correlation", (Y[:, n, 1] ** 2) * (Y[:, n - 1, 1] ** 2),
                 float(np.einsum("p,pq,q", U[1], C, U[1]))
                 * float(np.einsum("p,pq,q", U[1], refpi.ring_covariance(rho["w"][n - 1], tau, P), U[1])),
                 tag + " modes %d,%d squares" % (n - 1, n))
        # independence of different samples: neighbours, and the same position in the next block
        for kk in (0, min(1, P - 1)):
            e1 = float(mu[kk] @ pi)
            for lag in sorted(set([1, 2] + ([bs] if bs < X // 2 else []))):
                st.z("serial-correlation", (Y[lag:, n, kk] - e1) * (Y[:-lag, n, kk] - e1), 0.0,
                     tag + " mode %d collective %d lag %d" % (n, kk, lag))
                ctx.event("independence_tests")
    # the same state sequence in every block would be invisible above for rarely mixed states
    if B > 1 and blocks > 1:
        s = post.argmax(axis=1).reshape(blocks, bs)
        ind = (post - pi[None]).reshape(blocks, bs, B)
        a = int(np.argmax(pi * (1 - pi)))
        if pi[a] * (1 - pi[a]) * X > 60:
            pp = (ind[1:, :, a] * ind[:-1, :, a]).ravel()
            st.z("state-independence", pp, 0.0, tag + " states of consecutive blocks")
            pp = (ind[:, 1:, a] * ind[:, :-1, a]).ravel()
            st.z("state-independence", pp, 0.0, tag + " states of consecutive samples")
    # the same path with other signs or from another centre: distinct in every collective coordinate
    for kk in (1, P - 1):
        u = np.round(np.abs(Y[:, 0, kk]) / np.sqrt(refpi.ring_covariance(rho["w"][0], tau, P).trace() / P), 10)
        ctx.check(len(np.unique(u)) >= X - 2, "mirrored-path", tag + ": collective coordinate %d has only %d distinct sizes in %d samples"
                  % (kk, len(np.unique(u)), X))
    rows = {r.tobytes() for r in R}
    ctx.check(len(rows) == X, "repeated-path", tag + ": only %d distinct paths in %d samples" % (len(rows), X))


def run(ctx):
    st = Stats(ctx)
    n = ctx.scale(26, 260)
    XS = ctx.scale(6000, 16000)
    for i in range(n):
        rng = ctx.rng("moments", i)
        B = [1, 2, 3, 2, 5, 4][i % 6]
        N = [1, 2, 3, 1, 2][i % 5]
        P = int(rng.choice([3, 4, 5, 6, 8]))
        T = float(rng.choice([300.0, 100.0, 1000.0, 50.0]))
        A = int(rng.choice([1, 2])) if i % 4 else B
        rho = models.diagonal(rng, B, N, lin_scale=float(rng.choice([0.5, 1.0, 2.0])),
                              w_range=(0.02, 0.4), e_range=0.0)
        # energies such that several states matter at this temperature
        kT = refpi.KB * T
        delta = -0.5 * (rho["lin"] ** 2 / rho["w"][:, None]).sum(axis=0)
        rho["E"] = -delta * rng.choice([0, 1]) + kT * rng.uniform(0, 2.5, size=B) \
            + (float(rng.choice([0.0, 8.0, -8.0])) if i % 3 != 1 else -4.0 * kT)
        if i % 5 == 4 and B > 2:
            rho["E"][-1] += 60 * kT                     # a state with negligible weight
        vib = models.coupled(rng, A, N, lin_scale=0.3)
        vib["E"][np.arange(A), np.arange(A)] += rho["E"].min()
        bs = int(rng.choice([XS, XS // 10, XS // 60, XS // 4]))
        blocks = XS // bs
        pm = bool(i % 2)
        tag = "B=%d N=%d P=%d T=%g blocks=%dx%d" % (B, N, P, T, blocks, bs)
        d = ctx.scratch()
        ctx.seed_globals("moments", i)
        with ctx.guard("run-raises", tag):
            FS = drive.make_fs(d, vib, rho)
            gR = not pm and i % 3 == 1                    # the paths of a training run
            out = drive.run(FS, pm, A, N, P, T, blocks, bs, engine=common.load("pibronic.pimc.pimc").block_compute_gR if gR else None)
            if out.R is not None:
                ctx.event("training_paths_observed" if gR else "paths_observed", len(out.R))
                ctx.event("runs_observed")
                moments(ctx, st, out.R, rho, P, T, blocks, bs, tag)
            ctx.case((B, N, P, T, bs, i), out.R is not None, tag)
        ctx.drop(d)

    st.judge_pools()

    # numbers of paths per state of short runs, with states far apart: binomial, run by run
    d = ctx.scratch()
    rng = ctx.rng("counts")
    vib, rho = models.coupled(rng, 2, 1, lin_scale=0.1), models.diagonal(rng, 2, 1, w_range=(0.1, 0.2), e_range=0.0)
    rho["lin"] = rho["w"][:, None] * np.array([[10.0, -10.0]])
    rho["E"] = 0.5 * (rho["lin"] ** 2 / rho["w"][:, None]).sum(axis=0) + refpi.KB * 300.0 * np.array([0.0, rng.uniform(0.2, 1.0)])
    pi = refpi.rho_state_weights(rho, refpi.beta_of(300.0))
    ctx.seed_globals("counts")
    with ctx.guard("run-raises", "short runs"):
        FS = drive.make_fs(d, vib, rho)
        disp, X = [], 24
        for r in range(60):
            out = drive.run(FS, bool(r % 2), 2, 1, 4, 300.0, 2, X // 2, job=r)
            if out.R is None:
                continue
            m = int((out.R.mean(axis=(1, 2)) < 0).sum())
            disp.append((m - X * pi[0]) ** 2 / (X * pi[0] * pi[1]))
            ctx.event("short_runs")
        ctx.check(len(disp) < 60 or 0.33 < np.mean(disp) < 2.4, "state-counts", "paths per state over %d short runs: %.3f times the binomial "
                  "variance" % (len(disp), np.mean(disp) if disp else 0))
        ctx.notes["state_count_dispersion"] = round(float(np.mean(disp)), 3) if disp else None
        ctx.case("short runs")
    ctx.drop(d)

    # states that are drawn rarely, all states far apart, energies of either sign: numbers of paths per state
    for i in range(ctx.scale(6, 30)):
        rng = ctx.rng("rare", i)
        B, N, T, X = [3, 4, 6, 9][i % 4], int(rng.choice([1, 2])), float(rng.choice([300.0, 250.0, 900.0])), 20000
        kT = refpi.KB * T
        vib, rho = models.coupled(rng, 2, N, lin_scale=0.1), models.diagonal(rng, B, N, w_range=(0.1, 0.2), e_range=0.0)
        gap = 12.0                                         # far above the width of a state
        rho["lin"][:] = 0.1 * rho["lin"]
        rho["lin"][0] = rho["w"][0] * gap * (np.arange(B) - 0.5 * (B - 1))
        want = np.array([1.0] + [float(10 ** rng.uniform(-3, -1.4)) for _ in range(B - 1)])
        want = rng.permutation(want / want.sum())
        rho["E"] = 0.5 * (rho["lin"] ** 2 / rho["w"][:, None]).sum(axis=0) - kT * np.log(want) \
            - [0.0, 0.0, 20.0][i % 3] - [0.0, 0.5 * (rho["lin"] ** 2 / rho["w"][:, None]).sum(axis=0).max(), 0.0][i % 3]
        vib["E"][np.arange(2), np.arange(2)] += rho["E"].min()
        pi = refpi.rho_state_weights(rho, refpi.beta_of(T))
        d = ctx.scratch()
        ctx.seed_globals("rare", i)
        with ctx.guard("run-raises", "rare states"):
            FS = drive.make_fs(d, vib, rho)
            out = drive.run(FS, bool(i % 2), 2, N, 3, T, [1, 4][i % 2], X // [1, 4][i % 2])
            if out.R is not None:
                cen = -rho["lin"][0] / rho["w"][0]
                m = np.bincount(np.abs(out.R[:, 0].mean(axis=1)[:, None] - cen[None]).argmin(axis=1), minlength=B)
                for a in range(B):
                    z = (m[a] - X * pi[a]) / np.sqrt(X * pi[a] * (1 - pi[a]))
                    ctx.event("rare_state_tests")
                    ctx.check(abs(z) <= 6.0 + 3.0 / np.sqrt(X * pi[a]), "rare-states", "B=%d T=%g: state %d with weight %.3g "
                              "was drawn %d times in %d (expected %.1f)" % (B, T, a, pi[a], m[a], X, X * pi[a]))
            ctx.case(("rare", i, B, N, T), out.R is not None)
        ctx.drop(d)

    # mean ratios against the exact discretised partition functions
    n = ctx.scale(20, 150)
    XZ = ctx.scale(5000, 20000)
    for i in range(n):
        rng = ctx.rng("Z", i)
        A = [1, 2, 3, 2][i % 4]
        B = A if i % 3 else int(rng.choice([1, 2, 3]))
        P = int(rng.choice([3, 4, 6, 8, 12]))
        T = float(rng.choice([300.0, 500.0, 1000.0, 200.0]))
        vib = models.coupled(rng, A, 1, lin_scale=0.7, quad_scale=float(rng.choice([0, 0.1])),
                             e_off=0.04, e_range=0.1, lin_off=0.3)
        if B == A:
            rho = models.diagonal_of(vib)
            rho["quad"] = np.zeros_like(rho["quad"])
            if i % 2:
                rho["E"] = rho["E"] + rng.uniform(-0.02, 0.02, size=B)
                rho["lin"] = rho["lin"] * 1.1
        else:
            rho = models.diagonal(rng, B, 1, w=vib["w"] * 0.95, lin_scale=0.6, e_range=0.05)
        beta = refpi.beta_of(T)
        tag = "Z: A=%d B=%d P=%d T=%g" % (A, B, P, T)
        half = 14.0 / np.sqrt(1.0) + 3
        pts = np.linspace(-half, half, ctx.scale(240, 320))
        h = pts[1] - pts[0]
        d = ctx.scratch()
        ctx.seed_globals("Z", i)
        with ctx.guard("run-raises", tag):
            FS = drive.make_fs(d, vib, rho)
            out = drive.run(FS, True, A, 1, P, T, 5, XZ // 5)
            res = out.result
            lzr = refpi.rho_logZ(rho, beta / P, P)
            for name, arr, sh in (("Z", res.scaled_g, 0.0), ("Z_plus", res.scaled_gofr_plus, refpi.DBETA),
                                  ("Z_minus", res.scaled_gofr_minus, -refpi.DBETA)):
                lz, sg = refpi.transfer_Z(vib, (beta + sh) / P, P, pts, h)
                exact = sg * np.exp(lz - lzr)
                ratio = np.asarray(arr) / np.asarray(res.scaled_rho)
                # only use cases where the ratio is tame enough for a normal error bar
                v = ratio / exact
                tail = np.sort(np.abs(v - v.mean()))[-5:].sum() / (np.abs(v - v.mean()).sum() + 1e-300)
                if tail < 0.05:
                    st.z("partition-function", v, 1.0, tag + " " + name)
                    ctx.event("partition_functions_compared")
                else:
                    ctx.event("partition_functions_heavy_tailed")
            ctx.case(("Z", i), True, tag)
        ctx.drop(d)

    # runs that follow one another, and runs in separate processes, draw different paths
    d = ctx.scratch()
    rng = ctx.rng("fresh")
    vib = models.coupled(rng, 2, 2)
    rho = models.diagonal_of(vib)
    with ctx.guard("run-raises", "consecutive runs"):
        FS = drive.make_fs(d, vib, rho)
        seen = {}
        ctx.seed_globals("fresh")
        for r in range(4):
            out = drive.run(FS, bool(r % 2), 2, 2, 4, 300.0, 2, 25, job=r)
            for v in np.asarray(out.result.scaled_g) / np.asarray(out.result.scaled_rho):
                seen.setdefault(float(v), set()).add(r)
            ctx.event("consecutive_runs")
        dup = [v for v, s in seen.items() if len(s) > 1]
        ctx.check(not dup and len(seen) == 200, "repeated-run",
                  "consecutive runs repeat samples: %d values for 200 samples" % len(seen))
    prog = ("import sys; sys.path[:0]=[%r,%r]\nimport common, drive, models, numpy as np\n"
            "fs = common.load('pibronic.data.file_structure')\n"
            "with common.Quiet():\n    FS = fs.FileStructure(%r, 0, 0); FS.generate_model_hashes()\n"
            "o = drive.run(FS, True, 2, 2, 4, 300.0, 2, 25, job=int(sys.argv[1]))\n"
            % (os.path.join(common.VERIF, "lib"), common.REPO, d))
    vals = {}
    procs = [subprocess.Popen([sys.executable, "-W", "ignore", "-c", prog, str(100 + r)],
                              stdout=subprocess.DEVNULL, stderr=subprocess.PIPE) for r in range(4)]
    for r, p in enumerate(procs):
        err = p.communicate()[1]
        f = os.path.join(FS.path_rho_results, "P4_T300.00_J%d_data_points.npz" % (100 + r))
        if not ctx.check(p.returncode == 0 and os.path.isfile(f), "run-raises",
                         "run in a separate process failed", err.decode(errors="replace")[-800:]):
            continue
        with np.load(f) as z:
            for v in z["s_g"] / z["s_rho"]:
                vals.setdefault(float(v), set()).add(r)
        ctx.event("separate_processes")
    ctx.check(all(len(s) == 1 for s in vals.values()), "repeated-process",
              "independent processes draw the same samples")
    ctx.notes["largest_accepted_z"] = round(st.max, 2)


common.main("C02", run, level="exploration",
            rule="a case is one complete run whose paths (thousands) were recorded and tested, or whose mean "
                 "ratios were compared with exact discretised partition functions",
            required=("z_tests", "pooled_tests", "partition_functions_compared", "separate_processes"),
            assumptions=["|z| <= 6.5 is accepted: with about 1e4 statistics per run the chance of a false alarm "
                         "is below 1e-6", "lib/refpi.py defines the exact moments and partition functions"])
