"""C18: training data pair every path with the weights of that same path.

Monitor: training runs over models with displacements, different numbers of states, block layouts and repeated use of
the same objects; the written files are read back and every row is re-evaluated by lib/refpi.py at the saved coordinates.
"""
import os
import numpy as np
import common
import drive
import models
import refpi


def abs_g(R, vib, tau):
    s, lg, la = refpi.g_weights(R, vib, tau)
    return s * np.exp(lg), np.exp(la)


def rows(ctx, mech, tag, got, ref, scale, data=None):
    got = np.asarray(got, dtype=float)
    if not ctx.check(got.shape == ref.shape, mech + "-shape", "%s: %s rows, expected %s" % (tag, got.shape, ref.shape)):
        return
    bad = ~(np.abs(got - ref) <= 1e-7 * scale)
    ctx.event("rows_compared", len(ref))
    ctx.check(not bad.any(), mech, "%s: %d of %d rows are not the weight of their own path (first %s: %r, expected %r)"
              % (tag, int(bad.sum()), len(ref), np.nonzero(bad)[0][:1].tolist(), got[bad][:1].tolist(), ref[bad][:1].tolist()), data)
    ctx.check(bool(np.all(np.isfinite(got))), mech + "-finite", tag + ": rows not finite")


def run(ctx):
    pimc, fs = common.load("pibronic.pimc.pimc", "pibronic.data.file_structure")
    n = ctx.scale(220, 3000)
    for i in range(n):
        rng = ctx.rng("train", i)
        ctx.seed_globals("train", i)
        A, B, N = int(rng.choice([1, 2, 3, 4])), int(rng.choice([1, 2, 3, 5])), int(rng.choice([1, 2, 3, 4]))
        P, T = int(rng.choice([3, 4, 5, 8])), float(rng.choice([300.0, 1000.0, 500.25]))
        blocks, bs = int(rng.choice([1, 2, 3, 5])), int(rng.choice([1, 2, 4, 7]))
        if i % 25 == 6:                                              # larger systems, many blocks
            A, B, N, P = [(7, 2, 3, 8), (2, 8, 12, 8), (2, 2, 2, 64), (1, 1, 1, 3)][i // 25 % 4]
            T, blocks, bs = 1000.0, [2, 2, 3, 40][i // 25 % 4], [2, 2, 2, 25][i // 25 % 4]
        X = blocks * bs
        vib = models.coupled(rng, A, N, lin_scale=float(rng.choice([0.0, 0.5, 1.5])), quad_scale=float(rng.choice([0.0, 0.1])))
        if i % 4 == 3:                                               # a conical intersection: weights of both signs
            A, N, T, P = max(A, 2), max(N, 2), 100.0, int(rng.choice([3, 4, 5]))
            vib = models.coupled(rng, A, N, lin_scale=0.1, e_off=0.005, e_range=0.01, w_range=(0.08, 0.2))
            k = float(rng.uniform(0.2, 0.5))
            vib["lin"][0, :2, :2] = [[k, 0], [0, -k]]
            vib["lin"][1, :2, :2] = [[0, k], [k, 0]]
            if i % 8 == 3:                                           # ... amid the paths that are not sampled
                vib["E"][:2, :2] -= 0.5 * k * np.array([[1.0, 1.0], [1.0, -1.0]])
        rho = models.diagonal(rng, B, N, w=vib["w"] if rng.rand() < 0.5 else None, lin_scale=float(rng.choice([0.0, 0.5, 1.5])))
        tau = refpi.beta_of(T) / P
        tag = "A=%d B=%d N=%d P=%d T=%g %dx%d" % (A, B, N, P, T, blocks, bs)
        root = ctx.scratch()
        pm = bool(i % 5 == 4)
        with ctx.guard("raises", tag):
            FS = drive.make_fs(root, vib, rho)
            data = drive.make_data(FS, pm, A, N, P, T, blocks, bs)
            with common.Quiet():
                data.preprocess()
            seqs = [["raw"], ["rho"], ["raw", "rho", "raw"], ["gR", "raw"], ["rho", "gR", "rho"], ["gR", "gR"], ["raw", "run", "rho"],
                    ["run", "raw", "gR"]]
            for step, op in enumerate(seqs[i % len(seqs)]):
                t = "%s: %s (step %d of %s)" % (tag, op, step, seqs[i % len(seqs)])
                with common.Quiet():
                    res = (pimc.BoxResultPM if op == "run" and pm else pimc.BoxResult)(data=data)
                res.path_root = FS.path_rho_results
                res.id_job = job = step + 10 * (i % 3)
                if op == "raw":
                    with common.Quiet():
                        pimc.block_compute_gR_from_raw_samples(data, res)
                    base = FS.path_rho_results + "P%d_T%.2f_J%d_" % (P, T, job)
                    fg, fr = base + "training_data_g_output.npz", base + "training_data_input.npz"
                    if ctx.check(os.path.isfile(fg) and os.path.isfile(fr), "missing", t + ": training files missing: %s"
                                 % os.listdir(FS.path_rho_results)):
                        with np.load(fg) as z, np.load(fr) as y:
                            g, R = z["g"], y["input_R_values"]
                            ctx.check(int(z["number_of_samples"]) == X == int(y["number_of_samples"]), "count",
                                      t + ": number of samples %s/%s, requested %d" % (z["number_of_samples"], y["number_of_samples"], X))
                        if ctx.check(R.shape == (X, N, P) and bool(np.all(np.isfinite(R))), "coordinates", t + ": coordinates %s" % (R.shape,)):
                            ref, sc = abs_g(R, vib, tau)
                            rows(ctx, "raw", t, g, ref, sc, dict(R=R, vib=vib))
                            ctx.event("negative_raw_weights", int(np.sum(ref < -1e-6 * sc)))
                            ctx.check(len({r.tobytes() for r in R}) == X, "repeated", t + ": coordinates repeat")
                            v = np.asarray(R, dtype=float).ravel()           # values drawn from a continuum do not meet
                            ctx.check(len(v) > 20000 or len(np.unique(v)) == len(v), "coarse", t + ": coordinates come from a coarse grid")
                            ctx.event("raw_sets")
                            if np.any(vib["lin"]):
                                ctx.event("raw_sets_displaced")
                elif op == "rho":
                    # paths of some other origin, in several memory layouts
                    R = rng.standard_normal((X, N, P)) * float(rng.choice([0.3, 1.0, 2.0])) + rng.uniform(-1, 1, (1, N, 1))
                    spec = rng.randint(5)
                    if spec == 0:                                  # paths at special places: the origin, a minimum, repeated paths
                        R[rng.rand(X) < 0.5] = 0.0
                        R[-1] = 0.0
                        if rng.rand() < 0.4:
                            R[:] = 0.0
                    elif spec == 1:
                        R[rng.rand(X) < 0.5] = R[0]
                    elif spec == 2:
                        R[rng.rand(X) < 0.5] *= 1e-12
                    lay = rng.randint(3)
                    given = R.copy() if lay == 0 else (np.asfortranarray(R) if lay == 1 else np.repeat(R, 2, axis=0)[::2])
                    if rng.rand() < 0.4:
                        given.flags.writeable = False
                    with common.Quiet():
                        pimc.block_compute_rhoR_from_input_samples(data, res, given)
                    ctx.check(np.array_equal(given, R), "caller-modified", t + ": the caller's paths were modified")
                    lr = refpi.rho_log(R, rho, tau)
                    ref = np.exp(lr)
                    rows(ctx, "rho", t, res.scaled_rho, ref, ref, dict(R=R, rho=rho))
                    ctx.event("rho_sets")
                elif op == "gR":
                    seen = drive.observe_paths(data)
                    try:
                        with common.Quiet():
                            pimc.block_compute_gR(data, res)
                    finally:
                        data.__dict__.pop("transform_sampled_coordinates", None)
                    if len(seen) == blocks:
                        R = np.concatenate([drive.paths_of(s[1], N, P) for s in seen])
                        ref, sc = abs_g(R, vib, tau)
                        rows(ctx, "gR", t, res.scaled_g, ref, sc, dict(R=R, vib=vib))
                        ctx.event("negative_weights", int(np.sum(ref < -1e-6 * sc)))
                        ctx.event("g_sets")
                    f = FS.path_rho_results + "P%d_T%.2f_J%d_data_points.npz" % (P, T, job)
                    if ctx.check(os.path.isfile(f), "missing", t + ": no result file"):
                        with np.load(f) as z:
                            ctx.check(int(z["number_of_samples"]) == X and np.array_equal(z["s_g"], res.scaled_g), "count",
                                      t + ": the file does not hold the computed rows")
                else:
                    with common.Quiet():
                        (pimc.block_compute_pm if pm else pimc.block_compute)(data, res)
        ctx.case((A, B, N, P, T, blocks, bs, i % 8), True, tag)
        ctx.drop(root)


common.main("C18", run, level="exploration",
            rule="a case is one model pair and block layout with a sequence of training computations on the same objects",
            required=("rows_compared", "raw_sets", "raw_sets_displaced", "rho_sets", "g_sets", "negative_weights", "negative_raw_weights"),
            assumptions=["lib/refpi.py evaluates the weights of given coordinates"])
