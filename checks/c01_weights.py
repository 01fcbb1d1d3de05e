"""C01: the stored weights of every drawn path against an independent evaluation of both models.

Monitor: the instance's coordinate transform is wrapped, so every drawn path R is recorded as it is
handed to the weight evaluation.  Oracle: lib/refpi.py evaluates both models on exactly these paths
(log space, own formulas); numerator/denominator of each sample is compared for beta and beta+-delta.
"""
import os
import numpy as np
import common
import drive
import models
import refpi

TOL = 1e-7


def compare(ctx, key, out, vib, rho, P, T, db, pm, tag):
    if out.R is None:
        ctx.event("runs_without_observed_paths")
        return
    ctx.event("runs_observed")
    ctx.event("paths_observed_" + out.how, len(out.R))
    res = out.result
    beta = refpi.beta_of(T)
    lr = refpi.rho_log(out.R, rho, beta / P)
    rho_s = np.asarray(res.scaled_rho, dtype=float)
    X = len(out.R)
    if not ctx.check(rho_s.shape == (X,), "shape", "%s: denominators have shape %s, expected %s"
                     % (tag, rho_s.shape, (X,)), key):
        return
    # the common scaling keeps the larger of the two weights in range: a path on which the vibronic model
    # outweighs the sampling model beyond the range of a double may lose its denominator
    gap = np.max([refpi.g_weights(out.R, vib, (beta + s) / P)[2] - lr for s in ((0.0, db, -db) if pm else (0.0,))], axis=0)
    inside = gap < 300
    ctx.event("denominators_outside_range", int((~inside).sum()))
    ctx.check(np.all(np.isfinite(rho_s)) and np.all(rho_s[inside] > 0), "rho-finite",
              "%s: a denominator is not finite and positive" % tag, dict(key=key, rho=rho_s, gap=gap))
    arrays = [("g", res.scaled_g, 0.0)]
    if pm:
        arrays += [("g_plus", res.scaled_gofr_plus, db), ("g_minus", res.scaled_gofr_minus, -db)]
    for name, arr, shift in arrays:
        arr = np.asarray(arr, dtype=float)
        if not ctx.check(arr.shape == (X,), "shape", "%s: %s has shape %s" % (tag, name, arr.shape), key):
            continue
        sgn, lg, la = refpi.g_weights(out.R, vib, (beta + shift) / P)
        scale = np.exp(la - lr)
        ref = sgn * np.exp(lg - lr)
        ok = (rho_s > 1e-250) & np.isfinite(scale) & (scale < 1e200)
        # log of the absolute trace as the engine sees it (after its common scaling)
        ok &= (np.log(np.maximum(rho_s, 1e-300)) + la - lr) > -550
        ctx.event("weights_compared", int(ok.sum()))
        ctx.event("weights_skipped_underflow", int((~ok).sum()))
        if not ok.any():
            continue
        with np.errstate(all="ignore"):
            got = arr / rho_s
            bad = ~(np.abs(got - ref) <= TOL * scale) & ok
        ctx.event("assertions")
        if bad.any():
            i = int(np.nonzero(bad)[0][0])
            ctx.violation("weight-" + name,
                          "%s: %s/rho of sample %d is %r, the two models give %r for its path (%d of %d wrong)"
                          % (tag, name, i, float(got[i]), float(ref[i]), int(bad.sum()), X),
                          dict(key=key, R=out.R[i], vib=vib, rho=rho, got=got, ref=ref))
        ctx.event("negative_weights_" + name, int(np.sum(ref < -1e-6 * scale)))
        if vib["A"] > 1 and np.any(np.abs(ref) < 0.999 * scale):
            ctx.event("weights_with_cancellation")


def draw_config(rng, i, thorough):
    A = int(rng.choice([1, 2, 2, 3, 3, 4, 5]))
    N = int(rng.choice([1, 1, 2, 2, 3, 4, 6]))
    P = int(rng.choice([3, 4, 5, 7, 8, 12, 16, 25] + ([40, 64] if thorough or i % 10 == 0 else [])))
    T = float(rng.choice([300.0, 250.0, 77.35, 1000.0, 123.456, 600.5, 30.0]))
    same = rng.rand() < 0.45
    B = A if same else int(rng.choice([1, 2, 3, 4, 6]))
    quad = float(rng.choice([0.0, 0.0, 0.1, 0.25]))
    blocks = int(rng.choice([1, 1, 2, 3]))
    bs = int(rng.choice([1, 2, 5, 8]))
    if i % 12 == 7:                                       # large systems, few samples
        A, N = int(rng.choice([6, 7, 9, 12])), int(rng.choice([1, 2, 6, 9, 13]))
        B = A if same else int(rng.choice([1, 2, 7, 10]))
        P, blocks, bs = int(rng.choice([3, 4, 8, 12])), 1, 2
        T = max(T, 250.0)
    if i % 30 == 11:                                      # fine discretisations, very low and very high temperatures
        A, N = int(rng.choice([1, 2, 3])), int(rng.choice([1, 2, 3]))
        B = A if same else int(rng.choice([1, 2, 4]))
        P, blocks, bs = int(rng.choice([100, 129, 200, 257] + ([500, 1000] if thorough or i % 90 == 41 else []))), 1, 2
        P = 1000 if i % 150 == 101 else P
        T = float(rng.choice([300.0, 20.0, 10.0, 5.0, 4.2, 5000.0]))
        quad = 0.0
    if i % 100 == 23:                                     # many paths per block
        A, N = int(rng.choice([2, 4])), int(rng.choice([2, 5]))
        B = A if same else int(rng.choice([3, 8]))
        P, T, blocks, bs = int(rng.choice([16, 64])), max(T, 250.0), 2, int(rng.choice([150, 400]))
    return A, B, N, P, T, quad, blocks, bs


def draw_models(rng, A, B, N, quad, mode, extreme=None):
    off = float(rng.choice([0.0, 5.0, -3.0])) if mode % 3 == 0 else 0.0
    vib = models.coupled(rng, A, N, lin_scale=float(rng.choice([0.3, 1.0, 2.5])), quad_scale=quad,
                         e_off=float(rng.choice([0.0, 0.05, 0.3])), lin_off=float(rng.choice([0.0, 0.3, 1.0])))
    special = int(rng.randint(12))
    if special == 0:                                      # terms that are entirely absent, identical states
        vib["E"][:] = 0.0
    elif special == 1:
        vib["lin"][:] = 0.0
    elif special == 2 and A > 1:
        vib["E"][1, 1] = vib["E"][0, 0]
        vib["lin"][:, 1, 1] = vib["lin"][:, 0, 0]
    elif special == 3 and A > 1:                          # couplings only between the first and the last state
        keep = np.eye(A, dtype=bool)
        keep[0, -1] = keep[-1, 0] = True
        vib["E"] = np.where(keep, vib["E"], 0.0)
        vib["lin"] = np.where(keep[None], vib["lin"], 0.0)
    elif special in (4, 5) and A > 1 and N > 1:           # a conical intersection at the origin: weights of both signs
        vib["E"] *= 0.05
        vib["lin"] *= 0.05
        k = float(rng.uniform(0.1, 0.4))
        vib["lin"][0, :2, :2], vib["lin"][1, :2, :2] = [[k, 0], [0, -k]], [[0, k], [k, 0]]
    elif extreme == 0 and A > 1:                          # electronic couplings far larger than the quanta
        vib["E"] = np.where(np.eye(A, dtype=bool), vib["E"], vib["E"] * 10.0 ** rng.uniform(1, 1.8))
    far = extreme == 1
    if far:                                               # minima far away from the origin, a different one for each state
        d = np.arange(A)
        vib["lin"][:, d, d] = vib["w"][:, None] * rng.choice([-1.0, 1.0], (N, A)) * rng.uniform(3, 9, (N, A))
    vib["E"][np.arange(A), np.arange(A)] += off
    if (mode % 4 == 1 or far) and B == A:
        rho = models.diagonal_of(vib)
        if mode % 8 == 1:
            rho["quad"] = np.zeros_like(rho["quad"])
    else:
        w = vib["w"] if rng.rand() < 0.6 else np.sort(rng.uniform(0.05, 0.25, size=N))
        rho = models.diagonal(rng, B, N, w=w, lin_scale=float(rng.choice([0.0, 0.5, 1.5])))
        rho["E"] += off
    return vib, rho


def build_via_json(FS, pm, A, N, P, T, blocks, bs, db):
    pimc = common.load("pibronic.pimc.pimc")
    params = {"number_of_samples": blocks * bs, "number_of_blocks": blocks, "number_of_states": A,
              "number_of_beads": P, "number_of_modes": N, "temperature": T, "block_size": bs,
              "id_data": FS.id_data, "id_rho": FS.id_rho, "path_root": FS.path_root}
    if db is not None:
        params["delta_beta"] = db
    cls = pimc.BoxDataPM if pm else pimc.BoxData
    with common.Quiet():
        return cls.from_json_string(cls.json_serialize(params))


def run(ctx):
    pimc = common.load("pibronic.pimc.pimc")
    thorough = ctx.tier == "thorough"
    n = ctx.scale(600, 8000)
    for i in range(n):
        rng = ctx.rng("single", i)
        A, B, N, P, T, quad, blocks, bs = draw_config(rng, i, thorough)
        extreme = i % 14 // 7 if i % 7 == 3 and N < 5 else None
        T = T if extreme is None else max(T, 1000.0)         # the weights of such models leave the range of doubles when it is cold
        vib, rho = draw_models(rng, A, B, N, quad, i, extreme)
        ctx.event("extreme_models", int(extreme is not None))
        pm = bool(rng.rand() < 0.7)
        db = None if rng.rand() < 0.7 else float(rng.choice([1e-3, 5e-4, 2e-2, 0.4, 1e-6]))
        key = (A, B, N, P, T, quad > 0, blocks, bs, pm, db)
        tag = "A=%d B=%d N=%d P=%d T=%g quad=%g blocks=%dx%d pm=%s" % (A, B, N, P, T, quad, blocks, bs, pm)
        d = ctx.scratch()
        ctx.seed_globals("single", i)
        with ctx.guard("run-raises", tag, key):
            FS = drive.make_fs(d, vib, rho)
            data = build_via_json(FS, pm, A, N, P, T, blocks, bs, db if pm else None) if i % 3 == 0 else None
            out = drive.run(FS, pm, A, N, P, T, blocks, bs, data=data, delta_beta=db)
            compare(ctx, key, out, vib, rho, P, T, refpi.DBETA if db is None else db, pm, tag)
            ctx.case(key, out.R is not None)
        ctx.drop(d)

    # the same objects used again: other temperature/beads, other model, repeated evaluation, interleaving
    n = ctx.scale(80, 800)
    for i in range(n):
        rng = ctx.rng("history", i)
        A, B, N = int(rng.choice([2, 3])), int(rng.choice([1, 2, 3, 4])), int(rng.choice([1, 2, 3]))
        pm = bool(rng.rand() < 0.7)
        d = ctx.scratch()
        ctx.seed_globals("history", i)
        hist = []
        with ctx.guard("history-raises", "history %s" % (hist,), dict(i=i)):
            sets = []
            for k in range(2):
                vib, rho = draw_models(rng, A, B, N, 0.1 * k, int(rng.randint(8)))
                sets.append((drive.make_fs(d, vib, rho, id_data=k), vib, rho))
            state = {}
            for step in range(6):
                k = int(rng.randint(2))
                FS, vib, rho = sets[k]
                op = ["new", "rerun", "change", "edit"][int(rng.randint(4))] if k in state else "new"
                P, T = int(rng.choice([3, 5, 8])), float(rng.choice([300.0, 150.0, 800.0]))
                blocks, bs = int(rng.choice([1, 2, 3])), int(rng.choice([2, 3]))
                hist.append((op, k, P, T, blocks, bs))
                if op == "rerun":                      # same data object, no new preprocessing
                    data, P, T, blocks, bs = state[k]
                    out = drive.run(FS, pm, A, N, P, T, blocks, bs, data=data, preprocess=False)
                elif op == "new":
                    out = drive.run(FS, pm, A, N, P, T, blocks, bs)
                else:
                    if op == "edit":
                        vib, rho = draw_models(rng, A, B, N, 0.1, int(rng.randint(8)))
                        FS = drive.make_fs(d, vib, rho, id_data=k)
                        sets[k] = (FS, vib, rho)
                    data = state[k][0]
                    data.beads, data.temperature, data.blocks, data.block_size = P, T, blocks, bs
                    data.samples = blocks * bs
                    out = drive.run(FS, pm, A, N, P, T, blocks, bs, data=data)
                state[k] = (out.data, P, T, blocks, bs)
                ctx.event("history_steps_" + op)
                compare(ctx, (A, B, N, tuple(hist)), out, vib, rho, P, T, refpi.DBETA, pm,
                        "history %s" % (hist,))
                ctx.case((A, B, N, pm, tuple(hist)), out.R is not None)
        ctx.drop(d)


common.main("C01", run, level="exploration",
            rule="a case is one complete sampling run (or one run within a history of reused objects) whose "
                 "drawn paths were all recorded and whose stored ratios were all recomputed",
            required=("weights_compared", "negative_weights_g"),
            assumptions=["lib/refpi.py implements the published discretised weights",
                         "samples whose weights leave the double range are counted, not compared"])
