"""C09: artificial coupled models are exact rotations, tuned from the identity.

Monitor: matrices generated for all supported orders over grids of tuning values; histories of rotations on
model files (generated, supplied, re-used matrices, refused ones) with byte snapshots of the parameter directory
around every call.  Oracle: U M U^T evaluated here, spectra, and the snapshots.
"""
import os
import subprocess
import sys
import json
import numpy as np
import common
import models

PAR = [("energies", 0), ("linear couplings", 1), ("quadratic couplings", 2), ("cubic couplings", 3), ("quartic couplings", 4)]


def snapshot(d):
    out = {}
    for r, _, fs in os.walk(d):
        for f in fs:
            with open(os.path.join(r, f), "rb") as fh:
                out[os.path.relpath(os.path.join(r, f), d)] = fh.read()
    return out


def random_model(rng, A, N, diag, terms):
    m = {"number of modes": N, "number of surfaces": A, "frequencies": np.sort(rng.uniform(0.02, 0.3, N)).tolist()}
    for name, k in PAR:
        if name not in terms:
            continue
        x = rng.uniform(-1, 1, size=(N,) * k + (A, A)) * 10.0 ** (rng.randint(-3, 2) if rng.rand() < 0.85 else rng.randint(-15, -6))
        x = 0.5 * (x + np.swapaxes(x, -1, -2))
        if k == 2:
            x = 0.5 * (x + np.swapaxes(x, 0, 1))
        if k == 4:
            x = 0.5 * (x + x.transpose(1, 0, 3, 2, 4, 5))
        if diag:
            x = x * np.eye(A)
        m[name] = x.tolist()
    return m


def arr(m, name, k, A, N):
    return np.array(m[name], dtype=float) if name in m else np.zeros((N,) * k + (A, A))


def ortho(rng, A):
    q, r = np.linalg.qr(rng.standard_normal((A, A)))
    q = q * np.sign(np.diag(r))
    if rng.rand() < 0.3:
        q[0] = -q[0]
    return q


def check_rotation(ctx, tag, before, after, U, A, N):
    ctx.check(set(after) <= set(before) | {n for n, _ in PAR}, "other-parameters", tag + ": unexpected parameters")
    for k in ("number of modes", "number of surfaces", "frequencies"):
        ctx.check(after.get(k) == before.get(k), "untouched", "%s: %s changed" % (tag, k))
    for name, k in PAR:
        M, G = arr(before, name, k, A, N), arr(after, name, k, A, N)
        if not ctx.check(M.shape == G.shape, "rotation", "%s: %s has shape %s" % (tag, name, G.shape)):
            continue
        R = np.matmul(np.matmul(U, M), U.T)
        s = np.abs(M).max() + 1e-300
        ctx.check(np.abs(G - R).max() <= 1e-9 * s, "rotation", "%s: %s differs from U M U^T by %.2g of its size"
                  % (tag, name, np.abs(G - R).max() / s))
        back = np.matmul(np.matmul(U.T, G), U)
        ctx.check(np.abs(back - M).max() <= 1e-8 * s, "rotate-back", "%s: rotating %s back does not recover it" % (tag, name))
        if np.any(M):
            e1, e2 = np.linalg.eigvalsh(M), np.linalg.eigvalsh(0.5 * (G + np.swapaxes(G, -1, -2)))
            ctx.check(np.abs(e1 - e2).max() <= 1e-8 * s, "spectrum", "%s: spectrum of %s changed" % (tag, name))
            ctx.check(np.abs(G - np.swapaxes(G, -1, -2)).max() <= 1e-9 * s, "symmetry", "%s: %s is not symmetric" % (tag, name))
            ctx.event("parameters_rotated")


def run(ctx):
    vIO, fs = common.load("pibronic.vibronic.vibronic_model_io", "pibronic.data.file_structure")
    create = vIO.create_orthonormal_matrix_lambda_close_to_identity
    digest = {}
    for order in range(2, 11):
        rng = ctx.rng("matrix", order)
        ts = sorted(set([0.0, 1.0, 1e-9, 1e-6, 1e-4, 0.01, 0.5, 0.999999, np.nextafter(1.0, 0)] + [2.0 ** -k for k in range(1, 5)]
                        + rng.uniform(0, 1, ctx.scale(14, 150)).tolist() + (10.0 ** rng.uniform(-6, 0, ctx.scale(8, 60))).tolist()))
        near = [t + rng.uniform(-1, 1) * 10.0 ** -rng.randint(3, 6) for t in ts for _ in range(ctx.scale(1, 2)) if 0.002 < t < 0.998 and rng.rand() < 0.3]
        ts = sorted(set(ts + near))
        last, dist = -1.0, []
        for t in ts:
            t = float(t)
            with ctx.guard("raises", "order %d tuning %r" % (order, t)):
                with common.Quiet():
                    U = create(order, t)
                    V = create(order, t) if ctx.cases % 4 == 0 else U
                tag = "order %d tuning %r" % (order, t)
                ctx.check(U.shape == (order, order) and np.abs(U @ U.T - np.eye(order)).max() < 1e-9
                          and np.abs(U.T @ U - np.eye(order)).max() < 1e-9, "orthonormal", tag + ": not orthonormal")
                ctx.check(np.array_equal(U, V), "deterministic", tag + ": two calls differ")
                if t == 0.0:
                    ctx.check(np.array_equal(U, np.eye(order)), "identity", tag + ": not the identity")
                d = float(np.linalg.norm(U - np.eye(order)))
                ctx.check(d >= last - 1e-9, "monotone", "%s: distance %.12g after %.12g at a smaller value" % (tag, d, last))
                last = max(last, d)
                dist.append(d)
                digest["%d %r" % (order, t)] = U.ravel().tolist()
                U[...] = 5.0                                   # callers may do what they like with their matrix
                ctx.event("matrices")
                ctx.case(("matrix", order, t), t > 0, tag)
                top = float(np.linalg.norm(create(order, 1.0) - np.eye(order))) if t == ts[0] else top
                ctx.check(d <= t * top * (1 + 2e-5) + 1e-7, "fraction", "%s: distance %.9g is more than that fraction of the largest, %.9g"
                          % (tag, d, top))
        if len(dist) == len(ts):
            ctx.check(dist[-1] > 0.3 and dist[-1] > dist[len(dist) // 2] > dist[0], "monotone",
                      "order %d: the distance does not grow (%s)" % (order, dist[:: max(1, len(dist) // 5)]))
        for bad in (-1e-9, 1.0000001, -1, 2, float("nan"), float("inf"), -float("inf")):
            ctx.expect_raise(lambda: create(order, bad), "range", "order %d: tuning value %r was accepted" % (order, bad))
            ctx.event("refusals")
    # the same matrices in another process
    # (asked for in another order, so that a value remembered from an earlier request shows)
    rng = ctx.rng("other process")
    keys = [k for k in digest if k.endswith((" 0.5", " 1.0", " 0.01", " 0.0")) or rng.rand() < 0.6][::-1]
    prog = ("import sys, json; sys.path[:0]=[%r,%r]\nimport common\nv = common.load('pibronic.vibronic.vibronic_model_io')\nout = {}\n"
            "for k in json.loads(sys.argv[1]):\n    o, t = k.split()\n"
            "    out[k] = v.create_orthonormal_matrix_lambda_close_to_identity(int(o), float(t)).ravel().tolist()\n"
            "print(json.dumps(out))\n" % (os.path.join(common.VERIF, "lib"), common.REPO))
    p = subprocess.run([sys.executable, "-W", "ignore", "-c", prog, json.dumps(keys)], capture_output=True,
                       env=dict(os.environ, PYTHONHASHSEED="77"))
    if ctx.check(p.returncode == 0, "raises", "matrices in another process", p.stderr.decode(errors="replace")[-500:]):
        other = json.loads(p.stdout)
        for k in keys:
            ctx.check(other[k] == digest[k], "deterministic", "matrix %s differs in another process" % k)
            ctx.event("matrices_in_other_process")

    n = ctx.scale(90, 1500)
    for i in range(n):
        rng = ctx.rng("history", i)
        root = ctx.scratch()
        A, N = int(rng.randint(2, 6)), int(rng.randint(1, 4))
        if i % 9 == 0:
            A = 10
        if i % 30 == 4:
            A, N = int(rng.choice([3, 8])), int(rng.choice([12, 15]))
        quartic = i % 30 == 17
        if quartic:
            A, N = 2, int(rng.choice([4, 5]))
        hist = []
        with ctx.guard("raises", "history %s" % (hist,)):
            with common.Quiet():
                FS = fs.FileStructure(root, 0, 0)
            pdir = FS.path_vib_params

            def fresh():
                terms = [nm for nm, k in PAR if rng.rand() < (0.9 if k < 2 else 0.5) and (k < 4 or N < 3 or quartic) and (k < 3 or N < 8)]
                if rng.rand() < 0.9 and "energies" not in terms:
                    terms.append("energies")
                with open(FS.path_vib_model, "w") as f:
                    json.dump(random_model(rng, A, N, rng.rand() < 0.5, terms), f)
                if rng.rand() < 0.3:                            # restored from somewhere, with an old time
                    os.utime(FS.path_vib_model, (1e9, 1e9))
            fresh()
            stored = None
            for step in range(int(rng.randint(2, 6))):
                op = rng.choice(["tuning", "supplied", "re-use", "re-use", "new-model", "refuse", "identity"])
                if op == "re-use" and stored is None:
                    op = "supplied"
                hist.append(op)
                tag = "A=%d N=%d history %s" % (A, N, hist)
                before = snapshot(root)
                m0 = json.load(open(FS.path_vib_model))
                if op == "new-model":
                    fresh()
                    continue
                if op == "refuse":
                    U = ortho(rng, A)
                    bad = [U * 1.01, U + 1e-3 * rng.standard_normal((A, A)), np.zeros((A, A)), ortho(rng, A + 1), U[: A - 1],
                           np.ones((A, A)), U[:, : A - 1], "reuse", 3.0, np.eye(A) * 2, U * np.r_[1.001, np.ones(A - 1)], U * np.r_[2.0, 0.5, np.ones(A - 2)],
                           U + 0.3 * U[:, [1]] * (np.arange(A) == 0)][rng.randint(13)]
                    ctx.expect_raise(lambda: vIO.create_fake_coupled_model(FS, transformation_matrix=bad), "not-orthonormal",
                                     tag + ": matrix %s was accepted" % (getattr(bad, "shape", bad),))
                    ctx.check(snapshot(root) == before, "refused-changes", tag + ": a refused matrix changed the model files")
                    if stored is not None:
                        good = open(FS.path_ortho_mat, "rb").read()
                        np.save(FS.path_ortho_mat, [np.eye(A) * 1.1, np.eye(A + 1), np.eye(A - 1)][rng.randint(3)])
                        b2 = snapshot(root)
                        ctx.expect_raise(lambda: vIO.create_fake_coupled_model(FS, transformation_matrix="re-use"),
                                         "not-orthonormal", tag + ": a stored matrix that is not orthonormal or of another size was re-used")
                        ctx.check(snapshot(root) == b2, "refused-changes", tag + ": a refused re-use changed the model files")
                        open(FS.path_ortho_mat, "wb").write(good)
                    bt = float(rng.choice([-0.1, 1.5]))
                    b2 = snapshot(root)
                    ctx.expect_raise(lambda: vIO.create_fake_coupled_model(FS, tuning_parameter=bt), "range",
                                     tag + ": tuning value %r was accepted" % bt)
                    ctx.check(snapshot(root) == b2, "refused-changes", tag + ": a refused tuning value changed the model files")
                    ctx.event("refusals", 2)
                    continue
                with common.Quiet():
                    if op == "tuning":
                        t = float(rng.choice([0.01, 0.1, 0.5, 1.0, rng.rand()]))
                        U = create(A, t)
                        vIO.create_fake_coupled_model(FS, t) if rng.rand() < 0.5 else vIO.create_fake_coupled_model(FS, tuning_parameter=t)
                    elif op == "identity":
                        U = np.eye(A)
                        vIO.create_fake_coupled_model(FS, 0.0)
                    elif op == "supplied":
                        U = ortho(rng, A)
                        keep = U.copy()
                        vIO.create_fake_coupled_model(FS, transformation_matrix=U)
                        ctx.check(np.array_equal(keep, U), "caller-matrix", tag + ": the caller's matrix was modified")
                    else:
                        U = stored
                        vIO.create_fake_coupled_model(FS, transformation_matrix="re-use")
                after = json.load(open(FS.path_vib_model))
                check_rotation(ctx, tag, m0, after, U, A, N)
                rel = os.path.relpath(FS.path_vib_model, root)
                ctx.check(open(FS.path_orig_model, "rb").read() == before[rel], "backup", tag + ": the backup is not the original file")
                M = np.load(FS.path_ortho_mat)
                ctx.check(M.shape == U.shape and np.array_equal(M, U), "stored-matrix", tag + ": the stored matrix is not the one used")
                now = snapshot(root)
                changed = {k for k in set(now) | set(before) if now.get(k) != before.get(k)}
                allowed = {os.path.relpath(x, root) for x in (FS.path_vib_model, FS.path_orig_model, FS.path_ortho_mat)}
                ctx.check(changed <= allowed, "other-files", tag + ": also changed %s" % sorted(changed - allowed))
                stored = np.array(U)
                ctx.event("rotations_" + op)
            ctx.case((A, N, tuple(hist), i), True, "A=%d N=%d %s" % (A, N, hist))
        ctx.drop(root)


common.main("C09", run, level="exploration",
            rule="a case is one (order, tuning) matrix, or one history of rotations/refusals on model files",
            required=("matrices", "refusals", "parameters_rotated", "rotations_tuning", "rotations_supplied",
                      "rotations_re-use", "rotations_identity", "matrices_in_other_process"))
