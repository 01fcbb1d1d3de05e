"""C03: every requested sample is computed once, from its own path, and saved under its own name.

Monitor: complete runs (job numbers, temperatures, beads, block layouts) into shared directories; every
path handed to the weight evaluation is recorded per block, the result arrays are compared with what these
paths weigh, the files with the arrays, and at the end of every history the whole directory with the log of
all runs (nothing lost, nothing overwritten, nothing else written).
"""
import os
import re
import numpy as np
import common
import drive
import models
import refpi

NAME = re.compile(r"^P(\d+)_T(\d+\.\d\d)_J(\d+)_data_points\.npz$")


def arrays_of(res, pm):
    out = dict(s_rho=res.scaled_rho, s_g=res.scaled_g)
    if pm:
        out.update(s_gP=res.scaled_gofr_plus, s_gM=res.scaled_gofr_minus)
    return {k: np.array(v, dtype=float) for k, v in out.items()}


def check_run(ctx, tag, out, FS, vib, rho, P, T, X, pm, db=refpi.DBETA):
    arr = arrays_of(out.result, pm)
    for k, v in arr.items():
        ctx.check(v.shape == (X,), "count", "%s: %s holds %s values, %d samples were requested"
                  % (tag, k, v.shape, X))
        ctx.check(bool(np.all(np.isfinite(v))), "unset", "%s: %d of %d values of %s are not finite"
                  % (tag, int((~np.isfinite(v)).sum()), X, k))
        if X >= 6 and v.shape == (X,):
            # a double carries 53 bits: six different values that all fit in 24 do not occur, they were truncated
            w = v[np.isfinite(v) & (v != 0) & (np.abs(v) > 1e-30) & (np.abs(v) < 1e30)]
            lossy = len(set(w.tolist())) >= 6 and bool(np.all(w == w.astype(np.float32).astype(float)))
            ctx.check(not lossy, "precision", "%s: %s was truncated to single precision" % (tag, k))
            ctx.event("arrays_checked_for_precision")
    if out.R is None:
        return arr
    ctx.event("runs_observed")
    ctx.check(len({r.tobytes() for r in out.R}) == X, "fresh-path",
              "%s: the %d samples use only %d different paths" % (tag, X, len({r.tobytes() for r in out.R})))
    if all(v.shape == (X,) for v in arr.values()) and len(out.R) == X:
        beta = refpi.beta_of(T)
        lr = refpi.rho_log(out.R, rho, beta / P)
        for k, sh in (("s_g", 0.0),) + ((("s_gP", db), ("s_gM", -db)) if pm else ()):
            sg, lg, la = refpi.g_weights(out.R, vib, (beta + sh) / P)
            ref, sc = sg * np.exp(lg - lr), np.exp(la - lr)
            with np.errstate(all="ignore"):
                bad = ~(np.abs(arr[k] / arr["s_rho"] - ref) <= 1e-7 * sc)
            ctx.event("rows_compared", X)
            ctx.check(not bad.any(), "own-path", "%s: %d of %d stored %s are not those of their own path (first: %s)"
                      % (tag, int(bad.sum()), X, k, np.nonzero(bad)[0][:5].tolist()))
    return arr


def check_file(ctx, tag, path, arr, FS_hash, X, pm):
    if not ctx.check(os.path.isfile(path), "file-missing", "%s: no result file %s" % (tag, os.path.basename(path))):
        return
    with np.load(path) as z:
        keys = set(z.keys())
        want = {"hash_vib", "hash_rho", "number_of_samples"} | set(arr)
        ctx.check(want <= keys, "file-keys", "%s: file lacks %s" % (tag, sorted(want - keys)))
        if want <= keys:
            ctx.check(int(z["number_of_samples"]) == X, "file-count", "%s: file says %s samples, the run has %d"
                      % (tag, z["number_of_samples"], X))
            for k, v in arr.items():
                ctx.check(z[k].shape == (X,) and np.array_equal(z[k], v), "file-values",
                          "%s: %s in the file is not what the run computed" % (tag, k))
            ctx.check((str(z["hash_vib"]), str(z["hash_rho"])) == FS_hash, "file-hash",
                      "%s: file carries other fingerprints" % tag)
    ctx.event("files_checked")


def check_load(ctx, tag, pimc, path, arr, X, pm):
    for cls, keys in ((pimc.BoxResultPM, list(arr)),) * pm + ((pimc.BoxResult, ["s_rho", "s_g"]),):
        for preset in (None, X):
            with common.Quiet():
                r = cls() if preset is None else cls(X=preset)
                r.load_results(path)
            got = arrays_of(r, cls is pimc.BoxResultPM)
            ctx.check(all(np.array_equal(got[k], arr[k]) for k in keys) and r.samples == X, "load",
                      "%s: loading with %s does not restore the arrays" % (tag, cls.__name__))
            ctx.event("loads_checked")
        ctx.check(int(cls.read_number_of_samples(path)) == X, "load", tag + ": read_number_of_samples is wrong")
        ctx.expect_raise(lambda: cls(X=X + 1).load_results(path), "load-size",
                         tag + ": a file with %d samples was loaded into a result of %d" % (X, X + 1))


def run(ctx):
    pimc = common.load("pibronic.pimc.pimc")
    n = ctx.scale(36, 500)
    for i in range(n):
        rng = ctx.rng("dir", i)
        A, B, N = int(rng.choice([1, 2, 3])), int(rng.choice([1, 2, 3])), int(rng.choice([1, 2, 3]))
        vib, rho = models.coupled(rng, A, N, lin_scale=0.6), models.diagonal(rng, B, N, lin_scale=0.5)
        d = ctx.scratch()
        ctx.seed_globals("dir", i)
        log = {}
        Ts = [float(x) for x in rng.choice([300.0, 300.01, 300.1, 30.0, 3000.0, 299.99, 77.35, 250.0, 100.25], 3,
                                           replace=False)]
        Ps = [int(x) for x in rng.choice([3, 4, 5, 11, 31, 12, 10], 3, replace=False)]
        data = {}
        with ctx.guard("run-raises", "run of history %d" % i):
            FS = drive.make_fs(d, vib, rho)
            want = (FS.hash_vib, FS.hash_rho)
            for step in range(8):
                P, T = Ps[rng.randint(3)], Ts[rng.randint(3)]
                job = [0, 1, 10, 11, 110, 111, 2147483647, 31, 1001, 65537, 110111, 10110111][rng.randint(12)]
                blocks, bs = int(rng.choice([1, 2, 3, 7])), int(rng.choice([1, 2, 5, 10]))
                if step == 3:
                    blocks, bs = [(8, 16), (2, 64), (30, 5), (1, 130), (130, 1), (3, 100)][i % 6]
                X = blocks * bs
                pm = bool(rng.rand() < 0.65)
                how = int(rng.randint(4))
                jobarg = [job, str(job), job, job][how]
                reuse = data.get((P, T, pm)) if rng.rand() < 0.4 else None
                if reuse is not None:
                    dat, blocks, bs = reuse
                    X = blocks * bs
                    out = drive.run(FS, pm, A, N, P, T, blocks, bs, job=jobarg, data=dat, preprocess=False)
                else:
                    out = drive.run(FS, pm, A, N, P, T, blocks, bs, job=jobarg)
                    data[(P, T, pm)] = (out.data, blocks, bs)
                tag = "history %d step %d: P=%d T=%.2f J=%d %dx%d pm=%s" % (i, step, P, T, job, blocks, bs, pm)
                arr = check_run(ctx, tag, out, FS, vib, rho, P, T, X, pm)
                log[(P, "%.2f" % T, job)] = (arr, X, pm, tag)
                path = os.path.join(FS.path_rho_results, "P%d_T%.2f_J%d_data_points.npz" % (P, T, job))
                check_file(ctx, tag, path, arr, want, X, pm)
                if os.path.isfile(path):
                    check_load(ctx, tag, pimc, path, arr, X, pm)
                ctx.check(os.path.realpath(out.result.compute_path_to_file()) == os.path.realpath(path), "name",
                          tag + ": path is %s" % out.result.compute_path_to_file())
                ctx.case((A, B, N, P, T, job, blocks, bs, pm, reuse is not None), True, tag)
            # the directory as a whole against the log of runs
            files = {}
            for f in sorted(os.listdir(FS.path_rho_results)):
                p = os.path.join(FS.path_rho_results, f)
                if os.path.isdir(p):
                    continue
                m = NAME.match(f)
                if ctx.check(m is not None, "name", "history %d: unexpected file %s" % (i, f)):
                    files[(int(m.group(1)), m.group(2), int(m.group(3)))] = p
            ctx.check(set(files) == set(log), "directory", "history %d: runs %s but files %s"
                      % (i, sorted(set(log) - set(files)), sorted(set(files) - set(log))))
            for k in set(files) & set(log):
                arr, X, pm, tag = log[k]
                check_file(ctx, tag + " (at the end)", files[k], arr, want, X, pm)
            ctx.event("directories_audited")
            vals = [v for arr, X, pm, _ in log.values() for v in (arr["s_g"] / arr["s_rho"]).tolist()]
            ctx.check(len(set(vals)) == len(vals), "fresh-path",
                      "history %d: samples repeat across runs" % i)
        ctx.drop(d)

    # many blocks / large blocks: nothing left unset anywhere
    for i, (blocks, bs) in enumerate([(100, 1), (1, 100), (37, 3), (64, 16), (5, 200)] * ctx.scale(1, 8)):
        rng = ctx.rng("big", i)
        pm = bool(i % 2)
        vib, rho = models.coupled(rng, 2, 2, lin_scale=0.5), models.diagonal(rng, 3, 2, lin_scale=0.5)
        d = ctx.scratch()
        ctx.seed_globals("big", i)
        with ctx.guard("run-raises", "%d blocks of %d" % (blocks, bs)):
            FS = drive.make_fs(d, vib, rho)
            out = drive.run(FS, pm, 2, 2, 4, 300.0, blocks, bs, job=7)
            tag = "%d blocks of %d pm=%s" % (blocks, bs, pm)
            arr = check_run(ctx, tag, out, FS, vib, rho, 4, 300.0, blocks * bs, pm)
            path = os.path.join(FS.path_rho_results, "P4_T300.00_J7_data_points.npz")
            check_file(ctx, tag, path, arr, (FS.hash_vib, FS.hash_rho), blocks * bs, pm)
            ctx.case(("big", blocks, bs, pm), True, tag)
        ctx.drop(d)

    # sample counts that are not a whole number of blocks: an error, or a file of computed samples only
    for i in range(ctx.scale(40, 300)):
        rng = ctx.rng("partial", i)
        bs, blocks = int(rng.choice([1, 2, 3, 5, 10])), int(rng.choice([1, 2, 3, 5]))
        samples = blocks * bs + int(rng.randint(-bs + 1, 2 * bs + 1))
        if samples == blocks * bs or samples < 1:
            samples = blocks * bs + 1
        pm = bool(i % 2)
        vib, rho = models.coupled(rng, 2, 2, lin_scale=0.5), models.diagonal(rng, 2, 2, lin_scale=0.5)
        d = ctx.scratch()
        ctx.seed_globals("partial", i)
        tag = "samples=%d blocks=%d block_size=%d pm=%s" % (samples, blocks, bs, pm)
        FS = drive.make_fs(d, vib, rho)
        try:
            drive.run(FS, pm, 2, 2, 4, 300.0, blocks, bs, samples=samples)
            ctx.event("partial_runs_completed")
        except Exception:
            ctx.event("partial_runs_refused")
        for f in os.listdir(FS.path_rho_results):
            p = os.path.join(FS.path_rho_results, f)
            if not os.path.isfile(p):
                continue
            ctx.event("partial_files_checked")
            with np.load(p) as z:
                k = int(z["number_of_samples"])
                for key in ("s_rho", "s_g") + (("s_gP", "s_gM") if pm else ()):
                    ctx.check(z[key].shape == (k,) and bool(np.all(np.isfinite(z[key]))) and k >= 1, "partial-unset",
                              "%s: the file declares %d samples, %s has %s values of which %d are not set"
                              % (tag, k, key, z[key].shape, int((~np.isfinite(z[key])).sum())))
                ctx.check(k <= max(samples, blocks * bs), "partial-unset", "%s: file has %d samples" % (tag, k))
        ctx.case(("partial", samples, blocks, bs, pm), True, tag)
        ctx.drop(d)

    # results without fingerprints are not saved
    d = ctx.scratch()
    rng = ctx.rng("nohash")
    vib, rho = models.coupled(rng, 2, 1), models.diagonal(rng, 2, 1)
    for pm in (False, True):
        with ctx.guard("run-raises", "fingerprint test"):
            FS = drive.make_fs(d, vib, rho)
            for missing in ("hash_vib", "hash_rho"):
                data = drive.make_data(FS, pm, 2, 1, 4, 300.0, 1, 4)
                setattr(data, missing, None)
                ctx.expect_raise(lambda: drive.run(FS, pm, 2, 1, 4, 300.0, 1, 4, job=5, data=data), "no-hash",
                                 "a result without %s was saved" % missing)
                ctx.case(("nohash", pm, missing))


common.main("C03", run, level="exploration",
            rule="a case is one complete run (parameters, job, block layout, reuse of objects) whose arrays, file and "
                 "directory were audited",
            required=("runs_observed", "rows_compared", "files_checked", "loads_checked", "directories_audited",
                      "partial_files_checked"),
            assumptions=["lib/refpi.py decides which path a stored weight belongs to"])
