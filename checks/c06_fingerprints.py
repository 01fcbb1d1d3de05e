"""C06: results are combined and reported only for the models that produced them.

Monitor: histories of model edits, sampling runs (through the job's own textual parameters), restores of older
models, deletions, analytic reference files and analyses, interleaved over two sampling sets; a log records for
every result file which contents of both model files produced it.  After every analysis the monitor decides from
the log which samples may appear in which output and compares count, partition function ratio and fingerprints.
"""
import hashlib
import json
import os
import re
import shutil
import numpy as np
import common
import drive
import histories
import models

THERMO = re.compile(r"^P(\d+)_T(\d+\.\d\d)_X(\d+)_thermo$")


def content(path):
    with open(path, "rb") as f:
        return f.read()


def job_run(FS_root, idd, idr, A, N, P, T, blocks, bs, job, pm=True):
    """a run as the job script does it: parameters in textual form, everything else from disk"""
    pimc = common.load("pibronic.pimc.pimc")
    fs = common.load("pibronic.data.file_structure")
    params = {"number_of_samples": blocks * bs, "number_of_blocks": blocks, "number_of_states": A,
              "number_of_beads": P, "number_of_modes": N, "temperature": T, "block_size": bs,
              "id_data": idd, "id_rho": idr, "path_root": FS_root}
    with common.Quiet():
        data = pimc.BoxDataPM.from_json_string(pimc.BoxDataPM.json_serialize(params))
        data.preprocess()
        res = pimc.BoxResultPM(data=data)
        FS = fs.FileStructure(FS_root, idd, idr)
        res.path_root = FS.path_rho_results
        res.id_job = job
        pimc.block_compute_pm(data, res)
    return np.array(res.scaled_g) / np.array(res.scaled_rho)


def fingerprints(ctx):
    vIO = common.load("pibronic.vibronic.vibronic_model_io")
    d = ctx.scratch()
    rng = ctx.rng("hash")
    seen = {}
    for i in range(ctx.scale(60, 600)):
        diag = bool(i % 2)
        A, N = int(rng.randint(1, 4)), int(rng.randint(1, 4))
        if i % 10 == 4:
            A, N = 8, 40                                     # some megabytes
        m = models.diagonal(rng, A, N) if diag else models.coupled(rng, A, N, quad_scale=0.1)
        fn = vIO.create_diagonal_model_hash if diag else vIO.create_model_hash
        path = os.path.join(d, "a.json")
        models.write_json(path, m)
        text = open(path).read()
        variants = [text]
        for _ in range(6):
            t = text
            k = [j for j, c in enumerate(t) if c.isdigit()]
            j = k[rng.randint(len(k))]
            variants.append(t[:j] + str((int(t[j]) + 1 + rng.randint(9)) % 10) + t[j + 1:])
        k = [j for j, c in enumerate(text) if c.isdigit()]
        variants += [text[:k[-1]] + str((int(text[k[-1]]) + 1) % 10) + text[k[-1] + 1:],
                     text[:k[0]] + str((int(text[k[0]]) + 1) % 10) + text[k[0] + 1:],
                     text.replace("0.", "-0.", 1)]
        hashes = {}
        for t in dict.fromkeys(variants):
            other = os.path.join(d, "dir%d" % (len(hashes) % 3))
            os.makedirs(other, exist_ok=True)
            p2 = os.path.join(other, "other_name.json")
            for p in (path, p2):
                with open(p, "w") as f:
                    f.write(t)
            with common.Quiet():
                h1, h2, h3 = fn(path=path), fn(path=p2), fn(path=path)
            ctx.check(h1 == h2 == h3 and isinstance(h1, str) and len(h1) > 0, "hash-function",
                      "the fingerprint is not a function of the file's content")
            ctx.check(h1 not in hashes, "hash-collision", "two different model files have the same fingerprint",
                      dict(a=hashes.get(h1), b=t))
            hashes[h1] = t
            ctx.event("fingerprints_compared")
        for h, t in hashes.items():
            ctx.check(seen.setdefault(h, t) == t, "hash-collision", "fingerprint of two different contents")
        ctx.case(("hash", text), True)
    # large models: one digit anywhere in a long file
    for i in range(ctx.scale(10, 60)):
        diag = bool(i % 2)
        A, N = (int(rng.randint(12, 40)), int(rng.randint(30, 60))) if diag else (int(rng.randint(2, 9)), int(rng.randint(12, 24)))
        if i % 10 == 4:
            A, N = 8, 40                                     # some megabytes
        m = models.diagonal(rng, A, N) if diag else models.coupled(rng, A, N, quad_scale=0.1)
        fn = vIO.create_diagonal_model_hash if diag else vIO.create_model_hash
        path = os.path.join(d, "big.json")
        models.write_json(path, m)
        text = open(path).read()
        k = [j for j, c in enumerate(text) if c.isdigit()]
        hashes = {}
        for j in [None, k[-1], k[0], k[len(k) // 2]] + [k[rng.randint(len(k))] for _ in range(8)]:
            t = text if j is None else text[:j] + str((int(text[j]) + 1 + rng.randint(9)) % 10) + text[j + 1:]
            with open(path, "w") as f:
                f.write(t)
            with common.Quiet():
                h = fn(path=path)
            ctx.check(hashes.setdefault(h, t) == t, "hash-collision",
                      "two files of %d characters which differ in character %s have the same fingerprint" % (len(t), j))
            ctx.event("large_fingerprints_compared")
        ctx.case(("hash", A, N, diag, i), True, "%d characters" % len(text))
    ctx.drop(d)


def one_off(h, rng):
    """h with one character changed"""
    k = rng.randint(len(h))
    return h[:k] + ("0" if h[k] != "0" else "1") + h[k + 1:]


def pruning(ctx):
    fs, pp = common.load("pibronic.data.file_structure", "pibronic.data.postprocessing")
    for i in range(ctx.scale(60, 600)):
        rng = ctx.rng("prune", i)
        d = ctx.scratch()
        with ctx.guard("raises", "prune %d" % i):
            FS = drive.make_fs(d, models.coupled(rng, 2, 2), models.diagonal(rng, 2, 2), *[(0, 0), (3, 1), (0, 2)][i % 3])
            hv, hr = FS.hash_vib, FS.hash_rho

            def near(h):
                k = rng.randint(len(h))
                return [h[:k] + ("0" if h[k] != "0" else "1") + h[k + 1:], h[:-1], h + "0", h[:8], h.upper() + "x",
                        h[::-1] + "y", ""][rng.randint(7)]
            want, lst = [], []
            for j in range(int(rng.randint(1, 10))):
                kind = rng.randint(7)
                a, b = [(hv, hr), (hv, hr), (near(hv), hr), (hv, near(hr)), (hr, hv), (near(hv), near(hr)), (None, None)][kind]
                if rng.rand() < 0.5:
                    p = FS.path_rho_results + "P4_T300.00_J%d_data_points.npz" % j
                    kw = dict(number_of_samples=2, s_g=np.ones(2), s_rho=np.ones(2))
                    if a is not None:
                        kw.update(hash_vib=a, hash_rho=b)
                    elif rng.rand() < 0.5:
                        kw.update([("hash_vib", hv), ("hash_rho", hr)][rng.randint(2)] for _ in range(1))
                    np.savez(p, **kw)
                else:
                    p = FS.path_rho_results + "P4_T300.00_X%d_thermo" % j
                    kw = dict(E=1.0)
                    if a is not None:
                        kw.update(hash_vib=a, hash_rho=b)
                    elif rng.rand() < 0.5:
                        kw.update([("hash_vib", hv), ("hash_rho", hr)][rng.randint(2)] for _ in range(1))
                    json.dump(kw, open(p, "w"))
                lst.append(p)
                if kind < 2:
                    want.append(p)
            given = [lst[k] for k in rng.permutation(len(lst))]
            with common.Quiet():
                got = pp.prune_results_using_hashes(FS, list(given))
            ctx.check(sorted(got) == sorted(want), "prune", "selecting by fingerprint kept %s, expected %s"
                      % ([os.path.basename(x) for x in got], [os.path.basename(x) for x in want]))
            for md, v, r in (({"hash_vib": hv, "hash_rho": hr}, True, True), ({"hash_vib": near(hv), "hash_rho": hr}, False, True),
                             ({"hash_vib": hv, "hash_rho": near(hr)}, True, False), ({"hash_vib": hr, "hash_rho": hv}, False, False)):
                ctx.check(FS.valid_vib_hash(md) is v and FS.valid_rho_hash(md) is r and bool(FS.valid_vib_and_rho_hashes(md)) is (v and r),
                          "validity", "fingerprint validity query is wrong")
            ctx.event("selections")
        ctx.case(("prune", i))
        ctx.drop(d)


def run(ctx):
    fs, pp, vIO = common.load("pibronic.data.file_structure", "pibronic.data.postprocessing",
                              "pibronic.vibronic.vibronic_model_io")
    pimc = common.load("pibronic.pimc.pimc")
    fingerprints(ctx)
    pruning(ctx)

    n = ctx.scale(60, 900)
    for i in range(n):
        rng = ctx.rng("history", i)
        ctx.seed_globals("history", i)
        root = ctx.scratch()
        A, N = 2, int(rng.choice([1, 2]))
        vibs = [models.coupled(rng, A, N, lin_scale=0.4) for _ in range(3)]
        rhos = [models.diagonal(rng, int(rng.choice([2, 2, 3])), N, lin_scale=0.4) for _ in range(3)]
        # a minimal edit as well: one digit far behind the point
        vibs[1] = {k: (v.copy() if hasattr(v, "copy") else v) for k, v in vibs[0].items()}
        vibs[1]["E"][0, 0] = np.nextafter(vibs[0]["E"][0, 0], 9)
        log, hist = {}, []                      # (idr, P, T, job) -> (vib content, rho content, ratios)
        cur = {}
        hash_of = {}
        with ctx.guard("raises", "history %d: %s" % (i, hist)):
            FS = {r: fs.FileStructure(root, 0, r) for r in (0, 1)}
            keepers = {r: FS[r] for r in FS}    # long-lived objects of a session

            def put(which, r=None):
                if which == "vib":
                    models.write_json(FS[0].path_vib_model, vibs[rng.randint(3)])
                else:
                    models.write_json(FS[r].path_rho_model, rhos[rng.randint(3)])

            put("vib"), put("rho", 0), put("rho", 1)

            def now(r):
                return content(FS[r].path_vib_model), content(FS[r].path_rho_model)

            for step in range(int(rng.randint(12, 28))):
                r = int(rng.rand() < 0.3)
                op = rng.choice(["run"] * 6 + ["vib", "vib", "rho", "analyse", "analyse", "delete", "stale"])
                hist.append((op, r))
                if op in ("vib", "rho"):
                    put(op, r)
                elif op == "run":
                    P, T, J = int(rng.choice([3, 4])), float(rng.choice([300.0, 300.0, 250.5])), int(rng.randint(8))
                    blocks, bs = 1, int(rng.randint(2, 6))
                    ratios = job_run(root, 0, r, A, N, P, T, blocks, bs, J)
                    log[(r, P, "%.2f" % T, J)] = now(r) + (ratios,)
                    f = FS[r].path_rho_results + "P%d_T%.2f_J%d_data_points.npz" % (P, T, J)
                    with np.load(f) as z:
                        hv, hr = str(z["hash_vib"]), str(z["hash_rho"])
                    for side, h, c in (("vib", hv, now(r)[0]), ("rho", hr, now(r)[1])):
                        ctx.check(hash_of.setdefault((side, h), c) == c, "wrong-fingerprint",
                                  "history %s: a result file carries the fingerprint of another %s model" % (hist, side))
                    ctx.event("runs")
                elif op == "delete":
                    ks = [k for k in log if k[0] == r]
                    if ks:
                        k = ks[rng.randint(len(ks))]
                        os.remove(FS[r].path_rho_results + "P%d_T%s_J%d_data_points.npz" % k[1:])
                        del log[k]
                else:
                    vc, rc = now(r)
                    if step % 3 == 0:           # an object switched from the other sampling set
                        F = fs.FileStructure(root, 0, 1 - r)
                        with common.Quiet():
                            if step % 2:
                                F.generate_model_hashes()
                            F.change_rho(r)
                            F.generate_model_hashes()
                        ctx.event("switched_objects")
                    elif op == "stale":         # an object of the session, whose fingerprints are refreshed
                        F = keepers[r]
                        with common.Quiet():
                            F.generate_model_hashes(True)
                    else:
                        F = fs.FileStructure(root, 0, r)
                        with common.Quiet():
                            F.generate_model_hashes()
                    ctx.check(F.hash_vib == vIO.create_model_hash(path=F.path_vib_model)
                              and F.hash_rho == vIO.create_diagonal_model_hash(path=F.path_rho_model),
                              "stale-fingerprint", "history %s: refreshed fingerprints are not those of the files" % hist)
                    table = {T: dict(Z=2.0, E=0.5, Cv=0.25, Zp=1.99, Zm=2.01) for T in (300.0, 250.5)}
                    histories.write_analytic(F, F.hash_vib, F.hash_rho, table)
                    want = {}
                    for (rr, P, T, J), (v, q, ratios) in log.items():
                        if rr == r and v == vc and q == rc:
                            want.setdefault((P, T), []).append(ratios)
                    for f in os.listdir(F.path_rho_results):
                        if f.endswith("thermo") and rng.rand() < 0.5:
                            os.remove(F.path_rho_results + f)
                    kind, method = rng.choice(["plain", "jackknife"]), rng.choice(["basic", "alpha"])
                    histories.analyse(F, kind, method, real_pool=bool(i % 12 == 0))
                    got = {}
                    for name, out in histories.thermo_files(F).items():
                        m = THERMO.match(name)
                        if out.get("hash_vib") == F.hash_vib and out.get("hash_rho") == F.hash_rho:
                            got.setdefault((int(m.group(1)), m.group(2)), []).append((int(m.group(3)), out))
                    for k, lst in want.items():
                        allr = np.concatenate(lst)
                        ok = [o for x, o in got.get(k, []) if x == len(allr) and abs(o["Z"] - allr.mean()) <= 1e-9 * abs(allr.mean())]
                        ctx.check(ok, "analysis", "history %s: no output for %s combines exactly the %d samples of the current models; "
                                  "outputs with the current fingerprints: %s (expected Z=%r)"
                                  % (hist, k, len(allr), [(x, o["Z"]) for x, o in got.get(k, [])], allr.mean()))
                        ctx.event("outputs_matched")
                    # nothing else may carry the current fingerprints, unless it was right when it was written
                    for k, lst in got.items():
                        for x, o in lst:
                            key = (r, vc, rc) + k + (x, round(o["Z"], 12))
                            exp = np.concatenate(want[k]) if k in want else np.array([])
                            fine = len(exp) == x and x > 0 and abs(o["Z"] - exp.mean()) <= 1e-9 * abs(exp.mean())
                            if fine:
                                ctx.notes.setdefault("_legit", set()).add((i,) + key)
                            elif (i,) + key not in ctx.notes.get("_legit", set()):
                                ctx.violation("alien-samples", "history %s: the output P=%s T=%s X=%d carries the current fingerprints "
                                              "but its Z=%r is not that of samples of these models" % (hist, k[0], k[1], x, o["Z"]))
                    ctx.event("analyses")
                    if len({c[:2] for kk, c in log.items() if kk[0] == r}) > 1:
                        ctx.event("analyses_with_foreign_samples_present")
                    # direct load as well
                    for k in want:
                        res = pimc.BoxResultPM()
                        with common.Quiet():
                            pp.load_pimc_data(F, k[0], float(k[1]), res)
                        allr = np.sort(np.concatenate(want[k]))
                        gotr = np.sort(np.asarray(res.scaled_g) / np.asarray(res.scaled_rho))
                        ctx.check(gotr.shape == allr.shape and np.array_equal(gotr, allr), "load",
                                  "history %s: load_pimc_data for %s mixes samples of other models" % (hist, k))
                    # reference data of other models are refused
                    for bad in (dict(hv=F.hash_vib[::-1] + "0"), dict(hr=F.hash_rho[::-1] + "0"), dict(hv=one_off(F.hash_vib, rng)),
                                dict(hr=one_off(F.hash_rho, rng)), dict(hv=F.hash_vib[:-1]), dict(hr=F.hash_rho + "0"), "hash_vib", "hash_rho"):
                        if isinstance(bad, str):        # without one of the fingerprints
                            histories.write_analytic(F, F.hash_vib, F.hash_rho, table)
                            with open(F.path_analytic_rho) as f:
                                x = json.load(f)
                            del x[bad]
                            with open(F.path_analytic_rho, "w") as f:
                                json.dump(x, f)
                        else:
                            histories.write_analytic(F, bad.get("hv", F.hash_vib), bad.get("hr", F.hash_rho), table)
                        ctx.expect_raise(lambda: pp.load_analytic_data(F, 300.0, {}), "foreign-analytic",
                                         "analytic reference data of other models were accepted")
                        if want:
                            before = histories.thermo_files(F)
                            ctx.expect_raise(lambda: histories.analyse(F, kind, method), "foreign-analytic",
                                             "an analysis used analytic reference data of other models")
                            ctx.check(histories.thermo_files(F) == before, "foreign-analytic",
                                      "a refused analysis changed outputs")
                        ctx.event("foreign_analytic_refused")
                    histories.write_analytic(F, F.hash_vib, F.hash_rho, table)
                    got = {}
                    with common.Quiet():
                        pp.load_analytic_data(F, 300.0, got)
                    ctx.check(got.get("E") == 0.5 and got.get("Z") == 2.0, "analytic", "valid analytic data were not loaded")
        ctx.case(tuple(hist), True, str(hist))
        ctx.drop(root)
    ctx.notes.pop("_legit", None)


common.main("C06", run, level="exploration",
            rule="a case is a history of edits, runs, deletions and analyses over two sampling sets, or one set of "
                 "files selected by fingerprint, or one family of model file contents",
            required=("runs", "analyses", "outputs_matched", "analyses_with_foreign_samples_present", "selections",
                      "fingerprints_compared", "foreign_analytic_refused"),
            assumptions=["a session refreshes the fingerprints of a directory object after it edits a model "
                         "(generate_model_hashes(True)), or uses a new object, as every job does"])
