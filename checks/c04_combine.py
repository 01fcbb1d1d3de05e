"""C04: combining result files.

Every generated sample carries its identity in its values (file id, row id), separately encoded in the
numerator, denominator and both shifted numerators, so that the monitor can read off any loaded array which
sample of which file each entry is, and whether the four quantities of a row belong together.
"""
import json
import os
import subprocess
import sys
import numpy as np
import common
import drive
import models

OFF = dict(s_rho=0.25, s_g=0.5, s_gP=0.125, s_gM=0.375)


def encode(fid, n):
    base = fid * 100000.0 + np.arange(n) + 1.0
    return {k: base + o for k, o in OFF.items()}


def write(path, fid, n, keys=("s_rho", "s_g", "s_gP", "s_gM"), drop_n=False, hv="v", hr="r", zero=None):
    d = encode(fid, n)
    if zero is not None:
        d["s_rho"][zero] = 0.0
    d = {k: d[k] for k in keys}
    if not drop_n:
        d["number_of_samples"] = n
    np.savez(path, hash_vib=hv, hash_rho=hr, **d)
    return path


def decode(res, pm):
    """list of (file, row) per index; None entries when a row is not consistent"""
    cols = [("s_rho", res.scaled_rho), ("s_g", res.scaled_g)]
    if pm:
        cols += [("s_gP", res.scaled_gofr_plus), ("s_gM", res.scaled_gofr_minus)]
    ids = []
    for k, a in cols:
        a = np.asarray(a, dtype=float)
        ids.append(a - OFF[k])
    n = {len(a) for a in ids}
    if len(n) != 1:
        return None
    out = []
    for row in zip(*ids):
        if not all(np.isfinite(x) and x == row[0] and x == int(x) for x in row):
            out.append(None)
        else:
            out.append((int(row[0]) // 100000, int(row[0]) % 100000 - 1))
    return out


def audit(ctx, tag, res, pm, files, limit, data=None):
    """files: {fid: n} of the usable files"""
    total = sum(files.values())
    want = total if limit is None else min(limit, total)
    got = decode(res, pm)
    ctx.event("loads_audited")
    if not ctx.check(got is not None, "alignment", tag + ": the arrays have different lengths", data):
        return None
    bad = [i for i, g in enumerate(got) if g is None]
    ctx.check(not bad, "alignment", "%s: %d rows are unset or mix samples (first index %s)" % (tag, len(bad), bad[:3]), data)
    ctx.check(len(got) == want, "count", "%s: %d samples loaded, expected %d of %d" % (tag, len(got), want, total), data)
    ctx.check(int(res.samples) == len(got), "count", "%s: samples says %s, arrays hold %d" % (tag, res.samples, len(got)), data)
    good = [g for g in got if g is not None]
    ctx.check(len(set(good)) == len(good), "repeated", "%s: %d samples are used more than once"
              % (tag, len(good) - len(set(good))), data)
    alien = [g for g in good if g[0] not in files or not 0 <= g[1] < files[g[0]]]
    ctx.check(not alien, "alien", "%s: samples %s do not belong to a usable file" % (tag, alien[:3]), data)
    ctx.event("samples_identified", len(good))
    return good


def run(ctx):
    pimc, pp = common.load("pibronic.pimc.pimc", "pibronic.data.postprocessing")
    n = ctx.scale(500, 8000)
    for i in range(n):
        rng = ctx.rng("combine", i)
        d = ctx.scratch()
        nf = int(rng.choice([1, 2, 3, 4, 6, 9]))
        usable_pm, usable, paths, zero_at = {}, {}, [], None
        for f in range(1, nf + 1):
            m = int(rng.choice([1, 2, 3, 7, 10, 33]))
            kind = rng.choice(["pm"] * 6 + ["plain"] * 2 + ["no_rho", "no_g", "no_n", "no_gP", "no_gM"])
            keys = dict(pm=("s_rho", "s_g", "s_gP", "s_gM"), plain=("s_rho", "s_g"), no_rho=("s_g", "s_gP", "s_gM"),
                        no_g=("s_rho", "s_gP", "s_gM"), no_n=("s_rho", "s_g", "s_gP", "s_gM"),
                        no_gP=("s_rho", "s_g", "s_gM"), no_gM=("s_rho", "s_g", "s_gP"))[kind]
            # now and then files of several directories, some of which have the same name
            where = os.path.join(d, "set%d" % (f % 2)) if i % 7 == 3 else d
            os.makedirs(where, exist_ok=True)
            paths.append(write(os.path.join(where, "P4_T300.00_J%d_data_points.npz" % (f // 2 if i % 7 == 3 else f)), f, m, keys,
                               kind == "no_n"))
            if kind == "pm":
                usable_pm[f] = m
            if kind in ("pm", "plain", "no_gP", "no_gM"):
                usable[f] = m
        order = list(rng.permutation(len(paths)))
        lst = [paths[k] for k in order]
        dup = rng.rand() < 0.35
        if dup:
            for k in rng.randint(0, len(paths), size=rng.randint(1, 4)):
                lst.insert(int(rng.randint(0, len(lst) + 1)), paths[k])
        pm = bool(rng.rand() < 0.6)
        files = usable_pm if pm else usable
        total = sum(files.values())
        edges = [int(x) for x in np.cumsum([files.get(k + 1, 0) for k in order])]
        mode = i % 6
        limit = None
        if mode and total:
            limit = max(1, [total, total + 5, int(rng.randint(1, total + 1)),
                            edges[rng.randint(len(edges))], edges[rng.randint(len(edges))] + int(rng.choice([-1, 1]))][mode - 1])
        cls = pimc.BoxResultPM if pm else pimc.BoxResult
        tag = "%s of %d files (usable %s, order %s, dup=%s), limit %s" % (cls.__name__, nf, files, order, dup, limit)
        key = (pm, tuple(sorted(files.items())), tuple(order), dup, limit, nf)
        args = () if limit is None else (limit,)
        if i % 2 and limit is not None:
            call = lambda r: r.load_multiple_results(list(lst), desired_number_of_samples=limit)
        else:
            call = lambda r: r.load_multiple_results(list(lst), *args)
        before = {p: open(p, "rb").read() for p in paths}
        if not files:
            ctx.expect_raise(lambda: call(cls()), "nothing-usable", tag + ": no usable file was accepted")
            ctx.event("refusals")
        else:
            with ctx.guard("load-raises", tag, key):
                r = [lambda: cls(), lambda: cls(X=3), lambda: cls(X=total)][i % 3]()
                given = list(lst)
                with common.Quiet():
                    if i % 5 == 0:                        # an object that held something else before
                        r.load_multiple_results(list(reversed(lst)))
                    if i % 2 and limit is not None:
                        r.load_multiple_results(given, desired_number_of_samples=limit)
                    else:
                        r.load_multiple_results(given, *args)
                got = audit(ctx, tag, r, pm, files, limit, key)
                ctx.check(given == lst, "caller-list", tag + ": the caller's list was modified")
                # no limit: the set is the union whatever the order
                if limit is None and got is not None:
                    ctx.check(set(got) == {(f, k) for f, m in files.items() for k in range(m)}, "union",
                              tag + ": the samples are not the union of the files", key)
        ctx.check(all(open(p, "rb").read() == b for p, b in before.items()), "files-modified", tag + ": an input file changed")
        ctx.case(key, len(files) > 0, tag)

        # the same files with zero denominators in one of them
        if i % 4 == 0 and files:
            f = sorted(files)[rng.randint(len(files))]
            z = int(rng.randint(files[f]))
            keys = ("s_rho", "s_g") + (("s_gP", "s_gM") if f in usable_pm else ())
            write(paths[f - 1], f, files[f], keys, zero=z)
            r = cls()
            try:
                with common.Quiet():
                    call(r)
                raised = False
            except Exception:
                raised = True
            if limit is None or limit >= total:
                ctx.check(raised, "zero-denominator", tag + ": a zero denominator (file %d row %d) was returned" % (f, z), key)
            elif not raised:
                ctx.check(not np.any(np.asarray(r.scaled_rho) == 0.0), "zero-denominator",
                          tag + ": a zero denominator was returned", key)
            ctx.event("zero_denominators_tried")
        ctx.drop(d)

    for cls in (pimc.BoxResult, pimc.BoxResultPM):
        ctx.expect_raise(lambda: cls().load_multiple_results([]), "nothing-usable", "an empty list was accepted")
        d = ctx.scratch()
        p = write(os.path.join(d, "P4_T300.00_J1_data_points.npz"), 1, 0)
        q = write(os.path.join(d, "P4_T300.00_J2_data_points.npz"), 2, 0)
        ctx.expect_raise(lambda: cls().load_multiple_results([p, q]), "nothing-usable", "files without samples were accepted")
        ctx.event("refusals", 2)
        with ctx.guard("load-raises", "one empty file among others"):
            s = write(os.path.join(d, "P4_T300.00_J3_data_points.npz"), 3, 4)
            r = cls()
            with common.Quiet():
                r.load_multiple_results([p, s, q])
            audit(ctx, "empty files around one with samples", r, cls is pimc.BoxResultPM, {3: 4}, None)
        ctx.case(("empty", cls.__name__))

    # through the directory: all jobs of exactly this beads/temperature combination
    n = ctx.scale(40, 500)
    for i in range(n):
        rng = ctx.rng("directory", i)
        d = ctx.scratch()
        vib, rho = models.coupled(rng, 2, 2), models.diagonal(rng, 2, 2)
        with ctx.guard("load-raises", "load_pimc_data %d" % i):
            FS = drive.make_fs(d, vib, rho)
            present, fid = {}, 0
            for P in (1, 3, 11, 12, 31):
                for T in (30.0, 300.0, 300.1, 300.01, 3.0):
                    for J in rng.permutation([0, 1, 2, 10, 11, 21])[:rng.randint(0, 4)]:
                        fid += 1
                        m = int(rng.randint(1, 9))
                        write(FS.path_rho_results + "P%d_T%.2f_J%d_data_points.npz" % (P, T, J), fid, m,
                              hv=FS.hash_vib, hr=FS.hash_rho)
                        present.setdefault((P, T), {})[fid] = m
            keys = list(present)
            for k in rng.permutation(len(keys))[:6]:
                P, T = keys[k]
                for cls in (pimc.BoxResultPM, pimc.BoxResult):
                    r = cls()
                    with common.Quiet():
                        pp.load_pimc_data(FS, P, T, r)
                    got = audit(ctx, "load_pimc_data P=%d T=%.2f" % (P, T), r, cls is pimc.BoxResultPM, present[(P, T)], None)
                    if got is not None:
                        ctx.check(set(got) == {(f, x) for f, m in present[(P, T)].items() for x in range(m)}, "union",
                                  "load_pimc_data P=%d T=%.2f does not give all samples" % (P, T))
                    ctx.event("directory_loads")
            ctx.expect_raise(lambda: pp.load_pimc_data(FS, 7, 77.0, pimc.BoxResultPM()), "nothing-usable",
                             "a combination without files was accepted")
        ctx.case(("directory", i))
        ctx.drop(d)

    # very many job files of one combination
    for nj in (130, 400)[:ctx.scale(1, 2)]:
        rng = ctx.rng("many", nj)
        d = ctx.scratch()
        with ctx.guard("load-raises", "%d job files" % nj):
            FS = drive.make_fs(d, models.coupled(rng, 2, 2), models.diagonal(rng, 2, 2))
            files = {}
            for f in range(1, nj + 1):
                files[f] = int(rng.randint(1, 3))
                write(FS.path_rho_results + "P4_T300.00_J%d_data_points.npz" % f, f, files[f], hv=FS.hash_vib, hr=FS.hash_rho)
            for cls, limit in ((pimc.BoxResultPM, None), (pimc.BoxResult, None), (pimc.BoxResultPM, nj // 2), (pimc.BoxResult, nj // 2)):
                r = cls()
                with common.Quiet():
                    if limit is None:
                        pp.load_pimc_data(FS, 4, 300.0, r)
                    else:
                        r.load_multiple_results([FS.path_rho_results + f for f in sorted(os.listdir(FS.path_rho_results))
                                                 if f.endswith("_data_points.npz")], limit)
                got = audit(ctx, "%d job files, limit %s" % (nj, limit), r, cls is pimc.BoxResultPM, files, limit)
                if limit is None and got is not None:
                    ctx.check(len(set(got)) == sum(files.values()), "union", "%d job files: not all samples are loaded" % nj)
            ctx.event("many_files_loaded", nj)
        ctx.case(("many", nj))
        ctx.drop(d)

    # production-sized files
    d = ctx.scratch()
    rng = ctx.rng("large")
    with ctx.guard("load-raises", "large files"):
        files, paths = {}, []
        for f, m in enumerate((1, 5000, 99999, 10000, 40961, 65536)[:ctx.scale(4, 6)], 1):
            files[f] = m
            paths.append(write(os.path.join(d, "P4_T300.00_J%d_data_points.npz" % f), f, m))
        total = sum(files.values())
        for cls in (pimc.BoxResultPM, pimc.BoxResult):
            for limit in (None, total - 1, 5002, 70000):
                r = cls()
                with common.Quiet():
                    r.load_multiple_results(list(paths), limit)
                audit(ctx, "%s of %d samples in large files, limit %s" % (cls.__name__, total, limit), r, cls is pimc.BoxResultPM, files, limit)
                ctx.case(("large", cls.__name__, limit))
        ctx.event("large_files_loaded")
    ctx.drop(d)

    # the same load under different hash seeds: same outcome, row by row
    d = ctx.scratch()
    rng = ctx.rng("hashseed")
    paths, files = [], {}
    for f in range(1, 9):
        files[f] = int(rng.randint(2, 12))
        paths.append(write(os.path.join(d, "P4_T300.00_J%d_data_points.npz" % f), f, files[f]))
    total = sum(files.values())
    limits = [None, total // 2, total // 3, total - 1]
    prog = ("import sys, json; sys.path[:0]=[%r,%r]\nimport common\npimc = common.load('pibronic.pimc.pimc')\n"
            "paths, limits = json.loads(sys.argv[1]); out = []\n"
            "for L in limits:\n    for c in (pimc.BoxResult, pimc.BoxResultPM):\n        r = c()\n"
            "        with common.Quiet():\n            r.load_multiple_results(paths, L)\n"
            "        out.append([list(map(float, r.scaled_rho)), list(map(float, r.scaled_g))])\nprint(json.dumps(out))\n"
            % (os.path.join(common.VERIF, "lib"), common.REPO))
    procs = [subprocess.Popen([sys.executable, "-W", "ignore", "-c", prog, json.dumps([paths + paths[:2], limits])],
                              env=dict(os.environ, PYTHONHASHSEED=str(s)), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
             for s in range(ctx.scale(4, 12))]
    outs = []
    for p in procs:
        o, e = p.communicate()
        if ctx.check(p.returncode == 0, "load-raises", "load in a separate process failed", e.decode(errors="replace")[-600:]):
            outs.append(json.loads(o))
            ctx.event("hash_seeds")
    for o in outs:
        k = 0
        for L in limits:
            for c in range(2):
                rho = np.array(o[k][0]) - OFF["s_rho"]
                g = np.array(o[k][1]) - OFF["s_g"]
                want = total if L is None else L
                ctx.check(len(rho) == want and np.array_equal(rho, g) and len(set(rho)) == want, "hash-seed",
                          "limit %s under another hash seed: %d samples, %d distinct" % (L, len(rho), len(set(rho))))
                ctx.check(set(rho) == set(np.array(outs[0][k][0]) - OFF["s_rho"]), "hash-seed",
                          "limit %s: another hash seed selects other samples" % L)
                k += 1


common.main("C04", run, level="exploration",
            rule="a case is one combination (files with their sizes and keys, order, duplicates, limit, class) whose "
                 "loaded rows were all identified",
            required=("loads_audited", "samples_identified", "refusals", "zero_denominators_tried", "directory_loads", "hash_seeds"))
