"""C07: reported thermodynamic estimates against their definitions.

Sample sets (random and produced by real runs) are written as result files for a grid with gaps of bead counts,
temperatures and jobs; the analysis runs on the directory; every output is compared with an extended-precision
evaluation of the definitions (lib/refstats.py), and the set of outputs with the set of combinations that have
samples.  Metamorphic: permuted samples, per-sample rescaling, splitting over job files.
"""
import json
import os
import numpy as np
import common
import drive
import histories
import models
import refpi
import refstats


def compare(ctx, tag, out, ref, tol, an, data=None):
    for k in ("Z", "E", "Cv"):
        want = float(ref[k]) + (an[k] if k in an and k != "Z" else 0.0)
        if not ctx.check(k in out and np.isfinite(out[k]), "missing", "%s: %s is %r" % (tag, k, out.get(k))):
            continue
        t = tol[k] + 1e-11 * abs(want) + 1e-12 * abs(an.get(k, 0.0))
        ctx.check(abs(out[k] - want) <= t, "value-" + k, "%s: %s is %r, the definition gives %r (tolerance %.2g)"
                  % (tag, k, out[k], want, t), data)
        ctx.event("estimates_compared")
    if "Z error" in ref:
        want = float(ref["Z error"])
        ctx.check(abs(out.get("Z error", np.nan) - want) <= 1e-9 * abs(want) + tol["Z"], "value-Zerr",
                  "%s: error of Z is %r, the definition gives %r" % (tag, out.get("Z error"), want), data)
    for k in ("E error", "Cv error"):
        ctx.check(out.get(k) == 0.0, "value-err", "%s: %s is %r in the plain analysis" % (tag, k, out.get(k)))


def write(FS, P, T, J, s):
    rho, g, gp, gm = s
    np.savez(FS.path_rho_results + "P%d_T%.2f_J%d_data_points.npz" % (P, T, J), hash_vib=FS.hash_vib, hash_rho=FS.hash_rho,
             number_of_samples=len(rho), s_rho=rho, s_g=g, s_gP=gp, s_gM=gm)


def analytic(rng):
    Z = float(rng.uniform(0.5, 3) * 10.0 ** (rng.randint(-3, 4) if rng.rand() < 0.8 else rng.randint(-60, 61)))   # cold or shifted models
    return dict(Z=Z, E=float(rng.uniform(-2, 2)), Cv=float(rng.uniform(-1e-3, 2e-3)),
                Zp=Z * (1 - float(rng.uniform(0.5, 2)) * refpi.DBETA), Zm=Z * (1 + float(rng.uniform(0.5, 2)) * refpi.DBETA))


def run(ctx):
    stats, pimc, constants = common.load("pibronic.stats.stats", "pibronic.pimc.pimc", "pibronic.constants")
    db = constants.delta_beta
    ctx.check(abs(db - refpi.DBETA) < 1e-18, "beta-step", "the common beta step is %r" % db)
    ops = dict(basic=stats.basic_statistical_analysis, alpha=stats.alpha_statistical_analysis)

    # the estimators themselves, many sample sets
    n = ctx.scale(400, 6000)
    for i in range(n):
        rng = ctx.rng("direct", i)
        X = int(rng.choice([2, 3, 4, 10, 31, 100, 1000]))
        if i % 100 in (50, 51):                          # production sizes
            X = int(rng.choice([20000, 150000, 400000]))
        T = float(rng.choice([300.0, 77.35, 1000.0, 10.0, 250.5, 0.5, 3.0, 20000.0]))
        method = ["basic", "alpha"][i % 2]
        s = refstats.sample_set(rng, X, db, i)
        if i % 7 == 3:
            s = refstats.unusual(rng, s, db)
            ctx.event("unusual_sets")
        an = analytic(rng)
        alpha = (an["Z"] / an["Zp"], an["Z"] / an["Zm"]) if method == "alpha" else None
        rd = dict(Z=an["Z"], E=an["E"], Cv=an["Cv"], alpha_plus=an["Z"] / an["Zp"], alpha_minus=an["Z"] / an["Zm"])
        tag = "%s X=%d T=%g" % (method, X, T)
        with ctx.guard("raises", tag):
            def evaluate(s):
                r = pimc.BoxResultPM(X=len(s[0]))
                r.scaled_rho, r.scaled_g, r.scaled_gofr_plus, r.scaled_gofr_minus = (np.array(a) for a in s)
                keep = [np.array(a) for a in s]
                with common.Quiet():
                    out = ops[method](T, r, dict(rd))
                ctx.check(all(np.array_equal(a, b) for a, b in zip(keep, (r.scaled_rho, r.scaled_g, r.scaled_gofr_plus,
                                                                        r.scaled_gofr_minus))),
                          "samples-modified", tag + ": the analysis changed the samples")
                return out
            out = evaluate(s)
            ref = refstats.full(*s, T, db, alpha)
            tol = refstats.tolerances(*s, T, db, alpha)
            compare(ctx, tag, out, ref, tol, an, dict(samples=s if X < 12 else None))
            p = rng.permutation(X)
            out2 = evaluate([a[p] for a in s])
            f = 2.0 ** rng.randint(-30, 30, size=X)
            out3 = evaluate([a * f for a in s])
            for k in ("Z", "E", "Cv"):
                for what, o in (("reordering", out2), ("rescaling", out3)):
                    ctx.check(abs(o[k] - out[k]) <= 2 * tol[k] + 1e-11 * abs(out[k]), "invariance",
                              "%s: %s changes %s from %r to %r" % (tag, what, k, out[k], o[k]))
                    ctx.event("invariances")
            dec = float(ref["E"])
            if abs(dec) > 1e3 * tol["E"]:
                ctx.event("energy_well_resolved")
            if abs(float(ref["Cv"])) > 1e2 * tol["Cv"]:
                ctx.event("heat_capacity_well_resolved")
        ctx.case((method, X, T, i), True, tag)

    # whole directories
    n = ctx.scale(50, 800)
    for i in range(n):
        rng = ctx.rng("directory", i)
        root = ctx.scratch()
        method = ["basic", "alpha"][i % 2]
        with ctx.guard("raises", "directory %d (%s)" % (i, method)):
            FS = drive.make_fs(root, models.coupled(rng, 2, 2), models.diagonal(rng, 2, 2))
            big = i % 10 == 4                            # a large grid
            Ps = [int(p) for p in rng.choice([1, 2, 3, 4, 12, 13, 31, 130], 8 if big else rng.randint(1, 4), replace=False)]
            Ts = [float(t) for t in rng.choice([300.0, 30.0, 300.01, 77.35, 250.5, 1000.0], 5 if big else rng.randint(1, 4), replace=False)]
            table = {T: analytic(rng) for T in Ts}
            want = {}
            for P in Ps:
                for T in Ts:
                    if rng.rand() < 0.3:
                        continue
                    parts = [refstats.sample_set(rng, int(rng.choice([1, 2, 5, 20])) + 1, db, 0) for _ in range(rng.randint(9, 13) if big else rng.randint(1, 4))]
                    if rng.rand() < 0.2:                        # models whose energies are shifted
                        f = 10.0 ** rng.uniform(-60, 60)
                        parts = [(q[0], q[1] * f, q[2] * f, q[3] * f) for q in parts]
                    for J, s in zip(rng.permutation(12), parts):
                        write(FS, P, T, int(J), s)
                    want[(P, "%.2f" % T)] = [np.concatenate([s[k] for s in parts]) for k in range(4)]
            if not want:
                P, T = Ps[0], Ts[0]
                s = refstats.sample_set(rng, 5, db, 0)
                write(FS, P, T, 0, s)
                want[(P, "%.2f" % T)] = list(s)
            histories.write_analytic(FS, FS.hash_vib, FS.hash_rho, table)
            # leftovers must not disturb
            if rng.rand() < 0.5:
                open(FS.path_rho_results + "notes.txt", "w").write("P1_T2")
                np.savez(FS.path_rho_results + "P3_T300.00_J0_training_data_input.npz", number_of_samples=1)
            before = {f for f in os.listdir(FS.path_rho_results)}
            # outputs of an earlier analysis, of other samples, at the same places
            stale = {}
            if i % 3 == 1:
                for (P, T), s in list(want.items())[:3]:
                    p = FS.path_rho_results + "P%d_T%s_X%d_thermo" % (P, T, len(s[0]))
                    stale = {"Z": 7.5, "Z error": 0.5, "E": 3.25, "E error": 0.125, "Cv": 9.5, "Cv error": 0.75, "jk_E": 5.5, "jk_E error": 0.25,
                             "jk_Cv": 6.5, "jk_Cv error": 0.625, "hash_vib": "1" * 64, "hash_rho": FS.hash_rho}
                    with open(p, "w") as f:
                        json.dump(stale, f)
            histories.analyse(FS, "plain", method, real_pool=(i % 10 == 0))
            outs = histories.thermo_files(FS)
            names = {"P%d_T%s_X%d_thermo" % (P, T, len(s[0])): (P, T) for (P, T), s in want.items()}
            new = set(os.listdir(FS.path_rho_results)) - before
            ctx.check(new == set(names), "outputs", "directory %d: outputs %s, expected %s" % (i, sorted(new), sorted(names)))
            for name, (P, T) in names.items():
                if name not in outs:
                    continue
                ctx.check(not stale or all(outs[name].get(k) != v for k, v in stale.items() if k != "hash_rho"), "stale-values",
                          "directory %d: %s holds values of an earlier analysis: %s" % (i, name, outs[name]))
                an = table[float(T)]
                s = want[(P, T)]
                alpha = (an["Z"] / an["Zp"], an["Z"] / an["Zm"]) if method == "alpha" else None
                compare(ctx, "directory %d %s %s" % (i, method, name), outs[name], refstats.full(*s, float(T), db, alpha),
                        refstats.tolerances(*s, float(T), db, alpha), an)
                ctx.check(outs[name].get("hash_vib") == FS.hash_vib and outs[name].get("hash_rho") == FS.hash_rho,
                          "fingerprint", "%s lacks the fingerprints" % name)
                ctx.event("outputs_compared")
            ctx.case(("directory", method, tuple(sorted(want))), True, "%s %s" % (method, sorted(want)))
        ctx.drop(root)

    # values of method and location that do not exist are refused; names built at run time are accepted
    root = ctx.scratch()
    rng = ctx.rng("method")
    with ctx.guard("raises", "method names"):
        FS = drive.make_fs(root, models.coupled(rng, 2, 2), models.diagonal(rng, 2, 2))
        write(FS, 3, 300.0, 0, refstats.sample_set(rng, 6, db, 0))
        histories.write_analytic(FS, FS.hash_vib, FS.hash_rho, {300.0: analytic(rng)})
        for bad in (("nonsense", "local"), ("basic", "nowhere"), ("", "local")):
            ctx.expect_raise(lambda: histories.analyse(FS, "plain", bad[0], location=bad[1]), "invalid-accepted",
                             "analysis %s was accepted" % (bad,))
            ctx.check(not histories.thermo_files(FS), "invalid-accepted", "a refused analysis wrote an output")
        for m in ("basic", "alpha"):
            histories.analyse(FS, "plain", "".join(list(m)), location="".join(list("local")))
            ctx.check(len(histories.thermo_files(FS)) == 1, "outputs", "%s (built at run time): no output" % m)
        ctx.case(("method",))

    # the tables of the sum over states of the sampling model, by basis size and temperature
    pp = common.load("pibronic.data.postprocessing")
    for i in range(ctx.scale(20, 200)):
        rng = ctx.rng("table", i)
        root = ctx.scratch()
        with ctx.guard("raises", "table %d" % i):
            FS = drive.make_fs(root, models.coupled(rng, 2, 2), models.diagonal(rng, 2, 2))
            tables = {}
            for B in [int(b) for b in rng.choice([4, 8, 10, 40, 80, 100, 1000], 3, replace=False)]:
                Ts = [float(t) for t in rng.permutation([300.0, 300.01, 30.0, 3.0, 77.35, 250.5, 1000.0])[:rng.randint(1, 7)]]
                tables[B] = {T: analytic(rng) for T in Ts}
                rows = [tables[B][T] for T in Ts]
                with open(FS.template_sos_rho.format(B=B), "w") as f:
                    json.dump({"temperature": Ts, "Z_sampling": [r["Z"] for r in rows], "E_sampling": [r["E"] for r in rows],
                               "Cv_sampling": [r["Cv"] for r in rows], "Z_sampling+beta": [r["Zp"] for r in rows],
                               "Z_sampling-beta": [r["Zm"] for r in rows]}, f)
            for B in tables:
                for T in (300.0, 300.01, 30.0, 3.0, 77.35, 250.5, 1000.0, 299.9):
                    got, tag = {}, "table of %d basis functions at %s K" % (B, T)
                    try:
                        with common.Quiet():
                            pp.load_rho_sos_data(FS, int(rng.randint(2, 64)), B, T, got)
                    except Exception:
                        got = {}
                    if T not in tables[B]:
                        ctx.check(not got, "other-temperature", "%s: there is none, and the values are %s" % (tag, got))
                        ctx.event("temperature_not_in_table")
                        continue
                    r = tables[B][T]
                    want = dict(Z=r["Z"], E=r["E"], Cv=r["Cv"], alpha_plus=r["Z"] / r["Zp"], alpha_minus=r["Z"] / r["Zm"])
                    for k in want:
                        ctx.check(k in got and abs(got[k] - want[k]) <= 1e-14 * abs(want[k]), "table-" + k,
                                  "%s: %s is %r instead of %r" % (tag, k, got.get(k), want[k]))
                    ctx.event("table_rows_read")
        ctx.case(("table", i))
        ctx.drop(root)

    # real runs: samples to thermodynamics, end to end
    for i in range(ctx.scale(8, 60)):
        rng = ctx.rng("real", i)
        ctx.seed_globals("real", i)
        root = ctx.scratch()
        P, T = int(rng.choice([3, 5])), float(rng.choice([300.0, 77.35]))
        with ctx.guard("raises", "real run %d" % i):
            vib, rho = models.coupled(rng, 2, 2, lin_scale=0.4), models.diagonal(rng, 2, 2, lin_scale=0.4)
            FS = drive.make_fs(root, vib, rho)
            outs = [drive.run(FS, True, 2, 2, P, T, 2, 10, job=j).result for j in range(2)]
            s = [np.concatenate([np.asarray(getattr(o, a)) for o in outs])
                 for a in ("scaled_rho", "scaled_g", "scaled_gofr_plus", "scaled_gofr_minus")]
            an = analytic(rng)
            histories.write_analytic(FS, FS.hash_vib, FS.hash_rho, {T: an})
            for method in ("basic", "alpha"):
                histories.analyse(FS, "plain", method)
                alpha = (an["Z"] / an["Zp"], an["Z"] / an["Zm"]) if method == "alpha" else None
                name = "P%d_T%.2f_X40_thermo" % (P, T)
                o = histories.thermo_files(FS)
                if ctx.check(list(o) == [name], "outputs", "outputs %s, expected %s" % (list(o), name)):
                    compare(ctx, "real run %s" % method, o[name], refstats.full(*s, T, db, alpha),
                            refstats.tolerances(*s, T, db, alpha), an)
                    ctx.event("real_runs_analysed")
        ctx.case(("real", i, P, T))
        ctx.drop(root)


common.main("C07", run, level="exploration",
            rule="a case is one sample set evaluated directly, or one directory (grid with gaps, jobs, method) analysed",
            required=("estimates_compared", "invariances", "outputs_compared", "energy_well_resolved",
                      "heat_capacity_well_resolved", "real_runs_analysed", "table_rows_read", "temperature_not_in_table"),
            assumptions=["tolerances are those of double precision rounding amplified by the finite differences",
                         "lib/refstats.py states the estimators"])
