"""C08: jackknife estimates against explicit leave-one-out resampling in extended precision."""
import numpy as np
import common
import drive
import histories
import models
import refpi
import refstats
from c07_helpers import analytic, write


def compare(ctx, tag, out, s, T, db, alpha, an, data=None, dominated=False):
    X = len(s[0])
    ref = refstats.leave_one_out(*s, T, db, alpha)
    plain = refstats.full(*s, T, db, alpha)
    tol = refstats.tolerances(*s, T, db, alpha)
    loose = refstats.worst_tolerances(*s, T, db, alpha) if dominated else tol
    for k, n in (("jk_E", "E"), ("jk_Cv", "Cv")):
        want = float(ref[k]) + an[n]
        t = 4 * X * loose[n] + 1e-10 * abs(want) + 1e-11 * X * abs(float(plain[n]))
        ctx.check(k in out and abs(out[k] - want) <= t, "value-" + k,
                  "%s: %s is %r, leave-one-out gives %r (tolerance %.2g)" % (tag, k, out.get(k), want, t), data)
        want = float(ref[k + " error"])
        t = 4 * np.sqrt(X) * loose[n] + 1e-9 * abs(want)
        ctx.check(k + " error" in out and abs(out[k + " error"] - want) <= t, "value-" + k + "-error",
                  "%s: %s error is %r, leave-one-out gives %r (tolerance %.2g)" % (tag, k, out.get(k + " error"), want, t), data)
        ctx.event("estimates_compared", 2)
        if want > 1e3 * t and abs(float(ref[k]) - float(plain[n])) > 20 * (4 * X * loose[n]):
            ctx.event("well_resolved")
            ctx.event("dominated_resolved", int(dominated))
        p = float(plain[n]) + an[n]
        ctx.check(n in out and abs(out[n] - p) <= tol[n] + 1e-11 * abs(p) + 1e-12 * abs(an[n]), "plain-" + n,
                  "%s: the plain %s next to it is %r, the plain analysis gives %r" % (tag, n, out.get(n), p), data)
        ctx.check(out.get(n + " error") == 0.0, "plain-error", "%s: plain error of %s is %r" % (tag, n, out.get(n + " error")))
    ctx.check(abs(out.get("Z", np.nan) - float(plain["Z"])) <= tol["Z"], "plain-Z", "%s: Z is %r, not %r"
              % (tag, out.get("Z"), float(plain["Z"])))
    want = float(plain["Z error"])
    ctx.check(abs(out.get("Z error", np.nan) - want) <= 1e-9 * want + tol["Z"], "plain-Z",
              "%s: error of Z is %r, not %r" % (tag, out.get("Z error"), want))


def run(ctx):
    stats, pimc, constants = common.load("pibronic.stats.stats", "pibronic.pimc.pimc", "pibronic.constants")
    db = constants.delta_beta
    jk = dict(basic=stats.basic_jackknife_analysis, alpha=stats.alpha_jackknife_analysis)
    pl = dict(basic=stats.basic_statistical_analysis, alpha=stats.alpha_statistical_analysis)
    n = ctx.scale(300, 4000)
    for i in range(n):
        rng = ctx.rng("direct", i)
        X = int(rng.choice([2, 2, 3, 4, 7, 20, 60] + ([300] if i % 20 == 0 else [])))
        T = float(rng.choice([300.0, 77.35, 1000.0, 250.5, 3.0, 20000.0]))
        method = ["basic", "alpha"][i % 2]
        if i % 75 in (20, 21):                           # production sizes
            X = int(rng.choice([1000, 2500] if ctx.tier == "quick" else [1000, 2500, 8000]))
        if i % 75 in (35, 36):
            X = int(rng.choice([10001, 40000, 123457]))
        s = refstats.sample_set(rng, X, db, [0, 2, 3, 4][i // 2 % 4])
        if i % 30 in (6, 7):                            # all samples alike: no spread
            s = tuple(np.full(X, v) for v in (1.0, 0.75, 0.75 - 2.0 ** -12, 0.75 + 2.0 ** -12))
        if i % 11 == 4 and X <= 300:
            s = refstats.unusual(rng, s, db)
            ctx.event("unusual_sets")
        dominated = i % 15 in (8, 9) and X <= 300
        if dominated:                                    # one sample carries nearly all of the weight
            k, f = int(rng.randint(X)), 10.0 ** rng.uniform(2, 14)
            s = (s[0],) + tuple(np.where(np.arange(X) == k, f * a, a) for a in s[1:])
        an = analytic(rng)
        alpha = (an["Z"] / an["Zp"], an["Z"] / an["Zm"]) if method == "alpha" else None
        rd = dict(Z=an["Z"], E=an["E"], Cv=an["Cv"], alpha_plus=an["Z"] / an["Zp"], alpha_minus=an["Z"] / an["Zm"])
        tag = "%s X=%d T=%g" % (method, X, T)

        def boxed():
            r = pimc.BoxResultPM(X=X)
            r.scaled_rho, r.scaled_g, r.scaled_gofr_plus, r.scaled_gofr_minus = (np.array(a) for a in s)
            return r
        with ctx.guard("raises", tag):
            r = boxed()
            with common.Quiet():
                out = jk[method](T, r, dict(rd))
                again = jk[method](T, r, dict(rd))
                plain = pl[method](T, boxed(), dict(rd))
            compare(ctx, tag, out, s, T, db, alpha, an, dict(samples=s if X < 12 else None, analytic=an), dominated)
            for k, v in plain.items():
                ctx.check(out.get(k) == v or abs(out.get(k, np.nan) - v) <= 1e-12 * abs(v), "plain-differs",
                          "%s: %s is %r next to the jackknife and %r in the plain analysis" % (tag, k, out.get(k), v))
            ctx.check(out == again, "repeat", tag + ": a second evaluation of the same samples differs")
            ctx.check(all(np.array_equal(a, b) for a, b in zip(s, (r.scaled_rho, r.scaled_g, r.scaled_gofr_plus, r.scaled_gofr_minus))),
                      "samples-modified", tag + ": the analysis changed the samples")
        ctx.case((method, X, T, i), True, tag)

    n = ctx.scale(30, 400)
    for i in range(n):
        rng = ctx.rng("directory", i)
        root = ctx.scratch()
        method = ["basic", "alpha"][i % 2]
        with ctx.guard("raises", "directory %d (%s)" % (i, method)):
            FS = drive.make_fs(root, models.coupled(rng, 2, 2), models.diagonal(rng, 2, 2))
            want, table = {}, {}
            for P in (3, 13) if i % 10 != 5 else (1, 2, 3, 4, 12, 13, 64):          # now and then a large grid
                for T in (300.0, 77.35) if i % 10 != 5 else (300.0, 77.35, 1000.0, 5.0):
                    table[T] = table.get(T) or analytic(rng)
                    if rng.rand() < 0.25 and want:
                        continue
                    parts = [refstats.sample_set(rng, int(rng.choice([1, 3, 9])), db, 0) for _ in range(rng.randint(9, 14) if i % 10 == 5 else rng.randint(2, 4))]
                    if rng.rand() < 0.2:                        # models whose energies are shifted
                        f = 10.0 ** rng.uniform(-60, 60)
                        parts = [(q[0], q[1] * f, q[2] * f, q[3] * f) for q in parts]
                    for J, s in enumerate(parts):
                        write(FS, P, T, J, s)
                    want[(P, "%.2f" % T)] = [np.concatenate([s[k] for s in parts]) for k in range(4)]
            histories.write_analytic(FS, FS.hash_vib, FS.hash_rho, table)
            if i % 3 == 0:
                histories.analyse(FS, "plain", method)       # its output is replaced
            histories.analyse(FS, "jackknife", method, real_pool=(i % 10 == 0))
            outs = histories.thermo_files(FS)
            names = {"P%d_T%s_X%d_thermo" % (P, T, len(s[0])): (P, T) for (P, T), s in want.items()}
            ctx.check(set(outs) == set(names), "outputs", "outputs %s, expected %s" % (sorted(outs), sorted(names)))
            for name, k in names.items():
                if name in outs:
                    an, s = table[float(k[1])], want[k]
                    alpha = (an["Z"] / an["Zp"], an["Z"] / an["Zm"]) if method == "alpha" else None
                    compare(ctx, "directory %d %s %s" % (i, method, name), outs[name], s, float(k[1]), db, alpha, an)
                    ctx.check(outs[name].get("hash_vib") == FS.hash_vib and outs[name].get("hash_rho") == FS.hash_rho,
                              "fingerprint", "%s lacks the fingerprints" % name)
                    ctx.event("outputs_compared")
            for bad in (("nonsense", "local"), ("basic", "nowhere")):
                ctx.expect_raise(lambda: histories.analyse(FS, "jackknife", bad[0], location=bad[1]), "invalid-accepted",
                                 "jackknife analysis %s was accepted" % (bad,))
            ctx.case(("directory", method, tuple(sorted(want)), i), True)
        ctx.drop(root)


common.main("C08", run, level="exploration",
            rule="a case is one sample set (method, size, temperature) or one analysed directory, compared with explicit "
                 "deletion of every sample",
            required=("estimates_compared", "outputs_compared", "well_resolved", "dominated_resolved"),
            assumptions=["tolerances are those of double precision rounding amplified by the finite differences and by N"])
