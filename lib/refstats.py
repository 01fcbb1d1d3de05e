"""Reference estimators in extended precision, straight from the definitions."""
import numpy as np
import refpi

L = np.longdouble


def terms(rho, g, gp, gm, db):
    rho, g, gp, gm = (np.asarray(a, dtype=L) for a in (rho, g, gp, gm))
    return g / rho, gp / rho, gm / rho


def estimate(r, rp, rm, T, db, alpha=None):
    """E, Cv without analytic contributions, from per-sample ratios"""
    db = L(db)
    ap, am = (L(1), L(1)) if alpha is None else (L(alpha[0]), L(alpha[1]))
    z, zp, zm = r.mean(), rp.mean() * ap, rm.mean() * am
    E = -((zp - zm) / (2 * db)) / z
    Cv = (((zp - 2 * z + zm) / db ** 2) / z - E ** 2) / (L(refpi.KB) * L(T) ** 2)
    return E, Cv


def full(rho, g, gp, gm, T, db, alpha=None):
    r, rp, rm = terms(rho, g, gp, gm, db)
    X = len(r)
    E, Cv = estimate(r, rp, rm, T, db, alpha)
    out = {"Z": r.mean(), "E": E, "Cv": Cv, "E error": L(0), "Cv error": L(0)}
    if X > 1:
        out["Z error"] = np.sqrt(((r - r.mean()) ** 2).sum() / X) / np.sqrt(L(X - 1))
    return out


def leave_one_out(rho, g, gp, gm, T, db, alpha=None):
    r, rp, rm = terms(rho, g, gp, gm, db)
    X = len(r)
    fE, fC = np.empty(X, dtype=L), np.empty(X, dtype=L)
    keep = np.ones(X, dtype=bool)
    if X > 5000:      # many samples, none of which dominates: the sums without each of them, in extended precision
        (z, zp, zm), a, d = ((x.sum() - x) / L(X - 1) for x in (r, rp, rm)), (1, 1) if alpha is None else alpha, L(db)
        zp, zm = zp * L(a[0]), zm * L(a[1])
        fE = -((zp - zm) / (2 * d)) / z
        fC = (((zp - 2 * z + zm) / d ** 2) / z - fE ** 2) / (L(refpi.KB) * L(T) ** 2)
    for i in range(X if X <= 5000 else 0):
        keep[i] = False
        fE[i], fC[i] = estimate(r[keep], rp[keep], rm[keep], T, db, alpha)
        keep[i] = True
    E, Cv = estimate(r, rp, rm, T, db, alpha)
    out = {}
    for n, full_, f in (("E", E, fE), ("Cv", Cv, fC)):
        out["jk_" + n] = X * full_ - (X - 1) * f.mean()
        out["jk_%s error" % n] = np.sqrt(L(X - 1)) * np.sqrt(((f - f.mean()) ** 2).sum() / (X - 1))
    return out


def tolerances(rho, g, gp, gm, T, db, alpha=None):
    """absolute rounding tolerances (double precision evaluation) for Z, E, Cv"""
    r, rp, rm = (np.abs(a).astype(float) for a in terms(rho, g, gp, gm, db))
    X = len(r)
    a = 1.0 if alpha is None else max(1.0, *map(abs, alpha))
    z = abs(float(np.mean(np.asarray(g, dtype=L) / np.asarray(rho, dtype=L))))
    s = (r.mean() + rp.mean() + rm.mean()) * a
    zmin = min(z, 1e300)
    eps = 1e-14 * np.sqrt(max(X, 1))
    cond = s / zmin
    kt = refpi.KB * T ** 2
    E0 = abs(float(estimate(*terms(rho, g, gp, gm, db), T, db, alpha)[0]))
    tE = eps * cond * (1 / db + E0)
    tC = (eps * cond * (1 / db ** 2) * 4 + 2 * E0 * tE + eps * cond * E0 ** 2) / kt
    return {"Z": 1e-12 * s, "E": tE, "Cv": tC}


def worst_tolerances(rho, g, gp, gm, T, db, alpha=None):
    """the same, for the sample sets with one sample left out as well: that one may carry nearly all of the weight"""
    out = tolerances(rho, g, gp, gm, T, db, alpha)
    keep = ~np.eye(len(rho), dtype=bool)
    parts = [tolerances(*(np.asarray(a)[k] for a in (rho, g, gp, gm)), T, db, alpha) for k in keep]
    return {n: out[n] + max(p[n] for p in parts) for n in out}


def sample_set(rng, X, db, kind):
    """realistic ratios: g = rho*r, g+- from per-sample energies and curvatures"""
    r = {0: rng.uniform(0.5, 1.5, X), 1: rng.uniform(-0.2, 2.0, X), 2: np.exp(rng.standard_normal(X)),
         3: rng.uniform(0.9, 1.1, X) * 1e-6, 4: rng.uniform(0.5, 1.0, X) * 1e5}[kind % 5]
    e = rng.standard_normal(X) * rng.choice([1.0, 30.0]) + rng.uniform(-1, 1)
    c = rng.standard_normal(X) * rng.choice([10.0, 3000.0]) + 100
    rp = r * (1 - e * db + 0.5 * c * db ** 2)
    rm = r * (1 + e * db + 0.5 * c * db ** 2)
    rho = np.exp(rng.uniform(-5, 5, X)) * (10.0 ** rng.randint(-20, 20) if kind % 2 else 1.0)
    return rho, r * rho, rp * rho, rm * rho


def unusual(rng, s, db):
    """the same kind of set at another scale of the ratios, or with hardly any spread"""
    rho, g, gp, gm = (np.asarray(a) for a in s)
    k = rng.randint(3)
    if k == 0:
        f = 10.0 ** rng.uniform(-60, 60)                    # models whose energies are shifted
        return rho, g * f, gp * f, gm * f
    if k == 1:                                               # all samples nearly alike
        d = 10.0 ** rng.uniform(-8, -3)
        r = 1.0 + d * rng.standard_normal(len(rho))
        e = rng.uniform(-1, 1) + d * rng.standard_normal(len(rho))
        return rho, r * rho, r * (1 - e * db + 20 * db ** 2) * rho, r * (1 + e * db + 20 * db ** 2) * rho
    f = np.where(rng.rand(len(rho)) < 0.3, -1.0, 1.0)        # ratios are what counts
    return rho * f, g * f, gp * f, gm * f
