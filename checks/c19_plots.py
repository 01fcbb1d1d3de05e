"""C19: the data that are plotted are the current results, at their parameters.

Result files with known contents (and stale ones) are written for grids with gaps of beads, temperatures and sample
counts in several data sets; the plot objects are created, load their data and draw.  What they hold and what the
figure contains when it is saved (curves, error bars, reference lines, images) is compared with what was written.
The LaTeX module of the server is a stand-in and the figures are not rendered.
"""
import json
import os
import numpy as np
import common
import drive
import histories
import models
import refpi
import refstats

KB = refpi.KB
VALS = ["Z", "Z error", "E", "E error", "Cv", "Cv error", "jk_E", "jk_E error", "jk_Cv", "jk_Cv error"]


class Figures:
    """records every figure when it is saved"""
    def __enter__(self):
        from matplotlib.figure import Figure
        self.cls, self.old, self.seen = Figure, Figure.savefig, []
        rec = self

        def savefig(fig, fname, *a, **k):
            rec.seen.append((str(fname), [rec.axes(ax) for ax in fig.axes]))
        Figure.savefig = savefig
        # pyplot.savefig() also redraws the canvas, which would need LaTeX
        from matplotlib.backend_bases import FigureCanvasBase
        self.canvas, self.old_draw = FigureCanvasBase, FigureCanvasBase.draw_idle
        FigureCanvasBase.draw_idle = lambda *a, **k: None
        return self

    @staticmethod
    def axes(ax):
        from matplotlib.container import ErrorbarContainer
        curves = []
        for c in ax.containers:
            if not isinstance(c, ErrorbarContainer):
                continue
            x, y = (np.array(a, dtype=float) for a in c.lines[0].get_data(orig=True))
            bars = {}
            for col in c.lines[2]:
                for seg in col.get_segments():
                    seg = np.asarray(seg)
                    if len(seg) == 2 and np.isfinite(seg).all():
                        bars[float(seg[0][0])] = sorted((float(seg[0][1]), float(seg[1][1])))
            curves.append((x, y, bars))
        plain = {id(c.lines[0]) for c in ax.containers if isinstance(c, ErrorbarContainer)}
        hlines = [float(np.asarray(li.get_ydata(), dtype=float)[0]) for li in ax.get_lines()
                  if id(li) not in plain and len(set(np.asarray(li.get_ydata(), dtype=float))) == 1
                  and len(li.get_ydata()) == 2]
        images = [np.array(im.get_array()) for im in ax.images]
        texts = [(t.get_position(), t.get_text()) for t in ax.texts]
        return dict(curves=curves, hlines=hlines, images=images, texts=texts)

    def __exit__(self, *a):
        self.cls.savefig = self.old
        self.canvas.draw_idle = self.old_draw
        import matplotlib.pyplot as plt
        plt.close("all")
        return False


def server(root):
    """stand-in of the module command; returns the directory for PATH"""
    d = os.path.join(root, "bin")
    os.makedirs(d)
    with open(os.path.join(d, "modulecmd"), "w") as f:
        f.write("#!/bin/sh\nexit 0\n")
    os.chmod(os.path.join(d, "modulecmd"), 0o755)
    return d


def thermo(FS, P, T, X, values, hv, hr):
    d = dict(values)
    if hv is not None:
        d["hash_vib"] = hv
    if hr is not None:
        d["hash_rho"] = hr
    with open(FS.path_rho_results + "P%d_T%.2f_X%d_thermo" % (P, T, X), "w") as f:
        json.dump(d, f)


def populate(ctx, rng, FS, Ts, Ps, Xs, density=0.6, keep=None):
    """files of a grid with gaps; returns {(P,T,X): values} of the current ones"""
    want = {}
    wide = rng.rand() < 0.3   # values of any size and sign

    def value(k):
        if not wide:
            return float(rng.uniform(0.1, 3))
        x = float(10 ** rng.uniform(-9, 7))
        return -x if rng.rand() < 0.4 and "error" not in k else x

    for P in Ps:
        for T in Ts:
            for X in Xs:
                if rng.rand() > density and (P, T, X) != keep:
                    continue
                v = {k: value(k) for k in VALS}
                if rng.rand() < 0.3:
                    v = {k: v[k] for k in VALS[:6]}
                kind = rng.randint(0, 8) if (P, T, X) != keep else 7
                hv, hr = FS.hash_vib, FS.hash_rho
                if kind == 0:
                    hv = "0" * len(hv)
                elif kind == 1:
                    hr = "f" * len(hr)
                elif kind == 2:
                    hv, hr = hr, hv
                elif kind == 3:
                    hv = None if rng.rand() < 0.5 else hv
                    hr = None if hv is not None else hr
                thermo(FS, P, T, X, v, hv, hr)
                if kind > 3:
                    want[(P, T, X)] = v
                    ctx.event("current_files")
                else:
                    ctx.event("stale_files")
    return want


def same(a, b, rel=0.0):
    a, b = float(a), float(b)
    return (np.isnan(a) and np.isnan(b)) or a == b or abs(a - b) <= rel * max(abs(a), abs(b))


def compare(ctx, tag, lists, arr, want, convert=None):
    P, T, X = ([v for v in li] for li in lists)
    ctx.check(P == sorted({k[0] for k in want}) and X == sorted({k[2] for k in want})
              and [("%.2f" % t) for t in T] == ["%.2f" % t for t in sorted({k[1] for k in want})], "parameters",
              "%s: plotted beads %s, temperatures %s, samples %s; the current results have %s" % (tag, P, T, X, sorted(want)[:20]))
    if not ctx.check(tuple(arr.shape) == (len(P), len(T), len(X)), "shape", "%s: array %s for %s" % (tag, arr.shape, (P, T, X))):
        return
    for i, p in enumerate(P):
        for j, t in enumerate(T):
            for k, x in enumerate(X):
                ref = want.get((p, t, x), {})
                for q in VALS:
                    w = ref.get(q, np.nan)
                    if convert is not None:
                        w = convert(q, t, w)
                    got = arr[q][i, j, k]
                    ctx.check(same(got, w, 1e-12 if convert else 0.0) or abs(float(got) - float(w)) < (1e-11 if convert else 0.0),
                              "value", "%s: %s at P=%d T=%.2f X=%d is %r, the file has %r" % (tag, q, p, t, x, float(got), w))
                    ctx.event("values" if (p, t, x) in want else "gaps")


def percent(Zrho, Zref):
    def f(q, t, w):
        key = "%.2f" % t
        if q == "Z":
            return 100.0 * (w * Zrho[key] - Zref[key]) / Zref[key]
        if q == "Z error":
            return 100.0 * w * Zrho[key] / Zref[key]
        return w
    return f


def check_curves(ctx, tag, ax, T, curves, quantity, hline=None):
    """curves: list of {P: (y, yerr)}"""
    got = []
    for x, y, bars in ax["curves"]:
        c = {}
        for xi, yi in zip(x, y):
            if np.isfinite(yi):
                b = bars.get(float(xi))
                c[float(xi)] = (float(yi), (b[1] - b[0]) / 2 if b else None)
        got.append(c)
    want = [{1.0 / (KB * T) / p: v for p, v in c.items()} for c in curves]

    def match(a, b):
        if len(a) != len(b):
            return False
        for (xa, va), (xb, vb) in zip(sorted(a.items()), sorted(b.items())):
            if abs(xa - xb) > 1e-9 * xb or abs(va[0] - vb[0]) > 1e-9 * (1 + abs(vb[0])):
                return False
            if va[1] is None or abs(va[1] - abs(vb[1])) > 1e-9 * (1 + abs(vb[0]) + abs(vb[1])):
                return False
        return True
    left = list(got)
    for w in want:
        m = [g for g in left if match(g, w)]
        if not ctx.check(bool(m), "curve", "%s: %s: no drawn curve is %s; drawn: %s" % (tag, quantity, w, got)):
            continue
        left.remove(m[0])
        ctx.event("curves")
    ctx.check(not left, "curve", "%s: %s: drawn curves %s belong to no results" % (tag, quantity, left))
    if hline is not None:
        ctx.check(hline in ax["hlines"], "reference-line", "%s: reference lines %s, wanted %s" % (tag, ax["hlines"], hline))


def references(rng, FS, Ts):
    """reference files; every one also holds temperatures that were not sampled"""
    out = {}
    extra = [t + 11.0 for t in Ts]
    for name, path, key in (("rho", FS.path_analytic_rho, "Z_sampling"), ("orig", FS.path_analytic_orig, "Z_coupled")):
        d, tab = {"hash_vib": FS.hash_vib, "hash_rho": FS.hash_rho}, {}
        for t in list(Ts) + extra:
            e = {k: float(rng.uniform(0.2, 4)) for k in ("Z_sampling", "Z_coupled", "E_sampling")}
            d["%.2f" % t] = e
            tab["%.2f" % t] = e[key]
        with open(path, "w") as f:
            json.dump(d, f)
        out[name], out[name + "_dict"] = tab, d
    return out


def curves_of(want, T, X, q="Z", conv=None):
    c = {}
    for (p, t, x), v in want.items():
        if t == T and x == X and q in v:
            y, e = v[q], v[q + " error"]
            if conv is not None:
                y, e = conv(q, t, y), conv(q + " error", t, e)
            c[p] = (y, e)
    return c


def data_sets(ctx, rng, root, n, same_data=False, Ts=None):
    sets = []
    big = rng.rand() < 0.12   # grids of many files
    nested = rng.rand() < 0.5   # the sample counts of the sets overlap
    ids = list(rng.choice(10, 4, replace=False))
    for i in range(n):
        A, N = int(rng.randint(1, 4)), int(rng.randint(1, 3))
        if same_data and i:
            FS0 = sets[0][0]
            fs = common.load("pibronic.data.file_structure")
            with common.Quiet():
                FS = fs.FileStructure(root, FS0.id_data, FS0.id_rho + i)
            models.write_json(FS.path_rho_model, models.diagonal(rng, sets[0][2][0], sets[0][2][1]))
            with common.Quiet():
                FS.generate_model_hashes(True)
            A, N = sets[0][2]
        else:
            FS = drive.make_fs(root, models.coupled(rng, A, N), models.diagonal(rng, A, N), int(ids[i]), int(rng.randint(0, 3)))
        T = Ts[i] if Ts is not None else [float(t) for t in rng.choice([300.0, 30.0, 300.01, 77.35, 9.5, 1000.0], rng.randint(1, 4), replace=False)]
        P = [int(p) for p in rng.choice([3, 4, 9, 12, 13, 100, 130, 1024, 4097], rng.randint(1, 5), replace=False)]
        X = [int(x) for x in rng.choice([5, 10, 100, 1000, 9000], rng.randint(1, 4), replace=False)]
        if nested:
            X = [[10, 100], [10, 100, 1000], [10]][(i + n) % 3]
        if big:
            P, X = list(range(3, 3 + rng.randint(12, 20))), [5, 10, 100, 1000, 9000, 10000] + [20000 * (k + 1) for k in range(rng.randint(0, 9))]
        want = populate(ctx, rng, FS, T, P, X, keep=(P[0], T[0], X[0]))
        sets.append((FS, want, (A, N)))
    return sets


def fresh(FS, rng):
    """plots are made from objects with or without fingerprints"""
    if rng.rand() < 0.5:
        del FS.hash_vib, FS.hash_rho
    return FS


def run(ctx):
    pl, gp = common.load("pibronic.plotting.plotting", "pibronic.plotting.grid_plots")
    os.environ["PATH"] = server(ctx.scratch()) + os.pathsep + os.environ.get("PATH", "")

    # 1. several data sets: what is loaded
    n = ctx.scale(60, 900)
    for i in range(n):
        rng = ctx.rng("multi", i)
        root = ctx.scratch()
        tag = "multi %d" % i
        with ctx.guard("raises", tag):
            k = int(rng.randint(1, 4))
            sets = data_sets(ctx, rng, root, k, same_data=bool(rng.randint(2)))
            refs = [references(rng, s[0], sorted({t[1] for t in s[1]})) for s in sets]
            refs[:] = [refs[[q[0].path_analytic_orig for q in sets].index(s[0].path_analytic_orig)]
                       if s[0] is sets[0][0] else r for s, r in zip(sets, refs)]
            # data sets that share a directory share the reference of the original model (the last written one)
            last = {}
            for s, r in zip(sets, refs):
                last[s[0].path_analytic_orig] = {"%s" % t: v for t, v in r["orig_dict"].items()}
            for s in sets:   # one file per data set with all temperatures
                d = {}
                for s2, r in zip(sets, refs):
                    if s2[0].path_analytic_orig == s[0].path_analytic_orig:
                        for t, v in r["orig_dict"].items():
                            d.setdefault(t, v)
                with open(s[0].path_analytic_orig, "w") as f:
                    json.dump(d, f)
                last[s[0].path_analytic_orig] = d
            lst = [fresh(s[0], rng) for s in sets]
            with common.Quiet():
                obj = pl.plot_Z_multiple_FS(lst if k > 1 or rng.randint(2) else lst[0])
                obj.load_data()
            for j, (FS, want, dims) in enumerate(sets):
                compare(ctx, "%s set %d" % (tag, j), (obj.lst_P[j], obj.lst_T[j], obj.lst_X[j]), obj.arr[j], want)
                for T in sorted({t[1] for t in want}):
                    tau = np.asarray(pl.generate_tau_values(obj, T, j), dtype=float)
                    w = np.array([1.0 / (KB * T) / p for p in sorted({t[0] for t in want})])
                    ctx.check(tau.shape == w.shape and np.allclose(tau, w, rtol=1e-9, atol=0), "tau",
                              "%s set %d: tau at T=%.2f is %s, beta/P is %s" % (tag, j, T, tau, w))
            # reference values of every data set and temperature
            sos, trot = [], []
            for j, (FS, want, dims) in enumerate(sets):
                Ts = sorted({"%.2f" % t[1] for t in want})
                B = 40
                ds = {t: {"Z_sos": float(rng.rand())} for t in Ts}
                sos.append((FS, ds))
                tr = {}
                for P in sorted({t[0] for t in want}):
                    if rng.rand() < 0.75:
                        tr[P] = {t: {q: float(rng.choice([rng.rand(), -rng.rand(), 0.0])) for q in ("Z_trotter", "E_trotter", "SvN_trotter", "S2_trotter") if rng.rand() < 0.9}
                                 for t in Ts if rng.rand() < 0.8}
                trot.append(tr)
            sosv = {}
            trv = {}
            for j, (FS, ds) in enumerate(sos):
                sosv.setdefault(FS.path_vib_params, {}).update(ds)
                for P, e in trot[j].items():
                    trv.setdefault((FS.path_vib_params, P), {}).update(e)
            for p, d in sosv.items():
                with open(os.path.join(p, "sos_B40.json"), "w") as f:
                    json.dump(d, f)
            for (p, P), d in trv.items():
                with open(os.path.join(p, "trotter_P%d_B40.json" % P), "w") as f:
                    json.dump(d, f)
            ctx.check(all(os.path.isfile(FS.template_sos_vib.format(B=40)) for FS, _ in sos), "harness-names", tag)
            with common.Quiet():
                pl.load_analytical_original(obj)
                pl.load_analytical_sampling(obj)
                pl.load_sos(obj, 40)
                pl.load_trotter_coupled(obj, 40)
            for j, (FS, want, dims) in enumerate(sets):
                for T in sorted({"%.2f" % t[1] for t in want}):
                    ctx.check(obj.analytical_orig_list[j][T] == last[FS.path_analytic_orig][T], "reference",
                              "%s set %d: reference of the original model at %s is %s, the file has %s" % (tag, j, T, obj.analytical_orig_list[j][T], last[FS.path_analytic_orig][T]))
                    ctx.check(obj.analytical_rho_list[j][T] == refs[j]["rho_dict"][T], "reference",
                              "%s set %d: reference of the sampling model at %s" % (tag, j, T))
                    ctx.check(obj.sos_list[j][T] == sosv[FS.path_vib_params][T], "reference", "%s set %d: sos reference at %s" % (tag, j, T))
                    ctx.event("references", 3)
                    got = obj.trotter_coupled_list[j][T]
                    for q in ("Z_trotter", "E_trotter", "SvN_trotter", "S2_trotter"):
                        w = [trv.get((FS.path_vib_params, P), {}).get(T, {}).get(q, np.nan) for P in sorted({t[0] for t in want})]
                        ctx.check(len(got[q]) == len(w) and all(same(a, b) for a, b in zip(got[q], w)), "trotter",
                                  "%s set %d: %s at %s is %s, the files have %s" % (tag, j, q, T, got[q], w))
                        ctx.event("references")
        ctx.case(("multi", i), True, tag)
        ctx.drop(root)

    # a data set whose reference is missing never shows that of another one
    for i in range(ctx.scale(12, 60)):
        rng = ctx.rng("missing", i)
        root = ctx.scratch()
        with ctx.guard("raises", "missing %d" % i):
            sets = data_sets(ctx, rng, root, 2, Ts=[[300.0], [300.0]])
            with common.Quiet():
                obj = pl.plot_Z_multiple_FS([s[0] for s in sets])
            miss = int(rng.randint(2))
            for fn, path, attr in ((pl.load_sos, lambda FS: FS.template_sos_vib.format(B=80), "sos_list"),
                                   (pl.load_analytical_original, lambda FS: FS.path_analytic_orig, "analytical_orig_list"),
                                   (pl.load_analytical_sampling, lambda FS: FS.path_analytic_rho, "analytical_rho_list")):
                with open(path(sets[1 - miss][0]), "w") as f:
                    json.dump({"300.00": {"Z_sos": 1.0, "Z_coupled": 2.0, "Z_sampling": 3.0}}, f)
                try:
                    with common.Quiet():
                        fn(obj)
                    got = getattr(obj, attr)[miss].get("300.00")
                    ctx.check(got is None or (isinstance(got, float) and np.isnan(got)), "foreign-reference",
                              "%s without a file of data set %d gives it the values %s of another one" % (fn.__name__, miss, got))
                except Exception:
                    pass
                ctx.event("missing_references")
            for s in sets:
                for name in os.listdir(s[0].path_rho_results):
                    os.unlink(os.path.join(s[0].path_rho_results, name))
        ctx.expect_raise(lambda: pl.plot_Z_multiple_FS([s[0] for s in sets]), "empty", "plots without any result are not refused")
        ctx.case(("missing", i), True, "missing %d" % i)
        ctx.drop(root)

    # results that are all stale are as good as none
    for i in range(ctx.scale(10, 60)):
        rng = ctx.rng("stale", i)
        root = ctx.scratch()
        tag = "stale %d" % i
        with ctx.guard("raises", tag):
            sets = data_sets(ctx, rng, root, 2, Ts=[[300.0], [300.0]])
            bad = int(rng.randint(2))
            FSb = sets[bad][0]
            for name in sorted(os.listdir(FSb.path_rho_results)):
                path = os.path.join(FSb.path_rho_results, name)
                with open(path) as f:
                    d = json.load(f)
                d["hash_vib" if rng.rand() < 0.5 else "hash_rho"] = "0" * len(FSb.hash_vib)
                with open(path, "w") as f:
                    json.dump(d, f)
            with common.Quiet():
                obj = pl.plot_Z_multiple_FS([fresh(s[0], rng) for s in sets])
                obj.load_data()
            good, want = sets[1 - bad][0], sets[1 - bad][1]
            compare(ctx, tag, (obj.lst_P[1 - bad], obj.lst_T[1 - bad], obj.lst_X[1 - bad]), obj.arr[1 - bad], want)
            ctx.check(obj.arr[bad].size == 0, "stale", "%s: a set whose results are all stale shows beads %s samples %s"
                      % (tag, obj.lst_P[bad], obj.lst_X[bad]))
            ctx.event("stale_sets")
            for cls in (pl.plot_Z_test, pl.plot_original_Z_test):
                try:
                    with common.Quiet():
                        o = cls(fresh(FSb, rng) if hasattr(FSb, "hash_vib") else FSb)
                        o.load_data()
                except Exception:
                    continue
                ctx.check(o.arr.size == 0, "stale", "%s: %s shows stale results" % (tag, cls.__name__))
        ctx.case(("stale", i), True, tag)
        ctx.drop(root)

    # 2. one data set against itself and against the original model, with drawing
    n = ctx.scale(40, 500)
    for i in range(n):
        rng = ctx.rng("single", i)
        root = ctx.scratch()
        tag = "single %d" % i
        with ctx.guard("raises", tag):
            one = bool(rng.rand() < 0.6)   # the figures show a single temperature
            Ts = [float(t) for t in rng.choice([300.0, 30.0, 300.01, 77.35, 9.5, 1000.0], 1 if one else rng.randint(1, 4), replace=False)]
            (FS, want, dims), = data_sets(ctx, rng, root, 1, Ts=[Ts])
            Ts = sorted({t[1] for t in want})
            Xs = sorted({t[2] for t in want})
            ref = references(rng, FS, Ts)
            fresh(FS, rng)
            with common.Quiet():
                a = pl.plot_Z_test(FS)
                a.load_data()
                b = pl.plot_original_Z_test(FS)
                b.load_data()
            compare(ctx, tag + " plain", (a.lst_P[0], a.lst_T[0], a.lst_X[0]), a.arr, want)
            conv = percent(ref["rho"], ref["orig"])
            compare(ctx, tag + " percent", (b.lst_P[0], b.lst_T[0], b.lst_X[0]), b.arr, want, conv)
            for T in Ts:
                w = np.array([1.0 / (KB * T) / p for p in sorted({t[0] for t in want})])
                ctx.check(np.allclose(np.asarray(b.generate_tau_values(T), dtype=float), w, rtol=1e-9, atol=0), "tau", "%s: tau at %.2f" % (tag, T))
            if len(Ts) == 1:
                with Figures() as figs, common.Quiet():
                    a.plot()
                    b.plot()
                byname = {os.path.basename(p): (p, ax) for p, ax in figs.seen}
                ctx.check(len(byname) == 4, "figures", "%s: figures %s" % (tag, sorted(byname)))
                stem = "D%d_R%d.pdf" % (FS.id_data, FS.id_rho)
                for q, name in (("Z", "Z_"), ("E", "E_"), ("Cv", "Cv_")):
                    if ctx.check(name + stem in byname, "figures", "%s: no figure %s in %s" % (tag, name + stem, sorted(byname))):
                        p, axes = byname[name + stem]
                        ctx.check(os.path.realpath(p).startswith(os.path.realpath(FS.path_rho_plots)), "figures", "%s: saved as %s" % (tag, p))
                        check_curves(ctx, tag, axes[0], Ts[0], [curves_of(want, Ts[0], X, q) for X in Xs], q)
                        ctx.event("figures")
                if ctx.check("Z_orig_" + stem in byname, "figures", "%s: no figure of the original model in %s" % (tag, sorted(byname))):
                    check_curves(ctx, tag, byname["Z_orig_" + stem][1][0], Ts[0], [curves_of(want, Ts[0], X, "Z", conv) for X in Xs], "Z%", 0.0)
                    ctx.event("figures")
        ctx.case(("single", i), True, tag)
        ctx.drop(root)

    # 3. two sampling sets against the original model
    n = ctx.scale(40, 500)
    for i in range(n):
        rng = ctx.rng("versus", i)
        root = ctx.scratch()
        tag = "versus %d" % i
        with ctx.guard("raises", tag):
            one = bool(rng.rand() < 0.6)
            pool = [float(t) for t in rng.choice([300.0, 30.0, 300.01, 77.35, 1000.0], 1 if one else 3, replace=False)]
            sets = data_sets(ctx, rng, root, 2, same_data=bool(rng.randint(2)),
                             Ts=[pool, pool if one else pool[:rng.randint(1, 4)]])
            allT = sorted({t[1] for s in sets for t in s[1]})
            refs = []
            orig = {}
            for FS, want, dims in sets:
                r = references(rng, FS, allT)
                orig[FS.path_analytic_orig] = r["orig"]
                refs.append(r)
            with common.Quiet():
                c = pl.plot_original_Z_vs_diagonal_test([fresh(s[0], rng) for s in sets])
                c.load_data()
            for j, (FS, want, dims) in enumerate(sets):
                conv = percent(refs[j]["rho"], orig[FS.path_analytic_orig])
                compare(ctx, "%s set %d" % (tag, j), (c.lst_P[j], c.lst_T[j], c.lst_X[j]), c.arr[j], want, conv)
            if all(len({t[1] for t in s[1]}) == 1 for s in sets) and sets[0][0].id_data < 10:
                with Figures() as figs, common.Quiet():
                    c.plot()
                ctx.check(len(figs.seen) == 1, "figures", "%s: %d figures" % (tag, len(figs.seen)))
                for p, axes in figs.seen:
                    curves = []
                    for j, (FS, want, dims) in enumerate(sets):
                        conv = percent(refs[j]["rho"], orig[FS.path_analytic_orig])
                        T = [t[1] for t in want][0]
                        curves.append((T, curves_of(want, T, max(t[2] for t in want), "Z", conv)))
                    if curves[0][0] == curves[1][0]:
                        check_curves(ctx, tag, axes[0], curves[0][0], [k[1] for k in curves], "Z%", 0.0)
                        ctx.event("figures")
        ctx.case(("versus", i), True, tag)
        ctx.drop(root)

    # 4. end to end: the files of a real analysis
    for i in range(ctx.scale(4, 30)):
        rng = ctx.rng("real", i)
        root = ctx.scratch()
        tag = "real %d" % i
        with ctx.guard("raises", tag):
            FS = drive.make_fs(root, models.coupled(rng, 2, 2), models.diagonal(rng, 2, 2))
            table = {}
            for P in (4, 12):
                for T in (300.0, 77.35):
                    s = refstats.sample_set(rng, 30, 2e-4, 0)
                    np.savez(FS.path_rho_results + "P%d_T%.2f_J0_data_points.npz" % (P, T), hash_vib=FS.hash_vib, hash_rho=FS.hash_rho,
                             number_of_samples=30, s_rho=s[0], s_g=s[1], s_gP=s[2], s_gM=s[3])
                    table[T] = dict(Z=1.3, E=0.1, Cv=1e-4, Zp=1.29, Zm=1.31)
            histories.write_analytic(FS, FS.hash_vib, FS.hash_rho, table)
            histories.analyse(FS, ["plain", "jackknife"][i % 2], ["basic", "alpha"][(i // 2) % 2])
            files = histories.thermo_files(FS)
            ctx.check(len(files) == 4, "analysis", "%s: analysis wrote %s" % (tag, sorted(files)))
            want = {}
            for name, d in files.items():
                P, T, X = name[1:].replace("_thermo", "").replace("_T", " ").replace("_X", " ").split()
                want[(int(P), float(T), int(X))] = {k: v for k, v in d.items() if not k.startswith("hash")}
            with common.Quiet():
                a = pl.plot_Z_test(FS)
                a.load_data()
            compare(ctx, tag, (a.lst_P[0], a.lst_T[0], a.lst_X[0]), a.arr, want)
        ctx.case(("real", i), True, tag)
        ctx.drop(root)

    # 5. maps of the parameters of the models
    for i in range(ctx.scale(15, 150)):
        rng = ctx.rng("maps", i)
        root = ctx.scratch()
        tag = "maps %d" % i
        with ctx.guard("raises", tag):
            A, N = int(rng.randint(2, 6)), int(rng.randint(1, 4))
            vib = models.coupled(rng, A, N, quad_scale=0.1)
            if rng.rand() < 0.5:
                vib["E"][0, 1] = vib["E"][1, 0] = 0.0
            org = models.coupled(rng, A, N, quad_scale=0.1)
            FS = drive.make_fs(root, vib, models.diagonal(rng, A, N), int(rng.randint(0, 30)))
            if rng.rand() < 0.5:
                # the map of a pair of modes shows the entry of that pair
                vib["quad"] = vib["quad"] * (1 + 0.1 * np.tri(N)[:, :, None, None])
                org["quad"] = org["quad"] * (1 - 0.1 * np.tri(N)[:, :, None, None])
                models.write_json(FS.path_vib_model, vib)
            models.write_json(FS.path_orig_model, org)
            obj = gp.plotGrids(FS)
            with Figures() as figs, common.Quiet():
                obj.load_data()
                obj.plot_energy()
                obj.plot_linear_coupling()
                obj.plot_quadratic_coupling()
            want = {}
            for kind, m in (("original", org), ("coupled", vib)):
                want["%s_energy_grid_D%d.pdf" % (kind, FS.id_data)] = m["E"]
                for j in range(N):
                    want["%s_linear_grid_D%d_N%d.pdf" % (kind, FS.id_data, j + 1)] = m["lin"][j]
                    for j2 in range(N):
                        want["%s_quadratic_grid_D%d_N%d_N%d.pdf" % (kind, FS.id_data, j + 1, j2 + 1)] = m["quad"][j, j2]
            got = {os.path.basename(p): axes for p, axes in figs.seen}
            ctx.check(len(figs.seen) == len(got) and set(got) == set(want), "maps", "%s: maps %s, wanted %s" % (tag, sorted(got), sorted(want)))
            for name in set(got) & set(want):
                ims = [im for ax in got[name] for im in ax["images"]]
                ctx.check(len(ims) >= 1 and ims[0].shape == want[name].shape and np.array_equal(ims[0], want[name]), "maps",
                          "%s: %s shows %s, the model has %s" % (tag, name, ims[:1], want[name]))
                signs = {(int(p[0]), int(p[1])): s for p, s in got[name][0]["texts"]}
                w = {(x, y): {1: "+", -1: "-", 0: "0"}[int(np.sign(want[name][y, x]))] for x in range(A) for y in range(A)}
                ctx.check(signs == w, "maps-sign", "%s: %s: signs %s, the model has %s" % (tag, name, signs, w))
                ctx.event("maps")
        ctx.case(("maps", i), True, tag)
        ctx.drop(root)


if __name__ == "__main__":
    common.main("C19", run, rule="result files of random grids with gaps, stale files, several data sets",
                required=("values", "gaps", "stale_files", "stale_sets", "figures", "references", "maps"),
                assumptions=["figures are not rendered: the artists of the figure are read when it is saved",
                             "drawing is judged for a single temperature (the figures have one panel)"])
