"""C12: file names and directory objects.

Monitor: histories over several directory objects that share root directories with hostile names (file-name look-alikes,
format and glob metacharacters, spaces, non-ASCII).  An independent bookkeeping of (data set, sampling set, parameters)
decides what every listing, grouping and parsing function has to return; every path handed out is recorded, and two
different parameter tuples with one path are a violation.  After every switch of the sampling set the object is compared
with a freshly created one, and existence queries are compared with the directories on disk.
"""
import json
import os
import shutil
from collections import Counter
import numpy as np
import common

ROOTS = ["plain", "with space", "P5_T300.00_J3_data_points.npz", "sos_B12.json", "trotter_P3_B4.json", "P7_T1.00_X9_thermo",
         "{P:d}", "{}", "a{b}c{{d}}", "[abc]", "st*r", "wh?t", "uml\u00e4ut_\u6f22", "q'uote\"s", "100%d", "data_set_3/rho_2/results",
         "rho_1", "_B9.json", "_T5.00_J", "_J4_data_", "dots..x", "comma,semi;", "work_scratch", "-dash", "X_thermo", "tab\tx", "$HOME", "a=b",
         "a}b", "}{", "{x", "x}}", "(paren)", "~tilde", "trotter_P", "P", "_P3_", "{0}", "[!x]", "results"]


def expect_paths(FS):
    """name -> path for the public string attributes of a directory object"""
    out = {}
    for k in dir(FS):
        if k.startswith(("path_", "template_", "id_")):
            v = getattr(FS, k)
            if isinstance(v, (str, int, np.integer)):
                out[k] = v if isinstance(v, str) else int(v)
    return out


def resolved_dirs(FS):
    return sorted(os.path.normpath(getattr(FS, n)) for n in FS.dir_list)


class World:
    """what exists under one root: result files by kind"""

    def __init__(self):
        self.pimc, self.thermo, self.sos_vib, self.sos_rho, self.trotter = {}, {}, {}, {}, {}
        self.models = {}


def temperature(rng):
    k = rng.randint(6)
    if k == 0:
        return float(rng.choice([1, 10, 100, 250, 300, 1000]))
    if k == 1:
        return float(rng.uniform(0.01, 2))
    if k == 2:
        return float(round(rng.uniform(1, 2000), 2))
    if k == 3:
        return float(rng.uniform(1, 99999))
    if k == 4:
        return 300.0 + 0.01 * int(rng.randint(-4, 5))
    return int(rng.choice([5, 77, 273, 300]))


def touch(path, payload=None):
    if payload is None:
        open(path, "w").close()
    else:
        with open(path, "wb") as f:
            np.savez(f, **payload)


def write_sampling(FS, rng, A, N):
    d = {"number of modes": N, "number of surfaces": A, "energies": rng.standard_normal(A).tolist(), "frequencies": rng.uniform(0.01, 0.2, N).tolist(),
         "linear couplings": rng.standard_normal((N, A)).tolist()}
    with open(FS.path_rho_model, "w") as f:
        json.dump(d, f)


def write_coupled(FS, rng, A, N):
    E = rng.standard_normal((A, A))
    d = {"number of modes": N, "number of surfaces": A, "energies": (E + E.T).tolist(), "frequencies": rng.uniform(0.01, 0.2, N).tolist()}
    with open(FS.path_vib_model, "w") as f:
        json.dump(d, f)


def run(ctx):
    fs, fname, pp = common.load("pibronic.data.file_structure", "pibronic.data.file_name", "pibronic.data.postprocessing")
    FSC = fs.FileStructure
    handed = {}

    def record(path, key):
        """distinct parameters must never share a path"""
        p = os.path.normpath(path)
        ctx.event("paths_recorded")
        if p in handed:
            ctx.check(handed[p] == key, "collision", "%s is used for %s and for %s" % (p, handed[p], key))
        handed[p] = key

    def inside(path, directory, what):
        ctx.check(os.path.normpath(os.path.dirname(path)) == os.path.normpath(directory), "outside", "%s: %s is not in %s" % (what, path, directory))

    def fresh_equal(FS, root, D, R, what):
        """FS must look like a new object for (D, R)"""
        with common.Quiet():
            new = FSC(root, D, R, no_makedir=True)
        a, b = expect_paths(FS), expect_paths(new)
        diff = sorted(k for k in set(a) | set(b) if (os.path.normpath(a[k]) if isinstance(a.get(k), str) else a.get(k)) !=
                      (os.path.normpath(b[k]) if isinstance(b.get(k), str) else b.get(k)))
        ctx.check(not diff, "switch", "%s: differs from a fresh object in %s" % (what, [(k, a.get(k), b.get(k)) for k in diff][:3]))
        ctx.check(resolved_dirs(FS) == resolved_dirs(new), "switch-dirs", what + ": its list of directories differs from a fresh object's")
        ctx.event("compared_with_fresh")

    def truth(FS, what):
        want = all(os.path.isdir(p) for p in resolved_dirs(FS))
        with common.Quiet():
            got = FS.directories_exist()
        ctx.event("existence_true" if want else "existence_false")
        ctx.check(bool(got) == want, "exists", "%s: directories_exist() is %s" % (what, got))

    def hashes(FS, root, D, R, what):
        """fingerprints after generate_model_hashes() are those of a fresh object"""
        with common.Quiet():
            new = FSC(root, D, R, no_makedir=True)
            try:
                new.generate_model_hashes(True)
            except Exception:
                return
        if hasattr(FS, "hash_rho"):
            ctx.check(FS.hash_rho == new.hash_rho, "stale-hash", what + ": keeps the fingerprint of another sampling set")
            ctx.event("live_hash_compared")
        with ctx.guard("hash-raises", what):
            with common.Quiet():
                FS.generate_model_hashes()
            ctx.check(FS.hash_rho == new.hash_rho and FS.hash_vib == new.hash_vib, "hash", what + ": fingerprints differ from a fresh object's")
            ctx.event("hashes_compared")

    nroots = ctx.scale(len(ROOTS) * 5, len(ROOTS) * 60)
    for ir in range(nroots):
        rng = ctx.rng("root", ir)
        base = ctx.scratch()
        name = ROOTS[ir % len(ROOTS)]
        root = os.path.join(base, name)
        os.makedirs(root)
        given = root
        if ir % 5 == 1:
            given = root + "/"
        if ir % 5 == 2:
            os.chdir(base)
            given = name if not name.startswith("~") else "./" + name
        if ir % 5 == 3:
            given = os.path.join(root, "..", os.path.basename(root)) if "/" not in name else root
        W, objs, dirs_removed = World(), [], 0
        ids = [int(x) for x in rng.choice([0, 1, 2, 3, 11, 12, 21, 111, 1000], 3, replace=False)]
        ctx.case(("root", name, ir % 5), sample="root %r given as %r" % (name, given))
        with ctx.guard("raises", "history under root %r" % name):
            A, N = 2, 2
            for step in range(ctx.scale(26, 60)):
                op = "new" if not objs else str(rng.choice(["new", "switch", "switch", "switch", "files", "files", "files", "list", "list", "rm", "mkrho", "model", "hash", "quiet"]))
                tag = "root %r step %d %s" % (name, step, op)
                if op == "new":
                    D, R = int(rng.choice(ids)), int(rng.choice(ids))
                    with common.Quiet():
                        if rng.rand() < 0.3:
                            class Box:
                                id_data, id_rho = D, R
                            FS = FSC.from_boxdata(given, Box)
                        else:
                            FS = FSC(given, D, R)
                    truth(FS, tag)
                    ctx.check(FS.directories_exist(), "make", tag + ": directories are missing after creation")
                    ctx.check(os.path.realpath(FS.path_root) == os.path.realpath(root), "root", "%s: path_root is %s" % (tag, FS.path_root))
                    objs.append([FS, D, R])
                elif op == "quiet":                              # an object that makes no directories
                    D, R = 77, int(rng.choice(ids))
                    before = sorted(os.listdir(root))
                    with common.Quiet():
                        FS = FSC(given, D, R, no_makedir=True)
                    ctx.check(sorted(os.listdir(root)) == before, "made", tag + ": no_makedir made directories")
                    truth(FS, tag)
                o = objs[int(rng.randint(len(objs)))]
                FS, D, R = o
                key = (D, R)
                again = op in ("switch", "mkrho") and rng.rand() < 0.25      # the sampling set that is already in use
                with common.Quiet():
                    if op not in ("rm", "new", "quiet") and not again and not FS.directories_exist():
                        FS.make_directories()
                if again and rng.rand() < 0.5:                 # ... whose directories somebody removed
                    gone = os.path.normpath(str(rng.choice([FS.path_rho, FS.path_rho_plots, FS.path_rho_results, FS.path_rho_params, FS.path_rho_output])))
                    if os.path.realpath(gone).startswith(os.path.realpath(root) + os.sep) and os.path.isdir(gone):
                        shutil.rmtree(gone)
                        for table in (W.pimc, W.thermo, W.sos_vib, W.sos_rho, W.trotter):
                            for k in table:
                                table[k] = {q: v for q, v in table[k].items() if os.path.isfile(q)}
                        ctx.event("same_set_again_after_removal")
                if op == "switch":
                    R2 = R if again else int(rng.choice(ids))
                    with common.Quiet():
                        FS.change_rho(R2)
                    o[2] = R = R2
                    fresh_equal(FS, root, D, R, tag)
                    truth(FS, tag)
                    ctx.check(FS.directories_exist(), "switch-make", tag + ": the new sampling set has no directories")
                    ctx.check(all(os.path.isdir(p) for p in (FS.path_rho_params, FS.path_rho_results, FS.path_rho_output, FS.path_rho_plots)),
                              "switch-make", tag + ": the new sampling set lacks directories")
                    hashes(FS, root, D, R, tag)
                elif op == "mkrho":
                    R2 = R if again else int(rng.choice(ids))
                    old = expect_paths(FS)
                    with common.Quiet():
                        FS.make_rho_directories(R2)
                        other = FSC(root, D, R2, no_makedir=True)
                    ctx.check(old == expect_paths(FS), "mkrho-moved", tag + ": making directories changed the object")
                    ctx.check(all(os.path.isdir(p) for p in (other.path_rho_params, other.path_rho_results, other.path_rho_output, other.path_rho_plots)),
                              "mkrho", tag + ": directories of the other sampling set are missing")
                    truth(FS, tag)
                elif op == "rm":
                    names = resolved_dirs(FS)
                    p = names[int(rng.randint(len(names)))]
                    p = p if p != os.path.normpath(root) else FS.path_rho_plots
                    if os.path.isdir(p) and os.path.realpath(p).startswith(os.path.realpath(root) + os.sep):
                        shutil.rmtree(p)
                        if rng.rand() < 0.3:
                            open(os.path.normpath(p), "w").close()          # a plain file where the directory was
                            truth(FS, tag)
                            os.remove(os.path.normpath(p))
                        for table in (W.pimc, W.thermo, W.sos_vib, W.sos_rho, W.trotter):
                            for k in table:
                                table[k] = {q: v for q, v in table[k].items() if os.path.isfile(q)}
                        dirs_removed += 1
                    for oo in objs:
                        truth(oo[0], tag)
                elif op == "model":
                    write_coupled(FS, rng, A, N)
                    write_sampling(FS, rng, A, N)
                    for oo in objs:                                # documented: refresh after editing
                        with common.Quiet():
                            try:
                                oo[0].generate_model_hashes(True)
                            except Exception:
                                for h in ("hash_vib", "hash_rho"):
                                    if hasattr(oo[0], h):
                                        delattr(oo[0], h)
                    # results of the old models stay on disk; retrive_pimc_file_list_of only returns current ones
                elif op == "hash":
                    hashes(FS, root, D, R, tag)
                elif op == "files":
                    for _ in range(int(rng.randint(1, 6))):
                        P, T = int(rng.choice([1, 2, 3, 11, 12, 13, 20, 64, 110, 1000, 16384])), temperature(rng)
                        J, X, B = int(rng.choice([0, 1, 2, 10, 12, 1234567])), int(rng.choice([1, 10, 100, 1000, 123456, 10000000, 2500000001])), int(rng.choice([1, 2, 8, 10, 11, 80, 100, 1024, 10240]))
                        t2 = float("%.2f" % T)
                        kind = str(rng.choice(["pimc", "thermo", "sosv", "sosr", "trot", "train", "exec", "decoy", "fixed"]))
                        if kind == "pimc":
                            p = FS.template_pimc.format(P=P, T=T, J=str(J))
                            inside(p, FS.path_rho_results, tag)
                            ctx.check(os.path.basename(p) == fname.pimc().format(P=P, T=T, J=J), "two-names", tag + ": the two ways to name a result differ")
                            record(p, ("pimc", ir, D, R, P, t2, J))
                            e = pp.extract_bead_value_from_pimc_file_path(p), pp.extract_temperature_value_from_pimc_file_path(p), pp.extract_job_value_from_pimc_file_path(p)
                            ctx.check(e == (P, t2, J) and isinstance(e[0], int) and isinstance(e[2], int), "parse", "%s: %s parsed as %s" % (tag, p, e))
                            hv, hr = getattr(FS, "hash_vib", None), getattr(FS, "hash_rho", None)
                            if hv is None or hr is None:
                                hv = hr = "none"
                            touch(p, dict(hash_vib=hv, hash_rho=hr))
                            W.pimc.setdefault(key, {})[p] = (P, t2, J, hv, hr)
                        elif kind == "thermo":
                            p = FS.template_jackknife.format(P=P, T=T, X=X)
                            inside(p, FS.path_rho_results, tag)
                            record(p, ("thermo", ir, D, R, P, t2, X))
                            e = pp.extract_bead_value_from_thermo_file_path(p), pp.extract_temperature_value_from_thermo_file_path(p), pp.extract_sample_value_from_thermo_file_path(p)
                            ctx.check(e == (P, t2, X), "parse", "%s: %s parsed as %s" % (tag, p, e))
                            touch(p)
                            W.thermo.setdefault(key, {})[p] = (P, t2, X)
                        elif kind == "sosv":
                            p = FS.template_sos_vib.format(B=B)
                            inside(p, FS.path_vib_params, tag)
                            record(p, ("sosv", ir, D, B))
                            ctx.check(pp.extract_basis_value_from_sos_file_path(p) == B, "parse", "%s: %s" % (tag, p))
                            touch(p)
                            W.sos_vib.setdefault(D, {})[p] = B
                            if rng.rand() < 0.6:               # the sampling system has the same basis size
                                q = FS.template_sos_rho.format(B=B)
                                record(q, ("sosr", ir, D, R, B))
                                touch(q)
                                W.sos_rho.setdefault(key, {})[q] = B
                        elif kind == "sosr":
                            p = FS.template_sos_rho.format(B=B)
                            inside(p, FS.path_rho_params, tag)
                            record(p, ("sosr", ir, D, R, B))
                            ctx.check(pp.extract_basis_value_from_sos_file_path(p) == B, "parse", "%s: %s" % (tag, p))
                            touch(p)
                            W.sos_rho.setdefault(key, {})[p] = B
                        elif kind == "trot":
                            p = FS.template_trotter_vib.format(P=P, B=B)
                            inside(p, FS.path_vib_params, tag)
                            record(p, ("trot", ir, D, P, B))
                            e = pp.extract_bead_value_from_trotter_file_path(p), pp.extract_basis_value_from_trotter_file_path(p)
                            ctx.check(e == (P, B), "parse", "%s: %s parsed as %s" % (tag, p, e))
                            touch(p)
                            W.trotter.setdefault(D, {})[p] = (P, B)
                        elif kind == "train":
                            for f, nm in ((fname.training_data_input, "in"), (fname.training_data_g_output, "g"), (fname.training_data_rho_output, "rho")):
                                p = os.path.join(FS.path_rho_results, f().format(P=P, T=T, J=J))
                                record(p, ("train" + nm, ir, D, R, P, t2, J))
                                touch(p)
                        elif kind == "fixed":                      # the files with fixed names, as left by calculations
                            for a in ("path_analytic_rho", "path_analytic_vib", "path_analytic_orig", "path_har_model", "path_iter_model", "path_iter_mat",
                                      "path_orig_model", "path_ortho_mat"):
                                if rng.rand() < 0.6 and not os.path.exists(getattr(FS, a)):
                                    touch(getattr(FS, a))
                            for dd in (FS.path_rho_plots, FS.path_vib_plots, FS.path_vib_results, FS.path_es):
                                touch(os.path.join(dd, "P%d_T%.2f_J%d_data_points.npz" % (P, T, J)) if rng.rand() < 0.5 else os.path.join(dd, "plot.pdf"))
                        elif kind == "exec":
                            p = os.path.join(FS.path_rho_output, fname.execution_output().format(D=D, R=R, P=P, T=T, J=J))
                            record(p, ("exec", ir, D, R, P, t2, J))
                            record(fname.execution_output().format(D=D, R=R, P=P, T=T, J=J), ("execname", D, R, P, t2, J))
                            touch(p)
                        else:
                            for nm in ("P%d_T%.2f_J%d_data_points.npz.tmp" % (P, T, J), "P%d_T%.2f_X%d_thermo.bak" % (P, T, X), "notes.txt", "old_P3_T1.00_J0_data_points.npz"):
                                touch(os.path.join(FS.path_rho_results, nm))
                            touch(os.path.join(FS.path_vib_params, "sos_B%d.json.bak" % B))
                        ctx.event("files_" + kind)
                elif op == "list":
                    norm = lambda l: Counter(os.path.realpath(x) for x in l)  # noqa
                    want = lambda t: Counter(os.path.realpath(x) for x in t)  # noqa
                    wp, wt = W.pimc.get(key, {}), W.thermo.get(key, {})
                    wv, wr, wtr = W.sos_vib.get(D, {}), W.sos_rho.get(key, {}), W.trotter.get(D, {})
                    with common.Quiet():
                        lp, lt = pp.retrive_pimc_file_list(FS), pp.retrive_jackknife_file_list(FS)
                        lv, lr = pp.retrive_sos_coupled_file_list(FS), pp.retrive_sos_sampling_file_list(FS)
                        allp = pp.retrive_all_file_paths(FS)
                        jp = pp.retrive_file_paths_for_jackknife(FS)
                    for what, g, w in (("results", lp, wp), ("thermo files", lt, wt), ("coupled sos files", lv, wv), ("sampling sos files", lr, wr)):
                        ctx.check(norm(g) == want(w), "listing", "%s: %d %s listed, %d present" % (tag, len(g), what, len(w)), dict(got=g, want=sorted(w)))
                        ctx.event("listed_entries", len(w))
                    ctx.check([norm(x) for x in allp] == [want(x) for x in (wp, wt, wv, wr)], "listing", tag + ": retrive_all_file_paths differs")
                    ctx.check([norm(x) for x in jp] == [want(x) for x in (wp, wv, wr)], "listing", tag + ": retrive_file_paths_for_jackknife differs")
                    B = int(rng.choice([1, 8, 10, 100]))
                    with common.Quiet():
                        lb, lb2 = pp.retrive_sos_coupled_file_list(FS, B), pp.retrive_sos_sampling_file_list(FS, B=B)
                    ctx.check(norm(lb) == want({p: 1 for p, b in wv.items() if b == B}) and norm(lb2) == want({p: 1 for p, b in wr.items() if b == B}),
                              "listing-basis", "%s: files of basis size %d" % (tag, B))
                    wP, wT, wB = sorted({v[0] for v in wp.values()}), sorted({v[1] for v in wp.values()}), sorted(set(wv.values()) & set(wr.values()))
                    with common.Quiet():
                        g = pp.extract_parameter_lists(lp, lv, lr)
                        single = pp.extract_bead_paramater_list(lp), pp.extract_temperature_paramater_list(lp), pp.extract_sos_basis_paramater_list(lv, lr)
                        jk = pp.extract_jackknife_parameters(lp, lv, lr)
                        th = pp.extract_pimc_parameters(lt, lv, lr)
                    ctx.check(tuple(map(list, g)) == (wP, wT, wB), "grouping", "%s: parameter lists %s instead of %s" % (tag, g, (wP, wT, wB)))
                    ctx.check(tuple(map(list, single)) == (wP, wT, wB), "grouping", "%s: parameter lists %s instead of %s" % (tag, single, (wP, wT, wB)))
                    ctx.check((jk["pimc_beads"], jk["temperatures"], jk["basis_fxns"]) == (wP, wT, wB), "grouping", "%s: %s" % (tag, jk))
                    wth = (sorted({v[0] for v in wt.values()}), sorted({v[1] for v in wt.values()}), sorted({v[2] for v in wt.values()}), wB)
                    ctx.check((th["pimc_beads"], th["temperatures"], th["samples"], th["basis_fxns"]) == wth, "grouping", "%s: %s instead of %s" % (tag, th, wth))
                    with common.Quiet():
                        tr = pp.extract_trotter_paramater_list(list(wtr))
                    wtd = {}
                    for P, b in wtr.values():
                        wtd.setdefault(b, []).append(P)
                    ctx.check({k: sorted(v) for k, v in dict(tr).items()} == {k: sorted(v) for k, v in wtd.items()}, "grouping", "%s: trotter %s instead of %s" % (tag, dict(tr), wtd))
                    pt = [(v[0], v[1]) for v in wp.values()][:3] + [(1, 300.0), (11, 300.01)]
                    has = hasattr(FS, "hash_vib") and hasattr(FS, "hash_rho")
                    for P, T in pt:
                        w = {p: 1 for p, v in wp.items() if v[:2] == (P, T) and (not has or (v[3], v[4]) == (FS.hash_vib, FS.hash_rho))}
                        with common.Quiet():
                            g = pp.retrive_pimc_file_list_of(FS, P, T)
                        ctx.check(norm(g) == want(w), "listing-of", "%s: P=%d T=%s gives %d files instead of %d" % (tag, P, T, len(g), len(w)))
                        ctx.event("grouped_queries")
        if dirs_removed:
            ctx.event("histories_with_removal")
        os.chdir(ctx.scratch_root)
        ctx.drop(base)

    # ---- names alone: dense parameter grids, every pair distinct --------------------------------------------------
    with ctx.guard("raises", "file names"):
        root = ctx.scratch()
        with common.Quiet():
            FSs = {(D, R): FSC(root, D, R, no_makedir=True) for D in (0, 1, 2, 11, 12, 111) for R in (0, 1, 2, 11, 12, 111)}
        Ps, Ts, Js = (1, 2, 11, 12, 111, 112, 121), (0.01, 0.1, 1.0, 1.01, 1.1, 10.0, 10.1, 11.0, 100.0, 100.01, 110.0, 300.0, 1000.0, 0.5), (0, 1, 10, 11, 100, 101, 110)
        for (D, R), FS in FSs.items():
            inside(FS.path_rho, FS.path_data, "rho directory") if not FS.path_rho.endswith(os.sep) else inside(os.path.normpath(FS.path_rho), FS.path_data, "rho directory")
            for P in Ps:
                for T in Ts:
                    for J in Js:
                        record(FS.template_pimc.format(P=P, T=T, J=str(J)), ("pimc", "g", D, R, P, T, J))
                        record(FS.template_jackknife.format(P=P, T=T, X=J), ("thermo", "g", D, R, P, T, J))
                        if D < 3 and R < 3:
                            record(fname.execution_output().format(D=D, R=R, P=P, T=T, J=J), ("execname", D, R, P, T, J))
                for B in Js:
                    record(FS.template_trotter_vib.format(P=P, B=B), ("trot", "g", D, P, B))
                    record(FS.template_sos_vib.format(B=B), ("sosv", "g", D, B))
                    record(FS.template_sos_rho.format(B=B), ("sosr", "g", D, R, B))
            fixed = {k: os.path.normpath(v) for k, v in expect_paths(FS).items() if k.startswith("path_")}
            ctx.check(len(set(fixed.values())) == len(fixed), "collision", "two of the fixed paths coincide: %s" % sorted(fixed.items()))
            for k, v in fixed.items():
                if "rho" in k:
                    record(v, (k, D, R))
                    ctx.check(os.path.commonpath([v, os.path.normpath(FS.path_rho)]) == os.path.normpath(FS.path_rho), "outside", "%s = %s is outside the sampling set" % (k, v))
                elif k != "path_root":
                    record(v, (k, D))
                    ctx.check(os.path.commonpath([v, os.path.normpath(FS.path_data)]) == os.path.normpath(FS.path_data), "outside", "%s = %s is outside the data set" % (k, v))
            ctx.case(("grid", D, R))
    # ---- the name a result object chooses for itself ---------------------------------------------------------------
    pimc = common.load("pibronic.pimc.pimc")
    with ctx.guard("raises", "names chosen by result objects"):
        root = ctx.scratch()
        with common.Quiet():
            FS = FSC(root, 3, 1)
        rng = ctx.rng("result names")
        for k in range(ctx.scale(400, 4000)):
            class Box:
                beads, temperature, samples = int(rng.choice([1, 3, 11, 12, 100, 1000])), float("%.2f" % temperature(rng)), int(rng.randint(1, 50))
                hash_vib = hash_rho = "h"
            J = int(rng.choice([0, 1, 2, 10, 11, 12, 99, 100, 9999, 10000, 10001, 12345, 22345, 1234567, 11234567, 91234567, 2 ** 31 + 5]))
            cls = (pimc.BoxResult, pimc.BoxResultPM)[k % 2]
            with common.Quiet():
                r = cls(data=Box)
                r.path_root, r.id_job = FS.path_rho_results, (J, str(J), J if J else None)[k % 3]
                p = r.compute_path_to_file()
            record(p, ("result object", Box.beads, Box.temperature, J))
            ctx.check(os.path.normpath(p) == os.path.normpath(FS.template_pimc.format(P=Box.beads, T=Box.temperature, J=str(J))), "two-names",
                      "job %s of P=%d T=%s is saved as %s" % (r.id_job, Box.beads, Box.temperature, p))
            ctx.event("result_object_names")
        # directories of another data set of the same root
        for D in (0, 3, 7, 112):
            with common.Quiet():
                (FS.verify_directories_exists(D, root) if D % 2 else FS.verify_directories_exists(id_data=D, path_root=root))
                other = FSC(root, D, no_makedir=True)
            ctx.check(all(os.path.isdir(x) for x in resolved_dirs(other)) and other.directories_exist(), "make",
                      "verify_directories_exists(%d) left directories of that data set missing" % D)
            ctx.case(("verify", D))
    for bad in ("nope",):
        ctx.expect_raise(lambda: FSC(os.path.join(ctx.scratch_root, bad), 0, 0), "bad-root", "a root that does not exist was accepted")
    ctx.notes["roots"] = ROOTS


if __name__ == "__main__":
    common.main("C12", run, rule="distinct = (root name, how the root is given) histories and (data set, sampling set) name grids",
                required=("compared_with_fresh", "existence_true", "existence_false", "hashes_compared", "listed_entries", "grouped_queries", "files_pimc", "files_thermo",
                          "files_sosv", "files_sosr", "files_trot", "histories_with_removal", "same_set_again_after_removal", "result_object_names"),
                assumptions=["result directories contain files of the package's own naming plus unrelated names", "after editing a model the owner refreshes the object's fingerprints"])
