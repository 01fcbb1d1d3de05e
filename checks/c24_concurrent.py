"""C24: things that run at the same time.

Part 1: processes that set up data sets and sampling sets, run jobs and analyse, all in one root and all at once, with
delays injected around every file system call; the oracle is the tree that the same actions leave behind when they
are done one after another in another root, for samples what each job itself had drawn, and for thermo files the
reference estimators over the samples.
Part 2: result files are delivered (renamed into place) while an analysis of the same sampling set runs, at chosen
file system calls of that analysis; every output must report the estimators over a set of whole files that contains
all which were there before the analysis began.
"""
import builtins
import functools
import glob
import io
import itertools
import json
import os
import random
import shutil
import sys
import time
import traceback
import numpy as np
import common
import drive
import histories
import models
import refstats
from c07_helpers import write, analytic

HOOKS = [(os, n) for n in ("mkdir", "replace", "rename", "listdir", "scandir", "unlink", "remove", "stat")]
HOOKS += [(os.path, n) for n in ("exists", "isdir", "isfile")]
HOOKS += [(builtins, "open"), (io, "open"), (shutil, "copyfile"), (shutil, "copy"), (shutil, "move"), (np, "load"), (np, "save"), (np, "savez"), (glob, "glob")]


class hooked:
    """call tick(name, when) around the file system calls of this process"""

    def __init__(self, tick):
        self.tick, self.busy = tick, False

    def wrap(self, real, name):
        @functools.wraps(real)
        def call(*a, **k):
            if self.busy:
                return real(*a, **k)
            self.busy = True
            try:
                self.tick(name, "before")
            finally:
                self.busy = False
            r = real(*a, **k)
            self.busy = True
            try:
                self.tick(name, "after")
            finally:
                self.busy = False
            return r
        return call

    def __enter__(self):
        self.old = [(m, n, getattr(m, n)) for m, n in HOOKS if callable(getattr(m, n, None))]
        for m, n, real in self.old:
            setattr(m, n, self.wrap(real, n))

    def __exit__(self, *a):
        for m, n, real in self.old:
            setattr(m, n, real)
        return False


# ------------------------------------------------------------------------------------------------ part 1
def fs_of(root, D, R, via=None):
    fs = common.load("pibronic.data.file_structure")
    if via is None:
        return fs.FileStructure(root, D, R)
    FS = fs.FileStructure(root, D, via)
    FS.change_rho(R)
    return FS


class Play:
    """the actions of one round; at once (together) or one after another"""

    def __init__(self, root, plan, logs, together, seed):
        self.root, self.plan, self.logs, self.together, self.seed = root, plan, logs, together, seed
        self.go = time.time() + 0.15

    def delays(self, name):
        if not self.together:
            return lambda *a: None
        rnd = random.Random("%s %s" % (self.seed, name))
        log = self.log

        def tick(what, when):
            log.write("%.6f %s %s\n" % (time.monotonic(), what, when))
            if rnd.random() < 0.5:
                common.REAL_SLEEP(rnd.choice([0, 0.0005, 0.002, 0.006]))
        return tick

    def fork(self, name, action):
        pid = os.fork()
        if pid:
            if not self.together:
                self.wait([pid])
            return pid
        rc = 1
        try:
            common.die_with_parent()
            self.log = open(os.path.join(self.logs, name + ".log"), "w")
            with common.Quiet(), hooked(self.delays(name)):
                action()
            self.log.close()
            rc = 0
        except BaseException:
            with open(os.path.join(self.logs, name + ".err"), "w") as f:
                f.write(traceback.format_exc())
        finally:
            os._exit(rc)

    def wait(self, pids):
        for p in pids:
            if p is not None:
                try:
                    os.waitpid(p, 0)
                except ChildProcessError:   # (had ended, one after another)
                    pass

    def at(self, t):
        if self.together:
            common.REAL_SLEEP(max(0.0, t - time.time()))

    def run(self):
        self.wait([self.fork("D%d" % g["D"], functools.partial(self.group, g)) for g in self.plan])

    def group(self, g):
        """a data set: its models, then its sampling sets"""
        vio = common.load("pibronic.vibronic.vibronic_model_io")
        self.at(self.go)
        D, R0 = g["D"], g["members"][0]["R"]
        FS = fs_of(self.root, D, R0)
        models.write_json(FS.path_vib_model, g["vib"])
        model = vio.load_model_from_JSON(FS.path_vib_model)
        vio.save_model_to_JSON(FS.path_vib_model, model)
        if g["U"] is not None:
            vio.create_fake_coupled_model(FS, transformation_matrix=g["U"])
        vio.create_basic_diagonal_model(FS)
        go = time.time() + 0.05
        self.wait([self.fork("D%d_R%d" % (D, m["R"]), functools.partial(self.member, g, m, go)) for m in g["members"]]
                  + [self.fork("D%d_V%d" % (D, k), functools.partial(self.visitor, g, v, go)) for k, v in enumerate(g["visitors"])])

    def visitor(self, g, v, go):
        """several ask for the paths of the same, new sampling set"""
        R, how = v
        self.at(go)
        if how == "new":
            FS = fs_of(self.root, g["D"], R)
        elif how == "change":
            FS = fs_of(self.root, g["D"], R, g["members"][0]["R"])
        elif how == "make":
            FS = fs_of(self.root, g["D"], g["members"][0]["R"])
            FS.make_rho_directories(R)
            FS.change_rho(R)
        for d in (FS.path_rho_params, FS.path_rho_results, FS.path_rho_output, FS.path_rho_plots):
            assert os.path.isdir(d), d + " is missing"

    def member(self, g, m, go):
        """a sampling set: its model, its jobs, its analysis"""
        vio = common.load("pibronic.vibronic.vibronic_model_io")
        self.at(go)
        FS = fs_of(self.root, g["D"], m["R"], m["via"])
        if m["rho"] is not None:
            vio.save_diagonal_model_to_JSON(FS.path_rho_model, m["rho"])
            if m["recalculate"]:
                vio.recalculate_energy_values_of_diagonal_model(FS, FS.path_rho_model)
        FS.generate_model_hashes(True)
        go = time.time() + 0.05
        self.wait([self.fork("D%d_R%d_J%d" % (g["D"], m["R"], j["J"]), functools.partial(self.job, g, m, j, go)) for j in m["jobs"]])
        histories.write_analytic(FS, FS.hash_vib, FS.hash_rho, m["table"])
        histories.analyse(FS, m["kind"], m["method"], real_pool=m["pool"])

    def job(self, g, m, j, go):
        self.at(go)
        FS = fs_of(self.root, g["D"], m["R"])   # (the directories may be made by several jobs at once)
        FS.generate_model_hashes(True)
        np.random.seed(j["seed"])
        r = drive.run(FS, True, g["vib"]["A"], g["vib"]["N"], j["P"], j["T"], j["blocks"], j["size"], job=j["J"]).result
        np.save(os.path.join(self.logs, "D%d_R%d_P%d_T%.2f_J%d.npy" % (g["D"], m["R"], j["P"], j["T"], j["J"])),
                np.array([r.scaled_rho, r.scaled_g, r.scaled_gofr_plus, r.scaled_gofr_minus]))


def diag_dict(m):
    vmk = common.load("pibronic.vibronic.vibronic_model_keys").VibronicModelKeys
    return {vmk.N: m["N"], vmk.A: m["A"], vmk.E: m["E"], vmk.w: m["w"], vmk.G1: m["lin"]}


def plan_of(rng):
    ids = [0, 1, 2, 11, 12, 110, 21, 7]
    plan = []
    for D in rng.choice(ids, rng.randint(2, 4), replace=False):
        A, N = int(rng.randint(1, 4)), int(rng.randint(1, 4))
        vib = models.coupled(rng, A, N, lin_scale=0.4)
        q, _ = np.linalg.qr(rng.standard_normal((A, A)))
        members = []
        for k, R in enumerate(rng.choice(ids, rng.randint(1, 4), replace=False)):
            Ps, Ts = [3, 12], [300.0, 30.0, 300.01]
            Js = rng.choice([0, 1, 2, 10, 11, 12, 21, 101], rng.randint(2, 5), replace=False)
            jobs = [dict(J=int(J), P=int(rng.choice(Ps)), T=float(rng.choice(Ts)), blocks=int(rng.randint(1, 3)), size=int(rng.randint(2, 6)),
                         seed=int(rng.randint(2 ** 31))) for J in Js]
            if rng.rand() < 0.6:   # several of them for the same parameters
                for j in jobs[1:3]:
                    j.update(P=jobs[0]["P"], T=jobs[0]["T"])
            members.append(dict(R=int(R), via=[None, int(rng.choice(ids))][int(rng.rand() < 0.4)] if k else None, jobs=jobs,
                                rho=None if k == 0 else diag_dict(models.diagonal(rng, A, N, w=vib["w"], lin_scale=0.4)),
                                recalculate=bool(rng.rand() < 0.5), kind=str(rng.choice(["plain", "jackknife"])), pool=bool(rng.rand() < 0.2),
                                method=str(rng.choice(["basic", "alpha"])), table={T: analytic(rng) for T in Ts}))
        new = int(rng.choice([r for r in ids if r not in [m["R"] for m in members]]))
        visitors = [(new, ["change", "make", "change", "new"][k]) for k in range(int(rng.randint(2, 5)))]
        plan.append(dict(D=int(D), visitors=visitors, vib=vib, U=q if rng.rand() < 0.6 else None, members=members))
    return plan


def tree(root):
    out, dirs = {}, set()
    for d, ds, fs in os.walk(root):
        dirs.add(os.path.relpath(d, root))
        for f in fs:
            out[os.path.relpath(os.path.join(d, f), root)] = os.path.join(d, f)
    return out, dirs


def content(path):
    if path.endswith(".npz"):
        with np.load(path) as z:
            return {k: z[k] for k in z.files}
    if path.endswith(".npy"):
        return np.load(path)
    with open(path, "rb") as f:
        raw = f.read()
    try:
        return json.loads(raw.decode("utf-8"))
    except ValueError:
        return raw


def same(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray):
        return a.shape == b.shape and a.dtype.kind == b.dtype.kind and (np.array_equal(a, b) if a.dtype.kind not in "fc" else np.allclose(a, b, rtol=1e-9, atol=0, equal_nan=True))
    if isinstance(a, float):
        return isinstance(b, float) and (a == b or abs(a - b) <= 1e-6 * abs(a) or (a != a and b != b))
    return a == b


def results_of(ctx, tag, g, m, root, logs, db):
    """sample files against what the jobs had drawn, thermo files against the estimators over them"""
    fs = common.load("pibronic.data.file_structure")
    FS = fs.FileStructure(root, g["D"], m["R"], no_makedir=True)
    sets = {}
    for j in m["jobs"]:
        drawn = np.load(os.path.join(logs, "D%d_R%d_P%d_T%.2f_J%d.npy" % (g["D"], m["R"], j["P"], j["T"], j["J"])))
        with np.load(FS.path_rho_results + "P%d_T%.2f_J%d_data_points.npz" % (j["P"], j["T"], j["J"])) as z:
            stored = np.array([z[k] for k in ("s_rho", "s_g", "s_gP", "s_gM")])
        ctx.check(stored.shape == drawn.shape and np.array_equal(stored, drawn), "foreign-samples",
                  "%s: the file of D%d R%d P%d T%.2f J%d does not hold the samples of that job" % (tag, g["D"], m["R"], j["P"], j["T"], j["J"]))
        sets.setdefault((j["P"], j["T"]), []).append(drawn)
    outs = histories.thermo_files(FS)
    names = {"P%d_T%.2f_X%d_thermo" % (P, T, sum(p.shape[1] for p in parts)): (P, T) for (P, T), parts in sets.items()}
    if ctx.check(set(outs) == set(names), "outputs", "%s: D%d R%d has the outputs %s, expected %s" % (tag, g["D"], m["R"], sorted(outs), sorted(names))):
        for f, (P, T) in names.items():
            compare(ctx, "%s: D%d R%d %s" % (tag, g["D"], m["R"], f), outs[f], np.concatenate(sets[P, T], axis=1), T, m["table"][T], m["kind"], m["method"], db)


def compare(ctx, what, o, s, T, an, kind, method, db):
    """one thermo file against the estimators over the samples"""
    alpha = (an["Z"] / an["Zp"], an["Z"] / an["Zm"]) if method == "alpha" else None
    tol = refstats.worst_tolerances(*s, T, db, alpha)
    want = refstats.full(*s, T, db, alpha)
    for k in ("Z", "E", "Cv"):
        w = float(want[k]) + (0 if k == "Z" else an[k])
        ctx.check(abs(o[k] - w) <= 10 * tol[k] + 1e-9 * abs(w), "values", "%s: %s = %r, but the %d samples give %r" % (what, k, o[k], len(s[0]), w))
    if kind == "jackknife":
        jk = refstats.leave_one_out(*s, T, db, alpha)
        for k in ("E", "Cv"):
            w = float(jk["jk_" + k]) + an[k]
            ctx.check(abs(o["jk_" + k] - w) <= 10 * len(s[0]) * tol[k] + 1e-9 * abs(w), "values",
                      "%s: jk_%s = %r, but the %d samples give %r" % (what, k, o["jk_" + k], len(s[0]), w))


def at_once(ctx, i, db):
    rng = ctx.rng("at-once", i)
    plan = plan_of(rng)
    roots, errors = [], []
    for together in (False, True):
        root, logs = ctx.scratch(), ctx.scratch()
        Play(root, plan, logs, together, (ctx.seed, i)).run()
        roots.append(root)
        errors.append({f: open(os.path.join(logs, f)).read() for f in sorted(os.listdir(logs)) if f.endswith(".err")})
    tag = "round %d (%s)" % (i, ", ".join("D%d: %s" % (g["D"], " ".join("R%d[%s]" % (m["R"], " ".join("J%d" % j["J"] for j in m["jobs"])) for m in g["members"])) for g in plan))
    for e, how in zip(errors, ("one after another", "at once")):
        for f, t in e.items():
            ctx.violation("raises", "%s, %s: %s ended by an exception: %s" % (tag, how, f[:-4], t.strip().splitlines()[-1][:200]), dict(traceback=t[-3000:]))
    (want, wd), (got, gd) = map(tree, roots)
    # what an analysis leaves behind besides its results (locks and the like) is not compared
    ctx.check(not set(want) - set(got), "lost", "%s: missing after running at once: %s" % (tag, sorted(set(want) - set(got))[:6]))
    ctx.check(not [f for f in set(got) - set(want) if f.endswith((".npz", ".json", "thermo", ".npy"))], "surplus",
              "%s: surplus after running at once: %s" % (tag, sorted(set(got) - set(want))[:6]))
    ctx.check(wd == gd, "directories", "%s: directories differ: %s" % (tag, sorted(wd ^ gd)[:6]))
    for f in sorted(set(want) & set(got)):
        with ctx.guard("unreadable", "%s: reading %s" % (tag, f)):
            a, b = content(want[f]), content(got[f])
            if f.endswith((".npz", "thermo")):   # (the random numbers need not be the same ones)
                ctx.check(set(a) == set(b) and all(str(a[k]) == str(b[k]) for k in a if k.startswith(("hash", "number"))), "differs",
                          "%s: fields of %s differ from those of the one made one after another" % (tag, f))
            else:
                ctx.check(same(a, b), "differs", "%s: %s differs from the one made one after another" % (tag, f))
            ctx.event("files_compared")
            ctx.event("files_" + ("samples" if f.endswith(".npz") else "thermo" if f.endswith("thermo") else "models"))
    for g in plan:
        for m in g["members"]:
            with ctx.guard("unreadable", "%s: results of D%d R%d" % (tag, g["D"], m["R"])):
                results_of(ctx, tag, g, m, roots[1], logs, db)
    # what was observed: switches between the processes
    seq = []
    n = 0
    for f in os.listdir(logs):
        if f.endswith(".log"):
            n += 1
            for line in open(os.path.join(logs, f)):
                p = line.split()
                if len(p) == 3:
                    seq.append((float(p[0]), f, p[1]))
    seq.sort()
    switches = sum(a[1] != b[1] for a, b in zip(seq, seq[1:]))
    ctx.event("processes", n)
    ctx.event("file_system_calls", len(seq))
    ctx.event("switches", switches)
    ctx.case(("at-once", tuple(s[1:] for s in seq)), switches > 20, "%s: %d processes, %d file system calls, %d switches" % (tag, n, len(seq), switches))
    for d in roots:
        ctx.drop(d)


# ------------------------------------------------------------------------------------------------ part 2
def delivered(ctx, i, db):
    """results arrive while the analysis runs"""
    rng = ctx.rng("delivered", i)
    root, stage = ctx.scratch(), ctx.scratch()
    kind, method = ["plain", "jackknife"][i % 2], ["basic", "alpha"][(i // 2) % 2]
    tag = "delivery %d (%s, %s)" % (i, kind, method)
    with ctx.guard("raises", tag):
        FS = drive.make_fs(root, models.coupled(rng, 2, 2), models.diagonal(rng, 2, 2))
        Ps = [int(p) for p in rng.choice([3, 12, 31], rng.randint(1, 3), replace=False)]
        Ts = [float(t) for t in rng.choice([300.0, 30.0, 300.01], rng.randint(1, 3), replace=False)]
        an = {T: analytic(rng) for T in Ts}
        histories.write_analytic(FS, FS.hash_vib, FS.hash_rho, an)
        early, late, pending = {}, {}, []
        final = FS.path_rho_results
        for P in Ps:
            for T in Ts:
                Js = [int(j) for j in rng.permutation(30)[:rng.randint(3, 7)]]
                n0 = rng.randint(0, 3) if (P, T) != (Ps[0], Ts[0]) else rng.randint(1, 3)
                for k, J in enumerate(Js):
                    # the number of samples tells which files were used
                    X = int(rng.randint(2, 5)) if k < n0 else 8 * 2 ** (k - n0)
                    s = refstats.sample_set(rng, X, db, 0)
                    if k < n0:
                        early.setdefault((P, T), []).append(s)
                        write(FS, P, T, J, s)
                    else:
                        late.setdefault((P, T), []).append((X, s))
                        FS.path_rho_results = os.path.join(stage, "")
                        write(FS, P, T, J, s)
                        FS.path_rho_results = final
        pending = [f for f in os.listdir(stage)]
        rng.shuffle(pending)
        calls, points = [0], []
        rate = float(rng.choice([0.02, 0.06, 0.2, 0.6]))
        real_replace = os.replace

        def deliver():
            f = pending.pop()
            real_replace(os.path.join(stage, f), os.path.join(final, f))
            points.append(calls[0])

        def tick(name, when):
            calls[0] += 1
            if pending and rng.rand() < rate:
                deliver()
        try:
            with hooked(tick):
                histories.analyse(FS, kind, method)
        finally:
            FS.path_rho_results = final
        outs = histories.thermo_files(FS)
        for (P, T), first in early.items():
            names = [f for f in outs if f.startswith("P%d_T%.2f_X" % (P, T))]
            ctx.check(len(names) == 1, "outputs", "%s: P=%d T=%.2f has %d outputs although %d results were there when it began" % (tag, P, T, len(names), len(first)))
        for name, o in outs.items():
            P, T, X = int(name[1:].split("_T")[0]), float(name.split("_T")[1].split("_X")[0]), int(name.split("_X")[1].split("_")[0])
            first = early.get((P, T), [])
            extra = X - sum(len(s[0]) for s in first)
            used = [s for n, s in late.get((P, T), []) if extra >= 0 and (extra // 8) & (n // 8)]
            if not ctx.check(extra >= 0 and sum(len(s[0]) for s in used) == extra, "not-whole-files",
                             "%s: %s: %d samples are not those of whole files (%s and any of %s)" % (
                                 tag, name, X, [len(s[0]) for s in first], [n for n, s in late.get((P, T), [])])):
                continue
            s = [np.concatenate([p[k] for p in first + used]) for k in range(4)]
            compare(ctx, tag + ": " + name, o, s, T, an[T], kind, method, db)
            ctx.event("outputs_while_delivering")
            if used:
                ctx.event("outputs_with_late_results")
            if len(used) < len(late.get((P, T), [])):
                ctx.event("outputs_without_some_late_results")
        ctx.event("deliveries", len(points))
        ctx.case(("delivered", kind, method, tuple(points)), bool(points), "%s: %d results there, %d delivered at calls %s" % (
            tag, sum(map(len, early.values())), len(points), points[:12]))
        # afterwards, everything is there
        while pending:
            deliver()
        histories.analyse(FS, kind, method)
        outs = histories.thermo_files(FS)
        for P in Ps:
            for T in Ts:
                X = sum(len(s[0]) for s in early.get((P, T), [])) + sum(n for n, s in late.get((P, T), []))
                ctx.check("P%d_T%.2f_X%d_thermo" % (P, T, X) in outs, "outputs", "%s: no output over all %d samples of P=%d T=%.2f once everything was delivered" % (tag, X, P, T))
    ctx.drop(root)
    ctx.drop(stage)


def run(ctx):
    constants = common.load("pibronic.constants")
    common.load("pibronic.stats.stats", "pibronic.pimc.pimc", "pibronic.data.file_structure", "pibronic.vibronic.vibronic_model_io")
    for i in range(ctx.scale(14, 150)):
        at_once(ctx, i, constants.delta_beta)
    for i in range(ctx.scale(60, 800)):
        delivered(ctx, i, constants.delta_beta)


common.main("C24", run, level="exploration",
            rule="a case is one round of processes at once (distinct: the order of their file system calls) or one analysis during deliveries "
                 "(distinct: the calls at which results arrived)",
            required=("files_samples", "files_thermo", "files_models", "switches", "outputs_with_late_results", "outputs_without_some_late_results", "deliveries"),
            assumptions=["results are delivered whole (renamed into place), as the job scripts do within one file system",
                         "no two analyses of one sampling set and no two set-ups of one model run at the same time"])
