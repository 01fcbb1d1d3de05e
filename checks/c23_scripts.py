"""C23: the shipped study scripts set up and submit exactly the studies they describe.

Monitor: the scripts of both shipped studies run on a scratch copy of the repository, each session in a process of its own,
with the root folder redirected into a scratch directory.  Stand-ins for the scheduler (`srun` really runs the command it is
given, all jobs of a step at the same time; `sbatch` records) and for Julia (prints a number of its own, or fails once when
told to) log everything that is started.  The files in the study's directories are compared with the shipped models and with
the log: what was missing was calculated once and is stored where it belongs, what was there was not calculated again.
"""
import hashlib
import json
import os
import shutil
import stat
import subprocess
import sys
import numpy as np
import common
import c13_submission as c13
import c22_studies as c22
import histories
import models
import refpi

STUDIES = dict(artificial="artificial_systems", paper="paper_1.5025058")
TUNING = {1: 0.05, 2: 0.25, 3: 0.50, 4: 0.75, 5: 1.0}
KEYS = dict(sampling=dict(Z_rho="Z_analytical", E_rho="E_analytical", Cv_rho="Cv_analytical"), original=dict(Z_rho="Z_analytical", E_rho="E_analytical", Cv_rho="Cv_analytical"),
            sos=dict(Z_sos="Z_sos", E_sos="E_sos", Cv_sos="Cv_sos"), trotter=dict(Z_trotter="Z_trotter", E_trotter="E_trotter", Cv_trotter="Cv_trotter"))

DRIVER = r'''
import importlib, json, os, sys, time, traceback
study, root, plan, out = sys.argv[1:5]
sys.path.insert(0, study)
sys.stdout = open(os.devnull, "w")
import context
context.choose_root_folder = lambda: root          # the one parameter that every user of the scripts has to set
time.sleep = lambda s: None
asked = []
done = []
for mod, fn, args, kwargs, override in json.load(open(plan)):
    status = "ok"
    try:
        m = importlib.import_module(mod)
        if override is not None:
            jb = m.job_boss
            real = getattr(jb, "_real_submission", jb.PimcSubmissionClass)
            jb._real_submission = real

            def smaller(FS, params, _o=override, _r=real):
                asked.append({k: params[k] for k in ("temperature_list", "id_data", "id_rho", "number_of_states", "number_of_modes")})
                return _r(FS, dict(params, **_o))
            jb.PimcSubmissionClass = smaller
        getattr(m, fn)(*args, **kwargs)
    except BaseException:
        status = traceback.format_exc()[-1500:]
    try:
        while True:
            os.wait()                              # the jobs that were started and not waited for
    except ChildProcessError:
        pass
    done.append(status)
json.dump(dict(done=done, asked=asked), open(out, "w"))
'''

JULIA = r'''#!%s -S
import json, os, sys, time, zlib
log = os.environ["STUDY_LOG"]
a = sys.argv[1:]
if a[0] in ("-v", "--version"):
    print("julia version 1.0.1")
    sys.exit()
if a[0] == "-e":
    sys.stdout.write(log + "/VT/src/VibronicToolkit.jl")
    sys.exit()
name = "%%d_%%d" %% (time.time_ns(), os.getpid())
value = 1 + os.getpid() + (time.time_ns() %% 1000000) / 2.0 ** 20
rec = dict(argv=a, value=value, failed=False)
try:
    os.rename(log + "/fail_one", log + "/failed_" + name)
    rec["failed"] = True
except OSError:
    pass
json.dump(rec, open(log + "/julia_" + name, "w"))
if rec["failed"]:
    sys.stderr.write("ERROR: LoadError: OutOfMemoryError()\n")
    sys.exit(1)
script = os.path.basename(a[0])
o, i = {}, 1
while i < len(a):
    if i + 1 < len(a) and not a[i + 1].startswith("--"):
        o[a[i]] = a[i + 1]
        i += 1
    i += 1
conf = json.load(open(o["--conf"]))
if script == "iterative_decomposition.jl":
    h = zlib.crc32(json.dumps(conf, sort_keys=True).encode())
    N, A = conf["number of modes"], conf["number of surfaces"] + 1 + h %% 2

    def r(k):
        return (zlib.crc32(b"%%d %%d" %% (h, k)) / 2.0 ** 32) - 0.5
    m = {"number of modes": N, "number of surfaces": A, "frequencies": conf["frequencies"], "energies": [1.0 + r(k) for k in range(A)],
         "linear couplings": [[0.2 * r(100 + n * A + k) for k in range(A)] for n in range(N)]}
    json.dump(m, open(o["--out-conf"], "w"))
    open(o["--out-vs"], "w").write("vs")
else:
    tail = {"analytical.jl": "analytical", "sos.jl": "sos", "trotter.jl": "trotter"}[script]
    for k, n in enumerate(("Z", "E", "Cv")):
        print("%%s_%%s: %%r" %% (n, tail, value + k))
'''

SRUN = r'''#!/bin/sh
while [ "${1#-}" != "$1" ]; do shift; done
"$@" > "$STUDY_LOG/srun_$$.out" 2> "$STUDY_LOG/srun_$$.err"
rc=$?
echo $rc > "$STUDY_LOG/srun_$$.rc"
cat "$STUDY_LOG/srun_$$.out"
cat "$STUDY_LOG/srun_$$.err" >&2
exit $rc
'''


def params(path):
    d = json.load(open(path))
    return c22.read(path, np.ndim(d[models.KEYS["E"]]) == 1)


def refpi_T(beta):
    return round(refpi.beta_of(1.0) / float(beta), 4)


def bytes_of(path):
    with open(path, "rb") as f:
        return f.read()


def lowest(coupled, q):
    """lowest adiabatic energy at the point q"""
    V = coupled["E"] + np.einsum("i,iab->ab", q, coupled["lin"]) + 0.5 * np.einsum("i,j,ijab->ab", q, q, coupled["quad"])
    return np.linalg.eigvalsh(V + np.eye(coupled["A"]) * 0.5 * (coupled["w"] * q ** 2).sum())[0]


class Site:
    """a copy of the repository, the stand-ins, and the log"""

    def __init__(self, ctx):
        self.ctx, self.farm = ctx, c13.Farm(ctx)
        self.farm.cluster("nlogn")
        self.copy, self.log = ctx.scratch("copy"), ctx.scratch("studylog")
        for d in ("pibronic", "examples"):
            shutil.copytree(os.path.join(common.REPO, d), os.path.join(self.copy, d), ignore=shutil.ignore_patterns("__pycache__"))
        os.makedirs(os.path.join(self.log, "VT", "src"))
        os.makedirs(os.path.join(self.log, "VT", "pibronic_bin"))
        for name, text in (("julia", JULIA % sys.executable), ("srun", SRUN), ("modulecmd", "#!/bin/sh\nexit 0\n")):
            p = os.path.join(self.farm.bin, name)
            with open(p, "w") as f:
                f.write(text)
            os.chmod(p, os.stat(p).st_mode | stat.S_IXUSR)
        self.n = 0

    def shipped(self, study, *rel):
        return os.path.join(self.copy, "examples", STUDIES[study], *rel)

    def session(self, tag, study, root, steps, data, fail=False, excused=()):
        """run steps (module, function, args, kwargs, override) of the scripts; -> (calculations, submissions, parameters)

        excused: (text in the error, mechanism of a finding) for errors that are reported under a name of their own"""
        self.n += 1
        self.excused = 0
        self.farm.reset()
        for f in os.listdir(self.log):
            if os.path.isfile(os.path.join(self.log, f)):
                os.remove(os.path.join(self.log, f))
        if fail:
            open(os.path.join(self.log, "fail_one"), "w").close()
        plan, out = self.ctx.scratch("plan%d" % self.n), self.ctx.scratch("out%d" % self.n)
        prog, pl, res = os.path.join(plan, "driver.py"), os.path.join(plan, "plan.json"), os.path.join(out, "res.json")
        with open(prog, "w") as f:
            f.write(DRIVER)
        with open(pl, "w") as f:
            json.dump(steps, f)
        env = dict(os.environ, STUDY_LOG=self.log, PYTHONPATH=self.copy, PYTHONWARNINGS="ignore", PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
        p = subprocess.run([sys.executable, prog, self.shipped(study), root, pl, res], env=env, cwd=out, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=600)
        if not os.path.exists(res):
            self.ctx.check(False, "script-died", "%s: the session ended with %s: %s" % (tag, p.returncode, p.stderr.decode(errors="replace")[-600:]), data)
            return [], [], []
        with open(res) as f:
            r = json.load(f)
        for step, st in zip(steps, r["done"]):
            mech = [m for text, m in excused if text in st] + ["script-raises"]
            self.ctx.check(st == "ok", mech[0], "%s: %s.%s%s raised: %s" % (tag, step[0], step[1], tuple(step[2]), st), data)
            self.ctx.event("script_steps")
        calls = []
        for f in sorted(os.listdir(self.log)):
            if f.startswith("julia_"):
                with open(os.path.join(self.log, f)) as g:
                    c = json.load(g)
                o = c13_options(c["argv"])
                o.update(value=c["value"], failed=c["failed"])
                calls.append(o)
        failed = sum(c["failed"] for c in calls)
        errs = []
        for f in sorted(os.listdir(self.log)):
            if f.endswith(".rc") and open(os.path.join(self.log, f)).read().strip() != "0":
                text = open(os.path.join(self.log, f[:-3] + ".err"), errors="replace").read()[-400:]
                mech = [m for t, m in excused if t in text]
                if mech:
                    self.ctx.check(False, mech[0], "%s: a submitted job failed: %s" % (tag, text), data)
                    self.excused += 1
                else:
                    errs.append(text)
        self.ctx.check(len(errs) == failed, "job-failed", "%s: %d of the submitted jobs failed, %d because of a failing calculation: %s" % (tag, len(errs), failed, errs[-1:]), data)
        return calls, [c13.options(words) + (jid,) for jid, words in self.farm.jobs()], r["asked"]


def c13_options(argv):
    out, i = {"script": os.path.basename(argv[0])}, 1
    while i < len(argv):
        if i + 1 < len(argv) and not argv[i + 1].startswith("--"):
            out[argv[i]] = argv[i + 1]
            i += 1
        else:
            out[argv[i]] = True
        i += 1
    return out


class Book:
    """what the caches of one study have to hold: (file, temperature) -> values of calculations for the current models"""

    def __init__(self, ctx):
        self.ctx, self.have = ctx, {}

    def calculated(self, tag, calls, wanted, FS, data, repeats=False):
        """wanted: {(kind, T, B, P, id of the sampling model): (conf, cache file, hashes)}; every one of them once"""
        seen = {}
        for c in calls:
            if c["script"] == "iterative_decomposition.jl":
                continue
            hit = [k for k, (conf, dst, hashes) in wanted.items()
                   if c["script"] == dict(sampling="analytical.jl", original="analytical.jl").get(k[0], k[0] + ".jl") and c.get("--conf") == conf and ("--uncoupled" in c) == (k[0] == "original")
                   and abs(float(c.get("--beta", "nan")) - refpi.beta_of(k[1])) < 1e-9 and c.get("--basis-size") == (None if k[2] is None else str(k[2]))
                   and c.get("--num-links") == (None if k[3] is None else str(k[3]))]
            if self.ctx.check(len(hit) == 1, "unasked", "%s: a calculation ran that was not asked for or is stored already: %s" % (tag, {k: v for k, v in c.items() if k != "value"}), data):
                seen.setdefault(hit[0], []).append(c)
        for k in wanted:
            n = len(seen.get(k, ()))
            self.ctx.check(n == 1 or (repeats and n >= 1), "not-submitted", "%s: the missing calculation %s ran %d times" % (tag, k, n), data)
            self.ctx.event("references_submitted")
        for k, (conf, dst, hashes) in wanted.items():
            good = [c for c in seen.get(k, ()) if not c["failed"]]
            if not good:
                continue
            rec = self.have.get(dst)
            if rec is None or rec["hashes"] != hashes:
                rec = self.have[dst] = dict(hashes=hashes, T={})
            rec["T"]["%.2f" % k[1]] = [{new: c["value"] + i for i, new in enumerate(KEYS[k[0]])} for c in good]

    def audit(self, tag, data):
        for dst, rec in self.have.items():
            try:
                got = json.load(open(dst))
            except (OSError, ValueError) as e:
                self.ctx.check(False, "cache", "%s: cache %s: %r" % (tag, dst, e), data)
                continue
            h = {k: got.pop(k, None) for k in ("hash_vib", "hash_rho") if k in got}
            want = dict(zip(("hash_vib", "hash_rho"), rec["hashes"]))
            self.ctx.check(h == want and sorted(got) == sorted(rec["T"]) and all(got[t] in rec["T"][t] for t in got), "cache",
                           "%s: cache %s holds %s instead of %s" % (tag, dst.split("/", 4)[-1], str(got)[:500], str(rec["T"])[:500]), data)
            self.ctx.event("caches_audited")

    def stored(self, dst, T, hashes):
        rec = self.have.get(dst)
        return rec is not None and rec["hashes"] == hashes and "%.2f" % T in rec["T"]


def study(ctx, site, i, kind, fs, pimc):
    rng = ctx.rng("scripts", i)
    thorough = ctx.scale(0, 1)
    systems = dict(artificial=["2x2", "4x6", "7x12"], paper=["superimposed", "displaced", "elevated", "jahnteller"])[kind]
    name = systems[int(rng.randint(len(systems)))] if thorough or kind == "paper" else systems[i // 2 % 2]
    tens = 10 * (systems.index(name) + 1)
    n = 5 if kind == "artificial" else 6
    ids = sorted(int(x) for x in tens + rng.choice(np.arange(1, n + 1), n if thorough else 3, replace=False))
    root = os.path.join(ctx.scratch(), str(rng.choice(["plain", "work/study_1", "a.b-c", "work"])))
    os.makedirs(root)
    hist = []
    data = dict(study=kind, system=name, ids=ids, history=hist)
    tag = "study %d (%s, %s)" % (i, kind, name)
    prepare = "prepare_model" if kind == "artificial" else "prepare_paper_model_plus_iterative_method"
    rhos = [0, 1, 2, 3, 4] if kind == "artificial" else sorted([0] + [k for k in (1, 2) if os.path.exists(site.shipped(kind, "alternate_rhos", "%s_D1_R%d.json" % (name, k)))] + [11])

    def FS(d, R=0):
        with common.Quiet():
            F = fs.FileStructure(root, d, R)
            F.generate_model_hashes()
        return F

    def digest(p):
        return hashlib.sha512(bytes_of(p)).hexdigest()

    def shipped_model(d):
        return site.shipped(kind, "input_json", "model_%s.json" % name if kind == "artificial" else "%s_%d.json" % (name, d % 10))

    def setup(first):
        calls, subs, _ = site.session(tag, kind, root, [["setup_models", prepare, [name], dict(id_data=d), None] for d in ids], data)
        hist.append("set up")
        ctx.check(not subs, "setup-submits", "%s: the set-up submitted %d jobs" % (tag, len(subs)), data)
        it = [c for c in calls if c["script"] == "iterative_decomposition.jl"]
        ctx.check(len(calls) == len(it) == len(ids), "setup-iterative", "%s: %d decompositions and %d other calculations for %d data sets" % (tag, len(it), len(calls) - len(it), len(ids)), data)
        dist = {}
        for d in ids:
            F = FS(d)
            vib, src = params(F.path_vib_model), params(shipped_model(d))
            t = "%s data set %d" % (tag, d)
            if kind == "artificial":
                ctx.check(c22.same(params(F.path_orig_model), src), "original", "%s: the original is not the shipped model" % t, data)
                U = np.load(F.path_ortho_mat) if F.path_ortho_mat.endswith(".npy") else None
                if U is None:
                    with open(F.path_ortho_mat, "rb") as f:
                        U = np.load(f, allow_pickle=False) if f.read(6) == b"\x93NUMPY" and not f.seek(0) else np.loadtxt(F.path_ortho_mat)
                ctx.check(U.shape == (src["A"],) * 2 and np.allclose(U @ U.T, np.eye(src["A"]), atol=1e-10), "rotation", "%s: the stored matrix is not orthonormal" % t, data)
                want = dict(src)
                for k in ("E", "lin", "quad"):
                    want[k] = np.einsum("ab,...bc,dc->...ad", U, src[k], U)
                ctx.check(all(np.allclose(vib[k], want[k], atol=1e-9, rtol=1e-9) for k in ("E", "lin", "quad", "w")), "rotation", "%s: the coupled model is not the rotated original" % t, data)
                dist[d] = float(np.linalg.norm(U - np.eye(src["A"])))
            else:
                ctx.check(c22.same(vib, src), "original", "%s: the coupled model is not the shipped model" % t, data)
            ctx.check(any(c.get("--conf") == F.path_vib_model and c.get("--out-conf") == F.path_iter_model for c in it), "setup-iterative",
                      "%s: no decomposition of its coupled model was run" % t, data)
            for R in rhos:
                G = FS(d, R)
                got = params(G.path_rho_model)
                if kind == "artificial" and R < 2:
                    want = models.diagonal_of(vib if R == 0 else src)
                elif kind == "paper" and R < 3:
                    alt = site.shipped(kind, "alternate_rhos", "%s_D%d_R%d.json" % (name, d % 10, R))
                    want = params(alt) if R or os.path.exists(alt) else models.diagonal_of(vib)
                else:
                    want = params(F.path_iter_model)
                    if R in (3, 4, 11):
                        q = -want["lin"] / want["w"][:, None]
                        e = np.array([lowest(vib, q[:, a]) for a in range(want["A"])])
                        want["E"] = e if R == 3 else e + 0.5 * (want["lin"] ** 2 / want["w"][:, None]).sum(axis=0)
                ctx.check(c22.same(got, want) or all(np.shape(got[k]) == np.shape(want[k]) and np.allclose(got[k], want[k], rtol=1e-9, atol=1e-9) for k in want),
                          "sampling-model", "%s: sampling model %d is %s instead of %s" % (t, R, str(got["E"])[:200], str(want["E"])[:200]), data)
                ctx.event("sampling_models")
        o = sorted(dist)
        for a, b in zip(o, o[1:]):
            ctx.check(dist[a] <= dist[b] + 1e-9, "tuning", "%s: the matrix of data set %d (tuning %s) is further from the identity than that of %d (%s)" % (tag, a, TUNING[a % 10], b, TUNING[b % 10]), data)
        if o and o[-1] % 10 == 5:
            for a in o:
                ctx.check(dist[a] <= TUNING[a % 10] * dist[o[-1]] * (1 + 1e-9) and (dist[a] > 0) == (dist[o[-1]] > 0), "tuning",
                          "%s: tuning %s gives a distance of %r, the largest one is %r" % (tag, TUNING[a % 10], dist[a], dist[o[-1]]), data)
        ctx.event("setups")

    book = Book(ctx)

    def references(d, BS, Ts, Ps, fail):
        F = FS(d)
        # the scripts round temperatures to two decimals
        h = (digest(F.path_vib_model),)
        last_bead, broken = [], False
        steps = [["submit_jobs_to_server", "simple_sos_wrapper", [BS, Ts], dict(root=root, id_data=d), None], ["submit_jobs_to_server", "simple_trotter_wrapper", [BS, Ts, Ps], dict(root=root, id_data=d), None]]
        wanted, cmd = {}, None
        for B in BS:
            for T in Ts:
                dst = F.template_sos_vib.format(B=B)
                if not book.stored(dst, T, h):
                    wanted["sos", T, B, None, None] = (F.path_vib_model, dst, h)
                for P in Ps:
                    dst = F.template_trotter_vib.format(P=P, B=B)
                    if not book.stored(dst, T, h):
                        wanted["trotter", T, B, P, None] = (F.path_vib_model, dst, h)
                        cmd = ("trotter", T, B, P, None)
                broken = broken or cmd is None
                if not broken:
                    last_bead.append(cmd)
        ctx.event("references_available", len(BS) * len(Ts) * (1 + len(Ps)) - len(wanted))
        fail = fail and bool(wanted)
        hist.append("references of %d: basis %s T %s beads %s%s" % (d, BS, Ts, Ps, ", one fails" if fail else ""))
        # the finding "trotter-last-bead": this script submits the job of the last bead count after the loop over the bead counts
        excused = [("UnboundLocalError", "trotter-last-bead")] if kind == "artificial" and broken else []
        calls, _, _ = site.session(tag, kind, root, steps, data, fail, excused)
        ran = sorted((refpi_T(c["--beta"]), int(c["--basis-size"]), int(c["--num-links"])) for c in calls if c["script"] == "trotter.jl" and "--num-links" in c)
        repeats = False
        if kind == "artificial" and ran != sorted(k[1:4] for k in wanted if k[0] == "trotter") and ran == sorted(k[1:4] for k in last_bead):
            ctx.check(False, "trotter-last-bead", "%s: after %s the trotter calculations that ran are %s" % (tag, hist[-1], ran), data)
            wanted, repeats = {k: v for k, v in wanted.items() if k[0] != "trotter" or k in last_bead}, True
        book.calculated(tag, calls, wanted, F, data, repeats)
        book.audit("%s after %s" % (tag, hist[-1]), data)
        if fail:
            ctx.event("failed_references", sum(c["failed"] for c in calls))
        return len(calls)

    setup(True)
    d = ids[int(rng.randint(len(ids)))]
    other = ids[(ids.index(d) + 1) % len(ids)]
    BS, Ts, Ps = [int(x) for x in rng.choice([2, 10, 80, 100], 2, replace=False)], [float(x) for x in rng.choice([300.0, 77.35, 250.5, 10.0, 1000.0], 2, replace=False)], [int(x) for x in rng.choice([3, 10, 50, 100], 2, replace=False)]
    references(d, BS[:1], Ts[:1], Ps[:1], False)
    references(d, BS, Ts, Ps, rng.rand() < 0.6)
    references(d, BS, Ts, Ps, False)                       # only what failed
    references(other, BS[:1], Ts, Ps[:1], False)
    before = {p: bytes_of(p) for x in ids for p in [FS(x).path_vib_model] + [FS(x, R).path_rho_model for R in rhos]}
    setup(False)                                           # once more: the same models, so everything stays valid
    for p, b in before.items():
        ctx.check(bytes_of(p) == b, "setup-again", "%s: the second set-up changed %s" % (tag, p.split("/", 4)[-1]), data)
    n0 = references(d, BS, Ts, Ps, False)
    ctx.check(n0 == 0, "setup-again", "%s: %d references were calculated again after the second set-up" % (tag, n0), data)

    # sampling jobs, with the analytic references
    P, X, block = [int(x) for x in rng.choice([3, 4, 8, 13], 2, replace=False)], int(rng.choice([12, 20])), 4
    chosen = rhos if thorough else sorted(int(x) for x in rng.choice(rhos, 3, replace=False))
    hist.append("sampling jobs of %d, sampling models %s" % (d, chosen))
    calls, subs, asked = site.session(tag, kind, root, [["submit_jobs_to_server", "simple_pimc_wrapper", [], dict(root=root, id_data=d, id_rho=R), dict(bead_list=P, number_of_samples=X, block_size=block)] for R in chosen], data,
                                     excused=[("has no attribute 'analytic_of_coupled_model'", "original-analytic-name")] if kind == "artificial" else [])
    wanted = {}
    for R in chosen:
        G = FS(d, R)
        wanted["sampling", 300.0, None, None, R] = (G.path_rho_model, G.path_analytic_rho, (digest(G.path_vib_model), digest(G.path_rho_model)))
    if kind == "artificial" and not site.excused:
        wanted["original", 300.0, None, None, None] = (FS(d).path_orig_model, FS(d).path_analytic_orig, (digest(FS(d).path_vib_model),))
    book.calculated(tag, calls, wanted, None, data, repeats=True)
    book.audit(tag + " after the submission of the sampling jobs", data)
    vib = params(FS(d).path_vib_model)
    ctx.check([(a["id_data"], a["id_rho"], a["number_of_states"], a["number_of_modes"]) for a in asked] == [(d, R, vib["A"], vib["N"]) for R in chosen], "submission",
              "%s: asked to submit %s" % (tag, str(asked)[:500]), data)
    grid = {}
    for o, pos, jid in subs:
        e = json.loads(c13.exported(o)["EXECUTION_PARAMETERS"].replace(";", ","))
        k = (e["id_data"], e["id_rho"], e["number_of_beads"], e["temperature"])
        grid[k] = grid.get(k, 0) + e["number_of_samples"]
    need = {(d, R, p, T) for R, a in zip(chosen, asked) for p in P for T in a["temperature_list"]}
    ctx.check(set(grid) == need and all(v >= X for v in grid.values()), "submission", "%s: submitted %s for %s with %d samples" % (tag, grid, sorted(need), X), data)
    ctx.event("sampling_jobs", len(subs))

    # run them, and analyse with the script
    ran = {}
    for jid, words in site.farm.jobs():
        o, pos = c13.options(words)
        if rng.rand() < 0.25:
            continue
        paths, moved, e = c22.execute(pimc, jid, words)
        ran.setdefault((e["id_rho"], e["number_of_beads"], e["temperature"]), []).extend(f for f in moved if "_J%d_" % jid in os.path.basename(f))
        ctx.event("jobs_run")
    for R in chosen:
        G = FS(d, R)
        m = params(G.path_rho_model)
        histories.write_analytic(G, G.hash_vib, G.hash_rho, {300.0: c22.rho_analytic(m, 300.0)})
        book.have.pop(G.path_analytic_rho, None)
    site.session(tag, kind, root, [["analyze_results", "automate_statistical_analysis", [name], {}, None]], data)
    hist.append("analysis")
    for x in ids:
        for R in rhos:
            G = FS(x, R)
            got = histories.thermo_files(G)
            want = {(p, T) for (r, p, T) in ran if r == R} if x == d else set()
            ctx.check(len(got) == len(want), "analysis", "%s: data set %d sampling model %d has %s, jobs ran for %s" % (tag, x, R, sorted(got), sorted(want)), data)
            for p, T in want:
                arrs = [np.load(f) for f in ran[R, p, T]]
                r = np.concatenate([a["s_g"] / a["s_rho"] for a in arrs])
                f = G.template_jackknife.format(P=p, T=T, X=len(r))
                try:
                    out = json.load(open(f))
                except (OSError, ValueError) as ex:
                    ctx.check(False, "analysis", "%s: %r; there are %s; samples of %s" % (tag, ex, sorted(got), ran[R, p, T]), data)
                    continue
                ctx.check(out["hash_vib"] == G.hash_vib and out["hash_rho"] == G.hash_rho and abs(out["Z"] - r.mean()) <= 1e-9 * np.abs(r).mean() and "jk_E" in out, "analysis",
                          "%s: %s has Z=%r, its samples give %r" % (tag, os.path.basename(f), out.get("Z"), r.mean()), data)
                ctx.event("outputs_checked")

    # another model in a data set: nothing that is stored for the old one counts any more
    src = params(FS(d).path_vib_model)
    src["E"] = src["E"] + 0.01 * models.sym(rng.uniform(-1, 1, src["E"].shape))
    models.write_json(FS(d).path_vib_model, src)
    hist.append("edit of %d" % d)
    references(d, BS[:1], Ts, Ps[:1], rng.rand() < 0.4)
    references(d, BS, Ts[:1], Ps[:1], False)
    ctx.event("studies_" + kind)
    ctx.case((kind, name, tuple(ids), tuple(hist)), sample="%s: %s" % (tag, "; ".join(hist))[:600])
    ctx.drop(os.path.dirname(root))


def run(ctx):
    fs, pimc = common.load("pibronic.data.file_structure", "pibronic.pimc.pimc")
    site = Site(ctx)
    for i in range(ctx.scale(4, 16)):
        with ctx.guard("raises", "study %d" % i):
            study(ctx, site, i, ["artificial", "paper"][i % 2], fs, pimc)


if __name__ == "__main__":
    common.main("C23", run, rule="distinct = (study, system, data sets, history of script runs)",
                required=("setups", "sampling_models", "references_submitted", "references_available", "failed_references", "caches_audited", "sampling_jobs", "jobs_run", "outputs_checked",
                          "studies_artificial", "studies_paper"),
                assumptions=["the root folder is redirected (each user has to set it), and the bead list and sample numbers of sampling jobs are smaller than in the scripts",
                             "the file with the analytic values that the analysis reads comes from a program outside the repository: the check writes it"])
