"""C13: job submission.

Monitor: fake scheduler commands (sbatch, scontrol, sinfo, sacct, ...) on a private PATH record every command line that
the real submission code issues.  The recorded --export list is taken apart the way the scheduler does (at commas), the
execution parameters are decoded by the run's own constructor, and the books are kept per (temperature, beads).  In
end-to-end histories the job script named in the recorded command is really run, by a shell with that environment, and
the result files it leaves are compared with the request.
"""
import copy
import json
import os
import shutil
import stat
import subprocess
import sys
import numpy as np
import common
import drive
import models

SB = r"""#!/bin/sh
n=$(($(cat "$FAKE_LOG/count") + 1)); echo $n > "$FAKE_LOG/count"
for a in "$@"; do printf '%s\n\001\n' "$a"; done > "$FAKE_LOG/job$n"
pwd > "$FAKE_LOG/cwd$n"
if [ -n "$FAKE_FAIL_AT" ] && [ "$n" -ge "$FAKE_FAIL_AT" ]; then rm "$FAKE_LOG/job$n"; echo "sbatch: error: Batch job submission failed" >&2; exit ${FAKE_FAIL_CODE:-1}; fi
echo "Submitted batch job $((FAKE_BASE + n))"
"""
SC = r"""#!/bin/sh
case "$1 $2" in
 "show config") cat <<E
Configuration data as of 2018-11-26T10:00:00
AccountingStorageBackupHost = (null)
BatchStartTimeout       = 10 sec
ClusterName             = $FAKE_CLUSTER
CompleteWait            = 0 sec
E
 ;;
 *) echo "JobState=COMPLETED" ;;
esac
"""
SI = "#!/bin/sh\nprintf 'PARTITION           \\nserial              \\nhighmem             \\nlong*               \\n'; i=0; while [ $i -lt 40 ]; do printf 'group%d-nodes        \\n' $i; i=$((i+1)); done; printf 'very_long_name_of_a_partition\\n'\n"


class Farm:
    """the private PATH and the log of the fake scheduler"""

    def __init__(self, ctx):
        self.bin, self.log = ctx.scratch("bin"), ctx.scratch("joblog")
        for name, text in (("sbatch", SB), ("scontrol", SC), ("sinfo", SI), ("sacct", "#!/bin/sh\necho COMPLETED\n"), ("ssh", "#!/bin/sh\nexit 0\n"),
                           ("sleep", "#!/bin/sh\nexit 0\n"), ("squeue", "#!/bin/sh\nexit 0\n"), ("python3", "#!/bin/sh\nexec %s \"$@\"\n" % sys.executable)):
            p = os.path.join(self.bin, name)
            with open(p, "w") as f:
                f.write(text)
            os.chmod(p, os.stat(p).st_mode | stat.S_IXUSR | stat.S_IXGRP | stat.S_IXOTH)
        os.environ["PATH"] = self.bin + os.pathsep + os.environ["PATH"]
        os.environ["FAKE_LOG"] = self.log
        os.environ["FAKE_BASE"] = "1000"
        os.environ.pop("FAKE_FAIL_AT", None)
        self.reset()

    def reset(self):
        for f in os.listdir(self.log):
            os.remove(os.path.join(self.log, f))
        with open(os.path.join(self.log, "count"), "w") as f:
            f.write("0\n")

    def cluster(self, name):
        os.environ["FAKE_CLUSTER"] = name

    def jobs(self):
        """[(job id, argv)] in order of submission"""
        out = []
        n = int(open(os.path.join(self.log, "count")).read())
        for i in range(1, n + 1):
            p = os.path.join(self.log, "job%d" % i)
            if os.path.exists(p):
                t = open(p).read()
                out.append((1000 + i, t.split("\n\001\n")[:-1]))
        return out


def options(argv):
    """sbatch options of a recorded command -> dict, and the script"""
    o, pos, i = {}, [], 0
    while i < len(argv):
        a = argv[i]
        if a.startswith("--"):
            k, eq, v = a[2:].partition("=")
            o[k] = v
            if not eq and k not in ("wait",):
                i += 1
                o[k] = argv[i] if i < len(argv) else ""
        elif a.startswith("-") and len(a) == 2:
            i += 1
            o[a[1:]] = argv[i] if i < len(argv) else ""
        elif a:
            pos.append(a)
        i += 1
    return o, pos


def exported(o):
    """the scheduler splits the export list at commas"""
    env = {}
    for item in o.get("export", "").split(","):
        k, eq, v = item.partition("=")
        if eq:
            env[k] = v
    return env


def run(ctx):
    pimc, jb, fs = common.load("pibronic.pimc.pimc", "pibronic.server.job_boss", "pibronic.data.file_structure")
    consts = common.load("pibronic.constants")
    farm = Farm(ctx)
    top = ctx.scratch("work_area")
    Sub = jb.PimcSubmissionClass
    limit = int(getattr(Sub, "MAX_SAMPLES_PER_JOB", 10 ** 5))

    def new_root(rng, A, N, D, R):
        ctx._n += 1
        d = os.path.join(top, "%s%d" % (str(rng.choice(["r", "home", "proj.x-y_", "pi"])), ctx._n))
        os.makedirs(d)
        vib = models.coupled(rng, A, N)
        return drive.make_fs(d, vib, models.diagonal_of(vib), D, R)

    def check_submission(tag, FS, req, jobs, cluster):
        """the recorded jobs against the request"""
        want = {(T, P): 0 for T in req["temperature_list"] for P in req["bead_list"]}
        names = {}
        blk = req.get("block_size", 1000)
        need = req.get("number_of_samples_overall", 0) or req["number_of_samples"]
        for jid, argv in jobs:
            o, pos = options(argv)
            env = exported(o)
            ctx.event("jobs_recorded")
            if not ctx.check("EXECUTION_PARAMETERS" in env, "no-parameters", "%s: job without execution parameters: %s" % (tag, argv)):
                continue
            with ctx.guard("undecodable", tag + ": the job's parameters", dict(env=env)):
                with common.Quiet():
                    d = pimc.BoxDataPM.from_json_string(env["EXECUTION_PARAMETERS"])
                key = (d.temperature, d.beads)
                point = (d.id_data, d.id_rho, d.beads, "%.2f" % d.temperature)
                ctx.check(o.get("job-name") and names.setdefault(o["job-name"], point) == point, "job-name",
                          "%s: the jobs of %s and %s have the name %s" % (tag, names.get(o.get("job-name")), point, o.get("job-name")))
                if ctx.check(key in want, "grid", "%s: a job for temperature/beads %s was not asked for" % (tag, key)):
                    want[key] += d.samples
                ctx.check(isinstance(d.samples, int) and isinstance(d.blocks, int) and isinstance(d.block_size, int) and d.blocks * d.block_size == d.samples and d.blocks > 0,
                          "blocks", "%s: %s blocks of %s for %s samples" % (tag, d.blocks, d.block_size, d.samples))
                ctx.check(d.block_size == blk, "block-size", "%s: block size %s instead of %s" % (tag, d.block_size, blk))
                ctx.check(d.samples <= limit, "limit", "%s: %s samples in one job" % (tag, d.samples))
                ctx.check((d.id_data, d.id_rho) == (FS.id_data, FS.id_rho), "ids", "%s: data set %s/%s" % (tag, d.id_data, d.id_rho))
                ctx.check((d.states, d.modes) == (req["number_of_states"], req["number_of_modes"]), "size", "%s: %s states %s modes" % (tag, d.states, d.modes))
                ctx.check(os.path.realpath(d.path_vib_model) == os.path.realpath(FS.path_vib_model) and os.path.realpath(d.path_rho_model) == os.path.realpath(FS.path_rho_model),
                          "directory", "%s: the job reads %s" % (tag, d.path_vib_model))
                ctx.check((d.hash_vib, d.hash_rho) == (FS.hash_vib, FS.hash_rho), "model", tag + ": the job has other model fingerprints")
                ctx.check(d.delta_beta == req.get("delta_beta", consts.delta_beta), "delta-beta", "%s: delta beta %s instead of %s" % (tag, d.delta_beta, req.get("delta_beta", "default")))
                beta = 1.0 / (consts.boltzman * d.temperature)
                ctx.check(abs(d.beta - beta) < 1e-9 * beta and abs(d.tau - beta / d.beads) < 1e-9 * beta, "beta", "%s: beta %s tau %s" % (tag, d.beta, d.tau))
            ctx.check(os.path.normpath(env.get("ROOT_DIR", "")) == os.path.normpath(FS.path_rho), "root-dir", "%s: ROOT_DIR=%s" % (tag, env.get("ROOT_DIR")))
            scratch_dir = env.get("SCRATCH_DIR", "")
            ctx.check(os.path.normpath(scratch_dir) == os.path.normpath(FS.path_rho.replace("work", "scratch")), "scratch-dir", "%s: SCRATCH_DIR=%s" % (tag, scratch_dir))
            ctx.check(len(pos) == 1 and os.path.isfile(pos[0]), "script", "%s: job script %s" % (tag, pos))
            ctx.check(os.path.isfile(env.get("SAMPLING_SCRIPT", "")), "script", "%s: sampling script %s" % (tag, env.get("SAMPLING_SCRIPT")))
            ctx.check(os.access(env.get("PYTHON3_PATH", ""), os.X_OK), "python", "%s: python %s" % (tag, env.get("PYTHON3_PATH")))
            ctx.check(os.path.isdir(o.get("D", "")), "workdir", "%s: working directory %s" % (tag, o.get("D")))
            if cluster in ("graham", "orca"):
                ctx.check("partition" not in o, "partition", "%s: partition given on %s" % (tag, cluster))
            else:
                ctx.check(o.get("partition") == (req.get("partition") or {"feynman": "highmem", "nlogn": "serial"}[cluster]), "partition",
                          "%s: partition %s on %s" % (tag, o.get("partition"), cluster))
        for key, got in want.items():
            ctx.check(got >= need, "too-few", "%s: %d samples enqueued for temperature/beads %s, %d requested" % (tag, got, key, need))
            ctx.event("grid_points_checked")

    def request(rng, A, N, D, R):
        block = int(rng.choice([1, 7, 10, 100, 1000, 1000, 997, 12345, limit]))
        kind = int(rng.randint(5))
        ns = [block * int(rng.randint(1, 4)), block + int(rng.randint(0, 3 * block)), limit, limit + int(rng.randint(1, limit)), limit - 1][kind]
        ns = max(ns, block)
        req = dict(number_of_samples=ns, number_of_states=A, number_of_modes=N, id_data=D, id_rho=R,
                   temperature_list=[float(round(t, 2)) if rng.rand() < 0.7 else int(t) + 1 for t in rng.uniform(5, 900, rng.randint(1, 4))],
                   bead_list=[int(b) for b in rng.choice([3, 4, 8, 12, 20, 64, 100], rng.randint(1, 4), replace=False)])
        if rng.rand() < 0.3:
            req["temperature_list"].append(float([298.157, 77.3555, 12.0625, 0.375][int(rng.randint(4))]))
        req["temperature_list"] = list(dict.fromkeys(req["temperature_list"]))
        if block != 1000 or rng.rand() < 0.5:
            req["block_size"] = block
        per = min(ns, limit)
        per -= per % block
        if rng.rand() < 0.5:
            req["number_of_samples_overall"] = [per, per + 1, 2 * per, 2 * per - 1, 3 * per + 1, max(1, per // 2)][int(rng.randint(6))]
        if rng.rand() < 0.4:
            req["delta_beta"] = float(rng.choice([1e-3, 5e-5, 0.01]))
        if rng.rand() < 0.2:
            req["wait_param"] = "--wait"
        if rng.rand() < 0.2:
            req["partition"] = str(rng.choice(["long", "very_long_name_of_a_partition", "group39-nodes"]))
        return req

    # ---- histories of submissions in one process -------------------------------------------------------------------
    clusters = ["nlogn", "feynman", "graham", "orca"]
    defaults = copy.deepcopy({k: v for k, v in vars(Sub).items() if isinstance(v, (dict, int))})
    for h in range(ctx.scale(40, 500)):
        rng = ctx.rng("history", h)
        cl = clusters[h % 4]
        farm.cluster(cl)
        pending, tag0 = [], "history %d on %s" % (h, cl)
        with ctx.guard("raises", tag0):
            for k in range(int(rng.randint(2, 4))):
                A, N, D, R = int(rng.randint(1, 4)), int(rng.randint(1, 4)), int(rng.randint(0, 30)), int(rng.randint(0, 12))
                FS = new_root(rng, A, N, D, R)
                req = request(rng, A, N, D, R)
                given = copy.deepcopy(req)
                how = rng.rand()
                if pending and how < 0.35:
                    # the parameters of an earlier submission (with its paths), the request on top
                    given = dict(copy.deepcopy(pending[int(rng.randint(len(pending)))][3].param_dict), **given)
                    given.setdefault("block_size", 1000)
                    for x, v in (("number_of_samples_overall", 0), ("block_size", 1000), ("delta_beta", consts.delta_beta), ("wait_param", ""), ("partition", None)):
                        if x not in req:
                            given[x] = v
                    ctx.event("submissions_from_earlier")
                elif how < 0.5:
                    given.update(path_root="/nowhere/", path_rho="/nowhere/rho/", path_data="/nowhere/", path_scratch="/nowhere/s/",
                                 path_vib_model="/nowhere/v.json", path_rho_model="/nowhere/r.json", hostname="elsewhere")
                given0 = copy.deepcopy(given)
                with common.Quiet():
                    obj = Sub(FS, given)
                pending.append([FS, req, given, obj, 0, given0])
                if rng.rand() < 0.3:
                    with common.Quiet():
                        other = Sub(FS)                           # made with the defaults only, edited, never submitted
                    for v in getattr(other, "param_dict", {}).values():
                        if isinstance(v, list):
                            v.append(5)
            order = list(rng.permutation(len(pending))) + [int(rng.randint(len(pending)))]
            for k in order:
                FS, req, given, obj, times, given0 = pending[k]
                farm.reset()
                with common.Quiet():
                    obj.submit_jobs()
                tag = "%s submission %d (time %d) %s" % (tag0, k, times + 1, {x: req[x] for x in req if x not in ("id_data", "id_rho")})
                check_submission(tag, FS, req, farm.jobs(), cl)
                pending[k][4] += 1
                ctx.check(given == given0, "caller-modified", tag + ": the caller's dictionary was modified")
                ctx.event("submissions" if not times else "repeated_submissions")
                ctx.case(("submit", cl, req["number_of_samples"], req.get("block_size"), req.get("number_of_samples_overall"), len(req["bead_list"]), len(req["temperature_list"]), times), sample=tag)
        now = {k: v for k, v in vars(Sub).items() if isinstance(v, (dict, int))}
        ctx.check(now == defaults, "defaults-modified", tag0 + ": the defaults of the class changed")
        for FS, *_ in pending:
            shutil.rmtree(FS.path_root, ignore_errors=True)

    # ---- fine grids and long runs: many temperatures and beads, many jobs at each -------------------------------------
    for h in range(ctx.scale(4, 24)):
        rng = ctx.rng("large", h)
        cl = clusters[h % 4]
        farm.cluster(cl)
        FS = new_root(rng, 2, 2, h, h % 3)
        nT, nP, nj = [(1, 1, 130), (13, 9, 1), (1, 45, 2), (60, 1, 2)][(h + h // 4) % 4]
        blk = int(rng.choice([1, 500, 1000]))
        req = dict(number_of_samples=3 * blk, number_of_samples_overall=3 * blk * nj, block_size=blk, number_of_states=2, number_of_modes=2, id_data=h, id_rho=h % 3,
                   temperature_list=[round(5 + 0.05 * k * int(rng.randint(1, 9)), 2) for k in range(nT)], bead_list=[int(b) for b in 3 + rng.permutation(200)[:nP]])
        req["temperature_list"] = list(dict.fromkeys(req["temperature_list"]))
        tag = "%d temperatures, %d bead numbers, %d jobs each on %s" % (len(req["temperature_list"]), nP, nj, cl)
        with ctx.guard("raises", tag):
            farm.reset()
            with common.Quiet():
                Sub(FS, copy.deepcopy(req)).submit_jobs()
            check_submission(tag, FS, req, farm.jobs(), cl)
            ctx.event("large_submissions")
            ctx.case(("large", cl, nT, nP, nj, blk), sample=tag)
    # ---- the number under which the scheduler accepted a job -----------------------------------------------------------
    for base in [0, 9, 98, 998] + [10 ** k - 2 for k in range(4, 11)] + [2 ** 31 - 1]:
        farm.reset()
        os.environ["FAKE_BASE"] = str(base)
        with ctx.guard("raises", "submission of job %d" % (base + 1)):
            with common.Quiet():
                got = [jb.submit_job("sbatch --job-name={name:s} x.sh", dict(name="n"))[0] for _ in range(3)]
            ctx.check(got == [base + 1, base + 2, base + 3] and all(type(x) is int for x in got), "job-number", "jobs %d.. were returned as %s" % (base + 1, got))
            ctx.event("job_numbers", 3)
    os.environ["FAKE_BASE"] = "1000"

    # ---- failing scheduler -----------------------------------------------------------------------------------------
    for h in range(ctx.scale(6, 40)):
        rng = ctx.rng("fail", h)
        farm.cluster(clusters[h % 4])
        FS = new_root(rng, 1, 1, 0, 0)
        req = dict(number_of_samples=3000, number_of_samples_overall=9000, number_of_states=1, number_of_modes=1, id_data=0, id_rho=0, temperature_list=[100.0, 200.0], bead_list=[4, 8])
        farm.reset()
        os.environ["FAKE_FAIL_AT"] = str(int(rng.randint(1, 12)))
        os.environ["FAKE_FAIL_CODE"] = str(int(rng.choice([1, 2, 127, 255])))
        with common.Quiet():
            obj = Sub(FS, dict(req))
        ctx.expect_raise(obj.submit_jobs, "failure-ignored", "the scheduler refused job %s and nothing was raised" % os.environ["FAKE_FAIL_AT"])
        os.environ.pop("FAKE_FAIL_AT")
        ctx.event("refused_submissions")
        farm.cluster(clusters[h % 2])
        with common.Quiet():
            obj = Sub(FS, dict(req, partition="gpu"))
        farm.reset()
        ctx.expect_raise(obj.submit_jobs, "partition-accepted", "a partition that does not exist was accepted")
        ctx.check(not farm.jobs(), "partition-accepted", "jobs were submitted to a partition that does not exist")
        farm.cluster(["mars", "graham-test", "Orca", "nlogn2"][h % 4])
        ctx.expect_raise(lambda: Sub(FS, dict(req)).submit_jobs(), "cluster-accepted", "an unknown cluster was accepted")
        farm.cluster("nlogn")
        ctx.expect_raise(lambda: Sub(FS, dict(req, number_of_samples=10)).submit_jobs(), "block-accepted", "a block larger than the number of samples was accepted")

    # ---- end to end: run the recorded jobs ---------------------------------------------------------------------------
    saved = Sub.__dict__.get("MAX_SAMPLES_PER_JOB")
    for h in range(ctx.scale(4, 24)):
        rng = ctx.rng("e2e", h)
        cl = clusters[h % 4]
        farm.cluster(cl)
        with ctx.guard("raises", "end to end on %s" % cl):
            A, N, D, R = int(rng.randint(1, 3)), int(rng.randint(1, 3)), int(rng.randint(0, 9)), int(rng.randint(0, 9))
            FS = new_root(rng, A, N, D, R)
            block = int(rng.randint(2, 6))
            cap = block * 3 + int(rng.randint(0, 2))
            req = dict(number_of_samples=cap + 2, number_of_samples_overall=cap * 2, block_size=block, number_of_states=A, number_of_modes=N, id_data=D, id_rho=R,
                       temperature_list=[150.0, 301.25][:1 + h % 2], bead_list=[3, 5][:1 + (h // 2) % 2])
            try:
                Sub.MAX_SAMPLES_PER_JOB = cap
                farm.reset()
                with common.Quiet():
                    Sub(FS, dict(req)).submit_jobs()
            finally:
                if saved is not None:
                    Sub.MAX_SAMPLES_PER_JOB = saved
                else:
                    del Sub.MAX_SAMPLES_PER_JOB
            jobs = farm.jobs()
            check_submission("end to end on %s %s" % (cl, req), FS, req, jobs, cl)
            out_dir = None
            for jid, argv in jobs:
                o, pos = options(argv)
                env = dict(os.environ, SLURM_JOB_ID=str(jid), SLURM_JOBID=str(jid), SLURM_SUBMIT_DIR=FS.path_root, SLURM_CLUSTER_NAME=cl, PYTHONPATH=common.REPO, **exported(o))
                r = subprocess.run(["bash", pos[0]], cwd=o["D"], env=env, capture_output=True, text=True, timeout=120)
                ctx.event("jobs_executed")
                ctx.check("Finished Successfully" in r.stdout, "job-failed", "the job script failed: %s %s" % (r.stdout[-300:], r.stderr[-600:]))
                # on the first two clusters results are moved to the results directory, else they stay in the scratch area
                out_dir = FS.path_rho_results if cl in ("nlogn", "feynman") else os.path.join(env["SCRATCH_DIR"], "results")
            got, drawn = {}, {}
            for f in sorted(os.listdir(out_dir)):
                if f.endswith(".npz"):
                    with np.load(os.path.join(out_dir, f)) as z:
                        n = int(z["number_of_samples"])
                        ctx.check(len(z["s_g"]) == n and bool(np.all(np.isfinite(z["s_g"]))) and len(z["s_gP"]) == n, "job-data", "%s holds other data than it says" % f)
                        ctx.check(str(z["hash_vib"]) == FS.hash_vib and str(z["hash_rho"]) == FS.hash_rho, "job-hash", "%s has other fingerprints" % f)
                    P, T = int(f[1:].split("_")[0]), float(f.split("_T")[1].split("_")[0])
                    got[(T, P)] = got.get((T, P), 0) + n
                    with np.load(os.path.join(out_dir, f)) as z:
                        rows = [tuple(float(z[k][i]) for k in ("s_rho", "s_g", "s_gP", "s_gM")) for i in range(n)]
                    if len(set(rows)) == n:      # (what is sampled is not the sampled model itself)
                        again = set(rows) & drawn.setdefault((T, P), set())
                        ctx.check(not again, "same-samples", "end to end on %s: %s repeats %d of the samples of other jobs at T=%g, P=%d" % (cl, f, len(again), T, P))
                        ctx.event("files_with_new_samples", int(bool(drawn[T, P])))
                        drawn[T, P] |= set(rows)
            want = {(float(T), P) for T in req["temperature_list"] for P in req["bead_list"]}
            ctx.check(set(got) == want, "job-grid", "end to end on %s: results for %s instead of %s" % (cl, sorted(got), sorted(want)))
            for k, n in got.items():
                ctx.check(n >= req["number_of_samples_overall"], "job-samples", "end to end on %s: %d samples on disk at %s, %d requested" % (cl, n, k, req["number_of_samples_overall"]))
            ctx.event("end_to_end")
            ctx.case(("e2e", cl, A, N, D, R, block), sample="end to end on %s %s -> %s" % (cl, req, got))

    # ---- textual form of a run ----------------------------------------------------------------------------------------
    names = ("samples", "blocks", "states", "beads", "modes", "temperature", "block_size", "id_data", "id_rho", "beta", "tau", "delta_beta")
    rng = ctx.rng("enc")
    roots = [new_root(rng, 1 + i % 3, 1 + i // 2, 3 * i, i) for i in range(5)]
    for i in range(ctx.scale(300, 6000)):
        rng = ctx.rng("enc", i)
        FS = roots[i % len(roots)]
        with ctx.guard("encode-raises", "encoding case %d" % i):
            cls = pimc.BoxDataPM if i % 4 else pimc.BoxData
            d = cls()
            with common.Quiet():
                A, N = common.load("pibronic.vibronic.vibronic_model_io").extract_dimensions_of_model(FS)
            d.states, d.modes, d.id_data, d.id_rho = A, N, FS.id_data, FS.id_rho
            d.block_size, d.blocks, d.beads = int(rng.randint(1, 10 ** 6)), int(rng.randint(1, 1000)), int(rng.randint(3, 2000))
            d.samples = d.block_size * d.blocks
            d.temperature = float(rng.choice([300.0, rng.uniform(0.001, 3000), round(rng.uniform(1, 900), 2), 1.0 / 3]))
            d.beta = float(1.0 / (consts.boltzman * d.temperature))
            d.tau = d.beta / d.beads
            if cls is pimc.BoxDataPM:
                d.delta_beta = float(rng.choice([consts.delta_beta, 1e-3, rng.uniform(0, 1), 1e-17]))
            elif not hasattr(d, "delta_beta"):
                d.delta_beta = 0.0
            with common.Quiet():
                text = d.encode_self() if i % 2 else cls.json_serialize({"number_of_samples": d.samples, "number_of_blocks": d.blocks, "number_of_states": d.states,
                        "number_of_beads": d.beads, "number_of_modes": d.modes, "temperature": d.temperature, "block_size": d.block_size, "id_data": d.id_data,
                        "id_rho": d.id_rho, "delta_beta": d.delta_beta, "path_root": FS.path_root})
            ctx.check("," not in text and "'" not in text and "\n" not in text, "separator", "the textual form cannot be passed to a job: %s" % text[:200])
            if i % 2:                                             # the run's own form: only the directory is added by the submitter
                p = json.loads(text.replace(";", ","))
                p["path_root"] = FS.path_root
                with common.Quiet():
                    text = d.encode_self(params=p)
            with common.Quiet():
                if i % 3 == 0:
                    f = os.path.join(ctx.scratch_root, "run.json")
                    open(f, "w").write(text)
                    e = cls.from_json_file(f)
                elif i % 3 == 1:
                    e = cls.from_json_string(text)
                else:
                    e = cls()
                    e.load_json_string(text)
            for nm in names:
                a, b = getattr(d, nm), getattr(e, nm, None)
                ok = (a == b) if nm not in ("beta", "tau") else (b is not None and abs(a - b) <= 1e-12 * abs(a))
                ctx.check(ok, "roundtrip", "%s changed from %r to %r by encoding" % (nm, a, b))
            ctx.check(os.path.realpath(e.path_vib_model) == os.path.realpath(FS.path_vib_model) and os.path.realpath(e.path_rho_model) == os.path.realpath(FS.path_rho_model),
                      "roundtrip", "model paths %s" % e.path_vib_model)
            ctx.check((e.hash_vib, e.hash_rho) == (FS.hash_vib, FS.hash_rho), "roundtrip", "fingerprints changed")
            ctx.event("encodings")
            ctx.case(("enc", cls.__name__, i % 6, d.beads, d.temperature))


if __name__ == "__main__":
    common.main("C13", run, rule="distinct = (cluster, sample/block/total numbers, grid size, repetition) submissions, executed end-to-end submissions, encodings",
                required=("jobs_recorded", "grid_points_checked", "submissions", "repeated_submissions", "submissions_from_earlier", "refused_submissions", "large_submissions", "job_numbers", "jobs_executed", "end_to_end", "encodings", "files_with_new_samples"),
                assumptions=["root directories without blanks, commas, semicolons or shell metacharacters", "the request names number_of_states/modes, id_data and id_rho, as the examples do",
                             "the fake scheduler splits --export at commas as SLURM does"])
