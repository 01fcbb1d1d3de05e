"""C20: waiting for jobs of the scheduler.

Every scenario runs in a process of its own: stand-ins of scontrol/sacct/sbatch answer from a script of the scenario,
the job's signal is delivered at a chosen point (before, while the scheduler is asked, just before or during the wait,
while the lock is released, while polling).  Oracle: the wait ends normally only when the scheduler's last answer
reported the job as completed, it ends once that happened, and it raises when the scheduler does not know the job.
"""
import json
import os
import signal
import stat
import subprocess
import time
import common

SCONTROL = """#!/bin/sh
[ "$1" = show ] || exit 1
if [ "$2" = config ]; then cat "$SC/config"; exit 0; fi
n=$(($(cat "$SC/n") + 1)); echo $n > "$SC/n"
echo "$3" >> "$SC/asked"
[ -f "$SC/kill$n" ] && kill -USR1 $PPID
f="$SC/out$n"; [ -f "$f" ] || f="$SC/outlast"
[ -f "$f.err" ] && cat "$f.err" >&2 && exit 1
cat "$f"
"""
SACCT = """#!/bin/sh
echo "$@" >> "$SC/sacct"
cat "$SC/acct"
"""
SBATCH = """#!/bin/sh
echo "$@" >> "$SC/sbatch"
[ -f "$SC/sbatch.err" ] && cat "$SC/sbatch.err" >&2
cat "$SC/sbatch.out"
exit $(cat "$SC/sbatch.rc")
"""
REAL_SLEEP = common.REAL_SLEEP
SHOW = ("JobId=%(id)d JobName=%(name)s\n   UserId=user(1000) GroupId=user(1000)\n   Priority=%(prio)d Account=(null)\n"
        "   JobState=%(state)s Reason=None Dependency=(null)\n   Requeue=1 Restarts=0 BatchFlag=1 ExitCode=0:0\n"
        "   RunTime=00:00:%(prio)02d TimeLimit=UNLIMITED\n   Partition=serial AllocNode:Sid=node:%(id)d\n\n")
UNKNOWN = "slurm_load_jobs error: Invalid job id specified\n"


def put(path, text):
    with open(path, "w") as f:
        f.write(text)


class Server:
    def __init__(self, ctx):
        self.ctx = ctx
        self.bin = ctx.scratch("bin")
        for name, text in (("scontrol", SCONTROL), ("sacct", SACCT), ("sbatch", SBATCH)):
            p = os.path.join(self.bin, name)
            put(p, text)
            os.chmod(p, os.stat(p).st_mode | stat.S_IXUSR)
        os.environ["PATH"] = self.bin + os.pathsep + os.environ.get("PATH", "")

    def script(self, answers, d=None):
        """answers: list of (kind, text) for the successive queries of one job; the last one repeats"""
        d = d or self.ctx.scratch()
        for f in os.listdir(d):
            if f.startswith("out") or f.startswith("kill"):
                os.remove(os.path.join(d, f))
        put(os.path.join(d, "n"), "0\n")
        put(os.path.join(d, "config"), "Configuration data\nClusterName             = nlogn\n")
        put(os.path.join(d, "acct"), "")
        for i, (kind, text) in enumerate(answers):
            for name in ["out%d" % (i + 1)] + (["outlast"] if i == len(answers) - 1 else []):
                put(os.path.join(d, name), "" if kind == "err" else text)
                if kind == "err":
                    put(os.path.join(d, name + ".err"), text)
        return d


def asked(d):
    return int(open(os.path.join(d, "n")).read())


def answers_of(rng, jid, states, end):
    """scheduler answers; the name of the job must not matter"""
    name = str(rng.choice(["water_opt", "water_vib", "D0_R0_P12_T300.00", "x_ip"]))
    out = [("ok", SHOW % dict(id=jid, name=name, prio=int(rng.randint(1, 60)), state=s)) for s in states]
    out.append(("ok", SHOW % dict(id=jid, name=name, prio=7, state="COMPLETED")) if end == "COMPLETED"
               else ("err", str(rng.choice([UNKNOWN, "slurm_load_jobs error: Unable to contact slurm controller\n"]))))
    return out


class Lock:
    """delivers a signal while the lock is about to be released"""

    def __init__(self, lock, fire):
        self.lock, self.fire = lock, fire

    def acquire(self, *a, **k):
        return self.lock.acquire(*a, **k)

    def locked(self):
        return self.lock.locked()

    def release(self):   # (the signal handler calls this)
        self.lock.release()

    def __enter__(self):
        return self.lock.__enter__()

    def __exit__(self, *a):
        self.fire()
        return self.lock.__exit__(*a)


def later(delay):
    """a helper that delivers the signal of the job after some time (double fork: nobody has to wait for it)"""
    return subprocess.Popen(["/bin/sh", "-c", "sleep %s; kill -USR1 %d 2>/dev/null" % (delay, os.getpid())],
                            stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)


def child(jb, sc, out):
    """one scenario in this (forked) process: a sequence of jobs waited for one after another"""
    res = dict(jobs=[], sleeps=0)
    helpers = []

    def sleep(s):
        res["sleeps"] += 1
        slept[0] += s
        REAL_SLEEP(0.0 if sc.get("long") else 0.002)
    common.SLEEP[0] = sleep
    # the time that was slept through has passed for every clock
    slept = [0.0]
    for clock in ("time", "monotonic", "perf_counter"):
        setattr(time, clock, lambda real=getattr(time, clock): real() + slept[0])
    alarm = signal.alarm
    signal.alarm = lambda n: signal.setitimer(signal.ITIMER_REAL, min(n, 0.25)) and 0 or 0
    signal.signal(signal.SIGUSR1, jb.SIGUSR1_handle)
    real_wait = signal.sigwait
    real_lock = jb.__dict__.get("job_state_lock")
    try:
        for job in sc["jobs"]:
            os.environ["SC"] = job["dir"]
            fired = []

            def fire():
                if not fired:
                    fired.append(1)
                    os.kill(os.getpid(), signal.SIGUSR1)

            def waiting(s, job=job):
                res["waits"] = res.get("waits", 0) + 1
                if job["when"] == "at-wait":
                    fire()
                elif job["when"] == "during":
                    fired.append(1)
                    helpers.append(later("0.08"))
                return real_wait(s)
            signal.sigwait = waiting
            if real_lock is not None:
                jb.job_state_lock = Lock(real_lock, fire) if job["when"] == "at-release" else real_lock
            if job["when"] == "before":
                fire()
            if job["when"] in ("at-wait", "during", "at-release"):
                helpers.append(later("2.5"))   # in case the point was never reached
            try:
                jb.synchronize_with_job(job["id"], "kind")
                r = "returned"
            except Exception as e:
                r = "raised " + type(e).__name__
            res["jobs"].append(dict(result=r, asked=asked(job["dir"]), fired=len(fired)))
        REAL_SLEEP(0.4 if sc["settle"] else 0.0)   # an alarm left behind would end the process
        for h in helpers:
            h.kill()
        res["done"] = True
    finally:
        put(out, json.dumps(res))


def run_all(ctx, jb, scenarios, judge, width=8, limit=25.0):
    todo, live = list(enumerate(scenarios)), {}
    while todo or live:
        while todo and len(live) < width:
            i, sc = todo.pop(0)
            out = os.path.join(ctx.scratch_root, "res%d.json" % i)
            pid = os.fork()
            if pid == 0:
                common.die_with_parent()
                try:
                    fd = os.open(os.devnull, os.O_WRONLY)
                    os.dup2(fd, 1)
                    os.dup2(fd, 2)
                    child(jb, sc, out)
                finally:
                    os._exit(0)
            live[pid] = (sc, out, time.time())
        for pid in list(live):
            sc, out, t0 = live[pid]
            p, st = os.waitpid(pid, os.WNOHANG)
            end = None
            if p:
                end = "signal %d" % os.WTERMSIG(st) if os.WIFSIGNALED(st) else "exit"
            elif time.time() - t0 > (600.0 if sc.get("long") else limit):
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                end = "hang"
            if end:
                del live[pid]
                judge(sc, end, json.load(open(out)) if os.path.exists(out) else None)
        REAL_SLEEP(0.01)


def run(ctx):
    jb, es = common.load("pibronic.server.job_boss", "pibronic.vibronic.electronic_structure")
    srv = Server(ctx)

    # 1. waiting
    WHEN = ["before", "first-query", "at-wait", "during", "polling", "at-release"]
    scenarios = []
    for i in range(ctx.scale(70, 800)):
        rng = ctx.rng("wait", i)
        jobs = []
        for k in range(int(rng.choice([1, 1, 2, 3]))):
            jid = int(rng.choice([7, 42, 5001, 123456, 99999999]))
            n = int(rng.randint(0, 5))
            states = [str(s) for s in rng.choice(["RUNNING", "COMPLETING", "PENDING", "CONFIGURING", "RESIZING"], n)]
            end = "COMPLETED" if rng.rand() < 0.75 else "error"
            when = WHEN[i % 6] if k == 0 else str(rng.choice(["before", "first-query", "during", "at-release", "at-wait"]))
            d = srv.script(answers_of(rng, jid, states, end))
            # the signal can only be waited for when it is sent before or during the wait
            if when in ("first-query", "polling"):
                put(os.path.join(d, "kill1"), "")
            if when == "polling" and n > 1:
                put(os.path.join(d, "kill%d" % int(rng.randint(2, n + 1))), "")
            jobs.append(dict(id=jid, dir=d, when=when, states=states, end=end))
        scenarios.append(dict(i=i, jobs=jobs, settle=any(j["when"] == "at-release" for j in jobs)))
    # jobs that take hours: many answers, with phases (requeued jobs are pending again)
    for i in range(ctx.scale(3, 8)):
        rng = ctx.rng("long", i)
        states = []
        for _ in range(int(rng.randint(3, 6))):
            states += [str(rng.choice(["RUNNING", "PENDING", "COMPLETING", "CONFIGURING", "SUSPENDED"]))] * int(rng.randint(100, ctx.scale(400, 2000)))
        jid = int(rng.randint(1, 10 ** 6))
        d = srv.script(answers_of(rng, jid, states, "COMPLETED"))
        jobs = [dict(id=jid, dir=d, when="before", states=states, end="COMPLETED")]
        scenarios.append(dict(i=1000 + i, jobs=jobs, settle=False, long=True))
        ctx.event("long_jobs")

    def judge(sc, end, res):
        jobs = [dict({k: v for k, v in j.items() if k != "dir"}, states=j["states"] if len(j["states"]) < 9 else "%d answers" % len(j["states"]))
                for j in sc["jobs"]]
        tag = "scenario %d %s" % (sc["i"], jobs)
        if not ctx.check(end != "hang", "hang", "%s: the wait never ended (%s)" % (tag, res)):
            return
        ctx.check(end == "exit" and res is not None and res.get("done"), "died", "%s: the process ended with %s" % (tag, end))
        for j, r in zip(sc["jobs"], (res or {}).get("jobs", [])):
            # index (from 1) of the first query that reports the completion or an error
            last = len(j["states"]) + 1
            ctx.event("waits")
            ctx.event("when-" + j["when"])
            if j["end"] == "COMPLETED":
                ctx.check(r["result"] == "returned", "completed-refused", "%s: %s although the job completed" % (tag, r))
                ctx.check(r["asked"] >= last, "early", "%s: the wait ended after %d answers, completion was reported by the %d." % (tag, r["asked"], last))
                ctx.event("completions")
            else:
                ctx.check(r["result"].startswith("raised"), "error-ignored", "%s: %s although the scheduler lost the job" % (tag, r))
                ctx.event("lost_jobs")
            ids = open(os.path.join(j["dir"], "asked")).read().split()
            ctx.check(set(ids) == {str(j["id"])}, "wrong-job", "%s: the scheduler was asked for %s" % (tag, sorted(set(ids))))
        ctx.event("signal_waits", (res or {}).get("waits", 0))
        ctx.case(("wait", tuple((j["when"], tuple(j["states"]), j["end"]) for j in sc["jobs"])), True, tag[:200])
    run_all(ctx, jb, scenarios, judge)

    # the rest runs in this process
    old = common.SLEEP[0]
    common.SLEEP[0] = lambda s: None
    old_handler = signal.getsignal(signal.SIGUSR1)
    try:
        # 2. recorded states after the wait
        good = [" COMPLETED \n", "COMPLETED\nCOMPLETED\n", "  COMPLETED \n  COMPLETED \n  COMPLETED \n"]
        failed = ["   FAILED \n", "    FAILED \n    FAILED \n COMPLETED \n", " COMPLETED \n    FAILED \n"]
        other = ["", "\n", "   RUNNING \n", "   TIMEOUT \n CANCELLED \n", " CANCELLED+ \n", "OUT_OF_ME+ \n", "   PENDING \n", "COMPLETING \n", "NODE_FAIL \n"]
        signal.signal(signal.SIGUSR1, jb.SIGUSR1_handle)
        for i in range(ctx.scale(60, 600)):
            rng = ctx.rng("results", i)
            jid = int(rng.randint(1, 10 ** 8))
            kind = ["good", "failed", "other", "lost"][i % 4]
            answers = dict(good=good, failed=failed, other=other, lost=good)[kind]
            acct = answers[(i // 4) % len(answers)]
            d = srv.script(answers_of(rng, jid, ["RUNNING"] * int(rng.randint(0, 3)), "error" if kind == "lost" else "COMPLETED"))
            put(os.path.join(d, "acct"), acct)
            put(os.path.join(d, "kill1"), "")
            os.environ["SC"] = d
            try:
                with common.Quiet():
                    es.wait_on_results(jid, "some job")
                r = "accepted"
            except Exception as e:
                r = "refused (%s: %s)" % (type(e).__name__, str(e)[:80])
            ctx.check(r.startswith("accepted" if kind == "good" else "refused"), "result-" + kind,
                      "job %d whose recorded states are %r (%s) was %s" % (jid, acct, kind, r))
            if kind != "lost":
                log = open(os.path.join(d, "sacct")).read().split() if os.path.exists(os.path.join(d, "sacct")) else []
                ctx.check(str(jid) in log, "wrong-job", "the state of job %d was asked with %s" % (jid, log))
            ctx.event("recorded_states")
            ctx.case(("results", kind, acct, i), True, "%s %r" % (kind, acct))

        # 3. output files of jobs
        words = ["cycle 12 converged", "memory used 12 GB", "srun: step created", "Executing vibron", "0.12345 Hartree", "node012", "killed by nobody? no", ""]
        for i in range(ctx.scale(120, 1500)):
            rng = ctx.rng("slurm", i)
            d = ctx.scratch()
            jid = int(rng.randint(1, 10 ** 7))
            kind = ["ok", "segv", "memory", "killed", "missing", "unfinished"][i % 6]
            body = [str(w) for w in rng.choice(words, int(rng.randint(0, 60)))]
            if i % 9 == 4:                                            # a long log
                body += [str(w) for w in rng.choice(words, [2500, 12000, 60000][i // 9 % 3])]
            seg = str(rng.choice(["srun: error: node: task 0: SIGSEGV", "SIGSEGV", "forrtl: severe (174):SIGSEGV, segmentation fault occurred", "signal='SIGSEGV'", "(SIGSEGV)"]))
            bad = dict(ok=[], segv=[seg], memory=["slurmstepd: error: Exceeded step memory limit at some point.", "srun: error: task 0: Killed"],
                       killed=[str(rng.choice(["srun: error: node012: task 0: Killed", "Killed", "/var/spool/slurmd/job7/slurm_script: line 9:  4711 Killed                  xaces2"]))], unfinished=[], missing=[])[kind]
            if kind == "segv" and rng.rand() < 0.3:
                bad.append("Killed")
            for b in bad if rng.rand() < 0.5 else bad[::-1]:
                body.insert(int(rng.randint(0, len(body) + 1)), b)
            if kind == "ok" or (kind != "unfinished" and rng.rand() < 0.5):
                body.append("Finished")
            if kind != "missing":
                put(os.path.join(d, "slurm-%d.out" % jid), "\n".join(body) + ("\n" if rng.rand() < 0.5 else ""))
            put(os.path.join(d, "slurm-%d.out" % (jid + 1)), "SIGSEGV\n" if kind == "ok" else "Finished\n")
            try:
                with common.Quiet():
                    jb.check_slurm_output(d if rng.rand() < 0.5 else d + os.sep, jid)
                r = None
            except Exception as e:
                r = e
            if kind in ("ok", "unfinished"):
                ctx.check(r is None, "output-refused", "output %s was refused: %r" % (body[-3:], r))
            elif kind in ("segv", "memory"):
                ctx.check(isinstance(r, MemoryError), "output-memory", "a job with %s gives %r" % (bad, r))
            else:
                ctx.check(isinstance(r, Exception) and not isinstance(r, MemoryError), "output-killed", "a job with %s (%s) gives %r" % (bad, kind, r))
            if r is not None and kind != "missing":
                ctx.check(str(jid) in str(r), "output-id", "the error of job %d says %r" % (jid, str(r)))
            ctx.event("job_outputs")
            ctx.case(("slurm", kind, len(body), i), True, kind)
            ctx.drop(d)

        # 4. submissions
        for i in range(ctx.scale(60, 500)):
            rng = ctx.rng("submit", i)
            d = srv.script([("ok", "")])
            os.environ["SC"] = d
            jid = int(rng.choice([0, 1, 3, 9, 10, 57, 4711, 10 ** 6, 10 ** 8, 2 ** 31 - 1])) if i % 2 else int(rng.randint(1, 10 ** 9))
            kind = ["good", "good", "refused", "silent"][int(rng.randint(4))]
            put(os.path.join(d, "sbatch.out"), "Submitted batch job %d%s" % (jid, "\n" if rng.rand() < (0.4 if jid < 10 else 0.7) else "") if kind == "good" else
                "" if kind == "silent" else str(rng.choice(["", "Submitted batch job %d\n" % jid])))
            put(os.path.join(d, "sbatch.rc"), "%s\n" % rng.choice(["1", "1", "2", "137", "255"]) if kind == "refused" else "0\n")
            if kind == "refused" and rng.rand() < 0.6:
                put(os.path.join(d, "sbatch.err"), "sbatch: error: Batch job submission failed: Invalid partition\n")
            try:
                with common.Quiet():
                    r = jb.submit_job("sbatch --mem={memory:d}G {script:s}", dict(memory=3, script="job.sh"))
                r = r[0]
            except Exception as e:
                r = e
            if kind == "good":
                ctx.check(isinstance(r, int) and r == jid, "job-id", "sbatch printed job %d, submit_job() returned %r" % (jid, r))
            elif kind == "refused":
                ctx.check(isinstance(r, Exception), "refused-submission", "a refused submission gives %r" % (r,))
            else:
                ctx.check(r is None or isinstance(r, Exception), "job-id", "sbatch printed nothing, submit_job() returned %r" % (r,))
            line = open(os.path.join(d, "sbatch")).read().split()
            ctx.check(line == ["--mem=3G", "job.sh"], "command", "sbatch was called with %s" % line)
            ctx.event("submissions")
            ctx.case(("submit", kind, jid, i), True, kind)
    finally:
        common.SLEEP[0] = old
        signal.signal(signal.SIGUSR1, old_handler)


if __name__ == "__main__":
    common.main("C20", run, rule="scripts of scheduler answers x moment of the job's signal x sequences of jobs; recorded states; job outputs",
                required=("waits", "completions", "lost_jobs", "when-before", "when-first-query", "when-polling", "recorded_states", "job_outputs", "submissions"),
                assumptions=["the job's signal is sent before or during the wait (a job that dies silently is waited for, outside the statement)",
                             "answers of the scheduler have the format of scontrol show job"])
