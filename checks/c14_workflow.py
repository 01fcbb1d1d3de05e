"""C14: the electronic-structure workflow resumes where it was interrupted.

Monitor: the real workflow runs in child processes against a fake batch system on a private PATH; the fake sbatch logs
every job together with the status file it finds at that moment, and carries out the fault planned for it: refuse, job
without output, failed output, SIGKILL of the workflow before or after the job has finished; further crash points are
right after every advance.  After each crash a new process continues, until the workflow ends.  The log is checked
against the stage order: each stage starts exactly when all its predecessors are on record, completed ones never run
again, nothing is skipped.  Status files of all kinds and interleaved workflow objects are checked against the stage
order as well.
"""
import glob
import os
import re
import shutil
import signal
import stat
import sys
import time
import traceback
import common
import esfix

STAGES = ["OPT", "NIP", "VIB", "IPEOMCC", "PREPVIB", "VIBRON", "FINISHED"]
SB = r"""#!/bin/sh
n=$(($(cat "$FAKE_LOG/count") + 1)); echo $n > "$FAKE_LOG/count"
for a in "$@"; do case "$a" in --workdir=*) W="${a#--workdir=}";; --mem=*) M="${a#--mem=}";; --export=*) E="${a#--export=}";; --partition=*) Q="${a#--partition=}";; esac; done
J=$(printf '%s' "$E" | tr ',' '\n' | sed -n 's/^JOB=//p')
P=$(printf '%s' "$E" | tr ',' '\n' | sed -n 's/^PARENT_PID=//p')
me=$(cat "$FAKE_LOG/pid")
{ echo "JOB $J"; echo "DIR $W"; echo "MEM $M"; echo "PARTITION $Q"; echo "CLUSTER $FAKE_CLUSTER"; echo "HEAD $(printf '%s' "$E" | tr ',' '\n' | sed -n 's/^HEADNODE=//p')"; echo "PARENT $P"; echo "ME $me"; sed 's/^/STATUS /' "$W/execution_state.txt" 2>/dev/null; } > "$FAKE_LOG/ev$n"
cp "$W/$J.in" "$FAKE_LOG/in$n" 2>/dev/null
act=$(sed -n "s/^$n //p" "$FAKE_LOG/plan")
# the outputs of this job carry no completion marker, only their existence can tell
case "$act $J" in "broken "*_prepvib) act=noout;; esac
case "$act" in
 refuse) echo "sbatch: error: Batch job submission failed: Invalid account" >&2; exit 1;;
 complain) echo "Submitted batch job $((5000 + n))"; echo "sbatch: error: something" >&2; exit 0;;
 killbefore) kill -9 $me; exit 0;;
esac
id=$((5000 + n))
case "$act" in
 failed) echo FAILED > "$FAKE_LOG/acct$id";;
 timeout) echo TIMEOUT > "$FAKE_LOG/acct$id";;
 *) echo COMPLETED > "$FAKE_LOG/acct$id";;
esac
# what the job leaves; nothing of it is there before the job has ended
{
echo "W='$W'; J='$J'; act='$act'; id=$id"
cat <<'END'
echo Finished > "$W/slurm-$id.out"
if [ "$act" = segv ]; then echo "srun: error: SIGSEGV" > "$W/slurm-$id.out"; fi
if [ "$act" = broken ] || [ "$act" = segv ]; then
  for f in "$FAKE_OUT/$J".*; do head -n 3 "$f" > "$W/$(basename "$f")"; done
elif [ "$act" = noout ]; then
  for f in "$FAKE_OUT/$J".*; do rm -f "$W/$(basename "$f")"; done
else
  cp "$FAKE_OUT/$J".* "$W/" 2>/dev/null
  case "$J" in *_prepvib) echo fcm > "$W/fcmfinal";; esac
  case "$act" in
   partial0) rm -f "$W/fcmfinal";;
   partial1) rm -f "$W/$J.pntheff";;
   partial2) rm -f "$W/$J.vibronic_coupling";;
   partial3) rm -f "$W/$J.vibron_input";;
  esac
fi
END
} > "$FAKE_LOG/job$id"
if [ "$act" = killafter ]; then . "$FAKE_LOG/job$id"; kill -9 $me; exit 0; fi
echo "Submitted batch job $((5000 + n))"
if [ -n "$FAKE_SIGNAL" ]; then kill -USR1 $me; fi
"""
SC = r"""#!/bin/sh
case "$1 $2" in
 "show config") echo "ClusterName             = $FAKE_CLUSTER"; exit 0;;
esac
if [ ! -f "$FAKE_LOG/job$3" ]; then echo "slurm_load_jobs error: Invalid job id specified" >&2; exit 0; fi
if [ ! -f "$FAKE_LOG/asked$3" ]; then touch "$FAKE_LOG/asked$3"; echo "JobId=$3 JobState=RUNNING"; exit 0; fi
if [ ! -f "$FAKE_LOG/ended$3" ]; then . "$FAKE_LOG/job$3"; touch "$FAKE_LOG/ended$3"; fi
echo "JobId=$3 JobState=COMPLETED"
"""
SA = r"""#!/bin/sh
if [ -f "$FAKE_LOG/ended$5" ]; then printf ' %s \n' "$(cat "$FAKE_LOG/acct$5")"; elif [ -f "$FAKE_LOG/job$5" ]; then echo " RUNNING "; fi
"""


class Farm:
    def __init__(self, ctx):
        self.bin, self.log = ctx.scratch("bin"), ctx.scratch("eslog")
        for name, text in (("sbatch", SB), ("scontrol", SC), ("sacct", SA), ("sinfo", "#!/bin/sh\nprintf 'PARTITION\\nserial\\nhighmem\\n'\n")):
            p = os.path.join(self.bin, name)
            esfix.write(p, text)
            os.chmod(p, os.stat(p).st_mode | stat.S_IXUSR)
        os.environ["PATH"] = self.bin + os.pathsep + os.environ["PATH"]
        os.environ["FAKE_LOG"] = self.log
        os.environ["FAKE_CLUSTER"] = "nlogn"

    def reset(self, out, plan=()):
        for f in os.listdir(self.log):
            os.remove(os.path.join(self.log, f))
        esfix.write(os.path.join(self.log, "count"), "0\n")
        esfix.write(os.path.join(self.log, "plan"), "".join("%d %s\n" % x for x in plan))
        os.environ["FAKE_OUT"] = out

    def events(self):
        out = []
        for i in range(1, int(open(os.path.join(self.log, "count")).read()) + 1):
            p = os.path.join(self.log, "ev%d" % i)
            if not os.path.exists(p):
                continue
            e = dict(status=[])
            for line in open(p):
                k, _, v = line.rstrip("\n").partition(" ")
                if k == "STATUS":
                    e["status"].append(v.strip())
                else:
                    e[k] = v
            q = os.path.join(self.log, "in%d" % i)
            e["input"] = open(q).read() if os.path.exists(q) else None
            out.append(e)
        return out


class Molecule:
    """a workflow directory with inputs and the outputs the programs will produce"""

    def __init__(self, ctx, rng, name, shipped=None):
        """shipped: index of a molecule whose input files come with the package (its name replaces the given one)"""
        files = sorted(glob.glob(os.path.join(common.REPO, "examples", "input_files", "*_zmat.txt")))
        files = [f for f in files if os.path.isfile(f.replace("_zmat.txt", "_params.txt"))]
        ship = files[shipped % len(files)] if shipped is not None and files else None
        if ship:
            name = os.path.basename(ship)[:-len("_zmat.txt")]
        self.name, self.root, self.out = name, ctx.scratch(), ctx.scratch()
        self.basis, self.theory = str(rng.choice(["TZ2P", "DZP"])), str(rng.choice(["MBPT(2)", "CCSD", "CCSD(T)"]))
        self.kind = str(rng.choice(["internal", "cartesian"]))
        n = int(rng.randint(2, 6))
        if ship:
            z, par = open(ship).read(), open(ship.replace("_zmat.txt", "_params.txt")).read()
            rows = [x.strip() for x in par.splitlines() if x.strip() and not x.startswith("#")]
            said = dict(zip(rows[::2], rows[1::2]))
            self.basis, self.theory, self.kind = said["basis"], said["theory"], "internal" if "=" in z else "cartesian"
            if self.kind == "internal":
                vals = dict([y.strip() for y in x.split("=")] for x in z.splitlines() if "=" in x)
                self.geo = [(k, "%.6f" % rng.uniform(0.5, 179)) for k in vals]
            else:
                self.geo = [(x.split()[0],) + tuple("%.6f" % y for y in rng.uniform(-3, 3, 3)) for x in z.splitlines() if len(x.split()) == 4 and "." in x]
            ctx.event("shipped_molecules")
        elif self.kind == "internal":
            z, vals = esfix.zmat_internal(rng, n)
            self.geo = [(k, "%.6f" % rng.uniform(0.5, 179)) for k in vals]
        else:
            z, atoms = esfix.zmat_cartesian(rng, n)
            self.geo = [(a,) + tuple("%.6f" % x for x in rng.uniform(-3, 3, 3)) for a in atoms]
        self.start_nip, self.keep = 0, int(rng.randint(1, 5))
        self.start_nip = self.keep + int(rng.randint(0, 3))
        put = lambda f, t: esfix.write(os.path.join(self.out, f), t)  # noqa
        esfix.write(os.path.join(self.root, name + "_params.txt"), par if ship else esfix.params_text(rng, self.basis, self.theory))
        # the lines of the given geometry, the way an input may hold them
        self.given = ["=".join(y.strip() for y in x.split("=")) if "=" in x else " ".join(x.split()) for x in z.splitlines() if x.strip()]
        esfix.write(os.path.join(self.root, name + "_zmat.txt"), z)
        put(name + "_opt.out0", esfix.opt_output(rng, self.kind, self.geo)[0])
        evs = ["%.6f" % x for x in sorted(rng.uniform(-30, -9, 8))]
        put(name + "_hartree_fock_nip.out0", esfix.scf_output(rng, ["%.6f" % -300.0] + evs)[0])
        put(name + "_vib.out0", "\n".join(esfix.noise(rng, 20) + esfix.done_tail(rng)) + "\n")
        for k in range(1, self.start_nip + 1):
            s = ["%.2f" % rng.uniform(86, 99) for _ in range(k)]
            if k > self.keep:
                s[-1] = "%.2f" % rng.uniform(2, 84)
            put("%s_eomcc_ip_%d.out0" % (name, k), esfix.ip_output(rng, s)[0])
        put(name + "_prepvib.out0", "\n".join(esfix.noise(rng, 20)) + "\n")
        put(name + "_prepvib.pntheff", esfix.heff_file(rng)[0])
        put(name + "_prepvib.vibronic_coupling", esfix.heff_file(rng)[0])
        put(name + "_prepvib.vibron_input", esfix.vibron_input(rng)[0])
        put(name + "_vibron.out0", esfix.vibron_output(rng))
        esfix.write(os.path.join(self.out, "fcmfinal"), "fcm\n")
        self.status = os.path.join(self.root, "execution_state.txt")

    def stage_of(self, job):
        if not job.startswith(self.name + "_"):
            return None
        j = job[len(self.name) + 1:]
        return {"opt": "OPT", "hartree_fock_nip": "NIP", "vib": "VIB", "prepvib": "PREPVIB", "vibron": "VIBRON"}.get(j) or ("IPEOMCC" if j.startswith("eomcc_ip_") else None)

    def populate(self, upto):
        """outputs of the first `upto` stages, as left by an earlier process"""
        for s in STAGES[:upto]:
            for f in os.listdir(self.out):
                if f != "fcmfinal" and self.stage_of(f.rsplit(".", 1)[0]) == s:
                    shutil.copy(os.path.join(self.out, f), self.root)
            if s == "PREPVIB":
                shutil.copy(os.path.join(self.out, "fcmfinal"), self.root)

    def lines(self):
        return [x.strip() for x in open(self.status) if x.strip()] if os.path.isfile(self.status) else []


def keywords(text):
    """the keywords between the parentheses after *ACES2"""
    inner, depth = "", 0
    for c in text.partition("*ACES2")[2]:
        depth -= c == ")"
        if depth > 0:
            inner += c
        depth += c == "("
        if depth == 0 and inner:
            break
    return dict([y.strip() for y in x.split("=", 1)] for x in inner.split(",") if "=" in x)


def sections(text):
    """the named sections that follow the *ACES2 block, with their settings"""
    out, cur = {}, None
    for line in text.partition("*ACES2")[2].splitlines():
        line = line.strip()
        if line.startswith("*"):
            cur = out.setdefault(line[1:], {})
        elif cur is not None and line:
            k, _, v = line.partition("=")
            cur[k.strip()] = v.strip()
    return out


def answers(nip):
    """stands in for the user at the nip prompt: declines the guess, gives nip"""
    def ask(message=""):
        if "alternative" in message:
            return str(nip)
        if "guessed" in message:
            return "no"
        return "yes"
    return ask


def through(es, mol, farm, entry):
    """run an entry point (in the child); its workflow object works in the directory of mol, no directory is made"""
    import pathlib
    real = es.VibronExecutionClass

    def make(name, root, *a, **k):
        esfix.write(os.path.join(farm.log, "asked"), "%s\n%s\n" % (name, root))
        return real(name, mol.root, *a, **k)
    es.VibronExecutionClass = make
    os.makedirs = os.mkdir = pathlib.Path.mkdir = lambda *a, **k: None
    entry()
    return mol.lines()[-1:]


def child(es, mol, farm, die_after=None, entry=None):
    """run the workflow in a forked process; returns how it ended"""
    note = os.path.join(farm.log, "note")
    pid = os.fork()
    if pid == 0:
        common.die_with_parent()
        code = 70
        try:
            fd = os.open(os.devnull, os.O_RDWR)
            for k in (0, 1, 2):
                os.dup2(fd, k)
            esfix.write(os.path.join(farm.log, "pid"), str(os.getpid()))
            signal.signal(signal.SIGUSR1, lambda *a: None)
            common.SLEEP[0] = lambda s: None
            import builtins
            builtins.input = answers(mol.start_nip)
            if entry is not None:
                esfix.write(note, "".join(through(es, mol, farm, entry)))
                os._exit(0)
            job = es.VibronExecutionClass(mol.name, mol.root)
            if die_after is not None:
                count = [0]
                real = job.advance

                def advance(*a, **k):
                    r = real(*a, **k)
                    count[0] += 1
                    if count[0] == die_after:
                        os.kill(os.getpid(), signal.SIGKILL)
                    return r
                job.advance = advance
            job.calculate_vibronic_model()
            with open(note, "w") as f:
                f.write(str(getattr(job.state, "name", job.state)))
            code = 0
        except BaseException:
            with open(note, "w") as f:
                f.write(traceback.format_exc()[-2500:])
            code = 3
        finally:
            os._exit(code)
    end = time.monotonic() + 30
    while True:
        p, st = os.waitpid(pid, os.WNOHANG)
        if p:
            break
        if time.monotonic() > end:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            return "hung", ""
        REAL_SLEEP(0.002)
    text = open(note).read() if os.path.exists(note) else ""
    if os.WIFSIGNALED(st):
        return "killed", text
    return {0: "done", 3: "raised"}.get(os.WEXITSTATUS(st), "exit %d" % os.WEXITSTATUS(st)), text


REAL_SLEEP = common.REAL_SLEEP


def run(ctx):
    es = common.load("pibronic.vibronic.electronic_structure")
    signal.signal(signal.SIGUSR1, lambda *a: None)
    signal.signal(signal.SIGALRM, lambda *a: None)
    farm = Farm(ctx)

    def check_events(tag, mol, done, evs, data):
        """done: stages on record before this run.  Returns the stages the run started, in order"""
        started, cur = [], len(done)
        for e in evs:
            s = mol.stage_of(e.get("JOB", ""))
            ctx.event("jobs_observed")
            if not ctx.check(s is not None and os.path.normpath(e.get("DIR", "")) == os.path.normpath(mol.root), "foreign-job", "%s: job %s in %s" % (tag, e.get("JOB"), e.get("DIR")), data):
                continue
            ctx.check(e.get("PARENT") == e.get("ME"), "parent", "%s: the job reports to process %s, the workflow is %s" % (tag, e.get("PARENT"), e.get("ME")), data)
            where = (e.get("CLUSTER"), {"nlogn": "serial", "feynman": "highmem"}[e["CLUSTER"]])
            ctx.check((e.get("HEAD"), e.get("PARTITION")) == where, "cluster", "%s: stage %s was submitted to %s, partition %s; the cluster is %s, its partition %s"
                      % ((tag, s, e.get("HEAD"), e.get("PARTITION")) + where), data)
            k = STAGES.index(s)
            if started and started[-1] == s:
                ctx.check(s == "IPEOMCC", "again", "%s: stage %s was submitted twice in one run" % (tag, s), data)
            else:
                want = STAGES[cur] if cur < len(STAGES) else None
                ctx.check(s == want, "order", "%s: stage %s was run when %s was due (record: %s)" % (tag, s, want, e["status"]), data)
                cur = k + 1
                started.append(s)
            rec = [x for x in e["status"] if x]
            ctx.check(rec[-1:] == STAGES[k - 1:k] if k else not [x for x in rec if x in STAGES], "not-recorded",
                      "%s: stage %s runs while the last record is %s" % (tag, s, rec[-1:]), data)
            if e["input"] is not None and s != "VIBRON":
                t = e["input"]
                ctx.check("BASIS=%s," % mol.basis in t and ("CALC=%s," % ("SCF" if s == "NIP" else mol.theory)) in t, "foreign-input",
                          "%s: the input of stage %s is not of this molecule: %s" % (tag, s, t[-200:]), data)
                kw = keywords(t)
                more = {"OPT": {"GEOM_OPT": "RIC"} if mol.kind == "cartesian" else {}, "NIP": {}, "VIB": {"VIB": "FINDIF"}, "IPEOMCC": {"IP_CALC": "IP_EOMCC"},
                        "PREPVIB": {"IP_CALC": "IP_EOMCC", "PREP_VIBRON": "ON", "GRID_VIBRON": "3", "CC_CONV": "10", "SCF_CONV": "10", "ESTATE_TOL": "10"}}[s]
                want = dict(BASIS=mol.basis, CALC="SCF" if s == "NIP" else mol.theory, **more)
                mem = kw.pop("MEMORY_SIZE", "")
                ctx.check(kw == want, "input-keywords", "%s: the input of stage %s asks for %s instead of %s" % (tag, s, kw, want), data)
                ctx.check(mem.endswith("GB") and int(mem[:-2]) <= int(re.sub(r"\D", "", e.get("MEM", "0")) or 0), "input-memory", "%s: stage %s uses %s of the requested %s" % (tag, s, mem, e.get("MEM")), data)
                if s == "OPT" and mol.kind == "internal":
                    ctx.check("*" in t.split("*ACES2")[0], "input-keywords", "%s: no coordinate is marked for optimisation" % tag, data)
                if s == "OPT":
                    have = [" ".join(x.split()) for x in t.split("*ACES2")[0].splitlines() if x.strip()]
                    ctx.check(have == mol.given, "foreign-input", "%s: the geometry that is optimised is %s, the given one is %s" % (tag, have, mol.given), data)
                else:
                    ctx.check(len([x for x in t.split("*ACES2")[0].splitlines() if x.strip()]) == len(mol.given), "foreign-input",
                              "%s: the geometry of stage %s has other lines than the given one: %s" % (tag, s, t.split("*ACES2")[0]), data)
                    for g in mol.geo:
                        ok = ("%s=%s" % g in t) if mol.kind == "internal" else (" ".join(g) in " ".join(t.split()))
                        ctx.check(ok, "foreign-input", "%s: the input of stage %s lacks the optimised coordinate %s" % (tag, s, g), data)
                if s in ("IPEOMCC", "PREPVIB"):
                    nip = re.findall(r"nip=(\d+)", t)
                    want = [e["JOB"].rsplit("_", 1)[1]] if s == "IPEOMCC" else [str(mol.keep)]
                    ctx.check(nip == want, "nip", "%s: stage %s has nip=%s, not %s" % (tag, s, nip, want), data)
                    want = {"mrcc_gen": {"nip": want[0]}, "end": {}}
                    if s == "PREPVIB":
                        want["ip_eom"] = {"diabatize": "on", "heff_low": "0", "heff_high": "200"}
                    ctx.check(sections(t) == want, "input-sections", "%s: the sections of the input of stage %s are %s instead of %s" % (tag, s, sections(t), want), data)
                ctx.event("inputs_checked")
        return started

    # ---- crash and fault histories of complete workflows -------------------------------------------------------------
    faults = ["killbefore", "killafter", "refuse", "complain", "noout", "broken", "failed", "timeout", "segv"]
    nh = ctx.scale(60, 700)
    hung = 0
    for h in range(nh):
        rng = ctx.rng("history", h)
        mol = Molecule(ctx, rng, str(rng.choice(["ch2o", "h2o", "nh3_opt", "vib", "m1"])), shipped=h // 3 if h % 3 == 1 else None)
        upto = int(rng.randint(0, 7)) if h % 3 == 0 else 0
        partial = h % 15 == 7                                    # one of the files the vibron program needs is not made
        if partial:
            upto = 4
        pre = STAGES[:upto]
        mol.populate(upto)
        if upto or rng.rand() < 0.5:
            esfix.write(mol.status, "".join(s + "\n" for s in pre) + ("\n" if rng.rand() < 0.3 else ""))
        data = dict(h=h, upto=upto, kind=mol.kind)
        done, crashes, log = list(pre), 0, []
        os.environ["FAKE_SIGNAL"] = "1"                          # jobs always announce their end to the workflow
        os.environ["FAKE_CLUSTER"] = ["nlogn", "feynman"][h % 2]
        for attempt in range(14):
            plan, die, mode = (), None, "plain"
            if attempt < 1 + h % 5 and len(done) < 6:
                if partial and attempt == 0:
                    f, at = "partial%d" % (h // 15 % 4), 1
                    plan, mode = ((at, f),), "%s at job %d" % (f, at)
                elif rng.rand() < 0.3:
                    die = int(rng.randint(1, 8 - len(done)))
                    mode = "die after advance %d" % die
                else:
                    f = faults[int(rng.randint(len(faults)))] if attempt else faults[h % len(faults)]
                    at = int(rng.randint(1, 8 - len(done)))
                    plan, mode = ((at, f),), "%s at job %d" % (f, at)
            farm.reset(mol.out, plan)
            tag = "history %d attempt %d (%s) with record %s" % (h, attempt, mode, done)
            how, text = child(es, mol, farm, die)
            evs = farm.events()
            log.append((mode, how, [e.get("JOB") for e in evs]))
            data["log"] = log
            check_events(tag, mol, done, evs, data)
            rec = mol.lines()
            while rec[-2:] == ["FINISHED"] * 2:
                rec.pop()
            ctx.check(rec[:len(done)] == done, "record-lost", "%s: the record is now %s" % (tag, rec), data)
            new = rec[len(done):]
            ctx.check(new == STAGES[len(done):len(done) + len(new)], "record", "%s: recorded %s after %s" % (tag, new, done), data)
            ran = {mol.stage_of(e.get("JOB", "")) for e in evs}
            ctx.check(all(s in ran or s == "FINISHED" for s in new), "recorded-not-run", "%s: recorded %s, ran %s" % (tag, new, sorted(map(str, ran))), data)
            before = done
            done = done + new
            ctx.event("crash_" + how.split()[0])
            if how == "hung":
                ctx.violation("hung", tag + ": the workflow did not end", data)
                hung += 1
                if hung == 3:
                    return
                break
            if plan and len(evs) >= plan[0][0]:
                ctx.event("fault_" + plan[0][1])
                ctx.check(how in ("raised", "killed"), "fault-ignored", "%s: the workflow went on (%s)" % (tag, how), data)
                s = mol.stage_of(evs[-1].get("JOB", ""))
                ctx.check(s not in new, "failed-recorded", "%s: the failed stage %s is on record" % (tag, s), data)
                crashes += 1
                continue
            if how == "killed":
                crashes += 1
                continue
            if how == "raised":
                ctx.violation("raises", "%s: the undisturbed workflow raised %s" % (tag, text), data)
                break
            ctx.check(how == "done", "ended", "%s: ended with %s" % (tag, how), data)
            ctx.check(before == STAGES[:len(before)] and done[:6] == STAGES[:6], "incomplete", "%s: finished with record %s" % (tag, done), data)
            ctx.check(text.strip() == "FINISHED", "state", "%s: finished in state %s" % (tag, text), data)
            break
        else:
            ctx.violation("never-finished", "history %d: not finished after many attempts: %s" % (h, log), data)
        # a finished workflow stays finished
        farm.reset(mol.out)
        keep = mol.lines()
        how, text = child(es, mol, farm)
        ctx.check(how == "done" and not farm.events() and text.strip() == "FINISHED", "finished-again", "history %d: a finished workflow ran %s (%s)" % (
            h, [e.get("JOB") for e in farm.events()], how), data)
        ctx.check([x for x in keep if x != "FINISHED"] == [x for x in mol.lines() if x != "FINISHED"], "finished-again", "history %d: the record changed" % h, data)
        ctx.event("finished_workflows")
        ctx.case(("history", upto, mol.kind, tuple((m, w) for m, w, _ in log)), nontrivial=crashes > 0 or upto > 0, sample="record %s, attempts %s" % (pre, log))
        ctx.drop(mol.root)
        ctx.drop(mol.out)

    # ---- the ways to start it: by name, by data set, from the command line, with or without a stage -------------------
    for h in range(ctx.scale(10, 80)):
        rng = ctx.rng("entry", h)
        mol = Molecule(ctx, rng, str(rng.choice(["ch2o", "h2o", "m1"])))
        upto = int(rng.randint(0, 7)) if h >= 5 else 0
        done = STAGES[:upto]
        mol.populate(upto)
        if upto or rng.rand() < 0.5:
            esfix.write(mol.status, "".join(s + "\n" for s in done))
        D = int(rng.choice([0, 7, 11, 203, 1000]))
        stage = upto + 1 if upto < 6 and rng.rand() < 0.4 else None
        kind = ["test_one", "data set", "main", "data set"][h % 4]
        more = () if stage is None else (stage,)
        if kind == "test_one":
            entry = lambda: es.test_one(mol.name, *more)  # noqa
        elif kind == "data set":
            entry = lambda: es.calculate_vibronic_model_wrapper_one(D, mol.name, *more)  # noqa
        else:
            def entry():
                sys.argv = ["electronic_structure.py", mol.name] + [str(x) for x in more]
                es.main()
        tag = "started by %s (%s, data set %d, stage %s) with record %s" % (kind, mol.name, D, stage, done)
        data = dict(h=h)
        farm.reset(mol.out)
        how, text = child(es, mol, farm, entry=entry)
        if not ctx.check(how == "done" and text.strip() in ("FINISHED", "VIBRON"), "entry", "%s: ended with %s %s" % (tag, how, text), data):
            continue
        check_events(tag, mol, done, farm.events(), data)
        rec = mol.lines()
        while rec[-2:] == ["FINISHED"] * 2:
            rec.pop()
        ctx.check(rec in (STAGES, STAGES[:6]), "record", "%s: the record is %s" % (tag, rec), data)
        name, root = open(os.path.join(farm.log, "asked")).read().split("\n")[:2]
        root = os.path.normpath(root)
        if kind == "data set":
            ctx.check(name == mol.name and root.split(os.sep)[-2:] == ["data_set_%d" % D, "electronic_structure"], "entry-directory", "%s: it works in %s" % (tag, root), data)
        else:
            ctx.check(name == mol.name and os.path.basename(root) == mol.name, "entry-directory", "%s: it works in %s" % (tag, root), data)
        ctx.event("entry_points")
        ctx.case(("entry", kind, upto, stage, D), nontrivial=True, sample=tag)
        ctx.drop(mol.root)
        ctx.drop(mol.out)

    # ---- status files -------------------------------------------------------------------------------------------------
    def new_object(mol, state=None):
        with common.Quiet():
            job = es.VibronExecutionClass(mol.name, mol.root) if state is None else es.VibronExecutionClass(mol.name, mol.root, state)
            job.parse_input_parameters()
        return job
    rng = ctx.rng("status")
    mol = Molecule(ctx, rng, "h2o")
    texts = [(None, "OPT"), ("", "OPT"), ("\n", "OPT"), ("\n\n  \n", "OPT")]
    for k, s in enumerate(STAGES):
        nxt = STAGES[min(k + 1, 6)]
        pre = "".join(x + "\n" for x in STAGES[:k + 1])
        texts += [(pre, nxt), (pre + "\n\n", nxt), (pre.rstrip("\n"), nxt), (s + "\n", nxt), (pre + s + "\n", nxt), ("garbage\n" + pre, nxt), (pre.replace("\n", "  \n"), nxt),
                  (pre.replace("\n", "\n\n"), nxt), ("FINISHED\n" + pre, nxt), (pre + "NONSENSE\n", "OPT"), (pre + s[:-1] + "\n", "OPT"), (pre + s.lower() + "\n", "OPT"), (pre + s + s + "\n", "OPT"),
                  (pre + "12\n", "OPT"), ("".join(x + "\n" for x in reversed(STAGES[:k + 1])), "NIP"), (pre * 3, nxt)]
    for i in range(ctx.scale(150, 3000)):                        # random records
        ls = [str(x) for x in rng.choice(STAGES + ["", " ", "x"], rng.randint(1, 12))]
        last = [x for x in ls if x.strip()][-1:]
        want = "OPT" if not last or last[0] == "x" else STAGES[min(STAGES.index(last[0]) + 1, 6)]
        texts.append(("\n".join(ls) + "\n" * int(rng.randint(0, 3)), want))
    for text, want in texts:
        if os.path.exists(mol.status):
            os.remove(mol.status)
        if text is not None:
            esfix.write(mol.status, text)
        with ctx.guard("status-raises", "status file %r" % (text,)):
            job = new_object(mol)
            ctx.check(job.state.name == want, "resume", "status file %r resumes at %s instead of %s" % (text, job.state.name, want), dict(text=text))
            ctx.check(text is None or open(mol.status).read() == text, "status-modified", "reading the status file %r changed it" % (text,))
            ctx.event("status_files")
            ctx.case(("status", text, want))
            if rng.rand() < 0.5 and want != "FINISHED" and (not text or text.endswith("\n")):   # lines are always written whole
                with common.Quiet():
                    job.advance()
                ctx.check(job.state.name == STAGES[STAGES.index(want) + 1], "advance", "advance from %s leads to %s" % (want, job.state.name))
                again = new_object(mol)
                ctx.check(again.state.name == job.state.name, "resume", "after advancing from %s with record %r a new workflow is at %s" % (want, text, again.state.name))
                ctx.event("advanced_and_resumed")
    for k in range(1, 8):
        with ctx.guard("status-raises", "explicit state"):
            job = new_object(mol, k)
            ctx.check(job.state.name == STAGES[k - 1], "explicit", "asked for stage %s, got %s" % (STAGES[k - 1], job.state.name))

    # ---- interleaved objects -------------------------------------------------------------------------------------------
    for i in range(ctx.scale(30, 400)):
        rng = ctx.rng("inter", i)
        mols = [Molecule(ctx, rng, n) for n in ("aa", "bb", "cc")[:int(rng.randint(2, 4))]]
        with ctx.guard("interleaved-raises", "interleaved workflows"):
            jobs = [new_object(m) for m in mols]
            with common.Quiet():
                for j in jobs:
                    j.setup_zmat()
            zs = [j.zmat.get() for j in jobs]
            model = [0] * len(jobs)
            for step in range(14):
                k = int(rng.randint(len(jobs)))
                r = rng.rand()
                if r < 0.6 and model[k] < 6:
                    with common.Quiet():
                        jobs[k].advance()
                    model[k] += 1
                elif r < 0.8:
                    jobs[k] = new_object(mols[k])
                    with common.Quiet():
                        jobs[k].setup_zmat()
                    zs[k] = jobs[k].zmat.get()
                else:
                    jobs[k].parameter_dictionary["nip"] = 100 * k + step
                    jobs[k].parameter_dictionary["DROPMO"] = "DROPMO=1-%d" % (k + 2)
                for q, (j, m) in enumerate(zip(jobs, mols)):
                    ctx.check(j.state.name == STAGES[model[q]], "interleaved", "workflow %s is at %s, its own history says %s" % (m.name, j.state.name, STAGES[model[q]]))
                    ctx.check(j.parameter_dictionary["basis"] == m.basis and j.parameter_dictionary["theory"] == m.theory, "interleaved-parameters", "workflow %s has parameters of another one" % m.name)
                    ctx.check(j.parameter_dictionary.get("nip") is None or j.parameter_dictionary["nip"] // 100 == q, "interleaved-parameters", "workflow %s has the nip of another one" % m.name)
                    ctx.check(j.zmat.get() == zs[q] and j.name == m.name and os.path.normpath(j.path_root) == os.path.normpath(m.root), "interleaved-parameters", "workflow %s changed" % m.name)
                    ctx.check(m.lines() == STAGES[:model[q]], "interleaved-record", "the record of %s is %s" % (m.name, m.lines()))
                    ctx.check(all(v.startswith((m.name, "cp.auto")) for v in list(j.file_in.values()) + list(j.file_out.values())), "interleaved-parameters", "file names of another workflow: %s" % j.file_in)
                ctx.event("interleaved_steps")
            fresh = es.VibronExecutionClass("dd", mols[0].root)
            ctx.check(not fresh.parameter_dictionary.get("nip") and fresh.parameter_dictionary["basis"] is None and fresh.parameter_dictionary["DROPMO"] == "", "interleaved-parameters",
                      "a new workflow starts with parameters of another one: %s" % fresh.parameter_dictionary)
            ctx.case(("inter", tuple(model)))
        for m in mols:
            ctx.drop(m.root)
            ctx.drop(m.out)


if __name__ == "__main__":
    common.main("C14", run, rule="distinct = (recorded stages at the start, coordinates, sequence of faults and endings) histories; status file texts; interleavings",
                required=("jobs_observed", "inputs_checked", "finished_workflows", "status_files", "advanced_and_resumed", "interleaved_steps", "entry_points", "crash_killed", "crash_raised", "crash_done",
                          "fault_killbefore", "fault_killafter", "fault_refuse"),
                assumptions=["the status file is text; each write of one line is atomic", "outputs of completed stages are still in the directory when a workflow is resumed"])
