"""C16: reference-calculation caches merge, invalidate and survive failures correctly.

Monitor: histories of reference calculations run against a stand-in `julia` on a private PATH, which records its command
line and prints the planned output or carries out the planned fault (killed with or without a message, failing status with
partial output, nothing, garbage, ...).  The oracle keeps the mapping (cache file -> fingerprints, temperature -> values)
that the property demands; after every step all cache files are compared with it, after a failure byte for byte.
"""
import json
import os
import resource
import signal
import stat
import subprocess
import time
import common
import drive
import models

JL = r"""#!/bin/sh
case "$1" in
 -v|--version) echo "julia version 1.0.1"; exit 0;;
 -e) if [ -e "$FAKE_LOG/notoolkit" ]; then echo "ERROR: ArgumentError: Package VibronicToolkit not found" >&2; exit 1; fi
     printf '%s' "$FAKE_LOG/VibronicToolkit/src/VibronicToolkit.jl"; exit 0;;
esac
n=$(($(cat "$FAKE_LOG/count") + 1)); echo $n > "$FAKE_LOG/count"
for a in "$@"; do printf '%s\n' "$a"; done > "$FAKE_LOG/argv"
if [ -e "$FAKE_LOG/gate" ]; then : > "$FAKE_LOG/started"; while [ ! -e "$FAKE_LOG/go" ]; do sleep 0.005; done; fi
cat "$FAKE_LOG/out"
cat "$FAKE_LOG/err" >&2
case "$(cat "$FAKE_LOG/act")" in
 kill) kill -9 $$;;
 segv) kill -11 $$;;
 killall) [ "$(cat /proc/$PPID/comm 2>/dev/null)" = sh ] && kill -9 $PPID; kill -9 $$;;   # with the shell that started it
 *) exit $(cat "$FAKE_LOG/act");;
esac
"""
NAMES = dict(analytic=[("Z_rho", "Z_analytical"), ("E_rho", "E_analytical"), ("Cv_rho", "Cv_analytical"), ("SvN_rho", "SvN_analytical"), ("S2_rho", "S2_analytical")],
             sos=[(k, k) for k in ("Z_sos", "E_sos", "Cv_sos", "SvN_sos", "S2_sos", "E0_exact", "SvN_exact", "S2_exact")],
             trotter=[(k, k) for k in ("Z_sos", "E_sos", "Cv_sos", "Z_trotter", "E_trotter", "Cv_trotter", "SvN_trotter", "S2_trotter", "tau")])
FAULTS = ["killed", "killed-silently", "killed-empty", "segv", "killed-with-shell", "killed-child", "status", "status-silent", "status-empty", "no-model", "empty", "blank", "garbage", "colons", "not-a-number", "unknown-names", "binary", "no-toolkit"]


class Fake:
    def __init__(self, ctx, first=None, tag=""):
        self.bin, self.log = first.bin if first else ctx.scratch("jbin"), ctx.scratch("jlog" + tag)
        os.makedirs(os.path.join(self.log, "VibronicToolkit", "src"))
        os.makedirs(os.path.join(self.log, "VibronicToolkit", "pibronic_bin"))
        if first:
            return
        p = os.path.join(self.bin, "julia")
        with open(p, "w") as f:
            f.write(JL)
        os.chmod(p, os.stat(p).st_mode | stat.S_IXUSR)
        os.environ["PATH"] = self.bin + os.pathsep + os.environ["PATH"]
        os.environ["FAKE_LOG"] = self.log

    def put(self, name, data):
        with open(os.path.join(self.log, name), "wb") as f:
            f.write(data if isinstance(data, bytes) else data.encode())

    def plan(self, out="", err="", act="0", toolkit=True):
        self.put("count", "0\n")
        self.put("out", out)
        self.put("err", err)
        self.put("act", act)
        for f in ("argv", "notoolkit"):
            if os.path.exists(os.path.join(self.log, f)):
                os.remove(os.path.join(self.log, f))
        if not toolkit:
            self.put("notoolkit", "x")

    def calls(self):
        with open(os.path.join(self.log, "count")) as f:
            return int(f.read())

    def argv(self):
        p = os.path.join(self.log, "argv")
        return open(p).read().split("\n")[:-1] if os.path.exists(p) else None


def options(argv):
    out, i = {"script": argv[0]}, 1
    while i < len(argv):
        if i + 1 < len(argv) and not argv[i + 1].startswith("--"):
            out[argv[i]] = argv[i + 1]
            i += 2
        elif "=" in argv[i]:
            k, _, v = argv[i].partition("=")
            out[k] = v
            i += 1
        else:
            out[argv[i]] = True
            i += 1
    return out


def number(rng):
    x = float(rng.choice([rng.uniform(0, 1), -rng.uniform(0, 5), rng.uniform(0, 1) * 1e-200, rng.uniform(0, 1) * 1e30, 0.0, 3.0]))
    return x, str(rng.choice(["%r", "%.17g", "%.16e"])) % x


def run(ctx):
    jw, const, fsmod = common.load("pibronic.julia_wrapper", "pibronic.constants", "pibronic.data.file_structure")
    fake = Fake(ctx)

    def read(path):
        if not os.path.exists(path):
            return None
        with open(path, "rb") as f:
            return f.read()

    for h in range(ctx.scale(48, 620)):
        rng = ctx.rng("history", h)
        big = h % 12 == 5                                            # a fine grid of temperatures in one cache, production sizes
        base = ctx.scratch()
        root = os.path.join(base, str(rng.choice(["plain", "with space", "a{b}c", "x[1]", "it's", "a;b", "co,mma", "$HOME"])))
        os.makedirs(root)
        A, N = 2, int(rng.randint(1, 3))
        nrho = 2
        FSs = []
        for r in range(nrho):
            vib = models.coupled(rng, A, N)
            FSs.append(drive.make_fs(root, vib, models.diagonal(rng, A, N), 3, r))
            models.write_json(FSs[r].path_orig_model, vib)
        walker = fsmod.FileStructure(root, 3, 0)                      # an object that is switched between the sampling models
        for F in FSs + [walker]:
            with common.Quiet():
                F.generate_model_hashes(True)
        temps = [float(x) for x in rng.choice([300.0, 250.5, 10.25, 1000.0, 0.5, 77.77, 299.99, 300.01, 1.1], 3, replace=False)]
        bs, ps = [int(x) for x in rng.choice([2, 10, 80, 100], 2, replace=False)], [int(x) for x in rng.choice([3, 12, 100], 2, replace=False)]
        if rng.rand() < 0.3:
            bs, ps = [int(x) for x in rng.choice([2, 1002, 2000, 12000], 2, replace=False)], [int(x) for x in rng.choice([12, 1012, 4096], 2, replace=False)]
        if big:
            temps = [round(0.5 + 7.25 * k, 2) for k in range(150)]
        oracle, history = {}, []
        bytes_of = {}

        def expect_file(path, FS, with_rho):
            """the record the property demands for the current models"""
            rec = oracle.get(path)
            cur = (FS.hash_vib, FS.hash_rho) if with_rho else (FS.hash_vib,)
            if rec is None or rec["hashes"] != cur:
                rec = dict(hashes=cur, values={}, with_rho=with_rho)
            return dict(rec, values=dict(rec["values"]))

        def compare(tag, data):
            for p, rec in oracle.items():
                raw = read(p)
                ctx.check(raw == bytes_of.get(p), "cache-changed", "%s: cache file %s changed" % (tag, os.path.relpath(p, root)), data)
        nops = int(rng.randint(6, 22)) if not big else 130
        for op in range(nops):
            r = rng.rand()
            if big and op < nops - 8:
                r = 1.0
            data = dict(h=h, root=root, history=history[-30:])
            if r < 0.12:                                             # edit the vibronic model
                vib = models.coupled(rng, A, N)
                models.write_json(FSs[0].path_vib_model, vib)
                for F in FSs + [walker]:
                    with common.Quiet():
                        F.generate_model_hashes(True)
                history.append("edit vib")
                ctx.event("model_edits")
                continue
            if r < 0.2:                                              # edit one sampling model
                k = int(rng.randint(nrho))
                models.write_json(FSs[k].path_rho_model, models.diagonal(rng, A, N))
                for F in FSs + [walker]:
                    with common.Quiet():
                        F.generate_model_hashes(True)
                history.append("edit rho %d" % k)
                ctx.event("model_edits")
                continue
            if r < 0.25:                                             # touch the cache from outside: emptied, or without fingerprints
                if oracle:
                    p = sorted(oracle)[int(rng.randint(len(oracle)))]
                    text = str(rng.choice(["", "\n", json.dumps({"300.00": {"Z_sos": 1.0}}), json.dumps({"hash_rho": "x", "77.77": {}})]))
                    with open(p, "w") as f:
                        f.write(text)
                    oracle[p] = dict(hashes=None, values={}, with_rho=oracle[p]["with_rho"])
                    bytes_of[p] = text.encode()
                    history.append("foreign cache content")
                    ctx.event("foreign_caches")
                continue
            k = int(rng.randint(nrho))
            if rng.rand() < 0.3:
                FS = walker
                with common.Quiet():
                    if FS.id_rho != k:
                        FS.change_rho(k)
                        FS.generate_model_hashes(True)
                        history.append("switch to rho %d" % k)
                        ctx.event("rho_switches")
            elif rng.rand() < 0.3:
                with common.Quiet():
                    FS = fsmod.FileStructure(root, 3, k)
                    FS.generate_model_hashes()
            else:
                FS = FSs[k]
            T = temps[int(rng.randint(len(temps)))] if not big or rng.rand() < 0.2 else temps[op]
            beta = const.beta(T)
            B, P = bs[int(rng.randint(2))], ps[int(rng.randint(2))]
            kind = ["sampling", "original", "sos", "trotter"][int(rng.randint(4)) if not big or op % 10 == 0 else h // 12 % 4]
            if big:
                B, P = bs[0], ps[0]
            if kind == "sampling":
                dst, src, script, names, wr = FS.path_analytic_rho, FS.path_rho_model, "analytical.jl", NAMES["analytic"], True
                call = lambda: jw.analytic_of_sampling_model(FS, beta)  # noqa
                extra = {}
            elif kind == "original":
                dst, src, script, names, wr = FS.path_analytic_orig, FS.path_orig_model, "analytical.jl", NAMES["analytic"], False
                call = lambda: jw.analytic_of_original_coupled_model(FS, beta)  # noqa
                extra = {"--uncoupled": True}                        # only the diagonal of a coupled model has analytic values
            elif kind == "sos":
                dst, src, script, names, wr = FS.template_sos_vib.format(B=B), FS.path_vib_model, "sos.jl", NAMES["sos"], False
                call = lambda: jw.sos_of_coupled_model(FS, B, beta)  # noqa
                extra = {"--basis-size": str(B)}
            else:
                dst, src, script, names, wr = FS.template_trotter_vib.format(P=P, B=B), FS.path_vib_model, "trotter.jl", NAMES["trotter"], False
                call = lambda: jw.trotter_of_coupled_model(FS, P, B, beta)  # noqa
                extra = {"--basis-size": str(B), "--num-links": str(P)}
            if rng.rand() < 0.15:
                kw = dict(path=root, id_data=3, id_rho=FS.id_rho, temperature=T, beads=P, basis_size=B,
                          method=dict(sampling="analytical_sampling", original="analytical_original", sos="sos", trotter="trotter_coupled")[kind])
                call = lambda: jw.main(**kw)  # noqa
                ctx.event("command_line_runs")
            chosen = [nm for nm in names if rng.rand() < 0.85] or names[:1]
            vals, lines = {}, []
            for new, old in chosen:
                x, t = number(rng)
                vals[new] = x
                lines.append("%s:%s%s" % (old, " " * int(rng.randint(0, 3)), t))
            if rng.rand() < 0.7:
                vals["beta"] = beta
                lines.append("beta: %r" % beta)
            if rng.rand() < 0.4:
                lines.append("some_other_quantity: 12.5")
            order = rng.permutation(len(lines))
            lines = [lines[q] for q in order]
            if rng.rand() < 0.3:
                lines.insert(int(rng.randint(len(lines) + 1)), "")
            good = "\n".join(lines) + "\n"
            partial = "\n".join([x for x in lines if x][:max(1, len(lines) // 2)]) + "\n"
            fault = FAULTS[int(rng.randint(len(FAULTS)))] if rng.rand() < (0.45 if not big else 0.1) else None
            toolkit = True
            if fault is None:
                err = "WARNING: something is deprecated\n" if rng.rand() < 0.2 else ""
                fake.plan(good, err)
            else:
                out, err, act = partial, "", "0"
                if fault == "killed":
                    err, act, out = "Killed\n", "137", str(rng.choice(["", partial, good]))
                elif fault == "killed-silently":
                    act = "kill"
                elif fault == "killed-empty":
                    out, act = "", "kill"
                elif fault == "killed-with-shell":
                    act, out = "killall", str(rng.choice(["", partial, good]))
                elif fault == "killed-child":                        # a process of the calculation was killed
                    err, out = str(rng.choice(["Killed\n", "sh: line 1: 4242 Killed     julia\n"])), str(rng.choice([partial, good]))
                elif fault == "status-silent":
                    act, out = str(rng.choice(["1", "3", "255"])), str(rng.choice([partial, good]))
                elif fault == "no-model":                            # the model file is not there
                    act, err, out = "1", "ERROR: SystemError: opening file %s: No such file or directory\n" % os.path.basename(src), ""
                    if kind == "original":
                        os.rename(src, src + ".away")
                elif fault == "segv":
                    act = "segv"
                elif fault == "status":
                    act, err = "1", "ERROR: LoadError: DomainError\n"
                elif fault == "status-empty":
                    out, act, err = "", "1", "ERROR: LoadError: SystemError: opening file\n"
                elif fault == "empty":
                    out = ""
                elif fault == "blank":
                    out = "\n\n"
                elif fault == "garbage":
                    out = good + "this is not a result\n"
                elif fault == "colons":
                    out = good + "12:30:59\n"
                elif fault == "not-a-number":
                    out = partial + "%s: abc\n" % names[-1][1]
                elif fault == "unknown-names":
                    out = "foo: 1.0\nbar: 2.0\n"
                elif fault == "binary":
                    out = b"\xff\xfe\x00:\x01\n"
                elif fault == "no-toolkit":
                    toolkit = False
                fake.plan(out, err, act, toolkit)
            # everything that exists now
            if dst not in oracle:
                bytes_of[dst] = read(dst)
                ctx.check(bytes_of[dst] is None, "cache-appeared", "a cache file appeared before its first calculation: %s" % dst, data)
            before = read(dst)
            what = "%s T=%.2f B=%d P=%d rho=%d %s" % (kind, T, B, P, FS.id_rho, fault or "ok")
            history.append(what)
            tag = "history %d step %d: %s" % (h, op, what)
            if fault is None:
                with ctx.guard("raises", tag, data):
                    with common.Quiet():
                        call()
                    rec = expect_file(dst, FS, wr)
                    if oracle.get(dst) and oracle[dst]["values"]:
                        ctx.event("discarded" if not rec["values"] else "merged")
                    key = "%.2f" % T
                    if key in rec["values"]:
                        ctx.event("overwritten")
                    rec["values"][key] = vals
                    oracle[dst] = rec
                    raw = read(dst)
                    bytes_of[dst] = raw
                    want = dict(rec["values"], hash_vib=FS.hash_vib)
                    if wr:
                        want["hash_rho"] = FS.hash_rho
                    got = None
                    try:
                        got = json.loads(raw.decode()) if raw is not None else None
                    except ValueError:
                        pass
                    ctx.check(got == want, "cache-content", "%s: the cache holds %s instead of %s" % (tag, str(got)[:700], str(want)[:700]), data)
                    ctx.check(fake.calls() == 1, "calls", "%s: %d calculations were run" % (tag, fake.calls()), data)
                    ctx.event("successful_" + kind)
            else:
                ctx.expect_raise(lambda: quietly(call), "failure-accepted", "%s: the failed calculation was accepted" % tag)
                if os.path.exists(src + ".away"):
                    os.rename(src + ".away", src)
                ctx.check(read(dst) == before, "failure-wrote", "%s: the failed calculation changed the cache file" % tag, data)
                ctx.event("fault_" + fault)
            argv = fake.argv()
            if argv is not None:
                o = options(argv)
                want = {"--conf": src}
                want.update(extra)
                got_beta = o.pop("--beta", "nan")
                sc = o.pop("script", "")
                ctx.check(os.path.basename(sc) == script and o == want, "argv", "%s: ran %s %s instead of %s %s" % (tag, sc, o, script, want), data)
                try:
                    b = float(got_beta)
                except ValueError:
                    b = float("nan")
                ctx.check(abs(b - beta) <= 1e-12 * beta, "argv-beta", "%s: ran with inverse temperature %s instead of %r" % (tag, got_beta, beta), data)
                ctx.check(os.path.dirname(sc) == os.path.realpath(os.path.join(fake.log, "VibronicToolkit", "pibronic_bin")), "argv", "%s: ran the script %s" % (tag, sc), data)
                ctx.event("commands_observed")
            compare(tag, data)
            ctx.case((kind, fault, len(oracle.get(dst, {"values": ()})["values"]), os.path.basename(root)), sample=what)
        # no other file appeared next to the caches
        for d in {os.path.dirname(p) for p in bytes_of}:
            known = {os.path.basename(p) for p, b in bytes_of.items() if b is not None and os.path.dirname(p) == d}
            known |= {os.path.basename(p) for F in FSs for p in (F.path_vib_model, F.path_rho_model, F.path_orig_model)}
            files = {f for f in os.listdir(d) if os.path.isfile(os.path.join(d, f)) and os.path.getsize(os.path.join(d, f))}   # empty: locks
            ctx.check(files <= known, "stray-files", "history %d: files %s appeared" % (h, sorted(files - known)), dict(h=h, history=history))
        ctx.event("histories")
        ctx.drop(base)
    iterations(ctx, jw, fake)
    together(ctx, jw, const, fsmod, fake)


KINDS = ("sampling", "original", "sos", "trotter")


def calculation(jw, kind, FS, beta, B, P):
    """(cache file, function that runs the calculation, names of its values)"""
    if kind == "sampling":
        return FS.path_analytic_rho, lambda: jw.analytic_of_sampling_model(FS, beta), NAMES["analytic"]
    if kind == "original":
        return FS.path_analytic_orig, lambda: jw.analytic_of_original_coupled_model(FS, beta), NAMES["analytic"]
    if kind == "sos":
        return FS.template_sos_vib.format(B=B), lambda: jw.sos_of_coupled_model(FS, B, beta), NAMES["sos"]
    return FS.template_trotter_vib.format(P=P, B=B), lambda: jw.trotter_of_coupled_model(FS, P, B, beta), NAMES["trotter"]


def in_child(call, log, slow=0.0, room=None, fatal=False):
    """run the calculation in a process of its own; room: bytes that can still be written to a file after it has ended"""
    pid = os.fork()
    if pid:
        return pid
    common.die_with_parent()
    code = 3
    try:
        os.environ["FAKE_LOG"] = log
        with common.Quiet():
            if slow:                                                 # widen the window between reading and writing
                for name in ("load", "loads", "dump", "dumps"):
                    def wrapped(*a, _f=getattr(json, name), **k):
                        r = _f(*a, **k)
                        common.REAL_SLEEP(slow)
                        return r
                    setattr(json, name, wrapped)
            if room is not None:
                comm = subprocess.Popen.communicate

                def communicate(self, *a, **k):
                    r = comm(self, *a, **k)
                    if "--beta" in str(self.args):                   # the calculation itself has ended
                        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                        signal.signal(signal.SIGXFSZ, signal.SIG_DFL if fatal else signal.SIG_IGN)
                        resource.setrlimit(resource.RLIMIT_FSIZE, (room, room))
                    return r
                subprocess.Popen.communicate = communicate
            call()
        code = 0
    except BaseException:
        code = 3
    finally:
        os._exit(code)


def reap(pid, seconds=120.0):
    """exit status, or None when the process did not end (it is killed then)"""
    end = time.monotonic() + seconds
    while time.monotonic() < end:
        p, st = os.waitpid(pid, os.WNOHANG)
        if p:
            return st
        common.REAL_SLEEP(0.003)
    os.kill(pid, signal.SIGKILL)
    os.waitpid(pid, 0)
    return None


def iterations(ctx, jw, fake):
    """the iterative decomposition runs on the data set's model, stores its results in the data set's files, or raises"""
    for h in range(ctx.scale(24, 200)):
        rng = ctx.rng("iterative", h)
        base = ctx.scratch()
        root = os.path.join(base, str(rng.choice(["plain", "with space", "a{b}c", "it's", "a;b", "$HOME"])))
        os.makedirs(root)
        FS = drive.make_fs(root, models.coupled(rng, 2, 2), models.diagonal(rng, 2, 2), int(rng.randint(0, 30)), int(rng.randint(0, 3)))
        before = {p: open(p, "rb").read() for p in (FS.path_vib_model, FS.path_rho_model)}
        n = int(rng.choice([1, 7, 50, 300]))
        fault = str(rng.choice(["ok", "ok", "status", "kill", "segv", "killed-child", "no-toolkit"]))
        fake.plan("Iteration %d\n" % n, "Killed\n" if fault == "killed-child" else "", dict(status="3", kill="kill", segv="segv").get(fault, "0"), fault != "no-toolkit")
        how = int(rng.randint(3))

        def call():
            if how == 0:
                return jw.iterate_method(FS)
            if how == 1:
                return jw.iterate_method(FS, n)
            return jw.main(path=root, id_data=FS.id_data, id_rho=FS.id_rho, method="iterate")
        tag, data = "iterative decomposition %d (%s)" % (h, fault), dict(h=h, root=root, fault=fault)
        if fault == "ok":
            with ctx.guard("iterative-raises", tag, data):
                quietly(call)
            o = options(fake.argv() or [""])
            want = {"--conf": FS.path_vib_model, "--max-iter": str(n if how == 1 else 50), "--out-conf": FS.path_iter_model, "--out-vs": FS.path_iter_mat}
            sc = o.pop("script", "")
            ctx.check(o == want and os.path.basename(sc) == "iterative_decomposition.jl", "iterative-argv", "%s: ran %s %s instead of %s" % (tag, sc, o, want), data)
            ctx.event("iterative_runs")
        else:
            ctx.expect_raise(lambda: quietly(call), "iterative-failure", "%s was accepted" % tag)
            ctx.event("iterative_failures")
        ctx.check(all(open(p, "rb").read() == b for p, b in before.items()), "iterative-models", "%s: changed the models" % tag, data)
        ctx.case(("iterative", fault, how, os.path.basename(root)))
        ctx.drop(base)


def together(ctx, jw, const, fsmod, first):
    """calculations for the same caches that run at the same time, each in its own process, and that cannot write"""
    fakes = [first] + [Fake(ctx, first, str(k)) for k in range(5)]
    for h in range(ctx.scale(14, 160)):
        rng = ctx.rng("together", h)
        base = ctx.scratch()
        vib = models.coupled(rng, 2, 2)
        FSs = [drive.make_fs(base, vib, models.diagonal(rng, 2, 2), 3, r) for r in range(2)]
        for F in FSs:
            models.write_json(F.path_orig_model, vib)
        B, P = 10, 12
        oracle, history = {}, []

        def one(kind, FS, T, fake, fault=False):
            vals, lines = {}, []
            dst, call, names = calculation(jw, kind, FS, const.beta(T), B, P)
            for new, old in names:
                vals[new], t = number(rng)
                lines.append("%s: %s" % (old, t))
            fake.plan("\n".join(lines) + "\n", act="1" if fault else "0")
            return dst, call, vals

        def settle(tag, data):
            for dst, rec in oracle.items():
                got = None
                try:
                    with open(dst) as f:
                        got = json.load(f)
                except (ValueError, OSError) as e:
                    got = repr(e)
                ctx.check(got == rec, "concurrent", "%s: cache %s holds %s instead of %s" % (tag, os.path.basename(dst), str(got)[:600], str(rec)[:600]), data)

        def record(dst, FS, kind, T, vals):
            rec = oracle.setdefault(dst, dict(hash_vib=FS.hash_vib))
            if kind == "sampling":
                rec["hash_rho"] = FS.hash_rho
            rec["%.2f" % T] = vals

        for rnd in range(int(rng.randint(2, 5))):
            n = int(rng.randint(2, len(fakes) + 1))
            Ts = rng.choice([300.0, 250.5, 10.25, 1000.0, 77.77, 299.99, 5.5, 42.0, 61.5, 62.5], n, replace=False)
            mode = str(rng.choice(["ordered", "ordered", "burst", "burst"]))
            kinds = [str(rng.choice(KINDS))] * n if rng.rand() < 0.7 else [str(rng.choice(KINDS)) for _ in range(n)]
            jobs, pids = [], []
            for i in range(n):
                FS = FSs[int(rng.randint(2))] if kinds[i] == "sampling" and rng.rand() < 0.3 else FSs[0]
                fault = rng.rand() < 0.15
                dst, call, vals = one(kinds[i], FS, float(Ts[i]), fakes[i], fault)
                fakes[i].put("gate", "")
                for f in ("started", "go"):
                    if os.path.exists(os.path.join(fakes[i].log, f)):
                        os.remove(os.path.join(fakes[i].log, f))
                jobs.append((kinds[i], FS, float(Ts[i]), dst, vals, fault, call))
            slow = 0.0 if rng.rand() < 0.3 else float(rng.uniform(0.01, 0.05))
            for i in range(n):
                pids.append(in_child(jobs[i][6], fakes[i].log, slow))
            end = time.monotonic() + 60
            while time.monotonic() < end and not all(os.path.exists(os.path.join(fk.log, "started")) for fk in fakes[:n]):
                common.REAL_SLEEP(0.005)
            order = [int(x) for x in rng.permutation(n)]
            what = "%s %s, ended in order %s" % (mode, ["%s T=%.2f%s" % (j[0], j[2], " fails" if j[5] else "") for j in jobs], order)
            history.append(what)
            data, tag = dict(h=h, history=history), "concurrent history %d: %s" % (h, what)
            status = [None] * n
            for i in order:
                fakes[i].put("go", "")
                if mode == "ordered":
                    status[i] = reap(pids[i])
            if mode == "burst":
                for i in order:
                    status[i] = reap(pids[i])
            for i in order:
                kind, FS, T, dst, vals, fault, _ = jobs[i]
                ctx.check((status[i] == 0) == (not fault), "concurrent-status", "%s: %s T=%.2f ended with %s" % (tag, kind, T, status[i]), data)
                if not fault:
                    record(dst, FS, kind, T, vals)
                ctx.event("concurrent_calculations")
            for fk in fakes[:n]:
                os.remove(os.path.join(fk.log, "gate"))
            settle(tag, data)
            ctx.case(("together", mode, n, len(set(kinds)), slow > 0), sample=what)
            # now one whose result does not fit on the disk, or that is killed while it writes
            if rng.rand() < 0.7:
                kind, T = str(rng.choice(kinds)), float(rng.choice([300.0, 10.25, 123.25]))
                dst, call, vals = one(kind, FSs[0], T, first)
                before = None
                if os.path.exists(dst):
                    with open(dst, "rb") as f:
                        before = f.read()
                fatal, room = bool(rng.rand() < 0.5), int(rng.randint(0, len(before or b"") + 250))
                st = reap(in_child(call, first.log, room=room, fatal=fatal))
                what = "%s T=%.2f with room for %d bytes (%s)" % (kind, T, room, "killed" if fatal else "write error")
                history.append(what)
                after = None
                if os.path.exists(dst):
                    with open(dst, "rb") as f:
                        after = f.read()
                if st == 0:
                    record(dst, FSs[0], kind, T, vals)
                    ctx.event("fitted")
                else:
                    ctx.check(st is not None and after == before, "write-fault", "history %d: %s: status %s, the cache file was %s bytes long and has %s now"
                              % (h, what, st, None if before is None else len(before), None if after is None else len(after)), dict(h=h, history=history))
                    ctx.event("killed_while_writing" if fatal else "write_errors")
                settle("concurrent history %d: %s" % (h, what), dict(h=h, history=history))
                ctx.case(("no room", fatal, before is None, st == 0), sample=what)
        ctx.event("concurrent_histories")
        ctx.drop(base)


def quietly(call):
    with common.Quiet():
        return call()


if __name__ == "__main__":
    common.main("C16", run, rule="distinct = (calculation, fault, number of temperatures in the cache, kind of directory)",
                required=("successful_sampling", "successful_original", "successful_sos", "successful_trotter", "merged", "discarded", "overwritten", "model_edits", "rho_switches",
                          "foreign_caches", "commands_observed", "command_line_runs", "iterative_runs", "iterative_failures", "concurrent_calculations", "write_errors", "killed_while_writing", "fitted") + tuple("fault_" + f for f in FAULTS),
                assumptions=["the caller refreshes the fingerprints of its FileStructure after it edits a model", "temperatures have at most two decimals",
                             "calculations that run at the same time are for the current models"])
