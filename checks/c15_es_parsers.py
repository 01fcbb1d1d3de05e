"""C15: electronic-structure outputs are parsed to the values they contain.

Monitor: the real parsers run on generated program outputs whose content is known (tables of every size, formatting,
surrounding text, decoys), and on the same outputs cut off at arbitrary bytes or without their markers.  The oracle is the
generator: what was put into the table has to come out, and what was cut off has to raise and to leave the state alone.
"""
import mmap
import os
import contextlib
import inspect
import io
import time
import common
import esfix


class Tty:
    """stands in for the user: accepts or declines guesses, gives numbers; records the dialogue"""

    def __init__(self, accept, replies):
        self.accept, self.replies, self.asked = accept, list(replies), []
        self.first = True

    def __call__(self, message=""):
        self.asked.append(message)
        if len(self.asked) > 60:
            raise RuntimeError("endless dialogue")
        if "alternative" in message:
            return self.replies.pop(0)
        if "guessed" in message:
            return "Yes" if self.accept else "no"
        return self.replies.pop(0)


def run(ctx):
    es, helper, jb = common.load("pibronic.vibronic.electronic_structure", "pibronic.helper", "pibronic.server.job_boss")
    import builtins
    common.SLEEP[0] = lambda s: None

    def workflow(root, name, zmat=None, state=None):
        if zmat is not None:
            esfix.write(os.path.join(root, name + "_zmat.txt"), zmat)
        with common.Quiet():
            job = es.VibronExecutionClass(name, root, state)
            if zmat is not None:
                job.setup_zmat()
        return job

    def norm(text):
        return [" ".join(x.split()) for x in text.split("\n") if x.strip()]

    def number(rng):
        if rng.rand() < 0.08:                                        # on an axis or in a plane
            return str(rng.choice(["0.000000", "0.0000000000", "-0.000000", "+0.00000", "0.000"]))
        return str(rng.choice(["%.6f", "%.10f", "%.3f", "%+.5f"])) % rng.uniform(-180, 180)

    # ---- optimised geometries -----------------------------------------------------------------------------------------
    for i in range(ctx.scale(150, 2500)):
        rng = ctx.rng("opt", i)
        root = ctx.scratch()
        kind = ["internal", "cartesian"][i % 2]
        n = int(rng.randint(1, 14)) if i % 2 else int(rng.randint(2, 14))
        if i % 25 in (11, 12):
            n = int(rng.randint(20, 90))                             # a large molecule
        if kind == "internal":
            z, vals = esfix.zmat_internal(rng, n)
            names = list(vals)
            if rng.rand() < 0.5:
                rng.shuffle(names)
            if rng.rand() < 0.3 and len(names) > 1:
                names = names[:-1]                                   # a coordinate that was kept fixed
            rows = [(k, number(rng)) for k in names]
            new = dict(vals)
            new.update(rows)
            head = norm(z.split("\n\n")[0])
            expect = [x.replace("*", "") for x in head] + ["%s=%s" % kv for kv in new.items()]
            expect_opt = head + ["%s=%s" % kv for kv in new.items()]
        else:
            titles = int(rng.randint(0, 3))
            z, atoms = esfix.zmat_cartesian(rng, n, titles)
            rows = [(a, number(rng), number(rng), number(rng)) for a in atoms]
            expect = norm(z)[:titles] + [" ".join(r) for r in rows]
            expect_opt = expect
        if rng.rand() < 0.3:
            z = z.rstrip("\n")
        text, end = esfix.opt_output(rng, kind, rows, before=int(rng.randint(0, 40)), after=int(rng.randint(0, 40)))
        other = "Summary of optimized " + ("Cartesian coordinates (Ang)" if kind == "internal" else "internal coordinates")
        if rng.rand() < 0.3:                                         # the same molecule in other units, printed first
            pre = "\n".join(esfix.noise(rng, 3) + [" Summary of optimized Cartesian coordinates (Bohr)", " --------------------"] +
                            ["  H  %.6f  %.6f  %.6f" % tuple(rng.uniform(-9, 9, 3)) for _ in range(n)] + ["", ""]) + "\n"
            text, end = pre + text, end + len(pre)
        if rng.rand() < 0.3:
            text = text + other + "\n header\n  nonsense line\n\n"
        data = dict(kind=kind, n=n, text=text[-3000:])
        path = os.path.join(root, "mol_opt.out0")
        with ctx.guard("opt-raises", "parsing an optimised geometry", data):
            job = workflow(root, "mol", z)
            start, start_opt = job.zmat.get(), job.zmat.get(True)
            if kind == "internal":
                ctx.check("*" not in start and "*" in start_opt and start_opt.replace("*", "") == start, "zmat", "asterisks mark the optimised coordinates only when optimising", data)
                ctx.check(norm(start_opt) == norm(z), "zmat", "the zmat is not the one of the file", data)
            else:
                ctx.check(norm(start) == norm(z) == norm(start_opt), "zmat", "the zmat is not the one of the file", data)
            esfix.write(path, text)
            with common.Quiet():
                es.parse_opt_output(job)
            ctx.check(norm(job.zmat.get()) == expect, "opt-value", "parsed geometry %s, the output has %s" % (norm(job.zmat.get())[:40], expect[:40]), data)
            ctx.check(norm(job.zmat.get(True)) == expect_opt, "opt-value", "geometry for optimisation %s, expected %s" % (norm(job.zmat.get(True))[:40], expect_opt[:40]), data)
            ctx.check(open(path).read() == text, "source-modified", "parsing changed the program output", data)
            ctx.event("geometries_parsed")
            ctx.case(("opt", kind, n, text.count("\n")), sample="%s coordinates of %d atoms" % (kind, n))
            with common.Quiet():
                es.parse_opt_output(job)                              # again
            ctx.check(norm(job.zmat.get()) == expect, "opt-value", "parsing twice gives another geometry", data)
        begin = text.index("Summary of optimized internal coordinates" if kind == "internal" else "Summary of optimized Cartesian coordinates (Ang)")
        cuts = [begin + 5, text.index("\n", begin) + 1, end - 1, end] + [int(x) for x in rng.randint(1, end + 1, 4)]
        for cut in cuts:
            if not 0 < cut <= end:
                continue
            job = workflow(root, "mol", z)
            keep = job.zmat.get()
            esfix.write(path, text[:cut])

            def go():
                with common.Quiet():
                    es.parse_opt_output(job)
            ctx.expect_raise(go, "opt-truncated", "output cut off at byte %d of a table that ends at %d was accepted" % (cut, end))
            ctx.check(job.zmat.get() == keep, "opt-truncated", "a truncated output changed the geometry", dict(cut=cut, end=end))
            ctx.event("truncated_outputs")
        if kind == "cartesian":
            job = workflow(root, "mol", "\n".join(norm(z)[:1]) + "\n")
            if len(rows) > 1:
                esfix.write(path, text)
                ctx.expect_raise(lambda: es.parse_opt_output(job), "opt-more-atoms", "an output with more atoms than the molecule was accepted")
        ctx.drop(root)

    # ---- completion checks ------------------------------------------------------------------------------------------------
    slurm_kinds = [("Finished\n", Exception), ("", Exception), ("srun: error: SIGSEGV\n", MemoryError), ("x\nslurmstepd: Exceeded step memory limit\nKilled\n", MemoryError), ("Killed\n", Exception)]
    for i in range(ctx.scale(300, 4000)):
        rng = ctx.rng("done", i)
        root = ctx.scratch()
        which = ["aces", "vibron"][i % 2]
        marker = esfix.ACES_DONE if which == "aces" else "  All done in main_vibron"
        form = ["near", "far", "absent", "cut"][int(rng.randint(4))]
        nb = int(rng.randint(1, 60))                                 # programs print something before they end
        body = esfix.noise(rng, nb)
        if form == "near":
            lines, ok = body + [marker] + esfix.noise(rng, int(rng.randint(0, 9))), True
        elif form == "far":
            lines, ok = body + [marker] + esfix.noise(rng, int(rng.randint(15, 60))), False
        elif form == "absent":
            lines, ok = body + esfix.noise(rng, 3) + ["end"], False
        else:
            lines, ok = body + [marker[:int(rng.randint(3, 20))]], False
        text = "\n".join(lines) + ("\n" if form == "near" or rng.rand() < 0.7 else "")
        slurm, exc = slurm_kinds[int(rng.randint(len(slurm_kinds)))]
        jobid = int(rng.randint(1, 10 ** 7))
        if rng.rand() < 0.15:                                        # jobs that print a lot, before or after the message
            pad = "".join(x + "\n" for x in esfix.noise(rng, int(rng.randint(40, 300))))
            slurm = pad + slurm if rng.rand() < 0.4 else slurm + pad if rng.rand() < 0.6 else pad + slurm + pad
            jobid += 10 ** 9 * int(rng.randint(2))
        esfix.write(os.path.join(root, "slurm-%d.out" % jobid), slurm)
        data = dict(which=which, form=form, slurm=slurm, text=text[-1500:])
        if which == "aces":
            path = esfix.write(os.path.join(root, "x.out0"), text)

            def go():
                with common.Quiet():
                    es.verify_aces2_completed(root, path, jobid)
        else:
            path = esfix.write(os.path.join(root, "mol_vibron.out0"), text)
            job = workflow(root, "mol")

            def go():
                with common.Quiet():
                    es.parse_vibron_output(job)
        got = None
        try:
            go()
        except Exception as e:
            got = e
        ctx.check((got is None) == ok, "completion", "%s output with marker '%s' was %s" % (which, form, "accepted" if got is None else "refused: %r" % got), data)
        if which == "aces" and not ok and got is not None:
            ctx.check(isinstance(got, exc) and (exc is MemoryError or not isinstance(got, MemoryError)), "completion-cause", "batch output %r was reported as %r" % (slurm, got), data)
        ctx.check(open(path).read() == text, "source-modified", "the completion check changed the output", data)
        ctx.event("completion_" + ("accepted" if ok else "refused"))
        ctx.case(("done", which, form, nb, slurm), sample="%s marker %s" % (which, form))
        # the batch output on its own
        err = None
        try:
            with common.Quiet():
                jb.check_slurm_output(root, jobid)
        except Exception as e:
            err = e
        bad = "SIGSEGV" in slurm or "Killed" in slurm
        ctx.check((err is not None) == bad and isinstance(err, MemoryError) == (bad and exc is MemoryError), "slurm-output", "batch output %r gave %r" % (slurm, err), data)
        ctx.drop(root)
    root = ctx.scratch()
    for fn in (lambda: es.verify_aces2_completed(root, os.path.join(root, "none"), 3), lambda: es.parse_vibron_output(workflow(root, "mol")), lambda: es.parse_opt_output(workflow(root, "mol", "H 0 0 0\n"))):
        ctx.expect_raise(fn, "missing-file", "a missing output was accepted")

    # ---- orbital energies and the number of ionisation states -------------------------------------------------------------
    for i in range(ctx.scale(150, 2500)):
        rng = ctx.rng("nip", i)
        root = ctx.scratch()
        drop = int(rng.choice([0, 0, 0, 1, 2, 5, 11]))
        core, outer = drop + 1, int(rng.randint(2, 20))
        if i % 20 == 9:
            outer = int(rng.randint(30, 130))                        # many occupied orbitals
        above = int(rng.randint(1, outer + 1))                       # orbitals above the gap
        below = outer - above
        e = [-float(rng.uniform(7, 9))]
        for _ in range(above - 1):
            e.append(e[-1] * float(rng.uniform(1.0001, 1.1)))
        if below:
            e.append(e[-1] * float(rng.uniform(1.6, 2.5)))
            for _ in range(below - 1):
                e.append(e[-1] * float(rng.uniform(1.0001, 1.1)))
        for _ in range(core):
            e.append(e[-1] * float(rng.uniform(1.0, 1.02)) - float(rng.uniform(200, 400)) * (len(e) == outer))
        evs = ["%.10f" % x for x in reversed(e)]
        clear = below > 0
        text, end = esfix.scf_output(rng, evs, before=int(rng.randint(0, 40)), after=int(rng.randint(0, 20)), tail=False)
        if rng.rand() < 0.4:
            t2, _ = esfix.scf_output(rng, ["%.6f" % x for x in sorted(rng.uniform(-30, -9, 6))], before=0)
            text += t2.replace("(ALPHA)", "(BETA)")
        path = esfix.write(os.path.join(root, "mol_hartree_fock_nip.out0"), text)
        job = workflow(root, "mol")
        job.parameter_dictionary["DROPMO"] = "" if drop == 0 else "DROPMO=1" if drop == 1 else "DROPMO=1-%d" % drop
        want = int(rng.randint(0, 50))
        accept = bool(rng.rand() < 0.5)
        replies = []
        for _ in range(int(rng.randint(0, 3))):
            replies += [str(rng.choice(["abc", "", "2.5", "-3", "-1"]))]    # not a non-negative integer: asked again
        if rng.rand() < 0.3:
            replies += [str(want + 1), "n"]                          # not acceptable after all
        replies += [str(want), "Y"]
        tty = Tty(accept, replies)
        real, builtins.input = builtins.input, tty
        data = dict(drop=drop, evs=evs, accept=accept, replies=replies)
        out = io.StringIO()
        try:
            with ctx.guard("nip-raises", "estimating the number of states", data):
                with contextlib.redirect_stdout(out):
                    es.parse_hartree_fock_output(job, es.State.NIP)
                got = job.parameter_dictionary["nip"]
                guesses = [m for m in tty.asked if "guessed" in m]
                guess = int("".join(c for c in guesses[0] if c.isdigit())) if guesses else None
                if clear:
                    ctx.check(guess == above, "nip-guess", "%d orbitals lie above the gap, the suggestion is %s" % (above, guess), data)
                    ctx.event("nip_guesses")
                ctx.check(type(got) is int and got == (guess if accept and guess is not None else want), "nip", "the number of states is %r; suggestion %s, %s, user gave %d" % (
                    got, guess, "accepted" if accept else "declined", want), data)
                shown = [float(x) for x in out.getvalue().split() if x.startswith("-") and x.strip("-")]
                ctx.check(shown == [float(x) for x in evs], "nip-energies", "showed energies %s, the output has %s" % (shown, evs), data)
                ctx.check(open(path).read() == text, "source-modified", "parsing changed the program output", data)
                ctx.event("nip_dialogues")
                ctx.case(("nip", drop, above, below, accept, len(replies)), sample="%d orbitals, %d above the gap" % (len(evs), above))
            begin = text.index("ORBITAL EIGENVALUES (ALPHA)")
            plus = text.index("+" * 43)
            for cut in [begin + 4, plus, plus + 40] + [int(x) for x in rng.randint(1, plus + 40, 3)]:
                esfix.write(path, text[:cut])
                job.parameter_dictionary["nip"] = "kept"
                builtins.input = Tty(True, ["7", "y"] * 3)

                def go():
                    with contextlib.redirect_stdout(io.StringIO()):
                        es.parse_hartree_fock_output(job, es.State.NIP)
                ctx.expect_raise(go, "nip-truncated", "orbital table cut off at byte %d (table ends at %d) was accepted" % (cut, plus))
                ctx.check(job.parameter_dictionary["nip"] == "kept", "nip-truncated", "a truncated output changed the number of states")
                ctx.event("truncated_outputs")
        finally:
            builtins.input = real
        ctx.drop(root)

    # ---- the orbitals that are dropped (not a stage of the workflow at present; used by hand) -------------------------------
    estimate = getattr(es, "_estimate_dropmo", None)
    if estimate is not None and len(inspect.signature(estimate).parameters) != 1:
        estimate = None
    for i in range(ctx.scale(60, 800) if estimate else 0):
        rng = ctx.rng("dropmo", i)
        root = ctx.scratch()
        core, rest = int(rng.randint(1, 16)), int(rng.randint(1, 25))
        if i % 5 == 1:
            rest = 1                                                 # everything but one orbital is core
        e = [-float(rng.uniform(0.3, 0.9))]
        for _ in range(rest - 1):
            e.append(e[-1] * float(rng.uniform(1.0001, 1.3)))
        e.append(e[-1] * float(rng.uniform(2, 20)))
        for _ in range(core - 1):
            e.append(e[-1] * float(rng.uniform(1.0001, 1.3)))
        evs = ["%.10f" % x for x in reversed(e)]
        text, end = esfix.scf_output(rng, evs, before=int(rng.randint(0, 40)), after=int(rng.randint(0, 20)), tail=False)
        path = esfix.write(os.path.join(root, "mol_hartree_fock_dropmo.out0"), text)
        want = int(rng.choice([0, 1, 2, 9, 10, 11, 37]))
        accept = bool(i % 2)
        tty = Tty(accept, [str(want), "Y"])
        real, builtins.input = builtins.input, tty
        out = io.StringIO()
        data = dict(evs=evs, accept=accept, want=want)
        try:
            with ctx.guard("dropmo-raises", "estimating the orbitals that are dropped", data):
                with contextlib.redirect_stdout(out):
                    got = estimate(path)
                guesses = [m for m in tty.asked if "guessed" in m]
                guess = int("".join(c for c in guesses[0] if c.isdigit())) if guesses else None
                ctx.check(guess == core, "dropmo-guess", "%d orbitals lie below the largest gap of %d, the suggestion is %s" % (core, len(evs), guess), data)
                k = core if accept else want
                word = "" if k == 0 else "DROPMO=1" if k == 1 else "DROPMO=1-%d" % k
                ctx.check(got == word, "dropmo", "dropping %d orbitals is written as %r" % (k, got), data)
                shown = [float(x) for x in out.getvalue().split() if x.startswith("-") and x.strip("-")]
                ctx.check(shown == [float(x) for x in evs], "nip-energies", "showed energies %s, the output has %s" % (shown, evs), data)
                ctx.event("dropmo_dialogues")
            cut = int(rng.randint(0, text.index("+" * 43)))
            esfix.write(path, text[:cut])
            builtins.input = Tty(True, ["7", "y"] * 3)

            def go():
                with contextlib.redirect_stdout(io.StringIO()):
                    estimate(path)
            ctx.expect_raise(go, "dropmo-truncated", "orbital table cut off at byte %d was accepted" % cut)
        finally:
            builtins.input = real
        ctx.case(("dropmo", core, rest, accept, want), sample="%d of %d orbitals dropped" % (core, len(evs)))
        ctx.drop(root)

    # ---- % singles ----------------------------------------------------------------------------------------------------------
    for i in range(ctx.scale(200, 3000)):
        rng = ctx.rng("ip", i)
        root = ctx.scratch()
        top = int(rng.randint(1, 12)) if i % 25 != 9 else int(rng.randint(15, 31))
        style = int(rng.randint(4)) if top < 15 else 1
        files = {}
        base = [float(x) for x in rng.uniform(85.01, 99.9, top)]
        if i % 3 == 0:                                               # next to the cutoff, and the largest values
            base = [float(rng.choice([85.0002, 85.0049, 85.004, 85.01, 99.9999, 100.0])) for _ in base]
        for k in range(1, top + 1):
            s = list(base[:k])
            files[k] = s
        if style == 1:                                               # a fixed list of states, some of them mixed
            for k in range(top):
                if rng.rand() < 0.25 and (k >= 11 or top < 15):
                    base[k] = float(rng.choice([85.00, 84.99, 50.0, 0.0, rng.uniform(0, 85)]))
            files = {k: list(base[:k]) for k in files}
        elif style == 2:                                             # each calculation has its own numbers
            for k in files:
                if rng.rand() < 0.6:
                    files[k][int(rng.randint(k))] = float(rng.choice([85.00, 84.99, rng.uniform(0, 84)]))
        elif style == 3 and rng.rand() < 0.5:                        # none passes
            for k in files:
                files[k][0] = 12.0
        fmt = str(rng.choice(["%.2f", "%.4f"])) if style != 1 else "%.2f"
        if i % 3 == 0:
            fmt = str(rng.choice(["%.4f", "%.4f", "%.6f", "%.3f"]))
        files = {k: [fmt % x for x in v] for k, v in files.items()}
        good = {k: all(float(x) > 85.0 for x in v) for k, v in files.items()}
        texts = {}
        for k, v in files.items():
            texts[k] = esfix.ip_output(rng, v, before=int(rng.randint(0, 30)))
            esfix.write(os.path.join(root, "mol_eomcc_ip_%d.out0" % k), texts[k][0])
        data = dict(files=files)
        with ctx.guard("ip-raises", "checking % singles", data):
            job = workflow(root, "mol", state=int(rng.choice([5, 6])))
            st = job.state
            for k in files:
                job.parameter_dictionary["nip"] = k
                with common.Quiet():
                    r = es.parse_ip_output(job)
                ctx.check(bool(r) == good[k], "ip-singles", "%% singles %s are %s" % (files[k], "accepted" if r else "refused"), data)
                ctx.event("ip_outputs")
            job.parameter_dictionary["nip"] = top
            keep = max([k for k in good if good[k]], default=0)
            if keep:
                with common.Quiet():
                    es.verify_ip_states(job)
                ctx.check(job.parameter_dictionary["nip"] == keep, "ip-kept", "kept %s states, %d are dominated by single excitations" % (job.parameter_dictionary["nip"], keep), data)
                ctx.check(job.state is st and not os.path.exists(os.path.join(root, "execution_state.txt")), "ip-kept", "a later stage was recorded again", data)
                ctx.event("ip_selected")
            else:
                def go():
                    with common.Quiet():
                        es.verify_ip_states(job)
                ctx.expect_raise(go, "ip-none", "no state is dominated by single excitations, yet the workflow continues")
                ctx.event("ip_none")
            ctx.case(("ip", top, tuple(good.values())), sample="%d states, %d kept" % (top, keep))
        k = int(rng.randint(1, top + 1))
        text, end = texts[k]
        begin = text.index("Summary of ionization")
        head = begin
        for _ in range(5):
            head = text.index("\n", head) + 1
        last = text.rindex("\n", 0, end - 1) + 1                     # beginning of the line that ends the table
        for cut in [begin + 9, last] + [int(x) for x in rng.randint(1, last + 1, 4)]:
            # (an output that ends inside the header has no rows: also an error)
            esfix.write(os.path.join(root, "mol_eomcc_ip_%d.out0" % k), text[:cut])
            job.parameter_dictionary["nip"] = k

            def go():
                with common.Quiet():
                    es.parse_ip_output(job)
            ctx.expect_raise(go, "ip-truncated", "output cut off at byte %d of a table that ends at %d was accepted" % (cut, end))
            ctx.event("truncated_outputs")
        ctx.drop(root)

    # ---- files prepared for vibron -------------------------------------------------------------------------------------------
    for i in range(ctx.scale(120, 2000)):
        rng = ctx.rng("prep", i)
        root = ctx.scratch()
        nip = int(rng.choice([0, 1, 2, 9, 10, 35, 100, 999, 1000, 12345]))
        h1, w1 = esfix.heff_file(rng, before=int(rng.randint(0, 40)), after=int(rng.randint(0, 40)))
        h2, w2 = esfix.heff_file(rng, before=int(rng.randint(0, 40)), after=int(rng.randint(0, 40)))
        if rng.rand() < 0.2:
            h1 = w1                                                  # nothing precedes the block
        if rng.rand() < 0.2:
            h2, w2 = h2.rstrip("\n"), w2.rstrip("\n")
        vi, wv = esfix.vibron_input(rng, before=int(rng.randint(0, 20)), after=int(rng.randint(0, 20)))
        put = dict(pntheff=h1, vibronic_coupling=h2, vibron_input=vi)
        fault = str(rng.choice(["none", "none", "pntheff", "vibronic_coupling", "vibron_input", "missing"]))
        if fault in put:
            put[fault] = put[fault].replace("HEFF_IP2", "HEFF_EA2").replace("xxx", "yyy")
        lost = str(rng.choice(sorted(put))) if fault == "missing" else None
        for k, v in put.items():
            if k != lost:
                esfix.write(os.path.join(root, "mol_prepvib." + k), v)
        job = workflow(root, "mol")
        job.parameter_dictionary["nip"] = nip
        data = dict(nip=nip, fault=fault, put={k: v[:1500] for k, v in put.items()})

        def go():
            with common.Quiet():
                es.parse_prepVibron_output(job)
        if fault == "none":
            with ctx.guard("prep-raises", "preparing the vibron inputs", data):
                for _ in range(1 + int(rng.randint(2))):
                    go()
                rd = lambda f: open(os.path.join(root, f)).read()  # noqa
                ctx.check(rd("PNTHEFF") == w1, "prep-heff", "PNTHEFF is not the output from its first HEFF_IP2 line on", data)
                ctx.check(rd("cp.auto") == w2, "prep-heff", "cp.auto is not the output from its first HEFF_IP2 line on", data)
                ctx.check(rd("mol_vibron.in") == wv(nip), "prep-nip", "the vibron input differs from its template in more than the number of states %d: %r" % (nip, rd("mol_vibron.in")[:600]), data)
                ctx.event("prepared_inputs")
        else:
            ctx.expect_raise(go, "prep-marker", "an output without its %s marker was accepted" % fault)
            ctx.event("prep_refused")
        for k, v in put.items():
            if k != lost:
                ctx.check(open(os.path.join(root, "mol_prepvib." + k)).read() == v, "source-modified", "the %s output of the program was changed" % k, data)
        ctx.case(("prep", nip, fault, len(h1), len(h2)), nontrivial=True, sample="nip %d, fault %s" % (nip, fault))
        ctx.drop(root)

    # ---- parameter files ------------------------------------------------------------------------------------------------------
    for i in range(ctx.scale(60, 600)):
        rng = ctx.rng("par", i)
        root = ctx.scratch()
        basis, theory = str(rng.choice(["TZ2P", "DZP"])), str(rng.choice(["MBPT(2)", "CCSD", "CCSD(T)"]))
        text = esfix.params_text(rng, basis, theory)
        bad = int(rng.randint(6))
        if bad == 0:
            text = text.replace(basis, basis + "x")
        elif bad == 1:
            text = text.replace("theory\n", "Theory\n")
        elif bad == 2:
            text = "\n".join(x for x in text.split("\n") if x not in ("calculation", "IP"))
        esfix.write(os.path.join(root, "mol_params.txt"), text)
        job = workflow(root, "mol")

        def go():
            with common.Quiet():
                job.parse_input_parameters()
        if bad < 3:
            ctx.expect_raise(go, "params-bad", "parameter file %r was accepted" % text)
        else:
            with ctx.guard("params-raises", "parameter file %r" % text):
                go()
                p = job.parameter_dictionary
                ctx.check((p["basis"], p["theory"], p["calculation"]) == (basis, theory, "IP"), "params", "file %r gave %s" % (text, p))
        ctx.event("parameter_files")
        ctx.case(("par", bad, text))
        ctx.drop(root)

    # ---- text helpers -----------------------------------------------------------------------------------------------------------
    root = ctx.scratch()
    for i in range(ctx.scale(300, 4000)):
        rng = ctx.rng("text", i)
        size = int(rng.randint(1, 60))
        buf = bytes(rng.choice(list(b"ab\n\n "), size).astype("uint8"))
        path = os.path.join(root, "t")
        with open(path, "wb") as f:
            f.write(buf)
        target = bytes(rng.choice(list(b"ab\n"), rng.randint(1, 4)).astype("uint8")).decode()
        n, at = int(rng.randint(0, 8)), int(rng.randint(0, size))
        nl = [k for k in range(size) if buf[k] == 10]
        prev = [k for k in nl if k < at][::-1][:n]
        nxt = [k for k in nl if k > at][:n]
        want_b, want_f = (prev[-1] if prev else at), (nxt[-1] if nxt else at)
        with open(path, "r+b") as f, mmap.mmap(f.fileno(), 0, prot=mmap.PROT_READ) as mm:
            data = dict(buf=buf.decode(), target=target, n=n, at=at)
            for mod, fwd, back in ((es, "skip_forward_n_lines", "skip_back_n_lines"), (helper, "skip_forward_lines", "skip_back_lines")):
                for fn, want in (("find_string_in_file", buf.find(target.encode())), ("rfind_string_in_file", buf.rfind(target.encode()))):
                    if want < 0:
                        ctx.expect_raise(lambda: getattr(mod, fn)(mm, path, target), "find", "%s accepted a missing string" % fn)
                    else:
                        ctx.check(getattr(mod, fn)(mm, path, target) == want, "find", "%s of %r in %r" % (fn, target, buf), data)
                ctx.check(getattr(mod, fwd)(mm, n, at) == want_f, "skip", "%s(%d) from %d in %r" % (fwd, n, at, buf), data)
                ctx.check(getattr(mod, back)(mm, n, at) == want_b, "skip", "%s(%d) from %d in %r" % (back, n, at, buf), data)
                mm.seek(0)
            helper.readlines(mm, n)
            ctx.check(mm.tell() == (0 if n == 0 else nl[n - 1] + 1 if n <= len(nl) else size), "skip", "readlines(%d) in %r stops at %d" % (n, buf, mm.tell()), data)
        ctx.event("text_helpers")
        ctx.case(("text", buf, target, n, at))

    # ---- results of batch jobs ----------------------------------------------------------------------------------------------------
    saved = jb.synchronize_with_job, jb.check_acct_state
    try:
        jb.synchronize_with_job = lambda *a, **k: None
        for i in range(ctx.scale(100, 500)):
            rng = ctx.rng("acct", i)
            words = [str(x) for x in rng.choice(["COMPLETED", "FAILED", "TIMEOUT", "CANCELLED", "NODE_FAIL", "RUNNING", "OUT_OF_ME+"], rng.randint(0, 3))]
            text = "".join(" %s \n" % w for w in words)
            jb.check_acct_state = lambda *a, **k: text
            ok = "COMPLETED" in words and "FAILED" not in words
            err = None
            try:
                with common.Quiet():
                    es.wait_on_results(int(rng.randint(1, 99999)), "SCF")
            except Exception as e:
                err = e
            ctx.check((err is None) == ok, "job-state", "job with recorded states %s was %s" % (words, "accepted" if err is None else "refused"))
            ctx.event("job_states")
            ctx.case(("acct", tuple(words)))
    finally:
        jb.synchronize_with_job, jb.check_acct_state = saved


if __name__ == "__main__":
    common.main("C15", run, rule="distinct = (parser, sizes, formats, fault) of generated outputs",
                required=("geometries_parsed", "truncated_outputs", "completion_accepted", "completion_refused", "nip_guesses", "nip_dialogues", "ip_outputs", "ip_selected", "ip_none",
                          "prepared_inputs", "prep_refused", "parameter_files", "text_helpers", "job_states"),
                assumptions=["completion markers appear within the last nine lines of a successful output", "each table appears once in an output and no line of plus signs precedes the orbital table"])
