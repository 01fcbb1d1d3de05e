"""C10: diagonal models derived from coupled ones.

Monitor: random coupled model files (terms present/absent/zero, off-diagonal heavy, equal dimensions) go through the
derivations; the files they write are read back independently and compared with the state diagonal, directory
snapshots decide what else changed.  Energies: the potential of every oscillator is evaluated at its minimum and
compared with the lowest eigenvalue of the coupled potential matrix at that point.
"""
import json
import os
import shutil
import numpy as np
import common

PAR = [("energies", 0), ("linear couplings", 1), ("quadratic couplings", 2), ("cubic couplings", 3), ("quartic couplings", 4)]
DIM = {"number of modes", "number of surfaces"}


def snapshot(d):
    out = {}
    for r, _, fs in os.walk(d):
        for f in fs:
            with open(os.path.join(r, f), "rb") as fh:
                out[os.path.relpath(os.path.join(r, f), d)] = fh.read()
    return out


def coupled(rng, A, N, kinds=None, symmetric=True):
    m = {"number of modes": N, "number of surfaces": A, "frequencies": rng.uniform(0.02, 0.3, N).tolist()}
    for name, k in PAR:
        kind = rng.choice(["full", "full", "full", "off", "diag", "absent", "zero", "one", "tiny"])
        if (k == 4 and N > 2) or (k == 3 and N > 6):
            kind = "absent"
        if k >= 2 and rng.rand() < 0.3:
            kind = "absent"
        if kind in ("absent",):
            continue
        x = rng.standard_normal((N,) * k + (A, A))
        if symmetric:
            x = 0.5 * (x + np.swapaxes(x, -1, -2))
        if kind == "off":
            x = x * (1 - np.eye(A))
        elif kind == "diag":
            x = x * np.eye(A)
        elif kind == "tiny":
            x = x * 10.0 ** -rng.randint(5, 20)
        elif kind == "zero":
            x = x * 0.0
        elif kind == "one":
            y = np.zeros_like(x)
            a = rng.randint(A)
            y[..., a, a] = x[..., a, a]
            x = y
        m[name] = x.tolist()
    return m


def dump(path, m):
    with open(path, "w") as f:
        json.dump(m, f)


def check_diag(ctx, tag, path, m, A, N):
    if not ctx.check(os.path.isfile(path), "missing", "%s: %s was not written" % (tag, os.path.basename(path))):
        return
    r = json.load(open(path))
    ctx.check(set(r) <= DIM | {"frequencies"} | {n for n, _ in PAR}, "extra", "%s: unexpected contents %s" % (tag, sorted(r)))
    ctx.check(r.get("number of modes") == N and r.get("number of surfaces") == A, "dimensions", tag + ": dimensions differ")
    ctx.check(np.array_equal(r.get("frequencies"), m["frequencies"]), "frequencies", tag + ": frequencies differ")
    for name, k in PAR:
        M = np.array(m[name], dtype=float) if name in m else np.zeros((N,) * k + (A, A))
        want = np.diagonal(M, axis1=-2, axis2=-1)
        got = np.array(r[name], dtype=float) if name in r else np.zeros(want.shape)
        ctx.check(got.shape == want.shape and np.array_equal(got, want), "diagonal",
                  "%s: %s is not the state diagonal of the coupled model" % (tag, name))
        ctx.event("parameters_compared")
        if np.any(want) and np.any(M * (1 - np.eye(A))):
            ctx.event("parameters_with_coupling_removed")


def run(ctx):
    vIO, fs = common.load("pibronic.vibronic.vibronic_model_io", "pibronic.data.file_structure")
    VMK = common.load("pibronic.vibronic.vibronic_model_keys").VibronicModelKeys
    n = ctx.scale(250, 4000)
    for i in range(n):
        rng = ctx.rng("derive", i)
        root = ctx.scratch()
        A, N = int(rng.randint(1, 6)), int(rng.randint(1, 5))
        if i % 6 == 0:
            A = N
        if i % 40 == 9:                                         # production sizes
            A, N = [(12, 3), (3, 13), (8, 12), (2, 25)][i // 40 % 4]
        with ctx.guard("raises", "derive A=%d N=%d" % (A, N)):
            with common.Quiet():
                FS = fs.FileStructure(root, 0, 0)
            m = coupled(rng, A, N)
            dump(FS.path_vib_model, m)
            for step in range(3):
                tag = "A=%d N=%d terms %s step %d" % (A, N, sorted(set(m) - DIM), step)
                if step and rng.rand() < 0.6:                   # the coupled model is replaced, maybe by a smaller one
                    if rng.rand() < 0.5:
                        A, N = int(rng.randint(1, 5)), int(rng.randint(1, 4))
                    m = coupled(rng, A, N)
                    dump(FS.path_vib_model, m)
                op = rng.choice(["harmonic", "basic", "basic", "remove"])
                if rng.rand() < 0.4:                            # something else sits where the output goes
                    for p in (FS.path_rho_model, FS.path_har_model):
                        open(p, "w").write(json.dumps({"energies": [1.0] * 50, "linear couplings": [[2.0]] * 99}))
                elif step and rng.rand() < 0.5:                 # almost the right contents, but not quite
                    for p in (FS.path_rho_model, FS.path_har_model):
                        if os.path.isfile(p):
                            t = open(p).read()
                            k = max(j for j, c in enumerate(t) if c.isdigit())
                            open(p, "w").write(t[:k] + str((int(t[k]) + 1) % 10) + t[k + 1:])
                            ctx.event("outputs_tampered_with")
                before = snapshot(root)
                with common.Quiet():
                    if op == "harmonic":
                        ret = vIO.create_harmonic_model(FS)
                        outs = [FS.path_har_model]
                    elif op == "basic":
                        ret = vIO.create_basic_diagonal_model(FS)
                        outs = [FS.path_rho_model, FS.path_har_model]
                    else:
                        dest = os.path.join(root, "derived.json")
                        ret = vIO.remove_coupling_from_model(FS.path_vib_model, dest)
                        outs = [dest]
                if ret is not None:
                    ctx.check(os.path.realpath(ret) == os.path.realpath(outs[0]), "returned", "%s %s returned %s" % (tag, op, ret))
                check_diag(ctx, "%s %s" % (op, tag), outs[0], m, A, N)
                if op == "basic" and os.path.isfile(FS.path_har_model):
                    check_diag(ctx, "%s (harmonic) %s" % (op, tag), FS.path_har_model, m, A, N)
                after = snapshot(root)
                changed = {k for k in set(before) | set(after) if before.get(k) != after.get(k)}
                ctx.check(changed <= {os.path.relpath(o, root) for o in outs}, "source-modified", "%s %s also changed %s"
                          % (op, tag, sorted(changed)))
                with common.Quiet():
                    d = vIO.load_diagonal_model_from_JSON(outs[0])
                ctx.check((int(d[VMK.A]), int(d[VMK.N])) == (A, N), "dimensions", tag + ": loaded dimensions differ")
                ctx.event("derived_" + op)
            ctx.case((A, N, tuple(sorted(m)), i), True, "A=%d N=%d %s" % (A, N, sorted(set(m) - DIM)))
        ctx.drop(root)

    # zeroing the couplings in memory
    n = ctx.scale(200, 3000)
    for i in range(n):
        rng = ctx.rng("zero", i)
        A, N = int(rng.randint(1, 6)), int(rng.randint(1, 5))
        if i % 3 == 0:
            A = N
        if i % 40 == 8:
            A, N = [(11, 4), (4, 12)][i // 40 % 2]
        m = coupled(rng, A, N, symmetric=bool(i % 2))
        model = {VMK(k): (np.array(v) if isinstance(v, list) else v) for k, v in m.items()}
        tag = "zeroing A=%d N=%d %s" % (A, N, sorted(set(m) - DIM))
        with ctx.guard("raises", tag):
            with common.Quiet():
                ret = vIO.fill_offdiagonal_of_model_with_zeros(model)
            model = ret if isinstance(ret, dict) else model
            ctx.check({k.value for k in model} == set(m), "zeroing", tag + ": parameters appeared or vanished")
            for k, v in m.items():
                got = model[VMK(k)]
                if isinstance(v, list) and k != "frequencies":
                    want = np.array(v) * np.eye(A)
                    ctx.check(got.shape == want.shape and np.array_equal(got, want), "zeroing", "%s: %s is wrong" % (tag, k))
                    ctx.event("arrays_zeroed")
                else:
                    ctx.check(np.array_equal(got, v), "zeroing", "%s: %s changed" % (tag, k))
        ctx.case(("zero", A, N, i), A > 1)

    # recalculated energies
    n = ctx.scale(250, 4000)
    for i in range(n):
        rng = ctx.rng("energy", i)
        root = ctx.scratch()
        A, N = int(rng.choice([1, 2, 3, 4, 7])), int(rng.randint(1, 5))
        B = int(rng.choice([1, 2, 3, 4, 5, 9]))
        if i % 11 == 5:                                         # production sizes
            A, N, B = int(rng.choice([2, 8, 12])), int(rng.choice([11, 18, 33])), int(rng.choice([2, 12, 30]))
        with common.Quiet():
            FS = fs.FileStructure(root, 0, 0)
        w = rng.uniform(0.02, 0.3, N)
        E = rng.uniform(-1, 1, (A, A))
        E = 0.5 * (E + E.T)
        lin = rng.uniform(-0.3, 0.3, (N, A, A))
        lin = 0.5 * (lin + np.swapaxes(lin, 1, 2))
        if i % 3 == 0:                          # (nearly) degenerate states and couplings of any size
            off = 10.0 ** -rng.uniform(0, 9)
            E = np.where(np.eye(A) > 0, rng.uniform(-1, 1) + rng.choice([0.0, off]) * np.diag(E), E * off)
            ld0 = lin[:, 0, 0].copy()
            lin = np.where(np.eye(A) > 0, ld0[:, None, None] + rng.choice([0.0, off]) * lin, lin * rng.choice([0.0, off]))
        cm = {"number of modes": N, "number of surfaces": A, "frequencies": w.tolist()}
        if i % 7 != 3:
            cm["energies"] = E.tolist()
        else:
            E = E * 0
        if i % 5 != 2:
            cm["linear couplings"] = lin.tolist()
        else:
            lin = lin * 0
        wd = w if rng.rand() < 0.5 else rng.uniform(0.02, 0.3, N)
        if i % 9 == 4:                          # very soft modes
            wd = np.where(rng.rand(N) < 0.5, wd, 10.0 ** rng.uniform(-5, -2, N))
        ld = rng.uniform(-0.3, 0.3, (N, B))
        dm = {"number of modes": N, "number of surfaces": B, "frequencies": wd.tolist(), "energies": rng.uniform(-1, 1, B).tolist()}
        if i % 4 != 1:
            dm["linear couplings"] = ld.tolist()
        else:
            ld = ld * 0
        if i % 6 == 0:
            dm["quadratic couplings"] = np.zeros((N, N, B)).tolist()
            cm["quadratic couplings"] = np.zeros((N, N, A, A)).tolist()
        if i % 8 == 0:
            del dm["energies"]
        path = [FS.path_rho_model, FS.path_iter_model, os.path.join(root, "x.json")][i % 3]
        dump(FS.path_vib_model, cm)
        dump(path, dm)
        tag = "energies A=%d B=%d N=%d" % (A, B, N)
        before = snapshot(root)
        with ctx.guard("raises", tag):
            for rep in range(2):                                # a second evaluation must not move anything
                with common.Quiet():
                    vIO.recalculate_energy_values_of_diagonal_model(FS, path)
                r = json.load(open(path))
                e = np.array(r.get("energies", np.zeros(B)), dtype=float)
                if not ctx.check(e.shape == (B,), "energy", tag + ": energies have shape %s" % (e.shape,)):
                    break
                for b in range(B):
                    q = -ld[:, b] / wd
                    pot = e[b] + np.sum(ld[:, b] * q) + 0.5 * np.sum(wd * q ** 2)
                    V = E + np.einsum("nab,n->ab", lin, q) + 0.5 * np.sum(w * q ** 2) * np.eye(A)
                    low = np.linalg.eigvalsh(V)[0]
                    ctx.check(abs(pot - low) <= 1e-12 * (1 + np.abs(V).max() + np.abs(pot) + np.abs(e[b])), "energy",
                              "%s: minimum of oscillator %d is %r, lowest adiabatic energy there %r" % (tag, b, pot, low))
                    ctx.event("minima_compared")
                for k in set(dm) | set(r):
                    if k == "energies":
                        continue
                    ctx.check(np.array_equal(np.array(dm.get(k, 0.0)) * np.ones(1), np.array(r.get(k, 0.0)) * np.ones(1))
                              or (k in dm and k not in r and not np.any(dm[k])), "energy-other",
                              "%s: recalculating the energies changed %s" % (tag, k))
            after = snapshot(root)
            ctx.check({k for k in set(before) | set(after) if before.get(k) != after.get(k)} <= {os.path.relpath(path, root)},
                      "source-modified", tag + ": other files changed")
        # quadratic terms: refused with everything left as it is, or taken into account
        if i % 4 == 2:
            where = ["sampling", "coupled", "both"][i // 4 % 3]
            qc, qd = np.zeros((N, N, A, A)), np.zeros((N, N, B))
            j, k = int(rng.randint(N)), int(rng.randint(N))
            if where != "sampling":
                a, b = int(rng.randint(A)), int(rng.randint(A))
                for x in ((j, k, a, b), (k, j, a, b), (j, k, b, a), (k, j, b, a)):
                    qc[x] = 0.01 * float(rng.choice([-1, 1]))
                cm["quadratic couplings"] = qc.tolist()
            if where != "coupled":
                b = int(rng.randint(B))
                qd[j, k, b] = qd[k, j, b] = 0.005
                dm["quadratic couplings"] = qd.tolist()
            dump(FS.path_vib_model, cm)
            dump(path, dm)
            before = snapshot(root)
            try:
                with common.Quiet():
                    vIO.recalculate_energy_values_of_diagonal_model(FS, path)
            except Exception:
                ctx.check(snapshot(root) == before, "source-modified", "%s: a refused recalculation (quadratic terms in the %s model) changed files" % (tag, where))
                ctx.event("quadratic_refused")
            else:
                e = np.array(json.load(open(path)).get("energies", np.zeros(B)), dtype=float)
                for b in range(B):
                    q = np.linalg.solve(np.diag(wd) + qd[:, :, b], -ld[:, b])
                    pot = e[b] + np.sum(ld[:, b] * q) + 0.5 * np.sum(wd * q ** 2) + 0.5 * q @ qd[:, :, b] @ q
                    V = E + np.einsum("nab,n->ab", lin, q) + 0.5 * np.einsum("nmab,n,m->ab", qc, q, q) + 0.5 * np.sum(w * q ** 2) * np.eye(A)
                    low = np.linalg.eigvalsh(V)[0]
                    ctx.check(abs(pot - low) <= 1e-9 * (1 + np.abs(V).max() + np.abs(pot)), "energy",
                              "%s (quadratic terms in the %s model): minimum of oscillator %d is %r, lowest adiabatic energy there %r" % (tag, where, b, pot, low))
                    ctx.event("quadratic_compared")
            ctx.event("quadratic_models")
        ctx.case(("energy", A, B, N, i), True, tag)
        ctx.drop(root)


common.main("C10", run, level="exploration",
            rule="a case is one coupled model with its derivations, one model zeroed in memory, or one recalculation of energies",
            required=("parameters_compared", "parameters_with_coupling_removed", "derived_harmonic", "derived_basic",
                      "derived_remove", "arrays_zeroed", "minima_compared", "quadratic_models"))
