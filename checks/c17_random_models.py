"""C17: generated random models respect what was requested; symmetry and equality predicates tell the truth."""
import copy
import os
import numpy as np
import common


def check_model(ctx, VMK, tag, m, A, N, diag, w_range, e_range, scaling):
    shapes = {VMK.E: (), VMK.w: None, VMK.G1: (N,), VMK.G2: (N, N), VMK.G3: (N,) * 3, VMK.G4: (N,) * 4}
    ctx.check(int(m[VMK.A]) == A and int(m[VMK.N]) == N, "dimensions", "%s: dimensions (%s, %s)" % (tag, m[VMK.A], m[VMK.N]))
    for k in (VMK.E, VMK.w, VMK.G1):
        ctx.check(k in m, "shape", "%s: %s missing" % (tag, k))
    for k, v in m.items():
        if k in (VMK.A, VMK.N):
            continue
        want = (N,) if k == VMK.w else shapes[k] + ((A,) if diag else (A, A))
        if not ctx.check(getattr(v, "shape", None) == want, "shape", "%s: %s has shape %s" % (tag, k, getattr(v, "shape", None))):
            continue
        ctx.check(bool(np.all(np.isfinite(v))), "finite", "%s: %s not finite" % (tag, k))
        if k != VMK.w and not diag:
            ctx.check(np.allclose(v, np.swapaxes(v, -1, -2), rtol=1e-12, atol=0), "symmetric-states", "%s: %s is not symmetric in states" % (tag, k))
        if k == VMK.G2:
            ctx.check(np.allclose(v, np.swapaxes(v, 0, 1), rtol=1e-12, atol=0), "symmetric-modes", "%s: %s is not symmetric in modes" % (tag, k))
        if k == VMK.G4:
            ctx.check(np.allclose(v, np.moveaxis(v, [0, 1, 2, 3], [1, 0, 3, 2]), rtol=1e-12, atol=0), "symmetric-modes", tag)
    w, E, lin = m[VMK.w], m[VMK.E], m[VMK.G1]
    ctx.check(w[0] == w_range[0] and (N == 1 or abs(w[-1] - w_range[1]) <= 1e-15 * abs(w_range[1])) and bool(np.all(np.diff(w) >= 0)),
              "frequencies", "%s: frequencies %s, requested %s" % (tag, w, w_range))
    ctx.check(E.min() >= e_range[0] and E.max() <= e_range[1], "energies", "%s: energies [%r, %r], requested %s" % (tag, E.min(), E.max(), e_range))
    bound = np.abs(scaling / w).reshape((N,) + (1,) * (lin.ndim - 1))
    ctx.check(bool(np.all(np.abs(lin) <= bound * (1 + 1e-12))), "linear", "%s: a linear term exceeds scaling/frequency (by %.3g)"
              % (tag, float((np.abs(lin) / np.maximum(bound, 1e-300)).max())))
    ctx.event("models_checked")
    return np.abs(lin) / np.maximum(bound, 1e-300)


def sym_model(rng, VMK, A, N, diag, quartic):
    m = {VMK.A: A, VMK.N: N, VMK.w: rng.uniform(0.05, 0.3, N)}
    for k, n in ((VMK.E, 0), (VMK.G1, 1), (VMK.G2, 2), (VMK.G3, 3)) + (((VMK.G4, 4),) if quartic else ()):
        if k != VMK.E and rng.rand() < 0.25:
            continue
        x = rng.uniform(-1, 1, (N,) * n + ((A,) if diag else (A, A)))
        if not diag:
            x = 0.5 * (x + np.swapaxes(x, -1, -2))
        if n == 2:
            x = 0.5 * (x + np.swapaxes(x, 0, 1))
        if n == 4:
            x = 0.5 * (x + np.moveaxis(x, [0, 1, 2, 3], [1, 0, 3, 2]))
        m[k] = x
    return m


def models_filled(VMK, A, N, diag, v):
    tail = (A,) if diag else (A, A)
    m = {VMK.N: N, VMK.A: A, VMK.w: np.full(N, v), VMK.E: np.full(tail, v)}
    for k, key in ((1, VMK.G1), (2, VMK.G2)):
        m[key] = np.full((N,) * k + tail, v)
    return m


def run(ctx):
    vIO = common.load("pibronic.vibronic.vibronic_model_io")
    VMK = common.load("pibronic.vibronic.vibronic_model_keys").VibronicModelKeys
    DEF = dict(frequency_range=[0.02, 0.04], energy_range=[0.0, 2.0], linear_scaling=0.04, diagonal=False, numStates=2, numModes=3)
    seen, fill = set(), []
    n = ctx.scale(900, 12000)
    for i in range(n):
        rng = ctx.rng("generate", i)
        ctx.seed_globals("generate", i)
        p = {}
        for k, v in (("numStates", int(rng.randint(1, 8))), ("numModes", int(rng.randint(1, 6)) if rng.rand() < 0.94 else int(rng.randint(6, 16))),
                     ("linear_scaling", float(rng.choice([0.02, 0.5, 3.0, 1e-6, 0.0]))),
                     ("quadratic_scaling", float(rng.uniform(0.02, 0.2))), ("diagonal", bool(rng.rand() < 0.5)),
                     ("frequency_range", [[0.02, 0.04], [0.1, 0.1], [0.001, 0.9], [1.0, 1.5], (0.03, 0.3)][rng.randint(5)]),
                     ("energy_range", [[0.0, 2.0], [-3.0, -1.0], [5.0, 5.5], (-1.0, 1.0), [2.0, 2.0]][rng.randint(5)])):
            if rng.rand() < 0.75:
                p[k] = v
        q = copy.deepcopy(p)
        eff = dict(DEF, **p)
        tag = "generate %s" % p
        with ctx.guard("raises", tag):
            with common.Quiet():
                m = vIO.generate_vibronic_model_data(p if p or i % 2 else None)
            ctx.check(p == q and all(type(p[k]) is type(q[k]) for k in p), "caller-modified", tag + ": the caller's parameters changed")
            f = check_model(ctx, VMK, tag, m, eff["numStates"], eff["numModes"], eff["diagonal"], list(eff["frequency_range"]),
                            list(eff["energy_range"]), eff["linear_scaling"])
            if eff["linear_scaling"] > 0:
                fill.append(f.ravel())
                ctx.check(bool(np.all(f.reshape(len(f), -1).max(axis=1) > 0)), "linear", tag + ": a mode has no linear terms")
                key = m[VMK.G1].tobytes()
                ctx.check(key not in seen, "repeated", tag + ": the same model was generated twice")
                seen.add(key)
                if not eff["diagonal"] and eff["numStates"] > 1:
                    off = ~np.eye(eff["numStates"], dtype=bool)
                    ctx.check(np.count_nonzero(m[VMK.G1][:, off]) > 0, "coupling", tag + ": a coupled model without coupling")
                    ctx.event("coupled_models")
            with common.Quiet():
                (vIO.verify_diagonal_model_parameters if eff["diagonal"] else vIO.verify_model_parameters)(m)
            # independent arrays: changing one model must not change the next
            for v in m.values():
                if isinstance(v, np.ndarray) and v.flags.writeable:
                    v[...] = 77.0
        ctx.case((tuple(sorted((k, str(v)) for k, v in p.items()))), True, tag)
    if fill:
        f = np.concatenate(fill)
        ctx.check(f.max() > 0.9 and abs(f.mean() - 0.5) < 0.05, "linear", "linear terms do not use the allowed range: max %.3f mean %.3f"
                  % (f.max(), f.mean()))

    for i in range(ctx.scale(60, 500)):
        ctx.seed_globals("random", i)
        for diag, fn in ((False, vIO.create_random_model), (True, vIO.create_random_diagonal_model)):
            with ctx.guard("raises", fn.__name__):
                with common.Quiet():
                    m = fn()
                A, N = int(m[VMK.A]), int(m[VMK.N])
                ctx.check(A >= 1 and N >= 1, "dimensions", "random model with A=%d N=%d" % (A, N))
                check_model(ctx, VMK, "%s A=%d N=%d" % (fn.__name__, A, N), m, A, N, diag, DEF["frequency_range"], DEF["energy_range"], 0.06)
                ctx.case((fn.__name__, A, N, i), True, "%s A=%d N=%d" % (fn.__name__, A, N))

    # predicates
    n = ctx.scale(500, 6000)
    for i in range(n):
        rng = ctx.rng("predicate", i)
        A, N = int(rng.randint(2, 5)), int(rng.randint(2, 4))
        if i % 25 == 12:
            A, N = [(12, 2), (3, 6)][i // 25 % 2]
        m = sym_model(rng, VMK, A, N, False, i % 3 == 0)
        before = copy.deepcopy(m)
        tag = "predicate A=%d N=%d" % (A, N)
        with ctx.guard("raises", tag):
            with common.Quiet():
                s, q = vIO.model_parameters_are_symmetric_in_surfaces(m), vIO.model_parameters_are_symmetric_in_modes(m)
            ctx.check(bool(s), "predicate-surfaces", tag + ": a model symmetric in states was rejected")
            ctx.check(bool(q), "predicate-modes", tag + ": a model symmetric in modes was rejected")
            # break the state symmetry at one single entry of one parameter
            keys = [k for k in (VMK.E, VMK.G1, VMK.G2, VMK.G3, VMK.G4) if k in m]
            k = keys[rng.randint(len(keys))]
            a, b = rng.permutation(A)[:2]
            idx = tuple(rng.randint(N, size=m[k].ndim - 2)) + (a, b)
            x = dict(m)
            x[k] = m[k].copy()
            x[k][idx] += float(rng.choice([0.5, -0.01, 1e-3]))
            with common.Quiet():
                s = vIO.model_parameters_are_symmetric_in_surfaces(x)
            ctx.check(not s, "predicate-surfaces", "%s: %s asymmetric in states at %s was accepted" % (tag, k, idx))
            # break the mode symmetry only
            for k, sw in ((VMK.G2, (1, 0)), (VMK.G4, (1, 0, 3, 2))):
                if k not in m:
                    continue
                for _ in range(20):
                    j = tuple(rng.randint(N, size=len(sw)))
                    if j != tuple(j[t] for t in sw):
                        break
                else:
                    continue
                x = dict(m)
                x[k] = m[k].copy()
                d = 0.3 * np.ones((A, A))
                if i % 2:                                        # symmetric in states, adds up to nothing over them
                    d = np.diag(np.where(np.arange(A) == 0, 1.0, 0.0) - np.where(np.arange(A) == A - 1, 1.0, 0.0)) * 0.3
                x[k][j] += d
                with common.Quiet():
                    s, q = vIO.model_parameters_are_symmetric_in_surfaces(x), vIO.model_parameters_are_symmetric_in_modes(x)
                ctx.check(bool(s), "predicate-surfaces", tag + ": symmetric in states but rejected")
                ctx.check(not q, "predicate-modes", "%s: %s asymmetric in modes %s was accepted" % (tag, k, j))
                ctx.event("mode_asymmetries")
            ctx.check(all(np.array_equal(m[k], before[k]) for k in before), "predicate-modifies", tag + ": a predicate changed the model")
            ctx.event("symmetry_predicates")
        # equality, both kinds
        for diag, fn in ((False, vIO._same_model), (True, vIO._same_diagonal_model)):
            d1 = sym_model(rng, VMK, A, N, diag, False)
            d2 = copy.deepcopy(d1)
            with ctx.guard("raises", tag + " equality"):
                with common.Quiet():
                    ctx.check(bool(fn(d1, d2)), "predicate-equal", tag + ": equal models compare different")
                    k = [VMK.G1, VMK.G2, VMK.G3][rng.randint(3)]
                    if k in d2:
                        d2[k] = np.zeros_like(d2[k])
                        ctx.check(not fn(d1, d2) and not fn(d2, d1), "predicate-equal", "%s: models that differ in %s compare equal" % (tag, k))
                        del d2[k]
                        ctx.check(not fn(d1, d2) and not fn(d2, d1), "predicate-equal", "%s: missing %s means zero, yet the models compare equal" % (tag, k))
                        d1[k] = np.zeros_like(d1[k])
                        ctx.check(bool(fn(d1, d2)) and bool(fn(d2, d1)), "predicate-equal", "%s: a missing and a zero %s are the same" % (tag, k))
                    d2 = copy.deepcopy(d1)
                    ks = [x for x in d2 if isinstance(d2[x], np.ndarray)]
                    k = ks[rng.randint(len(ks))]
                    j = tuple(rng.randint(s) for s in d2[k].shape)
                    d2[k][j] += [1e-3, -3e-5, 3e-5, 0.7, np.nan][i % 5]
                    ctx.check(not fn(d1, d2) and not fn(d2, d1), "predicate-equal", "%s: models that differ in %s%s compare equal (by %s)" % (tag, k, j, d2[k][j] - d1[k][j]))
                    d2 = copy.deepcopy(d1)
                    rolled = np.roll(d2[k].ravel(), 1 + i % 2).reshape(d2[k].shape)   # the same numbers at other places
                    if not np.allclose(rolled, d2[k], rtol=1e-3, atol=1e-4):
                        d2[k] = rolled
                        ctx.check(not fn(d1, d2) and not fn(d2, d1), "predicate-equal", "%s: models with the values of %s at other places compare equal" % (tag, k))
                        ctx.event("moved_values")
                    other = sym_model(rng, VMK, A + 1, N, diag, False), sym_model(rng, VMK, A, N + 1, diag, False)
                    for o in other:
                        for x, y in ((d1, o), (o, d1)):
                            try:
                                eq = bool(fn(x, y))
                            except Exception:
                                eq = False
                            ctx.check(not eq, "predicate-equal", tag + ": models of different dimensions compare equal")
                    # the same number everywhere: arrays of different sizes that numpy would stretch to match
                    flat = [models_filled(VMK, a, n, diag, 0.25) for a, n in ((1, 1), (A + 1, 1), (1, N + 1), (A + 1, N + 1))]
                    for x in range(4):
                        for y in range(4):
                            try:
                                eq = bool(fn(flat[x], flat[y]))
                            except Exception:
                                eq = False
                            ctx.check(eq == (x == y), "predicate-equal", "%s: models of %s and %s states and modes, all parameters alike: compare %s"
                                      % (tag, (flat[x][VMK.A], flat[x][VMK.N]), (flat[y][VMK.A], flat[y][VMK.N]), "equal" if eq else "different"))
                            ctx.event("stretched_models")
                ctx.event("equality_predicates")
        ctx.case(("predicate", A, N, i), True)


common.main("C17", run, level="exploration",
            rule="a case is one generated model (parameters requested) or one model with its broken variants given to the predicates",
            required=("models_checked", "coupled_models", "symmetry_predicates", "mode_asymmetries", "moved_values", "equality_predicates", "stretched_models"),
            assumptions=["predicates compare floating point numbers to numpy's default closeness; variants differ by 3e-5 or more, of values of order one"])
