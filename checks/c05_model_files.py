"""C05: model files round-trip, missing means zero, mismatches are refused.

Random models (dimensions, present/zero/absent parameters, extreme values, memory layouts) are saved with
the repository's writer; the file is read back by an independent reader (json), by every loading path of the
repository (new dictionaries, supplied arrays with garbage, ModelClass, the simulation's own models), and all
are compared bit for bit.  Mutated shapes and files are offered and must be refused.
"""
import copy
import json
import os
import numpy as np
import common

PAR = ["E", "w", "G1", "G2", "G3", "G4"]
KEYSTR = dict(E="energies", w="frequencies", G1="linear couplings", G2="quadratic couplings",
              G3="cubic couplings", G4="quartic couplings", N="number of modes", A="number of surfaces")


def shape(p, A, N, diag):
    n = dict(E=0, w=None, G1=1, G2=2, G3=3, G4=4)[p]
    if p == "w":
        return (N,)
    return (N,) * n + ((A,) if diag else (A, A))


def values(rng, sh, kind):
    if kind == "zero":
        return np.zeros(sh)
    if kind == "onehot":
        x = np.zeros(sh)
        x.flat[rng.randint(x.size)] = rng.choice([1e-300, -5e-324, 1.7e308, 1e-9, -0.1])
        return x
    if kind == "extreme":
        return rng.choice([1e-300, -1e300, 5e-324, 0.1, 1 / 3, -np.pi, 2.0 ** -1074, 1e16 + 2, 0.0], size=sh)
    if kind == "int":
        return rng.randint(-3, 4, size=sh).astype(float)
    x = rng.standard_normal(sh)
    return x * 10.0 ** rng.randint(-8, 4)


def layout(rng, x):
    k = rng.randint(4)
    if k == 1:
        return np.asfortranarray(x)
    if k == 2:
        big = np.full(tuple(2 * s for s in x.shape), 7.0)
        v = big[tuple(slice(None, None, 2) for _ in x.shape)]
        v[...] = x
        return v
    if k == 3:
        y = x.copy()
        y.flags.writeable = False
        return y
    return x.copy()


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and a.dtype == np.float64 and np.array_equal(a, b)


def run(ctx):
    vIO, pimc = common.load("pibronic.vibronic.vibronic_model_io", "pibronic.pimc.pimc")
    VMK = common.load("pibronic.vibronic.vibronic_model_keys").VibronicModelKeys
    K = {p: getattr(VMK, p) for p in PAR + ["A", "N"]}
    d = ctx.scratch()
    n = ctx.scale(500, 6000)
    for i in range(n):
        rng = ctx.rng("roundtrip", i)
        diag = bool(i % 2)
        A, N = int(rng.randint(1, 6)), int(rng.randint(1, 5 if i % 5 else 4))
        if i % 7 == 0:
            A = N = int(rng.randint(1, 4))
        if i % 50 == 13:                                       # production sizes
            A, N = [(12, 7), (3, 18), (10, 11), (1, 40)][i // 50 % 4]
        huge = i % 250 == 116
        if huge:                                               # a file of several megabytes
            A, N = 4, 26
        model, truth, kinds = {}, {}, {}
        # now and then only the dimensions and at most two parameters are present
        sparse = set(rng.permutation(PAR)[:rng.randint(3)]) if i % 9 in (0, 5) else None
        for p in PAR:
            if sparse is not None and p not in sparse:
                kind = "absent"
            elif p in ("G3", "G4") and (N > 6 or (N > 3 and rng.rand() < 0.7)):
                kind = "absent"
            else:
                kind = rng.choice(["normal", "normal", "normal", "zero", "absent", "onehot", "extreme", "int"])
            if sparse is None and p in ("E", "w") and kind == "absent" and rng.rand() < 0.6:
                kind = "normal"
            if huge:
                kind = "normal" if p in ("G1", "G2", "G3") else "absent"
            kinds[p] = kind
            sh = shape(p, A, N, diag)
            truth[p] = np.zeros(sh) if kind == "absent" else values(rng, sh, kind)
            if kind != "absent":
                model[K[p]] = layout(rng, truth[p])
        order = list(model) + [K["N"], K["A"]]
        model[K["N"]] = [N, np.int64(N)][rng.randint(2)]
        model[K["A"]] = [A, np.int64(A)][rng.randint(2)]
        model = {order[k]: model[order[k]] for k in rng.permutation(len(order))}
        save = vIO.save_diagonal_model_to_JSON if diag else vIO.save_model_to_JSON
        load = vIO.load_diagonal_model_from_JSON if diag else vIO.load_model_from_JSON
        tag = "%s A=%d N=%d %s" % ("diagonal" if diag else "coupled", A, N, kinds)
        path = os.path.join(d, "m%d.json" % (i % 3))        # reused: an older, longer file is replaced
        before = {k: (np.array(v), id(v)) for k, v in model.items()}
        key = (diag, A, N, tuple(kinds.values()))
        ctx.case(key, True, tag)
        with ctx.guard("raises", tag):
            with common.Quiet():
                save(path, model)
            ctx.check(set(model) == set(before) and all(id(model[k]) == b[1] and np.array_equal(model[k], b[0])
                                                         for k, b in before.items()),
                      "caller-modified", tag + ": saving changed the caller's model")
            raw = json.load(open(path, encoding="utf-8"))
            ctx.check(raw.get(KEYSTR["A"]) == A and raw.get(KEYSTR["N"]) == N, "dimensions", tag + ": file has other dimensions")
            for p in PAR:
                got = np.array(raw[KEYSTR[p]], dtype=float) if KEYSTR[p] in raw else np.zeros(truth[p].shape)
                ctx.check(got.shape == truth[p].shape and np.array_equal(got, truth[p]), "written-value",
                          "%s: %s in the file differs" % (tag, KEYSTR[p]))
            ctx.event("files_read_independently")
            with common.Quiet():
                back = load(path) if i % 3 else load(path, {})
                dims = (vIO.extract_dimensions_of_diagonal_model if diag else vIO.extract_dimensions_of_model)(path=path)
            ctx.check(tuple(dims) == (A, N), "dimensions", tag + ": extract_dimensions gives %s" % (dims,))
            ctx.check(int(back[K["A"]]) == A and int(back[K["N"]]) == N, "dimensions", tag + ": loaded dimensions differ")
            for p in PAR:
                got = back.get(K[p])
                if got is None:
                    ctx.check(not np.any(truth[p]) and p != "E", "missing-value", "%s: %s is missing after loading" % (tag, p))
                else:
                    ctx.check(same(got, truth[p]), "loaded-value", "%s: %s differs after loading" % (tag, p))
            ctx.event("roundtrips")
            # the same numbers written without decimal point
            if "int" in kinds.values():
                whole = {KEYSTR["A"]: A, KEYSTR["N"]: N}
                whole.update({KEYSTR[p]: truth[p].astype(int).tolist() if kinds[p] in ("int", "zero") else truth[p].tolist()
                              for p in PAR if kinds[p] != "absent"})
                with open(path + ".int", "w") as f:
                    f.write(json.dumps(whole))
                with common.Quiet():
                    back = load(path + ".int")
                for p in PAR:
                    ctx.check(back.get(K[p]) is None or same(back[K[p]], truth[p]), "loaded-value",
                              "%s: %s written as whole numbers differs after loading" % (tag, p))
                ctx.event("whole_number_files")
            # into supplied arrays that hold other values
            tgt, keep = {K["A"]: A, K["N"]: N}, {}
            for p in PAR:
                if p in ("E", "w") or rng.rand() < 0.8:
                    g = np.full(truth[p].shape, np.nan if rng.rand() < 0.3 else 4.25)
                    if rng.rand() < 0.3:
                        g = np.full(tuple(2 * s for s in g.shape), 9.0)[tuple(slice(None, None, 2) for _ in g.shape)]
                    tgt[K[p]] = keep[p] = g
            with common.Quiet():
                load(path, tgt)
            for p, g in keep.items():
                ctx.check(tgt[K[p]] is g and same(g, truth[p]), "inplace-value",
                          "%s: %s in the supplied array is not the file's value" % (tag, p))
                ctx.event("supplied_arrays_filled")
            ctx.check(int(tgt[K["A"]]) == A and int(tgt[K["N"]]) == N, "dimensions", tag + ": in-place dimensions")
            # through the simulation's model class, fresh and on an object that held another model
            if not diag and kinds["w"] not in ("absent", "zero") and np.any(truth["w"]):
                with common.Quiet():
                    m = pimc.ModelClass.from_json_file(path)
                for rep in range(2):
                    ok = same(m.omega, truth["w"]) and same(m.energy, truth["E"]) and same(m.linear, truth["G1"]) \
                        and same(m.quadratic, truth["G2"]) and (int(m.states), int(m.modes)) == (A, N)
                    ctx.check(ok, "model-class", tag + ": ModelClass (load %d) does not hold the file's model" % rep)
                    for arr in (m.omega, m.energy, m.linear, m.quadratic):
                        if isinstance(arr, np.ndarray) and arr.flags.writeable:
                            arr[...] = 3.5
                    with common.Quiet():
                        m.load_model(path)
                ctx.event("model_class_loads", 2)

    # the simulation's own models: everything in the file, zeros where the file has nothing
    for i in range(ctx.scale(40, 300)):
        rng = ctx.rng("sim", i)
        A, B, N = int(rng.randint(1, 4)), int(rng.randint(1, 4)), int(rng.randint(1, 4))
        if i % 13 == 7:
            A, B, N = int(rng.choice([4, 11])), int(rng.choice([4, 12])), int(rng.choice([3, 12]))
        truth = {}
        for name, diag, S in (("v", False, A), ("r", True, B)):
            raw = {KEYSTR["A"]: S, KEYSTR["N"]: N}
            for p in ("E", "w", "G1", "G2"):
                t = rng.uniform(0.05, 0.3, size=shape(p, S, N, diag))
                if p != "w" and rng.rand() < 0.4:
                    t = np.zeros_like(t)
                else:
                    raw[KEYSTR[p]] = t.tolist()
                truth[name, p] = t
            json.dump(raw, open(os.path.join(d, name + ".json"), "w"))
        with ctx.guard("raises", "simulation models A=%d B=%d N=%d" % (A, B, N)):
            data = pimc.BoxData()
            data.states, data.modes, data.beads, data.temperature = A, N, 4, 300.0
            data.samples, data.blocks, data.block_size = 4, 1, 4
            data.path_vib_model, data.path_rho_model = os.path.join(d, "v.json"), os.path.join(d, "r.json")
            with common.Quiet():
                data.preprocess()
                v = pimc.ModelVibronic(data)
                v.load_model(data.path_vib_model)
                r = pimc.ModelSampling(data)
                r.load_model(data.path_rho_model)
            for name, m in (("v", v), ("r", r)):
                for p, a in (("E", m.energy), ("w", m.omega), ("G1", m.linear), ("G2", m.quadratic)):
                    ctx.check(same(a, truth[name, p]), "simulation-model",
                              "A=%d B=%d N=%d: %s of the %s model differs from its file" % (A, B, N, p, name))
            ctx.event("simulation_models")
        # dimensions that do not fit the file
        if i % 4 == 0:
            wrong = pimc.BoxData()
            wrong.states, wrong.modes, wrong.beads, wrong.temperature = A + 1, N, 4, 300.0
            wrong.samples, wrong.blocks, wrong.block_size = 4, 1, 4
            wrong.path_vib_model, wrong.path_rho_model = data.path_vib_model, data.path_rho_model
            ctx.expect_raise(lambda: wrong.preprocess(), "mismatch-accepted",
                             "a simulation with %d states loaded a model with %d" % (A + 1, A))
            ctx.event("refusals")
        ctx.case(("sim", A, B, N, i))

    # mismatched arrays and files are refused, on saving and on both ways of loading
    n = ctx.scale(300, 3000)
    for i in range(n):
        rng = ctx.rng("refuse", i)
        diag = bool(i % 2)
        A, N = int(rng.randint(1, 5)), int(rng.randint(1, 4))
        good = {p: rng.uniform(0.1, 1, size=shape(p, A, N, diag)) for p in PAR if p not in ("G3", "G4") or N < 3}
        p = sorted(good)[i // 2 % len(good)]
        sh = list(good[p].shape)
        how = i % 7
        k = int(rng.randint(len(sh)))
        bad = None
        if how == 0:
            sh[k] += 1
        elif how == 1 and sh[k] > 1:
            sh[k] -= 1
        elif how == 2:
            sh = [1] + sh
        elif how == 3 and len(sh) > 1:
            sh = sh[1:]
        elif how == 4 and sh[::-1] != sh:
            sh = sh[::-1]
        elif how == 5 and len(sh) > 1 and sh[-1] > 1:
            sh[-1] = 1
        elif how == 6:
            sh = shape(p, A, N, not diag)
        if tuple(sh) == good[p].shape:
            sh = list(good[p].shape) + [1]
        bad = rng.uniform(0.1, 1, size=tuple(sh))
        save = vIO.save_diagonal_model_to_JSON if diag else vIO.save_model_to_JSON
        load = vIO.load_diagonal_model_from_JSON if diag else vIO.load_model_from_JSON
        tag = "%s A=%d N=%d: %s with shape %s" % ("diagonal" if diag else "coupled", A, N, p, tuple(sh))
        ctx.case(("refuse", diag, A, N, p, tuple(sh)), True, tag)
        path = os.path.join(d, "refuse.json")
        with open(path, "w") as f:
            f.write("older content")
        m = {K[q]: (bad if q == p else v) for q, v in good.items()}
        m.update({K["A"]: A, K["N"]: N})
        ctx.expect_raise(lambda: save(path, m), "mismatch-accepted", tag + " was saved")
        ctx.check(open(path).read() == "older content", "mismatch-accepted", tag + ": the refused save touched the file")
        raw = {KEYSTR["A"]: A, KEYSTR["N"]: N}
        raw.update({KEYSTR[q]: (bad if q == p else v).tolist() for q, v in good.items()})
        json.dump(raw, open(path, "w"))
        ctx.expect_raise(lambda: load(path), "mismatch-accepted", tag + " was loaded")
        tgt = {K[q]: np.full(v.shape, 2.0) for q, v in good.items()}
        tgt.update({K["A"]: A, K["N"]: N})
        ctx.expect_raise(lambda: load(path, tgt), "mismatch-accepted", tag + " was loaded into supplied arrays")
        # supplied arrays of another size than the (valid) file
        raw.update({KEYSTR[q]: v.tolist() for q, v in good.items()})
        json.dump(raw, open(path, "w"))
        A2, N2 = (A + 1, N) if rng.rand() < 0.5 else (A, N + 1)
        tgt = {K[q]: np.full(shape(q, A2, N2, diag), 2.0) for q in good}
        tgt.update({K["A"]: A2, K["N"]: N2})
        ctx.expect_raise(lambda: load(path, tgt), "mismatch-accepted",
                         "%s: arrays of a (%d,%d) model were filled from a (%d,%d) file" % (tag, A2, N2, A, N))
        # a file of constant-zero parameters in which only the dimensions differ
        json.dump({KEYSTR["A"]: A, KEYSTR["N"]: N}, open(path, "w"))
        ctx.expect_raise(lambda: load(path, tgt), "mismatch-accepted",
                         "%s: arrays of a (%d,%d) model were zeroed from a (%d,%d) file" % (tag, A2, N2, A, N))
        # dimensions are required
        for q in ("A", "N"):
            m2 = {K[r]: v for r, v in good.items()}
            m2[K["A" if q == "N" else "N"]] = A if q == "N" else N
            ctx.expect_raise(lambda: save(path, m2), "no-dimensions", "a model without %s was saved" % KEYSTR[q])
            raw2 = {k2: v for k2, v in raw.items() if k2 != KEYSTR[q]}
            json.dump(raw2, open(path, "w"))
            ctx.expect_raise(lambda: load(path), "no-dimensions", "a file without %s was loaded" % KEYSTR[q])
        ctx.event("refusals", 9)


common.main("C05", run, level="exploration",
            rule="a case is one model (kind, dimensions, which parameters are absent/zero/extreme) taken through "
                 "save, independent read and all loading paths, or one mismatch offered to all of them",
            required=("roundtrips", "files_read_independently", "supplied_arrays_filled", "model_class_loads",
                      "simulation_models", "refusals"))
