"""C11: import of operator (.op) files.

Monitor: a generator keeps the table of coefficients it writes; .op files of many sizes, subsets, values, spacings,
section fillings and surroundings (other sections, other numbers that look alike) are imported by the real reader, in
sequences within one process so that state left over from an earlier file shows.  Every position of every returned
array is compared with the table, exactly.  The written model file is read back independently, the source file is
compared byte for byte, files that lost a part (truncated inside the parameter section) must raise.
"""
import json
import os
import numpy as np
import common


def fmt(rng, style):
    kind = rng.choice(["small", "mid", "big", "tiny", "zero", "negzero", "int"])
    v = {"small": rng.uniform(-0.01, 0.01), "mid": rng.uniform(-1, 1), "big": rng.uniform(-30, 30), "tiny": 1e-6 * rng.randint(-9, 10),
         "zero": 0.0, "negzero": -0.0, "int": float(rng.randint(-3, 4))}[kind]
    if style == "exp":
        return "%.9E" % v
    if style == "long":
        return "%.15f" % v
    return "%.6f" % v


class Op:
    """a random .op file: text plus the table of what it says"""

    def __init__(self, rng, A, N, density, style="fixed", spacing="writer", skip=()):
        self.A, self.N, self.rng, self.style, self.spacing = A, N, rng, style, spacing
        self.E = np.zeros((A, A))
        self.w = np.zeros(N)
        self.G = {k: np.zeros((N,) * k + (A, A)) for k in (1, 2, 3, 4)}
        self.n = 0
        self.section_ends = []
        L = ["OP_DEFINE-SECTION", "title", str(rng.choice(["IP", "EA states", "molecule 7 C2_s01s01_v01v01"])), "end-title",
             "end-op_define-section", "", "", "PARAMETER-SECTION", "", ""]
        L += ["#        Frequencies ", "# ------------------------ ", ""]
        for j in range(N):
            v = {"long": "%.15f", "exp": "%.9E"}.get(style, "%.6f") % (rng.uniform(0.01, 0.5) * (1 if rng.rand() < 0.97 else -1))
            self.w[j] = float(v)
            L.append(self.row("w%02d" % (j + 1), " " + v))
        L += ["", "#        Zeropoint energy     %.6f" % (self.w.sum() / 2), ""]
        L += ["#   Electronic Hamitonian ", "#   Vertical energies - Zeropoint ", "# ------------------------------- ", ""]
        for a in range(A):
            v = {"long": "%.13f", "exp": "%.9E"}.get(style, "%.6f") % rng.uniform(-2, 20) if rng.rand() < 0.95 else "0.000000"
            self.E[a, a] = float(v)
            L.append(self.row("EH_s%02d_s%02d" % (a + 1, a + 1), " " + v))
        L.append("")
        for name, k in (("Electronic", "E"), ("Magnetic", "M")):
            L += ["#     %s transition moments " % name, "# ----------------------------------", ""]
            for d in "xyz"[:rng.randint(0, 4)]:
                L.append("# tmom in direction %s%s" % (k, d))
                L += [self.row("%s%s_s%02d_s%02d" % (k, d, A, a + 1), "0.100000") for a in range(A - 1)]
            L.append("")
        pairs = [(a, a) for a in range(A)] + [(a, b) for a in range(A) for b in range(a + 1, A)]
        # now and then one order has nothing but very small coefficients
        self.dwarf = {k: "1e-%d" % rng.randint(7, 14) for k in (1, 2, 3, 4) if style == "exp" and rng.rand() < 0.25}
        take = lambda s: s not in skip and rng.rand() < density  # noqa

        def put(rows, k, idx, a, b, label):
            v = fmt(rng, style)
            if k in self.dwarf:
                v = "%.9E" % (float(v) * float(self.dwarf[k]))
            x = float(v)
            self.G[k][idx + (a, b)] = x
            self.G[k][idx + (b, a)] = x
            if k == 2:
                self.G[2][(idx[1], idx[0], a, b)] = x
                self.G[2][(idx[1], idx[0], b, a)] = x
            self.n += 1
            rows.append(self.row(label, v))

        def section(title, rows):
            L.extend(["#  %s " % title, "# -------------------------- ", ""])
            for i, r in enumerate(rows):
                if i and rng.rand() < 0.03:
                    L.append("")
                L.append(r)
            L.append("")
            self.section_ends.append(len(L))

        r = []
        for a, b in pairs:
            for j in range(N):
                if take("C1"):
                    put(r, 1, (j,), a, b, "C1_s%02d_s%02d_v%02d" % (a + 1, b + 1, j + 1))
        section("Linear Coupling Constants", r)
        r = []
        for a, b in pairs:
            for j in range(N):
                if take("C2d"):
                    put(r, 2, (j, j), a, b, "C2_s%02ds%02d_v%02dv%02d" % (a + 1, b + 1, j + 1, j + 1))
        section("Diagonal Quadratic Coupling Constants", r)
        r = []
        for a, b in pairs:
            for j in range(N):
                for i in range(j):
                    if take("C2o"):
                        put(r, 2, (j, i), a, b, "C2_s%02ds%02d_v%02dv%02d" % (a + 1, b + 1, j + 1, i + 1))
        L.extend(["# Off_diagonal Quadratic Coupling Constants ", "# ----------------------------------------- ", ""])
        L.extend(r + [""])
        for k, name in ((3, "Cubic"), (4, "Quartic")):
            r = []
            for a, b in pairs:
                for j in range(N):
                    if take("C%d" % k):
                        put(r, k, (j,) * k, a, b, "C%d_s%02d_s%02d_v%02d" % (k, a + 1, b + 1, j + 1))
            section("%s Coupling Constants" % name, r)
        r = []
        for a, b in pairs:
            for i in range(N):
                for j in range(N):
                    if i != j and take("B3"):
                        put(r, 3, (i, j, j), a, b, "B3_s%02ds%02d_v%02dv%02d" % (a + 1, b + 1, i + 1, j + 1))
        section("Bi-Cubic Constants", r)
        r = []
        for a, b in pairs:
            for i in range(N):
                for j in range(N):
                    if i != j and take("B4"):
                        put(r, 4, (i, j, j, j), a, b, "B4_s%02ds%02d_v%02dv%02d" % (a + 1, b + 1, i + 1, j + 1))
                    if (i < j or i > j and rng.rand() < 0.3) and take("A4"):
                        put(r, 4, (i, i, j, j), a, b, "A4_s%02ds%02d_v%02dv%02d" % (a + 1, b + 1, i + 1, j + 1))
        section("Bi-Quartic Constants", r)
        L += ["", "end-parameter-section", "", "HAMILTONIAN-SECTION "]
        L.append(" modes   |  el  |" + "|".join(" v%02d" % (j + 1) for j in range(N)) + "| ")
        L += ["1.0*w%02d                  |%d KE" % (j + 1, j + 2) for j in range(N)]
        L += ["C1_s%02d_s%02d_v%02d          |1 S%d&%d   |%d q  " % (a + 1, b + 1, 1, a + 1, b + 1, 2) for a, b in pairs]
        L += ["end-hamiltonian-section", "", "end-operator", ""]
        self.text = "\n".join(L) + "\n"

    def row(self, label, value):
        if self.spacing == "writer":
            return "%-25s=%15s    , ev " % (label, value)
        if self.spacing == "tight":
            return "%s = %s , ev" % (label, value)
        n = self.rng.randint(1, 9, 4)
        return label + " " * n[0] + "=" + " " * n[1] + value + " " * n[2] + ", ev" + " " * (n[3] - 1)


NAMES = {1: "linear couplings", 2: "quadratic couplings", 3: "cubic couplings", 4: "quartic couplings"}


def compare(ctx, tag, got, op, data):
    """got: dict of plain string keys -> values"""
    A, N = op.A, op.N
    ctx.check(set(got) <= {"number of modes", "number of surfaces", "energies", "frequencies"} | set(NAMES.values()), "keys",
              "%s: unexpected entries %s" % (tag, sorted(got)), data)
    ctx.check(got.get("number of modes") == N and got.get("number of surfaces") == A, "dimensions",
              "%s: dimensions %s %s" % (tag, got.get("number of surfaces"), got.get("number of modes")), data)
    for name, want in [("energies", op.E), ("frequencies", op.w)] + [(NAMES[k], op.G[k]) for k in (1, 2, 3, 4)]:
        g = np.asarray(got[name], dtype=float) if name in got else np.zeros(want.shape)
        ctx.event("arrays_compared")
        if not ctx.check(g.shape == want.shape, "shape", "%s: %s has shape %s, not %s" % (tag, name, g.shape, want.shape), data):
            continue
        bad = np.argwhere(~(np.abs(g - want) <= 1e-13 * np.abs(want)))
        ctx.event("coefficients_compared", int(np.count_nonzero(want)))
        ctx.event("empty_positions_compared", int(np.count_nonzero(want == 0)))
        ctx.check(len(bad) == 0, "value", "%s: %s differs from the file at %d positions, first %s: %r instead of %r" % (
            tag, name, len(bad), bad[0].tolist() if len(bad) else None, g[tuple(bad[0])] if len(bad) else 0, want[tuple(bad[0])] if len(bad) else 0), data)


def plain(d):
    return {getattr(k, "value", k): v for k, v in d.items()}


def run(ctx):
    vIO, fs, mop = common.load("pibronic.vibronic.vibronic_model_io", "pibronic.data.file_structure", "pibronic.vibronic.model_op")
    n = ctx.scale(170, 2500)
    for i in range(n):
        rng = ctx.rng("op", i)
        A, N = int(rng.randint(1, 7)), int(rng.randint(1, 7))
        if i % 40 == 7:
            A, N = int(rng.randint(9, 13)), 2                     # two-digit surfaces
        if i % 40 == 9:
            A, N = 2, int(rng.randint(9, 13))                     # two-digit modes
        if i % 80 == 13:
            A, N = 1, 12
        if i % 85 == 33:
            A, N = [(3, 25), (8, 20), (20, 5), (1, 40), (2, 30)][i // 85 % 5]
        density = float(rng.choice([0.0, 0.05, 0.3, 0.8, 1.0]))
        style = str(rng.choice(["fixed", "fixed", "exp", "long"]))
        spacing = str(rng.choice(["writer", "writer", "tight", "random"]))
        allsec = ["C1", "C2d", "C2o", "C3", "C4", "B3", "B4", "A4"]
        skip = tuple(s for s in allsec if rng.rand() < rng.choice([0, 0.2, 0.8]))
        if A * N > 36:                                            # hundreds of couplings per section
            density = 1.0 if A > 3 else float(rng.choice([0.3, 1.0]))
            skip = tuple(s for s in allsec if s in ("C4", "B4", "A4") and N > 12 or rng.rand() < 0.2 and s != "C1")
            ctx.event("large_models")
        op = Op(rng, A, N, density, style, spacing, skip)
        tag = "A=%d N=%d density=%.2f %s %s without %s" % (A, N, density, style, spacing, skip)
        data = dict(i=i, A=A, N=N, density=density, style=style, spacing=spacing, skip=skip)
        d = ctx.scratch()
        with ctx.guard("raises", "import " + tag, data):
            with common.Quiet():
                FS = fs.FileStructure(d, 0, 0)
            path = os.path.join(FS.path_es, "m_vibron.op")
            with open(path, "w") as f:
                f.write(op.text)
            if rng.rand() < 0.3:
                os.chmod(path, 0o644)
            st = os.stat(path)
            how = i % 3
            if how in (0, 1):
                with common.Quiet():
                    r = (vIO.read_model_op_file if how == 0 else mop.read_model_op_file)(path)
                compare(ctx, "read " + tag, plain(r), op, data)
                with common.Quiet():
                    vIO.verify_model_parameters(r)
                    sym = vIO.model_parameters_are_symmetric_in_surfaces(r)
                ctx.check(sym, "symmetric", tag + ": the imported model is not symmetric in surfaces", data)
            if how == 2 or rng.rand() < 0.5:
                with common.Quiet():
                    out = vIO.create_coupling_from_op_file(FS, path)
                ctx.check(os.path.realpath(out) == os.path.realpath(FS.path_vib_model), "returned", "%s: returned %s" % (tag, out), data)
                j = json.load(open(FS.path_vib_model))
                compare(ctx, "saved " + tag, j, op, data)
                with common.Quiet():
                    back = vIO.load_model_from_JSON(FS.path_vib_model)
                compare(ctx, "reloaded " + tag, plain(back), op, data)
                ctx.event("model_files_written")
            ctx.check(open(path).read() == op.text and os.stat(path).st_size == st.st_size, "source-modified", tag + ": the .op file changed", data)
            ctx.check(sorted(os.listdir(FS.path_es)) == ["m_vibron.op"], "stray", tag + ": extra files in the source directory", data)
            ctx.case(("op", A, N, density, style, spacing, skip, how), nontrivial=op.n > 0, sample=tag)
        # a file cut inside the frequency / energy part holds no complete model: it must not be taken for one
        cut = op.text.find("Electronic transition moments")
        at = int(rng.randint(0, cut))
        with open(path, "w") as f:
            f.write(op.text[:at] or "x")
        ctx.expect_raise(lambda: vIO.read_model_op_file(path), "truncated-accepted", "%s: a file cut at byte %d of %d was accepted" % (tag, at, len(op.text)), data)
        ctx.event("truncated_files_refused")
        ctx.drop(d)
    d = ctx.scratch()
    ctx.expect_raise(lambda: vIO.read_model_op_file(os.path.join(d, "none.op")), "missing-accepted", "a missing file was accepted")
    # the sample of the repository, decoded by an independent line scan
    sample = os.path.join(common.REPO, "tests", "test_models", "fake_vibron.op")
    if os.path.isfile(sample):
        import re
        with ctx.guard("raises", "import of the repository's sample"):
            text = open(sample).read()
            with common.Quiet():
                r = plain(vIO.read_model_op_file(sample))
            nn = 0
            for m in re.finditer(r"^(w|EH|C1|C2|C3|C4|B3|B4|A4)(\S*)\s*=\s*(\S+)\s*, ev", text, re.M):
                kind, rest, v = m.group(1), m.group(2), float(m.group(3))
                num = [int(x) - 1 for x in re.findall(r"\d+", rest)]
                if kind == "w":
                    g = [r["frequencies"][num[0]]]
                elif kind == "EH":
                    g = [r["energies"][num[0], num[1]]]
                else:
                    a, b, *j = num
                    idx = {"C1": j, "C2": j, "C3": j * 3, "C4": j * 4, "B3": [j[0], j[-1], j[-1]], "B4": [j[0]] + [j[-1]] * 3,
                           "A4": [j[0], j[0], j[-1], j[-1]]}[kind]
                    arr = r[NAMES[len(idx)]]
                    g = [arr[tuple(idx) + (a, b)], arr[tuple(idx) + (b, a)]]
                ctx.check(all(x == v for x in g), "value", "sample file: %s%s is %r instead of %r" % (kind, rest, g, v))
                nn += 1
            ctx.event("sample_coefficients", nn)
            ctx.check(text == open(sample).read(), "source-modified", "the sample .op file changed")


if __name__ == "__main__":
    common.main("C11", run, rule="distinct = (surfaces, modes, fill, number style, spacing, empty sections, entry point) with at least one coefficient",
                required=("coefficients_compared", "empty_positions_compared", "truncated_files_refused", "model_files_written", "large_models"),
                assumptions=["the files have the section order and headers of the writer (vibron); upper-triangle surface indices"])
