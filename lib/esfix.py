"""Generated outputs of the external electronic-structure programs, and inputs of a workflow."""
import os

ACES_DONE = " The ACES2 program has completed successfully in      12.34 seconds."
WORDS = ["energy", "SCF", "convergence", "iteration", "density", "matrix", "@CHECKOUT-I,", "total", "-155.0345", "0.0001", "symmetry", "A1", "B2",
         "orbital", "state", "1.2345", "gradient", "nuclear", "repulsion", "Summary", "of", "---", "coordinates", "="]


def noise(rng, n, words=WORDS):
    out = []
    for _ in range(n):
        if rng.rand() < 0.2:
            out.append("")
        else:
            out.append(" " * int(rng.randint(0, 6)) + "  ".join(str(x) for x in rng.choice(words, rng.randint(1, 7))))
    return out


def done_tail(rng, back=None):
    """lines that end a successful program output; the marker is `back` lines before the end"""
    back = int(rng.randint(0, 6)) if back is None else back
    return [ACES_DONE] + noise(rng, back, ["@CHECKOUT-I,", "Total", "execution", "time", "0.12"])


def internal_coords(rng, natoms):
    """names and values of internal coordinates of a molecule with natoms atoms"""
    names = []
    for i in range(1, natoms):
        names.append("R%d" % i)
        if i > 1:
            names.append("A%d" % (i - 1))
        if i > 2:
            names.append("D%d" % (i - 2))
    return names


def zmat_internal(rng, natoms, values=None):
    names = internal_coords(rng, natoms)
    L = ["molecule %d" % rng.randint(100)]
    used = iter(names)
    for i in range(natoms):
        row = str(rng.choice(["C", "H", "O", "N", "X"]))
        if i >= 1:
            row += " %d %s*" % (1, next(used))
        if i >= 2:
            row += " %d %s*" % (2, next(used))
        if i >= 3:
            row += " %d %s*" % (3, next(used))
        L.append(row)
    vals = {n: "%.6f" % rng.uniform(0.5, 179) for n in names} if values is None else values
    return "\n".join(L) + "\n\n" + "".join("%s=%s\n" % kv for kv in vals.items()), vals


def zmat_cartesian(rng, natoms, title=1):
    L = ["title line %d" % rng.randint(1000) for _ in range(title)]
    atoms = [str(rng.choice(["C", "H", "O", "N"])) for _ in range(natoms)]
    for a in atoms:
        L.append("%s %.6f %.6f %.6f" % ((a,) + tuple(rng.uniform(-3, 3, 3))))
    return "\n".join(L) + "\n", atoms


def opt_output(rng, kind, rows, before=20, after=20, tail=True):
    """rows: list of (name, value) for internal, (atom, x, y, z) for cartesian.  -> (text, offset just after the table)"""
    L = noise(rng, before)
    L.append(str(rng.choice(["", "  ", " @GEOMOUT: "])) + ("Summary of optimized internal coordinates" if kind == "internal" else "Summary of optimized Cartesian coordinates (Ang)"))
    L.append(" (Angstroms and degrees)" if kind == "internal" else " --------------------")
    for r in rows:
        if kind == "internal":
            L.append("%s%s%s=%s%s%s" % (" " * int(rng.randint(0, 9)), r[0], " " * int(rng.randint(0, 4)), " " * int(rng.randint(0, 6)), r[1], " " * int(rng.randint(0, 3))))
        else:
            L.append(" " * int(rng.randint(0, 9)) + (" " * int(rng.randint(1, 6))).join(r) + " " * int(rng.randint(0, 3)))
    table_end = len("\n".join(L) + "\n")
    L.append("")
    L += ["  Frequencies of the updated Hessian at convergence"] + noise(rng, after)
    if tail:
        L += done_tail(rng)
    return "\n".join(L) + "\n", table_end


def scf_output(rng, evs, virtual=3, before=15, after=15, tail=True):
    L = noise(rng, before)
    L += ["    ORBITAL EIGENVALUES (ALPHA)  (1H = 27.2113957 eV)", "", "       MO #        E(hartree)               E(eV)           FULLSYM    COMPSYM", "       ----   --------------------   --------------------   -------    ---------"]
    for i, e in enumerate(evs):
        L.append("   %3d   %3d    %18.10f    %s      A1    A1 (%d)" % (i + 1, rng.randint(1, 30), float(e) / 27.2113957, e, i + 1))
    L.append(" +++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++")
    table_end = len("\n".join(L) + "\n")
    for i in range(virtual):
        L.append("   %3d   %3d    %18.10f    %18.10f      A1    A1 (1)" % (len(evs) + i + 1, i, rng.uniform(0, 1), rng.uniform(0, 9)))
    L += noise(rng, after)
    if tail:
        L += done_tail(rng)
    return "\n".join(L) + "\n", table_end


def ip_output(rng, singles, before=15, after=15, tail=True, ending=None):
    L = noise(rng, before)
    L += ["   Summary of ionization-potential eom-cc calculation", "", "   ------------------------------------------------------------------",
          "     Sym.   Root   IP (eV)       Total energy     %singles     %doubles   ", "   ------------------------------------------------------------------"]
    # marker line + 4 header lines, then the rows
    for i, s in enumerate(singles):
        L.append("     [%d]     %d     %.6f    %.10f   %s    %.2f" % (rng.randint(1, 5), i + 1, rng.uniform(8, 25), rng.uniform(-200, -50), s, 100 - float(s)))
    ending = str(rng.choice(["", "dash"])) if ending is None else ending
    L.append("   ------------------------------------------------------------------" if ending == "dash" else "")
    table_end = len("\n".join(L) + "\n")
    L += noise(rng, after)
    if tail:
        L += done_tail(rng)
    return "\n".join(L) + "\n", table_end


def heff_file(rng, marker="HEFF_IP2", before=10, after=20):
    """-> (text, text that has to remain)"""
    head = ["  HEFF_0  %d" % rng.randint(99)] + noise(rng, before)
    rest = ["%s%s   %d" % (" " * int(rng.randint(0, 5)), marker, rng.randint(99))] + noise(rng, after) + ["  %s again" % marker] + noise(rng, after)
    return "\n".join(head + rest) + "\n", "\n".join(rest) + "\n"


def vibron_input(rng, before=8, after=8):
    """-> (text, function nip -> expected text)"""
    a, b = noise(rng, before), noise(rng, after)
    pre = "\n".join(a) + "\n   nstates = "
    post = "   , next\n" + "\n".join(b) + "\n"
    return pre + "xxx   " + post, lambda nip: pre + ("%6s" % "{:,d}".format(nip)) + post


def vibron_output(rng, ok=True, back=2):
    return "\n".join(noise(rng, 30) + (["  All done in main_vibron"] if ok else ["  stopped"]) + noise(rng, back)) + "\n"


def params_text(rng, basis, theory, calculation="IP"):
    items = [("basis", basis), ("theory", theory), ("calculation", calculation)]
    rng.shuffle(items)
    out = "# parameters\n" if rng.rand() < 0.5 else ""
    for k, v in items:
        out += "%s\n%s\n" % (k, v)
        if rng.rand() < 0.4:
            out += "\n"
        if rng.rand() < 0.3:
            out += "# comment\n"
    return out


def write(path, text):
    with open(path, "w") as f:
        f.write(text)
    return path
