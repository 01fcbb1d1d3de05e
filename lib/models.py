"""Random models (plain dicts, see refpi) and conversion to the repository's model files."""
import json
import os
import numpy as np

KEYS = dict(N="number of modes", A="number of surfaces", E="energies", w="frequencies",
            lin="linear couplings", quad="quadratic couplings", cub="cubic couplings",
            quar="quartic couplings")


def sym(x):
    """symmetrise the last two axes"""
    return 0.5 * (x + np.swapaxes(x, -1, -2))


def coupled(rng, A, N, lin_scale=1.0, quad_scale=0.0, e_off=0.05, e_range=0.3, w_range=(0.05, 0.25),
            lin_off=0.3):
    w = np.sort(rng.uniform(*w_range, size=N))
    E = sym(rng.uniform(-e_off, e_off, size=(A, A)))
    E[np.arange(A), np.arange(A)] = rng.uniform(0, e_range, size=A)
    lin = sym(rng.uniform(-1, 1, size=(N, A, A))) * w[:, None, None] * lin_scale
    off = 1 - np.eye(A)
    lin = np.where(off[None] > 0, lin * lin_off, lin)
    quad = np.zeros((N, N, A, A))
    if quad_scale:
        q = rng.uniform(-1, 1, size=(N, N, A, A)) * quad_scale
        q = sym(q)
        q = 0.5 * (q + q.transpose(1, 0, 2, 3))
        quad = q * np.sqrt(w[:, None] * w[None, :])[:, :, None, None]
    return dict(A=A, N=N, E=E, w=w, lin=lin, quad=quad)


def diagonal_of(m):
    return dict(A=m["A"], N=m["N"], E=np.diag(m["E"]).copy(), w=m["w"].copy(),
                lin=np.stack([np.diag(m["lin"][i]) for i in range(m["N"])]),
                quad=np.einsum("ijaa->ija", m["quad"]).copy())


def diagonal(rng, A, N, w=None, lin_scale=1.0, e_range=0.3, w_range=(0.05, 0.25)):
    w = np.sort(rng.uniform(*w_range, size=N)) if w is None else np.array(w)
    return dict(A=A, N=N, E=rng.uniform(0, e_range, size=A), w=w,
                lin=rng.uniform(-1, 1, size=(N, A)) * w[:, None] * lin_scale,
                quad=np.zeros((N, N, A)))


def write_json(path, m, drop_zero=True):
    """write a model file by hand (does not use the repository's writer)"""
    d = {KEYS["N"]: int(m["N"]), KEYS["A"]: int(m["A"])}
    for k in ("E", "w", "lin", "quad", "cub", "quar"):
        if k in m and m[k] is not None and (np.any(m[k]) or not drop_zero):
            d[KEYS[k]] = np.asarray(m[k]).tolist()
    with open(path, "w", encoding="UTF8") as f:
        f.write(json.dumps(d))
    return path
