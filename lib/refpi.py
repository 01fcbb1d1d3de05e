"""Independent reference for the discretised path-integral weights and partition functions.

Written from the formulas of the method (arXiv:1805.05971: eqs. 26-49), in log space, without
using any code of the repository.  Models are plain dicts: A, N, E, w, lin, quad (numpy arrays);
coupled: E (A,A), lin (N,A,A), quad (N,N,A,A);  diagonal: E (A,), lin (N,A).
"""
import numpy as np

KB = 1.38064852e-23 / 1.6021766208e-19  # eV / K
DBETA = 2.0e-4


def beta_of(T):
    return 1.0 / (KB * T)


def _logO(R, E, w, lin, tau):
    """log of the displaced oscillator propagators, R (X,N,P); E (A,), lin (N,A) -> (X,P,A)"""
    X, N, P = R.shape
    A = len(E)
    th = tau * w
    coth, csch = 1 / np.tanh(th), 1 / np.sinh(th)
    out = np.empty((X, P, A))
    for a in range(A):
        d = -lin[:, a] / w
        delta = -0.5 * np.sum(lin[:, a] ** 2 / w)
        q = R - d[None, :, None]
        q2 = np.concatenate([q[:, :, 1:], q[:, :, :1]], axis=2)
        s = coth[None, :, None] * (q ** 2 + q2 ** 2) - 2 * csch[None, :, None] * q * q2
        out[:, :, a] = -tau * (E[a] + delta) + 0.5 * np.sum(np.log(csch)) - 0.5 * s.sum(axis=1)
    return out


def coupling(R, m):
    """V (X,P,A,A): off-diagonal energies, off-diagonal linear, all quadratic"""
    X, N, P = R.shape
    A = m["A"]
    off = 1.0 - np.eye(A)
    V = np.zeros((X, P, A, A))
    V += (m["E"] * off)[None, None]
    for i in range(N):
        V += R[:, i, :, None, None] * (m["lin"][i] * off)[None, None]
    for i in range(N):
        for j in range(N):
            if np.any(m["quad"][i, j]):
                V += 0.5 * (R[:, i, :] * R[:, j, :])[:, :, None, None] * m["quad"][i, j][None, None]
    return V


def g_weights(R, m, tau):
    """returns sign (X,), log|g| (X,), log of the 'absolute' trace (X,) as scale for rounding"""
    X, N, P = R.shape
    A = m["A"]
    Ed = np.diag(m["E"]).copy()
    lind = np.stack([np.diag(m["lin"][i]) for i in range(N)]) if N else np.zeros((0, A))
    lo = _logO(R, Ed, m["w"], lind, tau)
    V = coupling(R, m)
    ev, U = np.linalg.eigh(V)
    le = -tau * ev                                     # logs of eigenvalues of M
    shift = le.max(axis=2)                              # (X,P)
    M = np.einsum("xpab,xpb,xpcb->xpac", U, np.exp(le - shift[..., None]), U)
    lsh = lo.max(axis=2)
    O = np.exp(lo - lsh[..., None])
    tot = shift.sum(axis=1) + lsh.sum(axis=1)
    prod = np.broadcast_to(np.eye(A), (X, A, A)).copy()
    aprod = prod.copy()
    lscale = np.zeros(X)
    for p in range(P):
        K = M[:, p] * O[:, p, None, :]
        prod = np.einsum("xab,xbc->xac", prod, K)
        aprod = np.einsum("xab,xbc->xac", aprod, np.abs(K))
        s = np.abs(aprod).max(axis=(1, 2))
        s[s == 0] = 1.0
        prod /= s[:, None, None]
        aprod /= s[:, None, None]
        lscale += np.log(s)
    tr = np.trace(prod, axis1=1, axis2=2)
    atr = np.trace(aprod, axis1=1, axis2=2)
    with np.errstate(divide="ignore"):
        return np.sign(tr), np.log(np.abs(tr)) + lscale + tot, np.log(atr) + lscale + tot


def rho_log(R, m, tau, per_state=False):
    """log rho(R) of a diagonal model (quadratic terms are not part of the sampling distribution)"""
    ls = _logO(R, m["E"], m["w"], m["lin"], tau).sum(axis=1)   # (X,A)
    mx = ls.max(axis=1, keepdims=True)
    tot = (mx[:, 0] + np.log(np.exp(ls - mx).sum(axis=1)))
    return (tot, ls) if per_state else tot


def rho_state_weights(m, beta):
    e = m["E"] - 0.5 * (m["lin"] ** 2 / m["w"][:, None]).sum(axis=0)
    x = -beta * (e - e.min())
    p = np.exp(x)
    return p / p.sum()


def ring_covariance(w, tau, P):
    """bead covariance (P,P) of one mode for the state-conditional Gaussian"""
    th = tau * w
    coth, csch = 1 / np.tanh(th), 1 / np.sinh(th)
    K = np.zeros((P, P))
    for p in range(P):
        K[p, p] += 2 * coth
        K[p, (p + 1) % P] -= csch
        K[(p + 1) % P, p] -= csch
    return np.linalg.inv(K)


def transfer_Z(m, tau, P, pts, h):
    """log of the integral over all paths of g(R) for a one-mode coupled model, by transfer matrix
    on a uniform grid (spectrally accurate for these Gaussians)"""
    A = m["A"]
    x = pts
    n = len(x)
    w = m["w"][0]
    th = tau * w
    coth, csch = 1 / np.tanh(th), 1 / np.sinh(th)
    K = np.zeros((n, A, n, A))
    R = x[None, None, :].reshape(1, 1, n)
    V = coupling(R.reshape(1, 1, n), m)[0]              # (n,A,A)
    ev, U = np.linalg.eigh(V)
    M = np.einsum("pab,pb,pcb->pac", U, np.exp(-tau * ev), U)
    for b in range(A):
        lin = m["lin"][0, b, b]
        d = -lin / w
        delta = -0.5 * lin ** 2 / w
        q = x - d
        lo = -tau * (m["E"][b, b] + delta) + 0.5 * np.log(csch) \
            - 0.5 * (coth * (q[:, None] ** 2 + q[None, :] ** 2) - 2 * csch * q[:, None] * q[None, :])
        O = np.exp(lo)
        for a in range(A):
            K[:, a, :, b] = M[:, a, b][:, None] * O
    K = K.reshape(n * A, n * A) * h
    ev = np.linalg.eigvals(K)
    big = np.abs(ev).max()
    s = np.sum((ev / big) ** P).real
    return np.log(abs(s)) + P * np.log(big), np.sign(s)


def rho_logZ(m, tau, P):
    """log of the integral over all paths of rho(R) (same normalisation as g): exact"""
    A, N = m["A"], m["N"]
    e = m["E"] - 0.5 * (m["lin"] ** 2 / m["w"][:, None]).sum(axis=0)
    out = 0.0
    for n in range(N):
        th = tau * m["w"][n]
        csch = 1 / np.sinh(th)
        C = ring_covariance(m["w"][n], tau, P)
        sgn, ld = np.linalg.slogdet(C)
        out += 0.5 * P * np.log(csch) + 0.5 * P * np.log(2 * np.pi) + 0.5 * ld
    x = -tau * P * e
    return out + x.max() + np.log(np.exp(x - x.max()).sum())
