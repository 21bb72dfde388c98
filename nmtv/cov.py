"""Reference Gaussian covariances (shared by the curved and flat checks)."""
import itertools

import numpy as np

from . import ref


def kernels(pcl, lmax):
    """Coupling kernels of a mask-product spectrum, keys 00 02 22p 22m."""
    a, b = ref.xi_kernels(pcl, 0, 0, lmax)
    c, d = ref.xi_kernels(pcl, 0, 2, lmax)
    p, m = ref.xi_kernels(pcl, 2, 2, lmax)
    return {"00": a+b, "02": c+d, "22p": p, "22m": m}


def pair(nx, ny, i, ip, j, jp):
    """Response of <x_i y_j> to C^{x_i' y_j'}: (kind, sign).

    kind '0' scalar window, 'P' parity-preserving spin-2 window, 'M'
    parity-mixing one.
    """
    if nx == 1 or ny == 1:
        return ("0", 1) if (i == ip and j == jp) else None
    if i == ip and j == jp:
        return ("P", 1)
    if i != ip and j != jp:
        return None
    if i != ip:       # first index rotated
        return ("M", 1 if i == 0 else -1)
    return ("M", -1 if j == 0 else 1)


def combine(K, p, q):
    if p is None or q is None:
        return None
    k = p[0]+q[0]
    if k == "00":
        return K["00"]
    if k in ("0P", "P0"):
        return K["02"]
    if k == "PP":
        return K["22p"]
    if k == "MM":
        return -p[1]*q[1]*K["22m"]
    return None


def contraction(K1, K2, nm, cac, cad, cbc, cbd, sym):
    """Coupled covariance [icl_a, icl_b, x, y] of (a,b) with (c,d).

    K1/K2: kernels of (ac)(bd) and (ad)(bc).  sym(u, v) -> symmetrised outer
    product of two spectra on the (x, y) grid.
    """
    na, nb, nc, nd = nm
    n = len(next(iter(K1.values())))
    out = np.zeros((na*nb, nc*nd, n, n))
    for a, b, c, d in itertools.product(range(na), range(nb), range(nc),
                                        range(nd)):
        o = out[a*nb+b, c*nd+d]
        for e, f, g, h in itertools.product(range(na), range(nb), range(nc),
                                            range(nd)):
            k = combine(K1, pair(na, nc, a, e, c, g), pair(nb, nd, b, f, d,
                                                           h))
            if k is not None:
                o += k*sym(cac[g+nc*e], cbd[h+nd*f])
            k = combine(K2, pair(na, nd, a, e, d, h), pair(nb, nc, b, f, c,
                                                           g))
            if k is not None:
                o += k*sym(cad[h+nd*e], cbc[g+nc*f])
    return out


def sym_curved(u, v):
    return .5*(np.outer(u, v)+np.outer(v, u))


def flat2(c):
    """[ia, ib, x, y] -> matrix (x*na+ia, y*nb+ib)."""
    na, nb, n, m = c.shape
    return c.transpose(2, 0, 3, 1).reshape(n*na, m*nb)


def toeplitz(E, lt, le, db):
    """Approximate symmetric kernel from the exact one."""
    n = len(E)
    lmax = n-1
    D = np.abs(np.diag(E))
    A = np.zeros_like(E)
    for i in range(n):
        for j in range(i+1):
            d = i-j
            if j <= le or d == 0 or (j <= lt and d <= db):
                A[i, j] = E[i, j]
            else:
                c = le if lt+d >= lmax else lt
                den = D[c]*D[c+d]
                A[i, j] = E[c+d, c]*np.sqrt(D[i]*D[j]/den) if den > 0 else 0
            A[j, i] = A[i, j]
    return A
