"""Independent reference computations (numpy + ducc0 2-D transforms).

Nothing here calls pymaster.  Curved-sky references work on an exact
equiangular (Clenshaw-Curtis) grid with N+1 rings, on which products of
total band limit <= N are integrated exactly.
"""
import numpy as np
import ducc0


# ------------------------------------------------------------------ alm tools
def nalm(lmax):
    return (lmax+1)*(lmax+2)//2


def lm_arrays(lmax):
    ls, ms = [], []
    for m in range(lmax+1):
        for l in range(m, lmax+1):
            ls.append(l)
            ms.append(m)
    return np.array(ls), np.array(ms)


def alm2cl(a, b, lmax):
    ls, ms = lm_arrays(lmax)
    w = np.where(ms == 0, 1., 2.)*np.real(a*np.conj(b))
    return np.bincount(ls, weights=w, minlength=lmax+1)/(2*np.arange(lmax+1)
                                                         + 1.)


def almxfl(alm, fl, lmax):
    ls, _ = lm_arrays(lmax)
    return alm*np.asarray(fl)[ls]


def truncate(alm, lin, lout):
    """Re-pack alm (…, nalm(lin)) to band limit lout (pad or cut)."""
    alm = np.asarray(alm)
    out = np.zeros(alm.shape[:-1] + (nalm(lout),), dtype=complex)
    i = o = 0
    for m in range(max(lin, lout)+1):
        ni = max(0, lin+1-m)
        no = max(0, lout+1-m)
        n = min(ni, no)
        if n > 0:
            out[..., o:o+n] = alm[..., i:i+n]
        i += ni
        o += no
    return out


def rand_alm(rng, lmax, lmin=0, cl=None, n=1):
    ls, ms = lm_arrays(lmax)
    a = rng.normal(size=(n, len(ls))) + 1j*rng.normal(size=(n, len(ls)))
    a /= np.sqrt(2.)
    a[:, ms == 0] = a[:, ms == 0].real*np.sqrt(2.)
    if cl is not None:
        a *= np.sqrt(np.asarray(cl))[ls]
    a[:, ls < lmin] = 0
    return a


def real_modes(lmax, lmin=0):
    """Orthonormal real modes: list of (l, alm)."""
    ls, ms = lm_arrays(lmax)
    out = []
    for i, (l, m) in enumerate(zip(ls, ms)):
        if l < lmin:
            continue
        for f in ([1.] if m == 0 else [np.sqrt(.5), 1j*np.sqrt(.5)]):
            a = np.zeros(len(ls), dtype=complex)
            a[i] = f
            out.append((l, a))
    return out


# --------------------------------------------------------------- exact CC grid
class Grid(object):
    """Full-sky grid theta_i = i*pi/N, phi_j = 2*pi*j/nphi."""
    def __init__(self, N, nphi=None):
        self.N = N
        self.nth = N+1
        self.nph = 2*N if nphi is None else nphi
        self.theta = np.arange(N+1)*np.pi/N
        self.phi = np.arange(self.nph)*2*np.pi/self.nph
        self.wth = cc_weights(N)*2*np.pi/self.nph

    def synth(self, alm, spin, lmax):
        alm = np.atleast_2d(alm)
        return ducc0.sht.synthesis_2d(
            alm=alm.astype(np.complex128), spin=spin, lmax=lmax,
            ntheta=self.nth, nphi=self.nph, geometry="CC", nthreads=1)

    def analysis(self, maps, spin, lmax, lband=None):
        """Exact coefficients up to lmax of maps with band limit lband."""
        lb = min(self.N-1, (self.nph-1)//2)
        if lband is not None:
            if lband > lb:
                raise RuntimeError("grid too coarse")
            lb = max(lband, spin)
        m = np.ascontiguousarray(np.reshape(maps, (-1, self.nth, self.nph)))
        a = ducc0.sht.analysis_2d(map=m, spin=spin, lmax=lb, geometry="CC",
                                  nthreads=1)
        return truncate(a, lb, lmax)

    def quad(self, maps, spin, lmax):
        """Ring-weighted quadrature coefficients (adjoint synthesis)."""
        m = np.asarray(maps).reshape((-1, self.nth, self.nph))
        m = m*self.wth[None, :, None]
        return ducc0.sht.adjoint_synthesis_2d(
            map=m, spin=spin, lmax=lmax, geometry="CC", nthreads=1)

    def integral(self, m):
        return np.sum(m*self.wth[:, None])


def cc_weights(N):
    """Clenshaw-Curtis weights in cos(theta) for theta_i=i*pi/N."""
    th = np.arange(N+1)*np.pi/N
    # moments of Chebyshev polynomials: int T_k = 2/(1-k^2) for even k
    k = np.arange(0, N+1)
    mom = np.where(k % 2 == 0, 2./(1.-k**2.+(k == 1)), 0.)
    # w_i solves sum_i w_i cos(k th_i) = mom_k
    # closed form by DCT-I
    c = np.ones(N+1)
    c[0] = c[-1] = .5
    w = np.zeros(N+1)
    for i in range(N+1):
        w[i] = c[i]*2./N*np.sum(c*mom*np.cos(k*th[i]))
    return w


# ------------------------------------------------------------ mode coupling
_w3j_cache = {}


def w3j(l2, l3, m2, m3, l1max):
    """3j(l1 l2 l3; -m2-m3 m2 m3) for l1=0..l1max (ducc0 implementation)."""
    k = (l2, l3, m2, m3)
    if k not in _w3j_cache:
        if abs(m2) > l2 or abs(m3) > l3:
            _w3j_cache[k] = (0, np.zeros(0))
        else:
            l1min, arr = ducc0.misc.wigner3j_int(l2, l3, m2, m3)
            _w3j_cache[k] = (int(l1min), np.array(arr))
    l1min, arr = _w3j_cache[k]
    out = np.zeros(max(l1max, l2+l3)+1)
    out[l1min:l1min+len(arr)] = arr
    return out[:l1max+1]


def xi_kernels(pcl, s1, s2, lmax, lmax_mask=None):
    """X+-[l,l'] = sum_l1 (2l1+1)/(4pi) pcl (s1 3j)(s2 3j) [even|odd sum]."""
    L = len(pcl)-1
    l1 = np.arange(L+1)
    pw = pcl*(2*l1+1)/(4*np.pi)
    xp = np.zeros((lmax+1, lmax+1))
    xm = np.zeros((lmax+1, lmax+1))
    for a in range(lmax+1):
        for b in range(a, lmax+1):
            t = pw*w3j(a, b, s1, -s1, L)*w3j(a, b, s2, -s2, L)*(-1)**(s1+s2)
            od = (a+b+l1) % 2 == 1
            xp[a, b] = xp[b, a] = np.sum(t[~od])
            xm[a, b] = xm[b, a] = np.sum(t[od])
    return xp, xm


def mcm(pcl, s1, s2, lmax, teb=False):
    """Analytic mode-coupling matrix, index l*ncls+i."""
    lfac = (2*np.arange(lmax+1)+1)[None, :]
    if teb:
        s = max(s1, s2)
        blocks = [(0, 0, 1, [0]), (0, s, 2, [1, 2]),
                  (s, s, 4, [3, 4, 5, 6])]
        M = np.zeros((7*(lmax+1), 7*(lmax+1)))
        for a, b, n, idx in blocks:
            sub = mcm(pcl, a, b, lmax)
            for i in range(n):
                for j in range(n):
                    M[idx[i]::7, idx[j]::7] = sub[i::n, j::n]
        return M
    if s1 == 0 and s2 == 0:
        xp, xm = xi_kernels(pcl, 0, 0, lmax)
        return (xp+xm)*lfac
    if s1 == 0 or s2 == 0:
        s = max(s1, s2)
        xp, xm = xi_kernels(pcl, 0, s, lmax)
        m = (xp+xm)*lfac
        M = np.zeros((2*(lmax+1), 2*(lmax+1)))
        M[0::2, 0::2] = m
        M[1::2, 1::2] = m
        return M
    xp, xm = xi_kernels(pcl, s1, s2, lmax)
    p, q = xp*lfac, xm*lfac
    M = np.zeros((4*(lmax+1), 4*(lmax+1)))
    M[0::4, 0::4] = p
    M[0::4, 3::4] = q
    M[1::4, 1::4] = p
    M[1::4, 2::4] = -q
    M[2::4, 2::4] = p
    M[2::4, 1::4] = -q
    M[3::4, 3::4] = p
    M[3::4, 0::4] = q
    return M


def response(A1, A2, ells, lmax):
    """Mean pseudo-spectrum response from per-mode output coefficients.

    A1[i][c] -> list over output comps of alm, for real mode i (multipole
    ells[i]) placed in input component c.  Returns matrix l*ncls+(a,b).
    """
    nc1, nc2 = len(A1[0]), len(A2[0])
    no1, no2 = len(A1[0][0]), len(A2[0][0])
    n = no1*no2
    M = np.zeros((n*(lmax+1), nc1*nc2*(lmax+1)))
    ls, ms = lm_arrays(lmax)
    wt = np.where(ms == 0, 1., 2.)/(2*ls+1.)
    for i, l in enumerate(ells):
        for c in range(nc1):
            for d in range(nc2):
                for a in range(no1):
                    for b in range(no2):
                        cl = np.bincount(
                            ls, weights=wt*np.real(
                                A1[i][c][a]*np.conj(A2[i][d][b])),
                            minlength=lmax+1)
                        M[(a*no2+b)::n, l*nc1*nc2+c*nc2+d] += cl
    return M


def _w3j_any(l2, l3, m2, m3, n):
    """As w3j, without keeping the result (large multipoles)."""
    out = np.zeros(n)
    if abs(m2) > l2 or abs(m3) > l3 or abs(m2+m3) > l2+l3:
        return out
    l1min, arr = ducc0.misc.wigner3j_int(l2, l3, m2, m3)
    l1min = int(l1min)
    k = min(len(arr), n-l1min)
    if k > 0:
        out[l1min:l1min+k] = arr[:k]
    return out


def spin_kernel(l2, l3, s, pure, n):
    """Mode-coupling amplitude of one field, for mask multipoles < n.

    A purified component of a spin-2 field projects the masked field on
    derivatives of a scalar harmonic: the mask's spin-1 and spin-2
    derivatives enter besides the mask itself.
    """
    k = _w3j_any(l2, l3, s, -s, n)
    if pure and l2 > 1:
        l1 = np.arange(n, dtype=float)
        d1 = l1*(l1+1)
        d2 = d1*np.clip((l1+2)*(l1-1), 0, None)
        n1 = (l2+2.)*(l2-1.)
        n2 = n1*l2*(l2+1.)
        k = k + 2*np.sqrt(d1/n1)*_w3j_any(l2, l3, 1, -2, n) \
            + np.sqrt(d2/n2)*_w3j_any(l2, l3, 0, -2, n)
    return k


def mcm_block(pcl, s1, p1, s2, p2, l2, l3):
    """Block (output comps at l2, input comps at l3) of the matrix."""
    n = len(pcl)
    l1 = np.arange(n)
    pw = pcl*(2*l1+1)/(4*np.pi)*(-1)**(s1+s2)*(2*l3+1)
    odd = (l1+l2+l3) % 2 == 1

    def kern(s, p):
        if s == 0:
            return [_w3j_any(l2, l3, 0, 0, n)]
        ks = [spin_kernel(l2, l3, s, q, n) for q in sorted(set(p))]
        return [ks[sorted(set(p)).index(q)] for q in p]
    k1, k2 = kern(s1, p1), kern(s2, p2)
    n1, n2 = len(k1), len(k2)
    out = np.zeros((n1*n2, n1*n2))
    for a in range(n1):
        for b in range(n2):
            t = pw*k1[a]*k2[b]
            out[a*n2+b, a*n2+b] = np.sum(t[~odd])
            if n1 == n2 == 2:
                sg = 1 if a == b else -1
                out[a*2+b, (1-a)*2+(1-b)] = sg*np.sum(t[odd])
    return out
