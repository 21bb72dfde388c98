"""C16: simulated maps have the requested spectra and obey the seed."""
import ctypes
import random

import numpy as np
from scipy import stats

from nmtv import gen, ref, rt, world

RULE = ("Simulations of 1-3 fields of random spins with random full "
        "covariances per multipole on HEALPix, CAR (any storage order) and "
        "flat maps of unequal sides. Coefficients recovered exactly from "
        "the maps are whitened with the requested covariance and tested "
        "per multipole and component pair (exact chi-square and normal "
        "tail probabilities below 1e-10); rank-one, single-multipole, "
        "scaled and smoothed requests are compared deterministically; "
        "seeds are repeated, varied and run on different thread counts.")
ASSUMPTIONS = ["ducc0 2-D and healpy analysis recover the coefficients",
               "for fields with spin, Nyquist modes of even flat maps are "
               "excluded, and the mean of odd-spin flat maps",
               "statistical monitors: tail probability 1e-10 per test"]
MIN_EVENTS = {"simulations": 100, "statistical tests": 500,
              "deterministic spectra": 20, "seed comparisons": 40,
              "modes": 10000}
QUICK_ROUNDS = 6
CONFIGS = {"one": {"variant": "shim", "weight": 1,
                   "env": {"NMTV_OMP_THREADS": "1"}},
           "four": {"variant": "shim", "weight": 1,
                    "env": {"NMTV_OMP_THREADS": "4", "NMTV_OMP_PERM": "1",
                            "NMTV_OMP_SEED": "3"}}}
PTAIL = 1e-10


def cases(seed, tier):
    r = random.Random("C16-%d" % seed)
    n = 500 if tier == "thorough" else 110
    k = ["stat", "fstat", "stat", "fstat", "det", "fdet", "seeds", "fseeds",
         "errors", "lmax"]
    return [dict(kind=k[i % len(k)], seed=r.randrange(1 << 30),
                 cfg=r.choice(["one", "four"])) for i in range(n)]


def run(c, M):
    import pymaster as nmt
    rng = gen.rng_of(c)
    globals()["k_"+c["kind"]](nmt, M, rng)


def spins(rng):
    n = int(rng.choice([1, 1, 2, 2, 3]))
    return [int(rng.choice([0, 0, 0, 1, 2, 2, 2, 3, 4])) for _ in range(n)]


def nmaps(sp):
    return sum(2 if s else 1 for s in sp)


def upper(C):
    """(L, n, n) -> list of spectra in the documented order."""
    n = C.shape[1]
    return np.array([C[:, i, j] for i in range(n) for j in range(i, n)])


def rand_cov(rng, L, n, smooth=False):
    C = np.zeros((L, n, n))
    A0 = rng.normal(size=(n, n))
    A1 = rng.normal(size=(n, n))
    for l in range(L):
        A = A0+A1*l/L if smooth else rng.normal(size=(n, n))
        C[l] = A @ A.T+.2*np.eye(n)
        C[l] *= 10.**(-1.5*l/L)
    return C


class CurvedSim(object):
    def __init__(self, rng, L=None):
        self.hpx = rng.random() < .3
        self.spin = spins(rng)
        self.n = nmaps(self.spin)
        if self.hpx:
            self.nside = int(rng.choice([8, 16]))
            self.L = L or int(rng.integers(4, self.nside//2+3))
            self.wcs = None
            self.npix = 12*self.nside**2
        else:
            N = int(rng.choice([8, 9, 12, 16]))
            self.g = ref.Grid(N, int(rng.choice([2*N, 2*N+1])))
            self.st = gen.rand_stored(rng, self.g)
            self.wcs = self.st.wcs()
            self.L = L or int(rng.integers(4, N))
            self.nside = -1

    def sim(self, nmt, M, cls, seed, beam=None, **kw):
        kw.setdefault("lmax", self.L)
        m = nmt.synfast_spherical(self.nside, cls, self.spin, beam=beam,
                                  seed=seed, wcs=self.wcs, **kw)
        M.seen("simulations")
        want = (self.n, self.npix) if self.hpx else \
            (self.n, self.g.nth, self.g.nph)
        if m.shape != want:
            M.fail("shape", "%s, expected %s" % (m.shape, want))
            raise rt.Abort()
        return m

    def alms(self, m):
        out = []
        i = 0
        for s in self.spin:
            k = 2 if s else 1
            if self.hpx:
                sky = world.Sky(np.random.default_rng(0), pix="hpx")
                sky.nside, sky.npix = self.nside, self.npix
                sky.shape = (self.npix,)
                a = world.Trans(sky).analysis(m[i:i+k], s, self.L, 12)
            else:
                a = ref.truncate(self.g.analysis(
                    self.st.unstore(m[i:i+k]), s, self.L), self.L, self.L)
            out.extend(list(a))
            i += k
        return np.array(out)

    def lmin(self):
        return np.array([s for s in self.spin for _ in range(2 if s else 1)])


def real_parts(a, L):
    """Unit-variance real modes of unit-spectrum alm: values and (l, m)."""
    ls, ms = ref.lm_arrays(L)
    p = ms > 0
    return (np.concatenate([a[:, ~p].real, np.sqrt(2)*a[:, p].real,
                            np.sqrt(2)*a[:, p].imag], axis=1),
            np.concatenate([ls[~p], ls[p], ls[p]]),
            np.concatenate([ms[~p], ms[p], -ms[p]]))


def chi2_ok(M, key, w, msg):
    """Sum of squares of unit normals."""
    M.seen("statistical tests")
    n = w.size
    if n == 0:
        return
    s = np.sum(w**2)
    p = min(stats.chi2.cdf(s, n), stats.chi2.sf(s, n))
    M.true(key, p > PTAIL, "variance %.4g of the requested one over %d "
           "modes (p=%.1e). %s" % (s/n, n, p, msg))


def corr_ok(M, key, u, v, msg):
    """Independent unit normals: (u+v)/sqrt2 and (u-v)/sqrt2 are unit too."""
    chi2_ok(M, key, (u+v)/np.sqrt(2), msg)
    chi2_ok(M, key, (u-v)/np.sqrt(2), msg)


def white_tests(M, key, W, groups, msg):
    """W: (ncomp, nmodes) whitened; groups: labels per mode."""
    n = len(W)
    M.seen("modes", W.size)
    for name, lab in groups.items():
        for g in np.unique(lab):
            s = lab == g
            for i in range(n):
                chi2_ok(M, key, W[i, s], "component %d, %s %s. %s"
                        % (i, name, g, msg))
                for j in range(i):
                    corr_ok(M, key, W[i, s], W[j, s],
                            "components %d %d, %s %s. %s"
                            % (i, j, name, g, msg))
    for i in range(n):
        z = np.sum(W[i])/np.sqrt(W.shape[1])
        M.seen("statistical tests")
        M.true(key, 2*stats.norm.sf(abs(z)) > PTAIL, "mean %g sigma" % z)


def k_stat(nmt, M, rng):
    S = CurvedSim(rng)
    C = rand_cov(rng, S.L+1, S.n)
    nf = len(S.spin)
    beam = None
    B = np.ones((S.L+1, S.n))
    if rng.random() < .5:
        beam = rng.uniform(.3, 1.5, size=(nf, S.L+1+int(rng.integers(0, 3))))
        B = np.concatenate([[b]*(2 if s else 1)
                            for b, s in zip(beam, S.spin)]).T[:S.L+1]
    M.state("stat", S.hpx, tuple(S.spin), S.L, beam is not None)
    nsim = 12
    W, lab = [], []
    lmin = S.lmin()
    hi = S.L+1
    l0 = int(lmin.max())
    sd = int(rng.integers(0, 10**6))
    cu = upper(C)
    for k in range(nsim):
        a = S.alms(S.sim(nmt, M, cu, sd+k, beam))
        x, ls, ms = real_parts(a, S.L)
        for l in range(l0, hi):
            s = ls == l
            Lc = np.linalg.cholesky(C[l]*np.outer(B[l], B[l]))
            W.append(np.linalg.solve(Lc, x[:, s]))
            lab.append(np.array([(l, abs(m)) for m in ms[s]]))
        # below the spin of a component there is nothing
        for i in range(S.n):
            lo = x[i, ls < lmin[i]]
            if lo.size:
                M.true("below-spin", np.max(np.abs(lo)) <
                       1e-6*np.max(np.abs(x[i])))
    W = np.concatenate(W, axis=1)
    lab = np.concatenate(lab)
    white_tests(M, "spectra", W, {"multipole": lab[:, 0], "order":
                                  np.minimum(lab[:, 1], 3)},
                "spins %s, %s" % (S.spin, "HEALPix" if S.hpx else "CAR"))


def k_det(nmt, M, rng):
    S = CurvedSim(rng)
    L = S.L
    ls, _ = ref.lm_arrays(L)
    l0 = int(S.lmin().max())
    M.state("det", S.hpx, tuple(S.spin), L)
    M.seen("deterministic spectra")
    sd = int(rng.integers(0, 10**6))
    tol = 1e-5 if S.hpx else 1e-6
    # fully correlated components: a_i/v_i are all the same
    v = rng.choice([-1., 1.], size=(L+1, S.n))*rng.uniform(
        .5, 2, size=(L+1, S.n))
    C = np.einsum("li,lj->lij", v, v)
    eps = 1e-12
    C += eps*np.einsum("li,ij->lij", v**2, np.eye(S.n))
    a = S.alms(S.sim(nmt, M, upper(C), sd))
    u = a/v[ls].T
    s = ls >= l0
    for i in range(1, S.n):
        M.close("correlated", u[i, s], u[0, s], rtol=10*tol)
    # scaling and smoothing act on the same realisation
    C = rand_cov(rng, L+1, S.n)
    cu = upper(C)
    m0 = S.sim(nmt, M, cu, sd)
    a0 = S.alms(m0)
    M.close("scaled", S.sim(nmt, M, 4*cu, sd), 2*m0, rtol=1e-9)
    b = rng.uniform(.2, 2, size=(len(S.spin), L+1))
    bb = np.concatenate([[x]*(2 if s else 1) for x, s in zip(b, S.spin)])
    ab = S.alms(S.sim(nmt, M, cu, sd, beam=b))
    M.close("beam", ab, a0*bb[:, ls], rtol=10*tol)
    M.close("beam-list", S.sim(nmt, M, [c for c in cu], sd,
                               beam=[x for x in b]),
            S.sim(nmt, M, cu, sd, beam=b), rtol=1e-12)
    # a single multipole
    l1 = int(rng.integers(l0, L+1))
    C1 = np.zeros_like(C)
    C1[l1] = C[l1]
    a1 = S.alms(S.sim(nmt, M, upper(C1), sd))
    M.close("single", a1*(ls != l1), 0*a1, rtol=0,
            atol=tol*np.max(np.abs(a1)))
    M.true("single-filled", np.all(np.max(np.abs(a1[:, ls == l1]), axis=1)
                                   > 0))
    # components without power stay empty
    if S.n > 1:
        k = int(rng.integers(S.n))
        C2 = C.copy()
        C2[:, k] = 0
        C2[:, :, k] = 0
        a2 = S.alms(S.sim(nmt, M, upper(C2), sd))
        M.close("empty", a2[k], 0*a2[k], rtol=0,
                atol=tol*np.max(np.abs(a2)))


def k_lmax(nmt, M, rng):
    """Which multipoles are simulated."""
    S = CurvedSim(rng)
    if S.hpx:
        S.nside = 4
        S.npix = 12*16
        pl = 11
    else:
        pl = S.g.N if 2*np.pi/S.g.nph >= np.pi/S.g.N*(1-1e-9) else \
            int(S.g.nph/2.+1e-6)
    ncl = nmaps(S.spin)*(nmaps(S.spin)+1)//2
    sd = int(rng.integers(0, 10**6))

    def cls(n):
        C = np.array([np.eye(S.n)*(1+.1*k) for k in range(n)])
        return upper(C)
    # spectra longer than needed, default lmax = that of the pixelisation
    big = cls(pl+6)
    M.state("lmax", S.hpx, tuple(S.spin), pl)
    m = S.sim(nmt, M, big, sd, lmax=None)
    M.close("lmax-default", S.sim(nmt, M, big, sd, lmax=pl), m, rtol=1e-12)
    M.close("lmax-longer", S.sim(nmt, M, big[:, :pl+1], sd, lmax=pl), m,
            rtol=1e-12)
    # shorter spectra limit the multipoles
    n = int(rng.integers(max(4, max(S.spin)+1), pl))
    M.close("lmax-short", S.sim(nmt, M, big[:, :n+1], sd, lmax=None),
            S.sim(nmt, M, big, sd, lmax=n), rtol=1e-12)
    M.true("lmax-power", np.max(np.abs(m)) > 0)
    # more multipoles than the pixels support are simulated on request
    big = cls(pl+8)
    top = int(rng.integers(pl+1, pl+8))
    big[:, :top] = 0
    M.close("lmax-below", S.sim(nmt, M, big[:, :top+1], sd, lmax=top-1),
            0*m, atol=1e-13, rtol=0)
    z = S.sim(nmt, M, big, sd, lmax=top)
    M.true("lmax-beyond-pixels", np.all(np.max(np.abs(z), axis=tuple(
        range(1, z.ndim))) > 1e-3), "no power at the requested multipole "
        "%d, beyond %d" % (top, pl))
    assert len(big) == ncl


def k_seeds(nmt, M, rng):
    S = CurvedSim(rng)
    C = upper(rand_cov(rng, S.L+1, S.n))
    seeds_common(nmt, M, rng, lambda s: S.sim(nmt, M, C, s), "curved")


def seeds_common(nmt, M, rng, sim, key):
    s1 = int(rng.choice([0, 1, 7, 12345, rng.integers(0, 2**31-1)]))
    np.random.seed(int(rng.integers(1000)))
    st0 = np.random.get_state()
    a = sim(s1)
    st1 = np.random.get_state()
    M.true(key+"-global-state", np.array_equal(st0[1], st1[1]) and
           st0[2] == st1[2], "a seeded simulation moved numpy's global "
           "generator")
    np.random.seed(int(rng.integers(1000, 2000)))
    np.random.standard_normal(int(rng.integers(1, 50)))
    M.same(key+"-seed-repeat", sim(s1), a)
    out = [a]
    for s in (s1+1, s1+2, int(rng.integers(0, 2**30))):
        b = sim(s)
        for o in out:
            M.true(key+"-seed-differs", np.max(np.abs(b-o)) >
                   1e-3*np.max(np.abs(a)), "seeds give the same map")
        out.append(b)
    r1, r2 = sim(-1), sim(-1)
    M.true(key+"-seed-random", np.max(np.abs(r1-r2)) >
           1e-3*np.max(np.abs(a)), "unseeded simulations repeat")
    M.same(key+"-seed-again", sim(s1), a)
    M.state(key, s1)
    M.seen("seed comparisons", 6)


# ------------------------------------------------------------------ flat sky
class FlatSim(object):
    def __init__(self, rng):
        self.nx, self.ny = int(rng.integers(5, 22)), int(rng.integers(5, 22))
        self.lx = rng.uniform(.2, 2.5)
        self.ly = self.lx*self.ny/self.nx*10.**rng.choice(
            [0, rng.uniform(-.5, .5)])
        self.spin = spins(rng)
        self.n = nmaps(self.spin)
        kx = 2*np.pi*np.fft.fftfreq(self.nx, self.lx/self.nx)
        ky = 2*np.pi*np.fft.fftfreq(self.ny, self.ly/self.ny)
        self.kx, self.ky = np.meshgrid(kx, ky)
        self.k = np.sqrt(self.kx**2+self.ky**2)
        self.L = int(np.ceil(self.k.max()))+2
        ok = np.ones(self.k.shape, dtype=bool)
        if any(self.spin):
            # E and B are not defined at the Nyquist frequencies
            if self.nx % 2 == 0:
                ok[:, self.nx//2] = False
            if self.ny % 2 == 0:
                ok[self.ny//2] = False
        iy, ix = np.mgrid[:self.ny, :self.nx]
        jy, jx = (-iy) % self.ny, (-ix) % self.nx
        first = (iy*self.nx+ix) < (jy*self.nx+jx)
        self.half = ok & first          # one of every conjugate pair
        self.self = ok & (iy == jy) & (ix == jx)
        if any(z % 2 for z in self.spin):
            ok[0, 0] = self.self[0, 0] = False
        self.ok = ok

    def sim(self, nmt, M, cls, seed, beam=None):
        m = nmt.synfast_flat(self.nx, self.ny, self.lx, self.ly, cls,
                             self.spin, beam=beam, seed=seed)
        M.seen("simulations")
        if m.shape != (self.n, self.ny, self.nx):
            M.fail("flat-shape", str(m.shape))
            raise rt.Abort()
        return m

    def modes(self, m):
        """Coefficients with <|a|^2> = C(k), E/B for spin fields."""
        out = []
        i = 0
        nrm = np.sqrt(self.lx*self.ly)/(self.nx*self.ny)
        ph = np.arctan2(self.ky, self.kx)
        for s in self.spin:
            if s == 0:
                out.append(np.fft.fft2(m[i])*nrm)
                i += 1
                continue
            p = np.fft.fft2(m[i]+1j*m[i+1])*nrm
            q = np.fft.fft2(m[i]-1j*m[i+1])*nrm
            sg = -(1j)**s
            e = sg*p*np.exp(1j*s*ph)
            f = sg*q*np.exp(-1j*s*ph)
            out += [(e+f)/2, (e-f)/2j]
            i += 2
        return np.array(out)

    def interp(self, cl):
        return np.interp(self.k, np.arange(self.L+1), cl)


def k_fstat(nmt, M, rng):
    S = FlatSim(rng)
    C = rand_cov(rng, S.L+1, S.n, smooth=True)
    cu = upper(C)
    beam = None
    Bk = np.ones((S.n,)+S.k.shape)
    if rng.random() < .5:
        beam = np.exp(-np.outer(rng.uniform(-.5, 2, size=len(S.spin)),
                                (np.arange(S.L+1)/S.L)**2))
        Bk = np.array([S.interp(b) for b, s in zip(beam, S.spin)
                       for _ in range(2 if s else 1)])
    M.state("fstat", tuple(S.spin), S.nx % 2, S.ny % 2, beam is not None)
    # covariance of every mode: interpolated spectra
    Ck = np.zeros(S.k.shape+(S.n, S.n))
    for i in range(S.n):
        for j in range(S.n):
            Ck[..., i, j] = S.interp(C[:, i, j])*Bk[i]*Bk[j]
    Li = np.linalg.inv(np.linalg.cholesky(Ck))
    sd = int(rng.integers(0, 10**6))
    W, kk, hx = [], [], []
    edges = np.quantile(S.k[S.half], np.linspace(0, 1, 7)[1:-1])
    nsim = 8
    lab = np.digitize(S.k[S.half], edges)
    ax = 1*(S.kx[S.half] == 0)+2*(S.ky[S.half] == 0)
    for q in range(nsim):
        a = S.modes(S.sim(nmt, M, cu, sd+q, beam))
        w = np.einsum("yxij,jyx->iyx", Li, a)
        x = w[:, S.half]*np.sqrt(2)
        W += [x.real, x.imag]
        kk += [lab, lab]
        hx += [ax, ax]
        # real modes: the mean of the map has the spectrum at k=0
        W.append(w[:, S.self].real)
        kk.append(np.full(S.self.sum(), 99))
        hx.append(np.full(S.self.sum(), 9))
    white_tests(M, "flat-spectra", np.concatenate(W, axis=1),
                {"band": np.concatenate(kk), "axis": np.concatenate(hx)},
                "spins %s, n=%dx%d l=%g,%g" % (S.spin, S.nx, S.ny, S.lx,
                                               S.ly))


def k_fdet(nmt, M, rng):
    S = FlatSim(rng)
    M.seen("deterministic spectra")
    M.state("fdet", tuple(S.spin), S.nx % 2, S.ny % 2)
    sd = int(rng.integers(0, 10**6))
    v = rng.choice([-1., 1.], size=S.n)*rng.uniform(.5, 2, size=S.n)
    # fully correlated components with the same shape
    shape = np.exp(-np.arange(S.L+1)/S.L)
    C = shape[:, None, None]*np.outer(v, v)
    a = S.modes(S.sim(nmt, M, upper(C), sd))
    u = a/v[:, None, None]
    for i in range(1, S.n):
        M.close("flat-correlated", u[i][S.ok], u[0][S.ok], rtol=1e-5)
    C = rand_cov(rng, S.L+1, S.n, smooth=True)
    cu = upper(C)
    m0 = S.sim(nmt, M, cu, sd)
    a0 = S.modes(m0)
    M.close("flat-scaled", S.sim(nmt, M, 4*cu, sd), 2*m0, rtol=1e-7)
    b = rng.uniform(.2, 2, size=(len(S.spin), S.L+1))
    bb = np.array([S.interp(x) for x, s in zip(b, S.spin)
                   for _ in range(2 if s else 1)])
    ab = S.modes(S.sim(nmt, M, cu, sd, beam=b))
    M.close("flat-beam", ab[:, S.ok], (a0*bb)[:, S.ok], rtol=1e-9)
    # spectra end where they end
    n = int(S.L//2)
    at = S.modes(S.sim(nmt, M, cu[:, :n+1], sd))
    hi = S.ok & (S.k > n+1e-9)
    lo = S.ok & (S.k <= n)
    M.close("flat-cut", at[:, hi], 0*at[:, hi], rtol=0,
            atol=1e-9*np.max(np.abs(a0)))
    M.close("flat-cut-kept", at[:, lo], a0[:, lo], rtol=1e-7)


def k_fseeds(nmt, M, rng):
    S = FlatSim(rng)
    C = upper(rand_cov(rng, S.L+1, S.n, smooth=True))
    seeds_common(nmt, M, rng, lambda s: S.sim(nmt, M, C, s), "flat")
    # the same map on any number of threads in any order
    import _nmtlib
    lib = ctypes.CDLL(_nmtlib.__file__)
    lib.nmtv_omp_config.argtypes = [ctypes.c_int, ctypes.c_ulonglong,
                                    ctypes.c_int, ctypes.c_int]
    s = int(rng.integers(0, 10**6))
    lib.nmtv_omp_config(1, 0, 0, 0)
    a = S.sim(nmt, M, C, s)
    for t in (2, 3, 5):
        lib.nmtv_omp_config(t, int(rng.integers(1, 1000)), 1, 1)
        M.same("flat-threads", S.sim(nmt, M, C, s), a)
        M.seen("seed comparisons")
    lib.nmtv_omp_config(2, 1, 0, 0)


def k_errors(nmt, M, rng):
    n = 4
    c = np.ones((3, 12))
    sf = nmt.synfast_spherical
    ff = nmt.synfast_flat
    one = np.ones((1, 12))
    M.raises("ncls", lambda: sf(n, c, [0]))
    M.raises("ncls2", lambda: sf(n, c, [0, 2]))
    M.raises("spin", lambda: sf(n, c, [-2]))
    M.raises("nbeam", lambda: sf(n, c, [0, 0], beam=one))
    M.raises("beamlen", lambda: sf(n, c, [0, 0], beam=np.ones((2, 8))))
    for k in (0, 1):      # any of the beams may be too short
        bm = [np.ones(12), np.ones(12)]
        bm[k] = np.ones(8)
        M.raises("beamlen-%d" % k, lambda: sf(n, c, [0, 0], beam=bm))
    M.raises("nside", lambda: sf(5, one, [0]))
    g = ref.Grid(8)
    st = gen.rand_stored(rng, g)
    w = st.wcs()
    w.wcs.crpix = [w.wcs.crpix[0], w.wcs.crpix[1]-2]
    M.raises("partial", lambda: sf(-1, one, [0], wcs=w))
    a = (8, 9, .5, .6)
    M.raises("fncls", lambda: ff(*a, c, [0]))
    M.raises("fspin", lambda: ff(*a, c, [-2]))
    M.raises("fnbeam", lambda: ff(*a, c, [0, 0], beam=one))
    M.raises("fbeamlen", lambda: ff(*a, c, [0, 0], beam=np.ones((2, 8))))
    M.raises("fside", lambda: ff(8, 9, -.5, .6, one, [0]))
    M.raises("fside2", lambda: ff(8, 9, .5, 0., one, [0]))
    M.state("errors")
