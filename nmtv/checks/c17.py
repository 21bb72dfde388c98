"""C17: flat spectra, binning and coupling equal their definition."""
import itertools
import random

import numpy as np

from nmtv import flat, gen, rt

RULE = ("Random flat patches (odd and even sides, non-square pixels), masks "
        "(smooth, holes, noise, band-limited; no symmetries), spins 0-6, "
        "beams, purification, bands with and without gaps and one- or "
        "two-sided l_x/l_y cuts. Pseudo-spectra are compared with averages "
        "of independently transformed modes; coupling with the exact "
        "ensemble mean over all pixels (sum over a complete basis of "
        "skies), decoupling must recover piecewise-constant spectra; the "
        "one-call estimator must equal its steps.")
ASSUMPTIONS = ["numpy FFT", "fields with spin: power at Nyquist frequencies "
               "of even maps is excluded (E and B undefined there)",
               "purified response: mask times sky free of aliasing",
               "flat binning of spectra is the interpolated value at the "
               "band centre (the code's definition)"]
MIN_EVENTS = {"pseudo-spectra": 40, "couplings": 60, "decouplings": 40,
              "pipelines": 12, "binnings": 15}
QUICK_ROUNDS = 4
CONFIGS = {"two": {"variant": "shim", "weight": 1,
                   "env": {"NMTV_OMP_THREADS": "2"}},
           "four": {"variant": "shim", "weight": 1,
                    "env": {"NMTV_OMP_THREADS": "4", "NMTV_OMP_PERM": "1",
                            "NMTV_OMP_SEED": "3"}}}


def cases(seed, tier):
    r = random.Random("C17-%d" % seed)
    n = 700 if tier == "thorough" else 240
    k = ["pcl", "coup", "coup", "pcl", "coup", "pure", "teb", "bins",
         "master", "coup"]
    return [dict(kind=k[i % len(k)], seed=r.randrange(1 << 30),
                 cfg=r.choice(["two", "four"])) for i in range(n)]


def run(c, M):
    import pymaster as nmt
    rng = gen.rng_of(c)
    globals()["k_"+c["kind"]](nmt, M, rng)


def rand_spin(rng):
    return int(rng.choice([0, 0, 0, 2, 2, 2, 1, 3, 4, 6]))


def rand_cut(rng, kk):
    """Interval of one axis whose ends are away from every mode."""
    u = np.unique(kk)
    if rng.random() < .5 or len(u) < 4:
        return [1., -1.]
    mid = .5*(u[1:]+u[:-1])
    t = rng.integers(3)
    if t == 0:        # symmetric
        a = float(rng.choice(mid[mid > 0]))
        return [-a, a] if rng.random() < .3 else [
            -float(mid[mid > 0].min()), float(mid[mid > 0].min())]
    a, b = np.sort(rng.choice(mid, size=2, replace=False))
    if t == 1:
        return [float(a), float(b)]
    p = mid[mid > 0]
    return [float(p[0]), float(p[-1])] if len(p) > 1 else [1., -1.]


def rand_beam(rng, F):
    if rng.random() < .5:
        return None
    n = int(rng.integers(3, 9))
    top = F.k.max()*rng.choice([1.3, 1.3, .8137])
    ls = np.sort(rng.uniform(0, top, size=n))
    ls[-1] = top
    if rng.random() < .7:
        ls[0] = 0.
    return np.array([ls, rng.uniform(.3, 1.2, size=n)])


def beam_at(F, b):
    return np.ones(F.shape) if b is None else F.interp(b[0], b[1])


class FF(object):
    """A flat field spec."""
    def __init__(self, rng, F, spin=None, mask=None, beam=True, pure=None,
                 temps=0):
        self.F = F
        self.spin = rand_spin(rng) if spin is None else spin
        self.n = self.nmaps = 2 if self.spin else 1
        self.mask = flat.rand_mask(rng, F) if mask is None else mask
        self.maps = rng.normal(size=(self.n,)+F.shape)
        self.beam = rand_beam(rng, F) if beam else None
        self.pure = pure or (False, False)
        self.temps = rng.normal(size=(temps, self.n)+F.shape) if temps \
            else None
        if rng.random() < .3:     # any units
            self.maps = self.maps*10.**rng.uniform(-9, 6)
            if temps:
                self.temps = self.temps*10.**rng.uniform(-9, 6)
        if mask is None and rng.random() < .2:
            self.mask = self.mask*10.**rng.uniform(-3, 3)

    def build(self, nmt, **kw):
        F = self.F
        a = dict(spin=self.spin, beam=self.beam, purify_e=self.pure[0],
                 purify_b=self.pure[1], templates=self.temps)
        maps = kw.pop("maps", self.maps)
        if maps is None:
            a.pop("templates")
        a.update(kw)
        return nmt.NmtFieldFlat(F.lx, F.ly, self.mask.copy(), maps, **a)

    def L(self, m):
        """Sky to modes of the masked sky."""
        if any(self.pure):
            return self.F.purify(m, self.mask, self.pure)
        return self.F.modes(self.mask*m, self.spin)


def rand_bands(rng, F, lo=None, hi=None, n=None, gaps=None, dc=False):
    n = n or int(rng.integers(2, 6))
    gaps = rng.random() < .4 if gaps is None else gaps
    l0, lf = F.edges(rng, n, gaps=gaps, lo=lo, hi=hi)
    if len(l0) < 1:
        raise rt.Skip()
    if dc and rng.random() < .6:
        l0[0] = 0
    return l0, lf


def cuts(rng, F):
    if rng.random() < .5:
        return [1., -1.], [1., -1.]
    return rand_cut(rng, F.kx), rand_cut(rng, F.ky)


def k_pcl(nmt, M, rng):
    F = flat.rand_flat(rng, 4, 16 if rng.random() < .9 else 70)
    f1, f2 = FF(rng, F), FF(rng, F)
    if rng.random() < .3:
        f2 = f1
    l0, lf = rand_bands(rng, F, dc=True, n=int(rng.integers(1, 7)))
    nb = len(l0)
    cx, cy = cuts(rng, F)
    cut = F.cut(cx, cy)
    lite = bool(rng.random() < .3)
    M.state("pcl", f1.spin, f2.spin, F.nx % 2, F.ny % 2, cut.any(), lite)
    b = nmt.NmtBinFlat(l0, lf)
    g1 = f1.build(nmt, lite=lite)
    g2 = g1 if f2 is f1 else f2.build(nmt)
    ib = np.where(cut, -1, F.bands(l0, lf))
    a1, a2 = F.modes(f1.mask*f1.maps, f1.spin), \
        F.modes(f2.mask*f2.maps, f2.spin)
    want = F.pcl(a1, a2, ib, nb)
    kw = dict(ell_cut_x=cx, ell_cut_y=cy)
    got = nmt.compute_coupled_cell_flat(g1, g2, b, **kw)
    M.seen("pseudo-spectra")
    sc = np.sqrt(np.max(np.abs(F.pcl(a1, a1, ib, nb)))
                 * np.max(np.abs(F.pcl(a2, a2, ib, nb))))+1e-300
    msg = "spins %d %d, n=%dx%d, cuts %s %s" % (f1.spin, f2.spin, F.nx,
                                               F.ny, cx, cy)
    M.close("pcl", got, want, rtol=1e-9, scale=sc, msg=msg)
    sw = nmt.compute_coupled_cell_flat(g2, g1, b, **kw)
    t = got.reshape(f1.n, f2.n, nb).transpose(1, 0, 2).reshape(-1, nb)
    M.close("pcl-swap", sw, t, rtol=1e-12, scale=sc, msg=msg)
    if not cut.any():
        M.close("pcl-defaults", nmt.compute_coupled_cell_flat(g1, g2, b),
                got, rtol=1e-13, scale=sc)
    # sampling
    M.close("ell-sampling", g1.get_ell_sampling(),
            (np.arange(F.n_ell)+.5)*F.dell, rtol=1e-12)


def k_bins(nmt, M, rng):
    F = flat.rand_flat(rng, 4, 16 if rng.random() < .9 else 70)
    n = int(rng.integers(1, 9))
    e = np.sort(rng.uniform(0, 50, size=2*n))
    gaps = rng.random() < .5
    if gaps:
        l0, lf = e[::2], e[1::2]
    else:
        l0, lf = e[:n], e[1:n+1]
    if np.any(lf-l0 < 1e-6):
        raise rt.Skip()
    b = nmt.NmtBinFlat(l0, lf)
    M.seen("binnings")
    M.state("bins", n, gaps)
    M.true("nbands", b.get_n_bands() == n)
    M.close("leff", b.get_effective_ells(), .5*(l0+lf), rtol=1e-13)
    ncl = int(rng.integers(1, 5))
    ls = np.sort(rng.uniform(0, 60, size=int(rng.integers(2, 40))))
    if np.min(np.diff(ls)) < 1e-9:
        raise rt.Skip()
    cl = rng.normal(size=(ncl, len(ls)))
    want = np.array([np.interp(.5*(l0+lf), ls, c) for c in cl])
    M.close("bin", b.bin_cell(ls, cl), want, rtol=1e-9, scale=3.)
    M.close("bin-1d", b.bin_cell(ls, cl[0]), want[0], rtol=1e-9, scale=3.)
    # constant spectra keep their value
    M.close("bin-const", b.bin_cell(ls, np.full((1, len(ls)), 3.)),
            np.full((1, n), 3.), rtol=1e-12)
    # unbinning, in any order of multipoles
    v = rng.normal(size=(ncl, n))
    q = rng.uniform(0, 60, size=50)
    q = np.concatenate([q, .5*(l0+lf), l0, [e[0]-.01]])
    q = q[rng.permutation(len(q))]
    u = b.unbin_cell(v, q)
    M.true("unbin-shape", u.shape == (ncl, len(q)))
    inside = np.zeros(len(q), dtype=bool)
    for i in range(n):
        s = (q >= l0[i]) & (q < lf[i])
        inside |= s
        M.same("unbin", u[:, s], np.repeat(v[:, i:i+1], s.sum(), axis=1))
    M.same("unbin-1d", b.unbin_cell(v[0], q), u[0])
    # outside of the bands there is no bandpower
    for c in range(ncl):
        M.true("unbin-gap", not np.any(np.isin(u[c][~inside], v[c])),
               "multipoles in no band got the value of one")
    M.close("bin-unbin", b.bin_cell(np.sort(.5*(l0+lf)), v) if n > 1 else v,
            v, rtol=1e-12)
    M.raises("bin-len", lambda: b.bin_cell(ls, cl[:, :-1]))
    M.raises("unbin-len", lambda: b.unbin_cell(np.ones((1, n+1)), ls))
    M.raises("bin-empty", lambda: nmt.NmtBinFlat([], []))
    M.raises("bin-shapes", lambda: nmt.NmtBinFlat(l0, np.append(lf, 99.)))


def step_input(F, C):
    """(ells, cl) whose interpolation is C at every mode."""
    k = F.k.reshape(-1)
    o = np.argsort(k, kind="stable")
    ks = k[o]
    first = np.append(True, np.diff(ks) > 1e-9*ks[-1])
    d = np.diff(ks[first])
    if len(d) and d.min() < 1e-5*ks[-1]:
        raise rt.Skip()
    ls, cl = ks[first], C.reshape(C.shape[0], -1)[:, o][:, first]
    # the last mode must not fall beyond the last sample by roundoff
    return np.append(ls, 1.01*ls[-1]), np.concatenate([cl, cl[:, -1:]],
                                                      axis=1)


def respond(F, f1, f2, C, ib, nb):
    """Mean pcl; C[i*n2+j] per mode of the un-beamed sky."""
    B = beam_at(F, f1.beam)*beam_at(F, f2.beam)
    Cp = (C*B).reshape((f1.n, f2.n)+F.shape)
    return F.mean_pcl(f1.spin, f1.L, f2.spin, f2.L, Cp, ib, nb)


def domain(F, spins, K=None):
    """Modes that may carry power, and the lower/upper band limits."""
    lo, hi = None, None
    ok = np.ones(F.shape, dtype=bool)
    if any(spins) and np.isfinite(F.knyq):
        hi = F.knyq
    if any(s % 2 for s in spins) or K:
        lo = 1e-9
    if K:
        lim = min((((n-1)//2)-K)*2*np.pi/x
                  for n, x in ((F.nx, F.lx), (F.ny, F.ly)))
        hi = lim*(1+1e-9) if hi is None else min(hi, lim*(1+1e-9))
    if hi is not None:
        ok &= F.k < hi
    if lo is not None:
        ok &= F.k > lo
    return ok, lo, hi


def coupling(nmt, M, rng, F, f1, f2, K=None, key="couple"):
    ok, lo, hi = domain(F, (f1.spin, f2.spin), K)
    l0, lf = rand_bands(rng, F, lo=lo, hi=hi, dc=lo is None)
    nb = len(l0)
    cx, cy = cuts(rng, F)
    cut = F.cut(cx, cy)
    allb = F.bands(l0, lf)
    ib = np.where(cut, -1, allb)
    b = nmt.NmtBinFlat(l0, lf)
    g1 = f1.build(nmt, maps=None if rng.random() < .3 else f1.maps)
    g2 = g1 if f2 is f1 else f2.build(nmt)
    w = nmt.NmtWorkspaceFlat()
    if rng.random() < .3:     # a reused object forgets the previous matrix
        w.compute_coupling_matrix(g2, g1, b)
    w.compute_coupling_matrix(g1, g2, b, ell_cut_x=cx, ell_cut_y=cy)
    ncl = f1.n*f2.n
    M.state(key, f1.spin, f2.spin, f1.pure, f2.pure, F.nx % 2, F.ny % 2,
            cut.any(), f1.beam is None, f2 is f1)
    M.seen("couplings")
    msg = "spins %d %d pure %s %s n=%dx%d l=%.3g,%.3g cuts %s %s" % (
        f1.spin, f2.spin, f1.pure, f2.pure, F.nx, F.ny, F.lx, F.ly, cx, cy)
    # 1. a smooth spectrum: response to its ring averages
    top = np.max(F.k[ok])*(1+1e-7) if not ok.all() else F.k.max()*2
    nl = int(rng.integers(2, 12))
    ls = np.sort(rng.uniform(lo or 0, top, size=nl))
    ls[-1] = top
    cl = rng.normal(size=(ncl, nl))
    if lo is not None:       # nothing at k=0
        d0 = 2*np.pi/max(F.lx, F.ly)
        ls = np.concatenate([[0, .5*d0], ls[ls > .5*d0]])
        cl = np.concatenate([np.zeros((ncl, 2)), cl[:, -(len(ls)-2):]],
                            axis=1)
    Ck = np.array([F.interp(ls, c) for c in cl])
    good = True
    if not np.array_equal(Ck != 0, np.broadcast_to(ok, Ck.shape) & (Ck != 0)):
        good = False
    ring = np.zeros_like(Ck)
    for r in range(F.n_ell):
        s = F.ring == r
        if s.any():
            v = np.mean(Ck[:, s], axis=1)
            ring[:, s] = v[:, None]
            if np.any(v != 0) and not np.all(ok[s]):
                good = False
    near = np.abs(F.k/F.dell-np.round(F.k/F.dell)) < 1e-9
    dx, dy = 2*np.pi/F.lx, 2*np.pi/F.ly
    near &= ~(((F.ky == 0) & (dx <= dy)) | ((F.kx == 0) & (dy <= dx)))
    if good and not near.any():
        want = respond(F, f1, f2, ring, ib, nb)
        M.close(key+"-smooth", w.couple_cell(ls, cl), want, rtol=1e-8,
                msg=msg)
    # 2. any spectrum constant within rings
    C = np.zeros((ncl,)+F.shape)
    for r in range(F.n_ell):
        s = F.ring == r
        if s.any() and np.all(ok[s]):
            C[:, s] = rng.normal(size=(ncl, 1))
    if np.any(C) and not near.any():
        ls, cl = step_input(F, C)
        want = respond(F, f1, f2, C, ib, nb)
        M.close(key, w.couple_cell(ls, cl), want, rtol=1e-8, msg=msg)
    # 3. piecewise-constant bandpowers are recovered
    v = rng.normal(size=(ncl, nb))
    C = np.where(allb >= 0, v[:, np.maximum(allb, 0)], 0)
    pcl = respond(F, f1, f2, C, ib, nb)
    cols = []
    for i in range(ncl):
        for q in range(nb):
            x = np.zeros((ncl, nb))
            x[i, q] = 1
            X = np.where(allb >= 0, x[:, np.maximum(allb, 0)], 0)
            cols.append(respond(F, f1, f2, X, ib, nb).reshape(-1))
            if ncl*nb > 12:
                break
    A = np.array(cols).T
    if A.shape[0] == A.shape[1]:
        if np.linalg.cond(A) > 1e6:
            M.seen("ill-conditioned")
            return
    elif any(np.sum(ib == q) == 0 for q in range(nb)):
        return
    try:
        dec = w.decouple_cell(pcl)
    except RuntimeError:
        if A.shape[0] == A.shape[1]:
            raise
        return
    M.seen("decouplings")
    if A.shape[0] != A.shape[1]:
        # conditioning unknown: the answer must at least reproduce the data
        X = np.where(allb >= 0, dec[:, np.maximum(allb, 0)], 0)
        M.close("decouple", respond(F, f1, f2, X, ib, nb), pcl, rtol=1e-6,
                scale=np.max(np.abs(pcl))+np.max(np.abs(dec))
                * np.max(np.abs(A)), msg=msg)
        return
    M.close("decouple", dec, v, rtol=1e-7, msg=msg)
    nz = rng.normal(size=pcl.shape)
    bs = rng.normal(size=pcl.shape)
    M.close("decouple-bias", w.decouple_cell(pcl+nz+bs, cl_bias=bs,
                                             cl_noise=nz), v, rtol=1e-7,
            scale=np.max(np.abs(v))+10*np.max(np.abs(np.linalg.inv(A))),
            msg=msg)


def k_coup(nmt, M, rng):
    F = flat.rand_flat(rng, 4, 11)
    f1, f2 = FF(rng, F), FF(rng, F)
    if rng.random() < .3:
        f2 = f1
    coupling(nmt, M, rng, F, f1, f2)


def k_pure(nmt, M, rng):
    F = flat.rand_flat(rng, 9, 13)
    p = [(True, False), (False, True), (True, True)]

    def one(spin, pure):
        return FF(rng, F, spin=spin, pure=pure,
                  mask=flat.limited_mask(rng, F, 1))
    f1 = one(2, p[rng.integers(3)])
    t = rng.integers(4)
    f2 = [f1, one(2, p[rng.integers(3)]), one(2, None),
          one(int(rng.choice([0, 0, 1, 3])), None)][t]
    if rng.random() < .4:
        f1, f2 = f2, f1
    coupling(nmt, M, rng, F, f1, f2, K=1, key="couple-pure")


def k_teb(nmt, M, rng):
    """All combinations at once: same as the three separate matrices."""
    F = flat.rand_flat(rng, 4, 9)
    s = int(rng.choice([1, 2, 2, 3]))
    f0, fs = FF(rng, F, spin=0), FF(rng, F, spin=s)
    if s == 2 and rng.random() < .5:
        fs.pure = [(True, False), (False, True), (True, True)][
            rng.integers(3)]
    if rng.random() < .7:
        fs.mask = f0.mask
        fs.beam = f0.beam
    l0, lf = rand_bands(rng, F)
    nb = len(l0)
    cx, cy = cuts(rng, F)
    kw = dict(ell_cut_x=cx, ell_cut_y=cy)
    b = nmt.NmtBinFlat(l0, lf)
    g0, gs = f0.build(nmt), fs.build(nmt)
    w = nmt.NmtWorkspaceFlat()
    w.compute_coupling_matrix(g0, gs, b, is_teb=True, **kw)
    M.state("teb", s, fs.pure, fs.mask is f0.mask)
    M.seen("couplings")
    same = fs.mask is f0.mask
    nl = 6
    ls = np.sort(rng.uniform(0, F.k.max(), size=nl))
    cl = rng.normal(size=(7, nl))
    got = w.couple_cell(ls, cl)
    M.true("teb-shape", got.shape == (7, nb))
    want = []
    for a, c, sl in ((g0, g0, slice(0, 1)), (g0, gs, slice(1, 3)),
                     (gs, gs, slice(3, 7))):
        v = nmt.NmtWorkspaceFlat()
        v.compute_coupling_matrix(a, c, b, **kw)
        want.append(v.couple_cell(ls, cl[sl]))
    want = np.concatenate(want)
    if same:
        M.close("teb", got, want, rtol=1e-10)
    else:        # all blocks use the cross mask: only TE, TB must agree
        M.close("teb-cross", got[1:3], want[1:3], rtol=1e-10)
    M.raises("teb-order", lambda: nmt.NmtWorkspaceFlat(
        ).compute_coupling_matrix(gs, g0, b, is_teb=True))
    M.raises("teb-spins", lambda: nmt.NmtWorkspaceFlat(
        ).compute_coupling_matrix(g0, g0, b, is_teb=True))
    if np.all([np.sum((F.bands(l0, lf) == q) & ~F.cut(cx, cy)) > 0
               for q in range(nb)]):
        try:
            d = w.decouple_cell(got)
        except RuntimeError:
            return
        M.true("teb-decouple", d.shape == (7, nb))


def k_master(nmt, M, rng):
    F = flat.rand_flat(rng, 6, 12)
    t1, t2 = rng.integers(0, 3, size=2)
    f1, f2 = FF(rng, F, temps=int(t1)), FF(rng, F, temps=int(t2))
    for f in (f1, f2):
        if f.spin == 2 and rng.random() < .3:
            f.pure = (False, True)
    if rng.random() < .3:
        f2 = f1
    l0, lf = rand_bands(rng, F, lo=1e-9, n=3)
    nb = len(l0)
    cx, cy = cuts(rng, F)
    if any(np.sum((F.bands(l0, lf) == q) & ~F.cut(cx, cy)) == 0
           for q in range(nb)):
        raise rt.Skip()
    kw = dict(ell_cut_x=cx, ell_cut_y=cy)
    b = nmt.NmtBinFlat(l0, lf)
    lite = bool(rng.random() < .3)
    g1 = f1.build(nmt, lite=lite)
    g2 = g1 if f2 is f1 else f2.build(nmt)
    ncl = f1.n*f2.n
    noise = rng.normal(size=(ncl, nb)) if rng.random() < .5 else None
    ls = np.sort(rng.uniform(0, F.k.max(), size=7))
    guess = None if lite or rng.random() < .4 else rng.normal(size=(ncl, 7))
    w = nmt.NmtWorkspaceFlat()
    w.compute_coupling_matrix(g1, g2, b, **kw)
    M.state("master", f1.spin, f2.spin, lite, noise is None, guess is None,
            t1, t2)
    M.seen("pipelines")
    pcl = nmt.compute_coupled_cell_flat(g1, g2, b, **kw)
    bias = None
    if guess is not None:
        bias = nmt.deprojection_bias_flat(g1, g2, b, ls, guess, **kw)
    try:
        want = w.decouple_cell(pcl, cl_bias=bias, cl_noise=noise)
    except RuntimeError:
        M.raises("master-singular", lambda: nmt.compute_full_master_flat(
            g1, g2, b, **kw))
        return
    a = dict(cl_noise=noise, **kw)
    if guess is not None:
        a.update(cl_guess=guess, ells_guess=ls)
    for ws in (None, w):
        got = nmt.compute_full_master_flat(g1, g2, b, workspace=ws, **a)
        M.close("master", got, want, rtol=1e-7)
    if guess is not None:
        M.raises("master-noells", lambda: nmt.compute_full_master_flat(
            g1, g2, b, cl_guess=guess, **kw))
    b2 = nmt.NmtBinFlat(l0[:-1], lf[:-1]) if nb > 1 else None
    if b2 is not None:
        M.raises("master-bins", lambda: nmt.compute_full_master_flat(
            g1, g2, b2, workspace=w, **kw))
    o = FF(rng, F, spin=0 if f1.n*f2.n > 1 else 2).build(nmt)
    M.raises("master-spins", lambda: nmt.compute_full_master_flat(
        o, o, b, workspace=w, **kw))


assert itertools
