"""Random small skies, fields, bins and workspaces shared by checks.

Everything is described by plain arrays held in *specs*, so that a check can
build the same object again (fresh) at any time.
"""
import numpy as np

from . import gen, ref


class Sky(object):
    """A pixelisation: HEALPix or an exact full-sky CAR grid."""
    def __init__(self, rng, pix=None, lmax=None, lmax_mask=None, small=True,
                 crop=False):
        self.pix = pix or ("hpx" if rng.random() < .6 else "car")
        if self.pix == "hpx":
            self.nside = 16 if small == "big" else int(
                rng.choice([2, 4] if small else [4, 8]))
            self.lim = 3*self.nside-1
            self.npix = 12*self.nside**2
            self.shape = (self.npix,)
            self.stored = None
            self.wcs = None
            lim = self.lim
        else:
            N = 44 if small == "big" else int(
                rng.choice([8, 10, 12] if small else [12, 16, 20]))
            self.grid = ref.Grid(N)
            self.stored = gen.rand_stored(rng, self.grid)
            self.shape = (self.grid.nth, self.grid.nph)
            self.npix = self.grid.nth*self.grid.nph
            self.wcs = self.stored.wcs()
            lim = N
            self.lim = N
            if crop:
                self.crop(rng)
        self.lmax = int(lmax or rng.integers(max(4, lim//2), lim+1))
        self.lmax_mask = int(lmax_mask or rng.choice(
            [self.lmax, self.lmax, lim, max(2, self.lmax-2)]))

    def crop(self, rng):
        """Keep a patch of the grid only."""
        self.stored = gen.rand_crop(rng, self.grid)
        self.wcs = self.stored.wcs()
        self.shape = (self.stored.ny, self.stored.nx)
        self.npix = self.stored.ny*self.stored.nx

    def noise(self, rng, n):
        return rng.normal(size=(n,)+self.shape)

    def mask(self, rng, kind=None):
        kind = kind or rng.choice(["smooth", "smooth", "patch", "binary"])
        th, ph = self.angles()
        a = rng.normal(size=3)
        a /= np.sqrt(np.sum(a**2))
        c = (a[0]*np.sin(th)*np.cos(ph)+a[1]*np.sin(th)*np.sin(ph)
             + a[2]*np.cos(th))
        if kind == "smooth":
            m = .6+.35*c+.1*np.cos(3*th)*np.sin(2*ph+a[0])
            return np.clip(m, 0.02, None)
        if kind == "patch":
            m = np.clip((c+.4)/1.4, 0, None)**1.5
        else:
            m = (c > -.5)*1.
        # (a small patch may lie in the empty region)
        return m if np.any(m > 0) else .3+m

    def angles(self):
        """(theta, phi) of every pixel in stored order."""
        if self.pix == "hpx":
            import healpy as hp
            return hp.pix2ang(self.nside, np.arange(self.npix))
        g = self.grid
        t = np.broadcast_to(g.theta[:, None], (g.nth, g.nph))
        p = np.broadcast_to(g.phi[None, :], (g.nth, g.nph))
        return self.stored.store(t), self.stored.store(p)

    def kw(self):
        d = dict(lmax=self.lmax, lmax_mask=self.lmax_mask)
        if self.wcs is not None:
            d["wcs"] = self.wcs
        return d

    def minfo(self, nmt):
        return nmt.NmtMapInfo(self.wcs, self.shape)


class FieldSpec(object):
    def __init__(self, rng, sky, spin=None, temps=None, pure=None, aniso=None,
                 mask=None, lite=False, beam=None, maponly=False,
                 n_iter=None, n_iter_mask=None):
        self.sky = sky
        if spin is None:
            spin = int(rng.choice([0, 0, 0, 2, 2, 2, 1, 1, 3, 4]))
            if 2*spin > min(sky.lmax, sky.lmax_mask):
                spin = min(spin, 3)
        self.spin = spin
        self.nmaps = 2 if spin else 1
        self.maponly = maponly
        self.mask = sky.mask(rng) if mask is None else mask
        self.maps = sky.noise(rng, self.nmaps)
        nt = int(rng.integers(1, 4)) if temps is True else int(temps or 0)
        self.temps = np.array([sky.noise(rng, self.nmaps)
                               for _ in range(nt)]) if nt else None
        # any units: nothing may depend on absolute magnitudes
        self.units = 1.
        if rng.random() < .3:
            self.units = 10.**rng.uniform(-9, 6)
            self.maps = self.maps*self.units
            if nt:
                # (all of them: eigenvalues of their products are compared)
                self.temps = self.temps*10.**rng.uniform(-9, 6)
        if mask is None and rng.random() < .2:
            self.mask = self.mask*10.**rng.uniform(-3, 3)
        if beam is None:
            beam = rng.random() < .5
        # (beams may extend beyond the band limit of the field)
        ls = np.arange(sky.lmax+1+int(rng.choice([0, 0, 1, 4])))
        self.beam = np.exp(-ls*(ls+1)*(.02+.05*rng.random())) if beam \
            else None
        self.pure = (False, False)
        if spin == 2 and not aniso:
            if pure is True:
                self.pure = [(True, False), (False, True),
                             (True, True)][int(rng.integers(3))]
            elif pure:
                self.pure = tuple(pure)
        self.aniso = None
        if aniso and spin:
            a = .4*rng.normal(size=2)
            th, ph = sky.angles()
            m22 = self.mask*(.6+.3*np.cos(ph+a[0]))
            m12 = .3*np.sqrt(self.mask*m22)*np.sin(th+a[1])
            self.aniso = (m22, m12)
        self.lite = lite
        self.n_iter = int(rng.integers(0, 3)) if n_iter is None else n_iter
        self.n_iter_mask = int(rng.integers(0, 3)) if n_iter_mask is None \
            else n_iter_mask

    def build(self, nmt, **over):
        kw = dict(spin=self.spin, templates=self.temps, beam=self.beam,
                  purify_e=self.pure[0], purify_b=self.pure[1],
                  n_iter=self.n_iter, n_iter_mask=self.n_iter_mask,
                  lite=self.lite, **self.sky.kw())
        if self.aniso is not None:
            kw.update(mask_22=self.aniso[0], mask_12=self.aniso[1])
        maps = None if self.maponly else self.maps
        mask = self.mask
        mask = over.pop("mask", mask)
        maps = over.pop("maps", maps)
        kw.update(over)
        return nmt.NmtField(mask, maps, **kw)

    def beam_or_one(self):
        n = self.sky.lmax+1
        return np.ones(n) if self.beam is None else self.beam[:n]


class BinSpec(object):
    """Random binning; arrays as passed to NmtBin plus the oracle table."""
    def __init__(self, rng, lmax, shuffle=None, gaps=None, nb=None,
                 lmin=None, plain=False):
        e, b, w, f = gen.rand_bins(rng, lmax)
        if plain:
            w, f = np.ones(len(e)), np.ones(len(e))
        if gaps is None:
            gaps = rng.random() < .3
        if gaps:
            k = rng.integers(0, len(e))
            if np.sum(b == b[k]) > 1:
                b = b.copy()
                b[k] = -1
        if shuffle is None:
            shuffle = rng.random() < .4
        if shuffle:
            p = rng.permutation(len(e))
            e, b, w, f = e[p], b[p], w[p], f[p]
        self.ells, self.bpws, self.w, self.f, self.lmax = e, b, w, f, lmax
        self.bands = gen.band_table(e, b, w, f, lmax)
        self.n = len(self.bands)
        self.B, self.U = gen.bin_matrix(self.bands, lmax)

    def build(self, nmt):
        return nmt.NmtBin(bpws=self.bpws, ells=self.ells, lmax=self.lmax,
                          weights=self.w, f_ell=self.f)


def ncls_of(f1, f2, teb=False):
    return 7 if teb else f1.nmaps*f2.nmaps


def wsp_oracle(mcm, beam, B, U, ncls, norm=None):
    """Binned matrix, decoupler and windows from the unbinned matrix.

    mcm: [l*ncls+i, l'*ncls+j] (no beams); returns dict with
      'couple': matrix on (l*ncls+i), 'binned', 'dec': (b*ncls+i, l*ncls+j)
    """
    L = len(beam)
    I = np.eye(ncls)
    bm = np.kron(np.diag(beam), I)
    Bk = np.kron(B, I)
    Uk = np.kron(U, I)
    cp = mcm @ bm
    binned = Bk @ cp @ Uk
    if norm is not None:
        binned = np.eye(len(binned))*norm
    return dict(couple=cp, binned=binned, Bk=Bk, L=L)


def lflat(cl):
    """(ncls, n) -> index l*ncls+i"""
    return np.asarray(cl).T.reshape(-1)


def lunflat(v, ncls):
    return np.asarray(v).reshape(-1, ncls).T


class Trans(object):
    """Reference transforms on a Sky: healpy (HEALPix), 2-D ducc0 (CAR).

    Maps go in and out in *stored* order with shape (n,)+sky.shape.
    """
    def __init__(self, sky):
        self.sky = sky

    def synth(self, alm, spin, lmax):
        s = self.sky
        alm = np.atleast_2d(alm)
        if s.pix == "car":
            return s.stored.store(s.grid.synth(alm, spin, lmax))
        import healpy as hp
        if spin == 0:
            return np.array([hp.alm2map(np.ascontiguousarray(a), s.nside,
                                        lmax=lmax, pol=False)
                             for a in alm])
        return np.array(hp.alm2map_spin([np.ascontiguousarray(a)
                                         for a in alm], s.nside, spin, lmax))

    def quad(self, maps, spin, lmax):
        s = self.sky
        maps = np.asarray(maps)
        if s.pix == "car":
            return s.grid.quad(s.stored.unstore(maps), spin, lmax)
        import healpy as hp
        if spin == 0:
            return np.array([hp.map2alm(np.ascontiguousarray(m), lmax=lmax,
                                        iter=0, pol=False) for m in maps])
        return np.array(hp.map2alm_spin([np.ascontiguousarray(m)
                                         for m in maps], spin, lmax=lmax))

    def analysis(self, maps, spin, lmax, n_iter):
        a = self.quad(maps, spin, lmax)
        st = self.sky.stored
        if isinstance(st, gen.Crop):
            # complete rings are transformed: empty pixels outside the patch
            g = self.sky.grid
            z = st.unstore(maps)
            for _ in range(n_iter):
                a = a - g.quad(st.rows(g.synth(a, spin, lmax)
                                       .reshape(z.shape)-z), spin, lmax)
            return a
        for _ in range(n_iter):
            a = a - self.quad(self.synth(a, spin, lmax)-maps, spin, lmax)
        return a

    def weights(self):
        """Pixel areas in stored order."""
        s = self.sky
        if s.pix == "hpx":
            return np.full(s.npix, 4*np.pi/s.npix)
        g = s.grid
        return s.stored.store(np.broadcast_to(g.wth[:, None],
                                              (g.nth, g.nph)))

    def to_internal(self, maps):
        """stored order -> pymaster's flattened (theta, phi increasing)."""
        s = self.sky
        maps = np.asarray(maps)
        if s.pix == "hpx":
            return maps
        return s.stored.internal(maps)


def project_out(maps, temps, w):
    """maps minus the weighted least-squares fit of temps (any rank)."""
    shp = maps.shape
    n = len(temps)
    T = np.reshape(temps, (n, -1))
    W = np.broadcast_to(w, shp).reshape(-1)
    Q = np.sqrt(W)
    A = (T*Q).T
    # orthonormal basis of the template span
    u, s, _ = np.linalg.svd(A, full_matrices=False)
    u = u[:, s > s.max()*1e-4] if s.max() > 0 else u[:, :0]
    y = maps.reshape(-1)*Q
    y = y - u @ (u.T @ y)
    good = Q > 0
    out = np.array(maps.reshape(-1))
    out[good] = y[good]/Q[good]
    if not np.all(good):   # zero-area pixels: use the coefficients
        c = np.linalg.lstsq(A, maps.reshape(-1)*Q, rcond=1e-4)[0]
        out = maps.reshape(-1)-T.T @ c
    return out.reshape(shp)
