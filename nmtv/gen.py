"""Generators shared by checks: geometries, masks, fields, binnings."""
import numpy as np

from . import ref


def rng_of(case, extra=0):
    return np.random.default_rng([int(case["seed"]), int(extra)])


class Stored(object):
    """How a full-sky (theta, phi) grid map is stored in a CAR file."""
    def __init__(self, grid, sx=1, sy=-1, roll=0):
        # sx=+1: longitude increases with ix; sy=+1: declination increases
        self.grid, self.sx, self.sy, self.roll = grid, sx, sy, roll

    def wcs(self):
        from astropy.wcs import WCS
        w = WCS(naxis=2)
        w.wcs.ctype = ["RA---CAR", "DEC--CAR"]
        dx = 360./self.grid.nph
        dy = 180./self.grid.N
        w.wcs.cdelt = [self.sx*dx, self.sy*dy]
        # first pixel of the reformed (increasing-phi) map is at phi=roll*dx;
        # the reference longitude is mid-map so that every pixel lies within
        # 180 degrees of it
        half = (self.grid.nph//2)
        phi0 = self.roll*dx
        if self.sx > 0:
            w.wcs.crval = [(phi0+half*dx) % 360., 0.]
            w.wcs.crpix = [1.+half, self.grid.N/2.+1]
        else:
            w.wcs.crval = [(phi0+half*dx) % 360., 0.]
            w.wcs.crpix = [float(self.grid.nph-half), self.grid.N/2.+1]
        return w

    def store(self, m):
        """(..., ntheta, nphi) with theta, phi increasing -> stored order."""
        m = np.asarray(m)
        m = np.roll(m, -self.roll, axis=-1)
        if self.sy > 0:
            m = m[..., ::-1, :]
        if self.sx < 0:
            m = m[..., ::-1]
        return np.ascontiguousarray(m)

    def unstore(self, m):
        m = np.asarray(m)
        if self.sx < 0:
            m = m[..., ::-1]
        if self.sy > 0:
            m = m[..., ::-1, :]
        return np.roll(m, self.roll, axis=-1)

    def internal(self, m):
        """Stored order -> pymaster's flattened (theta, phi increasing)."""
        m = np.roll(self.unstore(m), -self.roll, axis=-1)
        return m.reshape(m.shape[:-2]+(-1,))

    def pixels(self):
        """Equal for maps with the same pixels (whatever their order)."""
        return (self.grid.nth, self.grid.nph, self.roll)

    def unreform(self, m):
        """pymaster's internal flat order (theta, phi-from-first) -> grid."""
        m = np.asarray(m)
        m = m.reshape(m.shape[:-1]+(self.grid.nth, self.grid.nph))
        return np.roll(m, self.roll, axis=-1)


class Crop(Stored):
    """How rows [n0, n0+ny) and columns p0+[0, nx) of a grid are stored."""
    def __init__(self, grid, n0, ny, p0, nx, sx=1, sy=-1):
        Stored.__init__(self, grid, sx, sy)
        self.n0, self.ny, self.p0, self.nx = n0, ny, p0, nx
        self.cols = (p0+np.arange(nx)) % grid.nph

    def wcs(self):
        from astropy.wcs import WCS
        g = self.grid
        w = WCS(naxis=2)
        w.wcs.ctype = ["RA---CAR", "DEC--CAR"]
        dx, dy = 360./g.nph, 180./g.N
        w.wcs.cdelt = [self.sx*dx, self.sy*dy]
        mid = (self.nx-1)//2
        n1 = self.n0+self.ny
        cx = mid if self.sx > 0 else self.nx-1-mid
        cy = (n1-1-g.N/2.) if self.sy > 0 else (g.N/2.-self.n0)
        w.wcs.crval = [((self.p0+mid)*dx) % 360., 0.]
        w.wcs.crpix = [cx+1., cy+1.]
        return w

    def _flip(self, m):
        if self.sy > 0:
            m = m[..., ::-1, :]
        if self.sx < 0:
            m = m[..., ::-1]
        return m

    def store(self, m):
        m = np.asarray(m)[..., self.n0:self.n0+self.ny, :][..., self.cols]
        return np.ascontiguousarray(self._flip(m))

    def unstore(self, m):
        m = self._flip(np.asarray(m))
        z = np.zeros(m.shape[:-2]+(self.grid.nth, self.grid.nph), m.dtype)
        z[..., self.n0:self.n0+self.ny, self.cols] = m
        return z

    def rows(self, m):
        """The grid map restricted to the rings of the patch."""
        z = np.zeros_like(m)
        z[..., self.n0:self.n0+self.ny, :] = \
            m[..., self.n0:self.n0+self.ny, :]
        return z

    def internal(self, m):
        m = self._flip(np.asarray(m))
        return m.reshape(m.shape[:-2]+(-1,))

    def pixels(self):
        return (self.grid.nth, self.grid.nph, self.n0, self.ny, self.p0,
                self.nx)

    def unreform(self, m):
        raise NotImplementedError


def rand_crop(rng, grid, big=True):
    """A random patch; the larger ones may leave out just a few rings."""
    ny = int(rng.integers(3, grid.nth+1))
    n0 = int(rng.integers(0, grid.nth+1-ny))
    nx = int(rng.integers(3, grid.nph+1))
    return Crop(grid, n0, ny, int(rng.integers(grid.nph)), nx,
                sx=int(rng.choice([-1, 1])), sy=int(rng.choice([-1, 1])))


def rand_stored(rng, grid):
    return Stored(grid, sx=int(rng.choice([-1, 1])),
                  sy=int(rng.choice([-1, 1])),
                  roll=int(rng.integers(0, grid.nph)) if rng.random() < .5
                  else 0)


def bl_mask(rng, grid, lmask, positive=True):
    """Random band-limited mask on the grid."""
    a = ref.rand_alm(rng, lmask, cl=1./(1.+np.arange(lmask+1.))**2)
    m = grid.synth(a, 0, lmask)[0]
    if positive:
        m = m-m.min()+0.05*(m.max()-m.min()+1)
    return m/np.max(np.abs(m))


def ncl(s1, s2):
    return (1 if s1 == 0 else 2)*(1 if s2 == 0 else 2)


def rand_bins(rng, lmax, mode=None):
    """-> (kwargs for NmtBin, description list per band) with lmax fixed.

    Descriptions: list of (ells, weights normalised, f_ell) per band in
    the order in which the multipoles were given.
    """
    lo = int(rng.integers(0, 3))
    nb = int(rng.integers(1, max(2, min(6, (lmax-lo)//2))))
    if rng.random() < .12:     # many narrow bands
        nb = int(rng.integers(1, max(2, lmax-lo)))
    ells = np.arange(lo, lmax+1)
    if mode == "all" or nb == 1 and len(ells) < 2:
        cut = np.linspace(0, len(ells), nb+1).astype(int)
    else:
        cut = np.sort(rng.choice(np.arange(1, len(ells)),
                                 size=min(nb-1, len(ells)-1),
                                 replace=False)) if nb > 1 else []
        cut = np.concatenate([[0], cut, [len(ells)]]).astype(int)
    nb = len(cut)-1
    bp = np.concatenate([np.full(cut[i+1]-cut[i], i) for i in range(nb)])
    w = np.exp(rng.normal(size=len(ells))*.7)
    f = np.exp(rng.normal(size=len(ells))*.5)
    return ells, bp, w, f


def band_table(ells, bpws, weights, f_ell, lmax):
    """Oracle for the bands: list of (ells, weights, f_ell)."""
    nb = int(np.max(np.asarray(bpws)[np.asarray(ells) <= lmax]))+1
    out = []
    for b in range(nb):
        s = (np.asarray(bpws) == b) & (np.asarray(ells) <= lmax)
        e = np.asarray(ells)[s]
        w = np.asarray(weights, dtype=float)[s]
        out.append((e, w/np.sum(w) if len(w) else w,
                    np.asarray(f_ell, dtype=float)[s]))
    return out


def bin_matrix(bands, lmax):
    B = np.zeros((len(bands), lmax+1))
    U = np.zeros((lmax+1, len(bands)))
    for b, (e, w, f) in enumerate(bands):
        for l, wi, fi in zip(e, w, f):
            B[b, l] += wi*fi
            U[l, b] = 1./fi
    return B, U
