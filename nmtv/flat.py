"""Reference flat-sky operations on full Fourier planes (numpy only)."""
import numpy as np


class Flat(object):
    def __init__(self, nx, ny, lx, ly):
        self.nx, self.ny, self.lx, self.ly = nx, ny, lx, ly
        dkx, dky = 2*np.pi/lx, 2*np.pi/ly
        ix, iy = np.arange(nx), np.arange(ny)
        # Nyquist frequencies count as positive
        kx = np.where(2*ix <= nx, ix*dkx, -(nx-ix)*dkx)
        ky = np.where(2*iy <= ny, iy*dky, -(ny-iy)*dky)
        self.kx, self.ky = np.meshgrid(kx, ky)
        self.k = np.sqrt(self.kx*self.kx+self.ky*self.ky)
        self.shape = (ny, nx)
        self.npix = nx*ny
        self.pix = lx*ly/(nx*ny)
        self.dell = min(dkx, dky)
        kmax = np.sqrt((dkx*(nx//2))**2+(dky*(ny//2))**2)
        self.n_ell = 0
        while (self.n_ell+1)*self.dell <= kmax:
            self.n_ell += 1
        self.ring = (self.k*(1./self.dell)).astype(int)
        self.ring[self.ring >= self.n_ell] = -1
        # smallest Nyquist frequency (infinite for odd maps)
        q = [np.inf]
        if nx % 2 == 0:
            q.append(dkx*(nx//2))
        if ny % 2 == 0:
            q.append(dky*(ny//2))
        self.knyq = min(q)
        self.nh = nx//2+1
        self.norm = lx*ly/(2*np.pi*nx*ny)

    def _rot(self, spin):
        k = self.k[:, :self.nh]
        z = np.where(k > 0, (self.kx+1j*self.ky)[:, :self.nh]
                     / np.where(k > 0, k, 1), 1.)
        z = z**spin
        return -(1j)**spin, z.real, z.imag

    def half(self, m, spin):
        """(..., n, ny, nx) maps -> (..., n, ny, nx//2+1) coefficients."""
        a = np.fft.rfft2(m)*self.norm
        if spin == 0:
            return a
        sg, c, s = self._rot(spin)
        q, u = a[..., 0, :, :], a[..., 1, :, :]
        return np.stack([sg*(q*c-u*s), sg*(q*s+u*c)], axis=-3)

    def full(self, a):
        """Complete the plane with the conjugate modes."""
        o = np.zeros(a.shape[:-1]+(self.nx,), dtype=complex)
        o[..., :self.nh] = a
        jx = np.arange(self.nh, self.nx)
        jy = (-np.arange(self.ny)) % self.ny
        o[..., jx] = np.conj(a[..., jy, :][..., self.nx-jx])
        return o

    def modes(self, m, spin):
        return self.full(self.half(np.asarray(m), spin))

    def synth(self, a, spin):
        """Half-plane coefficients -> maps."""
        if spin:
            sg, c, s = self._rot(spin)
            sg = np.conj(sg)
            e, b = a[..., 0, :, :], a[..., 1, :, :]
            a = np.stack([sg*(e*c+b*s), sg*(-e*s+b*c)], axis=-3)
        return np.fft.irfft2(a, s=self.shape)*(2*np.pi/(self.lx*self.ly)
                                               * self.npix)

    def bands(self, l0, lf):
        """Band of every mode (-1 outside)."""
        o = np.full(self.shape, -1)
        for i, (a, b) in enumerate(zip(l0, lf)):
            o[(self.k >= a) & (self.k < b)] = i
        return o

    def cut(self, cx, cy):
        """Modes removed by the cuts."""
        return (((self.kx >= cx[0]) & (self.kx <= cx[1])) |
                ((self.ky >= cy[0]) & (self.ky <= cy[1])))

    def average(self, x, ib, nb):
        """Average of a (..., ny, nx) plane over the modes of each band."""
        x = x.reshape(x.shape[:-2]+(-1,))
        f = ib.reshape(-1)
        out = np.zeros(x.shape[:-1]+(nb,))
        for b in range(nb):
            s = f == b
            if s.any():
                out[..., b] = np.mean(x[..., s], axis=-1)
        return out

    def pcl(self, a, b, ib, nb):
        """Pseudo-spectra (n1*n2, nb) of two sets of full-plane modes."""
        x = (a[:, None]*np.conj(b[None])).real
        x = x.reshape((-1,)+self.shape)
        return self.average(x, ib, nb)*4*np.pi**2/(self.lx*self.ly)

    def interp(self, ls, cl, k=None, right=0.):
        k = self.k if k is None else k
        return np.interp(k, ls, cl, right=right)

    def purify(self, m, mask, pure):
        """Spin-2 modes of mask*m with the chosen components purified."""
        a = self.half(mask*m, 2)
        if not any(pure):
            return self.full(a)
        w0 = self.half(mask[None], 0)[0]
        kh = self.k[:, :self.nh]
        ik = np.where(kh > 0, 1./np.where(kh > 0, kh, 1), 0)
        z = np.zeros_like(w0)
        w1 = self.synth(np.stack([-w0*kh, z]), 1)
        w2 = self.synth(np.stack([-w0*kh**2, z]), 2)
        q, u = m[..., 0, :, :], m[..., 1, :, :]
        p1 = self.half(np.stack([w1[0]*q+w1[1]*u, w1[0]*u-w1[1]*q],
                                axis=-3), 1)
        p2 = np.fft.rfft2(-np.stack([w2[0]*q+w2[1]*u, w2[0]*u-w2[1]*q],
                                    axis=-3))*self.norm
        f = a+2*ik*p1+ik**2*p2
        for i in range(2):
            if pure[i]:
                a[..., i, :, :] = f[..., i, :, :]
        return self.full(a)

    def edges(self, rng, nb, gaps=False, lo=None, hi=None):
        """Band edges away from every mode."""
        k = np.unique(np.round(self.k.reshape(-1), 9))
        lo = 0 if lo is None else lo
        hi = k.max()+1 if hi is None else hi
        k = k[(k >= lo) & (k <= hi)]
        d = np.where(np.diff(k) > 1e-6*k.max())[0]
        mid = .5*(k[d]+k[d+1])
        n = min(2*nb if gaps else nb+1, len(mid))
        if not gaps:
            e = np.sort(rng.choice(mid, size=n, replace=False))
            return e[:-1], e[1:]
        n -= n % 2
        e = np.sort(rng.choice(mid, size=n, replace=False))
        return e[::2], e[1::2]

    # ---------------------------------------------------- exact ensembles
    def identity(self, n):
        """One unit map per component and pixel: (n*npix, n, ny, nx)."""
        return np.eye(n*self.npix).reshape((-1, n)+self.shape)

    def apply_cl(self, m, s_in, s_out, C):
        """synth(C modes(m)): C[i, j] per full-plane mode, j -> i."""
        a = self.half(m, s_in)
        b = np.einsum("ijyx,...jyx->...iyx", C[..., :self.nh], a)
        return self.synth(b, s_out)

    def mean_cross(self, s1, L1, s2, L2, C):
        """<a1_i(k) a2_j(k)*> of Gaussian skies with cross-spectra C_ij(k).

        L1, L2: linear maps from skies to full-plane modes.
        """
        D = self.identity(2 if s2 else 1)
        a1 = L1(self.apply_cl(D, s2, s1, C))
        a2 = L2(D)
        return np.einsum("piyx,pjyx->ijyx", a1, np.conj(a2)).real/self.pix

    def mean_pcl(self, s1, L1, s2, L2, C, ib, nb):
        x = self.mean_cross(s1, L1, s2, L2, C)
        x = x.reshape((-1,)+self.shape)
        return self.average(x, ib, nb)*4*np.pi**2/(self.lx*self.ly)


def rand_flat(rng, lo=5, hi=12, odd=False):
    nx, ny = int(rng.integers(lo, hi+1)), int(rng.integers(lo, hi+1))
    if odd:
        nx += 1-nx % 2
        ny += 1-ny % 2
    lx = rng.uniform(.05, 1.5)
    ly = lx*ny/nx
    if rng.random() < .6:
        ly *= 10.**rng.uniform(-.4, .4)
    return Flat(nx, ny, lx, ly)


def rand_mask(rng, F, kind=None):
    kind = kind or rng.choice(["smooth", "smooth", "holes", "noisy", "limited"])
    y, x = np.mgrid[:F.ny, :F.nx]
    if kind == "limited":
        return limited_mask(rng, F, 1)
    m = .5+.4*np.sin(2*np.pi*(x/F.nx*rng.choice([1, 2])+rng.random())) \
        * np.cos(2*np.pi*(y/F.ny+rng.random()))+.3*x*y/F.npix
    if kind == "noisy":
        m = m*rng.uniform(.2, 1.5, size=F.shape)
        if rng.random() < .5:      # a few barely observed pixels
            m = m*np.where(rng.random(F.shape) < .1,
                           10.**-rng.uniform(1, 4, size=F.shape), 1.)
    if kind == "holes":
        m = m*(rng.random(F.shape) > .2)
        m[0, :] = 0
    return np.clip(m, 0, None)


def limited_mask(rng, F, K):
    """Band-limited mask: only wavenumbers up to K on each axis."""
    y, x = np.mgrid[:F.ny, :F.nx]
    m = np.full(F.shape, 1.)
    for i in range(-K, K+1):
        for j in range(0, K+1):
            if (i, j) != (0, 0):
                m += rng.normal()*.15*np.cos(
                    2*np.pi*(i*x/F.nx+j*y/F.ny)+rng.uniform(0, 7))
    return m
