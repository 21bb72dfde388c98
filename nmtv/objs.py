"""Random objects of every public kind, each with a fixed set of queries.

Spec.build(nmt) makes a new object from the same arguments (copies of them),
Spec.probe(nmt, obj) returns {query: array} for fixed query arguments.  Two
objects with equal probes are indistinguishable to a user.
"""
import numpy as np

from . import flat, rt, world
from .checks import c03, c17


def quiet(fn):
    """Result of a query, or the name of the exception it ends in."""
    try:
        return fn()
    except Exception as e:       # noqa: compared between twins
        return "raised " + type(e).__name__


def compare(M, tag, got, want, rtol=1e-11):
    """Two probes must agree (bitwise when rtol is None)."""
    ok = True
    for k in sorted(set(got) | set(want)):
        key = "%s/%s" % (tag, k)
        a, b = got.get(k), want.get(k)
        M.seen("queries compared")
        if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
            ok &= M.true(key, isinstance(a, str) and isinstance(b, str)
                         and a == b, "%s: %r instead of %r"
                         % (k, a if isinstance(a, str) else "a result",
                            b if isinstance(b, str) else "a result"))
            continue
        a, b = np.asarray(a), np.asarray(b)
        if rtol is None or b.dtype.kind not in "fciub" or \
                not np.all(np.isfinite(b)):
            ok &= M.same(key, a, b)
        else:
            ok &= M.close(key, a, b, rtol=rtol)
    return ok


def copies(x):
    if isinstance(x, np.ndarray):
        return x.copy()
    if isinstance(x, dict):
        return {k: copies(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return type(x)(copies(v) for v in x)
    return x


class Bins(object):
    kind = "bins"

    def __init__(self, rng, lmax=None, overlap=None):
        self.lmax = int(lmax or rng.integers(6, 30))
        if overlap is None:
            overlap = rng.random() < .2
        self.bs = c03.mkbins(rng, self.lmax, overlap)
        self.cl = rng.normal(size=(int(rng.integers(1, 4)), self.lmax+1))
        self.bp = rng.normal(size=(2, self.bs.n))

    def build(self, nmt):
        b = self.bs
        return nmt.NmtBin(bpws=b.bpws.copy(), ells=b.ells.copy(),
                          lmax=self.lmax, weights=b.w.copy(),
                          f_ell=b.f.copy())

    def probe(self, nmt, b):
        d = dict(n=b.get_n_bands(), ell=b.get_effective_ells(),
                 binned=b.bin_cell(self.cl.copy()),
                 one=b.bin_cell(self.cl[0].copy()),
                 unbinned=b.unbin_cell(self.bp.copy()))
        for i in range(self.bs.n):
            d["ells%d" % i] = b.get_ell_list(i)
            d["w%d" % i] = b.get_weight_list(i)
        return d


class BinsFlat(object):
    kind = "bins-flat"

    def __init__(self, rng, F=None):
        self.F = F or flat.rand_flat(rng, 5, 12)
        self.l0, self.lf = c17.rand_bands(rng, self.F)
        self.n = len(self.l0)
        self.ls = np.linspace(0, 1.2*self.F.k.max(), 23)
        self.cl = rng.normal(size=(2, 23))
        self.bp = rng.normal(size=(2, self.n))

    def build(self, nmt):
        return nmt.NmtBinFlat(self.l0.copy(), self.lf.copy())

    def probe(self, nmt, b):
        return dict(n=b.get_n_bands(), ell=b.get_effective_ells(),
                    binned=b.bin_cell(self.ls.copy(), self.cl.copy()),
                    unbinned=b.unbin_cell(self.bp.copy(), self.ls.copy()))


class Field(object):
    kind = "field"

    def __init__(self, rng, sky=None, **kw):
        self.sky = sky or world.Sky(rng)
        if "temps" not in kw:
            kw["temps"] = int(rng.integers(0, 3))
        if "pure" not in kw:
            kw["pure"] = rng.random() < .3
        self.fs = world.FieldSpec(rng, self.sky, **kw)

    def build(self, nmt):
        c = world.FieldSpec.__new__(world.FieldSpec)
        c.__dict__.update({k: copies(v) for k, v in self.fs.__dict__.items()
                           if k != "sky"})
        c.sky = self.sky
        return c.build(nmt)

    def probe(self, nmt, f):
        d = dict(mask=f.get_mask(), beam=f.beam)
        d["alm"] = quiet(f.get_alms)
        d["mask-alm"] = quiet(f.get_mask_alms)
        d["maps"] = quiet(f.get_maps)
        d["templates"] = quiet(f.get_templates)
        if not isinstance(d["alm"], str):
            d["pcl"] = nmt.compute_coupled_cell(f, f)
        return d


class FieldFlat(object):
    kind = "field-flat"

    def __init__(self, rng, F=None, **kw):
        self.F = F or flat.rand_flat(rng, 5, 12)
        if "pure" not in kw and rng.random() < .25:
            kw.update(spin=2, pure=(rng.random() < .5, True))
        kw.setdefault("temps", int(rng.integers(0, 3)))
        self.ff = c17.FF(rng, self.F, **kw)
        self.b = BinsFlat(rng, self.F)
        self.extra = {}

    def build(self, nmt):
        f = self.ff
        c = c17.FF.__new__(c17.FF)
        c.__dict__.update({k: copies(v) for k, v in f.__dict__.items()
                           if k != "F"})
        c.F = self.F
        return c.build(nmt, **self.extra)

    def probe(self, nmt, f):
        d = dict(maps=quiet(f.get_maps), templates=quiet(f.get_templates),
                 mask=quiet(f.get_mask), ells=f.get_ell_sampling())
        d["pcl"] = quiet(lambda: nmt.compute_coupled_cell_flat(
            f, f, self.b.build(nmt)))
        return d


class Wsp(object):
    """Curved workspace."""
    kind = "wsp"
    flavours = ["master", "master", "fkp", "teb", "aniso", "overlap",
                "toeplitz"]

    def __init__(self, rng, flavour=None, sky=None):
        self.flavour = flavour or str(rng.choice(self.flavours))
        sky = sky or world.Sky(rng)
        self.sky = sky
        fl = self.flavour
        pure = rng.random() < .3
        if fl == "aniso":
            sky.lmax_mask = max(6, sky.lmax_mask)
        if fl == "toeplitz":
            pure = False
        mk = sky.mask(rng, "smooth")
        if fl == "teb":
            self.s1 = world.FieldSpec(rng, sky, spin=0, mask=mk,
                                      maponly=True)
            self.s2 = world.FieldSpec(rng, sky, spin=2 if pure else
                                      int(rng.choice([1, 2, 3])), mask=mk,
                                      pure=pure, maponly=True)
        else:
            an = fl == "aniso"
            pure = pure and not an
            self.s1 = world.FieldSpec(rng, sky, pure=pure, mask=mk, aniso=an,
                                      spin=2 if an else None, maponly=True)
            self.s2 = world.FieldSpec(rng, sky, pure=pure, mask=mk,
                                      aniso=an and rng.random() < .5,
                                      maponly=True)
            if rng.random() < .3:
                self.s2 = self.s1
        self.ncls = world.ncls_of(self.s1, self.s2, fl == "teb")
        self.bs = c03.mkbins(rng, sky.lmax, fl == "overlap")
        self.kw = dict(is_teb=fl == "teb",
                       normalization="FKP" if fl == "fkp" else "MASTER")
        if fl == "toeplitz":
            lt = int(rng.integers(2, sky.lmax))
            self.kw.update(l_toeplitz=lt, l_exact=int(rng.integers(1, lt+1)),
                           dl_band=int(rng.integers(0, sky.lmax)))
        self.new_inputs(rng)

    def new_inputs(self, rng):
        n, L = self.ncls, self.sky.lmax+1
        self.th = rng.normal(size=(n, L))
        self.pcl = rng.normal(size=(n, L))
        self.noi = rng.normal(size=(n, L))
        self.bia = rng.normal(size=(n, L))

    def fields(self, nmt):
        f1 = self.s1.build(nmt)
        return f1, (f1 if self.s2 is self.s1 else self.s2.build(nmt))

    def build(self, nmt):
        f1, f2 = self.fields(nmt)
        return nmt.NmtWorkspace.from_fields(f1, f2, self.bs.build(nmt),
                                            **self.kw)

    def probe(self, nmt, w):
        return dict(
            mcm=quiet(w.get_coupling_matrix),
            couple=quiet(lambda: w.couple_cell(self.th.copy())),
            dec=quiet(lambda: w.decouple_cell(self.pcl.copy())),
            dec2=quiet(lambda: w.decouple_cell(
                self.pcl.copy(), cl_bias=self.bia.copy(),
                cl_noise=self.noi.copy())),
            win=quiet(w.get_bandpower_windows),
            teb=w.wsp.is_teb if w.wsp is not None else "none",
            ncls=w.wsp.ncls if w.wsp is not None else "none")

    # one random later operation, applied to every twin in the list
    def step(self, nmt, rng, ws):
        k = int(rng.integers(3))
        L = self.sky.lmax+1
        if k == 0:
            b = [np.exp(-rng.random()*np.arange(L)/5) for _ in range(2)]
            for w in ws:
                w.update_beams(b[0].copy(), b[1].copy())
        elif k == 1:
            self.bs = c03.mkbins(rng, self.sky.lmax,
                                 rng.random() < .2)
            for w in ws:
                w.update_bins(self.bs.build(nmt))
        else:
            n = self.ncls*L
            m = np.eye(n)+.1*rng.normal(size=(n, n))
            for w in ws:
                w.update_coupling_matrix(m.copy())
        return ["beams", "bins", "matrix"][k]

    def new(self, nmt):
        return nmt.NmtWorkspace()


class WspFlat(object):
    kind = "wsp-flat"

    def __init__(self, rng, F=None):
        self.F = F = F or flat.rand_flat(rng, 5, 12)
        teb = rng.random() < .25
        pure = (False, False)
        if rng.random() < .3:
            pure = (rng.random() < .5, True)
        if teb:
            m = flat.rand_mask(rng, F)
            self.f1 = c17.FF(rng, F, spin=0, mask=m)
            self.f2 = c17.FF(rng, F, spin=2 if any(pure) else
                             int(rng.integers(1, 4)), mask=m, pure=pure)
        else:
            self.f1 = c17.FF(rng, F)
            self.f2 = c17.FF(rng, F, spin=2, pure=pure) if any(pure) \
                else c17.FF(rng, F)
            if rng.random() < .3:
                self.f2 = self.f1
        self.teb = teb
        self.bins = BinsFlat(rng, F)
        cx, cy = c17.cuts(rng, F)
        if rng.random() < .15:
            cx = [float(np.sort(F.kx.ravel())[F.npix//2]), np.inf]
        self.cx, self.cy = cx, cy
        self.ncls = world.ncls_of(self.f1, self.f2, teb)
        self.ls = np.linspace(0, 1.1*F.k.max(), 37)
        self.th = rng.normal(size=(self.ncls, 37))
        self.pcl = rng.normal(size=(self.ncls, self.bins.n))
        self.noi = rng.normal(size=(self.ncls, self.bins.n))

    def fields(self, nmt):
        f1 = self.f1.build(nmt)
        return f1, (f1 if self.f2 is self.f1 else self.f2.build(nmt))

    def fill(self, nmt, w):
        f1, f2 = self.fields(nmt)
        w.compute_coupling_matrix(f1, f2, self.bins.build(nmt),
                                  ell_cut_x=list(self.cx),
                                  ell_cut_y=list(self.cy), is_teb=self.teb)

    def build(self, nmt):
        w = nmt.NmtWorkspaceFlat()
        try:
            self.fill(nmt, w)
        except RuntimeError as e:
            if "GSL" in str(e):         # singular: empty bands
                raise rt.Skip()
            raise
        return w

    def probe(self, nmt, w):
        return dict(
            couple=quiet(lambda: w.couple_cell(self.ls.copy(),
                                               self.th.copy())),
            dec=quiet(lambda: w.decouple_cell(self.pcl.copy())),
            dec2=quiet(lambda: w.decouple_cell(
                self.pcl.copy(), cl_noise=self.noi.copy(),
                cl_bias=self.noi[::-1].copy())))

    def new(self, nmt):
        return nmt.NmtWorkspaceFlat()


class Cov(object):
    """Curved covariance workspace of fields (0|2)x4."""
    kind = "cov"

    def __init__(self, rng, spin0=None):
        self.sky = sky = world.Sky(rng)
        sky.lmax_mask = max(sky.lmax_mask, sky.lmax)
        self.m = [sky.mask(rng, "smooth") for _ in range(4)]
        self.spin0 = rng.random() < .3 if spin0 is None else spin0
        self.fs = [world.FieldSpec(rng, sky, spin=0, mask=m, maponly=True)
                   for m in self.m]
        self.nit = self.fs[0].n_iter_mask
        for f in self.fs:
            f.n_iter_mask = self.nit
        L = sky.lmax+1
        self.s = [0]*4 if self.spin0 else \
            [int(x) for x in rng.choice([0, 2], size=4)]
        self.nm = [2 if s else 1 for s in self.s]
        self.cl = [rng.normal(size=(self.nm[i]*self.nm[j], L))
                   for i in (0, 1) for j in (2, 3)]
        self.cl0 = [rng.normal(size=(1, L)) for _ in range(4)]
        self.bs = world.BinSpec(rng, sky.lmax, plain=True)
        self.w = [None, None]

    def workspaces(self, nmt):
        if self.w[0] is None:
            for k in (0, 1):
                f = []
                for i in (2*k, 2*k+1):
                    s = world.FieldSpec.__new__(world.FieldSpec)
                    s.__dict__.update(self.fs[i].__dict__)
                    s.spin, s.nmaps = self.s[i], self.nm[i]
                    f.append(s.build(nmt))
                self.w[k] = nmt.NmtWorkspace.from_fields(
                    f[0], f[1], self.bs.build(nmt))
        return self.w

    def build(self, nmt):
        return nmt.NmtCovarianceWorkspace.from_fields(
            *[f.build(nmt) for f in self.fs], spin0_only=self.spin0)

    def fill(self, nmt, w):
        w.compute_coupling_coefficients(*[f.build(nmt) for f in self.fs],
                                        spin0_only=self.spin0)

    def probe(self, nmt, cw):
        wa, wb = self.workspaces(nmt)
        cl = copies(self.cl)
        d = dict(coupled=quiet(lambda: nmt.gaussian_covariance(
            cw, *self.s, *cl, wa, wb, coupled=True)),
            binned=quiet(lambda: nmt.gaussian_covariance(
                cw, *self.s, *cl, wa, wb)))
        return d

    def new(self, nmt):
        return nmt.NmtCovarianceWorkspace()


class CovFlat(object):
    kind = "cov-flat"

    def __init__(self, rng):
        self.F = F = flat.rand_flat(rng, 5, 10)
        m = flat.rand_mask(rng, F, "smooth") if rng.random() < .7 else \
            flat.rand_mask(rng, F)
        self.fs = [c17.FF(rng, F, spin=0, mask=m if rng.random() < .5 else
                          flat.rand_mask(rng, F)) for _ in range(4)]
        self.bins = BinsFlat(rng, F)
        self.s = [int(x) for x in rng.choice([0, 2], size=4)]
        self.nm = [2 if s else 1 for s in self.s]
        self.ls = np.linspace(0, 1.1*F.k.max(), 31)
        self.cl = [rng.normal(size=(self.nm[i]*self.nm[j], 31))
                   for i in (0, 1) for j in (2, 3)]
        self.w = [None, None]

    def workspaces(self, nmt):
        if self.w[0] is None:
            for k in (0, 1):
                f = []
                for i in (2*k, 2*k+1):
                    s = c17.FF.__new__(c17.FF)
                    s.__dict__.update(self.fs[i].__dict__)
                    s.spin, s.n = self.s[i], self.nm[i]
                    s.maps = np.ones((s.n,)+self.F.shape)
                    f.append(s.build(nmt))
                self.w[k] = nmt.NmtWorkspaceFlat()
                try:
                    self.w[k].compute_coupling_matrix(f[0], f[1],
                                                      self.bins.build(nmt))
                except RuntimeError as e:
                    if "GSL" in str(e):
                        raise rt.Skip()
                    raise
        return self.w

    def fill(self, nmt, w):
        b = self.bins.build(nmt)
        f = [f.build(nmt) for f in self.fs]
        w.compute_coupling_coefficients(f[0], f[1], b, f[2], f[3], b)

    def build(self, nmt):
        w = nmt.NmtCovarianceWorkspaceFlat()
        self.fill(nmt, w)
        return w

    def probe(self, nmt, cw):
        wa, wb = self.workspaces(nmt)
        return dict(binned=quiet(lambda: nmt.gaussian_covariance_flat(
            cw, *self.s, self.ls.copy(), *copies(self.cl), wa, wb)))

    def new(self, nmt):
        return nmt.NmtCovarianceWorkspaceFlat()


KINDS = {c.kind: c for c in (Bins, BinsFlat, Field, FieldFlat, Wsp, WspFlat,
                             Cov, CovFlat)}
FILES = {k: KINDS[k] for k in ("wsp", "wsp-flat", "cov", "cov-flat")}
