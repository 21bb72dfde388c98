"""A catalogue of every public call, with valid arguments and bad ones.

Env(rng, nmt) holds a set of small objects sharing one sky (and one flat
patch).  catalogue(env, rng) draws one Call; Call.run() executes it with its
arguments and returns the result, probe(env, result) turns any result into
{query: array}.  Call.bad lists argument changes that make the request
inconsistent, so that it has to be refused.
"""
import os

import numpy as np

from . import flat, world
from .checks import c17
from .objs import copies, quiet


class Call(object):
    def __init__(self, name, fn, kw, bad=(), target=None):
        self.name, self.fn, self.kw = name, fn, kw
        self.bad = [(k, v) for k, v in bad]
        self.target = target    # object that a successful call changes

    def run(self, kw=None):
        return self.fn(**(self.kw if kw is None else kw))

    def with_bad(self, change):
        """Arguments after one change: {arg: value or function of old}."""
        kw = dict(self.kw)
        for k, v in change.items():
            kw[k] = v(kw[k]) if callable(v) and not isinstance(v, type) \
                else v
        return kw


# --- ways of making an argument inconsistent
def short(x):
    return np.asarray(x)[..., :-1].copy()


def long(x):
    x = np.asarray(x)
    return np.concatenate([x, x[..., -1:]], axis=-1)


def fewer(x):
    return np.asarray(x)[:-1].copy()


def more(x):
    x = np.asarray(x)
    return np.concatenate([x, x[-1:]], axis=0)


def det(shape, k=0):
    """The same numbers in every probe of every run."""
    return np.random.RandomState(1234+k).normal(size=shape)


# ------------------------------------------------------------------- probes
def probe(env, x):
    nmt = env.nmt
    if x is None or isinstance(x, (bool, int, float, str, np.number)):
        return dict(value=np.array(repr(x)) if isinstance(x, str) or x is None
                    else np.array(x))
    if isinstance(x, np.ndarray):
        return dict(array=x.copy())
    if isinstance(x, (list, tuple)):
        d = {}
        for i, y in enumerate(x):
            d.update({"%d.%s" % (i, k): v for k, v in probe(env, y).items()})
        return d
    if isinstance(x, dict):
        return {str(k): np.array(str(v)) for k, v in x.items()}
    if isinstance(x, nmt.NmtBin):
        return p_bin(x)
    if isinstance(x, nmt.NmtBinFlat):
        return p_binflat(x)
    if isinstance(x, nmt.NmtFieldFlat):
        return p_fieldflat(env, x)
    if isinstance(x, nmt.NmtField):
        return p_field(nmt, x)
    if isinstance(x, nmt.NmtWorkspace):
        return p_wsp(x)
    if isinstance(x, nmt.NmtWorkspaceFlat):
        return p_wspflat(x)
    if isinstance(x, nmt.NmtCovarianceWorkspace):
        return env.p_cov(x)
    if isinstance(x, nmt.NmtCovarianceWorkspaceFlat):
        return env.p_covflat(x)
    if isinstance(x, nmt.NmtMapInfo):
        return dict(pix=np.array([x.npix, x.is_healpix]),
                    th=np.array(x.si.theta), w=np.array(x.si.weight),
                    lmax=np.array(x.get_lmax()))
    if isinstance(x, nmt.NmtAlmInfo):
        return dict(l=np.array([x.lmax, x.mmax, x.nelem]),
                    m=np.array(x.mstart))
    raise TypeError(type(x))


def p_bin(b):
    n = b.get_n_bands()
    d = dict(n=n, eff=b.get_effective_ells(), nell=b.get_nell_list(),
             binned=b.bin_cell(det((2, b.lmax+1))),
             unbinned=b.unbin_cell(det((2, n), 1)))
    for i in range(n):
        d["ells%d" % i] = b.get_ell_list(i)
        d["w%d" % i] = b.get_weight_list(i)
    return d


def p_binflat(b):
    e = b.get_effective_ells()
    ls = np.linspace(0, 1.1*e.max(), 19)
    return dict(n=b.get_n_bands(), eff=e, binned=b.bin_cell(ls, det((2, 19))),
                unbinned=b.unbin_cell(det((2, len(e)), 1), ls))


def cp(v):
    return v if isinstance(v, str) or v is None else np.array(v)


def p_field(nmt, f):
    d = dict(spin=f.spin, nums=np.array([f.Nw, f.Nf]), beam=np.array(f.beam))
    for k, g in (("mask", f.get_mask), ("mask-alm", f.get_mask_alms),
                 ("alm", f.get_alms), ("maps", f.get_maps),
                 ("templates", f.get_templates)):
        v = cp(quiet(g))
        d[k] = "nothing" if v is None else v
    if not isinstance(d["alm"], str):
        d["pcl"] = quiet(lambda: nmt.compute_coupled_cell(f, f))
    return d


def p_fieldflat(env, f):
    d = dict(mask=quiet(f.get_mask), maps=quiet(f.get_maps),
             templates=quiet(f.get_templates), ells=f.get_ell_sampling())
    if env.F.shape == (f.ny, f.nx):
        d["pcl"] = quiet(lambda: env.nmt.compute_coupled_cell_flat(
            f, f, env.fb))
    return d


def p_wsp(w):
    if w.wsp is None:
        return dict(empty="empty")
    n, L = w.wsp.ncls, w.wsp.lmax_fields+1
    return dict(mcm=quiet(w.get_coupling_matrix),
                couple=quiet(lambda: w.couple_cell(det((n, L)))),
                dec=quiet(lambda: w.decouple_cell(det((n, L), 1))),
                dec3=quiet(lambda: w.decouple_cell(
                    det((n, L), 1), cl_bias=det((n, L), 2),
                    cl_noise=det((n, L), 3))),
                win=quiet(w.get_bandpower_windows))


def p_wspflat(w):
    if w.wsp is None:
        return dict(empty="empty")
    n, nb = w.wsp.ncls, w.wsp.bin.n_bands
    ls = np.linspace(0, 60, 41)
    return dict(couple=quiet(lambda: w.couple_cell(ls, det((n, 41)))),
                dec=quiet(lambda: w.decouple_cell(det((n, nb), 1))),
                dec3=quiet(lambda: w.decouple_cell(
                    det((n, nb), 1), cl_bias=det((n, nb), 2),
                    cl_noise=det((n, nb), 3))))


# ---------------------------------------------------------------------- env
class Env(object):
    def __init__(self, rng, nmt, scratch, pix=None):
        self.nmt, self.rng, self.scratch = nmt, rng, scratch
        self.nfile = 0
        self.sky = sky = world.Sky(rng, pix=pix)
        # 2*spin <= lmax_mask for anisotropic masks, catalogues need no pixel
        sky.lmax_mask = max(6, sky.lmax_mask)
        self.L = sky.lmax+1
        mk = sky.mask(rng, "smooth")
        s = int(rng.choice([2, 2, 1, 3]))
        self.s = s
        mkw = dict(n_iter=1, n_iter_mask=1)
        self.sA = world.FieldSpec(rng, sky, spin=0, temps=2, mask=mk, **mkw)
        self.sB = world.FieldSpec(rng, sky, spin=s, temps=1, mask=mk, **mkw)
        self.sP = world.FieldSpec(rng, sky, spin=2, pure=True, temps=1,
                                  **mkw)
        self.sN = world.FieldSpec(rng, sky, spin=s, aniso=True, **mkw)
        self.bs = world.BinSpec(rng, sky.lmax, plain=rng.random() < .5)
        self.b = self.bs.build(nmt)
        self.A, self.B = self.sA.build(nmt), self.sB.build(nmt)
        self.P, self.N = self.sP.build(nmt), self.sN.build(nmt)
        # same geometry except for the band limit
        sky2 = world.Sky.__new__(world.Sky)
        sky2.__dict__.update(sky.__dict__)
        sky2.lmax = sky.lmax-1
        self.sky2 = sky2
        skyl = sky2
        if rng.random() < .4:
            skyl = world.Sky.__new__(world.Sky)
            skyl.__dict__.update(sky.__dict__)
            skyl.lmax_mask = sky.lmax_mask+int(rng.choice([-1, 1]))
        sp = world.FieldSpec(rng, skyl, spin=0, **mkw)
        self.badL = sp.build(nmt)
        # another pixelisation with the same band limits
        other = "car" if sky.pix == "hpx" else "hpx"
        sky3 = world.Sky(rng, pix=other)
        sky3.lmax, sky3.lmax_mask = sky.lmax, sky.lmax_mask
        self.badP = world.FieldSpec(rng, sky3, spin=0, n_iter=0,
                                    n_iter_mask=0).build(nmt)
        self.sky3 = sky3
        self.badbins = world.BinSpec(rng, sky.lmax+1).build(nmt)
        # catalogues
        n = int(rng.integers(3, 30))
        self.cat = self.catargs(rng, n)
        self.C = nmt.NmtFieldCatalog(**copies(self.cat))
        self.clu = self.cluargs(rng, n)
        self.K = nmt.NmtFieldCatalogClustering(**copies(self.clu))
        # workspaces
        self.w = nmt.NmtWorkspace.from_fields(self.A, self.B, self.b)
        self.w00 = nmt.NmtWorkspace.from_fields(self.A, self.A, self.b)
        self.ncls = self.A.nmaps*self.B.nmaps
        self.bs0 = world.BinSpec(rng, sky.lmax, plain=True)
        # covariance of spins 0 and 2
        self.sQ = [world.FieldSpec(rng, sky, spin=x, maponly=True, **mkw)
                   for x in (0, 2)]
        self.Q = [x.build(nmt) for x in self.sQ]
        b0 = self.bs0.build(nmt)
        self.wa = nmt.NmtWorkspace.from_fields(self.Q[0], self.Q[1], b0)
        self.wb = nmt.NmtWorkspace.from_fields(self.Q[0], self.Q[0], b0)
        self.lcov = sky.lmax_mask < sky.lmax
        self.cw = nmt.NmtCovarianceWorkspace.from_fields(
            self.Q[0], self.Q[1], self.Q[0], self.Q[0])
        # flat
        self.F = F = flat.rand_flat(rng, 5, 9)
        self.l0, self.lf = c17.rand_bands(rng, F, n=2)
        self.fb = nmt.NmtBinFlat(self.l0.copy(), self.lf.copy())
        fm = flat.rand_mask(rng, F, "smooth")
        self.sG = c17.FF(rng, F, spin=0, mask=fm, temps=1)
        self.sH = c17.FF(rng, F, spin=s, mask=fm, temps=2)
        self.G, self.H = self.sG.build(nmt), self.sH.build(nmt)
        self.Z = [flat.Flat(F.nx+1, F.ny, F.lx, F.ly),
                  flat.Flat(F.nx, F.ny+1, F.lx, F.ly),
                  flat.Flat(F.nx, F.ny, F.lx*1.001, F.ly),
                  flat.Flat(F.nx, F.ny, F.lx, F.ly*.999)][
                      int(rng.integers(4))]
        self.sZ = c17.FF(rng, self.Z, spin=0)
        self.badF = self.sZ.build(nmt)
        self.fw = nmt.NmtWorkspaceFlat()
        self.fw.compute_coupling_matrix(self.G, self.H, self.fb)
        self.sQf = [c17.FF(rng, F, spin=x, mask=fm) for x in (0, 2)]
        self.Qf = [x.build(nmt) for x in self.sQf]
        self.fwa, self.fwb = nmt.NmtWorkspaceFlat(), nmt.NmtWorkspaceFlat()
        self.fwa.compute_coupling_matrix(self.Qf[0], self.Qf[1], self.fb)
        self.fwb.compute_coupling_matrix(self.Qf[0], self.Qf[0], self.fb)
        self.fcw = nmt.NmtCovarianceWorkspaceFlat()
        self.fcw.compute_coupling_coefficients(
            self.Qf[0], self.Qf[1], self.fb, self.Qf[0], self.Qf[0], self.fb)
        self.fncls = self.G.fl.nmaps*self.H.fl.nmaps
        self.lf_s = np.linspace(0, 1.1*F.k.max(), 23)
        self.minfo = sky.minfo(nmt)

    def longer(self, rng):
        """A spin-0 workspace reaching one multipole further."""
        sky = world.Sky.__new__(world.Sky)
        sky.__dict__.update(self.sky.__dict__)
        sky.lmax += 1
        f = world.FieldSpec(rng, sky, spin=0, n_iter=0, n_iter_mask=0,
                            mask=self.sQ[0].mask, maponly=True).build(self.nmt)
        return self.nmt.NmtWorkspace.from_fields(
            f, f, world.BinSpec(rng, sky.lmax, plain=True).build(self.nmt))

    def catargs(self, rng, n):
        pos = np.array([np.arccos(rng.uniform(-1, 1, n)),
                        rng.uniform(0, 2*np.pi, n)])
        s = self.s
        return dict(positions=pos, weights=rng.uniform(.5, 1.5, n),
                    field=rng.normal(size=(2 if s else 1, n)),
                    lmax=self.sky.lmax, lmax_mask=self.sky.lmax_mask, spin=s,
                    beam=np.exp(-.05*np.arange(self.sky.lmax+1)),
                    field_is_weighted=bool(rng.random() < .3))

    def cluargs(self, rng, n):
        def pos(n):
            return np.array([np.arccos(rng.uniform(-1, 1, n)),
                             rng.uniform(0, 2*np.pi, n)])
        return dict(positions=pos(n), weights=rng.uniform(.5, 1.5, n),
                    positions_rand=pos(3*n),
                    weights_rand=rng.uniform(.5, 1.5, 3*n),
                    lmax=self.sky.lmax)

    def objects(self):
        """Everything that has to stay the same, by name."""
        return {k: getattr(self, k) for k in
                ("b", "A", "B", "P", "N", "C", "K", "w", "w00", "wa", "cw",
                 "fb", "G", "H", "fw", "fwa", "fcw")}

    def snapshot(self, skip=()):
        d = {k: probe(self, v) for k, v in self.objects().items()
             if k not in skip}
        d["defaults"] = probe(self, self.nmt.get_default_params())
        return d

    def p_cov(self, cw):
        if cw.wsp is None:
            return dict(empty="empty")
        if cw.wsp.lmax != self.sky.lmax:
            return dict(lmax=np.array(cw.wsp.lmax))
        a = [np.abs(det((n, self.L), k))
             for k, n in enumerate((1, 1, 2, 2))]
        if cw.wsp.spin0_only:
            z = [np.abs(det((1, self.L), k)) for k in range(4)]
            return dict(bin0=quiet(lambda: self.nmt.gaussian_covariance(
                cw, 0, 0, 0, 0, *z, self.wb, self.wb)))
        return dict(
            coupled=quiet(lambda: self.nmt.gaussian_covariance(
                cw, 0, 2, 0, 0, *a, self.wa, self.wb, coupled=True)),
            binned=quiet(lambda: self.nmt.gaussian_covariance(
                cw, 0, 2, 0, 0, *a, self.wa, self.wb)))

    def p_covflat(self, cw):
        if cw.wsp is None:
            return dict(empty="empty")
        a = [det((n, len(self.lf_s)), k) for k, n in enumerate((1, 1, 2, 2))]
        return dict(binned=quiet(lambda: self.nmt.gaussian_covariance_flat(
            cw, 0, 2, 0, 0, self.lf_s, *a, self.fwa, self.fwb)))

    def file(self):
        self.nfile += 1
        return os.path.join(self.scratch, "f%d.fits" % self.nfile)

    def cl(self, *shape):
        return self.rng.normal(size=shape)


# ------------------------------------------------------------------ catalogue
def k_bin(e, rng):
    b = e.bs
    kw = dict(bpws=b.bpws.copy(), ells=b.ells.copy(), lmax=b.lmax,
              weights=b.w.copy(), f_ell=b.f.copy())
    return Call("NmtBin", e.nmt.NmtBin, kw, [
        ("bpws-len", dict(bpws=short)), ("ells-len", dict(ells=short)),
        ("weights-len", dict(weights=short)), ("f-len", dict(f_ell=short)),
        ("w-zero", dict(weights=lambda w: w*0)),
        ("w-negative", dict(weights=lambda w: -w)),
        ("ells-negative", dict(ells=lambda x: x-1000)),
        ("no-bands", dict(bpws=lambda x: x*0-1))])


def k_bin_nside(e, rng):
    kw = dict(nside=int(rng.choice([2, 4])), nlb=int(rng.integers(1, 4)),
              is_Dell=bool(rng.random() < .5))
    return Call("from_nside_linear", e.nmt.NmtBin.from_nside_linear, kw, [
        ("nlb-zero", dict(nlb=0)), ("nlb-negative", dict(nlb=-3)),
        ("nlb-fraction", dict(nlb=2.5)), ("nlb-wide", dict(nlb=1000)),
        ("nside-zero", dict(nside=0)),
        ("f-len", dict(f_ell=np.ones(2)))])


def k_bin_lmax(e, rng):
    kw = dict(lmax=int(rng.integers(6, 20)), nlb=int(rng.integers(1, 4)),
              is_Dell=bool(rng.random() < .5))
    return Call("from_lmax_linear", e.nmt.NmtBin.from_lmax_linear, kw, [
        ("nlb-zero", dict(nlb=0)), ("nlb-negative", dict(nlb=-3)),
        ("nlb-fraction", dict(nlb=2.5)), ("nlb-wide", dict(nlb=1000)),
        ("lmax-negative", dict(lmax=-3)),
        ("f-len", dict(f_ell=np.ones(2)))])


def k_bin_edges(e, rng):
    n = int(rng.integers(1, 5))
    x = np.unique(rng.integers(1, 30, n+1))
    if len(x) < 2:
        x = np.array([2, 5])
    kw = dict(ell_ini=x[:-1].copy(), ell_end=x[1:].copy(),
              is_Dell=bool(rng.random() < .5))
    i = int(rng.integers(len(x)-1))
    a, b = x[:-1].copy(), x[1:].copy()
    a[i], b[i] = b[i], a[i]
    return Call("from_edges", e.nmt.NmtBin.from_edges, kw, [
        ("one-swapped", dict(ell_ini=a, ell_end=b)),
        ("fewer-ends", dict(ell_end=fewer)),
        ("fewer-starts", dict(ell_ini=fewer)),
        ("more-ends", dict(ell_end=np.append(x[1:], x[-1]+3))),
        ("swapped", dict(ell_ini=x[1:].copy(), ell_end=x[:-1].copy())),
        ("empty", dict(ell_ini=x[:0], ell_end=x[:0])),
        ("f-len", dict(f_ell=np.ones(100)))])


def k_bin_cell(e, rng):
    kw = dict(cls_in=e.cl(int(rng.integers(1, 4)), e.L))
    return Call("bin_cell", e.b.bin_cell, kw, [
        ("short", dict(cls_in=short)), ("long", dict(cls_in=long)),
        ("3d", dict(cls_in=lambda x: x[None]))])


def k_unbin_cell(e, rng):
    kw = dict(cls_in=e.cl(int(rng.integers(1, 4)), e.bs.n))
    return Call("unbin_cell", e.b.unbin_cell, kw, [
        ("short", dict(cls_in=short)), ("long", dict(cls_in=long)),
        ("3d", dict(cls_in=lambda x: x[None]))])


def k_ell_list(e, rng):
    m = str(rng.choice(["get_ell_list", "get_weight_list", "get_ell_min",
                        "get_ell_max"]))
    return Call(m, getattr(e.b, m), dict(b=int(rng.integers(e.bs.n))), [
        ("negative", dict(b=-1)), ("beyond", dict(b=e.bs.n)),
        ("far", dict(b=10**6))])


BADSPINS = [("spin-%g" % x, dict(spin=x)) for x in (-1, -2, -3, 1.5, -2.)]


def k_field(e, rng):
    which = rng.choice(["sA", "sB", "sP"])
    s = getattr(e, which)
    kw = dict(mask=s.mask.copy(), maps=s.maps.copy(), spin=s.spin,
              templates=copies(s.temps),
              beam=np.exp(-.03*np.arange(e.L)), purify_e=s.pure[0],
              purify_b=s.pure[1], n_iter=1, n_iter_mask=1,
              masked_on_input=bool(rng.random() < .2),
              lite=bool(rng.random() < .3), **e.sky.kw())
    if rng.random() < .2:
        kw["maps"] = kw["templates"] = None
        if which == "sP":
            kw["lite"] = False
    bad = [("beam-len", dict(beam=short)),
           ("beam-scalar", dict(beam=1.)),
           ("lmax-zero", dict(lmax=0)), ("lmax-negative", dict(lmax=-4)),
           ("lmaxmask-zero", dict(lmax_mask=0))]
    if kw["maps"] is not None or e.sky.pix == "hpx":
        bad += [("mask-len", dict(mask=fewer))]
    if kw["maps"] is not None:
        bad += [("maps-res", dict(maps=lambda m: np.delete(m, 0, axis=1))),
                ("maps-three", dict(maps=np.array([s.maps[0]]*3))),
                ("maps-spin", dict(maps=np.array(
                    [s.maps[0]]*(1 if s.spin else 2)))),
                ("maps-empty", dict(maps=s.maps[:0])),
                ("temp-nmaps", dict(templates=np.array(
                    [[s.maps[0]]*(3-s.nmaps)]))),
                ("temp-res", dict(templates=lambda t: np.delete(
                    np.array([s.maps]), 0, axis=2))),
                ("temp-scalar", dict(templates=3.)),
                ("maps-ragged", dict(maps=[s.maps[0], s.maps[0][:3]]))]
    else:
        bad += [("no-spin", dict(spin=None))]
    if s.spin != 2:
        bad += [("pure-spin", dict(purify_b=True)),
                ("pure-spin-e", dict(purify_e=True))]
    if s.spin:
        bad += BADSPINS
    return Call("NmtField", e.nmt.NmtField, kw, bad)


def k_field_aniso(e, rng):
    s = e.sN
    unit = 10.**rng.uniform(-12, 12)
    kw = dict(mask=s.mask.copy(), maps=s.maps.copy(), spin=s.spin,
              mask_22=s.aniso[0].copy(), mask_12=s.aniso[1].copy(),
              n_iter=1, n_iter_mask=1, **e.sky.kw())
    return Call("NmtField-aniso", e.nmt.NmtField, kw, [
        ("only22", dict(mask_12=None)), ("only12", dict(mask_22=None)),
        ("not-positive", dict(mask_12=lambda m: 10+np.abs(m)*10)),
        ("not-positive-units", dict(
            mask=lambda m: m*unit, mask_22=lambda m: m*unit,
            mask_12=lambda m: unit*np.max(s.mask+s.aniso[0]))),
        ("size22", dict(mask_22=fewer)), ("size12", dict(mask_12=fewer)),
        ("scalar", dict(spin=0, maps=s.maps[:1])),
        ("scalar-mask-only", dict(spin=0, maps=None)),
        ("templates", dict(templates=np.array([s.maps]))),
        ("pure", dict(purify_b=True, spin=2)),
        ("pure-mask-only", dict(purify_e=True, spin=2, maps=None))])


def k_catalog(e, rng):
    kw = copies(e.cat)
    n = len(kw["weights"])
    if rng.random() < .3:
        kw["lonlat"] = True
        kw["positions"] = np.array([np.degrees(kw["positions"][1]),
                                    90-np.degrees(kw["positions"][0])])
    if rng.random() < .2:
        kw["field"] = None
    th = 1 if kw.get("lonlat") else 0

    def out(p, i, v):
        p = p.copy()
        p[i, rng.integers(n)] = v
        return p
    bad = [("pos-len", dict(positions=short)),
           ("pos-dim", dict(positions=lambda p: np.vstack([p, p[:1]]))),
           ("w-len", dict(weights=short)),
           ("theta-high", dict(positions=lambda p: out(p, th, 1000.))),
           ("theta-low", dict(positions=lambda p: out(p, th, -1000.))),
           ("phi-high", dict(positions=lambda p: out(p, 1-th, 1000.))),
           ("phi-low", dict(positions=lambda p: out(p, 1-th, -1.))),
           ("theta-nan", dict(positions=lambda p: out(p, th, np.nan))),
           ("phi-nan", dict(positions=lambda p: out(p, 1-th, np.nan))),
           ("beam-len", dict(beam=short)), ("beam-scalar", dict(beam=2.))]
    if kw["field"] is not None:
        bad += [("field-len", dict(field=short)),
                ("field-n", dict(field=more)),
                ("field-spin", dict(spin=0 if e.s else 2))]
    else:
        bad += [("no-spin", dict(spin=None))]+BADSPINS
    return Call("NmtFieldCatalog", e.nmt.NmtFieldCatalog, kw, bad)


def k_clustering(e, rng):
    kw = copies(e.clu)
    n = len(kw["weights"])

    def out(p, i, v):
        p = p.copy()
        p[i, rng.integers(n)] = v
        return p
    return Call("NmtFieldCatalogClustering", e.nmt.NmtFieldCatalogClustering,
                kw, [
                    ("pos-len", dict(positions=short)),
                    ("w-len", dict(weights=short)),
                    ("rpos-len", dict(positions_rand=short)),
                    ("rw-len", dict(weights_rand=short)),
                    ("theta", dict(positions=lambda p: out(p, 0, 4.))),
                    ("phi", dict(positions=lambda p: out(p, 1, 7.))),
                    ("rtheta", dict(positions_rand=lambda p: out(p, 0, -1.))),
                    ("rphi", dict(positions_rand=lambda p: out(p, 1, -1.)))])


def pick2(e, rng, cat=True):
    p = ["A", "B", "P", "N"]
    a, b = rng.choice(p, 2)
    if cat and rng.random() < .25:
        b = "C"
    if rng.random() < .25:
        b = a
    return getattr(e, a), getattr(e, b)


def pairable(e, *fs):
    """(no matrices between purified and anisotropic fields)"""
    if e.P in fs and e.N in fs:
        return [e.B if f is e.P else f for f in fs]
    return fs


def badfields(e, k1, k2, pix=False):
    # other pixels matter only where maps or masks are multiplied
    return [("lmax", {k2: e.badL}), ("lmax1", {k1: e.badL})] + (
        [("pix", {k2: e.badP}), ("pix1", {k1: e.badP})] if pix else [])


def k_coupled(e, rng):
    f1, f2 = pick2(e, rng)
    bad = badfields(e, "f1", "f2")
    bad.append(("no-maps", dict(f1=e.Q[0])))
    return Call("compute_coupled_cell", e.nmt.compute_coupled_cell,
                dict(f1=f1, f2=f2), bad)


def k_deproj(e, rng):
    f1, f2 = [getattr(e, str(rng.choice(["A", "B", "P", "N"])))
              for _ in "ab"]
    lite = world.FieldSpec(rng, e.sky, spin=0, temps=1, lite=True, n_iter=0,
                           n_iter_mask=0).build(e.nmt)
    kw = dict(f1=f1, f2=f2, cl_guess=e.cl(f1.nmaps*f2.nmaps, e.L), n_iter=1)
    return Call("deprojection_bias", e.nmt.deprojection_bias, kw,
                badfields(e, "f1", "f2", True) + [
                    ("guess-len", dict(cl_guess=short)),
                    ("guess-n", dict(cl_guess=more)),
                    ("lite1", dict(f1=lite)), ("lite2", dict(f2=lite))])


def k_uncorr(e, rng):
    f = getattr(e, str(rng.choice(["A", "B", "P"])))
    lite = world.FieldSpec(rng, e.sky, spin=0, temps=1, lite=True, n_iter=0,
                           n_iter_mask=0).build(e.nmt)
    kw = dict(f1=f, map_var=np.abs(e.sky.noise(rng, 1)[0]), n_iter=1)
    return Call("uncorr_noise_deprojection_bias",
                e.nmt.uncorr_noise_deprojection_bias, kw,
                [("res", dict(map_var=fewer)), ("lite", dict(f1=lite))])


def wspkw(e, rng):
    f1, f2 = pairable(e, *pick2(e, rng))
    kw = dict(fl1=f1, fl2=f2, bins=e.b,
              normalization=str(rng.choice(["MASTER", "FKP"])))
    if f2 is e.C:
        kw["normalization"] = "MASTER"
    L = e.sky.lmax
    bad = badfields(e, "fl1", "fl2", kw["normalization"] == "FKP")
    bad += [("bins", dict(bins=e.badbins)), ("bins-none", dict(bins=None)),
            ("norm", dict(normalization="none")),
            ("field-none", dict(fl2=None)),
            ("teb-spins", dict(fl1=e.B, fl2=e.A, is_teb=True)),
            ("teb-spins2", dict(fl1=e.A, fl2=e.A, is_teb=True)),
            ("toeplitz-wide", dict(fl1=e.A, fl2=e.B, l_toeplitz=L+5,
                                   l_exact=2, dl_band=2)),
            ("toeplitz-exact", dict(fl1=e.A, fl2=e.B, l_toeplitz=L//2,
                                    l_exact=L//2+1, dl_band=1)),
            ("toeplitz-zero", dict(fl1=e.A, fl2=e.B, l_toeplitz=L//2,
                                   l_exact=0, dl_band=1)),
            ("toeplitz-pure", dict(fl1=e.A, fl2=e.P, l_toeplitz=L//2,
                                   l_exact=1, dl_band=1)),
            ("toeplitz-aniso", dict(fl1=e.A, fl2=e.N, l_toeplitz=L//2,
                                    l_exact=1, dl_band=1)),
            ("teb-aniso", dict(fl1=e.A, fl2=e.N, is_teb=True)),
            ("pure-aniso", dict(fl1=e.P, fl2=e.N)),
            ("aniso-pure", dict(fl1=e.N, fl2=e.P))]
    if f2 is e.C:
        bad += [("catalog-fkp", dict(normalization="FKP"))]
    return kw, bad


def k_wsp(e, rng):
    kw, bad = wspkw(e, rng)
    if rng.random() < .2 and kw["fl1"] is not e.N and kw["fl2"] is not e.N:
        kw.update(fl1=e.A, fl2=e.B, is_teb=True)
        bad = [b for b in bad if not b[0].startswith(("toep", "catalog"))]
    return Call("NmtWorkspace.from_fields", e.nmt.NmtWorkspace.from_fields,
                kw, bad)


def k_wsp_compute(e, rng):
    kw, bad = wspkw(e, rng)
    w = anyw(e, rng)
    return Call("compute_coupling_matrix", w.compute_coupling_matrix, kw,
                bad, target=w)


def neww(e):
    return e.nmt.NmtWorkspace.from_fields(e.A, e.B, e.b)


def anyw(e, rng):
    """A workspace in any state: empty, computed, read (in part)."""
    k = int(rng.integers(4))
    if k == 0:
        return e.nmt.NmtWorkspace()
    w = neww(e)
    if k > 1:
        f = e.file()
        w.write_to(f)
        w = e.nmt.NmtWorkspace.from_file(f, read_unbinned_MCM=k == 2)
    return w


def k_partial(e, rng):
    """Objects that hold only a part refuse what needs the rest."""
    k = str(rng.choice(["partial", "empty", "lite", "maponly", "empty-flat",
                        "empty-cov", "empty-covflat"]))
    nmt, n, nb = e.nmt, e.ncls, e.bs.n
    cl = e.cl(n, e.L)
    one = np.ones(e.L)
    f = e.file()
    if k in ("partial", "empty"):
        x = nmt.NmtWorkspace()
        if k == "partial":
            e.w.write_to(f)
            x.read_from(f, read_unbinned_MCM=False)
        do = dict(couple_cell=lambda: x.couple_cell(cl),
                  get_coupling_matrix=x.get_coupling_matrix,
                  get_bandpower_windows=x.get_bandpower_windows,
                  update_beams=lambda: x.update_beams(one, one),
                  update_bins=lambda: x.update_bins(e.b),
                  update_matrix=lambda: x.update_coupling_matrix(
                      np.eye(n*e.L)),
                  write_to=lambda: x.write_to(e.file()))
        do["decouple" if k == "empty" else "ok"] = \
            lambda: x.decouple_cell(cl)
        if k == "partial":
            # (binned matrices are enough for the covariance)
            del do["get_bandpower_windows"]
    elif k in ("lite", "maponly"):
        s = e.sA if rng.random() < .5 else e.sB
        x = s.build(nmt, lite=True) if k == "lite" else s.build(
            nmt, maps=None, templates=None)
        do = dict(get_maps=x.get_maps, get_templates=x.get_templates)
        if k == "maponly":
            do["get_alms"] = x.get_alms
            do["coupled"] = lambda: nmt.compute_coupled_cell(x, x)
        else:
            do["deprojection_bias"] = lambda: nmt.deprojection_bias(
                x, x, e.cl(s.nmaps**2, e.L))
        do["ok"] = x.get_mask_alms
    elif k == "empty-flat":
        x = nmt.NmtWorkspaceFlat()
        do = dict(couple=lambda: x.couple_cell(e.lf_s, e.cl(
            e.fncls, len(e.lf_s))), decouple=lambda: x.decouple_cell(
                e.cl(e.fncls, len(e.l0))), write=lambda: x.write_to(f))
    elif k == "empty-cov":
        x = nmt.NmtCovarianceWorkspace()
        a = e.cl(1, e.L)
        do = dict(write=lambda: x.write_to(f),
                  cov=lambda: nmt.gaussian_covariance(
                      x, 0, 0, 0, 0, a, a, a, a, e.wb))
    else:
        x = nmt.NmtCovarianceWorkspaceFlat()
        a = e.cl(1, len(e.lf_s))
        do = dict(write=lambda: x.write_to(f),
                  cov=lambda: nmt.gaussian_covariance_flat(
                      x, 0, 0, 0, 0, e.lf_s, a, a, a, a, e.fwb))
    do.setdefault("ok", lambda: probe(e, x))
    return Call("part-"+k, lambda do_what: do[do_what](),
                dict(do_what="ok"),
                [(m, dict(do_what=m)) for m in sorted(do) if m != "ok"],
                target=x)


def k_update_beams(e, rng):
    w = neww(e)
    kw = dict(beam1=1+rng.random(e.L), beam2=1+rng.random(e.L))
    return Call("update_beams", w.update_beams, kw, [
        ("short1", dict(beam1=short)), ("short2", dict(beam2=short)),
        ("none", dict(beam2=None)), ("scalar", dict(beam1=1.)),
        ("2d", dict(beam1=lambda b: np.array([b]*e.L)))], target=w)


def k_update_bins(e, rng):
    w = neww(e)
    kw = dict(bins=world.BinSpec(rng, e.sky.lmax).build(e.nmt))
    return Call("update_bins", w.update_bins, kw, [
        ("lmax", dict(bins=e.badbins)), ("none", dict(bins=None)),
        ("flat", dict(bins=e.fb))], target=w)


def k_update_matrix(e, rng):
    w = neww(e)
    n = e.ncls*e.L
    kw = dict(new_matrix=np.eye(n)+.1*rng.normal(size=(n, n)))
    return Call("update_coupling_matrix", w.update_coupling_matrix, kw, [
        ("rows", dict(new_matrix=fewer)), ("cols", dict(new_matrix=short)),
        ("bigger", dict(new_matrix=np.eye(n+1))),
        ("1d", dict(new_matrix=lambda m: m.ravel()))], target=w)


def k_couple(e, rng):
    return Call("couple_cell", e.w.couple_cell,
                dict(cl_in=e.cl(e.ncls, e.L)), [
                    ("n", dict(cl_in=more)), ("n-", dict(cl_in=fewer)),
                    ("short", dict(cl_in=short)),
                    ("1d", dict(cl_in=lambda x: x[0]))])


def k_decouple(e, rng):
    kw = dict(cl_in=e.cl(e.ncls, e.L), cl_bias=e.cl(e.ncls, e.L),
              cl_noise=e.cl(e.ncls, e.L))
    bad = []
    for k in kw:
        bad += [(k+"-n", {k: more}), (k+"-short", {k: short}),
                (k+"-1d", {k: lambda x: x[0]})]
    return Call("decouple_cell", e.w.decouple_cell, kw, bad)


def k_windows(e, rng):
    m = str(rng.choice(["get_bandpower_windows", "get_coupling_matrix"]))
    return Call(m, getattr(e.w, m), {})


def k_write(e, rng):
    k = str(rng.choice(["w", "cw", "fw", "fcw"]))
    f = e.file()
    nd = os.path.join(e.scratch, "no", "such", "dir", "x.fits")
    return Call("write_to-"+k, getattr(e, k).write_to,
                dict(fname=f), [("nodir", dict(fname=nd)),
                                ("isdir", dict(fname=e.scratch)),
                                ("none", dict(fname=None))])


def badfiles(e):
    """Files that are no workspace of any kind."""
    a = e.file()
    with open(a, "wb") as f:
        f.write(b"not a file of this kind\n"*100)
    c = e.file()
    open(c, "wb").close()
    return [("none", dict(fname=os.path.join(e.scratch, "none.fits"))),
            ("text", dict(fname=a)), ("empty", dict(fname=c)),
            ("dir", dict(fname=e.scratch)), ("type", dict(fname=5))]


def k_read(e, rng):
    k = str(rng.choice(["w", "cw", "fw", "fcw"]))
    src = getattr(e, k)
    f = e.file()
    src.write_to(f)
    t = type(src)()
    part = k == "w" and rng.random() < .4
    if rng.random() < .7:
        t.read_from(f, **({"read_unbinned_MCM": False} if part else {}))
    bad = badfiles(e)
    o = str(rng.choice([x for x in ["w", "cw", "fw", "fcw"] if x != k]))
    g = e.file()
    getattr(e, o).write_to(g)
    bad.append(("other-kind-%s-from-%s" % (k, o), dict(fname=g)))
    kw = dict(fname=f)
    if k == "w":
        kw["read_unbinned_MCM"] = bool(rng.random() < .7)
    return Call("read_from-"+k, t.read_from, kw, bad, target=t)


def k_master(e, rng):
    f1, f2 = pairable(e, *pick2(e, rng))
    if f2 is e.C:
        f2 = e.B
    n = f1.nmaps*f2.nmaps
    kw = dict(f1=f1, f2=f2, b=e.b, cl_noise=e.cl(n, e.L))
    if f1 is not e.N and f2 is not e.N:
        kw["cl_guess"] = e.cl(n, e.L)
    bad = badfields(e, "f1", "f2") + [
        ("noise-len", dict(cl_noise=short)),
        ("noise-n", dict(cl_noise=more)),
        ("guess-len", dict(cl_guess=e.cl(n, e.L-1))),
        ("guess-n", dict(cl_guess=e.cl(n+1, e.L))),
        ("bins", dict(b=e.badbins)), ("nothing", dict(b=None)),
        ("norm", dict(normalization="none"))]
    if rng.random() < .3:
        kw.update(f1=e.A, f2=e.B, workspace=e.w, b=None,
                  cl_noise=e.cl(e.ncls, e.L), cl_guess=None)
        bad = [("noise-len", dict(cl_noise=short)),
               ("noise-n", dict(cl_noise=more)),
               ("wsp-spins", dict(workspace=e.w00)),
               ("nothing", dict(workspace=None))]
    return Call("compute_full_master", e.nmt.compute_full_master, kw, bad)


def k_cov_compute(e, rng):
    kw = dict(fla1=e.Q[0], fla2=e.Q[1], flb1=e.Q[0], flb2=e.Q[1],
              spin0_only=bool(rng.random() < .3))
    w = e.nmt.NmtCovarianceWorkspace.from_fields(*[e.Q[0]]*4)
    L = e.sky.lmax
    bad = [("lmax", dict(flb2=e.badL)), ("pix", dict(fla2=e.badP)),
           ("pixb", dict(flb1=e.badP)), ("none", dict(fla1=None)),
           ("catalog", dict(fla1=e.K)), ("aniso", dict(fla2=e.N)),
           ("toeplitz-wide", dict(l_toeplitz=L+3, l_exact=1, dl_band=1)),
           ("toeplitz-exact", dict(l_toeplitz=L//2, l_exact=L//2+1,
                                   dl_band=1))]
    if rng.random() < .5:
        return Call("NmtCovarianceWorkspace.from_fields",
                    e.nmt.NmtCovarianceWorkspace.from_fields, kw, bad)
    return Call("compute_coupling_coefficients",
                w.compute_coupling_coefficients, kw, bad, target=w)


def k_cov(e, rng):
    kw = dict(cw=e.cw, spin_a1=0, spin_a2=2, spin_b1=0, spin_b2=0,
              cla1b1=e.cl(1, e.L), cla1b2=e.cl(1, e.L), cla2b1=e.cl(2, e.L),
              cla2b2=e.cl(2, e.L), wa=e.wa, wb=e.wb,
              coupled=bool(rng.random() < .5))
    w0 = e.nmt.NmtCovarianceWorkspace.from_fields(*[e.Q[0]]*4,
                                                  spin0_only=True)
    f2 = world.FieldSpec(rng, e.sky2, spin=0, n_iter=0, n_iter_mask=0,
                         mask=e.sQ[0].mask, maponly=True).build(e.nmt)
    w2 = e.nmt.NmtCovarianceWorkspace.from_fields(f2, f2, f2, f2)
    bad = [("spin-wsp", dict(spin_a2=0)), ("wsp-swapped",
                                           dict(wa=e.wb, wb=e.wa)),
           ("spin0-only", dict(cw=w0)), ("none", dict(wa=None)),
           ("lmax", dict(cw=w2)), ("lmax-b", dict(wb=e.longer(rng)))]
    for k in ("cla1b1", "cla1b2", "cla2b1", "cla2b2"):
        bad += [(k+"-n", {k: more}), (k+"-short", {k: short})]
    return Call("gaussian_covariance", e.nmt.gaussian_covariance, kw, bad)


def k_apod(e, rng):
    n = int(rng.choice([2, 4]))
    m = (rng.random(12*n*n) > .3)*1.
    kw = dict(mask_in=m, aposize=float(rng.uniform(15, 60)),
              apotype=str(rng.choice(["C1", "C2", "Smooth"])))
    return Call("mask_apodization", e.nmt.mask_apodization, kw, [
        ("len", dict(mask_in=np.ones(13))),
        ("empty", dict(mask_in=np.ones(0))),
        ("type", dict(apotype="C3")),
        ("negative", dict(aposize=-1.)), ("none", dict(mask_in=None))])


def k_synfast(e, rng):
    lm = 3*2-1
    sp = [0, 2] if rng.random() < .5 else [0]
    nm = 3 if len(sp) == 2 else 1
    cls = np.zeros((nm*(nm+1)//2, lm+1))
    for i, k in enumerate([0, 3, 5] if nm == 3 else [0]):
        cls[k] = 1./(1+np.arange(lm+1))
    kw = dict(nside=2, cls=cls, spin_arr=np.array(sp),
              beam=np.array([np.exp(-.1*np.arange(lm+1))]*len(sp)),
              seed=int(rng.integers(1, 10**6)))
    if e.sky.pix == "car" and rng.random() < .5:
        kw["wcs"] = e.sky.wcs
    return Call("synfast_spherical", e.nmt.synfast_spherical, kw, [
        ("ncls", dict(cls=more)), ("spin", dict(spin_arr=np.array([-1]))),
        ("spin-fraction", dict(spin_arr=np.array([.5, 2.5][:len(sp)]))),
        ("beam-n", dict(beam=more)), ("beam-len", dict(beam=short)),
        ("spins-n", dict(spin_arr=np.array([0, 0, 0, 2])))])


def k_sht(e, rng):
    s = int(rng.choice([0, 0, 1, 2, 3]))
    ai = e.nmt.NmtAlmInfo(e.sky.lmax)
    na = 2 if s else 1
    if rng.random() < .5:
        kw = dict(map=rng.normal(size=(na, e.minfo.npix)), spin=s,
                  map_info=e.minfo, alm_info=ai, n_iter=int(
                      rng.integers(0, 3)))
        bad = [("res", dict(map=short)), ("spin", dict(spin=-2))]
        return Call("map2alm", e.nmt.map2alm, kw, bad)
    n = ai.nelem
    a = rng.normal(size=(na, n))+1j*rng.normal(size=(na, n))
    a[:, :e.L].imag = 0
    kw = dict(alm=a, spin=s, map_info=e.minfo, alm_info=ai)
    return Call("alm2map", e.nmt.alm2map, kw, [
        ("res", dict(alm=short)), ("spin", dict(spin=-2))])


def k_pinv(e, rng):
    n = int(rng.integers(1, 6))
    a = rng.normal(size=(n, n))
    kw = dict(mat=a @ a.T, tol_pinv=float(rng.choice([1e-10, 1e-3, 0])))
    return Call("moore_penrose_pinvh", e.nmt.moore_penrose_pinvh, kw, [
        ("rect", dict(mat=np.ones((2, 3)))), ("1d", dict(mat=np.ones(3)))])


def k_minfo(e, rng):
    kw = dict(wcs=e.sky.wcs, axes=e.sky.shape)
    if e.sky.pix == "hpx":
        bad = [("npix", dict(axes=(13,))), ("zero", dict(axes=(0,)))]
    else:
        bad = [("nowcs", dict(wcs=None)),
               ("taller", dict(axes=(e.sky.shape[0]*2, e.sky.shape[1]))),
               ("wider", dict(axes=(e.sky.shape[0], e.sky.shape[1]*2)))]
    return Call("NmtMapInfo", e.nmt.NmtMapInfo, kw, bad)


def k_bin_flat(e, rng):
    kw = dict(l0=e.l0.copy(), lf=e.lf.copy())
    return Call("NmtBinFlat", e.nmt.NmtBinFlat, kw, [
        ("len", dict(l0=more)), ("empty", dict(l0=e.l0[:0], lf=e.l0[:0])),
        ("swapped", dict(l0=e.lf.copy(), lf=e.l0.copy())),
        ("order", dict(l0=e.l0[::-1].copy(), lf=e.lf[::-1].copy())),
        ("nan", dict(l0=lambda x: x*np.nan)),
        ("overlap", dict(l0=np.array([10., 40., 70.]),
                         lf=np.array([50., 70., 90.]))),
        ("inside", dict(l0=np.array([10., 20.]), lf=np.array([90., 60.]))),
        ("2d", dict(l0=e.l0[None], lf=e.lf[None]))])


def k_bin_flat_cell(e, rng):
    n = int(rng.integers(1, 4))
    if rng.random() < .5:
        kw = dict(ells=e.lf_s.copy(), cls_in=e.cl(n, len(e.lf_s)))
        return Call("flat-bin_cell", e.fb.bin_cell, kw, [
            ("short", dict(cls_in=short)), ("ells", dict(ells=short)),
            ("3d", dict(cls_in=lambda x: x[None]))])
    kw = dict(ells=e.lf_s.copy(), cls_in=e.cl(n, 2))
    return Call("flat-unbin_cell", e.fb.unbin_cell, kw, [
        ("short", dict(cls_in=short)), ("long", dict(cls_in=long)),
        ("3d", dict(cls_in=lambda x: x[None]))])


def k_field_flat(e, rng):
    s = e.sG if rng.random() < .4 else e.sH
    F = e.F
    bl = np.linspace(0, 1.2*F.k.max(), 30)
    pure = s.spin == 2 and rng.random() < .5
    kw = dict(lx=F.lx, ly=F.ly, mask=s.mask.copy(), maps=s.maps.copy(),
              spin=s.spin, templates=copies(s.temps),
              beam=np.array([bl, np.exp(-bl/bl.max())]),
              purify_b=bool(pure), lite=bool(rng.random() < .2),
              masked_on_input=bool(rng.random() < .2))
    sh = s.maps.shape
    bad = [("lx", dict(lx=-1.)), ("ly", dict(ly=-1.)),
           ("mask-shape", dict(mask=short)),
           ("maps-shape", dict(maps=short)),
           ("maps-three", dict(maps=np.ones((3,)+sh[1:]))),
           ("maps-spin", dict(maps=np.ones((1 if s.spin else 2,)+sh[1:]))),
           ("temp-nmaps", dict(templates=np.ones(
               (1, 1 if s.spin else 2)+sh[1:]))),
           ("temp-shape", dict(templates=np.ones((1,)+sh[:-1]
                                                 + (sh[-1]+1,)))),
           ("temp-scalar", dict(templates=2.)),
           ("beam-scalar", dict(beam=2.)),
           ("mask-1d", dict(mask=lambda m: m.ravel()))]
    if s.spin != 2:
        bad += [("pure", dict(purify_b=True)), ("pure", dict(purify_e=True))]
    if rng.random() < .2:
        kw.update(maps=None, templates=None, lite=False)
        bad = [b for b in bad if not b[0].startswith(("maps", "temp",
                                                      "mask-shape"))]
        bad += [("no-spin", dict(spin=None))]
    if s.spin:
        bad += BADSPINS
    return Call("NmtFieldFlat", e.nmt.NmtFieldFlat, kw, bad)


def flatpair(e, rng):
    a, b = [getattr(e, str(rng.choice(["G", "H"]))) for _ in "ab"]
    return a, b


def k_coupled_flat(e, rng):
    a, b = flatpair(e, rng)
    cx = [float(x) for x in rng.uniform(0, e.F.k.max(), 2)]
    kw = dict(f1=a, f2=b, b=e.fb, ell_cut_x=cx, ell_cut_y=[1., -1.])
    return Call("compute_coupled_cell_flat",
                e.nmt.compute_coupled_cell_flat, kw, [
                    ("res", dict(f1=e.badF)), ("res2", dict(f2=e.badF)),
                    ("none", dict(b=None))])


def k_deproj_flat(e, rng):
    a, b = flatpair(e, rng)
    n = a.fl.nmaps*b.fl.nmaps
    kw = dict(f1=a, f2=b, b=e.fb, ells=e.lf_s.copy(),
              cl_guess=e.cl(n, len(e.lf_s)))
    lite = c17.FF(rng, e.F, spin=0, temps=1)
    lite = lite.build(e.nmt, lite=True)
    return Call("deprojection_bias_flat", e.nmt.deprojection_bias_flat, kw, [
        ("res", dict(f1=e.badF)), ("res2", dict(f2=e.badF)),
        ("guess-len", dict(cl_guess=short)), ("guess-n",
                                              dict(cl_guess=more)),
        ("ells", dict(ells=short)), ("lite", dict(f1=lite)),
        ("lite2", dict(f2=lite))])


def k_wsp_flat(e, rng):
    w = e.nmt.NmtWorkspaceFlat()
    if rng.random() < .7:
        w.compute_coupling_matrix(e.G, e.G, e.fb)
    kw = dict(fl1=e.G, fl2=e.H, bins=e.fb, is_teb=bool(rng.random() < .3))
    return Call("flat-compute_coupling_matrix", w.compute_coupling_matrix,
                kw, [
                    ("res", dict(fl1=e.badF)), ("res2", dict(fl2=e.badF)),
                    ("bins", dict(bins=None)), ("field", dict(fl1=None)),
                    ("teb", dict(fl1=e.H, fl2=e.G, is_teb=True)),
                    ("teb2", dict(fl1=e.G, fl2=e.G, is_teb=True)),
                    ("bins-curved", dict(bins=e.b))], target=w)


def k_couple_flat(e, rng):
    kw = dict(ells=e.lf_s.copy(), cl_in=e.cl(e.fncls, len(e.lf_s)))
    return Call("flat-couple_cell", e.fw.couple_cell, kw, [
        ("n", dict(cl_in=more)), ("short", dict(cl_in=short)),
        ("ells", dict(ells=short))])


def k_decouple_flat(e, rng):
    kw = dict(cl_in=e.cl(e.fncls, 2), cl_bias=e.cl(e.fncls, 2),
              cl_noise=e.cl(e.fncls, 2))
    bad = []
    for k in kw:
        bad += [(k+"-n", {k: more}), (k+"-short", {k: short}),
                (k+"-long", {k: long})]
    return Call("flat-decouple_cell", e.fw.decouple_cell, kw, bad)


def other_edges(e, rng):
    """As many bands, one edge of one of them elsewhere."""
    l0, lf = np.array(e.l0, dtype=float), np.array(e.lf, dtype=float)
    i = int(rng.integers(len(l0)))
    d = .3*(lf[i]-l0[i])
    if rng.random() < .5:
        l0[i] += d
    else:
        lf[i] -= d
    return e.nmt.NmtBinFlat(l0, lf)


def k_master_flat(e, rng):
    a, b = e.G, e.H
    n = e.fncls
    kw = dict(f1=a, f2=b, b=e.fb, cl_noise=e.cl(n, 2),
              cl_guess=e.cl(n, len(e.lf_s)), ells_guess=e.lf_s.copy())
    if rng.random() < .5:
        kw["workspace"] = e.fw
    other = e.nmt.NmtBinFlat(*[np.concatenate([x, [e.lf[-1]+i]])
                               for i, x in enumerate((e.l0, e.lf))])
    return Call("compute_full_master_flat", e.nmt.compute_full_master_flat,
                kw, [
                    ("res", dict(f1=e.badF)), ("res2", dict(f2=e.badF)),
                    ("noise-n", dict(cl_noise=more)),
                    ("noise-len", dict(cl_noise=long)),
                    ("guess-n", dict(cl_guess=more)),
                    ("guess-len", dict(cl_guess=short)),
                    ("ells", dict(ells_guess=None)),
                    ("wsp-spins", dict(workspace=e.fwb)),
                    ("wsp-bands", dict(b=other, cl_noise=None,
                                       workspace=e.fw)),
                    ("wsp-edges", dict(b=other_edges(e, rng),
                                       workspace=e.fw))])


def k_cov_flat_compute(e, rng):
    w = e.nmt.NmtCovarianceWorkspaceFlat()
    if rng.random() < .7:
        w.compute_coupling_coefficients(e.Qf[0], e.Qf[0], e.fb)
    kw = dict(fla1=e.Qf[0], fla2=e.Qf[1], bin_a=e.fb, flb1=e.Qf[0],
              flb2=e.Qf[1], bin_b=e.fb)
    other = e.nmt.NmtBinFlat(*[np.concatenate([x, [e.lf[-1]+i]])
                               for i, x in enumerate((e.l0, e.lf))])
    return Call("flat-compute_coupling_coefficients",
                w.compute_coupling_coefficients, kw, [
                    ("res", dict(fla1=e.badF)), ("res2", dict(fla2=e.badF)),
                    ("res3", dict(flb1=e.badF)), ("res4", dict(flb2=e.badF)),
                    ("bins", dict(bin_a=None)), ("bands", dict(bin_b=other)),
                    ("none", dict(fla1=None))],
                target=w)


def k_cov_flat(e, rng):
    n = len(e.lf_s)
    kw = dict(cw=e.fcw, spin_a1=0, spin_a2=2, spin_b1=0, spin_b2=0,
              larr=e.lf_s.copy(), cla1b1=e.cl(1, n), cla1b2=e.cl(1, n),
              cla2b1=e.cl(2, n), cla2b2=e.cl(2, n), wa=e.fwa, wb=e.fwb)
    bad = [("spin-wsp", dict(spin_a2=0)), ("none", dict(wa=None)),
           ("larr", dict(larr=short)),
           ("swapped", dict(wa=e.fwb, wb=e.fwa))]
    for k, (f1, f2) in (("wa", (e.Qf[0], e.Qf[1])),
                        ("wb", (e.Qf[0], e.Qf[0]))):
        w = e.nmt.NmtWorkspaceFlat()
        w.compute_coupling_matrix(f1, f2, other_edges(e, rng))
        bad.append(("edges-"+k, {k: w}))
    for k in ("cla1b1", "cla1b2", "cla2b1", "cla2b2"):
        bad += [(k+"-n", {k: more}), (k+"-short", {k: short})]
    return Call("gaussian_covariance_flat", e.nmt.gaussian_covariance_flat,
                kw, bad)


def k_apod_flat(e, rng):
    F = e.F
    kw = dict(mask_in=(rng.random(F.shape) > .3)*1., lx=F.lx, ly=F.ly,
              aposize=float(np.degrees(rng.uniform(.1, .6)*F.lx)),
              apotype=str(rng.choice(["C1", "C2", "Smooth"])))
    return Call("mask_apodization_flat", e.nmt.mask_apodization_flat, kw, [
        ("1d", dict(mask_in=lambda m: m.ravel())),
        ("type", dict(apotype="none")), ("negative", dict(aposize=-1.)),
        ("lx", dict(lx=-1.)), ("lx0", dict(lx=0.)), ("ly0", dict(ly=0.))])


def k_synfast_flat(e, rng):
    F = e.F
    lm = int(1.2*F.k.max())+2
    sp = [0, 2] if rng.random() < .5 else [0]
    nm = 3 if len(sp) == 2 else 1
    cls = np.zeros((nm*(nm+1)//2, lm+1))
    for i, k in enumerate([0, 3, 5] if nm == 3 else [0]):
        cls[k] = 1./(1+np.arange(lm+1))
    kw = dict(nx=F.nx, ny=F.ny, lx=F.lx, ly=F.ly, cls=cls,
              spin_arr=np.array(sp),
              beam=np.array([np.exp(-np.arange(lm+1.)/lm)]*len(sp)),
              seed=int(rng.integers(1, 10**6)))
    return Call("synfast_flat", e.nmt.synfast_flat, kw, [
        ("ncls", dict(cls=more)), ("spin", dict(spin_arr=np.array([-1]))),
        ("spin-fraction", dict(spin_arr=np.array([.5, 2.5][:len(sp)]))),
        ("beam-n", dict(beam=more)), ("beam-len", dict(beam=short)),
        ("nx", dict(nx=0)), ("ny", dict(ny=-2)), ("lx", dict(lx=-1.)),
        ("ly", dict(ly=0.))])


def k_settings(e, rng):
    """Only refusals: the valid call changes nothing."""
    n = e.nmt
    p = n.get_default_params()
    k = int(rng.integers(3))
    if k == 0:
        return Call("set_sht_calculator", n.set_sht_calculator,
                    dict(calc_name=p["sht_calculator"]),
                    [("name", dict(calc_name="none")),
                     ("none", dict(calc_name=None))])
    if k == 1:
        m = bool(rng.random() < .5)
        return Call("set_n_iter_default", n.set_n_iter_default,
                    dict(n_iter=p["n_iter_mask_default" if m else
                                  "n_iter_default"], mask=m),
                    [("negative", dict(n_iter=-1)),
                     ("none", dict(n_iter=None)),
                     ("text", dict(n_iter="a"))])
    return Call("set_tol_pinv_default", n.set_tol_pinv_default,
                dict(tol_pinv=p["tol_pinv_default"]),
                [("negative", dict(tol_pinv=-1.)),
                 ("big", dict(tol_pinv=2.)), ("none", dict(tol_pinv=None))])


KINDS = {k[2:]: v for k, v in list(globals().items()) if k.startswith("k_")}


def draw(env, rng, kind=None):
    kind = kind or str(rng.choice(sorted(KINDS)))
    return KINDS[kind](env, rng)
