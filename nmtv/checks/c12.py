"""C12: catalogue fields equal direct sums over sources."""
import random

import ducc0
import numpy as np

from nmtv import gen, ref, rt, world

RULE = ("Random catalogues (1-3000 sources, poles, repeated positions, zero "
        "and negative weights, spins 0-5, both coordinate conventions), "
        "clustering catalogues and catalogues at pixel centres; coefficients "
        "against direct sums, noise terms against single-source moments, "
        "matrices against the analytic sum over the mask spectrum without "
        "its shot noise, refusal of invalid catalogues.")
ASSUMPTIONS = ["Non-uniform transforms are accurate to 1e-5 (their epsilon); "
               "comparisons allow 2e-4 of the largest coefficient."]
MIN_EVENTS = {"direct sums": 100, "matrices": 20, "refusals checked": 100}
QUICK_ROUNDS = 12
TOL = 2e-4


def cases(seed, tier):
    r = random.Random("C12-%d" % seed)
    n = 1500 if tier == "thorough" else 240
    return [dict(kind=r.choice(["field", "field", "clustering", "pixels",
                                "wsp", "refuse"]),
                 seed=r.randrange(1 << 30)) for _ in range(n)]


def direct(vals, th, ph, spin, lmax):
    """sum_i v_i conj(sYlm(i)): one single-pixel ring per source."""
    o = np.argsort(th, kind="stable")
    n = len(th)
    return ducc0.sht.adjoint_synthesis(
        map=np.ascontiguousarray(np.atleast_2d(vals)[:, o]), spin=spin,
        lmax=lmax, theta=th[o], phi0=ph[o], nphi=np.ones(n, dtype=np.uint64),
        ringstart=np.arange(n, dtype=np.uint64), nthreads=1)


def direct0(vals, th, ph, lmax):
    """the same for spin 0 from scipy's spherical harmonics"""
    import scipy.special as sp
    ls, ms = ref.lm_arrays(lmax)
    if hasattr(sp, "sph_harm_y"):
        y = sp.sph_harm_y(ls[:, None], ms[:, None], th[None], ph[None])
    else:
        y = sp.sph_harm(ms[:, None], ls[:, None], ph[None], th[None])
    return np.conj(y) @ vals


def positions(rng, n):
    th = np.arccos(rng.uniform(-1, 1, n))
    ph = rng.uniform(0, 2*np.pi, n)
    if n > 3 and rng.random() < .4:
        th[0], th[1] = 0., np.pi
        ph[2] = 0.
        ph[3] = 2*np.pi
    if n > 6 and rng.random() < .3:
        th[4], ph[4] = th[5], ph[5]
    return th, ph


def lonlat(th, ph):
    return np.array([np.degrees(ph), np.clip(90-np.degrees(th), -90, 90)])


def weights(rng, n):
    w = rng.uniform(.2, 2., n)
    k = rng.random()
    if k < .2:
        w = np.ones(n)
    elif k < .4 and n > 2:
        w[rng.integers(n)] = 0.
    elif k < .5 and n > 2:
        w[rng.integers(n)] *= -.5
    return w


def make(nmt, rng, spin=None, lmax=None, lmm=None, n=None):
    n = n or int(rng.choice([1, 2, 5, 20, 60, 300] if rng.random() < .95
                            else [3000]))
    th, ph = positions(rng, n)
    w = weights(rng, n)
    spin = int(rng.choice([0, 0, 1, 2, 2, 3, 4])) if spin is None else spin
    v = rng.normal(size=(2 if spin else 1, n))
    lmax = lmax or int(rng.integers(max(3, spin), 20))
    lmm = lmm or int(rng.integers(2, 24))
    return th, ph, w, spin, v, lmax, lmm


def run(c, M):
    import pymaster as nmt
    rng = gen.rng_of(c)
    k = c["kind"]
    if k == "refuse":
        return refuse(nmt, M, rng)
    if k == "clustering":
        return clustering(nmt, M, rng)
    if k == "pixels":
        return pixels(nmt, M, rng)
    th, ph, w, spin, v, lmax, lmm = make(nmt, rng)
    if k == "wsp":
        return wsp(nmt, M, rng)
    n = len(w)
    pos = np.array([th, ph])
    f = nmt.NmtFieldCatalog(pos, w, v, lmax, lmax_mask=lmm, spin=spin)
    M.state("field", n, spin, lmax > lmm)
    a = direct(v*w, th, ph, spin, lmax)
    am = direct(w, th, ph, 0, lmm)[0]
    sca = np.sqrt(np.sum((v*w)**2)*lmax)+1e-30
    scm = np.sqrt(np.sum(w**2)*lmm)
    M.close("alm", f.get_alms(), a, rtol=TOL, scale=sca)
    M.close("mask-alm", f.get_mask_alms(), am, rtol=TOL, scale=scm)
    if spin == 0:
        M.close("alm-scipy", f.get_alms()[0],
                direct0((v*w)[0], th, ph, lmax), rtol=TOL, scale=sca)
    M.seen("direct sums", 2)
    M.close("Nw", f.Nw, np.sum(w**2)/(4*np.pi), rtol=1e-12)
    # moments: mean pseudo-spectrum of sources with random orientations
    one = np.zeros((2 if spin else 1, lmax+1))
    for i in range(min(n, 40)):
        ai = direct(v[:, i:i+1]*w[i], th[i:i+1], ph[i:i+1], spin, lmax)
        one += [ref.alm2cl(x, x, lmax) for x in ai]
    if n <= 40:
        M.close("noise-moment", np.mean(one[:, spin:], axis=0),
                np.full(lmax+1-spin, f.Nf), rtol=1e-9)
    M.close("Nf", f.Nf, np.sum((v*w)**2)/(4*np.pi*len(v)), rtol=1e-12)
    M.true("alpha", f.alpha is None, f.alpha)
    # spectra: shot noise only from auto-spectra
    got = nmt.compute_coupled_cell(f, f)
    pc = np.array([ref.alm2cl(x, y, lmax) for x in a for y in a])
    nf = np.zeros(len(pc))
    for i in range(len(a)):
        nf[i*len(a)+i] = f.Nf
    scl = np.max(np.abs(pc))+f.Nf
    M.close("auto", got, pc-nf[:, None], rtol=5*TOL, scale=scl)
    g = nmt.NmtFieldCatalog(pos, w, v, lmax, lmax_mask=lmm, spin=spin)
    M.close("cross", nmt.compute_coupled_cell(f, g), pc, rtol=5*TOL,
            scale=scl)
    # same field, other inputs
    asc = np.max(np.abs(f.get_alms()))+1e-30
    h = nmt.NmtFieldCatalog(lonlat(th, ph), w, v, lmax, lmax_mask=lmm,
                            spin=spin, lonlat=True)
    M.close("lonlat", h.get_alms(), f.get_alms(), rtol=TOL, scale=sca)
    M.close("lonlat-mask", h.get_mask_alms(), f.get_mask_alms(), rtol=TOL,
            scale=scm)
    h = nmt.NmtFieldCatalog(pos, w, v*w, lmax, lmax_mask=lmm, spin=spin,
                            field_is_weighted=True)
    M.close("weighted", h.get_alms(), f.get_alms(), rtol=1e-12, scale=asc)
    M.close("weighted-Nf", h.Nf, f.Nf, rtol=1e-12)
    M.close("weighted-Nw", h.Nw, f.Nw, rtol=1e-12)
    p = rng.permutation(n)
    h = nmt.NmtFieldCatalog([list(th[p]), list(ph[p])], list(w[p]),
                            [list(x[p]) for x in v], lmax, lmax_mask=lmm,
                            spin=spin)
    M.close("permuted", h.get_alms(), f.get_alms(), rtol=TOL, scale=sca)
    M.close("permuted-Nf", h.Nf, f.Nf, rtol=1e-12)
    # defaults
    if spin in (0, 2):
        h = nmt.NmtFieldCatalog(pos, w, v[0] if spin == 0 else v, lmax)
        M.true("default-spin", h.spin == spin)
        M.close("default-lmax_mask", h.get_mask_alms(),
                direct(w, th, ph, 0, lmax)[0], rtol=TOL, scale=scm)
    # positions only
    h = nmt.NmtFieldCatalog(pos, w, None, lmax, lmax_mask=lmm, spin=spin)
    M.close("maskonly", h.get_mask_alms(), f.get_mask_alms(), rtol=1e-12)
    M.raises("maskonly-alms", h.get_alms)
    for m in (f.get_mask, f.get_maps, f.get_templates):
        M.raises("no-maps", m)


def clustering(nmt, M, rng):
    n, m = int(rng.choice([1, 5, 40, 200])), int(rng.choice([1, 30, 300]))
    th, ph = positions(rng, n)
    tr, pr = positions(rng, m)
    w, wr = np.abs(weights(rng, n))+.1, np.abs(weights(rng, m))+.1
    lmax = int(rng.integers(3, 20))
    f = nmt.NmtFieldCatalogClustering([th, ph], w, [tr, pr], wr, lmax)
    al = np.sum(w)/np.sum(wr)
    am = al*direct(wr, tr, pr, 0, lmax)
    a = direct(w, th, ph, 0, lmax)-am
    sc = np.sqrt(np.sum(w**2)*lmax)+al*np.sqrt(np.sum(wr**2)*lmax)
    M.state("clustering", n, m, lmax)
    M.close("c-alpha", f.alpha, al, rtol=1e-12)
    M.close("c-alm", f.get_alms(), a, rtol=TOL, scale=sc)
    M.close("c-mask-alm", f.get_mask_alms(), am[0], rtol=TOL, scale=sc)
    M.seen("direct sums", 2)
    nw = al**2*np.sum(wr**2)/(4*np.pi)
    M.close("c-Nw", f.Nw, nw, rtol=1e-12)
    M.close("c-Nf", f.Nf, np.sum(w**2)/(4*np.pi)+nw, rtol=1e-12)
    M.true("c-spin", f.spin == 0)
    # mean density vanishes
    M.close("c-monopole", f.get_alms()[0][0], 0., rtol=TOL, scale=sc)
    g = nmt.NmtFieldCatalogClustering(lonlat(th, ph), w, lonlat(tr, pr), wr,
                                      lmax, lonlat=True)
    M.close("c-lonlat", g.get_alms(), f.get_alms(), rtol=TOL, scale=sc)
    got = nmt.compute_coupled_cell(f, f)
    pc = ref.alm2cl(a[0], a[0], lmax)
    M.close("c-auto", got[0], pc-f.Nf, rtol=5*TOL, scale=sc**2)
    M.close("c-cross", nmt.compute_coupled_cell(f, g)[0], pc, rtol=5*TOL,
            scale=sc**2)
    # normalisation of the randoms is irrelevant
    g = nmt.NmtFieldCatalogClustering([th, ph], w, [tr, pr], 3*wr, lmax)
    M.close("c-scale", g.get_alms(), f.get_alms(), rtol=1e-6, scale=sc)
    M.close("c-scale-Nf", g.Nf, f.Nf, rtol=1e-12)
    b = world.BinSpec(rng, lmax)
    bb = b.build(nmt)
    wk = nmt.NmtWorkspace.from_fields(f, f, bb)
    pm = ref.alm2cl(am[0], am[0], lmax)-nw
    mc = ref.mcm(pm, 0, 0, lmax)
    M.close("c-mcm", wk.get_coupling_matrix(), mc, rtol=5*TOL,
            scale=np.max(np.abs(mc))+nw*lmax)
    M.seen("matrices")
    full = None
    try:
        full = nmt.compute_full_master(f, f, bb)
    except RuntimeError:
        pass      # singular matrices of tiny random catalogues
    if full is not None:
        M.close("c-full", full, wk.decouple_cell(got), rtol=1e-10)
        M.seen("estimates")


def pixels(nmt, M, rng):
    """A catalogue at pixel centres with weights mask*area is the map."""
    sky = world.Sky(rng, crop=rng.random() < .3)
    spin = min(int(rng.choice([0, 1, 2, 3, 5])), sky.lmax)
    fs = world.FieldSpec(rng, sky, spin=spin, n_iter=0, n_iter_mask=0)
    f = fs.build(nmt)
    T = world.Trans(sky)
    th, ph = [np.ravel(x) for x in sky.angles()]
    ar = T.weights().ravel()
    w = fs.mask.ravel()*ar
    v = fs.maps.reshape(fs.nmaps, -1)
    keep = rng.random() < .5
    sel = w > 0 if keep else np.ones(len(w), bool)
    g = nmt.NmtFieldCatalog([th[sel], np.mod(ph, 2*np.pi)[sel]], w[sel],
                            v[:, sel], sky.lmax, lmax_mask=sky.lmax_mask,
                            spin=spin, beam=fs.beam)
    M.state("pixels", sky.pix, spin, keep)
    sc = np.max(np.abs(f.get_alms()))
    M.close("pix-alm", g.get_alms(), f.get_alms(), rtol=TOL, scale=sc*10)
    M.close("pix-mask", g.get_mask_alms(), f.get_mask_alms(), rtol=TOL)
    M.seen("direct sums", 2)
    a = nmt.compute_coupled_cell(f, f)
    b = nmt.compute_coupled_cell(g, g)
    n = fs.nmaps
    for i in range(n):
        b[i*n+i] += g.Nf
    M.close("pix-auto", b, a, rtol=5*TOL, scale=10*np.max(np.abs(a)))
    M.close("pix-cross", nmt.compute_coupled_cell(f, g), a, rtol=5*TOL,
            scale=10*np.max(np.abs(a)))
    # matrix of map x catalogue
    bs = world.BinSpec(rng, sky.lmax).build(nmt)
    m1 = nmt.NmtWorkspace.from_fields(f, f, bs).get_coupling_matrix()
    m2 = nmt.NmtWorkspace.from_fields(f, g, bs).get_coupling_matrix()
    M.close("pix-mcm", m2, m1, rtol=5*TOL)
    M.seen("matrices")


def wsp(nmt, M, rng):
    lmax = int(rng.integers(4, 12))
    lmm = int(rng.integers(3, 14))
    fl, am = [], []
    for _ in range(2):
        th, ph, w, spin, v, _, _ = make(nmt, rng, lmax=lmax, lmm=lmm, n=200)
        fl.append(nmt.NmtFieldCatalog([th, ph], w, v, lmax, lmax_mask=lmm,
                                      spin=spin))
        am.append(direct(w, th, ph, 0, lmm)[0])
    bs = world.BinSpec(rng, lmax)
    b = bs.build(nmt)
    f, g = fl
    M.state("wsp", f.spin, g.spin, lmax > lmm)
    p12 = ref.alm2cl(am[0], am[1], lmm)
    p11 = ref.alm2cl(am[0], am[0], lmm)
    for fa, fb, p in ((f, g, p12), (f, f, p11-f.Nw)):
        w = nmt.NmtWorkspace.from_fields(fa, fb, b)
        mc = ref.mcm(p, fa.spin, fb.spin, lmax)
        tol = dict(rtol=5*TOL, scale=np.max(np.abs(mc))+np.max(np.abs(p)))
        M.close("mcm", w.get_coupling_matrix(), mc, **tol)
        M.seen("matrices")
        # the normalisation is not part of the matrix
        if fa is fb:
            w = nmt.NmtWorkspace.from_fields(fa, fb, b, normalization="FKP")
            M.close("mcm-fkp", w.get_coupling_matrix(), mc, **tol)
            M.seen("matrices")
    # FKP: divide by the weight moment
    w = nmt.NmtWorkspace.from_fields(f, f, b, normalization="FKP")
    nc = w.wsp.ncls
    cl = rng.normal(size=(nc, lmax+1))
    want = np.array([bs.B @ x for x in cl])/f.Nw
    M.close("fkp", w.decouple_cell(cl), want, rtol=1e-9)
    M.raises("fkp-cross", lambda: nmt.NmtWorkspace.from_fields(
        f, g, b, normalization="FKP"))
    M.seen("estimates")


def refuse(nmt, M, rng):
    th, ph, w, spin, v, lmax, lmm = make(nmt, rng, n=20)
    pos = np.array([th, ph])
    ok = dict(positions=pos, weights=w, field=v, lmax=lmax, lmax_mask=lmm,
              spin=spin)
    bad = []
    for t in (-.01, np.pi+.01, np.nan):
        p = pos.copy()
        p[0, rng.integers(20)] = t
        bad.append(dict(positions=p))
    for t in (-.01, 2*np.pi+.01, np.inf):
        p = pos.copy()
        p[1, rng.integers(20)] = t
        bad.append(dict(positions=p))
    ll = lonlat(th, ph)
    for i, t in ((0, -1.), (0, 361.), (1, 91.), (1, -90.5)):
        p = ll.copy()
        p[i, rng.integers(20)] = t
        bad.append(dict(positions=p, lonlat=True))
    bad += [dict(positions=pos.T), dict(positions=pos[:, 1:]),
            dict(positions=pos[:1]), dict(weights=w[1:]),
            dict(field=v[:, 1:]), dict(field=np.concatenate([v, v, v])),
            dict(field=v, spin=2 if spin == 0 else 0),
            dict(field=None, spin=None), dict(beam=np.ones(lmax)),
            dict(beam=1.), dict(lmax=-1)]
    M.state("refuse", spin)
    for b in bad:
        M.raises("refuse/"+"+".join(sorted(b)), lambda: nmt.NmtFieldCatalog(
            **{**ok, **b}), msg=repr(b)[:200])
    okc = dict(positions=pos, weights=w, positions_rand=pos,
               weights_rand=w, lmax=lmax)
    nmt.NmtFieldCatalogClustering(**okc)
    for which in ("positions", "positions_rand"):
        for i, t in ((0, -.1), (0, 3.2), (1, 6.4), (1, -.1)):
            p = pos.copy()
            p[i, rng.integers(20)] = t
            M.raises("refuse-clustering",
                     lambda: nmt.NmtFieldCatalogClustering(
                         **{**okc, which: p}))
            M.raises("refuse-clustering-shape",
                     lambda: nmt.NmtFieldCatalogClustering(
                         **{**okc, which: pos[:, 2:]}))
    f = nmt.NmtFieldCatalog(**ok)
    g = nmt.NmtFieldCatalog(**{**ok, "lmax": lmax+1})
    M.raises("refuse-pair", lambda: nmt.compute_coupled_cell(f, g))
    g = nmt.NmtFieldCatalog(**{**ok, "lmax_mask": lmm+1})
    M.raises("refuse-pair-mask", lambda: nmt.compute_coupled_cell(f, g))
    M.raises("refuse-dpb", lambda: nmt.deprojection_bias(
        f, f, np.zeros((len(v)**2, lmax+1))))
    M.raises("refuse-unc", lambda: nmt.uncorr_noise_deprojection_bias(
        f, np.zeros(10)))
    M.raises("refuse-cov", lambda: nmt.NmtCovarianceWorkspace.from_fields(
        f, f))
