"""C24: the Toeplitz approximation follows its definition."""
import random

import numpy as np

from nmtv import cov, gen, ref, rt, world

RULE = ("matrix: approximate coupling matrices (all spins, TEB) compared "
        "element by element with the documented extrapolation of exact "
        "kernels computed independently; cov: the same through Gaussian "
        "covariances; exact region, symmetry and convergence monitors use "
        "the exact workspace of the same fields; refuse: undefined requests.")
ASSUMPTIONS = ["ducc0/healpy transforms and ducc0 3j symbols"]
MIN_EVENTS = {"matrix elements": 5000, "matrices": 40}
QUICK_ROUNDS = 60


def cases(seed, tier):
    r = random.Random("C24-%d" % seed)
    n = 1500 if tier == "thorough" else 120
    out = []
    for i in range(n):
        out.append(dict(kind=r.choice(["matrix"]*6+["cov"]*3+["refuse"]),
                        seed=r.randrange(1 << 30)))
    return out


def triple(rng, lmax, lo=1):
    lt = int(rng.integers(lo, lmax))
    le = int(rng.integers(lo, lt+1))
    db = int(rng.integers(0, lmax))
    k = rng.random()
    if k < .1:
        lt = lmax-1
    if k < .05:
        le = lt
    return lt, le, db


def rand_pcl_field(rng, sky, spin, nit):
    return world.FieldSpec(rng, sky, spin=spin, maponly=True, n_iter=0,
                           n_iter_mask=nit,
                           mask=sky.mask(rng, "smooth")
                           + .05*rng.random(size=sky.shape))


def run_matrix(c, M):
    import pymaster as nmt
    rng = gen.rng_of(c)
    sky = world.Sky(rng, small=rng.random() < .93, crop=rng.random() < .3)
    lmax = sky.lmax
    teb = rng.random() < .2
    s1, s2 = [int(x) for x in rng.choice([0, 0, 1, 2, 2, 3, 4], size=2)]
    if teb:
        s1, s2 = 0, int(rng.choice([1, 2, 2, 3]))
    smax = max(s1, s2)
    # the reference column has to exist for every block
    lo = max(1, smax)
    if lmax <= lo+1:
        raise rt.Skip("lmax")
    lt, le, db = triple(rng, lmax, lo)
    nit = int(rng.integers(0, 3))
    a = rand_pcl_field(rng, sky, s1, nit)
    b = rand_pcl_field(rng, sky, s2, nit)
    if teb or rng.random() < .5:
        b.mask = a.mask
    T = world.Trans(sky)
    x = T.analysis(a.mask[None], 0, sky.lmax_mask, nit)[0]
    y = T.analysis(b.mask[None], 0, sky.lmax_mask, nit)[0]
    pcl = ref.alm2cl(x, y, sky.lmax_mask)
    f, g = a.build(nmt), b.build(nmt)
    if b.mask is a.mask and s1 == s2 and rng.random() < .3:
        g = f
    bins = nmt.NmtBin.from_lmax_linear(lmax, 1)
    kw = dict(is_teb=teb)
    w = nmt.NmtWorkspace.from_fields(f, g, bins, l_toeplitz=lt, l_exact=le,
                                     dl_band=db, **kw)
    w0 = nmt.NmtWorkspace.from_fields(f, g, bins, **kw)
    m = w.get_coupling_matrix()
    m0 = w0.get_coupling_matrix()
    n = 7 if teb else gen.ncl(s1, s2)
    L = lmax+1
    M.seen("matrices")
    M.seen("matrix elements", m.size)
    l = np.arange(L)
    ii, jj = np.meshgrid(l, l, indexing="ij")
    lo2, hi = np.minimum(ii, jj), np.maximum(ii, jj)
    exact = (lo2 <= le) | (hi == lo2) | ((lo2 <= lt) & (hi-lo2 <= db))
    M.state("matrix", s1, s2, teb, sky.pix, bool(np.all(exact)),
            lt == lmax-1, le == lt, db == 0, np.sign(sky.lmax_mask-lmax))
    big = np.kron(exact, np.ones((n, n))) > 0
    sc = np.max(np.abs(m0))
    M.close("exact-region", m[big], m0[big], rtol=1e-11, scale=sc,
            msg="lt=%d le=%d db=%d lmax=%d spins %d,%d" % (lt, le, db, lmax,
                                                          s1, s2))
    fac = np.repeat(2*l+1., n)
    z = m/fac[None, :]
    M.close("symmetric", z, z.T, rtol=1e-11)
    # element-wise definition
    blocks = [(s1, s2, list(range(n)))]
    if teb:
        blocks = [(0, 0, [0]), (0, s2, [1, 2]), (s2, s2, [3, 4, 5, 6])]
    want = np.zeros_like(m)
    tol = np.zeros_like(m)
    for p, q, idx in blocks:
        xp, xm = ref.xi_kernels(pcl, p, q, lmax)
        if p == 0 or q == 0:
            ks = [(xp+xm, [(i, i, 1) for i in range(len(idx))])]
        else:
            ks = [(xp, [(i, i, 1) for i in range(4)]),
                  (xm, [(0, 3, 1), (3, 0, 1), (1, 2, -1), (2, 1, -1)])]
        for E, pos in ks:
            for j in range(max(p, q)):
                E[j] = E[:, j] = 0
            A = cov.toeplitz(E, lt, le, db)
            D = np.abs(np.diag(E))
            good = D[max(p, q):]
            cond = np.max(np.abs(E))/max(np.min(good), 1e-300)
            for i, j, sg in pos:
                want[idx[i]::n, idx[j]::n] = sg*A*(2*l+1)[None]
                tol[idx[i]::n, idx[j]::n] = min(1e-12*cond**2, 1e3) \
                    * np.max(np.abs(E))*(2*lmax+1)
    M.close("definition", m, want, rtol=1e-8, scale=sc, atol=tol,
            msg="lt=%d le=%d db=%d lmax=%d spins %d,%d teb %s"
            % (lt, le, db, lmax, s1, s2, teb))
    cl = rng.normal(size=(n, L))
    beam = a.beam_or_one()*(a if g is f else b).beam_or_one()
    M.close("couple", w.couple_cell(cl), world.lunflat(
        m @ world.lflat(cl*beam), n), rtol=1e-11)
    # everything declared exact
    we = nmt.NmtWorkspace.from_fields(f, g, bins, l_toeplitz=lmax-1,
                                      l_exact=lmax-1, dl_band=0, **kw)
    M.close("all-exact", we.get_coupling_matrix(), m0, rtol=1e-11)
    # l_toeplitz <= 0 means exact, whatever the rest
    wn = nmt.NmtWorkspace.from_fields(f, g, bins, l_toeplitz=-1, l_exact=le,
                                      dl_band=db, **kw)
    M.same("off", wn.get_coupling_matrix(), m0)
    M.seen("matrices", 2)


def run_cov(c, M):
    import pymaster as nmt
    rng = gen.rng_of(c)
    sky = world.Sky(rng, crop=rng.random() < .3)
    sky.lmax = lmax = max(6, min(sky.lmax, 10))
    if sky.lim < lmax:
        sky.lmax = lmax = sky.lim
    s0 = rng.random() < .3
    sp = [0]*4 if s0 else [int(x) for x in rng.choice([0, 2], size=4)]
    lt, le, db = triple(rng, lmax, 2)
    nit = int(rng.integers(0, 2))
    specs = [rand_pcl_field(rng, sky, s, nit) for s in sp]
    F = [x.build(nmt) for x in specs]
    nm = [x.nmaps for x in specs]
    T = world.Trans(sky)

    def malm(i, j):
        return T.analysis((specs[i].mask*specs[j].mask)[None], 0,
                          sky.lmax_mask, nit)[0]
    p11 = ref.alm2cl(malm(0, 2), malm(1, 3), sky.lmax_mask)
    p12 = ref.alm2cl(malm(0, 3), malm(1, 2), sky.lmax_mask)
    tol = 1e-8

    def ker(p):
        nonlocal tol
        K = cov.kernels(p, lmax)
        if s0:
            K = {"00": K["00"]}
        for k in K:
            lo = 0 if k == "00" else 2
            d = np.abs(np.diag(K[k]))[lo:]
            cond = np.max(np.abs(K[k]))/max(np.min(d), 1e-300)
            tol = max(tol, 1e-12*cond**2)
        return {k: cov.toeplitz(v, lt, le, db) for k, v in K.items()}
    K1, K2 = ker(p11), ker(p12)
    if tol > 1e-3:
        raise rt.Skip("ill-conditioned reference column")
    cw = nmt.NmtCovarianceWorkspace.from_fields(
        *F, l_toeplitz=lt, l_exact=le, dl_band=db, spin0_only=s0)
    b = nmt.NmtBin.from_lmax_linear(lmax, 1)
    wa = nmt.NmtWorkspace.from_fields(F[0], F[1], b)
    wb = nmt.NmtWorkspace.from_fields(F[2], F[3], b)
    cl = [rng.normal(size=(nm[i]*nm[j], lmax+1)) for i in (0, 1)
          for j in (2, 3)]
    want = cov.flat2(cov.contraction(K1, K2, nm, *cl, cov.sym_curved))
    got = nmt.gaussian_covariance(cw, *sp, *cl, wa, wb, coupled=True)
    M.close("covariance-definition", got, want, rtol=tol,
            msg="lt=%d le=%d db=%d lmax=%d spins %s" % (lt, le, db, lmax,
                                                       sp))
    M.seen("matrices")
    M.seen("matrix elements", want.size)
    M.state("cov", tuple(sp), s0, sky.pix)
    ce = nmt.NmtCovarianceWorkspace.from_fields(
        *F, l_toeplitz=lmax-1, l_exact=lmax-1, dl_band=0, spin0_only=s0)
    c0 = nmt.NmtCovarianceWorkspace.from_fields(*F, spin0_only=s0)
    M.close("covariance-all-exact",
            nmt.gaussian_covariance(ce, *sp, *cl, wa, wb, coupled=True),
            nmt.gaussian_covariance(c0, *sp, *cl, wa, wb, coupled=True),
            rtol=1e-10)


def run_refuse(c, M):
    import pymaster as nmt
    rng = gen.rng_of(c)
    sky = world.Sky(rng, crop=rng.random() < .3)
    lmax = sky.lmax
    sky.lmax_mask = max(6, sky.lmax_mask)
    s = int(rng.choice([0, 2]))
    f = rand_pcl_field(rng, sky, s, 0).build(nmt)
    g = rand_pcl_field(rng, sky, 2, 0).build(nmt)
    b = nmt.NmtBin.from_lmax_linear(lmax, 1)
    bad = [(lmax, 2, 1), (lmax+5, 2, 1), (3, 0, 1), (3, -1, 1), (3, 2, -1),
           (2, 3, 1), (3, 2, lmax), (3, 2, lmax+3), (lmax, lmax, 0)]
    for lt, le, db in bad:
        kw = dict(l_toeplitz=lt, l_exact=le, dl_band=db)
        M.raises("workspace-%s" % ("lt" if lt >= lmax else "rest"),
                 lambda: nmt.NmtWorkspace.from_fields(f, g, b, **kw),
                 ValueError, msg=str((lt, le, db, lmax)))
        M.raises("covariance", lambda: nmt.NmtCovarianceWorkspace.from_fields(
            f, f, **kw), ValueError, msg=str((lt, le, db, lmax)))
    ok = dict(l_toeplitz=3, l_exact=2, dl_band=1)
    p = world.FieldSpec(rng, sky, spin=2, pure=True, maponly=True, n_iter=0)
    p = p.build(nmt)
    M.raises("pure-1", lambda: nmt.NmtWorkspace.from_fields(p, g, b, **ok),
             ValueError)
    M.raises("pure-2", lambda: nmt.NmtWorkspace.from_fields(g, p, b, **ok),
             ValueError)
    a = world.FieldSpec(rng, sky, spin=2, aniso=True, maponly=True,
                        n_iter=0).build(nmt)
    M.raises("aniso", lambda: nmt.NmtWorkspace.from_fields(g, a, b, **ok))
    M.raises("aniso", lambda: nmt.NmtWorkspace.from_fields(a, g, b, **ok))
    # and the valid request of the same fields is served
    w = nmt.NmtWorkspace.from_fields(f, g, b, **ok)
    M.true("valid", np.all(np.isfinite(w.get_coupling_matrix())))
    M.seen("matrices")
    M.state("refuse", s, sky.pix)


def run(c, M):
    {"matrix": run_matrix, "cov": run_cov,
     "refuse": run_refuse}[c["kind"]](c, M)
