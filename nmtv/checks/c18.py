"""C18: flat deprojection, purification, bias and covariance are exact."""
import random

import numpy as np

from nmtv import cov, flat, gen, rt
from nmtv.checks.c17 import FF, cuts, domain, rand_bands, rand_spin, step_input

RULE = ("Random flat patches (non-square pixels, odd and even sides), masks, "
        "spins, templates (degenerate sets, templates outside the mask), "
        "beams and cuts. Cleaned maps are compared with a weighted "
        "least-squares projection; purified modes with the definition and "
        "with the absence of leakage for band-limited pure-E/pure-B skies; "
        "the bias with the exact ensemble mean over a complete basis of "
        "skies; covariances with the documented contraction, with exact "
        "ensemble covariances (white scalar fields, uniform masks), under "
        "symmetry and exchange of pairs.")
ASSUMPTIONS = ["numpy FFT and SVD", "no power at Nyquist frequencies of "
               "even maps for fields with spin", "well-conditioned or "
               "exactly degenerate templates"]
MIN_EVENTS = {"fields": 40, "purity": 20, "biases": 40, "covariances": 40,
              "exact covariances": 20}
QUICK_ROUNDS = 5
CONFIGS = {"two": {"variant": "shim", "weight": 1,
                   "env": {"NMTV_OMP_THREADS": "2"}},
           "four": {"variant": "shim", "weight": 1,
                    "env": {"NMTV_OMP_THREADS": "4", "NMTV_OMP_PERM": "1",
                            "NMTV_OMP_SEED": "5"}}}
PURE = [(True, False), (False, True), (True, True)]


def cases(seed, tier):
    r = random.Random("C18-%d" % seed)
    n = 700 if tier == "thorough" else 260
    k = ["field", "bias", "cov", "purity", "white", "cov", "bias", "field",
         "uniform", "tol"]
    return [dict(kind=k[i % len(k)], seed=r.randrange(1 << 30),
                 cfg=r.choice(["two", "four"])) for i in range(n)]


def run(c, M):
    import pymaster as nmt
    rng = gen.rng_of(c)
    globals()["k_"+c["kind"]](nmt, M, rng)


def add_templates(rng, f, n):
    """n templates, possibly degenerate or absent inside the mask."""
    F = f.F
    t = rng.normal(size=(n, f.n)+F.shape)
    if n > 1 and rng.random() < .25:
        t[-1] = 2*t[0]
    # (purification reads maps outside of the mask, where a fit cannot reach)
    if rng.random() < .15 and not any(f.pure):
        t[0] = t[0]*(f.mask == 0)
    if rng.random() < .2:
        t *= 10.**rng.integers(-6, 7)
    f.temps = t
    # projector acting on masked maps
    x = (t*f.mask).reshape(n, -1)
    u, s, _ = np.linalg.svd(x.T, full_matrices=False)
    if s.max() > 0 and np.any((s < 1e-2*s.max()) & (s > 1e-10*s.max())):
        raise rt.Skip()
    u = u[:, s > 1e-3*s.max()] if s.max() > 0 else u[:, :0]
    co = np.linalg.pinv(x.T, rcond=1e-4) if s.max() > 0 else None

    def clean(m):
        """Maps (not masked) minus their best-fit contaminants."""
        if co is None:
            return m
        y = (m*f.mask).reshape(m.shape[:-3]+(-1,))
        a = y @ co.T
        return m-np.einsum("...t,tiyx->...iyx", a, t)
    f.clean = clean
    assert u is not None
    return f


def lin(f, temps=True):
    if f.temps is None or not temps:
        return f.L
    return lambda m: f.L(f.clean(m))


def k_field(nmt, M, rng):
    F = flat.rand_flat(rng, 5, 16 if rng.random() < .9 else 60)
    f = FF(rng, F)
    if f.spin == 2 and rng.random() < .5:
        f.pure = PURE[rng.integers(3)]
    nt = int(rng.choice([0, 1, 2, 3, 5, 7]))
    if nt:
        add_templates(rng, f, nt)
        f.maps = f.maps*np.max(np.abs(f.temps)) if rng.random() < .5 \
            else f.maps
    M.state("field", f.spin, f.pure, nt, F.nx % 2, F.ny % 2)
    M.seen("fields")
    g = f.build(nmt)
    M.close("mask", g.get_mask(), f.mask, rtol=1e-15)
    c = f.clean(f.maps) if nt else f.maps
    if any(f.pure):
        want = F.synth(F.purify(c, f.mask, f.pure)[..., :F.nh], 2)
    else:
        want = f.mask*c
    sc = np.max(np.abs(f.maps))*max(np.max(f.mask), 1e-3)
    tol = 1e-8
    M.close("maps", g.get_maps(), want, rtol=tol, scale=sc)
    if nt:
        M.close("templates", g.get_templates(), f.temps*f.mask, rtol=1e-12)
    else:
        M.true("templates-none", g.get_templates().shape[0] == 0)
    l0, lf = rand_bands(rng, F)
    b = nmt.NmtBinFlat(l0, lf)
    nb = len(l0)
    a = lin(f)(f.maps)
    want = F.pcl(a, a, F.bands(l0, lf), nb)
    got = nmt.compute_coupled_cell_flat(g, g, b)
    raw = F.modes(f.mask*f.maps, f.spin)
    ps = np.max(np.abs(F.pcl(raw, raw, F.bands(l0, lf), nb))) + \
        np.max(np.abs(want))+1e-300
    M.close("pcl", got, want, rtol=1e-8, scale=ps)
    # lightweight fields carry the same spectrum
    gl = f.build(nmt, lite=True)
    M.close("lite", nmt.compute_coupled_cell_flat(gl, gl, b), got,
            rtol=1e-12, scale=ps)
    M.raises("lite-maps", gl.get_maps)
    M.raises("lite-templates", gl.get_templates)
    # adding contaminants changes nothing
    if nt and np.any(f.temps):
        x = f.maps+np.einsum("t,tiyx->iyx", rng.normal(size=nt), f.temps) \
            * sc/np.max(np.abs(f.temps))
        h = f.build(nmt, maps=x)
        M.close("invariance", nmt.compute_coupled_cell_flat(h, h, b), got,
                rtol=1e-7, scale=ps)
        # as does replacing the templates with combinations of themselves
        R = np.eye(nt)+.3*rng.normal(size=(nt, nt))
        if np.linalg.cond(R) < 10:
            h = f.build(nmt, templates=np.einsum("st,tiyx->siyx", R,
                                                 f.temps))
            M.close("recombined", nmt.compute_coupled_cell_flat(h, h, b),
                    got, rtol=1e-6, scale=ps)
    # masked on input
    kw = {"templates": f.temps*f.mask} if nt else {}
    inside = f.mask > 0
    if any(f.pure) and not np.all(inside):
        # (what was under the mask is lost: derivatives see zeros there)
        M.seen("masked purified inputs with holes")
        g = f.build(nmt, maps=f.maps*inside,
                    **({"templates": f.temps*inside} if nt else {}))
        got = nmt.compute_coupled_cell_flat(g, g, b)
    h = f.build(nmt, maps=f.maps*f.mask, masked_on_input=True, **kw)
    M.close("masked-input", h.get_maps(), g.get_maps(), rtol=1e-7, scale=sc)
    M.close("masked-input-pcl", nmt.compute_coupled_cell_flat(h, h, b), got,
            rtol=1e-7, scale=ps)


def k_tol(nmt, M, rng):
    """Directions below the requested threshold are left in the map."""
    from nmtv.checks import c07
    for _ in range(8):
        F = flat.rand_flat(rng, 5, 12)
        f = FF(rng, F, pure=(False, False))
        nt = int(rng.integers(2, 5))
        q = np.linalg.qr(rng.normal(size=(nt, nt)))[0]
        f.temps = np.einsum("st,tiyx->siyx",
                            q*10.**rng.uniform(-2.5, 0, nt),
                            rng.normal(size=(nt, f.n)+F.shape))
        f.temps *= 10.**float(rng.integers(-6, 7))
        t = (f.temps*f.mask).reshape(nt, -1)
        mm = f.maps*f.mask
        G = t @ t.T
        ev = np.linalg.eigvalsh(G)
        if ev.max() <= 0:
            continue
        tol = c07.threshold(rng, ev)
        al = c07.thresholded(G, tol) @ (t @ mm.reshape(-1))
        g = f.build(nmt, tol_pinv=tol)
        M.seen("thresholds")
        M.state("tol", nt, int((ev >= tol*ev.max()).sum()), f.spin)
        M.close("maps-threshold", g.get_maps(), mm-(al @ t).reshape(
            mm.shape), rtol=1e-8, scale=np.max(np.abs(mm)))


def k_purity(nmt, M, rng):
    """Band-limited pure skies have no purified modes of the other kind."""
    F = flat.rand_flat(rng, 9, 17)
    K = int(rng.integers(1, 3))
    mask = flat.limited_mask(rng, F, K)
    if rng.random() < .3:
        mask = mask*10.**rng.uniform(-2, 2)
    pure = PURE[rng.integers(3)]
    jx = np.minimum(np.arange(F.nx), F.nx-np.arange(F.nx))
    jy = np.minimum(np.arange(F.ny), F.ny-np.arange(F.ny))
    ok = (jx[None, :] <= (F.nx-1)//2-K) & (jy[:, None] <= (F.ny-1)//2-K)
    ok[0, 0] = False
    if not ok.any():
        raise rt.Skip()
    M.state("purity", K, pure, F.nx % 2, F.ny % 2)
    M.seen("purity")
    l0, lf = [1e-6], [F.k.max()+1]
    b = nmt.NmtBinFlat(l0, lf)
    sky = {}
    for i, n in enumerate("EB"):
        a = F.half(rng.normal(size=(1,)+F.shape), 0)[0]*ok[:, :F.nh]
        z = np.zeros_like(a)
        sky[n] = F.synth(np.stack([a, z] if i == 0 else [z, a]), 2)
    kw = dict(spin=2, purify_e=pure[0], purify_b=pure[1])

    def fld(m, **k):
        a = dict(kw)
        a.update(k)
        return nmt.NmtFieldFlat(F.lx, F.ly, mask, m, **a)

    def pcl(m, **k):
        g = fld(m, **k)
        return nmt.compute_coupled_cell_flat(g, g, b)[:, 0].reshape(2, 2)
    for i, n in ((1, "E"), (0, "B")):
        if pure[i]:
            p = pcl(sky[n])
            M.true("leak", p[i, i] <= 1e-18*p[1-i, 1-i],
                   "pure-%s sky: purified %s power %.3e of %.3e (n=%dx%d "
                   "pixel ratio %.3f)" % (n, "EB"[i], p[i, i],
                                          p[1-i, 1-i], F.nx, F.ny,
                                          F.lx/F.nx/(F.ly/F.ny)))
            # the requested kind is not destroyed
            q = pcl(sky["EB"[i]])
            M.true("kept", q[i, i] > 1e-3*pcl(
                sky["EB"[i]], purify_e=False, purify_b=False)[i, i])
    both = sky["E"]+rng.uniform(.1, 2)*sky["B"]
    p = pcl(both)
    u = pcl(both, purify_e=False, purify_b=False)
    pp = pcl(both, purify_e=True, purify_b=True)
    for i in range(2):
        M.close("component", p[i, i], (pp if pure[i] else u)[i, i],
                rtol=1e-10, scale=np.max(np.abs(u)))
    # constant mask: purification does nothing
    one = np.full(F.shape, rng.uniform(.2, 3))
    m = rng.normal(size=(2,)+F.shape)
    f1 = nmt.NmtFieldFlat(F.lx, F.ly, one, m, **kw)
    f0 = nmt.NmtFieldFlat(F.lx, F.ly, one, m)
    M.close("constant-mask", f1.get_maps(), f0.get_maps(), rtol=1e-10,
            scale=4*one[0, 0])
    # linear in the sky
    m2 = rng.normal(size=(2,)+F.shape)
    x = fld(m).get_maps()
    M.close("linear", fld(m+2*m2).get_maps(), x+2*fld(m2).get_maps(),
            rtol=1e-9, scale=np.max(np.abs(x))*3)


def k_bias(nmt, M, rng):
    F = flat.rand_flat(rng, 4, 9)
    f1, f2 = FF(rng, F), FF(rng, F)
    if rng.random() < .3:
        f2 = f1
    for f in (f1, f2):
        if f.spin == 2 and rng.random() < .3:
            f.pure = PURE[rng.integers(3)]
        n = int(rng.choice([0, 1, 1, 2, 3]))
        if n and (f.temps is None):
            add_templates(rng, f, n)
    ok, lo, hi = domain(F, (f1.spin, f2.spin))
    l0, lf = rand_bands(rng, F, dc=True)
    nb = len(l0)
    cx, cy = cuts(rng, F)
    ib = np.where(F.cut(cx, cy), -1, F.bands(l0, lf))
    g1 = f1.build(nmt)
    g2 = g1 if f2 is f1 else f2.build(nmt)
    b = nmt.NmtBinFlat(l0, lf)
    ncl = f1.n*f2.n
    # isotropic guess with power in the allowed modes
    kk = np.unique(np.round(F.k, 7))
    v = rng.normal(size=(ncl, len(kk)))
    v *= 10.**rng.uniform(-3, 3)
    C = v[:, np.searchsorted(kk, np.round(F.k, 7))]
    C = np.where(ok, C, 0)
    ls, cl = step_input(F, C)
    if rng.random() < .3 and ok.all():     # a smooth one
        n = int(rng.integers(2, 9))
        ls = np.sort(rng.uniform(0, F.k.max()*1.2, size=n))
        cl = rng.normal(size=(ncl, n))
        C = np.array([F.interp(ls, c) for c in cl])
    C = C.reshape((f1.n, f2.n)+F.shape)
    t1 = 0 if f1.temps is None else len(f1.temps)
    t2 = 0 if f2.temps is None else len(f2.temps)
    M.state("bias", f1.spin, f2.spin, f1.pure, f2.pure, t1, t2, f2 is f1)
    M.seen("biases")
    got = nmt.deprojection_bias_flat(g1, g2, b, ls, cl, ell_cut_x=cx,
                                     ell_cut_y=cy)
    raw = F.mean_pcl(f1.spin, f1.L, f2.spin, f2.L, C, ib, nb)
    prj = F.mean_pcl(f1.spin, lin(f1), f2.spin, lin(f2), C, ib, nb)
    sc = np.max(np.abs(raw))+np.max(np.abs(prj))
    if f1.temps is not None or f2.temps is not None:
        sc = max(sc, 1e-3*np.max(np.abs(C)))
    M.close("bias", got, prj-raw, rtol=1e-7, scale=sc+1e-300,
            msg="spins %d %d temps %d %d pure %s %s n=%dx%d" % (
                f1.spin, f2.spin, t1, t2, f1.pure, f2.pure, F.nx, F.ny))
    # homogeneous in the guess
    M.close("bias-scale", nmt.deprojection_bias_flat(
        g1, g2, b, ls, -3*cl, ell_cut_x=cx, ell_cut_y=cy), -3*got,
        rtol=1e-9, scale=3*sc+1e-300)
    # exchange
    sw = nmt.deprojection_bias_flat(
        g2, g1, b, ls, cl.reshape(f1.n, f2.n, -1).transpose(1, 0, 2).reshape(
            ncl, -1), ell_cut_x=cx, ell_cut_y=cy)
    M.close("bias-swap", sw, got.reshape(f1.n, f2.n, nb).transpose(
        1, 0, 2).reshape(ncl, nb), rtol=1e-8, scale=sc+1e-300)
    if t1 == 0 and t2 == 0:
        M.true("bias-none", not np.any(got))


def xi(F, wac, wbd, ib, nb):
    """Covariance kernels between bands for two mask products."""
    A = F.modes(wac[None], 0)[0]
    B = F.modes(wbd[None], 0)[0]
    P = (A*np.conj(B)).real
    iy, ix = np.mgrid[:F.ny, :F.nx]
    iy, ix = iy.reshape(-1), ix.reshape(-1)
    ang = np.arctan2(F.ky, F.kx).reshape(-1)
    b = ib.reshape(-1)
    s = np.where(b >= 0)[0]
    s = s[np.argsort(b[s], kind="stable")]
    P = P[(iy[s][:, None]-iy[s][None]) % F.ny,
          (ix[s][:, None]-ix[s][None]) % F.nx]
    d = 2*(ang[s][:, None]-ang[s][None])
    z = np.zeros((nb, len(s)))
    z[b[s], np.arange(len(s))] = 1
    n = z.sum(axis=1, keepdims=True)
    z = np.where(n > 0, z/np.where(n > 0, n, 1), 0)
    fac = 4*np.pi**2/(F.lx*F.ly)**2
    return {k: fac*z @ (P*q) @ z.T for k, q in (
        ("00", 1.), ("02", np.cos(d)), ("22p", np.cos(d)**2),
        ("22m", np.sin(d)**2))}


def inverse(w, ncl, nb):
    """Matrix taking (band, icl) pseudo-spectra to bandpowers."""
    o = np.zeros((nb*ncl, nb*ncl))
    for i in range(ncl):
        for q in range(nb):
            x = np.zeros((ncl, nb))
            x[i, q] = 1
            o[:, q*ncl+i] = w.decouple_cell(x).T.reshape(-1)
    return o


def setup_cov(nmt, rng, F, fs, l0, lf):
    """(covariance workspace, wa, wb, inverse matrices)."""
    b = nmt.NmtBinFlat(l0, lf)
    nb = len(l0)
    gs = {}
    for f in fs:
        if id(f) not in gs:
            gs[id(f)] = f.build(nmt, **({"maps": None} if rng.random() < .3
                                        else {}))
    g = [gs[id(f)] for f in fs]
    w, inv = [], []
    for i in (0, 2):
        x = nmt.NmtWorkspaceFlat()
        x.compute_coupling_matrix(g[i], g[i+1], b)
        w.append(x)
        try:
            inv.append(inverse(x, fs[i].n*fs[i+1].n, nb))
        except RuntimeError:
            raise rt.Skip()
        if np.linalg.cond(inv[-1]) > 1e6:
            raise rt.Skip()
    cw = nmt.NmtCovarianceWorkspaceFlat()
    # (what is left out is taken from the first pair)
    kw = dict(flb1=g[2], flb2=g[3], bin_b=b)
    for k, eq in (("flb1", g[2] is g[0]), ("flb2", g[3] is g[1]),
                  ("bin_b", True)):
        if eq and rng.random() < .5:
            del kw[k]
    cw.compute_coupling_coefficients(g[0], g[1], b, **kw)
    return cw, g, w, inv, b


def good_bands(rng, F, fs):
    """Bands that leave the coupling matrix invertible."""
    l0, lf = rand_bands(rng, F, lo=1e-9, n=int(rng.integers(2, 5)))
    return l0, lf


def k_cov(nmt, M, rng):
    F = flat.rand_flat(rng, 6, 12)
    pool = [FF(rng, F, mask=flat.rand_mask(
        rng, F, rng.choice(["smooth", "noisy", "limited"])))
        for _ in range(3)]
    fs = [pool[rng.integers(3)] for _ in range(4)]
    l0, lf = good_bands(rng, F, fs)
    nb = len(l0)
    cw, g, w, inv, b = setup_cov(nmt, rng, F, fs, l0, lf)
    nm = [f.n for f in fs]
    nl = int(rng.integers(2, 20))
    ls = np.sort(rng.uniform(0, F.k.max(), size=nl))
    amp = 10.**rng.uniform(-3, 3)
    cl = {(i, j): rng.normal(size=(nm[i]*nm[j], nl))*amp
          for i in (0, 1) for j in (2, 3)}
    args = [f.spin for f in fs]+[ls, cl[0, 2], cl[0, 3], cl[1, 2], cl[1, 3]]
    M.state("cov", *[f.spin for f in fs], fs[0] is fs[1], fs[0] is fs[2])
    M.seen("covariances")
    got = nmt.gaussian_covariance_flat(cw, *args, w[0], w[1])
    ib = F.bands(l0, lf)
    m = [f.mask for f in fs]
    K1 = xi(F, m[0]*m[2], m[1]*m[3], ib, nb)
    K2 = xi(F, m[0]*m[3], m[1]*m[2], ib, nb)
    mid = .5*(np.array(l0)+np.array(lf))

    def at(c):
        return np.array([np.interp(mid, ls, x) for x in c])
    cc = cov.flat2(cov.contraction(
        K1, K2, nm, at(cl[0, 2]), at(cl[0, 3]), at(cl[1, 2]), at(cl[1, 3]),
        cov.sym_curved))
    want = inv[0] @ cc @ inv[1].T
    sc = np.max(np.abs(want))+1e-300
    tol = 1e-8*max(np.linalg.cond(inv[0]), 10)
    msg = "spins %s" % [f.spin for f in fs]
    M.close("cov", got, want, rtol=tol, scale=sc, msg=msg)
    # exchange of the pairs
    cx = nmt.NmtCovarianceWorkspaceFlat()
    cx.compute_coupling_coefficients(g[2], g[3], b, flb1=g[0], flb2=g[1],
                                     bin_b=b)

    def tr(i, j):
        return cl[i, j].reshape(nm[i], nm[j], nl).transpose(1, 0, 2).reshape(
            -1, nl)
    ex = nmt.gaussian_covariance_flat(
        cx, args[2], args[3], args[0], args[1], ls, tr(0, 2), tr(1, 2),
        tr(0, 3), tr(1, 3), w[1], w[0])
    M.close("cov-exchange", ex, got.T, rtol=tol, scale=sc, msg=msg)
    # auto-covariances are symmetric
    if rng.random() < .5:
        cs = nmt.NmtCovarianceWorkspaceFlat()
        cs.compute_coupling_coefficients(g[0], g[1], b)
        s0, s1 = args[:2]
        c00 = rng.normal(size=(nm[0], nm[0], nl))
        c00 += c00.transpose(1, 0, 2)
        c11 = rng.normal(size=(nm[1], nm[1], nl))
        c11 += c11.transpose(1, 0, 2)
        c01 = rng.normal(size=(nm[0], nm[1], nl))
        a = nmt.gaussian_covariance_flat(
            cs, s0, s1, s0, s1, ls, c00.reshape(-1, nl), c01.reshape(-1, nl),
            c01.transpose(1, 0, 2).reshape(-1, nl), c11.reshape(-1, nl),
            w[0])
        M.close("cov-symmetric", a, a.T, rtol=tol,
                scale=np.max(np.abs(a))+1e-300)
    # bilinear
    args2 = args[:5]+[2*args[5], 3*args[6], 5*args[7], 15./2*args[8]]
    M.close("cov-scaling", nmt.gaussian_covariance_flat(
        cw, *args2, w[0], w[1]), 15*got, rtol=tol, scale=15*sc)
    # refusals
    k = rng.integers(4)
    if k == 0:
        o = FF(rng, flat.Flat(F.nx+1, F.ny, F.lx, F.ly), spin=0).build(nmt)
        M.raises("cov-pixels", lambda: cw.compute_coupling_coefficients(
            g[0], o, b))
    elif k == 1:
        o = FF(rng, flat.Flat(F.nx, F.ny, F.lx*1.1, F.ly), spin=0)
        o = o.build(nmt)
        M.raises("cov-size", lambda: cw.compute_coupling_coefficients(
            g[0], g[1], b, flb1=o))
    elif k == 2:
        b2 = nmt.NmtBinFlat(np.array(l0)*.9, np.array(lf)*.9)
        M.raises("cov-bins", lambda: cw.compute_coupling_coefficients(
            g[0], g[1], b, bin_b=b2))
    else:
        bad = list(args)
        bad[5] = bad[5][:, :-1]
        M.raises("cov-length", lambda: nmt.gaussian_covariance_flat(
            cw, *bad, w[0], w[1]))
    M.same("cov-kept", nmt.gaussian_covariance_flat(cw, *args, w[0], w[1]),
           got)


def k_white(nmt, M, rng):
    """White scalar fields: the exact covariance of the estimator."""
    F = flat.rand_flat(rng, 5, 9)
    masks = [flat.rand_mask(rng, F, rng.choice(["smooth", "noisy", "holes",
                                               "limited"]))
             for _ in range(3)]
    fs = [FF(rng, F, spin=0, mask=masks[rng.integers(3)]) for _ in range(4)]
    l0, lf = good_bands(rng, F, fs)
    nb = len(l0)
    cw, g, w, inv, b = setup_cov(nmt, rng, F, fs, l0, lf)
    S = rng.normal(size=(4, 4))
    S = S @ S.T         # white cross-spectra of the four fields
    ls = np.array([0, F.k.max()])
    args = [0, 0, 0, 0, ls]+[np.full((1, 2), S[i, j]) for i, j in
                             ((0, 2), (0, 3), (1, 2), (1, 3))]
    M.state("white", nb, F.nx % 2, F.ny % 2)
    M.seen("exact covariances")
    got = nmt.gaussian_covariance_flat(cw, *args, w[0], w[1])
    ib = F.bands(l0, lf)
    # p = d1^T Q d2 over pixels
    Dm = F.modes(F.identity(1), 0)[:, 0].reshape(F.npix, -1)
    fac = 4*np.pi**2/(F.lx*F.ly)
    Q = []
    for q in range(nb):
        s = ib.reshape(-1) == q
        d = Dm[:, s]
        Q.append(fac*(d @ np.conj(d).T).real/max(s.sum(), 1))
    m = [f.mask.reshape(-1) for f in fs]
    cc = np.zeros((nb, nb))
    for i in range(nb):
        A = m[0][:, None]*Q[i]*m[1][None]
        for j in range(nb):
            B = m[2][:, None]*Q[j]*m[3][None]
            cc[i, j] = (S[0, 2]*S[1, 3]*np.sum(A*B)
                        + S[0, 3]*S[1, 2]*np.sum(A*B.T))/F.pix**2
    want = inv[0] @ cc @ inv[1].T
    M.close("white", got, want, rtol=1e-7*max(np.linalg.cond(inv[0]), 1),
            scale=np.max(np.abs(want))+1e-300)


def k_uniform(nmt, M, rng):
    """Complete sky: modes are independent and the covariance is exact."""
    F = flat.rand_flat(rng, 6, 12)
    h = [rng.uniform(.3, 3) for _ in range(2)]
    pool = [FF(rng, F, mask=np.full(F.shape, h[i % 2]), beam=False)
            for i in range(3)]
    fs = [pool[rng.integers(3)] for _ in range(4)]
    hi = F.knyq if np.isfinite(F.knyq) else None
    l0, lf = rand_bands(rng, F, lo=1e-9, hi=hi, n=int(rng.integers(2, 5)))
    nb = len(l0)
    cw, g, w, inv, b = setup_cov(nmt, rng, F, fs, l0, lf)
    nm = [f.n for f in fs]
    mid = .5*(np.array(l0)+np.array(lf))
    v = {(i, j): rng.normal(size=(nm[i], nm[j], nb))
         for i in (0, 1) for j in (2, 3)}
    if nb < 2:
        raise rt.Skip()
    cl = {k: x.reshape(-1, nb) for k, x in v.items()}
    got = nmt.gaussian_covariance_flat(
        cw, *[f.spin for f in fs], mid, cl[0, 2], cl[0, 3], cl[1, 2],
        cl[1, 3], w[0], w[1])
    M.state("uniform", *[f.spin for f in fs])
    M.seen("exact covariances")
    ib = F.bands(l0, lf)
    n = np.array([np.sum(ib == q) for q in range(nb)])
    want = np.zeros((nb, nm[0]*nm[1], nb, nm[2]*nm[3]))
    for q in range(nb):
        x = (np.einsum("ac,bd->abcd", v[0, 2][..., q], v[1, 3][..., q])
             + np.einsum("ad,bc->abcd", v[0, 3][..., q], v[1, 2][..., q]))
        want[q, :, q, :] = x.reshape(nm[0]*nm[1], nm[2]*nm[3])/n[q]
    want = want.reshape(nb*nm[0]*nm[1], nb*nm[2]*nm[3])
    M.close("uniform", got, want, rtol=1e-9,
            scale=np.max(np.abs(want))+1e-300,
            msg="spins %s" % [f.spin for f in fs])


assert rand_spin
