"""C07: fields hold the masked, deprojected map and its transform."""
import random

import numpy as np

from nmtv import gen, rt, world

RULE = ("Random fields on HEALPix and CAR with 0-4 templates (independent, "
        "duplicated, null, proportional to the map) in all input modes; "
        "stored maps and coefficients are compared with an independent "
        "least-squares projection and reference transforms, and related "
        "fields (pre-masked, lite, contaminated, defaults, other dtypes) "
        "with one another.")
ASSUMPTIONS = ["healpy transforms (HEALPix) and ducc0 2-D transforms (CAR)"]
MIN_EVENTS = {"fields": 100, "deprojected fields": 50,
              "reference transforms": 50}
QUICK_ROUNDS = 14


def cases(seed, tier):
    r = random.Random("C07-%d" % seed)
    n = 1600 if tier == "thorough" else 480
    return [dict(kind=r.choice(["plain", "temps", "temps", "temps",
                                "degenerate", "null", "tol", "pinv"]),
                 pix=r.choice(["hpx", "hpx", "car", "patch"]),
                 pure=r.random() < .25,
                 seed=r.randrange(1 << 30)) for _ in range(n)]


def run(c, M):
    import pymaster as nmt
    rng = gen.rng_of(c)
    pix = c["pix"]
    sky = world.Sky(rng, small=rng.random() < .95, pix="car" if pix == "patch" else pix,
                    crop=pix == "car" and rng.random() < .5)
    T = world.Trans(sky)
    w = T.weights()
    kind = c["kind"]
    if kind == "pinv":
        return run_pinv(nmt, M, rng)
    if kind == "tol":
        return run_tol(nmt, M, rng, sky, T, w)
    nt = {"plain": 0, "temps": int(rng.choice([1, 2, 3, 4, 6])), "degenerate": 3,
          "null": int(rng.integers(1, 3))}[kind]
    fs = world.FieldSpec(rng, sky, temps=nt, pure=c["pure"] and
                         rng.random() < .7,
                         mask=sky.mask(rng, "smooth") if c["pure"] else None)
    if kind == "degenerate":
        k = int(rng.integers(3))
        if k == 0:
            fs.temps[2] = fs.temps[0]
        elif k == 1:
            fs.temps[2] = fs.temps[0]-2*fs.temps[1]
        else:
            fs.temps[1] = 3*fs.maps*(np.std(fs.temps[0])/np.std(fs.maps))
    if kind == "null":
        fs.temps[0] = 0.
        if rng.random() < .5 and np.any(fs.mask == 0):
            fs.temps[0] = np.where(fs.mask == 0, 1., 0.)
    if pix == "patch":
        # a patch is the full-sky map with the rest of the sky masked
        full = fs
        return run_patch(nmt, M, rng, sky, T, full)
    f = fs.build(nmt)
    M.seen("fields")
    M.state(kind, pix, fs.spin, fs.pure, nt)
    mm = fs.maps*fs.mask
    want = mm
    if nt:
        want = world.project_out(mm, fs.temps*fs.mask, w)
        M.seen("deprojected fields")
    tolt = 1e-9 if kind != "degenerate" else 1e-6
    pure = any(fs.pure)
    sc = np.max(np.abs(mm))
    if not pure:
        M.close("maps", f.get_maps(), T.to_internal(want), rtol=tolt,
                scale=sc)
        a = T.analysis(want, fs.spin, sky.lmax, fs.n_iter)
        M.close("alms", f.get_alms(), a, rtol=tolt, scale=np.max(np.abs(
            T.analysis(mm, fs.spin, sky.lmax, fs.n_iter))))
        M.seen("reference transforms")
        for i in range(nt):
            t = T.to_internal(fs.temps[i]*fs.mask)
            d = np.sum(T.to_internal(w)*t*f.get_maps())
            M.close("orthogonal", d, 0., rtol=tolt,
                    scale=np.sum(T.to_internal(w)*np.abs(t))*sc)
    else:
        # purified fields: linear in the deprojected unmasked map
        tm = fs.temps*fs.mask if nt else None
        if nt and kind == "temps":
            A = (tm.reshape(nt, -1)*np.sqrt(np.broadcast_to(
                w, fs.maps.shape).reshape(-1))).T
            y = (mm*np.sqrt(w)).reshape(-1)
            al = np.linalg.lstsq(A, y, rcond=None)[0]
            clean = fs.maps-np.einsum("i,i...->...", al, fs.temps)
            f2 = fs.build(nmt, maps=clean, templates=None)
            M.close("alms-pure-deproj", f.get_alms(), f2.get_alms(),
                    rtol=1e-9)
    M.close("mask", f.get_mask(), T.to_internal(fs.mask), rtol=1e-14)
    am = T.analysis(fs.mask[None], 0, sky.lmax_mask, fs.n_iter_mask)[0]
    M.close("mask-alms", f.get_mask_alms(), am, rtol=1e-9)
    if nt:
        M.close("templates", f.get_templates(),
                T.to_internal(fs.temps*fs.mask), rtol=1e-12)
    related(nmt, M, rng, sky, fs, f, nt, pure, tolt, sc, kind)


def threshold(rng, ev):
    """A relative threshold (or none) away from the eigenvalues."""
    x = np.sort(np.abs(ev)/np.max(np.abs(ev)))
    for _ in range(30):
        t = float(10.**rng.uniform(-6, 0))
        if np.all(np.abs(np.log(x/t)) > .05):
            return t
    raise rt.Skip()


def thresholded(G, tol):
    """The documented pseudo-inverse: relative to the largest eigenvalue."""
    u, s, v = np.linalg.svd(G)
    k = s >= tol*s.max()
    return (v.conj().T[:, k]/s[k]) @ u.conj().T[k]


def run_pinv(nmt, M, rng):
    """Pseudo-inverses of Hermitian non-negative matrices."""
    n = int(rng.integers(1, 7))
    z = rng.normal(size=(n, n))
    if rng.random() < .4:
        z = z+1j*rng.normal(size=(n, n))
    q = np.linalg.qr(z)[0]
    ev = 10.**rng.uniform(-5, 0, n)*10.**float(rng.integers(-8, 9))
    if rng.random() < .3:
        ev[:] = ev[0]*(1+rng.random(n))
    G = (q*ev) @ q.conj().T
    G = .5*(G+G.conj().T)
    tol = threshold(rng, ev)
    want = (q[:, ev >= tol*ev.max()]/ev[ev >= tol*ev.max()]) \
        @ q.conj().T[ev >= tol*ev.max()]
    M.state("pinv", n, np.iscomplexobj(G), int((ev >= tol*ev.max()).sum()))
    M.seen("pseudo-inverses")
    M.close("pinv", nmt.moore_penrose_pinvh(G, tol), want, rtol=1e-7)
    for t in (0, -1., None):
        M.close("inverse", nmt.moore_penrose_pinvh(G, t),
                (q/ev) @ q.conj().T, rtol=1e-7)
    if n > 1:
        g0 = (q[:, 1:]*ev[1:]) @ q.conj().T[1:]
        M.close("pinv-rank", nmt.moore_penrose_pinvh(
            .5*(g0+g0.conj().T), 1e-9),
            (q[:, 1:]/ev[1:]) @ q.conj().T[1:], rtol=1e-5)
    M.same("pinv-null", nmt.moore_penrose_pinvh(G*0, 1e-10), G*0)


def run_tol(nmt, M, rng, sky, T, w):
    """Directions below the requested threshold are left in the map."""
    nt = int(rng.integers(2, 6))
    fs = world.FieldSpec(rng, sky, temps=nt)
    fs.temps = np.einsum("st,t...->s...", np.linalg.qr(
        rng.normal(size=(nt, nt)))[0]*10.**rng.uniform(-2.5, 0, nt),
        fs.temps)
    fs.temps *= 10.**float(rng.integers(-6, 7))
    t = (fs.temps*fs.mask).reshape(nt, -1)
    mm = fs.maps*fs.mask
    W = np.broadcast_to(w, mm.shape).reshape(-1)
    G = (t*W) @ t.T
    ev = np.linalg.eigvalsh(G)
    tol = threshold(rng, ev)
    al = thresholded(G, tol) @ ((t*W) @ mm.reshape(-1))
    f = fs.build(nmt, tol_pinv=tol)
    M.seen("thresholds")
    M.state("tol", nt, int((ev >= tol*ev.max()).sum()), sky.pix, fs.spin)
    M.close("maps-threshold", f.get_maps(),
            T.to_internal(mm-(al @ t).reshape(mm.shape)), rtol=1e-8,
            scale=np.max(np.abs(mm)))


def related(nmt, M, rng, sky, fs, f, nt, pure, tolt, sc, kind):
    a = f.get_alms()
    asc = max(np.max(np.abs(a)), sc*1e-2)
    # contamination in the span of the templates
    if nt:
        co = rng.normal(size=nt)*10.**rng.uniform(0, 2)
        g = np.max(np.abs(fs.maps))/max(np.max(np.abs(fs.temps)), 1e-30)
        cs = max(1., np.max(np.abs(co)))
        co = co*g
        g = fs.build(nmt, maps=fs.maps+np.einsum("i,i...->...", co,
                                                 fs.temps))
        M.close("contaminated", g.get_alms(), a, rtol=tolt,
                scale=asc*cs)
    # only the span of the templates matters, and everything is linear
    if nt:
        fac = 10.**rng.uniform(-10, 8)
        g = fs.build(nmt, templates=fs.temps*fac)
        M.close("template-units", g.get_alms(), a, rtol=tolt, scale=asc,
                msg="templates multiplied by %g" % fac)
    fac = 10.**rng.uniform(-10, 8)
    g = fs.build(nmt, maps=fs.maps*fac)
    M.close("map-units", g.get_alms()/fac, a, rtol=tolt, scale=asc,
            msg="maps multiplied by %g" % fac)
    fac = 10.**rng.uniform(-5, 4)
    g = fs.build(nmt, mask=fs.mask*fac)
    M.close("mask-units", g.get_alms()/fac, a, rtol=tolt, scale=asc,
            msg="mask multiplied by %g" % fac)
    # pre-masked input
    if not pure or np.all(fs.mask > 0):
        kw = dict(maps=fs.maps*fs.mask, masked_on_input=True)
        if nt:
            kw["templates"] = fs.temps*fs.mask
        g = fs.build(nmt, **kw)
        M.close("premasked", g.get_alms(), a, rtol=max(tolt, 1e-9)
                if kind != "degenerate" else 1e-5, scale=asc)
        if nt:
            M.close("premasked-templates", g.get_templates(),
                    f.get_templates(), rtol=1e-12)
        if not pure:
            M.close("premasked-maps", g.get_maps(), f.get_maps(), rtol=tolt,
                    scale=sc)
    # lite storage
    g = fs.build(nmt, lite=True)
    M.close("lite", g.get_alms(), a, rtol=1e-13, scale=asc)
    M.close("lite-mask-alms", g.get_mask_alms(), f.get_mask_alms(),
            rtol=1e-13)
    M.raises("lite-maps", g.get_maps)
    M.raises("lite-templates", g.get_templates)
    # inputs as lists, Fortran order, float32/big-endian of exact values
    k = int(rng.integers(4))
    if k == 0:
        g = fs.build(nmt, maps=[m for m in fs.maps],
                     templates=None if not nt else
                     [[m for m in t] for t in fs.temps])
    elif k == 1:
        g = fs.build(nmt, maps=np.asfortranarray(fs.maps),
                     mask=np.asfortranarray(fs.mask),
                     templates=None if not nt else
                     np.asfortranarray(fs.temps))
    elif k == 2:
        g = fs.build(nmt, maps=fs.maps.astype(">f8"),
                     mask=fs.mask.astype(">f8"),
                     templates=None if not nt else
                     fs.temps.astype(">f8"))
    else:
        m32 = fs.maps.astype(np.float32)
        g = fs.build(nmt, maps=m32)
        h = fs.build(nmt, maps=m32.astype(np.float64))
        M.close("float32", g.get_alms(), h.get_alms(), rtol=1e-13,
                scale=asc)
        g = f
    M.close("input-form", g.get_alms(), a, rtol=1e-12, scale=asc)
    # defaults
    if rng.random() < .3:
        d = nmt.get_default_params()
        lm = sky.minfo(nmt).get_lmax()
        kw = dict(wcs=sky.wcs, purify_e=fs.pure[0], purify_b=fs.pure[1],
                  templates=fs.temps)
        g = nmt.NmtField(fs.mask, fs.maps, **kw,
                         **({} if fs.spin in (0, 2) else
                            {"spin": fs.spin}))
        h = nmt.NmtField(fs.mask, fs.maps, spin=fs.spin, lmax=lm,
                         lmax_mask=lm, n_iter=3, n_iter_mask=3,
                         tol_pinv=1e-10, beam=np.ones(lm+1), **kw)
        M.true("default-values", d["n_iter_default"] == 3 and
               d["n_iter_mask_default"] == 3 and
               d["tol_pinv_default"] == 1e-10, str(d))
        M.true("default-spin", g.spin == fs.spin)
        M.close("defaults", g.get_alms(), h.get_alms(), rtol=1e-13,
                scale=asc)
        M.close("defaults-mask", g.get_mask_alms(), h.get_mask_alms(),
                rtol=1e-13)
    # mask-only field: same mask, no coefficients
    g = fs.build(nmt, maps=None, templates=None)
    M.close("maskonly", g.get_mask_alms(), f.get_mask_alms(), rtol=1e-13)
    M.raises("maskonly-alms", g.get_alms)


def run_patch(nmt, M, rng, sky, T, fs):
    """A CAR patch equals the full-sky map zeroed outside the patch."""
    from astropy.wcs import WCS
    g = sky.grid
    st = gen.Stored(g, sx=int(rng.choice([-1, 1])),
                    sy=int(rng.choice([-1, 1])), roll=0)
    n0 = int(rng.integers(0, g.nth-3))
    n1 = int(rng.integers(n0+3, g.nth+1))
    p0 = int(rng.integers(0, g.nph-4))
    p1 = int(rng.integers(p0+4, g.nph+1))
    w = WCS(naxis=2)
    w.wcs.ctype = ["RA---CAR", "DEC--CAR"]
    dx, dy = 360./g.nph, 180./g.N
    w.wcs.cdelt = [st.sx*dx, st.sy*dy]
    mid = (p0+p1-1)//2
    ny, nx = n1-n0, p1-p0
    cx = (mid-p0) if st.sx > 0 else (p1-1-mid)
    # row of the equator in the stored patch
    eq = g.N/2.
    cy = (n1-1-eq) if st.sy > 0 else (eq-n0)
    w.wcs.crval = [mid*dx, 0.]
    w.wcs.crpix = [cx+1., cy+1.]

    def cut(m):
        m = np.asarray(m)[..., n0:n1, p0:p1]
        if st.sy > 0:
            m = m[..., ::-1, :]
        if st.sx < 0:
            m = m[..., ::-1]
        return np.ascontiguousarray(m)

    def zero(m):
        z = np.zeros_like(m)
        z[..., n0:n1, p0:p1] = m[..., n0:n1, p0:p1]
        return z
    un = sky.stored.unstore
    gm, gp = un(fs.mask), un(fs.maps)
    gt = None if fs.temps is None else un(fs.temps)
    ful = gen.Stored(g, sx=1, sy=-1)
    kw = dict(spin=fs.spin, lmax=sky.lmax, lmax_mask=sky.lmax_mask,
              n_iter=0, n_iter_mask=0, purify_e=fs.pure[0],
              purify_b=fs.pure[1])
    if any(fs.pure):
        kw.update(purify_e=False, purify_b=False)
    a = nmt.NmtField(cut(gm), cut(gp), wcs=w,
                     templates=None if gt is None else cut(gt), **kw)
    b = nmt.NmtField(ful.store(zero(gm)), ful.store(gp), wcs=ful.wcs(),
                     templates=None if gt is None else ful.store(gt), **kw)
    M.seen("fields", 2)
    M.state("patch", st.sx, st.sy, fs.spin, n0 == 0, n1 == g.nth)
    sc = np.max(np.abs(gp))
    M.close("patch-mask-alms", a.get_mask_alms(), b.get_mask_alms(),
            rtol=1e-10)
    t = fs.temps
    kn = t is not None and np.linalg.matrix_rank(
        zero(gt).reshape(len(t), -1)) < len(t)
    M.close("patch-alms", a.get_alms(), b.get_alms(),
            rtol=1e-5 if kn else 1e-9, scale=sc)
    wt = np.broadcast_to(g.wth[:, None], (g.nth, g.nph))
    mm = zero(gp*gm)
    if t is not None:
        mm = world.project_out(mm, zero(gt*gm), wt)
    ref = g.quad(mm, fs.spin, sky.lmax)
    M.close("patch-ref", a.get_alms(), ref, rtol=1e-5 if kn else 1e-9,
            scale=sc)
    M.seen("reference transforms")
