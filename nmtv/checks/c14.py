"""C14: pixelisation and storage order do not matter."""
import random

import numpy as np

from nmtv import gen, ref, rt, world
from nmtv.checks import c07, c08

RULE = ("The same random sky is stored as several CAR maps (both axis "
        "directions, other reference pixels, rolled origin, patches) or "
        "symmetrically rotated HEALPix maps; masks, coefficients, spectra, "
        "matrices and simulated maps are compared between them and with "
        "reference transforms, and map descriptions are compared pairwise.")
ASSUMPTIONS = ["healpy transforms (HEALPix) and ducc0 2-D transforms (CAR)",
               "CAR maps have pixel rows on the Clenshaw-Curtis grid"]
MIN_EVENTS = {"storages compared": 40, "patches": 10, "healpix fields": 10,
              "exact transforms": 10, "descriptions compared": 50,
              "refusals checked": 30, "cross-pixelisation": 3,
              "crops": 300}
QUICK_ROUNDS = 14


def cases(seed, tier):
    r = random.Random("C14-%d" % seed)
    n = 900 if tier == "thorough" else 400
    k = ["storage", "storage", "storage", "patch", "patch", "hpx", "hpx",
         "exact", "info", "refuse", "cross", "synfast", "crops"]
    return [dict(kind=k[i % len(k)], seed=r.randrange(1 << 30))
            for i in range(n)]


def run(c, M):
    import pymaster as nmt
    rng = gen.rng_of(c)
    if c["kind"] == "patch":
        M.seen("patches")
        if rng.random() < .5:
            sky = world.Sky(rng, pix="car")
            fs = world.FieldSpec(rng, sky, temps=int(rng.integers(0, 3)))
            c07.run_patch(nmt, M, rng, sky, world.Trans(sky), fs)
        elif rng.random() < .7:
            patch_iter(nmt, M, rng)
        else:
            patch_synth(nmt, M, rng)
        return
    globals()["k_"+c["kind"]](nmt, M, rng)


def rand_wcs(rng, g, sx, sy, roll):
    """A description of the full grid with a random description of its
    reference longitude."""
    w = gen.Stored(g, sx, sy, roll).wcs()
    if rng.random() < .4:     # another representation of the longitude
        w.wcs.crval = [w.wcs.crval[0]-360., 0.]
    return w


class View(object):
    """A grid map stored in another way than the sky's own."""
    def __init__(self, rng, g, sx, sy, roll):
        self.st = gen.Stored(g, sx, sy, roll)
        self.w = rand_wcs(rng, g, sx, sy, roll)


def restore(sky, view, a):
    if a is None:
        return None
    return view.st.store(sky.stored.unstore(a))


def k_storage(nmt, M, rng):
    N = int(rng.choice([6, 8, 9, 10, 12, 13]))
    sky = world.Sky(rng, pix="car")
    g = sky.grid = ref.Grid(N, int(rng.choice([2*N, 2*N, 2*N+3, 3*N])))
    sky.stored = gen.rand_stored(rng, g)
    sky.wcs = sky.stored.wcs()
    sky.shape = (g.nth, g.nph)
    sky.npix = g.nth*g.nph
    sky.lmax = int(rng.integers(4, N+1))
    sky.lmax_mask = int(rng.integers(max(4, sky.lmax-1), N+1))
    kind = rng.choice(["plain", "temps", "pure", "aniso"])
    if kind == "aniso":
        sky.lmax_mask = max(6, sky.lmax_mask)
    fs = world.FieldSpec(rng, sky, temps=int(rng.integers(1, 3))
                         if kind in ("temps", "pure") else 0,
                         pure=kind == "pure", aniso=kind == "aniso",
                         spin=2 if kind == "pure" else
                         (int(rng.choice([1, 2])) if kind == "aniso"
                          else None),
                         mask=sky.mask(rng, "smooth")
                         if kind in ("pure", "aniso") else None)
    fs2 = world.FieldSpec(rng, sky, spin=int(rng.choice([0, 2])))
    f = fs.build(nmt)
    h = fs2.build(nmt)
    cl0 = nmt.compute_coupled_cell(f, h)
    sc = np.max(np.abs(f.get_alms()))
    bs = world.BinSpec(rng, sky.lmax)
    w0 = nmt.NmtWorkspace.from_fields(f, h, bs.build(nmt))
    m0 = w0.get_coupling_matrix()
    for sx in (1, -1):
        for sy in (1, -1):
            same = rng.random() < .5
            roll = sky.stored.roll if same else int(rng.integers(g.nph))
            v = View(rng, g, sx, sy, roll)
            over = dict(wcs=v.w, maps=restore(sky, v, fs.maps),
                        mask=restore(sky, v, fs.mask),
                        templates=restore(sky, v, fs.temps))
            if fs.aniso is not None:
                over.update(mask_22=restore(sky, v, fs.aniso[0]),
                            mask_12=restore(sky, v, fs.aniso[1]))
            e = fs.build(nmt, **over)
            M.seen("storages compared")
            M.state(kind, fs.spin, sx, sy, roll == sky.stored.roll)
            M.close("alms", e.get_alms(), f.get_alms(), rtol=1e-9)
            M.close("mask-alms", e.get_mask_alms(), f.get_mask_alms(),
                    rtol=1e-10)
            if fs.aniso is not None:
                for x, y in zip(e.get_anisotropic_mask_alms(),
                                f.get_anisotropic_mask_alms()):
                    M.close("aniso-alms", x, y, rtol=1e-10)
            M.close("pixel-mask", v.st.unreform(e.get_mask()),
                    sky.stored.unreform(f.get_mask()), rtol=1e-13)
            if fs.aniso is not None:
                for x, y in zip(e.get_anisotropic_mask(),
                                f.get_anisotropic_mask()):
                    M.close("pixel-aniso", v.st.unreform(x),
                            sky.stored.unreform(y), rtol=1e-13)
            if kind != "pure":
                M.close("pixel-maps", v.st.unreform(e.get_maps()),
                        sky.stored.unreform(f.get_maps()), rtol=1e-8,
                        scale=np.max(np.abs(fs.maps)))
            # spectra across storages
            M.close("cross-cl", nmt.compute_coupled_cell(e, h), cl0,
                    rtol=1e-9, scale=sc*np.max(np.abs(h.get_alms())))
            comp = e.is_compatible(f)
            if roll == sky.stored.roll:
                M.true("compatible", comp, "same pixels in another storage "
                       "order were called incompatible")
            else:
                M.true("incompatible", not comp, "pixel rows starting at "
                       "another longitude were called compatible")
            M.seen("descriptions compared")
            if rng.random() < .4:
                w = nmt.NmtWorkspace.from_fields(e, h, bs.build(nmt))
                M.close("matrix", w.get_coupling_matrix(), m0, rtol=1e-9)
    # mirror images are different skies: declination flip = theta -> pi-theta
    al = ref.truncate(f.get_mask_alms(), sky.lmax_mask, sky.lmax_mask)
    ls, ms = ref.lm_arrays(sky.lmax_mask)
    over = dict(mask=fs.mask[::-1], maps=fs.maps[..., ::-1, :],
                templates=None if fs.temps is None
                else fs.temps[..., ::-1, :])
    if fs.aniso is None and N % 2 == 0 or fs.aniso is None:
        e = fs.build(nmt, **over)
        M.close("mirror-mask", e.get_mask_alms(), al*(-1.)**(ls+ms),
                rtol=1e-9)


def patch_iter(nmt, M, rng):
    """Patches with Jacobi iterations: full rings, cropped rows."""
    from astropy.wcs import WCS
    N = int(rng.choice([8, 10, 12]))
    g = ref.Grid(N)
    lmax = int(rng.integers(4, N+1))
    sx, sy = int(rng.choice([-1, 1])), int(rng.choice([-1, 1]))
    n0 = int(rng.integers(0, g.nth-3))
    n1 = int(rng.integers(n0+3, g.nth+1))
    p0 = int(rng.integers(0, g.nph))          # may cross longitude 0
    nx = int(rng.integers(3, g.nph+1))
    ny = n1-n0
    dx, dy = 360./g.nph, 180./g.N
    w = WCS(naxis=2)
    w.wcs.ctype = ["RA---CAR", "DEC--CAR"]
    w.wcs.cdelt = [sx*dx, sy*dy]
    mid = (nx-1)//2
    cx = mid if sx > 0 else nx-1-mid
    cy = (n1-1-N/2.) if sy > 0 else (N/2.-n0)
    w.wcs.crval = [((p0+mid)*dx) % 360., 0.]
    w.wcs.crpix = [cx+1., cy+1.]
    spin = int(rng.choice([0, 1, 2, 3, 4]))
    n = 1 if spin == 0 else 2
    n_iter, n_im = int(rng.integers(0, 4)), int(rng.integers(0, 4))
    maps = rng.normal(size=(n, ny, nx))
    mask = rng.uniform(.1, 1, size=(ny, nx))

    def store(m):
        if sy > 0:
            m = m[..., ::-1, :]
        if sx < 0:
            m = m[..., ::-1]
        return np.ascontiguousarray(m)
    f = nmt.NmtField(store(mask), store(maps), spin=spin, wcs=w, lmax=lmax,
                     lmax_mask=lmax, n_iter=n_iter, n_iter_mask=n_im)
    cols = (p0+np.arange(nx)) % g.nph

    def full(m):
        z = np.zeros(m.shape[:-2]+(g.nth, g.nph))
        z[..., n0:n1, cols] = m
        return z

    def rows(m):
        z = np.zeros_like(m)
        z[..., n0:n1, :] = m[..., n0:n1, :]
        return z

    def analysis(m, s, k):
        a = g.quad(m, s, lmax)
        for _ in range(k):
            a = a - g.quad(rows(g.synth(a, s, lmax).reshape(m.shape)-m), s,
                           lmax)
        return a
    M.state("patch", spin, n_iter, n_im, sx, sy, p0+nx > g.nph)
    M.close("patch-iter-alms", f.get_alms(), analysis(full(maps*mask), spin,
                                                      n_iter), rtol=1e-9)
    M.close("patch-iter-mask", f.get_mask_alms(),
            analysis(full(mask)[None], 0, n_im)[0], rtol=1e-9)
    M.close("patch-mask", f.get_mask(), mask.reshape(-1), rtol=1e-14)
    M.close("patch-maps", f.get_maps(), (maps*mask).reshape(n, -1),
            rtol=1e-14)
    # templates: weighted by the pixel area
    t = rng.normal(size=(2, n, ny, nx))
    h = nmt.NmtField(store(mask), store(maps), spin=spin, wcs=w, lmax=lmax,
                     lmax_mask=lmax, n_iter=0, n_iter_mask=0,
                     templates=store(t))
    wt = np.broadcast_to(g.wth[n0:n1, None], (ny, nx))
    if n*nx*ny > 8 and np.all(wt > 0):
        want = world.project_out(maps*mask, t*mask, wt)
        M.close("patch-deproj", h.get_maps(), want.reshape(n, -1), rtol=1e-7)


def patch_synth(nmt, M, rng):
    """What is synthesised on a patch lands on its own pixels."""
    sky = world.Sky(rng, pix="car", crop=True)
    T = world.Trans(sky)
    fs = world.FieldSpec(rng, sky, spin=2, pure=True,
                         temps=int(rng.integers(0, 2)),
                         mask=sky.mask(rng, "smooth"))
    f = fs.build(nmt)
    M.state("patch-synth", sky.stored.sx, sky.stored.sy, fs.pure, fs.n_iter,
            sky.stored.nx == sky.grid.nph)
    if fs.temps is None:
        want = c08.expansion(T, fs.mask, fs.maps, sky.lmax, sky.lmax_mask,
                             fs.n_iter, fs.n_iter_mask, fs.pure)
        M.close("patch-pure", f.get_alms(), want, rtol=1e-9)
    M.close("patch-pure-map", f.get_maps(), T.to_internal(
        T.synth(f.get_alms(), 2, sky.lmax)), rtol=1e-9)
    # the same pixels in another order
    o = gen.Crop(sky.grid, sky.stored.n0, sky.stored.ny, sky.stored.p0,
                 sky.stored.nx, -sky.stored.sx, -sky.stored.sy)

    def flip(m):
        return None if m is None else np.ascontiguousarray(
            m[..., ::-1, ::-1])
    g = fs.build(nmt, wcs=o.wcs(), mask=flip(fs.mask), maps=flip(fs.maps),
                 templates=flip(fs.temps))
    M.close("patch-flipped", g.get_alms(), f.get_alms(), rtol=1e-9)
    if fs.temps is not None:
        n = f.nmaps**2
        cl = rng.uniform(1, 2, (n, sky.lmax+1))
        b = nmt.deprojection_bias(f, f, cl, n_iter=1)
        M.close("patch-flipped-bias", nmt.deprojection_bias(
            g, g, cl, n_iter=1), b, rtol=1e-8,
            scale=np.max(np.abs(b))+1e-300)


def k_crops(nmt, M, rng):
    """Many patches of many grids: the rounding of every offset."""
    from astropy.wcs import WCS
    L = 4
    for _ in range(40):
        N = int(rng.integers(10, 100))
        nph = int(rng.choice([2*N, 2*N, 3*N, N+3]))
        g = ref.Grid(N, nph)
        n0 = int(rng.integers(0, N-1))
        ny = int(rng.integers(2, min(N+2-n0, 12) if rng.random() < .6
                              else N+2-n0))
        p0 = int(rng.integers(0, nph))
        nx = int(rng.integers(2, min(nph, 12)))
        sx, sy = int(rng.choice([-1, 1])), int(rng.choice([-1, 1]))
        w = WCS(naxis=2)
        w.wcs.ctype = ["RA---CAR", "DEC--CAR"]
        dx, dy = 360./nph, 180./N
        w.wcs.cdelt = [sx*dx, sy*dy]
        # (WCSLIB has no pixels beyond half a turn from the reference)
        mid = int(rng.integers(nx)) if nx < nph//2 else (nx-1)//2
        cx = mid if sx > 0 else nx-1-mid
        cy = (n0+ny-1-N/2.) if sy > 0 else (N/2.-n0)
        w.wcs.crval = [((p0+mid)*dx) % 360., 0.]
        w.wcs.crpix = [cx+1., cy+1.]
        m = rng.uniform(.1, 1, size=(ny, nx))
        sto = m[::-1 if sy > 0 else 1, ::-1 if sx < 0 else 1]
        f = nmt.NmtField(np.ascontiguousarray(sto), None, spin=0, wcs=w,
                         lmax=L, lmax_mask=L, n_iter_mask=0)
        z = np.zeros((1, g.nth, nph))
        cols = (p0+np.arange(nx)) % nph
        z[0][np.ix_(np.arange(n0, n0+ny), cols)] = m
        M.seen("crops")
        M.close("crop-alms", f.get_mask_alms(), g.quad(z, 0, L)[0],
                rtol=1e-9, msg="N=%d, nphi=%d, rows %d+%d, columns %d+%d"
                % (N, nph, n0, ny, p0, nx))
        M.close("crop-mask", f.get_mask(), m.reshape(-1), rtol=1e-14)
    M.state("crops", N, nph)


def k_hpx(nmt, M, rng):
    import healpy as hp
    sky = world.Sky(rng, pix="hpx")
    if rng.random() < .3:
        sky = world.Sky(rng, pix="hpx", small=False)
    fs = world.FieldSpec(rng, sky, temps=int(rng.integers(0, 2)))
    f = fs.build(nmt)
    T = world.Trans(sky)
    M.seen("healpix fields")
    M.state("hpx", sky.nside, fs.spin, fs.n_iter)
    am = T.analysis(fs.mask[None], 0, sky.lmax_mask, fs.n_iter_mask)[0]
    M.close("hpx-mask-alms", f.get_mask_alms(), am, rtol=1e-9)
    if fs.temps is None:
        M.close("hpx-alms", f.get_alms(),
                T.analysis(fs.maps*fs.mask, fs.spin, sky.lmax, fs.n_iter),
                rtol=1e-9)
    # symmetries: rotation by 90 degrees, reflection phi -> -phi, theta
    th, ph = hp.pix2ang(sky.nside, np.arange(sky.npix))
    ls, ms = ref.lm_arrays(sky.lmax)
    lsm, msm = ref.lm_arrays(sky.lmax_mask)
    sg = np.ones(fs.nmaps)
    which = int(rng.integers(4))
    if which == 0:
        p = hp.ang2pix(sky.nside, th, ph-np.pi/2)
        op = lambda a, l, m: a*np.exp(-.5j*np.pi*m)   # noqa
    elif which == 1:
        p = hp.ang2pix(sky.nside, th, -ph)
        op = lambda a, l, m: np.conj(a)   # noqa
    elif which == 2:
        p = hp.ang2pix(sky.nside, np.pi-th, ph)
        op = lambda a, l, m: a*(-1.)**(l+m)   # noqa
    else:
        p = hp.ang2pix(sky.nside, np.pi-th, np.pi+ph)   # parity
        op = lambda a, l, m: a*(-1.)**l   # noqa
    if not np.array_equal(np.sort(p), np.arange(sky.npix)):
        raise rt.Skip("not a pixel permutation")
    if fs.spin and which != 0:
        # one reflection flips the second component and B
        sg = np.array([1., -1.])
    # vectors along theta flip when theta is reflected
    sm = sg*((-1)**fs.spin if which > 1 else 1)
    mp = fs.maps[:, p]*sm[:, None]
    tp = None if fs.temps is None else fs.temps[:, :, p]*sm[None, :, None]
    e = fs.build(nmt, mask=fs.mask[p], maps=mp, templates=tp)
    M.close("hpx-symmetry-mask", e.get_mask_alms(),
            op(f.get_mask_alms(), lsm, msm), rtol=1e-8)
    a = f.get_alms()
    b = np.array([s*op(x, ls, ms) for s, x in zip(sg, a)])
    M.close("hpx-symmetry", e.get_alms(), b, rtol=1e-8, msg="%d" % which)
    # spectra are invariant (up to the sign of parity-odd ones)
    ce = nmt.compute_coupled_cell(e, e)
    cf = nmt.compute_coupled_cell(f, f)
    s2 = np.outer(sg, sg).reshape(-1)
    M.close("hpx-symmetry-cl", ce, cf*s2[:, None], rtol=1e-8)


def k_exact(nmt, M, rng):
    """Band-limited maps on exact grids: transforms invert each other."""
    N = int(rng.choice([8, 12, 16, 20, 21]))
    g = ref.Grid(N, int(rng.choice([2*N, 2*N+1, 3*N])))
    st = gen.rand_stored(rng, g)
    L = int(rng.integers(4, N//2+1))
    spin = int(rng.choice([0, 1, 2, 3, 4]))
    n = 1 if spin == 0 else 2
    a = ref.rand_alm(rng, L, lmin=spin, n=n)
    mp = g.synth(a, spin, L)
    ni = int(rng.integers(0, 3))
    f = nmt.NmtField(st.store(np.ones((g.nth, g.nph))), st.store(mp),
                     spin=spin, wcs=st.wcs(), lmax=L, lmax_mask=L, n_iter=ni,
                     n_iter_mask=ni)
    M.seen("exact transforms")
    M.state("exact", N, spin, L, ni)
    rot = np.array([np.exp(1j*m*st.roll*2*np.pi/g.nph)
                    for m in ref.lm_arrays(L)[1]])*0+1
    M.close("exact", f.get_alms(), a*rot, rtol=1e-9)
    one = np.zeros(len(a[0]), dtype=complex)
    one[0] = np.sqrt(4*np.pi)
    M.close("exact-mask", f.get_mask_alms(), one, rtol=1e-9)
    # lmax beyond the band of the map: converges with iterations
    L2 = int(rng.integers(L, N))
    # N+1 rings and >2*L2 columns determine every coefficient up to N-1
    if 2*L2 <= N:
        f = nmt.NmtField(st.store(np.ones((g.nth, g.nph))), st.store(mp),
                         spin=spin, wcs=st.wcs(), lmax=L2, lmax_mask=L2,
                         n_iter=0)
        M.close("exact-padded", f.get_alms(), ref.truncate(a, L, L2),
                rtol=1e-9)
    # and back: simulate, transform, synthesise
    cl = np.ones(L+1)
    spec = {0: [cl], 1: [cl, .3*cl, cl]}[int(spin > 0)]
    m = nmt.synfast_spherical(-1, np.array(spec), [spin], seed=7,
                              wcs=st.wcs(), lmax=L)
    M.close("synfast-shape", m.shape, (n, g.nth, g.nph))
    f = nmt.NmtField(st.store(np.ones((g.nth, g.nph))), m, spin=spin,
                     wcs=st.wcs(), lmax=L, lmax_mask=L, n_iter=0)
    # spin-weighted transforms know nothing below ell=spin
    M.close("synfast-inverse", st.unstore(m),
            g.synth(f.get_alms(), spin, L), rtol=1e-9)
    M.true("synfast-nonzero", np.max(np.abs(m)) > 0)


def k_synfast(nmt, M, rng):
    """HEALPix simulations are band-limited at the requested lmax."""
    nside = int(rng.choice([4, 8]))
    L = int(rng.integers(4, nside+1))
    spin = int(rng.choice([0, 1, 2]))
    n = 1 if spin == 0 else 2
    cl = np.ones(3*nside)
    spec = [cl] if spin == 0 else [cl, 0*cl, cl]
    m = nmt.synfast_spherical(nside, np.array(spec), [spin], seed=3, lmax=L)
    M.close("synfast-hpx-shape", m.shape, (n, 12*nside**2))
    f = nmt.NmtField(np.ones(12*nside**2), m, spin=spin, lmax=L,
                     lmax_mask=L, n_iter=15)
    a = f.get_alms()
    ls, _ = ref.lm_arrays(L)
    sky = world.Sky(rng, pix="hpx")
    sky.nside, sky.npix, sky.shape = nside, 12*nside**2, (12*nside**2,)
    M.seen("exact transforms")
    M.state("synfast", nside, L, spin)
    # nothing beyond lmax: the coefficients up to lmax rebuild the map
    M.close("synfast-band", m, world.Trans(sky).synth(a, spin, L), rtol=1e-5)
    M.true("synfast-band-filled", np.max(np.abs(a[:, ls == L])) >
           1e-2*np.max(np.abs(a)), "no power at lmax")


def k_cross(nmt, M, rng):
    """Band-limited skies on HEALPix and CAR give the same spectra."""
    import healpy as hp
    nside = 16
    L = int(rng.integers(3, 6))
    Lm = int(rng.integers(2, 4))
    spin = int(rng.choice([0, 1, 2]))
    n = 1 if spin == 0 else 2
    lmax = L+Lm
    a = ref.rand_alm(rng, L, lmin=spin, n=n)
    N = int(rng.choice([16, 20]))
    g = ref.Grid(N)
    st = gen.rand_stored(rng, g)
    am = ref.rand_alm(rng, Lm)
    am[0, 0] = 6.
    mask = g.synth(am, 0, Lm)[0]
    hm = hp.alm2map(am[0], nside, lmax=Lm, pol=False)
    if spin == 0:
        hmp = np.array([hp.alm2map(a[0], nside, lmax=L, pol=False)])
    else:
        hmp = np.array(hp.alm2map_spin(list(a), nside, spin, L))
    kw = dict(spin=spin, lmax=lmax, lmax_mask=lmax)
    f = nmt.NmtField(st.store(mask), st.store(g.synth(a, spin, L)),
                     wcs=st.wcs(), n_iter=0, n_iter_mask=0, **kw)
    h = nmt.NmtField(hm, hmp, n_iter=8, n_iter_mask=8, **kw)
    M.seen("cross-pixelisation")
    M.state("cross", spin, L, Lm)
    M.close("cross-mask", h.get_mask_alms(), f.get_mask_alms(), rtol=1e-6)
    M.close("cross-alms", h.get_alms(), f.get_alms(), rtol=1e-6)
    M.true("cross-strict", not f.is_compatible(h))
    M.true("cross-loose", f.is_compatible(h, strict=False))
    c1 = nmt.compute_coupled_cell(f, f)
    M.close("cross-cl", nmt.compute_coupled_cell(h, f), c1, rtol=1e-6)
    b = world.BinSpec(rng, lmax)
    w1 = nmt.NmtWorkspace.from_fields(f, f, b.build(nmt))
    w2 = nmt.NmtWorkspace.from_fields(f, h, b.build(nmt))
    w3 = nmt.NmtWorkspace.from_fields(h, h, b.build(nmt))
    for w in (w2, w3):
        M.close("cross-matrix", w.get_coupling_matrix(),
                w1.get_coupling_matrix(), rtol=1e-6)


def k_info(nmt, M, rng):
    """Map descriptions are equal exactly when the pixels are."""
    from astropy.wcs import WCS

    def mk(N, nph, sx, sy, p0, nx, n0, ny):
        w = WCS(naxis=2)
        w.wcs.ctype = ["RA---CAR", "DEC--CAR"]
        dx, dy = 360./nph, 180./N
        w.wcs.cdelt = [sx*dx, sy*dy]
        mid = (nx-1)//2
        cx = mid if sx > 0 else nx-1-mid
        n1 = n0+ny
        cy = (n1-1-N/2.) if sy > 0 else (N/2.-n0)
        w.wcs.crval = [((p0+mid)*dx) % 360., 0.]
        w.wcs.crpix = [cx+1., cy+1.]
        return nmt.NmtMapInfo(w, (ny, nx))
    N = int(rng.integers(6, 40))
    nph = int(rng.choice([2*N, 3*N, N+2]))
    nx = int(rng.integers(3, nph+1))
    ny = int(rng.integers(3, N+2))
    n0 = int(rng.integers(0, N+2-ny))
    p0 = int(rng.integers(0, nph))
    base = dict(N=N, nph=nph, p0=p0, nx=nx, n0=n0, ny=ny)
    infos = [mk(sx=sx, sy=sy, **base) for sx in (1, -1) for sy in (1, -1)]
    for a in infos:
        for b in infos:
            M.seen("descriptions compared")
            M.true("equal", a == b and not (a != b), "the same pixels "
                   "stored in another order: %s" % base)
        want = int(np.floor(min(N, nph/2.)*0+np.pi/min(
            np.pi/N, 2*np.pi/nph)+1e-9))
        M.true("lmax", a.get_lmax() == want, "get_lmax %s, expected %s"
               % (a.get_lmax(), want))
        M.true("npix", a.npix == nx*ny)
    var = []
    if nx > 3:
        var.append(dict(base, nx=nx-1))
    if ny > 3:
        var += [dict(base, ny=ny-1), dict(base, ny=ny-1, n0=n0+1)]
    if n0 > 0:
        var.append(dict(base, n0=n0-1))
    var.append(dict(base, p0=(p0+1) % nph))
    var.append(dict(base, nph=nph+1))
    if n0+ny <= N:
        var.append(dict(base, N=N+2))
    if nx != ny and ny <= nph and nx <= N+1-n0:
        var.append(dict(base, nx=ny, ny=nx))
    for v in var:
        b = mk(sx=int(rng.choice([-1, 1])), sy=int(rng.choice([-1, 1])), **v)
        a = infos[int(rng.integers(4))]
        M.seen("descriptions compared")
        M.true("different", a != b and b != a and not (a == b),
               "different pixels were called equal: %s %s" % (base, v))
    ns = int(2**rng.integers(1, 7))
    h = nmt.NmtMapInfo(None, (12*ns*ns,))
    M.true("hpx-equal", h == nmt.NmtMapInfo(None, (12*ns*ns,)))
    M.true("hpx-different", h != nmt.NmtMapInfo(None, (48*ns*ns,)))
    M.true("hpx-car", h != infos[0] and infos[0] != h)
    M.true("hpx-other", h != "map" and infos[0] != None)   # noqa
    M.true("hpx-lmax", h.get_lmax() == 3*ns-1)
    M.seen("descriptions compared", 4)
    M.state("info", sorted(v for v in base))


def k_refuse(nmt, M, rng):
    from astropy.wcs import WCS
    N = int(rng.integers(6, 20))
    g = ref.Grid(N)
    st = gen.rand_stored(rng, g)
    shp = (g.nth, g.nph)
    MI = nmt.NmtMapInfo

    def chg(**k):
        w = st.wcs()
        for a, v in k.items():
            setattr(w.wcs, a, v)
        return w
    w = st.wcs()
    MI(w, shp)      # the unchanged one is accepted
    M.raises("ctype", lambda: MI(chg(ctype=["RA---TAN", "DEC--TAN"]), shp))
    M.raises("ctype2", lambda: MI(chg(ctype=["RA---CEA", "DEC--CEA"]), shp))
    M.raises("crval", lambda: MI(chg(crval=[w.wcs.crval[0], 10.]), shp))
    cd = np.array(w.wcs.cdelt)
    M.raises("pix-phi", lambda: MI(chg(cdelt=cd*np.array([1.037, 1.])), shp))
    M.raises("pix-theta", lambda: MI(chg(cdelt=cd*np.array([1., .963])), shp))
    M.raises("outside", lambda: MI(chg(crpix=[w.wcs.crpix[0],
                                              w.wcs.crpix[1]+1.]), shp))
    M.raises("outside2", lambda: MI(w, (g.nth+2, g.nph)))
    M.raises("wrap", lambda: MI(w, (g.nth, g.nph+2)))
    M.raises("1d", lambda: MI(w, (g.nth*g.nph,)))
    M.raises("3d", lambda: MI(w, (1, g.nth, g.nph)))
    for n in (1, 11, 13, 47, 12*9, 12*49, 12*16*16+1, 0):
        M.raises("npix", lambda: MI(None, (n,)), msg="npix=%d" % n)
    # fields refuse maps that do not fit their pixelisation
    m = np.ones(shp)
    NF = nmt.NmtField
    M.raises("field-shape", lambda: NF(m, [m[:, 1:]], wcs=w))
    M.raises("field-shape2", lambda: NF(m, [m[1:]], wcs=w))
    M.raises("field-transposed", lambda: NF(m, [m.T], wcs=w))
    M.raises("field-flat", lambda: NF(m, [m.reshape(-1)], wcs=w))
    M.raises("field-temp", lambda: NF(m, [m], wcs=w,
                                      templates=[[m[1:]]]))
    M.raises("field-transposed-mask", lambda: NF(m.T, [m.T], wcs=w))
    h = np.ones(48)
    M.raises("hpx-mask", lambda: NF(np.ones(47), [np.ones(47)]))
    M.raises("hpx-map", lambda: NF(h, [np.ones(192)]))
    M.raises("hpx-temp", lambda: NF(h, [h], templates=[[np.ones(192)]]))
    M.raises("hpx-wcs", lambda: NF(h, [h], wcs=w))
    M.raises("car-nowcs", lambda: NF(m, [m]))
    M.state("refuse", N)
    with_sc = nmt.get_default_params()["sht_calculator"]
    try:
        nmt.set_sht_calculator("healpy")
        M.raises("car-healpy", lambda: NF(m, [m], wcs=w))
    finally:
        nmt.set_sht_calculator(with_sc)
