"""C15: apodisation follows the documented profile."""
import random

import numpy as np

from nmtv import gen, ref, rt, world

RULE = ("Random binary and weighted masks (holes, isolated zeros, edges, "
        "polar caps, signed zeros, negative and fully observed/empty masks) "
        "on HEALPix and flat maps of unequal sides, apodisation scales from "
        "below the pixel size to beyond the map; every pixel is compared "
        "with the documented function of a brute-force distance to the "
        "nearest masked pixel. Configurations use 1 to 4 threads.")
ASSUMPTIONS = ["healpy pixel positions and transforms"]
MIN_EVENTS = {"curved profiles": 60, "flat profiles": 60,
              "smooth curved": 8, "smooth flat": 8, "pixels in transition":
              1000, "scales near the pixel size": 10}
QUICK_ROUNDS = 9
CONFIGS = {"one": {"variant": "shim", "weight": 1,
                   "env": {"NMTV_OMP_THREADS": "1"}},
           "four": {"variant": "shim", "weight": 1,
                    "env": {"NMTV_OMP_THREADS": "4", "NMTV_OMP_SEED": "5",
                            "NMTV_OMP_DELAY": "1"}}}


def cases(seed, tier):
    r = random.Random("C15-%d" % seed)
    n = 1500 if tier == "thorough" else 170
    k = ["curved"]*5+["flat"]*5+["smooth", "fsmooth", "polar"]
    return [dict(kind=k[i % len(k)], seed=r.randrange(1 << 30),
                 cfg=r.choice(["one", "four"])) for i in range(n)]


def run(c, M):
    import pymaster as nmt
    rng = gen.rng_of(c)
    globals()["k_"+c["kind"]](nmt, M, rng)


def values(rng, z):
    """Mask values for the boolean array of masked pixels."""
    k = int(rng.integers(0, 5))
    m = np.ones(z.shape)
    if k in (1, 2):
        m = rng.uniform(.05, 1, size=z.shape)
    elif k == 3:
        m = 10.**rng.uniform(-6, 6, size=z.shape)
    m[z] = 0
    if k == 2 and z.any():
        m[z] = np.where(rng.random(z.sum()) < .5, -0., 0.)
    if k == 4 and z.any():     # negative pixels count as masked
        m[z] = np.where(rng.random(z.sum()) < .5, -.3, 0.)
    return m


def as_input(rng, m):
    k = int(rng.integers(0, 5))
    if k == 0:
        return m.astype(np.float32), m.astype(np.float32).astype(float)
    if k == 1:
        return m.astype(">f8"), m
    if k == 2 and np.all((m == 0) | (m == 1)):
        t = [bool, np.int32, np.uint8][int(rng.integers(3))]
        return m.astype(t), m
    if k == 3 and m.ndim == 2:
        return np.asfortranarray(m), m
    return m, m


def profile(x, t):
    f = x-np.sin(2*np.pi*x)/(2*np.pi) if t == "C1" \
        else .5*(1-np.cos(np.pi*x))
    return np.where(x < 1, f, 1.)


def curved_x(m, apo):
    import healpy as hp
    ns = hp.npix2nside(len(m))
    v = np.array(hp.pix2vec(ns, np.arange(len(m)))).T
    z = m <= 0
    a = np.radians(apo)
    if not z.any():
        return np.full(len(m), 10.)
    # 1-cos(theta) from the chord, without cancellation
    d2 = np.min([np.sum((v-w)**2, axis=1) for w in v[z]], axis=0)
    d2[z] = 0
    return np.sqrt(d2/2/(1-np.cos(a)))


def zeros_curved(rng, ns):
    import healpy as hp
    npix = 12*ns*ns
    th, ph = hp.pix2ang(ns, np.arange(npix))
    k = int(rng.integers(0, 6))
    z = np.zeros(npix, dtype=bool)
    if k == 0:
        z = rng.random(npix) < rng.choice([.01, .1, .5, .9])
    elif k == 1:
        z[rng.integers(npix)] = True
    elif k == 2:
        z = np.abs(th-np.pi/2) < rng.uniform(.1, 1.)
    elif k == 3:
        for _ in range(int(rng.integers(1, 5))):
            u = rng.normal(size=3)
            u /= np.sqrt(np.sum(u**2))
            v = np.array(hp.pix2vec(ns, np.arange(npix))).T
            z |= v @ u > np.cos(rng.uniform(.05, .8))
    elif k == 4:
        z = (ph < rng.uniform(.3, 3)) | (ph > 6)
    else:
        z[:] = rng.random() < .5
    return z


def compare(M, key, out, m, x, t, msg):
    f = profile(x, t)
    f[m <= 0] = 1.
    want = m*f
    # profile errors relative to each pixel's input value
    amp = np.where(m > 0, m, np.abs(m))
    M.close(key, out/np.where(amp > 0, amp, 1.),
            want/np.where(amp > 0, amp, 1.), rtol=0, atol=1e-7, msg=msg)
    M.true(key+"-range", np.all(out >= np.minimum(m, 0)) and
           np.all(out <= m), "outside [0, input]. "+msg)
    M.true(key+"-masked", np.all(out[m == 0] == 0), "masked pixel revived. "
           + msg)
    M.seen("pixels in transition", np.sum((x < 1) & (m > 0)))


def k_curved(nmt, M, rng, z=None, ns=None, apo=None):
    import healpy as hp
    ns = ns or int(rng.choice([1, 2, 4, 8, 8, 16] if rng.random() < .95 else [32]))
    z = zeros_curved(rng, ns) if z is None else z
    m, m0 = as_input(rng, values(rng, z))
    pixd = np.degrees(np.sqrt(np.pi/3)/ns)
    if apo is None:
        r = rng.random()
        if r < .35:
            apo = pixd*rng.uniform(.55, 2.2)
        elif r < .9:
            apo = pixd*rng.uniform(1., 10.)
        else:
            apo = rng.uniform(60, 185)
    if apo < 2.2*pixd:
        M.seen("scales near the pixel size")
    if apo > 180:
        apo = 180.
    t = str(rng.choice(["C1", "C2"]))
    keep = m.copy()
    out = nmt.mask_apodization(m, apo, apotype=t)
    M.same("input-kept", m, keep)
    M.seen("curved profiles")
    M.state("curved", ns, t, int(5*np.log(apo/pixd)))
    compare(M, "curved", out, m0, curved_x(m0, apo), t,
            "nside=%d scale=%g %s" % (ns, apo, t))
    if rng.random() < .2:
        th, ph = hp.pix2ang(ns, np.arange(12*ns*ns))
        p = hp.ang2pix(ns, np.pi-th, ph+np.pi/2)
        if np.array_equal(np.sort(p), np.arange(12*ns*ns)):
            M.close("curved-symmetry", nmt.mask_apodization(
                np.ascontiguousarray(m[p]), apo, apotype=t), out[p],
                rtol=1e-7, atol=0)
    if rng.random() < .1:
        z0 = nmt.mask_apodization(m, 0., apotype=t)
        M.close("curved-zero-scale", z0, m0, rtol=1e-14)
    if rng.random() < .2:
        b = nmt.mask_apodization(m, apo)
        M.close("curved-default", b,
                nmt.mask_apodization(m, apo, apotype="C1"), rtol=1e-14)
    M.raises("negative", lambda: nmt.mask_apodization(m, -apo, t))
    M.raises("type", lambda: nmt.mask_apodization(m, apo, "C3"))
    M.raises("npix", lambda: nmt.mask_apodization(m[:-1], apo, t))


def k_polar(nmt, M, rng):
    """Few masked pixels near a pole, scale comparable with the distance."""
    import healpy as hp
    ns = int(rng.choice([4, 8, 16]))
    npix = 12*ns*ns
    th, ph = hp.pix2ang(ns, np.arange(npix))
    south = rng.random() < .5
    t = np.pi-th if south else th
    z = np.zeros(npix, dtype=bool)
    n = int(rng.integers(1, 4))
    w = np.exp(-t**2/.3**2)
    z[rng.choice(npix, size=n, p=w/w.sum())] = True
    if rng.random() < .5:    # a whole ring
        z |= np.abs(th-th[np.nonzero(z)[0][0]]) < 1e-6
    k_curved(nmt, M, rng, z, ns, float(np.degrees(rng.uniform(.1, .9))))


def flat_map(rng):
    top = 30 if rng.random() < .9 else 120
    nx, ny = int(rng.integers(1, top)), int(rng.integers(1, top))
    dx = 10.**rng.uniform(-4, 0)
    dy = dx*10.**rng.choice([0, rng.uniform(-.8, .8)])
    return nx, ny, nx*dx, ny*dy, dx, dy


def zeros_flat(rng, nx, ny):
    k = int(rng.integers(0, 5))
    z = np.zeros((ny, nx), dtype=bool)
    if k == 0:
        z = rng.random((ny, nx)) < rng.choice([.01, .1, .5])
    elif k == 1:
        z[rng.integers(ny), rng.integers(nx)] = True
    elif k == 2:
        z[:, :int(rng.integers(0, nx+1))] = True
    elif k == 3:
        z[:int(rng.integers(0, ny+1))] = True
        z[:, 0] = z[:, -1] = True
    else:
        z[:] = rng.random() < .5
    return z


def flat_dist(m, dx, dy):
    ny, nx = m.shape
    y, x = np.mgrid[:ny, :nx]
    z = m <= 0
    if not z.any():
        return np.full(m.shape, 1e30)
    d = np.min([(x-b)**2*dx**2+(y-a)**2*dy**2
                for a, b in zip(*np.nonzero(z))], axis=0)
    return np.sqrt(d)


def k_flat(nmt, M, rng):
    nx, ny, lx, ly, dx, dy = flat_map(rng)
    m, m0 = as_input(rng, values(rng, zeros_flat(rng, nx, ny)))
    r = rng.random()
    s = min(dx, dy)*rng.uniform(.5, 2) if r < .25 else \
        max(dx, dy)*rng.uniform(.8, 12) if r < .9 else (lx+ly)*5
    apo = float(np.degrees(s))
    t = str(rng.choice(["C1", "C2"]))
    keep = m.copy()
    out = nmt.mask_apodization_flat(m, lx, ly, apo, apotype=t)
    M.same("input-kept", m, keep)
    M.seen("flat profiles")
    if s < 2*max(dx, dy):
        M.seen("scales near the pixel size")
    M.state("flat", nx % 5, ny % 5, t, int(2*np.log(s/dx)))
    M.close("flat-shape", out.shape, (ny, nx))
    compare(M, "flat", out, m0, flat_dist(m0, dx, dy)/s, t,
            "n=%dx%d pixel %g x %g scale %g %s" % (nx, ny, dx, dy, s, t))
    # transposed map with exchanged sides, and mirror images
    M.close("flat-transposed", nmt.mask_apodization_flat(
        np.ascontiguousarray(m.T), ly, lx, apo, apotype=t), out.T,
        rtol=1e-7)
    M.close("flat-mirror", nmt.mask_apodization_flat(
        m[::-1, ::-1], lx, ly, apo, apotype=t), out[::-1, ::-1], rtol=1e-7)
    if rng.random() < .1:
        M.close("flat-zero-scale", nmt.mask_apodization_flat(
            m, lx, ly, 0., apotype=t), m0, rtol=1e-14)
    if rng.random() < .2:
        M.close("flat-default", nmt.mask_apodization_flat(m, lx, ly, apo),
                nmt.mask_apodization_flat(m, lx, ly, apo, apotype="C1"),
                rtol=1e-14)
    M.raises("flat-negative", lambda: nmt.mask_apodization_flat(
        m, lx, ly, -apo, t))
    M.raises("flat-type", lambda: nmt.mask_apodization_flat(
        m, lx, ly, apo, "C3"))
    M.raises("flat-1d", lambda: nmt.mask_apodization_flat(
        m.reshape(-1), lx, ly, apo, t))
    M.raises("flat-side", lambda: nmt.mask_apodization_flat(
        m, -lx, ly, apo, t))


def k_fsmooth(nmt, M, rng):
    nx, ny, lx, ly, dx, dy = flat_map(rng)
    nx, ny = nx+3, ny+3
    lx, ly = nx*dx, ny*dy
    m, m0 = as_input(rng, values(rng, zeros_flat(rng, nx, ny)))
    s = max(dx, dy)*rng.uniform(.6, 4)
    out = nmt.mask_apodization_flat(m, lx, ly, float(np.degrees(s)),
                                    apotype="Smooth")
    d = flat_dist(m0, dx, dy)
    if np.any(np.abs(d-2.5*s) < 1e-6*s):
        raise rt.Skip("pixel exactly on the edge of a disc")
    m1 = np.where(d <= 2.5*s, 0., m0)
    kx = 2*np.pi*np.fft.fftfreq(nx, dx)
    ky = 2*np.pi*np.fft.fftfreq(ny, dy)
    g = np.exp(-.5*s**2*(kx[None]**2+ky[:, None]**2))
    want = m0*np.real(np.fft.ifft2(np.fft.fft2(m1)*g))
    M.seen("smooth flat")
    M.state("fsmooth", nx % 4, ny % 4, int(3*np.log(s/dx)))
    M.close("smooth-flat", out, want, rtol=0, atol=3e-4 *
            np.max(np.abs(m0))*max(np.max(np.abs(m1)), 1e-30) + 1e-30)
    M.true("smooth-flat-masked", np.all(out[m0 == 0] == 0))


def k_smooth(nmt, M, rng):
    import healpy as hp
    ns = int(rng.choice([4, 8, 16]))
    npix = 12*ns*ns
    m, m0 = as_input(rng, values(rng, zeros_curved(rng, ns)))
    pixd = np.sqrt(np.pi/3)/ns
    s = pixd*rng.uniform(.5, 3)
    apo = float(np.degrees(s))
    out = nmt.mask_apodization(m, apo, apotype="Smooth")
    z = m0 <= 0
    th, ph = hp.pix2ang(ns, np.arange(npix))
    # rings
    ring = hp.pix2ring(ns, np.arange(npix))
    zr = np.array([np.cos(th[ring == r][0]) for r in range(1, 4*ns)])
    R = min(np.pi, 2.5*s+1.071*np.pi/(4*ns))
    m1 = m0.copy()
    tie = False
    for p in np.nonzero(z)[0]:
        for i, r in enumerate(range(1, 4*ns)):
            idx = np.nonzero(ring == r)[0]
            n = len(idx)
            cd = (np.cos(R)-zr[i]*np.cos(th[p])) / \
                np.sqrt((1-zr[i]**2)*(1-np.cos(th[p])**2))
            if abs(abs(cd)-1) < 1e-9:
                tie = True
            if cd > 1:
                continue
            if cd < -1 or (np.pi-np.arccos(cd))*n < np.pi:
                m1[idx] = 0
                continue
            dp = np.arccos(cd)
            # a pixel is in the disc when its cell meets the phi range
            off = np.mod(ph[idx]-ph[p]+np.pi, 2*np.pi)-np.pi
            e = (np.abs(off)-dp)*n/(2*np.pi)-.5
            if np.any(np.abs(e) < 1e-7):
                tie = True
            m1[idx[e < 0]] = 0
    if tie:
        raise rt.Skip("pixel exactly on the edge of a disc")
    # every pixel within the disc is masked, nothing beyond pixel reach
    x = curved_x(m0, apo)*np.sqrt(1-np.cos(s))
    lm = 3*ns-1
    sky = world.Sky(rng, pix="hpx")
    sky.nside, sky.npix, sky.shape = ns, npix, (npix,)
    T = world.Trans(sky)
    if z.any():
        M.true("oracle", np.all(m1[x < np.sqrt(1-np.cos(min(2.5*s, np.pi)))]
                                <= 0))
    ls = np.arange(lm+1)
    a = T.analysis(m1[None], 0, lm, 3)[0]
    want = m0*T.synth(ref.almxfl(a, np.exp(-.5*ls*(ls+1)*s**2), lm), 0,
                      lm)[0]
    M.seen("smooth curved")
    M.state("smooth", ns, int(4*np.log(s/pixd)))
    M.close("smooth", out, want, rtol=0,
            atol=1e-8*max(np.max(np.abs(m0)), 1e-30)**2+1e-30)
    M.true("smooth-masked", np.all(out[m0 == 0] == 0))
    if rng.random() < .1:
        M.close("smooth-zero-scale", nmt.mask_apodization(
            m, 0., apotype="Smooth"), m0, rtol=1e-14)
