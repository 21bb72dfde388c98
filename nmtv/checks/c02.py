"""C02: the mode-coupling matrix is the mean response of masked fields."""
import itertools
import os
import random

import numpy as np

from nmtv import gen, ref, rt

RULE = ("modes: every real spherical-harmonic mode of each input component "
        "is pushed through real NmtField objects on an exact equiangular "
        "grid and the accumulated pseudo-spectra form the expected matrix; "
        "analytic: the matrix is compared with the sum over the mask "
        "pseudo-spectrum and independently computed Wigner 3j symbols "
        "(HEALPix and CAR masks, larger band limits).")
ASSUMPTIONS = ["ducc0 spherical-harmonic transforms and Wigner 3j symbols "
               "are correct (used as the reference implementation)"]
MIN_EVENTS = {"matrix elements": 1000, "modes propagated": 100}
QUICK_ROUNDS = 4


def cases(seed, tier):
    r = random.Random("C02-%d" % seed)
    out = []
    thorough = tier == "thorough"
    pure = [(0, 0), (1, 0), (0, 1), (1, 1)]
    combos = [dict(s1=a, s2=b) for a, b in
              [(0, 0), (0, 2), (2, 0), (2, 2), (1, 2), (0, 1), (3, 1),
               (0, 3), (1, 1), (2, 3), (3, 3), (0, 4), (4, 2)]]
    combos += [dict(s1=2, s2=2, p1=p, p2=q)
               for p, q in itertools.product(pure, pure) if p+q != (0,)*4]
    combos += [dict(s1=0, s2=2, p2=p) for p in pure[1:]]
    combos += [dict(s1=2, s2=0, p1=p) for p in pure[1:]]
    combos += [dict(s1=2, s2=3, p1=(0, 1)), dict(s1=1, s2=2, p2=(1, 1))]
    combos += [dict(s1=0, s2=2, p2=p, teb=True) for p in pure]
    combos += [dict(s1=0, s2=r.choice([1, 3]), teb=True)]
    for rep in range(24 if thorough else 2):
        for c in combos:
            lmax = r.randint(5, 12 if thorough else 9)
            lmask = r.randint(0, 10 if thorough else 7)
            lm = max(2, lmask+r.choice([0, 0, 1, 4, 9]))
            out.append(dict(c, kind="modes", lmax=lmax, lmask=lmask,
                            lmax_mask=lm, same=r.random() < .25,
                            seed=r.randrange(1 << 30)))
    n = 800 if thorough else 120
    for i in range(n):
        a = r.choice([0, 0, 0, 2, 2, 2, 1, 3, 4, 5])
        b = r.choice([0, 0, 2, 2, 1, 3, 6])
        teb = r.random() < .2
        if teb:
            a, b = 0, r.choice([1, 2, 2, 3])
        lmax = r.randint(5, 30 if not thorough else 70)
        out.append(dict(kind="analytic", s1=a, s2=b, teb=teb, lmax=lmax,
                        lmax_mask=r.choice([lmax, lmax//2+1, 2*lmax,
                                            2*lmax+7, lmax+1, lmax-1]),
                        pix=r.choice(["hpx", "hpx", "car"]),
                        masks=r.choice(["indep", "same", "disjoint",
                                        "binary", "signed"]),
                        seed=r.randrange(1 << 30)))
    # whole rows and columns of matrices of realistic size
    big = [dict(s1=0, s2=0), dict(s1=0, s2=2), dict(s1=2, s2=2),
           dict(s1=2, s2=2, p1=(0, 1), p2=(0, 1)),
           dict(s1=0, s2=2, p2=(0, 1)), dict(s1=0, s2=2, teb=True),
           dict(s1=2, s2=1), dict(s1=3, s2=3), dict(s1=2, s2=0, p1=(1, 0)),
           dict(s1=2, s2=2, p1=(1, 1)), dict(s1=2, s2=2, p2=(1, 0)),
           dict(s1=0, s2=2, teb=True, p2=(0, 1)), dict(s1=1, s2=2, p2=(0, 1)),
           dict(s1=0, s2=1), dict(s1=1, s2=1)]
    for rep in range(6 if thorough else 1):
        for c in big:
            hi = 260
            if thorough or r.random() < .3:
                hi = 600 if not thorough or "p1" in c or "p2" in c \
                    or "teb" in c else 1300
            lmax = r.randint(64, hi)
            out.append(dict(c, kind="big", lmax=lmax, lmax_mask=r.choice(
                [lmax, 2*lmax, lmax-1, 3*lmax//2, 2*lmax+5, lmax//3]),
                seed=r.randrange(1 << 30)))
    # spins so high that the recursion for the 3j symbols has to rescale
    for i in range(20 if thorough else 4):
        a, b = r.randint(10, 300), r.choice([0, 2, r.randint(10, 300)])
        if i == 0:
            a, b = r.randint(180, 300), r.randint(180, 300)
        if r.random() < .5:
            a, b = b, a
        lmax = max(a, b)+r.randint(1, 100)
        out.append(dict(s1=a, s2=b, kind="big", lmax=lmax, lmax_mask=r.choice(
            [lmax, 2*lmax, lmax-1, lmax//3]), seed=r.randrange(1 << 30)))
    r.shuffle(out)
    return out


def _fields(nmt, st, mask, s, p, lmax, lm, maps):
    return nmt.NmtField(
        st.store(mask), None if maps is None else st.store(maps),
        spin=s, wcs=st.wcs(), lmax=lmax, lmax_mask=lm,
        purify_e=bool(p[0]), purify_b=bool(p[1]), n_iter=0, n_iter_mask=0)


def run_modes(c, M):
    import pymaster as nmt
    rng = gen.rng_of(c)
    lmax, lmask, lm = c["lmax"], c["lmask"], c["lmax_mask"]
    s1, s2 = c["s1"], c["s2"]
    p1, p2 = tuple(c.get("p1", (0, 0))), tuple(c.get("p2", (0, 0)))
    N = 2*max(lmax, lm)+lmask+2
    N += N % 2
    g = ref.Grid(N)
    st = gen.rand_stored(rng, g)
    m1 = gen.bl_mask(rng, g, lmask)
    m2 = m1 if c["same"] else gen.bl_mask(rng, g, lmask)
    modes = ref.real_modes(lmax)

    def prop(mask, s, p):
        out = []
        nc = 2 if s else 1
        for l, a in modes:
            row = []
            for k in range(nc):
                alm = np.zeros((nc, len(a)), dtype=complex)
                alm[k] = a
                if l < s:
                    row.append(np.zeros_like(alm))
                    continue
                f = _fields(nmt, st, mask, s, p, lmax, lm,
                            g.synth(alm, s, lmax))
                x = f.get_alms()
                if x.shape != alm.shape:
                    M.fail("alm-shape", "alms %s" % (x.shape,))
                    raise rt.Abort
                row.append(x)
                M.seen("modes propagated")
            out.append(row)
        return out

    A1 = prop(m1, s1, p1)
    teb = c.get("teb", False)
    if teb:
        m2 = m1
    A2 = A1 if (c["same"] and s1 == s2 and p1 == p2) else prop(m2, s2, p2)
    ells = [l for l, _ in modes]
    if teb:
        want = np.zeros((7*(lmax+1), 7*(lmax+1)))
        for X, Y, idx in [(A1, A1, [0]), (A1, A2, [1, 2]),
                          (A2, A2, [3, 4, 5, 6])]:
            sub = ref.response(X, Y, ells, lmax)
            n = len(idx)
            for i in range(n):
                for j in range(n):
                    want[idx[i]::7, idx[j]::7] = sub[i::n, j::n]
    else:
        want = ref.response(A1, A2, ells, lmax)
    b = nmt.NmtBin.from_lmax_linear(lmax, 1)
    f1 = _fields(nmt, st, m1, s1, p1, lmax, lm, None)
    f2 = _fields(nmt, st, m2, s2, p2, lmax, lm, None)
    if rng.random() < .5 and s1 == s2 and p1 == p2 and c["same"]:
        f2 = f1
    w = nmt.NmtWorkspace.from_fields(f1, f2, b, is_teb=teb)
    got = w.get_coupling_matrix()
    M.seen("matrix elements", want.size)
    M.state("modes", teb, s1, s2, p1, p2, np.sign(lm-lmax), c["same"])
    M.close("mcm-vs-mode-response", got, want, rtol=1e-9,
            msg="spins %d,%d pure %s,%s lmax %d lmax_mask %d mask band %d"
            % (s1, s2, p1, p2, lmax, lm, lmask))
    # Couple a random theory: same statement through the other entry point
    n = 7 if teb else gen.ncl(s1, s2)
    th = rng.normal(size=(n, lmax+1))
    wc = (want @ th.T.reshape(-1)).reshape(lmax+1, n).T
    M.close("couple-vs-mode-response", w.couple_cell(th), wc, rtol=1e-9)


def run_analytic(c, M):
    import pymaster as nmt
    rng = gen.rng_of(c)
    lmax, lm = c["lmax"], max(1, c["lmax_mask"])
    s1, s2 = c["s1"], c["s2"]
    if c["pix"] == "hpx":
        ns = 16
        while 3*ns-1 < lm:
            ns *= 2
        npix = 12*ns**2

        def newmask():
            import healpy as hp
            m = rng.random(npix)
            m = hp.smoothing(m-.5, sigma=.3*rng.random()+.05)
            return m/np.max(np.abs(m))
        kw = {}
        shape = (npix,)
        store = np.asarray
    else:
        N = 2*lm+2
        g = ref.Grid(N)
        st = gen.rand_stored(rng, g)
        kw = dict(wcs=st.wcs())
        store = st.store

        def newmask():
            return gen.bl_mask(rng, g, lm, positive=False)
    m1 = newmask()
    m2 = newmask()
    if c["masks"] == "binary":
        m1, m2 = (m1 > 0)*1., (m2 > 0)*1.
    elif c["masks"] == "disjoint":
        m1, m2 = (m1 > 0)*1., (m1 <= 0)*1.
    elif c["masks"] == "indep":
        m1, m2 = m1-m1.min(), m2-m2.min()
    same = c["masks"] == "same"
    if same:
        m2 = m1
    nit = int(rng.integers(0, 3))
    ar = dict(lmax=lmax, lmax_mask=lm, n_iter_mask=nit, **kw)
    b1 = np.exp(-rng.random()*np.arange(lmax+1)/lmax)
    b2 = np.exp(-rng.random()*np.arange(lmax+1)/lmax)
    f1 = nmt.NmtField(store(m1), None, spin=s1, beam=b1, **ar)
    f2 = f1 if (same and s1 == s2 and rng.random() < .5) else \
        nmt.NmtField(store(m2), None, spin=s2, beam=b2, **ar)
    if f2 is f1:
        b2 = b1
    # the mask spectrum itself: independent transform
    if c["pix"] == "hpx":
        import healpy as hp
        a1 = hp.map2alm(m1, lmax=lm, iter=nit, pol=False)
        a2 = hp.map2alm(m2, lmax=lm, iter=nit, pol=False)
    elif nit == 0:
        a1 = g.quad(m1[None], 0, lm)[0]
        a2 = g.quad(m2[None], 0, lm)[0]
    else:
        a1, a2 = f1.get_mask_alms(), f2.get_mask_alms()
    pcl = ref.alm2cl(a1, a2, lm)
    want = ref.mcm(pcl, s1, s2, lmax, c["teb"])
    b = nmt.NmtBin.from_lmax_linear(lmax, 1)
    w = nmt.NmtWorkspace.from_fields(f1, f2, b, is_teb=c["teb"])
    got = w.get_coupling_matrix()
    M.seen("matrix elements", want.size)
    M.state("analytic", s1, s2, c["teb"], np.sign(lm-lmax), c["masks"],
            c["pix"])
    auto = np.sqrt(max(ref.alm2cl(a1, a1, lm).max(), 1e-30)
                   * max(ref.alm2cl(a2, a2, lm).max(), 1e-30))
    sc = max(np.max(np.abs(want)), auto/(4*np.pi))
    M.close("mcm-vs-analytic", got, want, rtol=1e-8, scale=sc,
            msg="spins %d,%d teb %s lmax %d lmax_mask %d %s"
            % (s1, s2, c["teb"], lmax, lm, c["pix"]))
    # matrix times spectrum includes the beams on the input side
    n = 7 if c["teb"] else gen.ncl(s1, s2)
    th = rng.normal(size=(n, lmax+1))
    wc = (want @ (th*(b1*b2)[None]).T.reshape(-1)).reshape(lmax+1, n).T
    M.close("couple-vs-analytic", w.couple_cell(th), wc, rtol=1e-8,
            scale=max(np.max(np.abs(wc)), sc))


def run_big(c, M):
    """Matrices at the band limits people use: complete rows and columns.

    The mask pseudo-spectrum is read back through compute_coupled_cell of
    the masks (C09 and the smaller cases judge it); steep and noisy masks
    are drawn directly in harmonic space.
    """
    import pymaster as nmt
    import healpy as hp
    rng = gen.rng_of(c)
    lmax, lm = c["lmax"], c["lmax_mask"]
    s1, s2 = c["s1"], c["s2"]
    p1, p2 = tuple(c.get("p1", (0, 0))), tuple(c.get("p2", (0, 0)))
    teb = c.get("teb", False)
    ns = 32
    while 3*ns-1 < lm:
        ns *= 2
    npix = 12*ns**2

    def newmask():
        v = np.array(hp.pix2vec(ns, np.arange(npix)))
        m = np.zeros(npix)
        for i in range(int(rng.integers(1, 4))):
            d = rng.normal(size=3)
            d /= np.sqrt(np.sum(d**2))
            m += (d @ v > rng.uniform(-.5, .95))*rng.random()
        if rng.random() < .5:
            m *= rng.random(npix)
        return m
    m1 = newmask()
    m2 = m1 if teb or rng.random() < .4 else newmask()
    ar = dict(lmax=lmax, lmax_mask=lm, n_iter_mask=0)
    fs = []
    for m, s, p in ((m1, s1, p1), (m2, s2, p2)):
        fs.append(nmt.NmtField(m, None, spin=s, purify_e=bool(p[0]),
                               purify_b=bool(p[1]), **ar))
    b = nmt.NmtBin.from_lmax_linear(lmax, int(rng.integers(10, 40)))
    w = nmt.NmtWorkspace.from_fields(fs[0], fs[1], b, is_teb=teb)
    got = w.get_coupling_matrix()
    a1 = hp.map2alm(m1, lmax=lm, iter=0, pol=False)
    a2 = a1 if m2 is m1 else hp.map2alm(m2, lmax=lm, iter=0, pol=False)
    pcl = ref.alm2cl(a1, a2, lm)
    blocks = [(0, (0, 0), 0, (0, 0), [0]), (0, (0, 0), s2, p2, [1, 2]),
              (s2, p2, s2, p2, [3, 4, 5, 6])] if teb else \
        [(s1, p1, s2, p2, list(range(gen.ncl(s1, s2))))]
    n = 7 if teb else gen.ncl(s1, s2)
    if got.shape != (n*(lmax+1),)*2:
        M.fail("big-shape", "matrix %s" % (got.shape,))
        return
    cube = got.reshape(lmax+1, n, lmax+1, n)
    sc = np.max(np.abs(got))
    edge = [0, 1, 2, 3, lmax//2, lmax-1, lmax]
    rows = [int(x) for x in rng.choice(edge, size=2, replace=False)] + \
        [int(x) for x in rng.integers(0, lmax+1, size=2)]
    cols = [int(x) for x in rng.choice(edge, size=1)] + \
        [int(x) for x in rng.integers(0, lmax+1, size=1)]
    pairs = [(r_, l) for r_ in rows for l in range(lmax+1)] + \
        [(l, c_) for c_ in cols for l in range(lmax+1)] + \
        [(int(x), int(y)) for x, y in rng.integers(0, lmax+1, (300, 2))]
    want = np.zeros((len(pairs), n, n))
    for i, (l2, l3) in enumerate(pairs):
        for t1, q1, t2, q2, idx in blocks:
            want[i][np.ix_(idx, idx)] = ref.mcm_block(
                pcl, t1, q1, t2, q2, l2, l3)
    have = np.array([cube[l2, :, l3, :] for l2, l3 in pairs])
    M.seen("matrix elements", want.size)
    M.seen("large-matrix pairs", len(pairs))
    M.state("big", s1, s2, p1, p2, teb, np.sign(lm-lmax))
    M.close("mcm-vs-analytic", have, want, rtol=1e-8, scale=sc,
            msg="spins %d,%d pure %s,%s teb %s lmax %d lmax_mask %d"
            % (s1, s2, p1, p2, teb, lmax, lm))
    th = rng.normal(size=(n, lmax+1))/(np.arange(lmax+1)+3.)
    wc = (got @ th.T.reshape(-1)).reshape(lmax+1, n).T
    M.close("couple-vs-matrix", w.couple_cell(th), wc, rtol=1e-9)


def run(c, M):
    if c["kind"] == "big":
        run_big(c, M)
    elif c["kind"] == "modes":
        run_modes(c, M)
    else:
        run_analytic(c, M)
