"""C08: purified fields keep only the unambiguous modes."""
import random

import numpy as np

from nmtv import gen, ref, rt, world

RULE = ("null: pure-E / pure-B skies on exact CAR grids with band-limited "
        "masks, observing that the purified other component vanishes and is "
        "independent of the mask band limit; formula: random fields on "
        "HEALPix and CAR against the mask-derivative expansion evaluated "
        "with reference transforms, plus linearity, storage and input-mode "
        "relations.")
ASSUMPTIONS = ["healpy and ducc0 2-D reference transforms"]
MIN_EVENTS = {"null tests": 20, "expansions": 40,
              "purified with templates": 40}
QUICK_ROUNDS = 40
PURE = [(1, 0), (0, 1), (1, 1)]


def cases(seed, tier):
    r = random.Random("C08-%d" % seed)
    n = 1500 if tier == "thorough" else 150
    return [dict(kind=r.choice(["null", "formula", "formula"]),
                 pure=r.choice(PURE), seed=r.randrange(1 << 30))
            for _ in range(n)]


def run_null(c, M):
    import pymaster as nmt
    rng = gen.rng_of(c)
    lmax = int(rng.integers(4, 13))
    lsky = lmax + int(rng.integers(0, 4))
    lmask = int(rng.integers(0, 7))
    N = lmax+lsky+lmask+4
    N += N % 2
    g = ref.Grid(N)
    st = gen.rand_stored(rng, g)
    m = gen.bl_mask(rng, g, lmask, positive=rng.random() < .7)
    comp = int(rng.integers(2))
    alm = np.zeros((2, ref.nalm(lsky)), dtype=complex)
    alm[comp] = ref.rand_alm(rng, lsky, lmin=2)[0]
    sky = g.synth(alm, 2, lsky)
    # the analysis must be exact up to lmax+lmask, hence N
    kw = dict(spin=2, wcs=st.wcs(), lmax=lmax, n_iter=0, n_iter_mask=0)
    base = nmt.NmtField(st.store(m), st.store(sky),
                        lmax_mask=max(lmask, 2), **kw).get_alms()
    p = c["pure"]
    outs = []
    for lm in [max(2, lmask), max(2, lmask)+int(rng.integers(1, 5)), lmax]:
        if lm < lmask:
            continue
        f = nmt.NmtField(st.store(m), st.store(sky), lmax_mask=lm,
                         purify_e=bool(p[0]), purify_b=bool(p[1]), **kw)
        outs.append(f.get_alms())
    M.state("null", p, comp, lmask, lmax)
    sc = np.max(np.abs(base))
    for k, o in enumerate(outs):
        for q in range(2):
            if not p[q]:
                M.close("other-component-unchanged", o[q], base[q],
                        rtol=1e-11, scale=sc)
            elif q != comp:
                M.close("no-leakage", o[q], np.zeros_like(o[q]),
                        rtol=1e-9, scale=sc,
                        msg="pure-%s sky leaves power in purified %s"
                        % ("EB"[comp], "EB"[q]))
                M.seen("null tests")
        M.close("mask-band-independent", o, outs[0], rtol=1e-10, scale=sc)
    if lmask == 0:
        a = base.copy()
        M.close("constant-mask", outs[0], a, rtol=1e-10, scale=sc)


def expansion(T, mask, maps, lmax, lmm, n_iter, n_iter_mask, p):
    """Purified coefficients from the mask derivative expansion."""
    am = T.analysis(mask[None], 0, lmm, n_iter_mask)[0]
    a0 = T.analysis(maps*mask, 2, lmax, n_iter)
    if not any(p):
        return a0
    L = np.arange(lmm+1)
    z = np.zeros_like(am)
    f1 = np.sqrt(L*(L+1.))
    w1 = T.synth(np.array([-ref.almxfl(am, f1, lmm), z]), 1, lmm)
    f2 = np.sqrt(np.clip((L-1.)*L*(L+1)*(L+2), 0, None))
    w2 = T.synth(np.array([ref.almxfl(am, f2, lmm), z]), 2, lmm)
    q, u = maps

    def prod(w):
        # (w1 - i w2)*(q + i u)
        return np.array([w[0]*q+w[1]*u, w[0]*u-w[1]*q])
    a1 = T.analysis(prod(w1), 1, lmax, n_iter)
    x2 = prod(w2)
    a2 = np.array([T.analysis(x[None], 0, lmax, n_iter)[0] for x in x2])
    l = np.arange(lmax+1).astype(float)
    g1 = np.zeros(lmax+1)
    g2 = np.zeros(lmax+1)
    g1[2:] = 2./np.sqrt((l[2:]-1)*(l[2:]+2))
    g2[2:] = 1./np.sqrt((l[2:]-1)*l[2:]*(l[2:]+1)*(l[2:]+2))
    out = a0.copy()
    for i in range(2):
        if p[i]:
            out[i] = a0[i]+ref.almxfl(a1[i], g1, lmax) \
                + ref.almxfl(a2[i], g2, lmax)
    return out


def run_formula(c, M):
    import pymaster as nmt
    rng = gen.rng_of(c)
    sky = world.Sky(rng, small=rng.random() < .7, crop=rng.random() < .4)
    if rng.random() < .3:
        sky.lmax_mask = max(2, sky.lmax-int(rng.integers(-3, 4)))
    T = world.Trans(sky)
    fs = world.FieldSpec(rng, sky, spin=2, pure=c["pure"],
                         mask=sky.mask(rng, rng.choice(["smooth", "patch"])))
    if rng.random() < .5:     # weights that are small, but not zero
        k = rng.random(fs.mask.shape) < .3
        fs.mask = np.where(k, fs.mask*10.**rng.uniform(-6, -1,
                                                       fs.mask.shape),
                           fs.mask)
    p = fs.pure
    f = fs.build(nmt)
    a = f.get_alms()
    want = expansion(T, fs.mask, fs.maps, sky.lmax, sky.lmax_mask,
                     fs.n_iter, fs.n_iter_mask, p)
    sc = np.max(np.abs(want))
    M.close("expansion", a, want, rtol=1e-9, scale=sc,
            msg="pure %s lmax %d lmax_mask %d" % (p, sky.lmax,
                                                   sky.lmax_mask))
    M.seen("expansions")
    M.state("formula", p, sky.pix, sky.lmax > sky.lmax_mask, fs.n_iter)
    o = fs.build(nmt, purify_e=False, purify_b=False).get_alms()
    for i in range(2):
        if not p[i]:
            M.close("other-component-unchanged", a[i], o[i], rtol=1e-12,
                    scale=sc)
    M.close("purified-map", f.get_maps(),
            T.to_internal(T.synth(a, 2, sky.lmax)), rtol=1e-9)
    b2 = fs.build(nmt, lite=True)
    M.close("lite", b2.get_alms(), a, rtol=1e-13, scale=sc)
    m2 = sky.noise(rng, 2)*fs.units
    x, y = rng.normal(size=2)
    l2 = fs.build(nmt, maps=m2).get_alms()
    l3 = fs.build(nmt, maps=x*fs.maps+y*m2).get_alms()
    M.close("linear", l3, x*a+y*l2, rtol=1e-10, scale=sc*10)
    s = 10.**rng.uniform(-3, 3)
    l4 = fs.build(nmt, mask=s*fs.mask).get_alms()
    M.close("mask-scaling", l4, s*a, rtol=1e-10, scale=s*sc)
    # masked input: what lies outside the mask is lost
    seen = fs.mask > 0
    g = fs.build(nmt, maps=fs.maps*fs.mask, masked_on_input=True)
    h = fs.build(nmt, maps=fs.maps*seen)
    M.close("premasked", g.get_alms(), h.get_alms(), rtol=1e-9, scale=sc)
    run_temps(nmt, M, rng, fs, T, c)
    # requesting both is the union of requesting each
    both = fs.build(nmt, purify_e=True, purify_b=True).get_alms()
    for i in range(2):
        if p[i]:
            M.close("both", both[i], a[i], rtol=1e-12, scale=sc)


def run_temps(nmt, M, rng, fs, T, c):
    """Templates are removed from the map that is then purified."""
    nt = int(rng.integers(1, 4))
    t = np.array([fs.sky.noise(rng, 2) for _ in range(nt)])
    w = np.sqrt(np.broadcast_to(T.weights(), fs.maps.shape)).reshape(-1)
    A = (w*(t*fs.mask).reshape(nt, -1)).T
    if np.linalg.matrix_rank(A) < nt or np.linalg.cond(A) > 1e3:
        return
    seen = fs.mask > 0
    al = np.linalg.lstsq(A, w*(fs.maps*fs.mask).reshape(-1), rcond=None)[0]
    for zero in (1., seen):
        mp, tm = fs.maps*zero, t*zero
        clean = mp-np.einsum("i,i...->...", al, tm)
        want = fs.build(nmt, maps=clean)
        sc = np.max(np.abs(fs.build(nmt, maps=mp).get_alms()))
        if zero is seen:
            f = fs.build(nmt, maps=fs.maps*fs.mask, templates=t*fs.mask,
                         masked_on_input=True)
        else:
            f = fs.build(nmt, templates=t)
        M.close("templates", f.get_alms(), want.get_alms(), rtol=1e-8,
                scale=sc)
        M.close("templates-map", f.get_maps(), want.get_maps(), rtol=1e-8,
                scale=np.max(np.abs(fs.maps)))
        M.close("templates-masked", f.get_templates(),
                T.to_internal(t*fs.mask), rtol=1e-10)
        M.seen("purified with templates")


def run(c, M):
    (run_null if c["kind"] == "null" else run_formula)(c, M)
