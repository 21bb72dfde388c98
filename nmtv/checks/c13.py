"""C13: anisotropic weighting couples modes as the weight matrix dictates."""
import random

import numpy as np

from nmtv import gen, ref, rt, world

RULE = ("modes: every harmonic mode is pushed through fields with random "
        "band-limited 2x2 weight matrices (either or both fields, any "
        "partner spin) and the accumulated pseudo-spectra form the expected "
        "matrix; field: weighted maps and coefficients against reference "
        "transforms; iso: weight matrices proportional to the identity "
        "against isotropic fields.")
ASSUMPTIONS = ["ducc0/healpy reference transforms"]
MIN_EVENTS = {"matrix elements": 1000, "modes propagated": 100,
              "weighted fields": 20}
QUICK_ROUNDS = 10


def cases(seed, tier):
    r = random.Random("C13-%d" % seed)
    n = 700 if tier == "thorough" else 70
    out = []
    combos = [(1, 1, a, b) for a in (1, 2, 3) for b in (1, 2, 3)]
    combos += [(1, 0, a, b) for a in (1, 2, 3) for b in (0, 1, 2, 3)]
    combos += [(0, 1, a, b) for a in (0, 1, 2, 3) for b in (1, 2, 3)]
    for i in range(n):
        a1, a2, s1, s2 = combos[i % len(combos)] if r.random() < .7 else \
            (1, r.randint(0, 1), 2, 2)
        out.append(dict(kind="modes", a1=a1, a2=a2, s1=s1, s2=s2,
                        same=r.random() < .15,
                        swap=r.random() < .3, seed=r.randrange(1 << 30)))
        out.append(dict(kind=r.choice(["field", "field", "iso"]),
                        seed=r.randrange(1 << 30)))
    return out


def weights(rng, g, lmask, spin, aniso):
    """(m11, m22, m12) with the right band limits, positive definite."""
    m0 = gen.bl_mask(rng, g, lmask)
    if not aniso:
        return m0, None, None
    la = max(2*spin, lmask)
    a = ref.rand_alm(rng, la, lmin=2*spin, n=2)
    if rng.random() < .3:
        a[int(rng.integers(2))] = 0
    m1, m2 = g.synth(a, 2*spin, la)
    n = np.max(np.hypot(m1, m2))
    off = .1
    k = 1./max(n, 1e-10)
    m0 = m0-np.min(m0)+1.+off
    return m0+k*m1, m0-k*m1, k*m2


def run_modes(c, M):
    import pymaster as nmt
    rng = gen.rng_of(c)
    s1, s2, a1, a2 = c["s1"], c["s2"], c["a1"], c["a2"]
    if c["same"] and a1 and a2:
        s2 = s1
    lmask = int(rng.integers(0, 6))
    lband = max([lmask] + [2*s for s, a in ((s1, a1), (s2, a2)) if a])
    lmax = int(rng.integers(max(4, s1+1, s2+1), 9))
    lm = lband + int(rng.choice([0, 0, 1, 3]))
    N = 2*max(lmax, lm)+lband+2
    N += N % 2
    g = ref.Grid(N)
    st = gen.rand_stored(rng, g)
    w1 = weights(rng, g, lmask, s1, a1)
    w2 = w1 if c["same"] and a1 and a2 else weights(rng, g, lmask, s2, a2)
    modes = ref.real_modes(lmax)

    def fld(w, s, maps):
        kw = {}
        if w[1] is not None:
            kw = dict(mask_22=st.store(w[1]), mask_12=st.store(w[2]))
        return nmt.NmtField(st.store(w[0]), None if maps is None else
                            st.store(maps), spin=s, wcs=st.wcs(), lmax=lmax,
                            lmax_mask=lm, n_iter=0, n_iter_mask=0, **kw)

    def prop(w, s):
        out = []
        nc = 2 if s else 1
        for l, a in modes:
            row = []
            for k in range(nc):
                alm = np.zeros((nc, len(a)), dtype=complex)
                alm[k] = a
                if l < s:
                    row.append(np.zeros_like(alm))
                    continue
                row.append(fld(w, s, g.synth(alm, s, lmax)).get_alms())
                M.seen("modes propagated")
            out.append(row)
        return out
    A1 = prop(w1, s1)
    A2 = A1 if w2 is w1 else prop(w2, s2)
    want = ref.response(A1, A2, [l for l, _ in modes], lmax)
    b = nmt.NmtBin.from_lmax_linear(lmax, 1)
    f1 = fld(w1, s1, None)
    f2 = f1 if (w2 is w1 and rng.random() < .5) else fld(w2, s2, None)
    w = nmt.NmtWorkspace.from_fields(f1, f2, b)
    M.seen("matrix elements", want.size)
    M.state("modes", s1, s2, a1, a2, c["same"])
    M.close("mcm-vs-mode-response", w.get_coupling_matrix(), want, rtol=1e-9,
            msg="spins %d,%d aniso %d,%d" % (s1, s2, a1, a2))
    # full pipeline on a sky: windows consistent with the matrix
    n = gen.ncl(s1, s2)
    th = rng.normal(size=(n, lmax+1))
    M.close("couple-vs-mode-response", w.couple_cell(th),
            world.lunflat(want @ world.lflat(th), n), rtol=1e-9)


def run_field(c, M):
    import pymaster as nmt
    rng = gen.rng_of(c)
    sky = world.Sky(rng, small=rng.random() < .95, crop=rng.random() < .3)
    s = int(rng.integers(1, 4))
    sky.lmax_mask = max(2*s, sky.lmax_mask)
    fs = world.FieldSpec(rng, sky, spin=s, aniso=True)
    T = world.Trans(sky)
    m22, m12 = fs.aniso
    unit = 1.
    if rng.random() < .3:     # in any units
        unit = 10.**rng.uniform(-12, 12)
        fs.mask, m22, m12 = fs.mask*unit, m22*unit, m12*unit
    if rng.random() < .2:     # one of two components not measured at all
        m12 = rng.choice([-1, 1])*np.sqrt(fs.mask*m22)
    fs.aniso = m22, m12
    f = fs.build(nmt)
    q, u = fs.maps
    wm = np.array([fs.mask*q+m12*u, m12*q+m22*u])
    M.close("weighted-map", f.get_maps(), T.to_internal(wm), rtol=1e-12)
    M.close("weighted-alms", f.get_alms(),
            T.analysis(wm, s, sky.lmax, fs.n_iter), rtol=1e-9)
    M.close("mask", f.get_mask(), T.to_internal(.5*(fs.mask+m22)),
            rtol=1e-13)
    ma = np.array([.5*(fs.mask-m22), m12])
    M.close("aniso-mask", f.get_anisotropic_mask(), T.to_internal(ma),
            rtol=1e-12, scale=np.max(fs.mask))
    M.close("mask-alms", f.get_mask_alms(), T.analysis(
        .5*(fs.mask+m22)[None], 0, sky.lmax_mask, fs.n_iter_mask)[0],
        rtol=1e-9)
    M.close("aniso-mask-alms", f.get_anisotropic_mask_alms(),
            T.analysis(ma, 2*s, sky.lmax_mask, fs.n_iter_mask), rtol=1e-9,
            scale=np.max(fs.mask))
    g = fs.build(nmt, lite=True)
    M.close("lite", g.get_alms(), f.get_alms(), rtol=1e-13)
    M.close("lite-aniso", g.get_anisotropic_mask_alms(),
            f.get_anisotropic_mask_alms(), rtol=1e-13,
            scale=np.max(fs.mask))
    h = fs.build(nmt, maps=wm, masked_on_input=True)
    M.close("premasked", h.get_alms(), f.get_alms(), rtol=1e-11)
    M.seen("weighted fields")
    M.state("field", s, sky.pix)
    iso = world.FieldSpec(rng, sky, spin=s).build(nmt)
    M.raises("iso-has-no-aniso-mask", iso.get_anisotropic_mask)
    M.raises("iso-has-no-aniso-alms", iso.get_anisotropic_mask_alms)
    k = int(rng.integers(5))
    if k == 0:
        M.raises("missing-12", lambda: fs.build(nmt, mask_12=None))
    elif k == 1:
        M.raises("missing-22", lambda: fs.build(nmt, mask_22=None))
    elif k == 2:
        M.raises("not-positive", lambda: fs.build(
            nmt, mask_12=3*np.sqrt(np.abs(fs.mask*m22))+unit))
    elif k == 3:
        M.raises("scalar", lambda: fs.build(nmt, maps=fs.maps[:1], spin=0))
    else:
        M.raises("templates", lambda: fs.build(
            nmt, templates=np.array([fs.maps])))
        if s == 2:
            M.raises("purify", lambda: fs.build(nmt, purify_b=True))


def run_iso(c, M):
    """Weight matrix proportional to the identity = isotropic mask."""
    import pymaster as nmt
    rng = gen.rng_of(c)
    sky = world.Sky(rng, small=rng.random() < .95, crop=rng.random() < .3)
    s1 = world.FieldSpec(rng, sky, spin=int(rng.integers(1, 4)))
    s2 = world.FieldSpec(rng, sky)
    sky.lmax_mask = max(6, sky.lmax_mask)
    z = np.zeros_like(s1.mask)
    a1 = dict(mask_22=s1.mask.copy(), mask_12=z)
    f1, g1 = s1.build(nmt), s1.build(nmt, **a1)
    f2 = s2.build(nmt)
    g2 = f2
    if s2.spin and rng.random() < .5:
        g2 = s2.build(nmt, mask_22=s2.mask.copy(), mask_12=z)
    if rng.random() < .2:
        f2, g2, s2 = f1, g1, s1
    M.close("iso-alms", g1.get_alms(), f1.get_alms(), rtol=1e-12)
    bs = world.BinSpec(rng, sky.lmax)
    b = bs.build(nmt)
    norm = "FKP" if rng.random() < .3 else "MASTER"
    for x, y, p, q, tag in [(f1, f2, g1, g2, ""), (f2, f1, g2, g1, "swap-")]:
        w = nmt.NmtWorkspace.from_fields(x, y, b, normalization=norm)
        v = nmt.NmtWorkspace.from_fields(p, q, b, normalization=norm)
        m = w.get_coupling_matrix()
        M.close(tag+"iso-mcm", v.get_coupling_matrix(), m, rtol=1e-11)
        M.seen("matrix elements", m.size)
        cl = rng.normal(size=(s1.nmaps*s2.nmaps, sky.lmax+1))
        M.close(tag+"iso-couple", v.couple_cell(cl), w.couple_cell(cl),
                rtol=1e-10)
        if norm == "FKP":
            M.close(tag+"iso-fkp", v.decouple_cell(cl), w.decouple_cell(cl),
                    rtol=1e-10)
    M.state("iso", s1.spin, s2.spin, norm, f1 is f2)
    M.seen("weighted fields")


def run(c, M):
    {"modes": run_modes, "field": run_field, "iso": run_iso}[c["kind"]](c, M)
