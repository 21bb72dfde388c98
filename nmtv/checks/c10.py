"""C10: deprojection and noise biases equal the ensemble-mean bias."""
import random

import numpy as np

from nmtv import gen, ref, rt, world

RULE = ("Random field pairs (spins 0-4, templates on either or both, "
        "purification, HEALPix and CAR in every storage order). Every "
        "harmonic mode is sent through fields with and without templates; "
        "the difference of the two mean pseudo-spectra for the guessed "
        "spectra is compared with the returned bias. For uncorrelated noise "
        "the same with every pixel of the map. Plus transposition, storage, "
        "default-iteration and refusal relations.")
ASSUMPTIONS = ["Sky modes beyond the fields' lmax carry no power.",
               "n_iter=0 for the exact comparison (the transform used for "
               "the template products is then the exact adjoint)."]
MIN_EVENTS = {"modes propagated": 1000, "pixels propagated": 1000,
              "refusals checked": 20}
QUICK_ROUNDS = 9


def cases(seed, tier):
    r = random.Random("C10-%d" % seed)
    n = 700 if tier == "thorough" else 80
    out = [dict(kind="noise-EB", pure=False, seed=11)]
    return out+[dict(kind=r.choice(["modes", "modes", "noise", "rel"]),
                     pure=r.random() < .3,
                     seed=r.randrange(1 << 30)) for _ in range(n)]


def propagate(nmt, M, T, fs, what):
    """alms of fields with one input mode each: [mode][comp] -> alms"""
    sky = fs.sky
    out, ells = [], []
    if what == "modes":
        inp = ref.real_modes(sky.lmax, lmin=fs.spin)
        for l, a in inp:
            row = []
            for c in range(fs.nmaps):
                alm = np.zeros((fs.nmaps, len(a)), dtype=complex)
                alm[c] = a
                row.append(T.synth(alm, fs.spin, sky.lmax))
            out.append(row)
            ells.append(l)
    else:
        for p in range(sky.npix):
            row = []
            for c in range(fs.nmaps):
                m = np.zeros((fs.nmaps, sky.npix))
                m[c, p] = 1.
                row.append(m.reshape((fs.nmaps,)+sky.shape))
            out.append(row)
            ells.append(p)
    res = {}
    for t in (True, False):
        kw = {} if t else dict(templates=None)
        res[t] = [[fs.build(nmt, maps=m, **kw).get_alms() for m in row]
                  for row in out]
    M.seen("modes propagated" if what == "modes" else "pixels propagated",
           len(ells)*fs.nmaps)
    return ells, res


def mean_modes(A1, A2, ells1, ells2, cl, lmax, n1, n2):
    """Mean spectra; modes common to both fields, C[c,d,l]."""
    k1 = max(0, len(ells2)-len(ells1))
    ls, ms = ref.lm_arrays(lmax)
    wt = np.where(ms == 0, 1., 2.)/(2*ls+1.)
    out = np.zeros((n1, n2, lmax+1))
    # field of the larger spin misses the low-l modes: align by position
    m1 = {k: i for i, k in enumerate(ells1)}
    for k, i in m1.items():
        if k not in ells2:
            continue
        j = ells2[k]
        for c in range(len(A1[i])):
            for d in range(len(A2[j])):
                for a in range(n1):
                    for b in range(n2):
                        out[a, b] += cl[c, d, k[0]]*np.bincount(
                            ls, weights=wt*np.real(A1[i][c][a]*np.conj(
                                A2[j][d][b])), minlength=lmax+1)
    del k1
    return out.reshape(n1*n2, lmax+1)


def keys(lmax, spin):
    """mode identifiers in the order of ref.real_modes"""
    ls, ms = ref.lm_arrays(lmax)
    out = []
    for l, m in zip(ls, ms):
        if l < spin:
            continue
        for f in ([0] if m == 0 else [0, 1]):
            out.append((int(l), int(m), f))
    return out


def mkfield(rng, sky, c, **kw):
    pure = c["pure"] and rng.random() < .7
    nt = kw.pop("nt", None)
    if nt is None:
        nt = int(rng.integers(0, 3))
    return world.FieldSpec(rng, sky, temps=nt, pure=pure, n_iter=0,
                           mask=sky.mask(rng, "smooth") if pure else None,
                           **kw)


def run(c, M):
    import pymaster as nmt
    rng = gen.rng_of(c)
    if c["kind"] == "rel":
        return relations(nmt, M, rng, c)
    pix = "hpx" if rng.random() < .5 else "car"
    lim = 5 if pix == "hpx" else 8
    sky = world.Sky(rng, pix=pix, lmax=int(rng.integers(4, lim+1)),
                    crop=c["seed"] % 3 == 0)
    if pix == "hpx" and sky.nside > 2:
        sky = world.Sky(rng, pix=pix)
        sky.lmax = min(sky.lmax, 7)
    T = world.Trans(sky)
    lmax = sky.lmax
    if c["kind"] == "modes":
        s1 = mkfield(rng, sky, c)
        same = rng.random() < .25
        if same:
            s1 = mkfield(rng, sky, c, nt=int(rng.integers(1, 4)))
        s2 = s1 if same else mkfield(
            rng, sky, c, nt=None if s1.temps is not None else 2)
        if not same and rng.random() < .15 and sky.lmax_mask >= 4:
            # anisotropic weights on the field without templates
            if s1.temps is None:
                s1, s2 = s2, s1
            s2 = world.FieldSpec(rng, sky, spin=int(rng.choice([1, 2])),
                                 aniso=True, n_iter=0)
            if rng.random() < .5:
                s1, s2 = s2, s1
        f1 = s1.build(nmt)
        f2 = f1 if same and rng.random() < .5 else s2.build(nmt)
        n1, n2 = s1.nmaps, s2.nmaps
        cl = rng.normal(size=(n1, n2, lmax+1))
        if same:
            cl = cl+np.transpose(cl, (1, 0, 2))
        M.state("modes", pix, s1.spin, s2.spin, s1.pure, s2.pure, same,
                s1.aniso is not None, s2.aniso is not None,
                0 if s1.temps is None else len(s1.temps),
                0 if s2.temps is None else len(s2.temps))
        got = nmt.deprojection_bias(f1, f2, cl.reshape(n1*n2, lmax+1),
                                    n_iter=0)
        e1, r1 = propagate(nmt, M, T, s1, "modes")
        e2, r2 = (e1, r1) if same else propagate(nmt, M, T, s2, "modes")
        k1 = keys(lmax, s1.spin)
        k2 = {k: i for i, k in enumerate(keys(lmax, s2.spin))}
        args = (k1, k2, cl, lmax, n1, n2)
        with_t = mean_modes(r1[True], r2[True], *args)
        plain = mean_modes(r1[False], r2[False], *args)
        M.close("bias", got, with_t-plain, rtol=1e-8,
                scale=np.max(np.abs(plain))+np.max(np.abs(with_t-plain)))
        M.seen("biases")
        return
    # uncorrelated noise
    s = mkfield(rng, sky, c, nt=int(rng.integers(1, 4)),
                spin=2 if c["kind"] == "noise-EB" else None)
    f = s.build(nmt)
    n = s.nmaps
    var = np.exp(rng.normal(size=sky.shape))
    got = nmt.uncorr_noise_deprojection_bias(f, var, n_iter=0)
    M.state("noise", pix, s.spin, s.pure, len(s.temps))
    e, r = propagate(nmt, M, T, s, "pixels")
    area = T.weights().reshape(-1)
    v = var.reshape(-1)/np.where(area > 0, area, np.inf)
    mean = {}
    for t in (True, False):
        A = np.array([[x for x in row] for row in r[t]])  # p, c, a, lm
        o = np.zeros((n, n, lmax+1))
        ls, ms = ref.lm_arrays(lmax)
        wt = np.where(ms == 0, 1., 2.)/(2*ls+1.)
        for a in range(n):
            for b in range(n):
                x = np.einsum("p,pcl->l", v, np.real(
                    A[:, :, a]*np.conj(A[:, :, b])))
                o[a, b] = np.bincount(ls, weights=wt*x, minlength=lmax+1)
        mean[t] = o
    want = mean[True]-mean[False]
    got = got.reshape(n, n, lmax+1)
    sc = np.max(np.abs(mean[False]))+np.max(np.abs(want))
    for a in range(n):
        M.close("noise-bias", got[a, a], want[a, a], rtol=1e-8, scale=sc)
    if n == 2:
        M.close("noise-bias-EB+BE", got[0, 1]+got[1, 0],
                want[0, 1]+want[1, 0], rtol=1e-8, scale=sc)
        if c["kind"] == "noise-EB":
            M.close("noise-bias-EB", got[0, 1], want[0, 1], rtol=1e-8,
                    scale=sc)
    M.seen("biases")
    # storage of the variance map; flat order of get_mask()
    g = nmt.uncorr_noise_deprojection_bias(
        f, T.to_internal(var).reshape(-1), n_iter=0)
    M.close("variance-1d", g.reshape(n, n, -1), got, rtol=1e-12, scale=sc)
    # linear in the variance
    var2 = np.exp(rng.normal(size=sky.shape))
    g2 = nmt.uncorr_noise_deprojection_bias(f, var2, n_iter=0)
    g3 = nmt.uncorr_noise_deprojection_bias(f, 2*var+3*var2, n_iter=0)
    M.close("variance-linear", g3, 2*g+3*g2, rtol=1e-10,
            scale=np.max(np.abs(g3))+sc)


def relations(nmt, M, rng, c):
    sky = world.Sky(rng, crop=c["seed"] % 3 == 0)
    s1 = mkfield(rng, sky, c)
    s2 = mkfield(rng, sky, c)
    for s in (s1, s2):
        s.n_iter = int(rng.integers(0, 3))
    f1, f2 = s1.build(nmt), s2.build(nmt)
    n1, n2, L = s1.nmaps, s2.nmaps, sky.lmax+1
    cl = rng.normal(size=(n1*n2, L))
    keep = cl.copy()
    b = nmt.deprojection_bias(f1, f2, cl, n_iter=1)
    M.same("guess-untouched", cl, keep)
    M.state("rel", s1.spin, s2.spin, sky.pix, s1.pure, s2.pure)
    sc = np.max(np.abs(b))+1e-30
    M.true("bias-shape", b.shape == (n1*n2, L), b.shape)
    if s1.temps is None and s2.temps is None:
        M.same("no-templates", b, np.zeros((n1*n2, L)))
    # exchange
    clt = cl.reshape(n1, n2, L).transpose(1, 0, 2).reshape(n1*n2, L)
    bt = nmt.deprojection_bias(f2, f1, clt, n_iter=0)
    b0 = nmt.deprojection_bias(f1, f2, cl, n_iter=0)
    M.close("exchange", bt.reshape(n2, n1, L).transpose(1, 0, 2).reshape(
        n1*n2, L), b0, rtol=1e-9, scale=sc+np.max(np.abs(b0)))
    # linear in the guess, defaults
    cl2 = rng.normal(size=(n1*n2, L))
    b2 = nmt.deprojection_bias(f1, f2, cl2, n_iter=1)
    b3 = nmt.deprojection_bias(f1, f2, cl-2*cl2, n_iter=1)
    M.close("linear", b3, b-2*b2, rtol=1e-10,
            scale=sc+np.max(np.abs(b2)))
    d = nmt.get_default_params()["n_iter_default"]
    M.close("default-iter", nmt.deprojection_bias(f1, f2, cl),
            nmt.deprojection_bias(f1, f2, cl, n_iter=d), rtol=1e-13,
            scale=sc)
    # templates that span the same space give the same bias
    if s1.temps is not None:
        A = rng.normal(size=(len(s1.temps),)*2)+2*np.eye(len(s1.temps))
        if np.linalg.cond(A) < 100:
            g1 = s1.build(nmt, templates=np.einsum("ij,j...->i...", A,
                                                   s1.temps))
            M.close("same-span", nmt.deprojection_bias(g1, f2, cl, n_iter=1),
                    b, rtol=1e-7, scale=sc+np.max(np.abs(cl)))
    # refusals
    for bad in (cl[:, :-1], np.concatenate([cl, cl]), cl[0],
                np.zeros((n1*n2, L+1))):
        M.raises("bad-shape", lambda: nmt.deprojection_bias(f1, f2, bad))
    lt = s1.build(nmt, lite=True)
    if s1.temps is not None or True:
        M.raises("lite", lambda: nmt.deprojection_bias(lt, f2, cl))
    osky = world.Sky(rng)
    if osky.shape != sky.shape or osky.lmax != sky.lmax or \
       osky.lmax_mask != sky.lmax_mask:
        g = world.FieldSpec(rng, osky, spin=s2.spin, temps=1).build(nmt)
        M.raises("incompatible", lambda: nmt.deprojection_bias(f1, g, cl))
    M.raises("lite-noise", lambda: nmt.uncorr_noise_deprojection_bias(
        lt, np.ones(sky.shape)))
    M.raises("noise-shape", lambda: nmt.uncorr_noise_deprojection_bias(
        f1, np.ones(sky.npix+1)))
    z = nmt.uncorr_noise_deprojection_bias(f1, np.zeros(sky.shape))
    M.same("noise-zero", np.abs(z), np.zeros((n1*n1, L)))
    if s1.temps is None:
        z = nmt.uncorr_noise_deprojection_bias(f1, np.ones(sky.shape))
        M.same("noise-no-templates", z, np.zeros((n1*n1, L)))
    M.seen("relations")
