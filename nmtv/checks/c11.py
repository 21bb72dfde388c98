"""C11: Gaussian covariances equal the narrow-kernel formula."""
import random

import numpy as np

from nmtv import cov, gen, ref, rt, world

RULE = ("oracle: covariances of random pairs of fields (spins 0/2, four "
        "different masks, any EB/TB content, beams, binnings, FKP) compared "
        "element by element with an independent contraction of kernels "
        "computed from reference transforms of the mask products and "
        "reference 3j symbols, coupled and binned; relations: transposition "
        "under exchange of the pairs, symmetry, spin-0-only workspaces, "
        "reuse, longer inputs; leak: parity leakage term against the exact "
        "ensemble covariance.")
ASSUMPTIONS = ["ducc0/healpy transforms and ducc0 3j symbols",
               "spins are 0 or 2 (kernels of the library are those of spin "
               "2 for every non-zero spin)"]
MIN_EVENTS = {"covariance elements": 5000, "covariances": 30}
QUICK_ROUNDS = 40


def cases(seed, tier):
    r = random.Random("C11-%d" % seed)
    out = []
    combos = [tuple(2*((k >> i) & 1) for i in range(4)) for k in range(16)]
    n = 1600 if tier == "thorough" else 96
    for i in range(n):
        out.append(dict(kind="oracle", spins=combos[i % 16],
                        seed=r.randrange(1 << 30)))
    out.append(dict(kind="leak", seed=7))
    return out


def spectra(rng, nx, ny, lmax, same):
    c = rng.normal(size=(nx*ny, lmax+1))
    if same and nx == 2:
        c[2] = c[1]
    return c


def run_oracle(c, M):
    import pymaster as nmt
    rng = gen.rng_of(c)
    sky = world.Sky(rng, small=rng.random() < .95, crop=rng.random() < .3)
    sky.lmax = min(sky.lmax, 11)
    lmax = sky.lmax
    sp = c["spins"]
    nit = int(rng.integers(0, 3))
    if rng.random() < .5:
        sky.lmax_mask = lmax
    sp = [int(s) for s in sp]
    # how many distinct fields
    mode = rng.choice(["all", "two", "one", "mix"])
    specs = []
    for i, s in enumerate(sp):
        specs.append(world.FieldSpec(rng, sky, spin=s, maponly=True,
                                     n_iter=0, n_iter_mask=nit))
    if mode == "one":
        for x in specs[1:]:
            x.mask = specs[0].mask
    if mode == "two":
        specs[2].mask = specs[0].mask
        specs[3].mask = specs[1].mask
        if rng.random() < .5:
            specs[2].spin, specs[3].spin = specs[0].spin, specs[1].spin
            for x in specs:
                x.nmaps = 2 if x.spin else 1
            sp = [x.spin for x in specs]
            specs[2].beam, specs[3].beam = specs[0].beam, specs[1].beam
    if mode == "mix":
        # the very same objects, in any arrangement
        for i in (1, 2, 3):
            if rng.random() < .6:
                specs[i] = specs[int(rng.integers(i))]
        sp = [x.spin for x in specs]
    built = {id(x): x.build(nmt) for x in specs}
    F = [built[id(x)] for x in specs]
    if mode == "one" and rng.random() < .5:
        F = [x.build(nmt) for x in specs]
    nm = [x.nmaps for x in specs]
    T = world.Trans(sky)

    def malm(i, j):
        return T.analysis((specs[i].mask*specs[j].mask)[None], 0,
                          sky.lmax_mask, nit)[0]
    p11 = ref.alm2cl(malm(0, 2), malm(1, 3), sky.lmax_mask)
    p12 = ref.alm2cl(malm(0, 3), malm(1, 2), sky.lmax_mask)
    K1 = cov.kernels(p11, lmax)
    K2 = cov.kernels(p12, lmax)
    s0 = (sum(sp) == 0) and rng.random() < .5
    cw = nmt.NmtCovarianceWorkspace.from_fields(*F, spin0_only=s0)
    ba = world.BinSpec(rng, lmax)
    bb = world.BinSpec(rng, lmax) if rng.random() < .5 else ba
    norm = ["FKP" if rng.random() < .25 else "MASTER" for _ in range(2)]
    wa = nmt.NmtWorkspace.from_fields(F[0], F[1], ba.build(nmt),
                                      normalization=norm[0])
    wb = nmt.NmtWorkspace.from_fields(F[2], F[3], bb.build(nmt),
                                      normalization=norm[1])
    w0 = wa
    if sum(sp[:2]):
        g = nmt.NmtField(specs[0].mask, None, spin=0, wcs=sky.wcs,
                         lmax=lmax, lmax_mask=sky.lmax_mask)
        w0 = nmt.NmtWorkspace.from_fields(g, g, ba.build(nmt))
    cl = {}
    for i in (0, 1):
        for j in (2, 3):
            cl[i, j] = rng.normal(size=(nm[i]*nm[j], lmax+1))
    want = cov.contraction(K1, K2, nm, cl[0, 2], cl[0, 3], cl[1, 2],
                           cl[1, 3], cov.sym_curved)
    cpl = cov.flat2(want)

    def inp(x):
        k = rng.integers(4)
        if k == 0:
            return [list(y) for y in x]
        return x
    ext = rng.integers(0, 4) if rng.random() < .3 else 0
    arg = [cl[0, 2], cl[0, 3], cl[1, 2], cl[1, 3]]
    arg = [np.concatenate([x, rng.normal(size=(len(x), ext))], axis=1)
           for x in arg]
    arg = [inp(x) for x in arg]
    sc = np.max(np.abs(cpl))
    M.state(tuple(sp), mode, tuple(norm), sky.pix, s0, bb is ba, bool(ext))
    M.seen("covariances", 2)
    M.seen("covariance elements", cpl.size)
    got = nmt.gaussian_covariance(cw, *sp, *arg, wa, wb, coupled=True)
    M.close("coupled", got, cpl, rtol=1e-8, scale=sc, msg="spins %s" % (sp,))
    ka, kb = nm[0]*nm[1], nm[2]*nm[3]

    def decoupler(w, bs, k, f, g, nt):
        b = f.beam_or_one()*g.beam_or_one()
        fkp = None
        if nt == "FKP":
            fkp = np.sum(f.mask*g.mask*T.weights())/(4*np.pi)
            fkp = fkp if abs(fkp) > 1e-12 else None
            if fkp is None:
                raise rt.Skip("empty overlap")
        o = world.wsp_oracle(w.get_coupling_matrix(), b, bs.B, bs.U, k, fkp)
        cn = np.linalg.cond(o["binned"])
        return o, cn
    oa, ca = decoupler(wa, ba, ka, specs[0], specs[1], norm[0])
    ob, cb = decoupler(wb, bb, kb, specs[2], specs[3], norm[1])
    if max(ca, cb) < 1e7:
        got = nmt.gaussian_covariance(cw, *sp, *arg, wa, wb)
        M.seen("covariance elements", got.size)
        x = np.linalg.solve(oa["binned"], oa["Bk"] @ cpl @ ob["Bk"].T)
        x = np.linalg.solve(ob["binned"], x.T).T
        na = np.linalg.norm(np.linalg.inv(oa["binned"]), 2)
        nb = np.linalg.norm(np.linalg.inv(ob["binned"]), 2)
        err = np.linalg.norm(oa["Bk"] @ cpl @ ob["Bk"].T, 2)*na*nb
        M.close("binned", got, x, rtol=1e-9*max(ca, cb, 10.), atol=1e-10*err,
                msg="spins %s %s" % (sp, norm))
        # binned image of the coupled one, through the workspaces themselves
        cpl_got = nmt.gaussian_covariance(cw, *sp, *arg, wa, wb,
                                          coupled=True)
        y = np.array([wb.decouple_cell(world.lunflat(r, kb)).T.reshape(-1)
                      for r in cpl_got])
        y = np.array([wa.decouple_cell(world.lunflat(q, ka)).T.reshape(-1)
                      for q in y.T]).T
        M.close("binned-is-decoupled-coupled", got, y,
                rtol=1e-9*max(ca, cb, 10.), atol=1e-10*err)
    # exchange of pairs
    cw2 = nmt.NmtCovarianceWorkspace.from_fields(F[2], F[3], F[0], F[1],
                                                 spin0_only=s0)

    def tr(x, n1, n2):
        x = np.asarray(x)
        return x.reshape(n1, n2, -1).transpose(1, 0, 2).reshape(n1*n2, -1)
    arg2 = [tr(arg[0], nm[0], nm[2]), tr(arg[2], nm[1], nm[2]),
            tr(arg[1], nm[0], nm[3]), tr(arg[3], nm[1], nm[3])]
    sp2 = [sp[2], sp[3], sp[0], sp[1]]
    t = nmt.gaussian_covariance(cw2, *sp2, *arg2, wb, wa, coupled=True)
    M.close("exchange-coupled", t.T, cpl, rtol=1e-8, scale=sc)
    M.seen("covariances")
    # swapping the fields inside the pairs permutes components
    wsw = nmt.NmtWorkspace.from_fields(F[1], F[0], ba.build(nmt),
                                       normalization=norm[0])
    cw3 = nmt.NmtCovarianceWorkspace.from_fields(F[1], F[0], F[2], F[3])
    t = nmt.gaussian_covariance(cw3, sp[1], sp[0], sp[2], sp[3], arg[2],
                                arg[3], arg[0], arg[1], wsw, wb,
                                coupled=True)
    t = t.reshape(lmax+1, nm[1], nm[0], -1).transpose(0, 2, 1, 3)
    M.close("swap-within-pair", t.reshape(cpl.shape), cpl, rtol=1e-8,
            scale=sc)
    # each field left out is the one of the first pair
    for k, (o, q) in enumerate(((dict(flb1=F[2]), (2, 1)),
                                (dict(flb2=F[3]), (0, 3)),
                                (dict(flb1=F[2], flb2=F[3]), (2, 3)))):
        way = int(rng.integers(3))
        if way == 0:
            x = nmt.NmtCovarianceWorkspace.from_fields(F[0], F[1], **o)
        elif way == 1:
            x = nmt.NmtCovarianceWorkspace(fla1=F[0], fla2=F[1], **o)
        else:
            x = nmt.NmtCovarianceWorkspace()
            x.compute_coupling_coefficients(F[0], F[1], **o)
        y = nmt.NmtCovarianceWorkspace.from_fields(F[0], F[1], F[q[0]],
                                                   F[q[1]])
        z = [rng.normal(size=(1, lmax+1)) for _ in range(4)]
        M.same("default-fields", *[nmt.gaussian_covariance(
            v, 0, 0, 0, 0, *z, w0, w0, coupled=True) for v in (x, y)])
    # default second pair and workspace
    if sp[0] == sp[2] and sp[1] == sp[3]:
        base = {}
        for i in (0, 1):
            for j in (0, 1):
                if (j, i) in base:
                    base[i, j] = tr(base[j, i], nm[j], nm[i])
                else:
                    z = rng.normal(size=(nm[i]*nm[j], lmax+1))
                    if i == j:
                        z = .5*(z+tr(z, nm[i], nm[i]))
                    base[i, j] = z
        cwd = nmt.NmtCovarianceWorkspace.from_fields(F[0], F[1])
        h = nmt.gaussian_covariance(cwd, sp[0], sp[1], sp[0], sp[1],
                                    base[0, 0], base[0, 1], base[1, 0],
                                    base[1, 1], wa, coupled=True)
        M.close("symmetric-coupled", h, h.T, rtol=1e-9)
        if ca < 1e6:
            g = nmt.gaussian_covariance(cwd, sp[0], sp[1], sp[0], sp[1],
                                        base[0, 0], base[0, 1], base[1, 0],
                                        base[1, 1], wa)
            M.close("symmetric", g, g.T, rtol=1e-9*max(ca, 10)**1)
        k1 = cov.kernels(ref.alm2cl(
            malm2(T, specs[0], specs[0], sky, nit),
            malm2(T, specs[1], specs[1], sky, nit), sky.lmax_mask), lmax)
        x = malm2(T, specs[0], specs[1], sky, nit)
        k2 = cov.kernels(ref.alm2cl(x, x, sky.lmax_mask), lmax)
        w = cov.contraction(k1, k2, [nm[0], nm[1]]*2, base[0, 0], base[0, 1],
                            base[1, 0], base[1, 1], cov.sym_curved)
        M.close("auto-coupled", h, cov.flat2(w), rtol=1e-8)
        M.seen("covariances", 2)
    if s0:
        M.raises("spin0-only-refuses-spin2", lambda: nmt.gaussian_covariance(
            cw, 0, 2, 0, 0, *arg, wa, wb))


def malm2(T, f, g, sky, nit):
    return T.analysis((f.mask*g.mask)[None], 0, sky.lmax_mask, nit)[0]


def run_leak(c, M):
    """White E=B sky: cov(EE,BB) = 2 sum |<E B*>|^2 cannot be negative."""
    import pymaster as nmt
    rng = gen.rng_of(c)
    lmax, lmask = 8, 4
    N = 2*lmax+lmask+2
    g = ref.Grid(N+N % 2)
    st = gen.Stored(g)
    m = gen.bl_mask(rng, g, lmask)
    f = nmt.NmtField(st.store(m), None, spin=2, wcs=st.wcs(), lmax=lmax,
                     lmax_mask=2*lmask, n_iter_mask=0)
    cw = nmt.NmtCovarianceWorkspace.from_fields(f, f)
    w = nmt.NmtWorkspace.from_fields(f, f, nmt.NmtBin.from_lmax_linear(lmax,
                                                                       1))
    cl = np.zeros((4, lmax+1))
    cl[0] = cl[3] = 1
    cv = nmt.gaussian_covariance(cw, 2, 2, 2, 2, cl, cl, cl, cl, w,
                                 coupled=True).reshape(lmax+1, 4, lmax+1, 4)
    x = cv[2:, 0, 2:, 3]
    M.true("parity-leakage-sign", np.min(x) >= -1e-12*np.max(np.abs(cv)),
           "cov(EE,BB) reaches %.3g for a white E=B sky; the exact ensemble "
           "covariance is a sum of squares" % np.min(x))


def run(c, M):
    {"oracle": run_oracle, "leak": run_leak}[c["kind"]](c, M)
