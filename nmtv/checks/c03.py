"""C03: coupling, decoupling and bandpower windows are one linear algebra."""
import random

import numpy as np

from nmtv import gen, rt, world

RULE = ("Random fields (spins 0-4, T-E-B, purified, anisotropic), beams, "
        "binnings (shuffled, gappy, overlapping, weighted, f_ell) and "
        "normalisations on HEALPix and CAR; the algebra is recomputed from "
        "the public coupling matrix, beams and band lists and compared with "
        "what couple_cell, decouple_cell and get_bandpower_windows return, "
        "before and after updates.")
ASSUMPTIONS = []
MIN_EVENTS = {"workspaces": 50, "decouplings": 100, "windows": 50}
QUICK_ROUNDS = 40


def cases(seed, tier):
    r = random.Random("C03-%d" % seed)
    n = 2400 if tier == "thorough" else 240
    out = []
    for i in range(n):
        out.append(dict(kind=r.choice(["master"]*5+["fkp", "teb", "aniso",
                                                   "overlap"]),
                        pure=r.random() < .2, upd=r.random() < .3,
                        seed=r.randrange(1 << 30)))
        if i % 240 == 7:
            out[-1].update(big=True, kind=r.choice(["master", "teb"]))
    return out


def check_wsp(M, w, rng, mcm, beam, bs, ncls, norm, tag):
    """mcm: unbinned matrix (oracle side), beam: product of beams."""
    lmax = len(beam)-1
    o = world.wsp_oracle(mcm, beam, bs.B, bs.U, ncls, norm)
    th = rng.normal(size=(ncls, lmax+1))*np.exp(rng.normal(size=(ncls, 1)))
    units = 10.**rng.uniform(-20, 10) if rng.random() < .3 else 1.
    th = th*units
    cp = o["couple"] @ world.lflat(th)
    pad = rng.normal(size=(ncls, int(rng.integers(0, 4))))
    got = w.couple_cell(np.concatenate([th, pad], axis=1))
    M.close(tag+"couple", got, world.lunflat(cp, ncls), rtol=1e-11)
    # decoupling: backward-error test of the binned system
    A = o["binned"]
    pcl = rng.normal(size=(ncls, lmax+1))*units
    nz = rng.normal(size=(ncls, lmax+1))*units if rng.random() < .6 else None
    bi = rng.normal(size=(ncls, lmax+1))*units if rng.random() < .6 else None
    k = int(rng.integers(0, 3))

    def ext(x):
        if x is None:
            return None
        return np.concatenate([x, rng.normal(size=(ncls, k))], axis=1)
    net = pcl - (0 if nz is None else nz) - (0 if bi is None else bi)
    cond = np.linalg.cond(A)
    if not np.isfinite(cond) or cond > 1e9:
        M.seen("ill-conditioned binned matrices (only coupling checked)")
        return
    dec = w.decouple_cell(ext(pcl), cl_bias=ext(bi), cl_noise=ext(nz))
    rhs = o["Bk"] @ world.lflat(net)
    sc = np.max(np.sum(np.abs(o["Bk"]), axis=1))*np.max(
        np.abs(pcl)+(0 if nz is None else np.abs(nz))
        + (0 if bi is None else np.abs(bi)))
    tol = max(1e-10, 1e-15*cond)      # (through explicit inverses)
    M.close(tag+"decouple", A @ world.lflat(dec), rhs, rtol=tol,
            scale=max(sc, np.max(np.sum(np.abs(A), axis=1))
                      * np.max(np.abs(dec))))
    M.seen("decouplings")
    # positional order of the optional arguments
    if bi is not None:
        M.close(tag+"decouple-positional",
                w.decouple_cell(pcl, bi, nz), dec, rtol=1e-12)
    # windows
    W = w.get_bandpower_windows()
    nb = bs.n
    if not M.true(tag+"window-shape", W.shape == (ncls, nb, ncls, lmax+1),
                  str(W.shape)):
        return
    Wm = W.transpose(1, 0, 3, 2).reshape(nb*ncls, (lmax+1)*ncls)
    R = o["Bk"] @ o["couple"]
    M.close(tag+"windows", A @ Wm, R, rtol=tol, scale=max(
        np.max(np.abs(R)),
        np.max(np.sum(np.abs(A), axis=1))*np.max(np.abs(Wm))))
    M.seen("windows")
    dc = w.decouple_cell(got)
    wt = np.einsum("abcd,cd->ab", W, th)
    M.close(tag+"windows-vs-decouple-couple", wt, dc, rtol=1e-12*max(cond, 10)
            * 100, scale=np.max(np.abs(dc))+np.max(
                np.einsum("abcd,cd->ab", np.abs(W), np.abs(th))))
    # piecewise constant recovery
    if norm is None and bs.disjoint:
        bp = rng.normal(size=(ncls, nb))*units
        th = (bs.U @ bp.T).T
        rec = w.decouple_cell(w.couple_cell(th))
        M.close(tag+"piecewise", rec, bp, rtol=1e-13*max(cond, 10)*1000)
        M.seen("piecewise spectra recovered")
    if norm is not None:
        M.close(tag+"fkp", dec, world.lunflat(rhs, ncls)/norm, rtol=1e-10,
                scale=sc/abs(norm))


def mkbins(rng, lmax, overlap):
    bs = world.BinSpec(rng, lmax)
    bs.disjoint = True
    if overlap:
        # an extra band sharing multipoles with the others
        k = rng.choice(len(bs.ells), size=min(len(bs.ells), 3),
                       replace=False)
        e = np.concatenate([bs.ells, bs.ells[k]])
        b = np.concatenate([bs.bpws, np.full(len(k), bs.n)])
        w = np.concatenate([bs.w, rng.random(len(k))+.2])
        f = np.concatenate([bs.f, rng.random(len(k))+.5])
        bs.ells, bs.bpws, bs.w, bs.f = e, b, w, f
        bs.bands = gen.band_table(e, b, w, f, lmax)
        bs.n = len(bs.bands)
        bs.B, bs.U = gen.bin_matrix(bs.bands, lmax)
        bs.disjoint = False
    return bs


def singles(rng, lmax):
    """One band per multipole, in any order."""
    bs = world.BinSpec(rng, lmax)
    n = lmax-1
    bs.ells, bs.bpws = np.arange(2, lmax+1), rng.permutation(n)
    bs.w, bs.f = rng.uniform(.5, 2, n), rng.uniform(.5, 2, n)
    bs.bands = gen.band_table(bs.ells, bs.bpws, bs.w, bs.f, lmax)
    bs.n, bs.disjoint = n, True
    bs.B, bs.U = gen.bin_matrix(bs.bands, lmax)
    return bs


def mean_product(sky, m1, m2):
    if sky.pix == "hpx":
        return np.mean(m1*m2)
    g = sky.grid
    return g.integral(sky.stored.unstore(m1*m2))/(4*np.pi)


def run(c, M):
    import pymaster as nmt
    rng = gen.rng_of(c)
    sky = world.Sky(rng, small="big" if c.get("big") else
                    rng.random() < .93, crop=rng.random() < .4)
    kind = c["kind"]
    teb = kind == "teb"
    if kind == "aniso":   # the anisotropic mask has spin 2s
        sky.lmax_mask = max(6, sky.lmax_mask)
    mk = sky.mask(rng, "smooth") if rng.random() < .6 else None
    if teb:
        m = sky.mask(rng)
        s1 = world.FieldSpec(rng, sky, spin=0, mask=m, maponly=True)
        s2 = world.FieldSpec(rng, sky, spin=2 if c["pure"] else
                             int(rng.choice([1, 2, 3])), mask=m,
                             pure=c["pure"], maponly=True)
    else:
        an = kind == "aniso"
        pure = c["pure"] and not an
        s1 = world.FieldSpec(rng, sky, pure=pure, mask=mk, aniso=an,
                             spin=2 if an else None, maponly=True)
        s2 = world.FieldSpec(rng, sky, pure=pure, mask=mk,
                             aniso=an and rng.random() < .5, maponly=True)
    f1, f2 = s1.build(nmt), s2.build(nmt)
    if not teb and rng.random() < .25:
        f2, s2 = f1, s1
    bs = mkbins(rng, sky.lmax, kind == "overlap")
    if c.get("big"):      # hundreds of rows in the binned matrix
        bs = singles(rng, sky.lmax)
    b = bs.build(nmt)
    fkp = kind == "fkp"
    w = nmt.NmtWorkspace.from_fields(f1, f2, b, is_teb=teb,
                                     normalization="FKP" if fkp
                                     else "MASTER")
    M.seen("workspaces")
    ncls = world.ncls_of(s1, s2, teb)
    mcm = w.get_coupling_matrix()
    if not M.true("mcm-shape", mcm.shape == (ncls*(sky.lmax+1),)*2):
        return
    beam = s1.beam_or_one()*s2.beam_or_one()
    norm = mean_product(sky, s1.mask, s2.mask) if fkp else None
    M.state(kind, sky.pix, s1.spin, s2.spin, s1.pure, s2.pure, bs.n,
            bs.disjoint)
    check_wsp(M, w, rng, mcm, beam, bs, ncls, norm, "")
    if c["upd"]:
        for step in rng.permutation(3):
            if step == 0:
                b1 = np.exp(-rng.random()*np.arange(sky.lmax+1)/5)
                b2 = np.exp(-rng.random()*np.arange(sky.lmax+1)/5)
                w.update_beams(b1, b2)
                beam = b1*b2
            elif step == 1:
                bs = mkbins(rng, sky.lmax, kind == "overlap")
                w.update_bins(bs.build(nmt))
            else:
                mcm = mcm + .1*np.max(np.abs(mcm))*rng.normal(
                    size=mcm.shape)
                w.update_coupling_matrix(
                    np.asfortranarray(mcm) if rng.random() < .4 else mcm)
            M.close("updated-matrix", w.get_coupling_matrix(), mcm,
                    rtol=1e-14)
            check_wsp(M, w, rng, mcm, beam, bs, ncls, norm, "updated-")
