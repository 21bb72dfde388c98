"""C09: pseudo-spectra and the one-call estimator equal their definition."""
import random

import numpy as np

from nmtv import gen, ref, rt, world

RULE = ("Random pairs of fields (spins 0-4, templates, purification, beams, "
        "lite, different pixelisations with the same band limits); "
        "pseudo-spectra against explicit m-sums, transposition on exchange, "
        "the one-call estimator against the explicit sequence for every "
        "combination of options, and refusal of incompatible pairs.")
ASSUMPTIONS = []
MIN_EVENTS = {"pseudo-spectra": 100, "estimates": 100,
              "refusals checked": 100}
QUICK_ROUNDS = 40


def cases(seed, tier):
    r = random.Random("C09-%d" % seed)
    n = 2000 if tier == "thorough" else 200
    return [dict(kind=r.choice(["pair", "pair", "pair", "mixed"]),
                 temps=r.random() < .5, pure=r.random() < .25,
                 fkp=r.random() < .2, tplz=r.random() < .15,
                 lite=r.random() < .2,
                 aniso=r.random() < .1,
                 seed=r.randrange(1 << 30)) for _ in range(n)]


def pcl_ref(a1, a2, lmax):
    return np.array([ref.alm2cl(x, y, lmax) for x in a1 for y in a2])


def run(c, M):
    import pymaster as nmt
    rng = gen.rng_of(c)
    sky = world.Sky(rng, small=rng.random() < .93, crop=rng.random() < .3)
    if c["aniso"]:
        sky.lmax_mask = max(6, sky.lmax_mask)
    sky2 = sky
    if c["kind"] == "mixed":
        sky2 = world.Sky(rng, lmax=sky.lmax, lmax_mask=sky.lmax_mask,
                         crop=rng.random() < .3)
        lim = min(sky.lim, sky2.lim)
        for s in (sky, sky2):
            s.lmax = min(s.lmax, lim)
            s.lmax_mask = max(min(s.lmax_mask, lim), 6 if c["aniso"] else 2)
    lmax = sky.lmax
    top = 3 if rng.random() < .8 else 5
    k = dict(pure=c["pure"], lite=c["lite"],
             temps=(rng.integers(0, top) if c["temps"] else 0))
    if c["aniso"]:
        k.update(temps=0, aniso=True)
    s1 = world.FieldSpec(rng, sky, **k)
    if c["temps"] and not c["aniso"]:     # (one, both or none of them)
        k["temps"] = rng.integers(0, top)
    s2 = world.FieldSpec(rng, sky2, **k)
    f1, f2 = s1.build(nmt), s2.build(nmt)
    if rng.random() < .2:
        f2, s2, sky2 = f1, s1, sky
    n1, n2 = s1.nmaps, s2.nmaps
    ncls = n1*n2
    M.state(c["kind"], s1.spin, s2.spin, sky.pix, sky2.pix, s1.pure, s2.pure,
            f2 is f1, c["lite"])
    pcl = nmt.compute_coupled_cell(f1, f2)
    want = pcl_ref(f1.get_alms(), f2.get_alms(), lmax)
    M.close("pcl", pcl, want, rtol=1e-12)
    M.seen("pseudo-spectra")
    sw = nmt.compute_coupled_cell(f2, f1)
    perm = [b*n1+a for a in range(n1) for b in range(n2)]
    M.close("pcl-transpose", sw[perm], pcl, rtol=1e-13)
    bs = world.BinSpec(rng, lmax)
    b = bs.build(nmt)
    kw = {}
    if c["fkp"] and not (sky.pix != sky2.pix or sky.shape != sky2.shape):
        kw["normalization"] = "FKP"
    if c["tplz"] and not any(s1.pure+s2.pure) and not c["aniso"] \
            and lmax > 5:
        lt = int(rng.integers(2, lmax-1))
        kw.update(l_toeplitz=lt, l_exact=int(rng.integers(1, lt+1)),
                  dl_band=int(rng.integers(0, lmax-2)))
    w = nmt.NmtWorkspace.from_fields(f1, f2, b, **kw)
    # coefficients are linear in the data
    A = np.linalg.cond(world.wsp_oracle(
        w.get_coupling_matrix(), s1.beam_or_one()*s2.beam_or_one(),
        bs.B, bs.U, ncls)["binned"])
    ok = np.isfinite(A) and (A < 1e8 or "normalization" in kw)
    if "normalization" in kw and not np.any(s1.mask*s2.mask):
        ok = False      # (masks without overlap have no mean product)
    cn = rng.normal(size=(ncls, lmax+1)) if rng.random() < .6 else None
    cg = None
    strict = f1.is_compatible(f2)
    if rng.random() < .6 and not c["lite"] and strict:
        cg = np.abs(rng.normal(size=(ncls, lmax+1)))
    pb = np.zeros_like(pcl)
    if cg is not None:
        pb = nmt.deprojection_bias(f1, f2, cg)
    exp = ok and w.decouple_cell(pcl, cl_bias=pb, cl_noise=cn)
    calls = [dict(b=b, **kw), dict(workspace=w), dict(b=b, workspace=w)]
    for i, a in enumerate(calls):
        if not ok:
            M.seen("singular binned matrices")
            continue
        got = nmt.compute_full_master(f1, f2, cl_noise=cn, cl_guess=cg, **a)
        M.close("full-master-%d" % i, got, exp, rtol=1e-13*max(A, 100)*10
                if "normalization" not in kw else 1e-10)
        M.seen("estimates")
    # incompatible requests
    def other(**over):
        sp = world.FieldSpec(rng, sky2, spin=s2.spin)
        kk = dict(lmax=sky2.lmax, lmax_mask=sky2.lmax_mask, templates=None,
                  beam=None)
        kk.update(over)
        return sp.build(nmt, **kk)
    k = int(rng.integers(4))
    if k == 0:
        g = other(lmax=lmax-1)
        M.true("compat-lmax", not f1.is_compatible(g, strict=False)
               and not f1.is_compatible(g))
    elif k == 1:
        g = other(lmax_mask=sky.lmax_mask+1)
        M.true("compat-lmax-mask", not f1.is_compatible(g, strict=False)
               and not f1.is_compatible(g))
    if k < 2:
        M.raises("pcl-incompatible",
                 lambda: nmt.compute_coupled_cell(f1, g))
        M.raises("wsp-incompatible",
                 lambda: nmt.NmtWorkspace.from_fields(f1, g, b))
        M.raises("full-incompatible",
                 lambda: nmt.compute_full_master(f1, g, b))
        M.raises("bias-incompatible", lambda: nmt.deprojection_bias(
            f1, g, np.zeros((n1*g.nmaps, lmax+1))))
    elif k == 2:
        wrong = np.zeros((ncls+1, lmax+1))
        M.raises("noise-shape", lambda: nmt.compute_full_master(
            f1, f2, b, cl_noise=wrong))
        M.raises("guess-shape", lambda: nmt.compute_full_master(
            f1, f2, b, cl_guess=wrong[:, :-1]))
        M.raises("no-bins", lambda: nmt.compute_full_master(f1, f2),
                 exc=(Exception, SyntaxError))
        b2 = nmt.NmtBin.from_lmax_linear(lmax+1, 2)
        M.raises("bins-lmax", lambda: nmt.NmtWorkspace.from_fields(
            f1, f2, b2))
    else:
        M.true("compat-nonstrict", f1.is_compatible(f2, strict=False))
        same = (sky.pix == sky2.pix and sky.shape == sky2.shape and
                (sky is sky2 or sky.pix == "hpx" or
                 sky.stored.pixels() == sky2.stored.pixels()))
        M.true("compat-strict", f1.is_compatible(f2) == same,
               "%s %s" % (sky.shape, sky2.shape))
    # the failed requests changed nothing
    M.same("pcl-again", nmt.compute_coupled_cell(f1, f2), pcl)
