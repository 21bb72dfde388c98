"""C04: curved-sky bandpower binning is the documented weighted average."""
import random

import numpy as np

from nmtv import gen, rt

RULE = ("Random multipole lists (ordered or shuffled, with gaps, multipoles "
        "beyond lmax, negative band labels, shared multipoles), weights and "
        "f_ell, plus every convenience constructor; all queries and "
        "bin/unbin results are compared with the definition evaluated "
        "multipole by multipole.")
ASSUMPTIONS = []
MIN_EVENTS = {"binnings": 100, "bands": 300, "bin_cell": 100,
              "unbin_cell": 100}
QUICK_ROUNDS = 15


def cases(seed, tier):
    r = random.Random("C04-%d" % seed)
    n = 4000 if tier == "thorough" else 500
    return [dict(kind=r.choice(["generic", "generic", "generic", "nside",
                                "lmax", "edges"]),
                 seed=r.randrange(1 << 30)) for _ in range(n)]


def generic(rng):
    # (mostly small, some of realistic size)
    big = rng.random() < .15
    top = int(rng.integers(60, 2000) if big else rng.integers(3, 60))
    lo = int(rng.integers(0, 3))
    e = np.arange(lo, top+1)
    if rng.random() < .3:
        e = np.sort(rng.choice(e, size=max(2, len(e)//2), replace=False))
    nb = int(rng.integers(1, max(2, min(150 if big else 8, len(e)))))
    bp = np.sort(rng.integers(0, nb, size=len(e)))
    if rng.random() < .4:
        bp = rng.integers(0, nb, size=len(e))
    if rng.random() < .4:
        bp = np.where(rng.random(len(e)) < .2, -int(rng.integers(1, 4)), bp)
    _, inv = np.unique(bp[bp >= 0], return_inverse=True)
    if len(inv) == 0:
        raise rt.Skip("no bands")
    bp = bp.copy()
    bp[bp >= 0] = inv
    if rng.random() < .3:      # shared multipoles: another band
        k = rng.choice(len(e), size=2, replace=False)
        e = np.concatenate([e, e[k]])
        bp = np.concatenate([bp, [np.max(bp)+1]*2])
    w = np.exp(rng.normal(size=len(e)))
    f = np.exp(rng.normal(size=len(e)))
    if rng.random() < .2:      # any units
        f, w = f*10.**rng.uniform(-18, 12), w*10.**rng.uniform(-8, 8)
    if rng.random() < .5:
        p = rng.permutation(len(e))
        e, bp, w, f = e[p], bp[p], w[p], f[p]
    lmax = None
    if rng.random() < .5:
        lmax = int(np.max(e)) + int(rng.integers(0, 5))
    elif rng.random() < .5:
        cand = int(rng.integers(max(1, top//2), top+1))
        keep = (e <= cand) & (bp >= 0)
        if keep.any() and set(bp[keep]) == set(range(bp[keep].max()+1)):
            lmax = cand
    return e, bp, w, f, lmax


def run(c, M):
    import pymaster as nmt
    rng = gen.rng_of(c)
    kind = c["kind"]
    if kind == "generic":
        e, bp, w, f, lmax = generic(rng)
        kw = {}
        hw, hf = rng.random() < .7, rng.random() < .7
        if hw:
            kw["weights"] = w
        else:
            w = np.ones(len(e))
        if hf:
            kw["f_ell"] = f
        else:
            f = np.ones(len(e))
        if rng.random() < .3:
            bp, e = bp.astype(np.int64), e.astype(np.int32)
        b = nmt.NmtBin(bpws=bp, ells=e, lmax=lmax, **kw)
        if lmax is None:
            lmax = int(np.max(e))
    else:
        dell = bool(rng.random() < .5)
        usef = rng.random() < .4
        if kind == "edges":
            n = int(rng.integers(1, 6))
            lo, hi = [], []
            x = int(rng.integers(0, 4))
            for i in range(n):
                y = x + int(rng.integers(1, 8))
                lo.append(x)
                hi.append(y)
                x = y + int(rng.integers(0, 3))
            if rng.random() < .3:
                p = rng.permutation(n)
                lo, hi = [lo[i] for i in p], [hi[i] for i in p]
            e = np.concatenate([np.arange(a, z) for a, z in zip(lo, hi)])
            bp = np.concatenate([[i]*(z-a) for i, (a, z) in
                                 enumerate(zip(lo, hi))])
            lmax = int(e.max())
            f = np.exp(rng.normal(size=len(e))) if usef else None
            if rng.random() < .5:
                lo, hi = np.array(lo), np.array(hi)
            b = nmt.NmtBin.from_edges(lo, hi, is_Dell=dell, f_ell=f)
        else:
            nlb = int(rng.integers(1, 7))
            if kind == "nside":
                ns = int(rng.choice([2, 4, 8, 16]))
                lmax = 3*ns-1
                nlb = min(nlb, lmax-1)
            else:
                lmax = int(rng.integers(max(3, nlb+1), 50))
            f = np.exp(rng.normal(size=lmax+1)) if usef else None
            if kind == "nside":
                b = nmt.NmtBin.from_nside_linear(ns, nlb, is_Dell=dell,
                                                 f_ell=f)
            else:
                b = nmt.NmtBin.from_lmax_linear(lmax, nlb, is_Dell=dell,
                                                f_ell=f)
            nb = (lmax-1)//nlb
            e = np.arange(lmax+1)
            bp = np.full(lmax+1, -1)
            for i in range(nb):
                bp[2+i*nlb:2+(i+1)*nlb] = i
        w = np.ones(len(e))
        if f is None:
            f = e*(e+1)/(2*np.pi) if dell else np.ones(len(e))
    # (a factor of zero, as l(l+1) has at l=0, is left out)
    f = np.where((bp < 0) | (f <= 0), 1., f)
    M.seen("binnings")
    bands = gen.band_table(e, bp, w, f, lmax)
    nb = len(bands)
    M.state(kind, nb, lmax)
    if not M.true("n_bands", b.get_n_bands() == nb, "%s vs %d"
                  % (b.get_n_bands(), nb)):
        return
    M.true("lmax", b.lmax == lmax, "%s %s" % (b.lmax, lmax))
    M.same("nell", b.get_nell_list(), [len(x[0]) for x in bands])
    M.close("ell-eff", b.get_effective_ells(),
            [np.sum(x[0]*x[1]) for x in bands], rtol=1e-12)
    for i, (le, we, fe) in enumerate(bands):
        M.seen("bands")
        ge, gw = b.get_ell_list(i), b.get_weight_list(i)
        if not M.true("band-multipoles", sorted(ge) == sorted(le),
                      "%s %s" % (ge, le)):
            return
        M.close("band-weights", np.array(gw)[np.argsort(ge, kind="stable")],
                we[np.argsort(le, kind="stable")], rtol=1e-12)
        M.true("ell-min", b.get_ell_min(i) == np.min(le),
               "band %s min %s" % (le, b.get_ell_min(i)))
        M.true("ell-max", b.get_ell_max(i) == np.max(le),
               "band %s max %s" % (le, b.get_ell_max(i)))
    ncl = int(rng.choice([1, 2, 3, 4, 7, 12]))
    cl = rng.normal(size=(ncl, lmax+1))
    if rng.random() < .2:     # equal and empty spectra are spectra too
        cl[int(rng.integers(ncl))] = cl[0]
        cl[int(rng.integers(ncl))] = 0.
    B, U = gen.bin_matrix(bands, lmax)
    M.close("bin_cell", b.bin_cell(cl), (B @ cl.T).T, rtol=1e-12,
            scale=np.max(np.abs(B).sum(1))*4)
    M.close("bin_cell-1d", b.bin_cell(cl[0]), B @ cl[0], rtol=1e-12,
            scale=np.max(np.abs(B).sum(1))*4)
    M.seen("bin_cell", 2)
    bpw = rng.normal(size=(ncl, nb))
    if rng.random() < .2:
        bpw[int(rng.integers(ncl))] = bpw[0]
        bpw[int(rng.integers(ncl))] = 0.
    want = np.zeros((ncl, lmax+1))
    amb = np.zeros(lmax+1, dtype=int)
    for i, (le, we, fe) in enumerate(bands):
        for l, fi in zip(le, fe):
            want[:, l] = bpw[:, i]/fi
            amb[l] += 1
    ok = amb < 2        # shared multipoles: which band wins is not specified
    got = b.unbin_cell(bpw)
    if M.true("unbin-shape", got.shape == want.shape):
        M.close("unbin_cell", got[:, ok], want[:, ok], rtol=1e-13)
        got1 = b.unbin_cell(bpw[0])
        M.close("unbin_cell-1d", got1[ok], want[0][ok], rtol=1e-13)
        M.seen("unbin_cell", 2)
    # binning a spectrum that is constant in f_ell*C_ell returns it
    if np.all(ok):
        M.close("bin-unbin", b.bin_cell(got), bpw, rtol=1e-11)
    # stacks are processed row by row, in any memory layout
    M.close("bin_cell-layout", b.bin_cell(np.asfortranarray(cl)),
            b.bin_cell(cl), rtol=1e-13)
    M.close("bin_cell-view", b.bin_cell(cl[::-1]), b.bin_cell(cl)[::-1],
            rtol=1e-13)
