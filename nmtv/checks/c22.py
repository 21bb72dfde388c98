"""C22: repeated use does not accumulate memory or file handles."""
import ctypes
import gc
import os
import random
import re
import shutil
import tempfile
import time

import numpy as np

from nmtv import calls, flat, gen, objs, world
from nmtv.checks import c05, c17

RULE = ("Every public call of the catalogue (objects created, used and "
        "dropped, updates, file reads and writes) and every refused variant "
        "of it is repeated; after garbage collection the live blocks and bytes of "
        "the native heap (counted by an interposed allocator) and the open file descriptors are recorded per block of "
        "repetitions. A steady growth per repetition that persists in a "
        "longer run is a leak.")
ASSUMPTIONS = ["blocks taken by the native libraries are counted exactly, apart "
               "from the interpreter's own caches",
               "a leak of Python objects keeps at least one heap block, one descriptor or "
               "1 kB per repetition"]
CONFIGS = {"heap": {"variant": "plain", "preload": "heapcount.c", "env": {
    "PYTHONMALLOC": "malloc",
    "DUCC0_NUM_THREADS": "1"}}}
MIN_EVENTS = {"loops": 80, "failing loops": 250, "repetitions": 10000,
              "pair loops": 300}


LIBC = ctypes.CDLL(None)


def cases(seed, tier):
    r = random.Random("C22-%d" % seed)
    ks = sorted(calls.KINDS)
    out = []
    for i in range(len(ks)*(6 if tier == "thorough" else 2)):
        out.append(dict(kind=ks[i % len(ks)], seed=r.randrange(1 << 30),
                        cfg="heap"))
    # further draws of the accepted call alone (every option of it)
    for k in ks:
        n = 10 if k.startswith(("apod", "synfast")) else 3
        for i in range(n*(3 if tier == "thorough" else 1)):
            out.append(dict(kind=k, seed=r.randrange(1 << 30), cfg="heap",
                            accepted=True))
    for i in range(200 if tier == "thorough" else 80):
        out.append(dict(kind=["pair-curved", "pair-curved", "pair-flat",
                              "pair-cov", "pair-covflat"][i % 5],
                        seed=r.randrange(1 << 30), cfg="heap"))
    for i in range(40 if tier == "thorough" else 10):
        out.append(dict(kind="pair-spoiled", seed=r.randrange(1 << 30),
                        obj=["wsp", "wsp-flat", "old", "cov", "cov-flat"][
                            i % 5], cfg="heap"))
    return out


def watch():
    """Tell the allocator where the numerical libraries live."""
    r = []
    with open("/proc/self/maps") as f:
        for ln in f:
            w = ln.split()
            if len(w) > 5 and "x" in w[1] and re.search(
                    r"_nmtlib|libgsl|libfftw3|libcfitsio|chealpix|libgomp",
                    os.path.basename(w[5])):
                r += [int(x, 16) for x in w[0].split("-")]
    n = len(r)//2
    LIBC.heapcount_ranges(n, (ctypes.c_size_t*len(r))(*r))
    LIBC.heapcount_native.restype = ctypes.c_long
    return n


def used():
    """Live blocks, live bytes, native live blocks, open descriptors."""
    gc.collect()
    n = [ctypes.c_long() for _ in range(3)]
    LIBC.heapcount(*[ctypes.byref(x) for x in n])
    return [n[0].value, n[1].value, LIBC.heapcount_native(),
            len(os.listdir("/proc/self/fd"))]


def blocks(fn, n, k):
    """Growth of blocks, bytes, native blocks and descriptors in k times n
    repetitions."""
    out = []
    a = used()
    for _ in range(k):
        for _ in range(n):
            fn()
        b = used()
        out.append(tuple(y-x for x, y in zip(a, b)))
        a = b
    return out


def leak(fn, n):
    """-> growth per repetition if it is steady."""
    fn()
    fn()
    tot = 2
    t0 = time.monotonic()
    # numpy and Python keep freed blocks in caches, which take time to fill
    for m, k in ((n, 3), (2*n, 3), (4*n, 4), (10*n, 4), (30*n, 4), (60*n, 4)):
        if tot > 10*n and time.monotonic()-t0 > 15:
            break
        g = blocks(fn, m, k)
        tot += m*k
        lo = [min(x) for x in zip(*g)]
        if lo[0] < m and lo[2] < m and lo[3] < m and lo[1] < 1024*m:
            return None, tot
    return [round(sum(x)/float(m*k), 2) for x in zip(*g)], tot


def run(c, M):
    import pymaster as nmt
    M.true("watching", watch() > 3, "libraries not found in memory")
    from astropy.wcs import WCS
    rng = gen.rng_of(c)
    d = tempfile.mkdtemp(prefix="nmtv-c22-")
    outside = []
    p2w = WCS.wcs_pix2world

    def pix2world(self, *a):
        r = p2w(self, *a)
        if not outside and np.isnan(np.asarray(r, dtype=float)).any():
            outside.append(1)
        return r
    WCS.wcs_pix2world = pix2world
    try:
        if c["kind"].startswith("pair"):
            return globals()["p_"+c["kind"][5:].replace("-", "_")](
                nmt, M, rng, d, *([c["obj"]] if "obj" in c else []))
        e = calls.Env(rng, nmt, d)
        call = calls.draw(e, rng, c["kind"])
        M.state(call.name)

        def good():
            try:
                call.run()
            except RuntimeError as x:
                if "singular" not in str(x):
                    raise
        g, n = leak(good, 8)
        M.seen("loops")
        M.seen("repetitions", n)
        M.true("leak/"+call.name, g is None,
               "%s takes %s (blocks, bytes, native blocks, descriptors) per call" % (call.name, g))
        for lab, change in ([] if c.get("accepted") else call.bad):
            kw = call.with_bad(change)

            def bad():
                try:
                    call.run(kw)
                except Exception:
                    pass
            outside.clear()
            g, n = leak(bad, 8)
            if outside:
                # WCSLIB keeps its error messages for every pixel outside
                # of the sphere (3 blocks a call without NaMaster too)
                M.seen("skipped: astropy leaks")
                continue
            M.seen("failing loops")
            M.seen("repetitions", n)
            M.state(call.name, lab)
            M.true("leak/%s/%s" % (call.name, lab), g is None,
                   "%s (%s) takes %s (blocks, bytes, native blocks, descriptors) per refused call"
                   % (call.name, lab, g))
    finally:
        WCS.wcs_pix2world = p2w
        nmt.set_sht_calculator("ducc")
        nmt.set_n_iter_default(3)
        nmt.set_n_iter_default(3, mask=True)
        nmt.set_tol_pinv_default(1e-10)
        shutil.rmtree(d, ignore_errors=True)


# ------------------------------------------------- every combination of pairs
def loop(M, name, fn, n=6):
    def quiet():
        try:
            fn()
        except RuntimeError as x:
            if "singular" not in str(x):
                raise
    g, m = leak(quiet, n)
    M.seen("pair loops")
    M.seen("repetitions", m)
    M.true("leak/"+name.split(" ")[0], g is None, "%s takes %s (blocks, "
           "bytes, native blocks, descriptors) per repetition" % (name, g))


def rand_spec(rng, sky, **kw):
    k = str(rng.choice(["plain", "plain", "pure", "aniso", "temps"]))
    if k == "pure":
        kw.update(spin=2, pure=True)
    elif k == "aniso":
        kw.update(spin=int(rng.choice([1, 2, 3])), aniso=True)
    elif k == "temps":
        kw.update(temps=True)
    return world.FieldSpec(rng, sky, n_iter=int(rng.integers(0, 2)),
                           n_iter_mask=int(rng.integers(0, 2)),
                           mask=sky.mask(rng, "smooth"), **kw)


def p_curved(nmt, M, rng, d):
    sky = world.Sky(rng)
    sky.lmax_mask = max(6, sky.lmax_mask)
    s1 = rand_spec(rng, sky)
    s2 = rand_spec(rng, sky)
    while (s1.aniso or s2.aniso) and any(s1.pure+s2.pure):
        s2 = rand_spec(rng, sky)    # (not supported)
    f1 = s1.build(nmt)
    f2 = f1 if rng.random() < .2 else s2.build(nmt)
    if f2 is f1:
        s2 = s1
    bs = [world.BinSpec(rng, sky.lmax).build(nmt) for _ in range(2)]
    kw = {}
    an = s1.aniso or s2.aniso
    pure = any(s1.pure) or any(s2.pure)
    L = sky.lmax
    if f1.spin == 0 and f2.spin and not an and rng.random() < .4:
        kw["is_teb"] = True
    elif not an and not pure and L > 6 and rng.random() < .3:
        kw.update(l_toeplitz=L//2, l_exact=L//3, dl_band=2)
    if rng.random() < .3:
        kw["normalization"] = "FKP"
    lab = "spins %d %d pure %s %s aniso %s %s templates %s %s %s" % (
        f1.spin, f2.spin, s1.pure, s2.pure, bool(s1.aniso), bool(s2.aniso),
        s1.temps is not None, s2.temps is not None, sorted(kw))
    M.state("curved", f1.spin, f2.spin, tuple(s1.pure), tuple(s2.pure),
            bool(s1.aniso), bool(s2.aniso), *sorted(kw))
    loop(M, "field "+lab, lambda: s1.build(nmt))
    W = nmt.NmtWorkspace

    def mk():
        return W.from_fields(f1, f2, bs[0], **kw)
    loop(M, "workspace "+lab, mk)
    try:
        w = mk()
    except RuntimeError:
        return
    loop(M, "recompute "+lab, lambda: w.compute_coupling_matrix(
        f1, f2, bs[int(rng.integers(2))], **kw))
    n = w.wsp.ncls
    cl = rng.normal(size=(n, L+1))
    loop(M, "queries "+lab, lambda: (
        w.couple_cell(cl), w.decouple_cell(cl, cl, cl),
        w.get_coupling_matrix(), w.get_bandpower_windows()))
    if not kw.get("normalization"):
        b1 = 1+rng.random(L+1)
        loop(M, "updates "+lab, lambda: (
            w.update_bins(bs[1]), w.update_beams(b1, b1),
            w.update_bins(bs[0]),
            w.update_coupling_matrix(w.get_coupling_matrix())))
    f = os.path.join(d, "w.fits")
    part = bool(rng.random() < .3)
    loop(M, "files "+lab, lambda: (
        w.write_to(f), W.from_file(f, read_unbinned_MCM=not part)))
    m = f1.nmaps*f2.nmaps
    loop(M, "coupled-cell "+lab, lambda: nmt.compute_coupled_cell(f1, f2))
    c2 = rng.normal(size=(m, L+1))
    loop(M, "deprojection "+lab, lambda: nmt.deprojection_bias(f1, f2, c2))
    if f1 is f2 and m < 5:
        loop(M, "noise-bias "+lab,
             lambda: nmt.uncorr_noise_deprojection_bias(
                 f1, np.ones(f1.minfo.npix) if sky.pix == "hpx"
                 else np.ones(sky.shape)))
    if "is_teb" not in kw and not an:
        loop(M, "pipeline "+lab, lambda: nmt.compute_full_master(
            f1, f2, bs[0], cl_guess=c2, cl_noise=c2,
            **{k: v for k, v in kw.items()}))


def p_flat(nmt, M, rng, d):
    F = flat.rand_flat(rng, 5, 9)
    fm = flat.rand_mask(rng, F, "smooth")

    def spec():
        p = None
        if rng.random() < .4:
            p = [(True, False), (False, True), (True, True)][
                int(rng.integers(3))]
        return c17.FF(rng, F, spin=2 if p else None, mask=fm, pure=p,
                      temps=int(rng.integers(0, 3)))
    s1, s2 = spec(), spec()
    f1 = s1.build(nmt)
    f2 = f1 if rng.random() < .2 else s2.build(nmt)
    if f2 is f1:
        s2 = s1
    l0, lf = c17.rand_bands(rng, F, n=int(rng.integers(1, 4)))
    b = nmt.NmtBinFlat(l0, lf)
    cx, cy = c17.cuts(rng, F)
    kw = dict(ell_cut_x=cx, ell_cut_y=cy)
    teb = s1.spin == 0 and s2.spin > 0 and rng.random() < .4
    lab = "spins %d %d pure %s %s templates %s %s teb %s cuts %s %s" % (
        s1.spin, s2.spin, s1.pure, s2.pure, s1.temps is not None,
        s2.temps is not None, teb, cx, cy)
    M.state("flat", s1.spin, s2.spin, tuple(s1.pure), tuple(s2.pure), teb,
            cx[0] > cx[1], cy[0] > cy[1])
    W = nmt.NmtWorkspaceFlat

    def mk():
        w = W()
        w.compute_coupling_matrix(f1, f2, b, is_teb=teb, **kw)
        return w
    loop(M, "flat-field "+lab, lambda: (s1.build(nmt),
                                        s1.build(nmt, lite=True)))
    loop(M, "flat-workspace "+lab, mk)
    try:
        w = mk()
    except RuntimeError:
        return
    loop(M, "flat-recompute "+lab, lambda: w.compute_coupling_matrix(
        f1, f2, b, is_teb=teb, **kw))
    n, nb, m = w.wsp.ncls, len(l0), s1.n*s2.n
    ls = np.linspace(0, F.k.max()*1.1, 9)
    cl, cb = rng.normal(size=(n, 9)), rng.normal(size=(n, nb))
    loop(M, "flat-queries "+lab, lambda: (
        w.couple_cell(ls, cl), w.decouple_cell(cb, cb, cb)))
    f = os.path.join(d, "w.fits")

    def rw():
        w.write_to(f)
        x = W()
        x.read_from(f)
        x.read_from(f)
    loop(M, "flat-files "+lab, rw)
    loop(M, "flat-coupled-cell "+lab, lambda: nmt.compute_coupled_cell_flat(
        f1, f2, b, **kw))
    g = rng.normal(size=(m, 9))
    loop(M, "flat-deprojection "+lab, lambda: nmt.deprojection_bias_flat(
        f1, f2, b, ls, g, **kw))
    if not teb:
        loop(M, "flat-pipeline "+lab, lambda: nmt.compute_full_master_flat(
            f1, f2, b, cl_noise=rng.normal(size=(m, nb)), cl_guess=g,
            ells_guess=ls, **kw))


def p_cov(nmt, M, rng, d):
    sky = world.Sky(rng)
    sk = [world.FieldSpec(rng, sky, spin=int(rng.choice([0, 2])), n_iter=0,
                          n_iter_mask=0, maponly=True,
                          mask=sky.mask(rng, "smooth")) for _ in range(4)]
    f = [s.build(nmt) for s in sk]
    if rng.random() < .3:
        f[2], f[3] = f[0], f[1]
        sk[2], sk[3] = sk[0], sk[1]
    kw = {}
    L = sky.lmax
    if rng.random() < .3:
        kw["spin0_only"] = True
    elif L > 6 and sky.lmax_mask >= L and rng.random() < .4:
        kw.update(l_toeplitz=L//2, l_exact=L//3, dl_band=2)
    sp = [x.spin for x in f]
    lab = "spins %s %s" % (sp, sorted(kw))
    M.state("cov", *sp, *sorted(kw))
    C = nmt.NmtCovarianceWorkspace

    def mk():
        return C.from_fields(*f, **kw)
    loop(M, "cov-workspace "+lab, mk)
    c = mk()
    loop(M, "cov-recompute "+lab,
         lambda: c.compute_coupling_coefficients(*f, **kw))
    fn = os.path.join(d, "c.fits")

    def rw():
        c.write_to(fn)
        C.from_file(fn).read_from(fn)
    loop(M, "cov-files "+lab, rw)
    if "spin0_only" in kw and any(sp):
        return
    b = world.BinSpec(rng, L, plain=True).build(nmt)
    try:
        wa = nmt.NmtWorkspace.from_fields(f[0], f[1], b)
        wb = nmt.NmtWorkspace.from_fields(f[2], f[3], b)
    except RuntimeError:
        return
    n = [2 if s else 1 for s in sp]
    cl = [rng.normal(size=(n[i]*n[j], L+1)) for i, j in
          ((0, 2), (0, 3), (1, 2), (1, 3))]
    loop(M, "cov "+lab, lambda: (
        nmt.gaussian_covariance(c, *sp, *cl, wa, wb),
        nmt.gaussian_covariance(c, *sp, *cl, wa, wb, coupled=True)))


def p_covflat(nmt, M, rng, d):
    F = flat.rand_flat(rng, 5, 9)
    fm = flat.rand_mask(rng, F, "smooth")
    sk = [c17.FF(rng, F, spin=int(rng.choice([0, 2])), mask=fm)
          for _ in range(4)]
    f = [s.build(nmt) for s in sk]
    if rng.random() < .3:
        f[2], f[3] = f[0], f[1]
        sk[2], sk[3] = sk[0], sk[1]
    l0, lf = c17.rand_bands(rng, F, n=int(rng.integers(1, 4)))
    b = nmt.NmtBinFlat(l0, lf)
    sp = [s.spin for s in sk]
    cx, cy = c17.cuts(rng, F)
    kw = dict(ell_cut_x=cx, ell_cut_y=cy)
    lab = "spins %s" % sp
    M.state("covflat", *sp)
    C = nmt.NmtCovarianceWorkspaceFlat

    def mk():
        c = C()
        c.compute_coupling_coefficients(f[0], f[1], b, f[2], f[3], b)
        return c
    loop(M, "cov-flat-workspace "+lab, mk)
    c = mk()
    fn = os.path.join(d, "c.fits")

    def rw():
        c.write_to(fn)
        x = C()
        x.read_from(fn)
        x.read_from(fn)
    loop(M, "cov-flat-files "+lab, rw)
    wa, wb = nmt.NmtWorkspaceFlat(), nmt.NmtWorkspaceFlat()
    try:
        wa.compute_coupling_matrix(f[0], f[1], b, **kw)
        wb.compute_coupling_matrix(f[2], f[3], b, **kw)
    except RuntimeError:
        return
    ls = np.linspace(0, F.k.max()*1.1, 9)
    n = [2 if s else 1 for s in sp]
    cl = [rng.normal(size=(n[i]*n[j], 9)) for i, j in
          ((0, 2), (0, 3), (1, 2), (1, 3))]
    loop(M, "cov-flat "+lab, lambda: nmt.gaussian_covariance_flat(
        c, *sp, ls, *cl, wa, wb))


def p_spoiled(nmt, M, rng, d, kind):
    """Files whose parts contradict each other, or are missing."""
    from astropy.io import fits
    real = "wsp" if kind == "old" else kind
    spec = objs.FILES[real](rng)
    f, g = os.path.join(d, "w.fits"), os.path.join(d, "x.fits")
    spec.build(nmt).write_to(f)
    if kind == "old":
        c05.old_layout(rng, spec, f, g)
        f = g
    files = {}
    for i in range(14):
        x = os.path.join(d, "s%d.fits" % i)
        files[c05.spoil(rng, f, x, kind)] = x
    with fits.open(f) as h:
        names = [x.name for x in h]
    for i in range(1, len(names)):
        x = os.path.join(d, "d%d.fits" % i)
        c05.drop_hdu(f, x, i)
        files["without-"+names[i]] = x
    for lab, x in sorted(files.items()):
        M.state("spoiled", kind, lab)
        full = bool(rng.random() < .7)

        def bad():
            o = spec.new(nmt)
            try:
                if kind == "wsp" and not full:
                    o.read_from(x, read_unbinned_MCM=False)
                else:
                    o.read_from(x)
            except Exception:
                pass
        loop(M, "spoiled/%s/%s" % (kind, lab), bad, 8)
