"""C01: no memory error or undefined behaviour behind any Python call."""
import os
import random
import shutil
import tempfile
import types

import numpy as np

from nmtv import calls, gen, objs
from nmtv.checks.c19 import hostile

RULE = ("The native library is compiled with AddressSanitizer and "
        "UndefinedBehaviorSanitizer. Every public call of the catalogue is "
        "made valid, with each inconsistent argument, and with hostile "
        "values; sessions build fields, bins, workspaces and covariances of "
        "random sizes (band limits of field and mask in any order, empty "
        "bands, one-pixel patches, all spins, purification, templates, "
        "Toeplitz options, cuts) and use every object with every other; "
        "files are read after their headers, tables or bytes were damaged "
        "and the result is used. Any report, crash or internal interpreter "
        "error is a violation; Python exceptions are not.")
ASSUMPTIONS = ["out-of-bounds accesses made inside GSL, FFTW, cfitsio or "
               "ducc0 are seen only when they reach guarded memory through "
               "intercepted functions",
               "reads within an allocation but of the wrong element are "
               "left to the behavioural checks"]
CONFIGS = {"asan": {"variant": "asan", "recycle": 40,
                    "env": {"DUCC0_NUM_THREADS": "1",
                            "NMTV_OMP_THREADS": "3"}}}
MIN_EVENTS = {"calls": 3000, "calls refused": 1000, "hostile calls": 300,
              "damaged files": 60, "session steps": 1000,
              "session steps accepted": 300}


def cases(seed, tier):
    r = random.Random("C01-%d" % seed)
    ks = sorted(calls.KINDS)
    out = []
    for i in range(230):
        k = r.sample(ks, 4)
        k[0] = ks[i % len(ks)]
        out.append(dict(kind="calls", kinds=k))
    for k, n in (("sphere", 260), ("flat", 260), ("bins", 60), ("files", 140),
                 ("catalog", 70), ("mixed", 130)):
        out += [dict(kind=k) for _ in range(n)]
    for c in out:
        c.update(seed=r.randrange(1 << 30), cfg="asan")
    return out


class Session(object):
    """Attempts calls; only an internal error is a finding here."""
    def __init__(self, M, rng):
        self.M, self.rng = M, rng
        self.log = []

    def __call__(self, name, fn, *a, **k):
        self.log.append(name)
        if os.environ.get("NMTV_TRACE"):
            print(name, [repr(x)[:60] for x in a],
                  {q: repr(x)[:60] for q, x in k.items()}, flush=True)
        self.M.seen("session steps")
        ok, r = attempt(self.M, name, lambda: fn(*a, **k))
        if ok:
            self.M.seen("session steps accepted")
        return r if ok else None


def attempt(M, name, fn):
    M.seen("calls")
    try:
        return True, fn()
    except (SystemError, RecursionError) as x:
        # an extension that returns without a result or with a stale error
        M.fail("internal/%s/%s" % (type(x).__name__, name), str(x))
    except Exception as x:
        if isinstance(x, UnboundLocalError):
            M.fail("internal/UnboundLocalError/"+name, str(x))
        M.seen("calls refused")
    return False, None


def run(c, M):
    import pymaster as nmt
    rng = gen.rng_of(c)
    d = tempfile.mkdtemp(prefix="nmtv-c01-")
    cwd = os.getcwd()
    try:
        globals()["r_"+c["kind"]](nmt, M, rng, d, c)
        M.seen("sessions")
    finally:
        nmt.set_sht_calculator("ducc")
        nmt.set_n_iter_default(3)
        nmt.set_n_iter_default(3, mask=True)
        nmt.set_tol_pinv_default(1e-10)
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)


# ----------------------------------------------------------------- catalogue
def r_calls(nmt, M, rng, d, c):
    e = calls.Env(rng, nmt, d)
    for k in c["kinds"]:
        call = calls.draw(e, rng, k)
        ok, r = attempt(M, call.name, call.run)
        if ok:
            attempt(M, call.name+"-use", lambda: calls.probe(e, r))
        for lab, change in call.bad:
            M.state(call.name, lab)
            attempt(M, "%s/%s" % (call.name, lab),
                    lambda: call.run(call.with_bad(change)))
        for _ in range(8):
            if not call.kw:
                break
            n = sorted(call.kw)[int(rng.integers(len(call.kw)))]
            kw = dict(call.kw)
            kw[n] = hostile(rng, n, call.kw[n])
            M.seen("hostile calls")
            if os.environ.get("NMTV_TRACE"):
                print(call.name, n, repr(kw[n])[:80], flush=True)
            ok, r = attempt(M, "%s/hostile-%s" % (call.name, n),
                            lambda: call.run(kw))
            if ok:
                attempt(M, call.name+"-use", lambda: calls.probe(e, r))
        # the target of a refused call is used again
        if call.target is not None:
            attempt(M, call.name+"-target",
                    lambda: calls.probe(e, call.target))
            attempt(M, call.name, call.run)
    e.snapshot()


# ------------------------------------------------------------ random sessions
def ri(rng, a, b):
    return int(rng.integers(a, b+1))


def pick(rng, *xs):
    return xs[int(rng.integers(len(xs)))]


def rand_bin(nmt, rng, S, lmax):
    n = ri(rng, 0, 3*lmax+3)
    k = ri(rng, 0, 6)
    if k == 0:
        return S("from_lmax_linear", nmt.NmtBin.from_lmax_linear, lmax,
                 ri(rng, 0, lmax+2), is_Dell=bool(ri(rng, 0, 1)))
    if k == 1:
        e = np.cumsum(rng.integers(0, 4, ri(rng, 0, 6)))+ri(rng, -1, 3)
        return S("from_edges", nmt.NmtBin.from_edges, e[:-1], e[1:],
                 is_Dell=bool(ri(rng, 0, 1)))
    if k == 2:
        return S("from_nside_linear", nmt.NmtBin.from_nside_linear,
                 pick(rng, 1, 2, 4, 3), ri(rng, 0, 8))
    e = rng.integers(pick(rng, -1, 0, 0, 0), lmax+ri(rng, 1, 3), n)
    b = rng.integers(pick(rng, -2, -1, 0), ri(rng, 1, 7), n)
    kw = {}
    if ri(rng, 0, 1):
        kw["weights"] = rng.uniform(pick(rng, -.1, 0., .1), 1, n)
    if ri(rng, 0, 1):
        kw["f_ell"] = rng.uniform(-.1, 2, pick(rng, n, n, lmax+1))
    return S("NmtBin", nmt.NmtBin, bpws=b, ells=e,
             lmax=pick(rng, lmax, lmax, None, lmax-1), **kw)


def use_bin(nmt, rng, S, b):
    if b is None:
        return
    n = b.get_n_bands()
    for i in (0, n-1, n, -1, -n-1, 10**6):
        S("get_ell_list", b.get_ell_list, i)
        S("get_weight_list", b.get_weight_list, i)
        S("get_ell_min", b.get_ell_min, i)
        S("get_ell_max", b.get_ell_max, i)
    S("get_effective_ells", b.get_effective_ells)
    for L in (b.lmax+1, b.lmax, b.lmax+5, 0):
        S("bin_cell", b.bin_cell, np.ones((ri(rng, 0, 3), max(L, 0))))
    for m in (n, n+1, 0):
        S("unbin_cell", b.unbin_cell, np.ones((ri(rng, 0, 3), m)))


def r_bins(nmt, M, rng, d, c):
    S = Session(M, rng)
    for _ in range(12):
        b = rand_bin(nmt, rng, S, ri(rng, 0, 12))
        use_bin(nmt, rng, S, b)
        n = ri(rng, 0, 5)
        l0 = np.sort(rng.uniform(-2, 30, n))
        fb = S("NmtBinFlat", nmt.NmtBinFlat, l0,
               np.resize(l0, pick(rng, n, n, n+1))+rng.uniform(-1, 8))
        if fb is None:
            continue
        k = ri(rng, 0, 9)
        ls = rng.uniform(-5, 60, k) if ri(rng, 0, 1) else \
            np.sort(rng.uniform(0, 60, k))
        S("flat-bin_cell", fb.bin_cell, ls, rng.normal(size=(ri(rng, 0, 2),
                                                             k)))
        S("flat-unbin_cell", fb.unbin_cell,
          rng.normal(size=(2, pick(rng, n, n, n+1))), ls)
        S("flat-eff", fb.get_effective_ells)
    M.state("bins", tuple(S.log[:6]))


def rand_field(nmt, rng, S, npix, lim):
    spin = pick(rng, 0, 0, 1, 2, 2, 2, 3, 4, 5)
    nm = 2 if spin else 1
    mask = rng.uniform(0, 1, npix)*(rng.random(npix) > .2)
    lmax = ri(rng, 0, lim+1)
    kw = dict(spin=spin, n_iter=ri(rng, 0, 1), n_iter_mask=ri(rng, 0, 1),
              lmax=pick(rng, lmax, lmax, lim, None),
              lmax_mask=pick(rng, ri(rng, 0, lim+1), lim, None))
    if ri(rng, 0, 2) == 0:
        nt = ri(rng, 1, 3)
        t = rng.normal(size=(nt, nm, npix))
        if ri(rng, 0, 3) == 0:
            t[-1] = t[0]
        kw["templates"] = t
    if ri(rng, 0, 1):
        kw["beam"] = rng.uniform(0, 1, (kw["lmax"] or 0)+ri(rng, 1, 3))
    if spin == 2 or ri(rng, 0, 5) == 0:
        kw.update(purify_e=bool(ri(rng, 0, 3) == 0),
                  purify_b=bool(ri(rng, 0, 2) == 0))
    if spin and ri(rng, 0, 4) == 0:
        kw.update(mask_22=rng.uniform(.5, 1, npix),
                  mask_12=rng.uniform(0, .2, npix))
    for k in ("lite", "masked_on_input"):
        if ri(rng, 0, 5) == 0:
            kw[k] = True
    maps = pick(rng, 0, 1, 1, 1, 1)
    return S("NmtField", nmt.NmtField, mask,
             rng.normal(size=(nm, npix)) if maps else None, **kw)


def use_wsp(nmt, rng, S, w, fs, d, lmax):
    n = None
    if w.wsp is not None:
        n = w.wsp.ncls
        L = w.wsp.lmax_fields+1
        nb = w.wsp.bin.n_bands
    else:
        n, L, nb = 1, lmax+1, 2
    for _ in range(ri(rng, 2, 5)):
        k = ri(rng, 0, 9)
        m = n*L+pick(rng, 0, 0, 0, 1, -1)
        a = pick(rng, L, L, L, L+1, L-1, nb)
        q = pick(rng, n, n, n, n+1, 1, 4, 7)
        if k == 0:
            S("update_coupling_matrix", w.update_coupling_matrix,
              rng.normal(size=(max(m, 0), max(m, 0))))
        elif k == 1:
            S("update_beams", w.update_beams, rng.uniform(.1, 1, a),
              rng.uniform(.1, 1, L+ri(rng, 0, 2)))
        elif k == 2:
            b = rand_bin(nmt, rng, S, pick(rng, L-1, L-1, L-1, L, L+3))
            if b is not None:
                S("update_bins", w.update_bins, b)
        elif k == 3:
            S("couple_cell", w.couple_cell, rng.normal(size=(q, a)))
        elif k == 4:
            S("decouple_cell", w.decouple_cell, rng.normal(size=(q, a)),
              cl_bias=pick(rng, None, rng.normal(size=(n, L))),
              cl_noise=pick(rng, None, rng.normal(size=(n, a))))
        elif k == 5:
            S("get_bandpower_windows", w.get_bandpower_windows)
        elif k == 6:
            S("get_coupling_matrix", w.get_coupling_matrix)
        elif k == 7:
            f = os.path.join(d, "w%d.fits" % ri(rng, 0, 2))
            S("write_to", w.write_to, f)
            S("read_from", w.read_from, f,
              read_unbinned_MCM=bool(ri(rng, 0, 2)))
        elif k == 8 and len(fs) > 1:
            f1, f2 = pick(rng, *fs), pick(rng, *fs)
            S("compute_full_master", nmt.compute_full_master, f1, f2,
              cl_guess=pick(rng, None, np.ones((f1.nmaps*f2.nmaps, L))),
              workspace=w)
        elif k == 9:
            g = os.path.join(d, "w%d.fits" % ri(rng, 0, 2))
            S("read_from", w.read_from, g)


def r_sphere(nmt, M, rng, d, c):
    S = Session(M, rng)
    nside = pick(rng, 1, 2, 2, 4)
    npix, lim = 12*nside**2, 3*nside-1
    fs, ws, cs = [], [], []
    for _ in range(ri(rng, 2, 5)):
        f = rand_field(nmt, rng, S, npix, lim)
        if f is not None:
            fs.append(f)
    if not fs:
        return
    for _ in range(ri(rng, 2, 5)):
        f1, f2 = pick(rng, *fs), pick(rng, *fs)
        lmax = f1.ainfo.lmax
        b = rand_bin(nmt, rng, S, pick(rng, lmax, lmax, lmax, lmax+1))
        if b is None:
            b = S("from_lmax_linear", nmt.NmtBin.from_lmax_linear, lmax,
                  max(1, min(lmax, 2)))
        if b is None:
            continue
        w = pick(rng, nmt.NmtWorkspace(), *ws) if ri(rng, 0, 2) == 0 else \
            nmt.NmtWorkspace()
        kw = {}
        if ri(rng, 0, 2) == 0:
            kw.update(l_toeplitz=ri(rng, -1, lmax+2),
                      l_exact=ri(rng, -1, lmax+2),
                      dl_band=ri(rng, -1, lmax+2))
        if ri(rng, 0, 3) == 0:
            kw["is_teb"] = True
        if ri(rng, 0, 3) == 0:
            kw["normalization"] = pick(rng, "FKP", "FKP", "MASTER", "x")
        S("compute_coupling_matrix", w.compute_coupling_matrix, f1, f2, b,
          **kw)
        ws.append(w)
        use_wsp(nmt, rng, S, w, fs, d, lmax)
        S("compute_coupled_cell", nmt.compute_coupled_cell, f1, f2)
        g = np.ones((f1.nmaps*f2.nmaps, pick(rng, lmax+1, lmax+1, lmax)))
        S("deprojection_bias", nmt.deprojection_bias, f1, f2, g, n_iter=0)
        S("uncorr", nmt.uncorr_noise_deprojection_bias, f1,
          np.ones(pick(rng, npix, npix, npix+1)), n_iter=0)
        f3, f4 = pick(rng, *fs), pick(rng, *fs)
        cw = pick(rng, nmt.NmtCovarianceWorkspace(), *cs)
        kw = {}
        if ri(rng, 0, 2) == 0:
            kw.update(l_toeplitz=ri(rng, -1, lmax+2),
                      l_exact=ri(rng, -1, lmax+2),
                      dl_band=ri(rng, -1, lmax+2))
        if ri(rng, 0, 2) == 0:
            kw["spin0_only"] = True
        S("cov-compute", cw.compute_coupling_coefficients, f1, f2,
          flb1=f3, flb2=f4, **kw)
        cs.append(cw)
        cw, wa, wb = pick(rng, *cs), pick(rng, *ws), pick(rng, *ws)
        s = [pick(rng, 0, 0, 2, 1) for _ in range(4)]
        L = pick(rng, lmax+1, lmax+1, lmax+1, lmax)

        def cl(i, j):
            n = (1+(s[i] > 0))*(1+(s[j] > 0))
            return np.ones((pick(rng, n, n, n, n, 1), L))
        S("gaussian_covariance", nmt.gaussian_covariance, cw, *s, cl(0, 2),
          cl(0, 3), cl(1, 2), cl(1, 3), wa, pick(rng, None, wb),
          coupled=bool(ri(rng, 0, 2) == 0))
        if ri(rng, 0, 1):
            f = os.path.join(d, "c.fits")
            S("cov-write", cw.write_to, f)
            S("cov-read", cw.read_from, f)
        for x in (fs, ws, cs):
            if len(x) > 2 and ri(rng, 0, 3) == 0:
                x.pop(ri(rng, 0, len(x)-1))
    M.state("sphere", nside, tuple(S.log[-5:]))


def rand_fieldflat(nmt, rng, S, nx, ny, lx, ly):
    spin = pick(rng, 0, 0, 1, 2, 2, 3)
    nm = 2 if spin else 1
    sh = (ny, nx)
    kw = dict(spin=spin)
    if ri(rng, 0, 2) == 0:
        kw["templates"] = rng.normal(size=(ri(rng, 1, 3), nm)+sh)
    if ri(rng, 0, 1):
        k = ri(rng, 1, 6)
        ls = np.sort(rng.uniform(0, 200, k)) if ri(rng, 0, 3) else \
            rng.uniform(0, 200, k)
        kw["beam"] = np.array([ls, rng.uniform(.1, 1, k)])
    if spin == 2 or ri(rng, 0, 5) == 0:
        kw.update(purify_e=bool(ri(rng, 0, 2) == 0),
                  purify_b=bool(ri(rng, 0, 1) == 0))
    for k in ("lite", "masked_on_input"):
        if ri(rng, 0, 4) == 0:
            kw[k] = True
    mask = rng.uniform(0, 1, sh)*(rng.random(sh) > pick(rng, .2, .9))
    maps = rng.normal(size=(nm,)+sh) if ri(rng, 0, 5) else None
    return S("NmtFieldFlat", nmt.NmtFieldFlat, lx, ly, mask, maps, **kw)


def r_flat(nmt, M, rng, d, c):
    S = Session(M, rng)
    nx, ny = ri(rng, 1, 12), ri(rng, 1, 12)
    lx, ly = 10**rng.uniform(-2, 0, 2)
    dim = (nx, ny, lx, ly)
    fs, ws, cs, bs = [], [], [], []
    for _ in range(ri(rng, 2, 5)):
        if ri(rng, 0, 5) == 0:
            dim = (ri(rng, 1, 12), ny, lx, ly)
        f = rand_fieldflat(nmt, rng, S, *dim)
        if f is not None:
            fs.append(f)
    kmax = np.pi*np.hypot(nx/lx, ny/ly)
    for _ in range(ri(rng, 1, 3)):
        n = ri(rng, 1, 6)
        e = np.sort(rng.uniform(-.1, 1.5, n+1))*kmax
        if ri(rng, 0, 5) == 0:
            e = e[::-1]
        b = S("NmtBinFlat", nmt.NmtBinFlat, e[:-1], e[1:])
        if b is not None:
            bs.append(b)
    m = rng.uniform(0, 1, (ny, nx))*(rng.random((ny, nx)) > .3)
    S("apod", nmt.mask_apodization_flat, m, lx, ly,
      np.degrees(pick(rng, 0, .1, .5, 3)*pick(rng, lx, ly)),
      pick(rng, "C1", "C2", "Smooth"))
    sp = [pick(rng, 0, 0, 2, 1) for _ in range(ri(rng, 0, 2))]
    q = sum(1+(s > 0) for s in sp)
    S("synfast", nmt.synfast_flat, nx, ny, lx, ly,
      np.ones((q*(q+1)//2+pick(rng, 0, 0, 0, 1), ri(rng, 0, 40))), sp,
      seed=ri(rng, 0, 99))
    if not fs or not bs:
        return
    for _ in range(ri(rng, 2, 4)):
        f1, f2, b = pick(rng, *fs), pick(rng, *fs), pick(rng, *bs)
        cut = dict()
        if ri(rng, 0, 1):
            cut = dict(ell_cut_x=list(rng.uniform(-kmax, kmax, 2)),
                       ell_cut_y=list(rng.uniform(-kmax, kmax, 2)))
        w = pick(rng, nmt.NmtWorkspaceFlat(), *ws)
        S("flat-matrix", w.compute_coupling_matrix, f1, f2, b,
          is_teb=bool(ri(rng, 0, 3) == 0), **cut)
        ws.append(w)
        w = pick(rng, *ws)
        n = f1.fl.nmaps*f2.fl.nmaps
        k = ri(rng, 1, 9)
        ls = np.sort(rng.uniform(0, kmax, k)) if ri(rng, 0, 3) else \
            rng.uniform(0, kmax, k)
        nb = b.get_n_bands()
        S("flat-pcl", nmt.compute_coupled_cell_flat, f1, f2, b, **cut)
        S("flat-bias", nmt.deprojection_bias_flat, f1, f2, b, ls,
          np.ones((pick(rng, n, n, 1), pick(rng, k, k, k+1))), **cut)
        S("flat-couple", w.couple_cell, ls, np.ones((pick(rng, n, 1, 2, 4, 7),
                                                     k)))
        S("flat-decouple", w.decouple_cell,
          np.ones((pick(rng, n, 1, 2, 4, 7), pick(rng, nb, nb, nb+1))),
          cl_bias=pick(rng, None, np.ones((n, nb))))
        S("flat-master", nmt.compute_full_master_flat, f1, f2, b,
          cl_guess=pick(rng, None, np.ones((n, k))), ells_guess=ls,
          workspace=pick(rng, None, w), **cut)
        cw = pick(rng, nmt.NmtCovarianceWorkspaceFlat(), *cs)
        S("flat-cov", cw.compute_coupling_coefficients, f1, f2, b,
          flb1=pick(rng, *fs), flb2=pick(rng, *fs), **cut)
        cs.append(cw)
        s = [pick(rng, 0, 0, 2, 1) for _ in range(4)]

        def cl(i, j):
            return np.ones(((1+(s[i] > 0))*(1+(s[j] > 0)), k))
        S("flat-gcov", nmt.gaussian_covariance_flat, pick(rng, *cs), *s, ls,
          cl(0, 2), cl(0, 3), cl(1, 2), cl(1, 3), pick(rng, *ws),
          pick(rng, None, *ws))
        f = os.path.join(d, "x.fits")
        o = pick(rng, w, cw)
        S("flat-write", o.write_to, f)
        S("flat-read", pick(rng, w, cw).read_from, f)
    for f in fs:
        S("flat-maps", f.get_maps)
        S("flat-templates", f.get_templates)
        S("flat-mask", f.get_mask)
    M.state("flat", nx, ny, tuple(S.log[-4:]))


def r_catalog(nmt, M, rng, d, c):
    S = Session(M, rng)
    for _ in range(4):
        n = ri(rng, 0, 6)
        spin = pick(rng, 0, 1, 2, 3)
        pos = np.array([rng.uniform(-.1, 3.3, n) if ri(rng, 0, 5) == 0 else
                        rng.uniform(0, np.pi, n), rng.uniform(0, 6.3, n)])
        kw = dict(lmax=ri(rng, 0, 9), lmax_mask=ri(rng, 0, 9), spin=spin,
                  lonlat=bool(ri(rng, 0, 3) == 0))
        f = S("NmtFieldCatalog", nmt.NmtFieldCatalog, pos,
              rng.uniform(-.1, 1, n),
              pick(rng, None, rng.normal(size=(2 if spin else 1, n))), **kw)
        m = ri(rng, 0, 9)
        pr = np.array([rng.uniform(0, np.pi, m), rng.uniform(0, 6.3, m)])
        g = S("clustering", nmt.NmtFieldCatalogClustering, pos,
              rng.uniform(0, 1, n), pr, rng.uniform(0, 1, m), kw["lmax"])
        b = rand_bin(nmt, rng, S, kw["lmax"])
        for x in (f, g):
            for y in (f, g):
                if x is None or y is None:
                    continue
                S("compute_coupled_cell", nmt.compute_coupled_cell, x, y)
                if b is not None:
                    w = nmt.NmtWorkspace()
                    S("matrix", w.compute_coupling_matrix, x, y, b)
                    use_wsp(nmt, rng, S, w, [x, y], d, kw["lmax"])
    M.state("catalog", tuple(S.log[-6:]))


def r_mixed(nmt, M, rng, d, c):
    """Objects of different environments used together."""
    S = Session(M, rng)
    ea = calls.Env(rng, nmt, d)
    dd = os.path.join(d, "b")
    os.makedirs(dd)
    eb = calls.Env(rng, nmt, dd)
    pool = {}
    for e in (ea, eb):
        for o in e.objects().values():
            pool.setdefault(type(o), []).append(o)
    ks = sorted(calls.KINDS)
    for _ in range(24):
        call = calls.draw(ea, rng, ks[ri(rng, 0, len(ks)-1)])
        kw = dict(call.kw)
        for a in sorted(kw):
            same = pool.get(type(kw[a]))
            if same and ri(rng, 0, 1):
                kw[a] = same[ri(rng, 0, len(same)-1)]
        fn = call.fn
        if isinstance(fn, types.MethodType) and type(fn.__self__) in pool \
                and not fn.__name__.startswith(("update", "read")):
            fn = getattr(pick(rng, *pool[type(fn.__self__)]), fn.__name__)
        r = S(call.name, fn, **kw)
        if r is not None:
            S(call.name+"-use", calls.probe, ea, r)
    M.state("mixed", tuple(S.log[:8]))


# ------------------------------------------------------------- damaged files
def r_files(nmt, M, rng, d, c):
    from astropy.io import fits
    S = Session(M, rng)
    kind = pick(rng, "wsp", "wsp", "wsp-flat", "cov", "cov-flat")
    spec = objs.FILES[kind](rng)
    w = spec.build(nmt)
    f = os.path.join(d, "good.fits")
    w.write_to(f)
    raw = open(f, "rb").read()
    cl = type(w)
    for i in range(7):
        g = os.path.join(d, "bad%d.fits" % i)
        how = ri(rng, 0, 5)
        try:
            if how <= 2:
                with fits.open(f) as h:
                    for _ in range(ri(rng, 1, 2)):
                        damage(rng, h, how)
                    h.writeto(g, output_verify="ignore")
            elif how == 3:      # truncated
                open(g, "wb").write(raw[:ri(rng, 0, len(raw))])
            elif how == 4:      # header text
                x = bytearray(raw)
                for _ in range(ri(rng, 1, 4)):
                    p = ri(rng, 0, min(len(x)-1, 2879*3))
                    x[p] = ri(rng, 32, 126)
                open(g, "wb").write(bytes(x))
            else:
                x = bytearray(raw)
                for _ in range(ri(rng, 1, 30)):
                    x[ri(rng, 0, len(x)-1)] = ri(rng, 0, 255)
                open(g, "wb").write(bytes(x))
        except Exception:
            continue
        M.seen("damaged files")
        M.state("file", kind, how)
        r = pick(rng, cl(), spec.build(nmt))
        S("read_from", r.read_from, g)
        S("use", lambda: spec.probe(nmt, r))
        S("write_to", r.write_to, os.path.join(d, "again.fits"))
        S("use", lambda: spec.probe(nmt, r))


def damage(rng, h, how):
    from astropy.io import fits
    i = ri(rng, 0, len(h)-1)
    if how == 0:
        hd = h[i].header
        ks = [k for k in hd if k not in ("SIMPLE", "XTENSION", "BITPIX",
                                         "NAXIS", "COMMENT", "", "HISTORY",
                                         "END")]
        if ks:
            k = pick(rng, *ks)
            v = hd[k]
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                hd[k] = pick(rng, 0, 1, 2, 3, 4, 7, -1, v+1, v-1, 2*v, 10000)
            elif ri(rng, 0, 1):
                del hd[k]
            else:
                hd[k] = pick(rng, "x", True, 3)
    elif how == 1 and len(h) > 1:
        j = ri(rng, 1, len(h)-1)
        if ri(rng, 0, 1):
            del h[j]
        else:
            k = ri(rng, 1, len(h)-1)
            x = h.pop(j)
            h.insert(k, x)
    else:
        x = h[i]
        if isinstance(x, fits.BinTableHDU):
            t = x.data
            n = len(t)
            k = ri(rng, 0, 2)
            if k == 0:
                x.data = t[:ri(rng, 0, n)]
            elif k == 1 and n:
                c = pick(rng, *t.names)
                v = np.array(t[c])
                v.flat[ri(rng, 0, v.size-1)] = pick(
                    rng, 0, -1, 2**20, v.flat[0])
                t[c] = v
            else:
                h[i] = fits.BinTableHDU.from_columns(
                    [fits.Column(name="X", format="D",
                                 array=np.zeros(ri(rng, 0, 4)))])
        elif x.data is not None:
            a = x.data
            k = ri(rng, 0, 3)
            if k == 0:
                x.data = np.zeros(tuple(ri(rng, 1, 9) for _ in a.shape))
            elif k == 1:
                x.data = a[..., :-1].copy() if a.shape[-1] > 1 else a
            elif k == 2:
                x.data = a.astype(pick(rng, np.int16, np.int32, np.float32))
            else:
                a.flat[ri(rng, 0, a.size-1)] = pick(rng, 0, -1, np.nan,
                                                    1e300, 2**31)
