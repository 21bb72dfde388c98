"""C06: results do not depend on threads, schedule or stale memory."""
import ctypes
import os
import random
import shutil
import subprocess
import tempfile

import numpy as np

from nmtv import calls, gen, objs

RULE = ("Sets of objects of every kind are built and every public call of "
        "the catalogue is made with one thread, then again with 2 to 13 "
        "threads under a perturbed OpenMP runtime (seeded order of chunks, "
        "start order of threads, random delays), and with the heap filled "
        "with different bytes; all results must agree. The same workload "
        "runs under ThreadSanitizer with every synchronisation visible to "
        "it. A fixed seed must give fixed simulated maps.")
ASSUMPTIONS = ["the OpenMP runtime is replaced by one on pthreads with the "
               "same semantics for the constructs used",
               "the transforms of ducc0, healpy and FFTW are not instrumented"]
CONFIGS = {
    "shim": {"variant": "shim", "weight": 2.},
    "fill": {"variant": "plain", "preload": "heapfill.c",
             "env": {"DUCC0_NUM_THREADS": "1"}},
    "tsan": {"variant": "tsan", "weight": 4.},
    "gomp": {"variant": "plain", "weight": 2.,
             "env": {"OMP_NUM_THREADS": "6", "DUCC0_NUM_THREADS": "3"}},
}
MIN_EVENTS = {"schedules": 300, "libgomp runs": 100, "results compared": 5000,
              "heap fills": 200, "tsan calls": 40,
              "parallel regions entered": 1000}


def cases(seed, tier):
    r = random.Random("C06-%d" % seed)
    ks = sorted(calls.KINDS)
    out = []
    for cfg, n in (("shim", 3), ("fill", 2), ("tsan", 2), ("gomp", 1)):
        for i in range(len(ks)*n):
            out.append(dict(kind=ks[i % len(ks)], seed=r.randrange(1 << 30),
                            cfg=cfg))
    for i in range(len(LARGE)*2):
        for cfg in ("gomp", "shim", "tsan"):
            out.append(dict(kind=LARGE[i % len(LARGE)], cfg=cfg, large=1,
                            seed=r.randrange(1 << 30)))
    return out


# ------------------------------------------------------------ controls
def lib():
    import _nmtlib
    return ctypes.CDLL(_nmtlib.__file__)


def omp(threads, seed=0, delay=0, perm=0):
    L = lib()
    L.nmtv_omp_config(ctypes.c_int(threads), ctypes.c_ulonglong(seed),
                      ctypes.c_int(delay), ctypes.c_int(perm))


def stats():
    o = (ctypes.c_ulonglong*6)()
    lib().nmtv_omp_stats(o)
    return list(o)


SYMS = []


def regions():
    """Names of the parallel regions entered so far by several threads."""
    import _nmtlib
    L = lib()
    fn = (ctypes.c_void_p*512)()
    nt = (ctypes.c_int*512)()
    n = L.nmtv_omp_regions(fn, nt, 512)
    if not SYMS:
        txt = subprocess.run(["nm", _nmtlib.__file__], capture_output=True,
                             text=True).stdout
        SYMS.append({int(x.split()[0], 16): x.split()[2] for x in
                     txt.split("\n") if "_omp_fn" in x or
                     x.endswith(" nmtv_omp_stats")})
        base = [a for a, s in SYMS[0].items() if s == "nmtv_omp_stats"][0]
        SYMS.append(ctypes.cast(L.nmtv_omp_stats, ctypes.c_void_p).value-base)
    return sorted({SYMS[0].get(fn[i]-SYMS[1], "?") for i in range(n)
                   if nt[i] > 1})


# --------------------------------------------------------------- the monitor
def flat(s):
    return {"%s/%s" % (a, b): v for a, p in s.items() for b, v in p.items()}


def outcome(e, call):
    try:
        if e is None:
            return call.run()
        return calls.probe(e, call.run())
    except RuntimeError as x:
        if "singular" in str(x):    # this mask cannot be decoupled
            return dict(refused=str(x))
        raise


class Flow(object):
    target = None

    def __init__(self, nmt, c):
        self.name = c["kind"]
        self.run = lambda: large(nmt, c)


def world(c, nmt, d):
    """The same objects every time, and what the call returns."""
    if c.get("large"):
        f = Flow(nmt, c)
        return None, f, {}, {"call/"+k: v for k, v in f.run().items()}
    rng = gen.rng_of(c)
    os.makedirs(d)
    e = calls.Env(rng, nmt, d)
    call = calls.draw(e, rng, c["kind"])
    before = flat(e.snapshot())
    got = {"call/"+k: v for k, v in outcome(e, call).items()}
    if call.target is not None:
        got.update({"target/"+k: v for k, v in
                    calls.probe(e, call.target).items()})
    return e, call, before, got


def tol(k):
    return 1e-10 if "dec" in k or "win" in k else 1e-11


def compare(M, tag, got, want):
    if not M.true(tag+"/queries", sorted(got) == sorted(want),
                  "answers %s" % sorted(set(got) ^ set(want))):
        return
    M.seen("results compared", len(want))
    for k in sorted(want):
        a, b = got[k], want[k]
        if "couple" in k and not isinstance(a, str) and \
                not isinstance(b, str) and np.shape(a) == np.shape(b) and \
                np.max(np.abs(np.asarray(a)-b), initial=0.) < 1e-15:
            continue    # the response to spectra of order 1 may cancel
        objs.compare(M, tag, {k: got[k]}, {k: want[k]}, tol(k))


def run(c, M):
    import pymaster as nmt
    d = tempfile.mkdtemp(prefix="nmtv-c06-")
    try:
        dict(shim=shim, fill=fill, tsan=tsan, gomp=gomp)[c["cfg"]](
            c, M, nmt, d)
    finally:
        nmt.set_sht_calculator("ducc")
        nmt.set_n_iter_default(3)
        nmt.set_n_iter_default(3, mask=True)
        nmt.set_tol_pinv_default(1e-10)
        if c["cfg"] in ("shim", "tsan"):
            omp(1)
        shutil.rmtree(d, ignore_errors=True)


def shim(c, M, nmt, d):
    r = random.Random(c["seed"])
    omp(1)
    e, call, before, want = world(c, nmt, d+"/0")
    for i in range(3):
        omp(r.choice([2, 3, 4, 5, 8, 13]), r.randrange(1 << 30),
            r.choice([0, 0, 50, 300]), r.choice([0, 1, 1]))
        lib().nmtv_omp_reset()
        if i == 0:      # everything again, from the first object on
            e2, call2, b2, got = world(c, nmt, d+"/1")
            compare(M, "threads-objects", b2, before)
        else:
            got = {"call/"+k: v for k, v in outcome(e, call).items()}
            if call.target is not None:
                got.update({"target/"+k: v for k, v in
                            calls.probe(e, call.target).items()})
        compare(M, "threads/"+call.name, got, want)
        s = stats()
        M.seen("schedules")
        M.seen("parallel regions entered", s[0])
        M.seen("chunks handed out", s[3])
        M.seen("critical sections", s[2])
        M.state("schedule", s[5])
    M.notes["regions"] = regions()
    for x in M.notes["regions"]:
        M.state("region", x)


def fill(c, M, nmt, d):
    C = ctypes.CDLL(None)
    C.heapfill.restype = ctypes.c_long
    res = []
    try:
        for i, b in enumerate((-1, 0x55, 0xff, 0x7f)):
            n0 = C.heapfill(ctypes.c_int(b))
            e, call, before, got = world(c, nmt, "%s/%d" % (d, i))
            M.seen("blocks filled", C.heapfill(ctypes.c_int(-1))-n0)
            if res:
                compare(M, "memory-objects", before, res[0])
                compare(M, "memory/"+call.name, got, res[1])
            else:
                res = [before, got]
            M.seen("heap fills")
        M.state("fill", call.name)
    finally:
        C.heapfill(ctypes.c_int(-1))


def tsan(c, M, nmt, d):
    r = random.Random(c["seed"])
    omp(4, r.randrange(1 << 30), r.choice([0, 50]), r.choice([0, 1]))
    e, call, before, got = world(c, nmt, d+"/0")
    M.seen("tsan calls")
    s = stats()
    M.seen("parallel regions entered", s[0])
    M.state("tsan", call.name)
    for x in regions():
        M.state("tsan-region", x)


# ------------------------------------------- the real runtime, larger objects
LARGE = ["spherical", "catalog", "flat", "covariance"]


def gomp(c, M, nmt, d):
    G = ctypes.CDLL("libgomp.so.1")
    r = random.Random(c["seed"])
    try:
        G.omp_set_num_threads(ctypes.c_int(1))

        def go(i):
            e, call, before, got = world(c, nmt, "%s/%d" % (d, i))
            got.update({"object/"+k: v for k, v in before.items()})
            return call.name, got
        name, want = go(0)
        for i in range(3):
            n = r.choice([2, 3, 4, 6, 8])
            G.omp_set_num_threads(ctypes.c_int(n))
            compare(M, "libgomp/"+name, go(i+1)[1], want)
            M.seen("libgomp runs")
            M.state("libgomp", name, n)
    finally:
        G.omp_set_num_threads(ctypes.c_int(1))


def large(nmt, c):
    """Objects large enough for every thread to get work."""
    rng = np.random.default_rng(c["seed"])
    out = {}
    if c["kind"] == "flat":
        n = int(rng.integers(60, 90))
        lx, ly = np.radians(rng.uniform(5, 20, 2))
        x, y = np.meshgrid(np.arange(n)/n, np.arange(n+7)/(n+7))
        mk = (np.sin(np.pi*x)*np.sin(np.pi*y) > .2)*1.
        holes = mk*(rng.random(mk.shape) > .01)
        for t in "C1", "C2", "Smooth":
            out["holes-"+t] = nmt.mask_apodization_flat(
                holes, lx, ly, np.degrees(.05*lx), apotype=t)
        out["apod"] = mk = nmt.mask_apodization_flat(
            mk, lx, ly, np.degrees(.05*lx),
            apotype=["C1", "C2", "Smooth"][int(rng.integers(3))])
        ed = np.linspace(0, np.pi*n/max(lx, ly), 9)
        b = nmt.NmtBinFlat(ed[:-1], ed[1:])
        f0 = nmt.NmtFieldFlat(lx, ly, mk, [rng.normal(size=mk.shape)],
                              templates=[[rng.normal(size=mk.shape)]])
        f2 = nmt.NmtFieldFlat(lx, ly, mk, rng.normal(size=(2,)+mk.shape),
                              purify_b=bool(rng.random() < .5))
        out["maps0"], out["maps2"] = f0.get_maps(), f2.get_maps()
        w = nmt.NmtWorkspaceFlat()
        w.compute_coupling_matrix(f0, f2, b)
        cl = nmt.compute_coupled_cell_flat(f0, f2, b)
        out["pcl"] = cl
        ls = np.linspace(0, ed[-1]*1.2, 500)
        out["couple"] = w.couple_cell(ls, np.ones((2, 500)))
        out["decoupled"] = w.decouple_cell(cl)
        out["bias"] = nmt.deprojection_bias_flat(f0, f2, b, ls,
                                                 np.ones((2, 500)))
        cw = nmt.NmtCovarianceWorkspaceFlat()
        cw.compute_coupling_coefficients(f0, f2, b)
        w0 = nmt.NmtWorkspaceFlat()
        w0.compute_coupling_matrix(f0, f0, b)
        one = [np.ones(500)]
        out["cov-dec"] = nmt.gaussian_covariance_flat(
            cw, 0, 0, 0, 0, ls, one, one, one, one, w0)
        out["synfast"] = nmt.synfast_flat(n, n+7, lx, ly, [ls*0+1.], [0],
                                          seed=int(rng.integers(1 << 30)))
        return out
    nside = 32 if c["cfg"] == "gomp" else 8
    lmax = int(rng.integers(70, 96)) if nside == 32 else 23
    b = nmt.NmtBin.from_lmax_linear(lmax, 9)
    npix = 12*nside**2
    if c["kind"] == "catalog":
        n = 4000
        pos = np.array([np.arccos(rng.uniform(-1, 1, n)),
                        rng.uniform(0, 2*np.pi, n)])
        pr = np.array([np.arccos(rng.uniform(-1, 1, 3*n)),
                       rng.uniform(0, 2*np.pi, 3*n)])
        f = nmt.NmtFieldCatalog(pos, rng.uniform(.5, 1, n),
                                rng.normal(size=(2, n)), lmax=lmax,
                                lmax_mask=lmax, spin=2)
        g = nmt.NmtFieldCatalogClustering(
            pos, rng.uniform(.5, 1, n), pr, np.ones(3*n), lmax=lmax)
        for k, x in (("cat", f), ("clu", g)):
            out[k+"mask"], out[k+"alm"] = x.get_mask_alms(), x.get_alms()
            out[k+"pcl"] = nmt.compute_coupled_cell(x, x)
            out[k+"nums"] = np.array([x.Nw, x.Nf])
        return out
    mk = (np.arange(npix) > npix//3)*1.
    for t in "C1", "C2", "Smooth":
        out["apod-"+t] = nmt.mask_apodization(mk, 12., apotype=t)
    mk = out["apod-"+["C1", "C2", "Smooth"][int(rng.integers(3))]]
    f0 = nmt.NmtField(mk, [rng.normal(size=npix)], lmax=lmax,
                      templates=[[rng.normal(size=npix)]])
    f2 = nmt.NmtField(mk, rng.normal(size=(2, npix)), lmax=lmax,
                      purify_b=bool(rng.random() < .7))
    w = nmt.NmtWorkspace.from_fields(f0, f2, b)
    if c["kind"] == "spherical":
        out["alm0"], out["alm2"] = f0.get_alms(), f2.get_alms()
        cl = nmt.compute_coupled_cell(f0, f2)
        out["pcl"], out["mcm"] = cl, w.get_coupling_matrix()
        out["win"] = w.get_bandpower_windows()
        out["decoupled"] = w.decouple_cell(cl)
        out["bias"] = nmt.deprojection_bias(f0, f2, np.ones((2, lmax+1)))
        w.compute_coupling_matrix(f0, f0, b, l_toeplitz=lmax//2,
                                  l_exact=lmax//4, dl_band=6)
        out["toeplitz"] = w.get_coupling_matrix()
        w.compute_coupling_matrix(f2, f2, b, is_teb=False)
        out["mcm22"] = w.get_coupling_matrix()
        out["synfast"] = nmt.synfast_spherical(
            nside, np.ones((1, 3*nside)), [0], seed=int(rng.integers(1 << 30)))
        return out
    cw = nmt.NmtCovarianceWorkspace.from_fields(f0, f2)
    one = np.ones((2, lmax+1))
    out["coupled"] = nmt.gaussian_covariance(
        cw, 0, 2, 0, 2, one[:1], one, one, np.ones((4, lmax+1)), w, coupled=True)
    out["cov-dec"] = nmt.gaussian_covariance(
        cw, 0, 2, 0, 2, one[:1], one, one, np.ones((4, lmax+1)), w)
    return out
