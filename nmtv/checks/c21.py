"""C21: updating a workspace equals building it anew."""
import os
import random
import shutil
import tempfile

import numpy as np

from nmtv import gen, objs, world
from nmtv.checks import c03

RULE = ("Random histories of 2-9 operations on one workspace object of each "
        "kind: beam, bin and matrix updates, recomputation for other fields "
        "(other spins, sizes, pixelisations, normalisations), reads of "
        "files, refused operations and queries in random order. After each "
        "operation (or only at the end) all queries are compared with a "
        "workspace freshly built for the state so far.")
ASSUMPTIONS = []
MIN_EVENTS = {"operations": 300, "queries compared": 600,
              "twins": 150, "refused operations": 20}
QUICK_ROUNDS = 4


def cases(seed, tier):
    r = random.Random("C21-%d" % seed)
    n = 1500 if tier == "thorough" else 1200
    k = ["wsp", "wsp", "wsp", "wsp-flat", "cov", "cov-flat"]
    return [dict(kind=k[i % len(k)], sparse=r.random() < .3,
                 seed=r.randrange(1 << 30)) for i in range(n)]


class State(object):
    """What the curved workspace should currently be equal to."""
    def __init__(self, rng):
        self.renew(rng)

    def renew(self, rng):
        s = self.spec = objs.Wsp(rng)
        # separate specs so that their beams can change independently
        if s.s2 is s.s1:
            self.same = True
        else:
            self.same = False
        self.beams = None
        self.matrix = None

    def fresh(self, nmt):
        s = self.spec
        f1, f2 = s.fields(nmt) if self.beams is None else (
            s.s1.build(nmt, beam=self.beams[0].copy()),
            s.s2.build(nmt, beam=self.beams[1].copy()))
        w = nmt.NmtWorkspace.from_fields(f1, f2, s.bs.build(nmt), **s.kw)
        if self.matrix is not None:
            w.update_coupling_matrix(self.matrix.copy())
        return w


def run(c, M):
    import pymaster as nmt
    rng = gen.rng_of(c)
    d = tempfile.mkdtemp(prefix="nmtv-c21-")
    try:
        if c["kind"] == "wsp":
            curved(nmt, M, rng, d, c["sparse"])
        else:
            other(nmt, M, rng, d, c["kind"], c["sparse"])
    finally:
        shutil.rmtree(d, ignore_errors=True)


def singular(st, w):
    """Is the binned matrix singular to machine precision?"""
    s = st.spec
    mcm = w.get_coupling_matrix()
    if isinstance(mcm, str) or s.kw.get("normalization") == "FKP":
        return False
    b = st.beams or (s.s1.beam_or_one(), s.s2.beam_or_one())
    A = world.wsp_oracle(mcm, b[0]*b[1], s.bs.B, s.bs.U, s.ncls)["binned"]
    x = np.linalg.cond(A)
    return not np.isfinite(x) or x > 1e11


def oracle(M, st, w):
    """The queries against plain linear algebra, independent of the twin."""
    s = st.spec
    mcm = w.get_coupling_matrix()
    b = st.beams or (s.s1.beam_or_one(), s.s2.beam_or_one())
    o = world.wsp_oracle(mcm, b[0]*b[1], s.bs.B, s.bs.U, s.ncls)
    M.close("couple-algebra", w.couple_cell(s.th),
            world.lunflat(o["couple"] @ world.lflat(s.th), s.ncls),
            rtol=1e-11)
    if st.matrix is not None:
        M.close("matrix-kept", mcm, st.matrix, rtol=1e-14)


def curved(nmt, M, rng, d, sparse):
    st = State(rng)
    w = st.fresh(nmt)
    hist = []

    def judge(tag):
        s = st.spec
        M.seen("twins")
        t = st.fresh(nmt)
        p, q = s.probe(nmt, w), s.probe(nmt, t)
        if singular(st, t):
            M.seen("singular binned matrices")
            for k in ("dec", "dec2", "win"):
                p.pop(k), q.pop(k)
        objs.compare(M, tag, p, q, 1e-10)
        if not isinstance(w.get_coupling_matrix(), str):
            oracle(M, st, w)
    for _ in range(int(rng.integers(2, 10))):
        s = st.spec
        L = s.sky.lmax+1
        op = str(rng.choice(["beams", "beams", "bins", "bins", "matrix",
                             "recompute", "read", "query", "refused",
                             "readpart"]))
        M.seen("operations")
        if op == "beams":
            st.beams = [np.exp(-rng.random()*np.arange(L)/4)
                        for _ in range(2)]
            n = rng.integers(0, 3)   # longer beams are allowed
            ext = [np.concatenate([x, rng.random(int(n))])
                   for x in st.beams]
            k = rng.integers(3)
            if k == 0:
                ext = [list(x) for x in ext]
            elif k == 1:
                ext[0] = tuple(ext[0])
            w.update_beams(*ext)
        elif op == "bins":
            s.bs = c03.mkbins(rng, s.sky.lmax, rng.random() < .2)
            w.update_bins(s.bs.build(nmt))
        elif op == "matrix":
            n = s.ncls*L
            st.matrix = np.eye(n)+.2*rng.normal(size=(n, n))/np.sqrt(n)
            m = st.matrix.copy()
            if rng.random() < .3:
                m = np.asfortranarray(m)
            w.update_coupling_matrix(m)
            m[:] = -7.
        elif op == "recompute":
            st.renew(rng)
            f1, f2 = st.spec.fields(nmt)
            w.compute_coupling_matrix(f1, f2, st.spec.bs.build(nmt),
                                      **st.spec.kw)
        elif op in ("read", "readpart"):
            if rng.random() < .5:
                st.renew(rng)
                src = st.fresh(nmt)
            else:
                src = w
            f = os.path.join(d, "w.fits")
            src.write_to(f)
            if op == "readpart":
                w.read_from(f, read_unbinned_MCM=False)
                t = st.fresh(nmt)
                p, q = st.spec.probe(nmt, w), st.spec.probe(nmt, t)
                if not singular(st, t):
                    objs.compare(M, "partial", {"dec2": p["dec2"]},
                                 {"dec2": q["dec2"]}, 1e-10)
            if op == "readpart" and rng.random() < .5:
                # a matrix computed now is a complete one
                if rng.random() < .5:
                    st.renew(rng)
                st.beams = st.matrix = None
                f1, f2 = st.spec.fields(nmt)
                w.compute_coupling_matrix(f1, f2, st.spec.bs.build(nmt),
                                          **st.spec.kw)
                M.seen("recomputed after partial reads")
            else:
                w.read_from(f)
        elif op == "query":
            s.new_inputs(rng)
            quer(nmt, rng, s, w)
        else:
            M.seen("refused operations")
            refuse(nmt, M, rng, s, w, d)
        hist.append(op)
        if not sparse:
            judge(op)
    judge("end")
    M.state(tuple(hist[-3:]), st.spec.flavour)


def quer(nmt, rng, s, w):
    objs.quiet(lambda: w.decouple_cell(s.pcl))   # may be singular
    for k in rng.permutation(4)[:int(rng.integers(1, 4))]:
        if k == 0:
            v = objs.quiet(w.get_bandpower_windows)
            if not isinstance(v, str):
                v[:] = 5.
        elif k == 1:
            w.get_coupling_matrix()[:] = 3.
        elif k == 2:
            w.couple_cell(s.th)[:] = 2.
        else:
            v = objs.quiet(lambda: w.decouple_cell(
                s.pcl, cl_bias=s.bia, cl_noise=s.noi))
            if not isinstance(v, str):
                v[:] = 1.


def refuse(nmt, M, rng, s, w, d):
    L = s.sky.lmax+1
    k = int(rng.integers(8))
    one = np.ones(L)
    other = world.BinSpec(rng, L+2).build(nmt)
    f1, f2 = s.fields(nmt)
    # not the geometry of any other map here
    bad = nmt.NmtField(np.ones(12*8**2), None, spin=0, lmax=s.sky.lmax+1,
                       lmax_mask=s.sky.lmax+1)
    fn = [lambda: w.update_beams(np.ones(L-1), one),
          lambda: w.update_beams(one, None),
          lambda: w.update_bins(other),
          lambda: w.update_coupling_matrix(np.eye(s.ncls*L+1)),
          lambda: w.read_from(os.path.join(d, "none.fits")),
          lambda: w.compute_coupling_matrix(f1, bad, s.bs.build(nmt)),
          lambda: w.compute_coupling_matrix(f1, f2, other),
          lambda: w.compute_coupling_matrix(f1, f2, s.bs.build(nmt),
                                            normalization="XYZ")][k]
    M.raises("refused/%d" % k, fn)


def other(nmt, M, rng, d, kind, sparse):
    cls = objs.FILES[kind]
    w = cls(rng).new(nmt)
    spec = None
    hist = []
    n = int(rng.integers(2, 5))
    for i in range(n):
        op = "fill" if i == 0 else str(rng.choice(
            ["fill", "read", "query", "refused"]))
        M.seen("operations")
        if op == "fill":
            new = cls(rng)
            fresh = new.build(nmt)
            spec = new
            spec.fill(nmt, w)
        elif op == "read":
            new = cls(rng)
            f = os.path.join(d, "x.fits")
            new.build(nmt).write_to(f)
            spec = new
            w.read_from(f)
        elif op == "query":
            p = spec.probe(nmt, w)
            for v in p.values():
                if isinstance(v, np.ndarray):
                    v[:] = 9.
        else:
            M.seen("refused operations")
            M.raises("refused/read", lambda: w.read_from(
                os.path.join(d, "none.fits")))
            a, b = cls(rng), cls(rng)
            if kind in ("wsp-flat", "cov-flat") and (
                    a.F.shape != b.F.shape or a.F.lx != b.F.lx):
                def fn():
                    if kind == "wsp-flat":
                        w.compute_coupling_matrix(
                            a.f1.build(nmt), b.f1.build(nmt),
                            a.bins.build(nmt))
                    else:
                        f = [x.build(nmt) for x in a.fs[:2]+b.fs[:2]]
                        w.compute_coupling_coefficients(
                            f[0], f[1], a.bins.build(nmt), f[2], f[3],
                            a.bins.build(nmt))
                M.raises("refused/sizes", fn)
        hist.append(op)
        if not sparse or i == n-1:
            fresh = spec.build(nmt)
            M.seen("twins")
            objs.compare(M, kind+"-"+op, spec.probe(nmt, w),
                         spec.probe(nmt, fresh), 1e-10)
    M.state(kind, tuple(hist))

