"""C05: workspaces survive a save and reload."""
import os
import random
import shutil
import tempfile

import numpy as np

from nmtv import flat, gen, objs, rt, world
from nmtv.checks import c03

RULE = ("Random workspaces of the four kinds (all normalisations, T-E-B, "
        "purified, anisotropic, Toeplitz, overlapping bands, cuts, spin-0 "
        "only) after random updates are written to FITS, read back through "
        "every reader (new object, reused object, partial read), and every "
        "query is compared with the object in memory, then after each "
        "further random update and save. Truncated files must give the same "
        "results or an error; foreign, missing, empty and directory paths "
        "and writes that cannot complete must give errors, leaving objects "
        "as they were.")
ASSUMPTIONS = ["reloaded numbers may differ by rounding (1e-12)"]
MIN_EVENTS = {"reloads": 80, "queries compared": 500, "later steps": 50,
              "bad files": 60, "partial reads": 8}
QUICK_ROUNDS = 15


def cases(seed, tier):
    r = random.Random("C05-%d" % seed)
    n = 900 if tier == "thorough" else 160
    k = ["life", "life", "life", "bad", "trunc", "partial", "old", "write"]
    out = []
    for i in range(n):
        kind = k[i % len(k)]
        out.append(dict(kind=kind, obj=r.choice(
            ["wsp", "wsp", "wsp-flat", "cov", "cov-flat"]),
            seed=r.randrange(1 << 30)))
        if i % 80 == 0:
            out[-1].update(kind="big")
    return out


def run(c, M):
    import pymaster as nmt
    rng = gen.rng_of(c)
    d = tempfile.mkdtemp(prefix="nmtv-c05-")
    try:
        globals()["k_"+c["kind"]](nmt, M, rng, d, c["obj"])
    finally:
        shutil.rmtree(d, ignore_errors=True)


def name(rng, d):
    """A file name of varying form."""
    n = ["w.fits", "w", "a b.fits", "w-1_2.fits", "\u00e9t\u00e9.fits",
         "x"*120+".fits", "w.fits.gz"][int(rng.integers(7))]
    sub = os.path.join(d, "s"*int(rng.integers(1, 90)))
    os.makedirs(sub, exist_ok=True)
    return os.path.join(sub, n)


def read_new(nmt, kind, f, rng, **kw):
    """Every way of getting a stored object from a file."""
    cl = {"wsp": nmt.NmtWorkspace, "wsp-flat": nmt.NmtWorkspaceFlat,
          "cov": nmt.NmtCovarianceWorkspace,
          "cov-flat": nmt.NmtCovarianceWorkspaceFlat}[kind]
    way = int(rng.integers(4))
    if kind.endswith("flat") or way == 0:
        w = cl()
        w.read_from(f, **kw)
        return w
    if way == 1:
        return cl.from_file(f, **kw)
    if way == 2:
        return cl(fname=f, **kw)
    s = objs.FILES[kind](rng)     # over another object's contents
    w = s.build(nmt)
    w.read_from(f, **kw)
    return w


def k_big(nmt, M, rng, d, kind):
    """As `life`, with hundreds of rows in the stored matrices."""
    if kind == "wsp-flat":
        spec = objs.WspFlat(rng, F=flat.rand_flat(rng, 30, 40))
        F = spec.F
        spec.bins = objs.BinsFlat(rng, F)
        e = np.linspace(.3*F.dell, F.kx.max(), 41)
        spec.bins.l0, spec.bins.lf = e[:-1], e[1:]
        spec.bins.n = 40
        spec.cx = spec.cy = [1., -1.]
        spec.pcl, spec.noi = rng.normal(size=(2, spec.ncls, 40))
    elif kind == "wsp":
        spec = objs.Wsp(rng, sky=world.Sky(rng, small="big"))
        if spec.flavour != "overlap":
            spec.bs = c03.singles(rng, spec.sky.lmax)
    else:
        return k_life(nmt, M, rng, d, kind)
    k_life(nmt, M, rng, d, kind, spec)


def k_life(nmt, M, rng, d, kind, spec=None):
    big = spec is not None
    spec = spec or objs.FILES[kind](rng)
    w = spec.build(nmt)
    if big and kind == "wsp" and rng.random() < .6:
        # far from diagonal, so that the rows are exchanged
        n = spec.ncls*(spec.sky.lmax+1)
        w.update_coupling_matrix(np.eye(n)+.3*rng.normal(size=(n, n)))
    M.state(kind, getattr(spec, "flavour", ""), getattr(spec, "spin0", ""))
    hist = []
    if kind == "wsp":
        for _ in range(int(rng.integers(0, 3))):
            hist.append(spec.step(nmt, rng, [w]))
    if rng.random() < .3:
        spec.probe(nmt, w)
    f = name(rng, d)
    want = spec.probe(nmt, w)
    w.write_to(f)
    objs.compare(M, "original-after-write", spec.probe(nmt, w), want, None)
    if rng.random() < .3:   # overwrite an existing file
        w.write_to(f)
    r = read_new(nmt, kind, f, rng)
    M.seen("reloads")
    objs.compare(M, "reloaded", spec.probe(nmt, r), want, 1e-11)
    ws = [w, r]
    for _ in range(int(rng.integers(1, 4))):
        M.seen("later steps")
        op = int(rng.integers(3))
        if op == 0 and kind == "wsp":
            hist.append(spec.step(nmt, rng, ws))
        elif op == 1:
            hist.append("save")
            f2 = name(rng, d)
            r.write_to(f2)
            r2 = read_new(nmt, kind, f2, rng)
            M.seen("reloads")
            if rng.random() < .5:
                ws.append(r2)
            else:
                ws = [w, r2]
        else:
            hist.append("use")
            use(nmt, M, rng, spec, ws)
        want = spec.probe(nmt, ws[0])
        for x in ws[1:]:
            same_answers(M, spec, "later", spec.probe(nmt, x), dict(want),
                         1e-10)
        r = ws[-1]
    M.state(kind, tuple(hist))


def dependent(spec):
    """Bands that are combinations of each other have no inverse: what the
    rounding of their weights makes of it is not specified."""
    if spec.kind != "wsp":
        return False
    A = np.zeros((len(spec.bs.bands), spec.sky.lmax+1))
    for i, b in enumerate(spec.bs.bands):
        ok = b[0] <= spec.sky.lmax
        np.add.at(A[i], b[0][ok], b[1][ok])
    s = np.linalg.svd(A/np.sqrt(np.sum(A**2, axis=1))[:, None],
                      compute_uv=False)
    return s.min() < 1e-6 or len(A) > A.shape[1]


def same_answers(M, spec, tag, got, want, rtol):
    if dependent(spec):
        M.seen("comparisons without inverse")
        for k in ("dec", "dec2", "win"):
            got.pop(k)
            want.pop(k)
    objs.compare(M, tag, got, want, rtol)


def use(nmt, M, rng, spec, ws):
    """Other functions taking the workspace."""
    res = []
    if dependent(spec):
        return
    if spec.kind == "wsp":
        spec.new_inputs(rng)
        s1, s2 = spec.s1, spec.s2
        f = [s.build(nmt, maps=s.maps) for s in (s1, s2)]
        if spec.flavour in ("master", "fkp", "overlap", "toeplitz",
                            "aniso"):
            for w in ws:
                res.append(objs.quiet(lambda: nmt.compute_full_master(
                    f[0], f[1], workspace=w)))
    elif spec.kind == "wsp-flat" and not spec.teb:
        f1, f2 = spec.fields(nmt)
        for w in ws:
            res.append(objs.quiet(lambda: nmt.compute_full_master_flat(
                f1, f2, spec.bins.build(nmt), workspace=w,
                ell_cut_x=list(spec.cx), ell_cut_y=list(spec.cy))))
        cl = np.ones((spec.ncls, 37))*rng.random((spec.ncls, 1))
        for w in ws:
            res.append(objs.quiet(lambda: nmt.deprojection_bias_flat(
                f1, f2, spec.bins.build(nmt), spec.ls, cl,
                ell_cut_x=list(spec.cx), ell_cut_y=list(spec.cy))))
        res = res[:len(ws)]
    for x in res[1:]:
        objs.compare(M, "use", {"full-master": x}, {"full-master": res[0]},
                     1e-10)


def k_partial(nmt, M, rng, d, kind):
    if kind in ("cov", "cov-flat"):
        spec = objs.Cov(rng)
        w = spec.build(nmt)
        f = name(rng, d)
        w.write_to(f)
        r = read_new(nmt, "cov", f, rng, force_spin0_only=True)
        M.seen("partial reads")
        # scalar covariances are available and equal, others refused
        L = spec.sky.lmax
        b = spec.bs.build(nmt)
        f0 = [x.build(nmt) for x in spec.fs]
        wa = nmt.NmtWorkspace.from_fields(f0[0], f0[1], b)
        wb = nmt.NmtWorkspace.from_fields(f0[2], f0[3], b)
        a = [nmt.gaussian_covariance(x, 0, 0, 0, 0, *spec.cl0, wa, wb,
                                     coupled=rng.random() < 0)
             for x in (w, r)]
        M.close("partial-cov", a[1], a[0], rtol=1e-11)
        if any(spec.s) or not spec.spin0:
            s = spec.s if any(spec.s) else [2, 0, 0, 0]
            nm = [2 if x else 1 for x in s]
            cl = [np.ones((nm[i]*nm[j], L+1)) for i in (0, 1)
                  for j in (2, 3)]
            wx = spec.workspaces(nmt) if any(spec.s) else [wa, wb]
            M.raises("partial-cov-refusal", lambda: nmt.gaussian_covariance(
                r, *s, *cl, *wx), msg="spins %s" % (s,))
        f2 = name(rng, d)
        r.write_to(f2)
        r2 = read_new(nmt, "cov", f2, rng)
        a2 = nmt.gaussian_covariance(r2, 0, 0, 0, 0, *spec.cl0, wa, wb)
        M.close("partial-cov-resaved", a2, a[0], rtol=1e-11)
        return
    spec = objs.Wsp(rng)
    w = spec.build(nmt)
    if rng.random() < .5:
        spec.step(nmt, rng, [w])
    f = name(rng, d)
    w.write_to(f)
    r = read_new(nmt, "wsp", f, rng, read_unbinned_MCM=False)
    M.seen("partial reads")
    M.state("partial", spec.flavour)

    def check():
        p, q = spec.probe(nmt, r), spec.probe(nmt, w)
        for k in ("dec", "dec2"):
            objs.compare(M, "partial", {k: p[k]}, {k: q[k]}, 1e-11)
        L = spec.sky.lmax+1
        bins = world.BinSpec(rng, L-1).build(nmt)
        for k, fn in dict(
                mcm=r.get_coupling_matrix,
                couple=lambda: r.couple_cell(spec.th),
                windows=r.get_bandpower_windows,
                beams=lambda: r.update_beams(np.ones(L), np.ones(L)),
                bins=lambda: r.update_bins(bins),
                matrix=lambda: r.update_coupling_matrix(
                    np.eye(spec.ncls*L)),
                write=lambda: r.write_to(os.path.join(d, "p.fits"))).items():
            M.raises("partial-refusal/"+k, fn)
        p2 = spec.probe(nmt, r)
        for k in ("dec", "dec2"):
            objs.compare(M, "partial-after-refusal", {k: p2[k]}, {k: p[k]},
                         None)
    check()
    if rng.random() < .5:
        spec.new_inputs(rng)
        check()
    # complete it again
    if rng.random() < .5:
        r.read_from(f)
        objs.compare(M, "completed", spec.probe(nmt, r), spec.probe(nmt, w),
                     1e-11)
    else:
        s2 = objs.Wsp(rng)
        f1, f2 = s2.fields(nmt)
        r.compute_coupling_matrix(f1, f2, s2.bs.build(nmt), **s2.kw)
        objs.compare(M, "recomputed", s2.probe(nmt, r),
                     s2.probe(nmt, s2.build(nmt)), 1e-11)


def foreign(nmt, rng, d, kind):
    """(label, path) of files this kind of object cannot be read from."""
    def p(n):
        return os.path.join(d, n)
    out = [("missing", p("nothing.fits")), ("directory", d),
           ("no-directory", os.path.join(d, "no", "file.fits"))]
    with open(p("empty.fits"), "wb"):
        pass
    out.append(("empty", p("empty.fits")))
    with open(p("text.fits"), "w") as o:
        o.write("SIMPLE this is not a FITS file\n"*100)
    out.append(("text", p("text.fits")))
    with open(p("rand.fits"), "wb") as o:
        o.write(rng.bytes(8640))
    out.append(("noise", p("rand.fits")))
    from astropy.io import fits
    fits.PrimaryHDU(rng.normal(size=(4, 4))).writeto(p("img.fits"))
    out.append(("image", p("img.fits")))
    for k, s in objs.FILES.items():
        if k != kind:
            s(rng).build(nmt).write_to(p(k+".fits"))
            out.append(("kind-"+k, p(k+".fits")))
    out.append(("nul", "a\0b"))
    out.append(("type", 7))
    return out


def drop_hdu(src, dst, i):
    from astropy.io import fits
    with fits.open(src) as h:
        h = fits.HDUList([x.copy() for x in h])
        del h[i]
        h.writeto(dst, overwrite=True, output_verify="ignore")


NUMBERS = {    # sizes and indices that contradict the rest of the file
    "wsp": [("WSP_PRIMARY", "LMAX", [-1, -2, "+1", "-1", 10**6]),
            ("WSP_PRIMARY", "LMAX_FIELDS", ["lmax-1", -1]),
            ("WSP_PRIMARY", "LMAX_MASK", [-1, "+1", "-1", 10**6]),
            ("WSP_PRIMARY", "NCLS", [0, -1, "+1", "-1", 8, 1000]),
            ("BANDPOWERS", "N_BANDS", [0, -1, "+1", "-1", 10**6]),
            ("BANDPOWERS", "ELL_MAX", [-1, -5]),
            ("BANDPOWERS", "column:BAND", ["n", 10**6]),
            ("BANDPOWERS", "column:ELLS", [-1, -10**6]),
            ("MCM_PERM", "data", [-1, "n", 10**6]),
            ("BEAMS", "rows", [-1, 1]), ("PCL_MASKS", "rows", [-1, 1])],
    "wsp-flat": [("WSP_PRIMARY", "NCLS", [0, -1, "+1", "-1", 8]),
                 ("FS_INFO", "NX", [0, -3, "+1"]),
                 ("FS_INFO", "NY", [0, -3, "+1"]),
                 ("FS_INFO", "NPIX", ["+1", 0]),
                 ("FS_INFO", "LX", [-1., 0.]), ("FS_INFO", "LY", [-1., 0.]),
                 ("FS_INFO", "DELL", [-1., 0.]),
                 ("FS_INFO", "I_DELL", [-1., 0.]),
                 ("MCM_PERM", "data", [-1, "n", 10**6]),
                 ("BINS_SUMMARY", "rows", [-1, 1]),
                 ("N_CELLS", "rows", [-1, 1])],
    "cov": [("CWSP_PRIMARY", "LMAX", [-1, -2, "+1", "-1", 10**6])],
    "cov-flat": [("BINS_SUMMARY", "rows", [-1, 1])],
    "old": [("BINS_SUMMARY", "N_BANDS", [0, -1, "+1", "-1"]),
            ("BINS_SUMMARY", "ELL_MAX", [-1]),
            ("BINS_SUMMARY", "column:N", [-1, 10**6, "+1"]),
            ("BINS_SUMMARY", "rows", [-1, 1]),
            ("BINS_BAND_1", "column:ELLS", [-1]),
            ("BINS_BAND_1", "rows", [-1, 1])],
}


def spoil(rng, src, dst, kind):
    """A copy with one number changed; (what was changed)."""
    from astropy.io import fits
    with fits.open(src) as h:
        h = fits.HDUList([x.copy() for x in h])
        hdu, what, vals = NUMBERS[kind][int(rng.integers(
            len(NUMBERS[kind])))]
        v = vals[int(rng.integers(len(vals)))]
        i = [x.name for x in h].index(hdu)

        def value(old, n):
            return {"+1": old+1, "-1": old-1, "n": n,
                    "lmax-1": h[0].header.get("LMAX", 0)-1}.get(v, v)
        if what == "rows":
            x = h[i].data
            x = x[:-1] if v < 0 else np.concatenate([x, x[-1:]])
            h[i] = fits.BinTableHDU(x, header=h[i].header, name=hdu)
        elif what == "data":
            x = np.array(h[i].data)
            x[int(rng.integers(len(x)))] = value(0, len(x))
            h[i].data = x
        elif what.startswith("column:"):
            x = h[i].data[what[7:]]
            j = int(rng.integers(len(x)))
            # (entries of the null band are not looked at)
            if what == "column:ELLS" and "BAND" in h[i].columns.names:
                j = int(rng.choice(np.flatnonzero(h[i].data["BAND"] >= 0)))
            x[j] = value(int(x[j]), h[i].header.get("N_BANDS", 0))
        else:
            h[i].header[what] = value(h[i].header[what], 0)
        h.writeto(dst, overwrite=True, output_verify="ignore")
    return "%s-%s-%s" % (hdu, what, v)


def k_bad(nmt, M, rng, d, kind):
    spec = objs.FILES[kind](rng)
    w = spec.build(nmt)
    other = objs.FILES[kind](rng)
    o = other.build(nmt)
    want = other.probe(nmt, o)
    files = foreign(nmt, rng, d, kind)
    f = os.path.join(d, "good.fits")
    w.write_to(f)
    from astropy.io import fits
    with fits.open(f) as h:
        n, names = len(h), [x.name for x in h]
    for i in range(1, n):
        g = os.path.join(d, "drop%d.fits" % i)
        drop_hdu(f, g, i)
        files.append(("without-"+names[i], g))
    # (plus well-formed files whose parts do not belong together)
    if kind == "wsp":
        s2 = objs.Wsp(rng)
        g = os.path.join(d, "second.fits")
        s2.build(nmt).write_to(g)
        with fits.open(f) as a, fits.open(g) as b:
            for i in range(1, n):
                k = [x[i].header.get(y) for x in (a, b)
                     for y in ("N_BANDS", "ELL_MAX")]
                if k[0] is not None and k[:2] == k[2:]:
                    continue      # other bands, but as good as these
                if a[i].data.shape != b[i].data.shape:
                    h = fits.HDUList([x.copy() for x in a])
                    h[i] = b[i].copy()
                    x = os.path.join(d, "mix%d.fits" % i)
                    h.writeto(x, output_verify="ignore")
                    files.append(("mixed-"+names[i], x))
    for i in range(8):
        g = os.path.join(d, "spoiled%d.fits" % i)
        files.append((spoil(rng, f, g, kind), g))
    for lab, g in files:
        M.seen("bad files")
        M.state(kind, lab)
        M.raises("bad-file/%s/%s" % (kind, lab), lambda: o.read_from(g))
    objs.compare(M, "after-bad-files", other.probe(nmt, o), want, None)
    o.read_from(f)
    objs.compare(M, "good-after-bad", spec.probe(nmt, o), spec.probe(nmt, w),
                 1e-11)


def k_trunc(nmt, M, rng, d, kind):
    spec = objs.FILES[kind](rng)
    w = spec.build(nmt)
    f = os.path.join(d, "w.fits")
    w.write_to(f)
    want = spec.probe(nmt, w)
    data = open(f, "rb").read()
    g = os.path.join(d, "t.fits")
    nb = len(data)//2880
    cutp = [int(x) for x in rng.integers(0, len(data), size=6)]
    cutp += [2880*int(x) for x in rng.integers(0, nb, size=4)]
    cutp += [len(data)-1, len(data)-2880, len(data)-2881]
    for n in cutp:
        with open(g, "wb") as o:
            o.write(data[:n])
        M.seen("bad files")
        try:
            r = read_new(nmt, kind, g, rng)
        except Exception:
            M.seen("truncations refused")
            continue
        # nothing but padding may have been lost
        M.seen("truncations read")
        objs.compare(M, "truncated", spec.probe(nmt, r), want, 1e-11)


def k_write(nmt, M, rng, d, kind):
    """Writes that cannot complete end in an error."""
    import resource
    import signal
    spec = objs.FILES[kind](rng)
    w = spec.build(nmt)
    want = spec.probe(nmt, w)
    M.raises("write/no-directory", lambda: w.write_to(
        os.path.join(d, "no", "w.fits")))
    M.raises("write/type", lambda: w.write_to(3))
    f = os.path.join(d, "w.fits")
    w.write_to(f)
    size = os.path.getsize(f)
    os.remove(f)
    old = resource.getrlimit(resource.RLIMIT_FSIZE)
    sig = signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    try:
        for _ in range(4):
            # (cfitsio does not report what is lost on closing: the last
            # stdio buffer and the padding)
            lim = int(rng.integers(0, size-4096-2880))
            resource.setrlimit(resource.RLIMIT_FSIZE, (lim, old[1]))
            try:
                w.write_to(f)
                ok = True
            except Exception:
                ok = False
            finally:
                resource.setrlimit(resource.RLIMIT_FSIZE, old)
            M.seen("writes beyond the space left")
            M.true("write/no-space/"+kind, not ok, "no error although only "
                   "%d of %d bytes could be written" % (lim, size))
    finally:
        signal.signal(signal.SIGXFSZ, sig)
        resource.setrlimit(resource.RLIMIT_FSIZE, old)
    objs.compare(M, "after-failed-writes", spec.probe(nmt, w), want, None)
    w.write_to(f)
    objs.compare(M, "written-after-failure", spec.probe(
        nmt, read_new(nmt, kind, f, rng)), want, 1e-11)
    e = {"wsp": nmt.NmtWorkspace, "wsp-flat": nmt.NmtWorkspaceFlat,
         "cov": nmt.NmtCovarianceWorkspace,
         "cov-flat": nmt.NmtCovarianceWorkspaceFlat}[kind]()
    M.raises("write/empty-object", lambda: e.write_to(f))
    objs.compare(M, "file-intact", spec.probe(
        nmt, read_new(nmt, kind, f, rng)), want, 1e-11)


def old_layout(rng, spec, f, g):
    """Rewrite a workspace file with one table per band."""
    from astropy.io import fits
    b = spec.bs.bands
    cols = fits.ColDefs([
        fits.Column("N", "1J", array=[len(x[0]) for x in b])])
    h1 = fits.BinTableHDU.from_columns(cols, name="BINS_SUMMARY")
    h1.header["N_BANDS"] = len(b)
    h1.header["ELL_MAX"] = spec.sky.lmax
    new = [h1]
    for i, x in enumerate(b):
        new.append(fits.BinTableHDU.from_columns(fits.ColDefs([
            fits.Column("ELLS", "1J", array=x[0]),
            fits.Column("WEIGHTS", "1D", array=x[1]),
            fits.Column("F_ELL", "1D", array=x[2])]),
            name="BINS_BAND_%d" % (i+1)))
    with fits.open(f) as h:
        o = fits.HDUList([x.copy() for x in h if x.name != "BANDPOWERS"])
        if spec.flavour != "fkp" and rng.random() < .5:
            del o[0].header["NORM_TYPE"]
        o += new
        o.writeto(g)


def k_old(nmt, M, rng, d, kind):
    """The older file layouts (one table per band; no spin-0 flag)."""
    from astropy.io import fits
    spec = objs.FILES["cov"](rng)
    cw = spec.build(nmt)
    f, g = os.path.join(d, "c.fits"), os.path.join(d, "oldc.fits")
    cw.write_to(f)
    with fits.open(f) as h:
        h = fits.HDUList([x.copy() for x in h])
        if not h[0].header.pop("SPIN0_ONLY"):
            h.writeto(g)
            M.seen("old layouts")
            objs.compare(M, "old-layout-cov", spec.probe(nmt, read_new(
                nmt, "cov", g, rng)), spec.probe(nmt, cw), 1e-11)
    spec = objs.Wsp(rng)
    w = spec.build(nmt)
    f, g = os.path.join(d, "w.fits"), os.path.join(d, "old.fits")
    w.write_to(f)
    old_layout(rng, spec, f, g)
    for i in range(4):
        x = os.path.join(d, "spoiled.fits")
        lab = spoil(rng, g, x, "old")
        M.seen("bad files")
        M.raises("bad-file/old/"+lab, lambda: read_new(nmt, "wsp", x, rng))
    r = read_new(nmt, "wsp", g, rng)
    M.seen("reloads")
    M.seen("old layouts")
    same_answers(M, spec, "old-layout", spec.probe(nmt, r),
                 spec.probe(nmt, w), 1e-11)
    hist = spec.step(nmt, rng, [w, r])
    same_answers(M, spec, "old-layout-"+hist, spec.probe(nmt, r),
                 spec.probe(nmt, w), 1e-10)


assert rt
