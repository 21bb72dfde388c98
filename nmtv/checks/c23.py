"""C23: defaults and transform back-ends act as documented."""
import os
import pickle
import random
import shutil
import subprocess
import sys
import tempfile

import numpy as np

from nmtv import gen, objs, world
from nmtv.objs import quiet

RULE = ("Random histories of valid and invalid changes of the default "
        "iteration numbers, tolerance and transform back-end, interleaved "
        "with every consumer of them (fields with templates, purification "
        "or anisotropic masks, flat fields, deprojection biases, full "
        "estimates), each with a random subset of the settings given. "
        "The result must be that of the call with all settings given, made "
        "under other defaults; it must agree with reference transforms "
        "with those iteration numbers; earlier objects must not change; "
        "the getter must follow a model of the settings. All spherical "
        "objects are also built with either back-end and compared, and in "
        "a process where ducc cannot be imported.")
ASSUMPTIONS = ["the back-ends agree to the accuracy of double precision "
               "transforms (1e-9 before, 1e-6 after matrix inversion)"]
MIN_EVENTS = {"settings changed": 500, "settings refused": 500,
              "consumer calls": 500, "settings that matter": 300,
              "installations without ducc": 2,
              "back-ends compared": 500, "reference transforms": 200}
QUICK_ROUNDS = 4
VALID = dict(n=[0, 1, 2, 3, 5], nm=[0, 1, 2, 4],
             tol=[0, 1e-10, 1e-6, 1e-2, .3, .8, 1], calc=["ducc", "healpy"])
NAMES = dict(n="n_iter", nm="n_iter_mask", tol="tol_pinv")


def cases(seed, tier):
    r = random.Random("C23-%d" % seed)
    out = []
    for i in range(900):
        out.append(dict(kind="history", seed=r.randrange(1 << 30),
                        pix="hpx" if i % 3 else "car"))
    for i in range(120):
        out.append(dict(kind="backends", seed=r.randrange(1 << 30)))
    for i in range(3 if tier == "quick" else 20):
        out.append(dict(kind="noducc", seed=r.randrange(1 << 30)))
    return out


def put(nmt, st):
    nmt.set_sht_calculator(st["calc"])
    nmt.set_n_iter_default(st["n"])
    nmt.set_n_iter_default(st["nm"], mask=True)
    nmt.set_tol_pinv_default(st["tol"])


def getter(M, nmt, st, key):
    p = nmt.get_default_params()
    want = dict(sht_calculator=st["calc"], n_iter_default=st["n"],
                n_iter_mask_default=st["nm"], tol_pinv_default=st["tol"])
    M.true("getter/"+key, p == want, "%s instead of %s" % (p, want))
    p["n_iter_default"] = 77      # a copy
    p.clear()


BAD = [("calc", x) for x in ("none", "DUCC", "", None, 3, "duccx")] + \
    [("n", x) for x in (-1, -.5, "a", None, float("nan"), float("inf"),
                        -2**40, [1, 2])] + \
    [("nm", x) for x in (-1, -.5, "a", None, float("nan"), -3)] + \
    [("tol", x) for x in (-1e-3, 1.1, float("nan"), float("inf"), "x", None,
                          -float("inf"), 1j)]


def change(nmt, k, v):
    if k == "calc":
        nmt.set_sht_calculator(v)
    elif k == "tol":
        nmt.set_tol_pinv_default(v)
    elif k == "nm":
        nmt.set_n_iter_default(v, mask=True)
    else:
        nmt.set_n_iter_default(v)


# ----------------------------------------------------------------- consumers
def p_field(nmt, f):
    d = {}
    for k, g in (("alm", f.get_alms), ("mask-alm", f.get_mask_alms),
                 ("maps", f.get_maps), ("templates", f.get_templates)):
        v = quiet(g)
        d[k] = "nothing" if v is None else (
            v if isinstance(v, str) else np.array(v))
    if f.anisotropic_mask:
        d["aniso"] = np.array(f.get_anisotropic_mask_alms())
    return d


class Scene(object):
    def __init__(self, rng, nmt, pix, near=True):
        self.rng, self.nmt = rng, nmt
        self.sky = sky = world.Sky(rng, pix=pix,
                                    crop=rng.random() < .3)
        sky.lmax_mask = max(6, sky.lmax_mask)
        # nearly degenerate templates: every tolerance matters
        self.specs = [
            world.FieldSpec(rng, sky, spin=0, temps=3),
            world.FieldSpec(rng, sky, spin=int(rng.choice([1, 2, 3])),
                            temps=2),
            world.FieldSpec(rng, sky, spin=2, pure=True, temps=2),
            world.FieldSpec(rng, sky, spin=2, aniso=True),
            world.FieldSpec(rng, sky, spin=0),
            world.FieldSpec(rng, sky, spin=2)]
        for s in self.specs[:3] if near else []:
            s.temps[1] = s.temps[0]+10**rng.uniform(-6, 0)*s.temps[1]
        self.b = world.BinSpec(rng, sky.lmax, plain=True).build(nmt)
        f = self.specs
        self.A = f[0].build(nmt, n_iter=1, n_iter_mask=1, tol_pinv=1e-10)
        self.B = f[1].build(nmt, n_iter=1, n_iter_mask=1, tol_pinv=1e-10)
        self.P = f[2].build(nmt, n_iter=1, n_iter_mask=1, tol_pinv=1e-10)
        self.clg = {(a, b): rng.uniform(1, 2, size=(a*b, sky.lmax+1))
                    for a in (1, 2) for b in (1, 2)}
        n = int(rng.integers(8, 13))
        self.fmask = rng.uniform(.2, 1, (n, n+2))
        self.ftemp = rng.normal(size=(3, 1, n, n+2))
        self.ftemp[1] = self.ftemp[0]+10**rng.uniform(-5, 0)*self.ftemp[1]
        self.fmap = rng.normal(size=(1, n, n+2))
        self.var = np.abs(rng.normal(size=sky.shape))
        self.wsp = {}

    def consumers(self):
        return ["field0", "field1", "field2", "field3", "field4", "field5",
                "flat", "bias", "bias-self", "uncorr", "master", "fixed"]

    def settings(self, name):
        if name.startswith("field"):
            return ["n", "nm", "tol"]
        if name == "flat":
            return ["tol"]
        if name in ("master", "fixed"):
            return []
        return ["n"]

    def call(self, name, st):
        nmt = self.nmt
        kw = {NAMES[k]: v for k, v in st.items()}
        if name.startswith("field"):
            s = self.specs[int(name[5:])]
            for k in ("n_iter", "n_iter_mask", "tol_pinv"):
                kw.setdefault(k, None)
            f = s.build(nmt, **kw)
            return f, p_field(nmt, f)
        if name == "flat":
            f = nmt.NmtFieldFlat(.2, .2, self.fmask, self.fmap,
                                 templates=self.ftemp, **kw)
            return f, dict(maps=f.get_maps())
        if name.startswith("bias"):
            g = self.B if name == "bias" else self.A
            cl = self.clg[1, 1 if g is self.A else 2]
            return None, dict(v=nmt.deprojection_bias(self.A, g, cl, **kw))
        if name == "uncorr":
            return None, dict(v=nmt.uncorr_noise_deprojection_bias(
                self.B, self.var, **kw))
        if name == "fixed":
            return None, self.fixed()
        if name == "master":
            return None, dict(v=quiet(lambda: nmt.compute_full_master(
                self.A, self.B, self.b, cl_guess=self.clg[1, 2],
                workspace=self.workspace())))

    def fixed(self):
        """Calls that have no iterations or tolerance to set."""
        nmt, sky = self.nmt, self.sky
        d = {}
        if sky.pix == "hpx":
            d["smooth"] = nmt.mask_apodization(
                (sky.angles()[0] < 2.2)*1., 12., apotype="Smooth")
        ns = getattr(sky, "nside", 4)
        d["synfast"] = nmt.synfast_spherical(
            ns, self.clg[2, 2][:3], [0, 0], seed=5)
        th, ph = [np.ravel(x)[::3] for x in sky.angles()]
        g = nmt.NmtFieldCatalog(
            [th, np.mod(ph, 2*np.pi)], 1+np.cos(th)**2,
            [np.cos(3*ph), np.sin(th)], sky.lmax, lmax_mask=sky.lmax_mask,
            spin=2)
        d["cat-alm"], d["cat-mask"] = g.get_alms(), g.get_mask_alms()
        # mask products are transformed like the masks
        one = np.ones((1, sky.lmax+1))
        w = nmt.NmtWorkspace.from_fields(self.A, self.A, self.b)
        d["cov"] = nmt.gaussian_covariance(
            nmt.NmtCovarianceWorkspace.from_fields(self.A, self.A),
            0, 0, 0, 0, one, one, one, one, w, coupled=True)
        return d

    def workspace(self):
        if not self.wsp:
            self.wsp["w"] = self.nmt.NmtWorkspace.from_fields(
                self.A, self.B, self.b)
        return self.wsp["w"]

    def master(self, n):
        """The estimate with the iterations of the bias given."""
        nmt = self.nmt
        cl = self.clg[1, 2]
        bias = nmt.deprojection_bias(self.A, self.B, cl, n_iter=n)
        pcl = nmt.compute_coupled_cell(self.A, self.B)
        return dict(v=quiet(lambda: self.workspace().decouple_cell(
            pcl, cl_bias=bias)))


def run(c, M):
    import pymaster as nmt
    d = tempfile.mkdtemp(prefix="nmtv-c23-")
    try:
        dict(history=history, backends=backends, noducc=noducc)[c["kind"]](c, M, nmt, d)
    finally:
        put(nmt, dict(calc="ducc", n=3, nm=3, tol=1e-10))
        shutil.rmtree(d, ignore_errors=True)


def history(c, M, nmt, d):
    rng = gen.rng_of(c)
    r = random.Random(c["seed"])
    sc = Scene(rng, nmt, c["pix"])
    st = dict(calc="ducc", n=3, nm=3, tol=1e-10)
    getter(M, nmt, st, "start")
    alive = []
    for step in range(14):
        x = r.random()
        if x < .35:
            k = r.choice(sorted(VALID))
            v = r.choice(VALID[k])
            if k == "calc" and c["pix"] == "car" and v == "healpy":
                healpy_car(M, nmt, sc, st)
                continue
            change(nmt, k, v)
            st[k] = v
            M.seen("settings changed")
            getter(M, nmt, st, "after-"+k)
        elif x < .6:
            k, v = r.choice(BAD)
            M.seen("settings refused")
            M.raises("accepted/%s" % k, lambda: change(nmt, k, v), Exception,
                     "%s = %r" % (k, v))
            M.state("refused", k, repr(v))
            getter(M, nmt, st, "after-refusal")
            put(nmt, st)    # whatever happened, go on from here
        else:
            consume(M, nmt, sc, st, r, alive)
    for f, before, lab in alive:
        objs.compare(M, "earlier/"+lab, p_field(nmt, f), before, 1e-9)
        M.seen("earlier objects")
    M.state("history", c["pix"], *sorted((k, repr(v)) for k, v in st.items()))


def consume(M, nmt, sc, st, r, alive):
    name = r.choice(sc.consumers())
    ks = sc.settings(name)
    over = {k: r.choice(VALID[k]) for k in ks if r.random() < .35}
    eff = {k: over.get(k, st[k]) for k in ks}
    M.seen("consumer calls")
    f, got = sc.call(name, over)
    decoy = dict(st)
    for k in ("n", "nm", "tol"):
        decoy[k] = r.choice([x for x in VALID[k]
                             if x != st[k] and x != eff.get(k)])
    put(nmt, decoy)
    try:
        if name == "master":
            want = sc.master(st["n"])
            other = sc.master(decoy["n"])
        else:
            want = sc.call(name, eff)[1]
            other = sc.call(name, {})[1]
    finally:
        put(nmt, st)
    objs.compare(M, "defaults/"+name, got, want, 1e-10)
    M.state(name, sorted(over), st["calc"])
    if any(not isinstance(want[k], str) and not np.allclose(
            want[k], other[k], rtol=1e-7,
            atol=1e-7*np.max(np.abs(want[k]))) for k in want
           if np.shape(want[k]) == np.shape(other[k])):
        M.seen("settings that matter")
    getter(M, nmt, st, "after-call")
    if name.startswith("field"):
        reference(M, sc, int(name[5:]), eff, got)
        g = sc.call(name, over)[0]   # nothing computed before the others
        alive.append((g, got, name))


def reference(M, sc, i, eff, got):
    """The iteration numbers are those of the transforms."""
    s = sc.specs[i]
    T = world.Trans(sc.sky)
    lm = sc.sky.lmax_mask
    M.seen("reference transforms")
    mask = s.mask if s.aniso is None else .5*(s.mask+s.aniso[0])
    M.close("reference/mask-alm", np.squeeze(got["mask-alm"]),
            T.analysis(mask[None], 0, lm, eff["nm"])[0], rtol=1e-9)
    if s.temps is None and s.aniso is None and not any(s.pure):
        want = T.analysis(s.maps*s.mask, s.spin, sc.sky.lmax, eff["n"])
        M.close("reference/alm", got["alm"], want, rtol=1e-9)


def healpy_car(M, nmt, sc, st):
    """Rectangular pixels need ducc: refused, without trace."""
    nmt.set_sht_calculator("healpy")
    M.seen("healpy refused")
    M.raises("healpy-car", lambda: sc.specs[4].build(nmt), Exception,
             "healpy transforms of a rectangular map")
    nmt.set_sht_calculator(st["calc"])
    getter(M, nmt, st, "healpy-car")


# ------------------------------------------------------------------ back-ends
def backends(c, M, nmt, d):
    res = []
    for k in ("ducc", "healpy"):
        nmt.set_sht_calculator(k)
        res.append(products(c, nmt))
    compare(M, "backends", *res)
    M.state("backends", *(np.shape(res[0]["field0/mask-alm"])))


def compare(M, tag, a, b):
    M.true(tag+"/queries", sorted(a) == sorted(b))
    for k in sorted(a):
        M.seen("back-ends compared")
        t = 1e-6 if any(x in k for x in ("dec", "win")) else 1e-9
        objs.compare(M, tag, {k: b[k]}, {k: a[k]}, t)


def products(c, nmt):
    """Everything that a back-end has part in."""
    rng = gen.rng_of(c)
    sc = Scene(rng, nmt, "hpx", near=False)
    sky = sc.sky
    out = {}
    fs = [s.build(nmt) for s in sc.specs]
    for i, f in enumerate(fs):
        for q, v in p_field(nmt, f).items():
            out["field%d/%s" % (i, q)] = v
    one = {x: np.ones((x, sky.lmax+1)) for x in (1, 2, 4)}
    for i, j in ((0, 0), (0, 1), (1, 2), (2, 2), (4, 5), (3, 3)):
        t = "%d%d/" % (i, j)
        out[t+"pcl"] = nmt.compute_coupled_cell(fs[i], fs[j])
        w = nmt.NmtWorkspace.from_fields(fs[i], fs[j], sc.b)
        out[t+"mcm"] = w.get_coupling_matrix()
        out[t+"win"] = quiet(w.get_bandpower_windows)
        n = fs[i].nmaps*fs[j].nmaps
        if i < 2 and j < 2:
            out[t+"bias"] = nmt.deprojection_bias(fs[i], fs[j], one[n])
    out["uncorr"] = nmt.uncorr_noise_deprojection_bias(fs[1], sc.var)
    cw = nmt.NmtCovarianceWorkspace.from_fields(fs[4], fs[4])
    w = nmt.NmtWorkspace.from_fields(fs[4], fs[4], sc.b)
    out["cov"] = nmt.gaussian_covariance(cw, 0, 0, 0, 0, *([one[1]]*4), w,
                                         coupled=True)
    n = int(rng.integers(1, 4))
    sp = [int(rng.choice([0, 1, 2, 3])) for _ in range(n)]
    m = sum(1+(s > 0) for s in sp)
    cl = np.zeros((m, m, sky.lmax+1))
    cl[np.arange(m), np.arange(m)] = rng.uniform(
        1, 2, (m, sky.lmax+1))
    cl = cl[np.triu_indices(m)]
    mp = nmt.synfast_spherical(sky.nside, cl, sp, seed=17)
    out["synfast"] = mp
    mk = (np.arange(sky.npix) % 5 > 0)*1.
    out["apod"] = nmt.mask_apodization(mk, 20., apotype="Smooth")
    return out


# ------------------------------------------------------------ without ducc
HIDDEN = """
import pickle, sys
from nmtv import calls, world, objs, ref
from nmtv.checks import c23
for k in list(sys.modules):
    if k.split(".")[0] in ("ducc0", "pymaster", "_nmtlib"):
        sys.modules.pop(k)
sys.modules["ducc0"] = None
import pymaster as nmt
c = pickle.loads(bytes.fromhex(sys.argv[1]))
out = c23.without(c, nmt)
with open(sys.argv[2], "wb") as f:
    pickle.dump(out, f)
"""


def without(c, nmt):
    """In a process that has no ducc."""
    import warnings
    warnings.simplefilter("ignore")
    d = {"default": nmt.get_default_params()["sht_calculator"]}
    rng = gen.rng_of(c)
    car = Scene.__new__(Scene)
    car.sky = world.Sky(rng, pix="car")
    car.spec = world.FieldSpec(rng, car.sky, spin=0)
    pos = np.array([np.arccos(rng.uniform(-1, 1, 20)),
                    rng.uniform(0, 2*np.pi, 20)])
    one = np.ones(20)
    for k, f in (
            ("set", lambda: nmt.set_sht_calculator("ducc")),
            ("car", lambda: car.spec.build(nmt)),
            ("catalog", lambda: nmt.NmtFieldCatalog(pos, one, one, 8)),
            ("clustering", lambda: nmt.NmtFieldCatalogClustering(
                pos, one, pos, one, 8))):
        try:
            f()
            d[k] = "accepted"
        except Exception as e:
            d[k] = type(e).__name__
    d["after"] = nmt.get_default_params()["sht_calculator"]
    d["products"] = products(c, nmt)
    return d


def noducc(c, M, nmt, d):
    nmt.set_sht_calculator("healpy")
    want = products(c, nmt)
    f = os.path.join(d, "out")
    env = dict(os.environ, PYTHONPATH=os.pathsep.join(x for x in sys.path
                                                      if x))
    r = subprocess.run([sys.executable, "-c", HIDDEN, pickle.dumps(c).hex(),
                        f], env=env, capture_output=True, text=True,
                       timeout=120)
    if r.returncode:
        return M.fail("no-ducc/failure", r.stderr[-800:])
    M.seen("installations without ducc")
    with open(f, "rb") as g:
        got = pickle.load(g)
    for k in ("default", "after"):
        M.true("no-ducc/"+k, got[k] == "healpy", repr(got[k]))
    for k in ("set", "car", "catalog", "clustering"):
        M.true("no-ducc/"+k, got[k] != "accepted", "without ducc")
    compare(M, "no-ducc", want, got["products"])
    M.state("no-ducc", got["set"], got["car"], got["catalog"])
