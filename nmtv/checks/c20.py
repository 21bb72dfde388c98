"""C20: inputs are never modified and objects do not alias."""
import random
import shutil
import tempfile

import numpy as np

from nmtv import calls, gen, objs, rt

RULE = ("Every public call of the catalogue is made on random living objects "
        "with private copies of its arguments: argument bytes before and "
        "after, the same call with every array in another memory layout or "
        "number type, the results and all bystander objects after the "
        "arguments and the returned arrays have been overwritten, and the "
        "repeated call, are compared.")
ASSUMPTIONS = ["arrays returned by fields may be views of the field"]
MIN_EVENTS = {"calls": 500, "argument arrays": 1000, "layout variants": 1500,
              "arguments overwritten": 500, "results overwritten": 500,
              "queries compared": 5000}
QUICK_ROUNDS = 2
TOL = 1e-11


def cases(seed, tier):
    r = random.Random("C20-%d" % seed)
    ks = sorted(calls.KINDS)
    out = []
    for i in range(900 if tier == "thorough" else 400):
        k = r.sample(ks, 5)
        k[0] = ks[i % len(ks)]
        out.append(dict(kinds=k, seed=r.randrange(1 << 30)))
    return out


def private(x):
    if isinstance(x, np.ndarray):
        return x.copy()
    if isinstance(x, (list, tuple)):
        return type(x)(private(y) for y in x)
    if isinstance(x, dict):
        return {k: private(v) for k, v in x.items()}
    return x


def arrays(x, tag=""):
    if isinstance(x, np.ndarray):
        yield tag, x
    elif isinstance(x, (list, tuple)):
        for i, y in enumerate(x):
            yield from arrays(y, "%s[%d]" % (tag, i))
    elif isinstance(x, dict):
        for k, y in x.items():
            yield from arrays(y, "%s.%s" % (tag, k) if tag else str(k))


def mapped(x, f):
    if isinstance(x, np.ndarray):
        return f(x)
    if isinstance(x, (list, tuple)):
        return type(x)(mapped(y, f) for y in x)
    if isinstance(x, dict):
        return {k: mapped(v, f) for k, v in x.items()}
    return x


def strided(a):
    if a.ndim == 0:
        return a
    big = np.zeros(tuple(2*n for n in a.shape), a.dtype)
    v = big[tuple(slice(None, None, 2) for _ in a.shape)]
    v[...] = a
    return v


def reverse(a):
    s = tuple(slice(None, None, -1) for _ in a.shape)
    return a[s].copy()[s]


def frozen(a):
    a = a.copy()
    a.flags.writeable = False
    return a


def unaligned(a):
    buf = np.zeros(a.nbytes+1, np.uint8)
    v = buf[1:].view(a.dtype).reshape(a.shape) if a.size else a
    v[...] = a
    return v


def transposed(a):
    return a.T.copy().T


def swapped(a):
    return a.astype(a.dtype.newbyteorder())


def wide(a):
    return a.astype({"i": np.int64}.get(a.dtype.kind, a.dtype))


def narrow(a):
    return a.astype({"f": np.float32, "c": np.complex64,
                     "i": np.int16}.get(a.dtype.kind, a.dtype))


def whole(a):
    return np.round(4*a).astype(int) if a.dtype.kind == "f" else a.copy()


class Sub(np.ndarray):
    pass


def subclass(a):
    return a.copy().view(Sub)


LAYOUTS = dict(strided=strided, reverse=reverse, frozen=frozen,
               unaligned=unaligned, transposed=transposed, swapped=swapped,
               wide=wide, narrow=narrow,
               whole=whole, subclass=subclass)


def garbage(a):
    if not a.flags.writeable or a.size == 0:
        return False
    if a.dtype.kind in "fc":
        a[...] = np.nan
    elif a.dtype.kind in "iu":
        a[...] = 77
    else:
        return False
    return True


def raw(nmt, x):
    """Arrays an object hands out, as handed out (fields excluded)."""
    out = []
    if isinstance(x, nmt.NmtBin):
        out = [x.get_effective_ells(), x.get_nell_list()]
        for i in range(x.get_n_bands()):
            out += [x.get_ell_list(i), x.get_weight_list(i)]
        out += [x.unbin_cell(calls.det((1, x.get_n_bands())))]
    elif isinstance(x, nmt.NmtBinFlat):
        out = [x.get_effective_ells()]
    elif isinstance(x, nmt.NmtWorkspace) and x.wsp is not None:
        for g in (x.get_coupling_matrix, x.get_bandpower_windows):
            v = objs.quiet(g)
            if isinstance(v, np.ndarray):
                out.append(v)
    return out


def flat(s):
    return {"%s/%s" % (a, b): v for a, p in s.items() for b, v in p.items()}


def run(c, M):
    import pymaster as nmt
    rng = gen.rng_of(c)
    d = tempfile.mkdtemp(prefix="nmtv-c20-")
    try:
        e = calls.Env(rng, nmt, d)
        snap = flat(e.snapshot())
        for k in c["kinds"]:
            one(e, M, rng, k)
            objs.compare(M, "bystander-of/"+k, flat(e.snapshot()), snap, TOL)
        M.state(e.sky.pix, e.s, *sorted(c["kinds"]))
    finally:
        nmt.set_sht_calculator("ducc")
        nmt.set_n_iter_default(3)
        nmt.set_n_iter_default(3, mask=True)
        nmt.set_tol_pinv_default(1e-10)
        shutil.rmtree(d, ignore_errors=True)


def one(e, M, rng, kind):
    nmt = e.nmt
    call = calls.draw(e, rng, kind)
    base = private(call.kw)

    def go(kw, tag):
        """Run, check that the arguments keep their bytes."""
        before = {t: a.copy() for t, a in arrays(kw)}
        objects = {k: calls.probe(e, v) for k, v in kw.items()
                   if type(v).__module__.startswith("pymaster") and
                   v is not call.target}
        r = call.run(kw)
        for t, a in arrays(kw):
            b = before[t]
            M.seen("argument arrays")
            M.true("modified/%s/%s" % (call.name, t),
                   a.dtype == b.dtype and a.tobytes() == b.tobytes(),
                   "%s changed its argument %s (%s)" % (call.name, t, tag))
        for k, v in kw.items():
            if k in objects:
                objs.compare(M, "object-modified/%s/%s" % (call.name, k),
                             calls.probe(e, v), objects[k], TOL)
        return r

    def answer(r):
        a = dict(calls.probe(e, r))
        if call.target is not None:
            a.update({"target/"+k: v for k, v in
                      calls.probe(e, call.target).items()})
        return a
    M.seen("calls")
    try:
        kw = private(base)
        res = go(kw, "plain")
        want = answer(res)
    except RuntimeError as x:
        if "singular" in str(x):
            return
        raise
    M.state(call.name)
    # arguments are free for other use after the call
    if any([garbage(a) for t, a in arrays(kw)]):
        M.seen("arguments overwritten")
        objs.compare(M, "input-aliased/"+call.name, answer(res), want, TOL)
    # returned arrays belong to the caller
    isfield = isinstance(res, (nmt.NmtField, nmt.NmtFieldFlat)) or \
        isinstance(call.target, (nmt.NmtField, nmt.NmtFieldFlat))
    if not isfield:
        own = [a for t, a in arrays(res)]
        own += raw(nmt, res) + raw(nmt, call.target)
        if any([garbage(a) for a in own]):
            M.seen("results overwritten")
            a = dict(answer(res)) if not isinstance(
                res, (np.ndarray, list, tuple)) else {}
            for k, v in a.items():
                objs.compare(M, "output-aliased/"+call.name, {k: v},
                             {k: want[k]}, TOL)
    # again, in other layouts
    kw = private(base)
    objs.compare(M, "again/"+call.name, answer(go(kw, "again")), want, TOL)
    for name in rng.choice(sorted(LAYOUTS), 4, replace=False):
        f = LAYOUTS[name]
        kw = mapped(private(base), f)
        if not any(True for _ in arrays(kw)):
            break
        M.seen("layout variants")
        M.state(call.name, name)
        w = want
        tol = TOL
        if name in ("narrow", "whole"):
            if kind == "pinv":
                continue
            try:
                w = answer(go(mapped(private(base), lambda a: f(a).astype(
                    a.dtype)), name))
            except Exception:       # these numbers make no sense here
                continue
            tol = 1e-4
        try:
            r = go(kw, name)
        except Exception as x:
            if kind == "sht":      # the transform libraries are choosy
                continue
            M.fail("layout-refused/%s/%s" % (call.name, name),
                   "%s: %r" % (name, x))
            continue
        objs.compare(M, "layout/%s/%s" % (call.name, name), answer(r), w,
                     tol)
    call.run(private(base))
