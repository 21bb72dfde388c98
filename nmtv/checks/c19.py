"""C19: invalid requests are refused cleanly and leave no trace."""
import os
import random
import shutil
import tempfile

import numpy as np

from nmtv import calls, gen, objs

RULE = ("Random sets of living objects of every kind; random public calls "
        "are made valid, then with each of their listed inconsistent "
        "arguments (wrong shapes, spins, resolutions, ranges, options, "
        "files) and with hostile values in any argument. Inconsistent "
        "requests must raise; after every exception all objects, the "
        "defaults and the random state answer as before and the valid call "
        "repeats its result.")
ASSUMPTIONS = ["hostile values that are no listed inconsistency may be "
               "accepted or refused"]
MIN_EVENTS = {"requests refused": 1000, "refused before the first use": 50, "hostile requests": 300,
              "queries compared": 5000, "refusing calls": 40}
QUICK_ROUNDS = 2
TOL = 1e-12


def cases(seed, tier):
    r = random.Random("C19-%d" % seed)
    ks = sorted(calls.KINDS)
    out = []
    for i in range(900 if tier == "thorough" else 400):
        k = r.sample(ks, 5)
        k[0] = ks[i % len(ks)]
        out.append(dict(kinds=k, seed=r.randrange(1 << 30)))
    return out


class Odd(object):
    pass


def hostile(rng, name, old):
    """Values nobody should pass; sizes stay small on purpose."""
    v = [None, "abc", Odd(), float("nan"), -1, -2., [], {}, b"x",
         np.array([]), np.zeros((0, 3)), np.array(3.), [[1.], [1., 2.]],
         (lambda x: x), True, 1j, -2**31-1, np.array("text")]
    if name not in ("n_iter", "n_iter_mask", "nside", "lmax", "lmax_mask",
                    "nx", "ny", "nlb", "ell_ini", "ell_end", "spin",
                    "spin_arr", "aposize"):
        v += [float("inf"), 1e300, 2**31, 2**63]
    if isinstance(old, np.ndarray):
        v += [np.full(old.shape, np.nan), old.astype(object),
              old.astype(complex)*(1+1j), old[None], old.T.copy()[..., None],
              old.ravel(), old.astype(bool), np.zeros(old.shape), -old,
              np.array(old.tolist(), dtype="U30"), old[..., :0],
              np.full(old.shape, Odd())]
        if name not in ("ell_ini", "ell_end", "spin_arr"):
            v += [np.full(old.shape, np.inf), np.full(old.shape, 1e300)]
    return v[int(rng.integers(len(v)))]


def run(c, M):
    import pymaster as nmt
    rng = gen.rng_of(c)
    d = tempfile.mkdtemp(prefix="nmtv-c19-")
    cwd = os.getcwd()
    try:
        e = calls.Env(rng, nmt, d)
        snap = e.snapshot()
        for k in c["kinds"]:
            one(e, M, rng, k)
        st = np.random.get_state()[1][:8]
        objs.compare(M, "bystander", flat(e.snapshot()), flat(snap), TOL)
        M.same("random-state", np.random.get_state()[1][:8], st)
        M.true("cwd", os.getcwd() == cwd)
        M.state(e.sky.pix, e.s, *sorted(c["kinds"]))
    finally:
        nmt.set_sht_calculator("ducc")
        nmt.set_n_iter_default(3)
        nmt.set_n_iter_default(3, mask=True)
        nmt.set_tol_pinv_default(1e-10)
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)


def flat(s):
    return {"%s/%s" % (a, b): v for a, p in s.items() for b, v in p.items()}


def one(e, M, rng, kind):
    call = calls.draw(e, rng, kind)
    M.seen("refusing calls")
    before = flat(e.snapshot())
    want = None
    # (an object that was not computed yet must not be touched either)
    if call.target is None or rng.random() < .5:
        try:
            want = calls.probe(e, call.run())
        except RuntimeError as x:
            if "singular" in str(x):    # this mask cannot be decoupled
                return
            raise
    else:
        M.seen("refused before the first use")
    tprobe = calls.probe(e, call.target) if call.target is not None else {}
    rs = np.random.get_state()

    def after(lab):
        if call.target is not None:
            objs.compare(M, "target-after/%s/%s" % (call.name, lab),
                         calls.probe(e, call.target), tprobe, TOL)
        r2 = np.random.get_state()
        M.true("random-state/%s/%s" % (call.name, lab),
               np.array_equal(rs[1], r2[1]) and rs[2] == r2[2])
    ok = True
    for lab, change in call.bad:
        kw = call.with_bad(change)
        M.seen("requests refused")
        M.state(call.name, lab)
        if not M.raises("accepted/%s/%s" % (call.name, lab),
                        lambda: call.run(kw), Exception,
                        "%s accepted %s" % (call.name, lab)):
            ok = False
            break
        after(lab)
    if ok and want is not None and rng.random() < .5:
        got = calls.probe(e, call.run())
        objs.compare(M, "again/"+call.name, got, want, TOL)
        rs = np.random.get_state()
    for _ in range(4):
        if not ok or not call.kw:
            break
        n = sorted(call.kw)[int(rng.integers(len(call.kw)))]
        v = hostile(rng, n, call.kw[n])
        kw = dict(call.kw)
        kw[n] = v
        M.seen("hostile requests")
        if os.environ.get("NMTV_TRACE"):
            print(call.name, n, repr(v)[:80], flush=True)
        try:
            call.run(kw)
        except Exception:
            M.seen("hostile requests refused")
            if kind.startswith("synfast") and n == "seed":
                rs = np.random.get_state()
                continue
            after("hostile-"+n)
        else:
            rs = np.random.get_state()
            # it took the value: later results may legitimately use it
            if call.target is not None:
                if want is None:
                    break
                call.run()
    if want is not None:
        got = calls.probe(e, call.run())
        objs.compare(M, "again/"+call.name, got, want, TOL)
    if kind == "settings":     # a hostile value may be a valid setting
        n = e.nmt
        n.set_sht_calculator("ducc")
        n.set_n_iter_default(3)
        n.set_n_iter_default(3, mask=True)
        n.set_tol_pinv_default(1e-10)
    if not ok:
        return
    if rng.random() < .3:
        objs.compare(M, "bystander-of/"+call.name, flat(e.snapshot()),
                     before, TOL)
