"""Monitor runtime used inside workers: one Mon object per executed case.

A monitor records what it observed (event counters, distinct states) and
every violation, as (key, message).  `key` names the mechanism, never a
random value, so that known findings can be matched narrowly.
"""
import hashlib
import os
import traceback

import numpy as np


class Skip(Exception):
    """The case is not applicable (counted, never a verdict)."""


class Abort(Exception):
    """Stop this case after a recorded violation."""


class Mon(object):
    def __init__(self, case):
        self.case = case
        self.counts = {}
        self.states = set()
        self.viol = []
        self.maxerr = {}
        self.notes = {}

    def seen(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + int(n)

    def state(self, *parts):
        self.states.add(hashlib.sha1(repr(parts).encode()).hexdigest()[:12])

    def fail(self, key, msg):
        self.viol.append((key, str(msg)[:2000]))

    def true(self, key, cond, msg=""):
        self.seen("assertions")
        if not bool(cond):
            self.fail(key, msg or "condition is false")
            return False
        return True

    def close(self, key, got, want, rtol=1e-8, scale=None, atol=0., msg=""):
        """|got-want| <= rtol*scale+atol with scale=max|want| by default."""
        self.seen("comparisons")
        got = np.asarray(got)
        want = np.asarray(want)
        if got.shape != want.shape:
            self.fail(key, "shape %s, expected %s. %s"
                      % (got.shape, want.shape, msg))
            return False
        if want.size == 0:
            return True
        if not np.all(np.isfinite(want)):
            raise RuntimeError("oracle produced non-finite values for " + key)
        if scale is None:
            scale = np.max(np.abs(want))
        self.seen("values compared", want.size)
        if not np.all(np.isfinite(got)):
            self.fail(key, "non-finite values returned. " + msg)
            return False
        d = np.abs(got - want)
        tol = rtol*np.asarray(scale) + atol
        tol = np.broadcast_to(tol, d.shape)
        rel = np.max(d / np.maximum(tol, 1e-300))
        self.maxerr[key] = max(self.maxerr.get(key, 0.), float(min(rel, 1e30)))
        if rel > 1:
            i = np.unravel_index(np.argmax(d - tol), d.shape)
            self.fail(key, "differs: at %s got %r, expected %r (max |diff| "
                      "%.3g, tolerance %.3g). %s"
                      % (tuple(int(j) for j in i), got[i].item(),
                         want[i].item(), d.max(), tol.flat[0], msg))
            return False
        return True

    def same(self, key, got, want, msg=""):
        """Bitwise equality of arrays (NaN equal to NaN)."""
        self.seen("comparisons")
        got = np.asarray(got)
        want = np.asarray(want)
        self.seen("values compared", want.size)
        eqn = got.dtype.kind in "fc" and want.dtype.kind in "fc"
        if got.shape != want.shape or \
           not np.array_equal(got, want, equal_nan=eqn):
            n = -1
            if got.shape == want.shape:
                n = int(np.sum(got != want))
            self.fail(key, "not identical (shapes %s %s, %d elements differ)."
                      " %s" % (got.shape, want.shape, n, msg))
            return False
        return True

    def raises(self, key, fn, exc=Exception, msg=""):
        """fn must raise a Python exception."""
        self.seen("refusals checked")
        try:
            fn()
        except exc:
            return True
        self.fail(key, "no exception. " + msg)
        return False


def in_pymaster(tb):
    repo = os.environ.get("NMTV_REPO", "/repo")
    return any(f.filename.startswith(repo)
               for f in traceback.extract_tb(tb))
