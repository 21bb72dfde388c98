"""Worker process: runs cases of one check, one JSON line in, one out."""
import importlib
import json
import os
import sys
import time
import traceback


def main():
    check = sys.argv[1]
    out = os.fdopen(int(os.environ["NMTV_OUTFD"]), "w", buffering=1)
    import numpy as np
    np.seterr(all="ignore")
    if os.environ.get("NMTV_ASLIMIT"):
        import resource
        n = int(float(os.environ["NMTV_ASLIMIT"])*2**30)
        resource.setrlimit(resource.RLIMIT_AS, (n, n))
    import warnings
    warnings.simplefilter("ignore")
    from nmtv import rt
    want = os.environ.get("NMTV_EXTDIR")
    import _nmtlib
    if want and os.path.dirname(os.path.realpath(_nmtlib.__file__)) \
            != os.path.realpath(want):
        out.write(json.dumps({"fatal": "wrong extension loaded: "
                              + _nmtlib.__file__}) + "\n")
        return
    import pymaster
    repo = os.path.realpath(os.environ.get("NMTV_REPO", "/repo"))
    if not os.path.realpath(pymaster.__file__).startswith(repo + os.sep):
        out.write(json.dumps({"fatal": "wrong pymaster loaded: "
                              + pymaster.__file__}) + "\n")
        return
    mod = importlib.import_module("nmtv.checks." + check.lower())
    if hasattr(mod, "setup"):
        mod.setup()
    out.write(json.dumps({"ready": True}) + "\n")
    for line in sys.stdin:
        line = line.strip()
        if not line:
            continue
        msg = json.loads(line)
        case = msg["case"]
        M = rt.Mon(case)
        t0 = time.time()
        res = {"id": msg["id"]}
        try:
            mod.run(case, M)
        except rt.Skip as e:
            res["skip"] = str(e)
        except rt.Abort:
            pass
        except Exception as e:
            tb = sys.exc_info()[2]
            txt = traceback.format_exc()[-3000:]
            fr = [f for f in traceback.extract_tb(tb)
                  if f.filename.startswith(repo)]
            where = fr[-1].name if fr else "oracle"
            # A valid request that raises, or a result the oracle cannot
            # even consume (wrong shape or type), is a wrong answer.
            M.fail("exception/%s/%s" % (type(e).__name__, where), txt)
        res["counts"] = M.counts
        res["states"] = sorted(M.states)
        res["viol"] = M.viol
        res["maxerr"] = M.maxerr
        res["notes"] = M.notes
        res["t"] = time.time() - t0
        out.write(json.dumps(res, default=lambda o: o.item()
                             if hasattr(o, "item") else str(o)) + "\n")
        sys.stdout.flush()
        sys.stderr.flush()


main()
