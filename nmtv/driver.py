"""Drives one check: build, shard cases over workers, judge, write evidence.

Exit status: 0 held on everything explored; 1 violated (VIOLATION line);
2 inconclusive (build failure, watchdog, nothing observed, harness error).
"""
import glob
import importlib
import json
import os
import queue
import re
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

from . import build as bld

VERIF = bld.VERIF
NPROC = int(os.environ.get("NMTV_JOBS", "8"))
CASE_TIMEOUT = float(os.environ.get("NMTV_CASE_TIMEOUT", "150"))
# seconds after which no further case is started
SOFT_BUDGET = {"quick": 420.,
               "thorough": float(os.environ.get("NMTV_THOROUGH_S", "400"))}
ROUNDS = 40     # thorough: the case list is regenerated from this many seeds


class Inconclusive(Exception):
    pass


# ---------------------------------------------------------------- sanitizers
def _libs(variant):
    def f(n):
        return subprocess.run(["gcc", "-print-file-name=" + n],
                              capture_output=True, text=True).stdout.strip()
    if variant == "asan":
        return f("libasan.so") + ":" + f("libubsan.so")
    if variant == "tsan":
        return f("libtsan.so")
    return None


_FRAME = re.compile(r"^\s*#(\d+) (?:0x[0-9a-f]+ in )?(\S+).*?"
                    r"([\w./+-]+\.[ch])(?::(\d+))?")


def _stacks(block):
    """List of stacks, each a list of (function, file) in the repository."""
    out, cur = [], None
    for ln in block.split("\n"):
        m = re.match(r"\s*#(\d+) ", ln)
        if not m:
            continue
        if m.group(1) == "0":
            cur = []
            out.append(cur)
        g = _FRAME.match(ln)
        if g and cur is not None:
            fn = re.sub(r"\._omp_fn\.\d+", "", g.group(2))
            cur.append((fn, os.path.basename(g.group(3))))
    return out


_OURS = ("gomp_shim.c",)


def parse_san(txt):
    """-> list of (key, text) for every sanitizer report in txt."""
    reps = []
    # AddressSanitizer
    for m in re.finditer(r"ERROR: AddressSanitizer: (.*?)(?=\n==\d+==ERROR: "
                         r"AddressSanitizer|\Z)", txt, re.S):
        blk = m.group(0)
        kind = re.match(r"[\w-]+", m.group(1))
        kind = kind.group(0) if kind else "error"
        st = _stacks(blk)
        fn = "unknown"
        for s in st[:1]:
            for f in s:
                if f[1].endswith(".c") and not f[1].startswith("asan_") \
                        and f[1] not in _OURS:
                    fn = f[0]
                    break
        reps.append(("asan/%s/%s" % (kind, fn), blk[:4000]))
    # UBSan
    for m in re.finditer(r"([\w./+-]+\.[ch]):(\d+):(\d+): runtime error: "
                         r"([^\n]*)\n((?:\s+#\d+ [^\n]*\n)*)", txt):
        msg = re.sub(r"0x[0-9a-f]+|-?\d+(\.\d+)?(e[+-]?\d+)?", "N",
                     m.group(4))[:60]
        st = _stacks(m.group(5))
        fn = st[0][0][0] if st and st[0] else os.path.basename(m.group(1))
        reps.append(("ubsan/%s/%s" % (fn, msg), m.group(0)[:3000]))
    # ThreadSanitizer
    for blk in txt.split("=================="):
        m = re.search(r"WARNING: ThreadSanitizer: ([^\n(]*)", blk)
        if not m:
            continue
        st = _stacks(blk)
        fns = []
        for s in st[:2]:
            for f in s:
                if f[1].endswith(".c") and f[1] not in _OURS \
                        and not f[1].startswith("tsan_"):
                    fns.append(f[0])
                    break
        if not fns:      # nothing of the code under test in either stack
            continue
        reps.append(("tsan/%s/%s" % (m.group(1).strip().replace(" ", "-"),
                                     "+".join(sorted(set(fns)))),
                     blk[:5000]))
    return reps


# ------------------------------------------------------------------- workers
class Worker(object):
    def __init__(self, check, cfg, extdir, scratch, wid):
        self.check, self.cfg, self.extdir = check, cfg, extdir
        self.scratch, self.wid = scratch, wid
        self.p = None
        self.n = 0
        self.ncase = 0
        self.san_pos = {}

    def start(self):
        self.n += 1
        v = self.cfg.get("variant", "plain")
        self.dir = os.path.join(self.scratch, "w%d.%d" % (self.wid, self.n))
        os.makedirs(self.dir)
        env = {k: os.environ[k] for k in
               ("PATH", "HOME", "LANG", "LC_ALL", "VERIF_SEED", "VERIF_TIER",
                "NMTV_REPO") if k in os.environ}
        env.update(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
                   PYTHONUNBUFFERED="1",
                   PYTHONPATH=":".join([self.extdir, VERIF, bld.REPO]),
                   NMTV_EXTDIR=self.extdir, OMP_NUM_THREADS="1",
                   OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
                   TMPDIR=self.dir, NMTV_SCRATCH=self.dir,
                   HOME=self.dir, XDG_CACHE_HOME=self.dir)
        self.sanlog = os.path.join(self.dir, "san")
        if v == "asan":
            env.update(LD_PRELOAD=_libs("asan"),
                       ASAN_OPTIONS="detect_leaks=0:detect_odr_violation=0:"
                       "halt_on_error=0:allocator_may_return_null=1:"
                       "handle_abort=0:detect_stack_use_after_return=0:"
                       "max_allocation_size_mb=4096:"
                       "log_path=" + self.sanlog,
                       UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=0:"
                       "log_path=" + self.sanlog)
        elif v == "tsan":
            env.update(LD_PRELOAD=_libs("tsan"),
                       TSAN_OPTIONS="ignore_noninstrumented_modules=1:"
                       "halt_on_error=0:report_signal_unsafe=0:"
                       "history_size=4:exitcode=0:log_path=" + self.sanlog)
        else:
            # a runaway allocation fails in the worker, not in the sandbox
            env["NMTV_ASLIMIT"] = "6"
            # fresh and freed blocks hold neither zeros nor small numbers, so
            # that results which depend on stale memory are wrong
            env["MALLOC_PERTURB_"] = "64"
        if "preload" in self.cfg:
            env["LD_PRELOAD"] = bld.preload(self.cfg["preload"])
        env.update({k: str(x) for k, x in self.cfg.get("env", {}).items()})
        r, w = os.pipe()
        env["NMTV_OUTFD"] = str(w)
        self.err = open(os.path.join(self.dir, "stderr"), "wb")
        self.p = subprocess.Popen(
            [bld.PY, "-m", "nmtv.worker", self.check], env=env,
            stdin=subprocess.PIPE, stdout=self.err, stderr=self.err,
            pass_fds=[w], cwd=self.dir, start_new_session=True)
        os.close(w)
        self.r = r
        self.buf = b""
        m = self.recv(120)
        if m is None or "ready" not in m:
            raise Inconclusive("worker did not start: %s %s"
                               % (m, self.tail()))

    def tail(self, n=4000):
        try:
            with open(os.path.join(self.dir, "stderr"), "rb") as f:
                return f.read()[-n:].decode("utf8", "replace")
        except OSError:
            return ""

    def recv(self, timeout):
        """One message; None at end of file; raises TimeoutError."""
        end = time.time() + timeout
        while b"\n" not in self.buf:
            left = end - time.time()
            if left <= 0:
                raise TimeoutError
            rd, _, _ = select.select([self.r], [], [], left)
            if not rd:
                raise TimeoutError
            d = os.read(self.r, 1 << 16)
            if not d:
                return None
            self.buf += d
        line, self.buf = self.buf.split(b"\n", 1)
        return json.loads(line)

    def new_reports(self):
        out = []
        for f in glob.glob(self.sanlog + "*"):
            with open(f, errors="replace") as fh:
                fh.seek(self.san_pos.get(f, 0))
                t = fh.read()
                self.san_pos[f] = fh.tell()
            if t.strip():
                out += parse_san(t)
        return out

    def run(self, cid, case):
        """-> result dict"""
        if self.p is None:
            self.start()
        self.ncase += 1
        try:
            self.p.stdin.write((json.dumps({"id": cid, "case": case})
                                + "\n").encode())
            self.p.stdin.flush()
        except BrokenPipeError:
            pass
        try:
            m = self.recv(case.get("timeout", CASE_TIMEOUT))
        except TimeoutError:
            t = self.tail(1500)
            self.kill()
            return {"id": cid, "hang": True, "inconclusive": "watchdog: case %s exceeded "
                    "its time. %s" % (json.dumps(case)[:300], t)}
        if m is None:
            rc = self.p.wait()
            reps = self.new_reports()
            tail = self.tail()
            self.close()
            res = {"id": cid, "counts": {}, "states": [], "maxerr": {},
                   "t": 0., "notes": {},
                   "viol": [[k, x] for k, x in reps]}
            if rc == -signal.SIGKILL:
                return {"id": cid, "inconclusive": "worker was killed "
                        "(memory?) in case %s" % json.dumps(case)[:300]}
            if rc < 0:
                name = signal.Signals(-rc).name
                if not reps:
                    res["viol"].append(["crash/" + name, tail])
            elif not reps:
                res["viol"].append(["crash/exit%d" % rc, tail])
            return res
        if "fatal" in m:
            return {"id": cid, "inconclusive": m["fatal"]}
        m["viol"] += [[k, x] for k, x in self.new_reports()]
        return m

    def close(self):
        if self.p is not None:
            try:
                self.p.stdin.close()
            except OSError:
                pass
            try:
                self.p.wait(20)
            except subprocess.TimeoutExpired:
                self.kill()
                return
            os.close(self.r)
            self.err.close()
            self.p = None

    def kill(self):
        if self.p is not None:
            try:
                os.killpg(self.p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            self.p.wait()
            os.close(self.r)
            self.err.close()
            self.p = None


def run_cases(check, mod, cases, soft):
    """-> (results by index, skipped-for-time count)"""
    cfgs = getattr(mod, "CONFIGS", {"plain": {"variant": "plain"}})
    used = []
    for c in cases:
        n = c.get("cfg", "plain")
        if n not in used:
            used.append(n)
    ext = {}
    try:
        for n in used:
            v = cfgs[n].get("variant", "plain")
            if v not in ext:
                ext[v] = bld.build(v)
            if "preload" in cfgs[n]:
                bld.preload(cfgs[n]["preload"])
    except bld.BuildError as e:
        raise Inconclusive("build failed: %s" % str(e)[:3000])
    scratch = tempfile.mkdtemp(prefix="nmtv_%s_" % check)
    results = [None]*len(cases)
    qs = {n: queue.Queue() for n in used}
    for i, c in enumerate(cases):
        qs[c.get("cfg", "plain")].put((i, c))
    # share of workers by number of cases
    tot = float(len(cases))
    slots = []
    for n in used:
        k = qs[n].qsize()
        heavy = cfgs[n].get("weight", 1.)
        slots += [(n, j) for j in range(max(1, min(
            k, int(round(NPROC*k*heavy/max(1., sum(
                qs[m].qsize()*cfgs[m].get("weight", 1.) for m in used))
            )))))]
    t0 = time.time()
    errs = []
    skipped = [0]

    def loop(n, wid):
        w = Worker(check, cfgs[n], ext[cfgs[n].get("variant", "plain")],
                   scratch, wid)
        recycle = cfgs[n].get("recycle", 0)
        try:
            while not errs:
                try:
                    i, c = qs[n].get_nowait()
                except queue.Empty:
                    break
                if time.time() - t0 > soft:
                    skipped[0] += 1
                    continue
                results[i] = w.run(i, c)
                if results[i].get("hang"):
                    # alone in a new process before calling it a hang
                    results[i] = w.run(i, c)
                    if results[i].get("hang"):
                        results[i] = {
                            "id": i, "counts": {}, "states": [],
                            "maxerr": {}, "t": 0., "notes": {},
                            "viol": [["hang", results[i]["inconclusive"]]]}
                if recycle and w.ncase % recycle == 0:
                    w.close()
        except Exception as e:  # noqa
            errs.append(e)
        finally:
            try:
                w.close()
            except Exception as e:  # noqa
                errs.append(e)

    ths = [threading.Thread(target=loop, args=(n, k))
           for k, (n, j) in enumerate(slots)]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    shutil.rmtree(scratch, ignore_errors=True)
    if errs:
        e = errs[0]
        raise e if isinstance(e, Inconclusive) else Inconclusive(repr(e))
    return results, skipped[0]


# ------------------------------------------------------------------ verdicts
def known(check):
    f = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(f):
        return []
    with open(f) as fh:
        d = json.load(fh)
    return [k for k in d.get("findings", []) if k["property"] == check]


def main(argv=None):
    argv = list(sys.argv[1:] if argv is None else argv)
    replay = None
    if "--replay" in argv:
        i = argv.index("--replay")
        replay = argv[i+1]
        del argv[i:i+2]
    if argv[:1] == ["--setup"]:
        try:
            for v in bld.VARIANTS:
                print(v, bld.build(v))
        except bld.BuildError as e:
            print("build failed: %s" % e)
            return 2
        return 0
    check = argv[0]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(argv) > 1 and argv[1] in ("quick", "thorough"):
        tier = argv[1]
    if tier not in SOFT_BUDGET:
        tier = "quick"
    os.environ["VERIF_SEED"] = str(seed)
    os.environ["VERIF_TIER"] = tier
    t0 = time.time()
    mod = importlib.import_module("nmtv.checks." + check.lower())
    if replay:
        with open(replay) as f:
            cases = [json.load(f)["case"]]
    else:
        cases = mod.cases(seed, tier)
        have = set(json.dumps(c, sort_keys=True) for c in cases)
        n = (getattr(mod, "ROUNDS", ROUNDS) if tier == "thorough"
             else getattr(mod, "QUICK_ROUNDS", 1))
        for k in range(1, n):
            for c in mod.cases(seed+7919*k, tier):
                j = json.dumps(c, sort_keys=True)
                if j not in have:
                    have.add(j)
                    cases.append(c)
    try:
        results, skipped = run_cases(check, mod, cases, SOFT_BUDGET[tier])
    except Inconclusive as e:
        print("INCONCLUSIVE property=%s %s" % (check, e))
        return 2

    counts, states, maxerr, sigs = {}, set(), {}, set()
    kinds = {}
    ran = 0
    inconcl = []
    viol = []
    samples = []
    nskip = 0
    for c, r in zip(cases, results):
        if r is None:
            continue
        if "inconclusive" in r:
            inconcl.append(r["inconclusive"])
            continue
        if "skip" in r:
            nskip += 1
            continue
        ran += 1
        for k, n in r["counts"].items():
            counts[k] = counts.get(k, 0) + n
        states.update(r["states"])
        for k, x in r["maxerr"].items():
            maxerr[k] = max(maxerr.get(k, 0.), x)
        nv = sum(r["counts"].values())
        if nv > 0:
            sigs.add(json.dumps(c, sort_keys=True))
        kinds[c.get("kind", "-")] = kinds.get(c.get("kind", "-"), 0) + 1
        for k, m in r["viol"]:
            viol.append((k, m, c))
        if len(samples) < 3 or (c.get("kind") not in
                                [s["case"].get("kind") for s in samples]
                                and len(samples) < 12):
            samples.append({"case": c, "observed": r["counts"],
                            "notes": r.get("notes", {})})

    kf = known(check)
    hit_known = {}
    fresh = []
    for k, m, c in viol:
        e = next((x for x in kf if re.fullmatch(x["key"], k)
                  and all(c.get(a) == b for a, b in
                          x.get("case", {}).items())), None)
        if e is not None:
            hit_known.setdefault(e["what"], 0)
            hit_known[e["what"]] += 1
        else:
            fresh.append((k, m, c))

    ev = {
        "property": check, "tier": tier, "seed": seed,
        "level": getattr(mod, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": ran,
            "distinct_nontrivial": len(sigs),
            "rule": getattr(mod, "RULE", "") + " A case is non-trivial when "
            "a monitor observed at least one event in it; distinct when its "
            "generated parameters differ.",
            "samples": samples,
            "monitor_events": counts,
            "distinct_states": len(states),
            "cases_by_kind": kinds,
            "worst_error_over_tolerance": {
                k: float("%.3g" % x) for k, x in sorted(maxerr.items())},
            "cases_skipped_inapplicable": nskip,
            "cases_not_started_soft_budget": skipped,
            "known_findings_seen": hit_known,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time()-t0, 2),
        "violations": len(fresh),
    }
    if not replay:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", check + ".json"),
                  "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True)

    print("%s %s seed=%d: %d cases run, %d distinct, %d states, %.1fs"
          % (check, tier, seed, ran, len(sigs), len(states),
             time.time()-t0))
    print("  events: " + ", ".join("%s=%d" % x
                                   for x in sorted(counts.items())))
    for e in kf:
        print("KNOWN-FINDING: property=%s %s (seen %d times in this run)"
              % (check, e["what"], hit_known.get(e["what"], 0)))
    if fresh:
        rd = os.path.join(VERIF, "replays")
        os.makedirs(rd, exist_ok=True)
        seen = {}
        for k, m, c in fresh:
            seen.setdefault(k, []).append((m, c))
        for n, (k, lst) in enumerate(sorted(seen.items(),
                                            key=lambda x: -len(x[1]))):
            m, c = lst[0]
            path = os.path.join(rd, "%s-%d.json" % (check, n))
            if not replay:
                with open(path, "w") as f:
                    json.dump({"property": check, "key": k, "message": m,
                               "case": c, "times": len(lst)}, f, indent=1)
            else:
                path = replay
            print("VIOLATION property=%s replay=%s" % (check, path))
            print("  monitor: %s (%d cases)\n  case: %s\n  %s"
                  % (k, len(lst), json.dumps(c)[:600],
                     m.strip().replace("\n", "\n    ")[:1800]))
            if n >= 14:
                break
        return 1
    need = getattr(mod, "MIN_EVENTS", {"comparisons": 1})
    for k, n in ({} if replay else need).items():
        if counts.get(k, 0) < n:
            inconcl.append("monitor '%s' observed %d events, needs %d"
                           % (k, counts.get(k, 0), n))
    if inconcl:
        for m in inconcl[:5]:
            print("INCONCLUSIVE property=%s %s" % (check, m))
        return 2
    return 0
