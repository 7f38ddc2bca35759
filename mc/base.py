"""Common plumbing of every check: paths, import of the code under test,
evidence, violations and known findings, parallel map."""
import json
import logging
import os
import shutil
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PVT_REPO", "/repo")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
THOROUGH = TIER == "thorough"
NCPU = min(8, os.cpu_count() or 1)

_scratch = None


def scratch():
    """A scratch directory removed at exit of the main process."""
    global _scratch
    if _scratch is None:
        import atexit
        _scratch = tempfile.mkdtemp(prefix="pvtmc-")
        owner = os.getpid()

        def clean(path=_scratch):
            if os.getpid() == owner:
                shutil.rmtree(path, ignore_errors=True)
        atexit.register(clean)
    return _scratch


def setup_imports():
    """Import paths and environment for the code under test (call first)."""
    sys.dont_write_bytecode = True
    os.environ.setdefault("MPLBACKEND", "Agg")
    os.environ.setdefault("BROWSER", "true")
    os.environ.setdefault("OMP_NUM_THREADS", "1")
    os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    logging.disable(logging.CRITICAL)
    import warnings
    warnings.simplefilter("ignore")


def jsonable(x):
    try:
        json.dumps(x)
        return x
    except Exception:
        if isinstance(x, dict):
            return {str(k): jsonable(v) for k, v in x.items()}
        if isinstance(x, (list, tuple, set)):
            return [jsonable(v) for v in x]
        return repr(x)


class Check:
    """Collects what one property's check explored and decided."""

    def __init__(self, prop, level="model_checking"):
        self.prop = prop
        self.level = level
        self.t0 = time.time()
        self.cov = {"states": 0, "transitions": 0,
                    "traces_validated_against_impl": 0, "samples": []}
        self.viol = []
        self.known_hit = {}
        self.assumptions = []
        self._last = self.t0
        path = os.path.join(VERIF, "known_findings.json")
        self.known = {}
        if os.path.exists(path):
            with open(path) as f:
                for e in json.load(f)["findings"]:
                    if e.get("status") == "known" and e["property"] == prop:
                        self.known[e["key"]] = e["what"]

    def log(self, msg):
        now = time.time()
        print(f"[{self.prop} +{now - self.t0:6.1f}s] {msg}", flush=True)

    def add(self, name, n=1):
        self.cov[name] = self.cov.get(name, 0) + n

    def sample(self, s, cap=6):
        if len(self.cov["samples"]) < cap:
            self.cov["samples"].append(jsonable(s))

    def violation(self, key, what, replay=None):
        """`key` identifies the failing input/call site/history."""
        if key in self.known:
            self.known_hit.setdefault(key, 0)
            self.known_hit[key] += 1
            return
        if len(self.viol) < 50:
            self.viol.append((key, what, jsonable(replay)))

    def guard(self, key, fn, *args, **kw):
        """Run fn; an exception out of the code under test is a violation."""
        try:
            return fn(*args, **kw)
        except Exception as e:  # noqa
            self.violation(key + ":exception",
                           f"{type(e).__name__}: {e}",
                           {"traceback": traceback.format_exc()})
            return None

    def finish(self):
        ev = {"property": self.prop, "tier": TIER if TIER in ("quick", "thorough") else "quick",
              "seed": SEED, "level": self.level, "coverage": self.cov,
              "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.viol)}
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, f"{self.prop}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=repr)
        for key, what in self.known.items():
            if key in self.known_hit:
                print(f"KNOWN-FINDING: property={self.prop} {what}")
        short = {k: v for k, v in self.cov.items() if k != "samples"}
        self.log(f"coverage {json.dumps(short, default=repr)}")
        if not self.viol:
            self.log("held on everything explored")
            return 0
        rd = os.path.join(d, "replays")
        os.makedirs(rd, exist_ok=True)
        for i, (key, what, replay) in enumerate(self.viol[:10]):
            path = os.path.join(rd, f"{self.prop}-{i}.json")
            with open(path, "w") as f:
                json.dump({"property": self.prop, "key": key, "what": what,
                           "replay": replay}, f, indent=1, default=repr)
            print(f"  {key}: {what}"[:600])
            print(f"VIOLATION property={self.prop} replay={path}", flush=True)
        return 1


STALL = 420 if not THOROUGH else 7200  # seconds without any job completing


def pmap(fn, jobs, procs=NCPU, chunksize=1):
    """Fork-based parallel map; an exception in a job is returned as
    ('__exc__', text) in its slot, and so are the death of its process (say, a
    crash of native code under test) and a job which does not come to an end."""
    jobs = list(jobs)
    if not jobs:
        return []
    if procs <= 1:
        return [_safe((fn, j)) for j in jobs]
    import multiprocessing as mp
    from concurrent import futures as F
    ctx = mp.get_context("fork")
    chunks = [jobs[i:i + chunksize] for i in range(0, len(jobs), chunksize)]
    out = {}
    ex = F.ProcessPoolExecutor(min(procs, len(chunks)), mp_context=ctx)
    try:
        fs = {ex.submit(_chunk, fn, c): i for i, c in enumerate(chunks)}
        left = set(fs)
        while left:
            done, left = F.wait(left, timeout=STALL, return_when=F.FIRST_COMPLETED)
            for f in done:
                try:
                    out[fs[f]] = f.result()
                except Exception as e:
                    out[fs[f]] = [("__exc__", f"the process running this job died: {type(e).__name__}: {e}")] * len(chunks[fs[f]])
            if not done:
                for f in left:
                    if f.running():
                        out[fs[f]] = [("__exc__", f"no job ended for {STALL} s: does not terminate")] * len(chunks[fs[f]])
                break
    finally:
        procs_ = list((ex._processes or {}).values())
        if len(out) < len(chunks) or any(is_exc(r[0]) and "does not terminate" in r[0][1] for r in out.values()):
            for p in procs_:
                p.kill()
        ex.shutdown(wait=True, cancel_futures=True)
    return [r for i, c in enumerate(chunks) for r in out.get(i, [("__exc__", "not run: other jobs do not terminate")] * len(c))]


def _chunk(fn, jobs):
    return [_safe((fn, j)) for j in jobs]


def _safe(fj):
    fn, j = fj
    try:
        return fn(j)
    except Exception:
        return ("__exc__", traceback.format_exc())


def is_exc(r):
    return isinstance(r, tuple) and len(r) == 2 and r[0] == "__exc__"
