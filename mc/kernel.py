"""Builds the native kernel of the tree under test with its verification
hooks and drives its random draws.

The kernel's .pyx is translated and compiled in a scratch directory (never in
the tree), linked with mc/verif_hooks.c, and installed as
pvtrace.engine._kernel, so everything runs through the public engine API."""
import ctypes
import importlib.machinery
import importlib.util
import os
import shutil
import subprocess
import sys
import sysconfig

import numpy as np

from mc import base

HERE = os.path.dirname(os.path.abspath(__file__))
LIB = None


def cythonize(d):
    src = os.path.join(base.REPO, "pvtrace", "engine", "_kernel.pyx")
    pkg = os.path.join(d, "pvtrace", "engine")
    os.makedirs(pkg, exist_ok=True)
    for f in os.listdir(os.path.dirname(src)):
        if f.endswith((".pyx", ".pxd", ".pxi", ".h")):
            shutil.copy(os.path.join(os.path.dirname(src), f), pkg)
    for p in (os.path.join(d, "pvtrace"), pkg):
        open(os.path.join(p, "__init__.py"), "w").close()
    c = os.path.join(pkg, "_kernel.c")
    r = subprocess.run([sys.executable, "-m", "cython", "-3", "--module-name", "pvtrace.engine._kernel",
                        "pvtrace/engine/_kernel.pyx", "-o", c], cwd=d, capture_output=True, text=True)
    if r.returncode or not os.path.exists(c):
        raise RuntimeError("kernel does not translate: " + (r.stdout + r.stderr)[-1500:])
    return c


def flags():
    import numpy
    inc = sysconfig.get_paths()["include"]
    return ["-I" + inc, "-I" + numpy.get_include(), "-DNPY_NO_DEPRECATED_API=NPY_1_7_API_VERSION", "-w"]


def build(extra_c=None, cflags=(), ldflags=("-fopenmp",), opt="-O1", openmp=True, outdir=None, hook_c=None):
    d = outdir or os.path.join(base.scratch(), "kernel")
    os.makedirs(d, exist_ok=True)
    c = cythonize(d)
    so = os.path.join(d, "_kernel.so")
    hook_c = hook_c or [os.path.join(HERE, "verif_hooks.c")]
    objs = []
    procs = []
    for i, (f, fl) in enumerate([(c, list(cflags))] + [(h, []) for h in hook_c]):
        o = os.path.join(d, f"o{i}.o")
        cmd = ["gcc", opt, "-fPIC", "-fno-strict-aliasing", "-fwrapv", "-DPVTRACE_VERIF_HOOKS"] + flags() + \
            (["-fopenmp"] if openmp else []) + fl + ["-c", f, "-o", o]
        procs.append((subprocess.Popen(cmd, stderr=subprocess.PIPE, text=True), cmd))
        objs.append(o)
    for p, cmd in procs:
        err = p.communicate()[1]
        if p.returncode:
            raise RuntimeError("kernel does not compile: " + err[-1500:])
    r = subprocess.run(["gcc", "-shared", "-o", so] + objs + list(ldflags) + ["-lm"], capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError("kernel does not link: " + r.stderr[-1500:])
    return so


def load(so):
    """Install the library as pvtrace.engine._kernel."""
    global LIB
    import pvtrace.engine
    name = "pvtrace.engine._kernel"
    sys.modules.pop(name, None)
    loader = importlib.machinery.ExtensionFileLoader(name, so)
    spec = importlib.util.spec_from_file_location(name, so, loader=loader)
    mod = importlib.util.module_from_spec(spec)
    loader.exec_module(mod)
    sys.modules[name] = mod
    pvtrace.engine._kernel = mod
    LIB = ctypes.CDLL(so)
    LIB.verif_bad.restype = ctypes.c_long
    LIB.verif_setup.argtypes = [ctypes.c_int, ctypes.c_long, ctypes.c_ulonglong, ctypes.c_int, ctypes.c_double] + \
        [ctypes.c_void_p] * 4
    return mod


def ensure():
    if LIB is None:
        load(build())


class Script:
    """Scripted draws for a bundle: devs[r] is the tuple of (index, value)."""

    def __init__(self, devs, seed=1000, default=0.5):
        self.n = len(devs)
        b = max([len(d) for d in devs] + [1])
        self.pos = np.full((self.n, b), -1, np.int32)
        self.val = np.zeros((self.n, b))
        for r, d in enumerate(devs):
            for k, (p, v) in enumerate(d):
                self.pos[r, k], self.val[r, k] = p, v
        self.used = np.zeros(self.n, np.int32)
        self.seeded = np.zeros(self.n, np.int32)
        self.b, self.seed, self.default = b, seed, default

    def __enter__(self):
        LIB.verif_setup(1, self.n, self.seed, self.b, self.default, self.pos.ctypes.data,
                        self.val.ctypes.data, self.used.ctypes.data, self.seeded.ctypes.data)
        return self

    def __exit__(self, *a):
        self.bad = LIB.verif_bad()
        LIB.verif_setup(0, 0, 0, 0, 0.5, None, None, None, None)


def explore(simulate, alphabet, B, chunk=4000):
    """Breadth-first over deviations: yields (devs, ndraws, index, result) for
    every execution with at most B deviations.  simulate(n, seed) -> result."""
    level = [()]
    for depth in range(B + 1):
        nxt = []
        for c in range(0, len(level), chunk):
            part = level[c:c + chunk]
            with Script(part) as s:
                result = simulate(len(part), s.seed)
            if s.bad or (s.seeded != 1).any():
                raise RuntimeError("random streams are not one per photon: %d unknown, seeded %s times"
                                   % (s.bad, sorted(set(s.seeded.tolist()))))
            yield part, s.used.tolist(), result
            for devs, n in zip(part, s.used.tolist()):
                if devs and n <= devs[-1][0]:
                    raise RuntimeError("replay of a prefix diverged: %r n=%d" % (devs, n))
                if depth < B:
                    first = devs[-1][0] + 1 if devs else 0
                    nxt += [devs + ((i, a),) for i in range(first, n) for a in alphabet]
        level = nxt
