"""Builds /verif/seeded/<id>/ from the list in tools/bugs.py (edits applied to a scratch copy of /repo).
plant.py            rebuild every seeded bug directory
plant.py ID...      only these
plant.py -t ID...   also confirm: builds, tests pass, demo 0 on clean / nonzero on patched (slow)
plant.py -c ID...   also run the property's check against the patched copy"""
import json, os, shutil, subprocess, sys, tempfile
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from bugs import BUGS
V = os.path.dirname(here)
SH = '''#!/bin/bash
# exit 0 on the unchanged tree, nonzero with the change
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
here="$(cd "$(dirname "$0")" && pwd)"
exec timeout 250 /opt/venv/bin/python "$here/demo.py"
'''
SHP = '''#!/bin/bash
# exit 0 on the unchanged tree, nonzero with the change
here="$(cd "$(dirname "$0")" && pwd)"
work="$(mktemp -d)"
trap 'rm -rf "$work"' EXIT
cp pvtrace/studio/static/vendor/three.module.js "$work/three.module.mjs"
PVT_REPO="$PWD" PAGE_VENDOR="$work" timeout 250 node "$here/demo.mjs" </dev/null
'''
def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, text=True, capture_output=True, **kw)
args = sys.argv[1:]
test = "-t" in args
check = "-c" in args
ids = [a for a in args if not a.startswith("-")]
tmp = None
for b in BUGS:
    if ids and b["id"] not in ids: continue
    d = os.path.join(V, "seeded", b["id"])
    os.makedirs(d, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="plant-")
    sh(f"cp -a /repo/. {tmp}/")
    for f, old, new in b["edits"]:
        p = os.path.join(tmp, f)
        s = open(p).read()
        assert s.count(old) == 1, (b["id"], f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = sh("git diff", cwd=tmp).stdout
    assert diff
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    page = b["demo"].lstrip().startswith("//page")
    open(os.path.join(d, "demo.mjs" if page else "demo.py"), "w").write(b["demo"].lstrip("\n"))
    if page:
        for f in ("dom.mjs", "host.mjs"):
            shutil.copy(os.path.join(V, "mc/page", f), os.path.join(d, f))
    open(os.path.join(d, "demo.sh"), "w").write(SHP if page else SH)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
              open(os.path.join(d, "meta.json"), "w"), indent=1)
    line = b["id"]
    kernel = any(f.endswith(".pyx") for f, _, _ in b["edits"])
    if test:
        if kernel:
            r = sh("rm -f pvtrace/engine/_kernel.c; /opt/venv/bin/python -m pvtrace.engine.build", cwd=tmp, env={**os.environ, "PYTHONPATH": tmp})
            if r.returncode: line += " BUILD FAILED " + r.stderr[-300:]
        r0 = sh(f"bash {d}/demo.sh", cwd="/repo")
        r1 = sh(f"bash {d}/demo.sh", cwd=tmp)
        line += f" demo clean={r0.returncode} patched={r1.returncode}"
        if r0.returncode: line += r0.stderr[-500:] + r0.stdout[-300:]
        rt = sh("/opt/venv/bin/python -m pytest -q -x tests 2>&1 | tail -4", cwd=tmp, env={**os.environ, "PYTHONPATH": tmp, "MPLBACKEND": "Agg"})
        line += " tests: " + (rt.stdout.strip().splitlines() or ["?"])[-1]
        if "failed" in line: line += rt.stdout
    if check:
        for prop in [b["prop"]] + b.get("also", []):
            r = sh(f"./run.py {prop}", cwd=V, env={**os.environ, "PVT_REPO": tmp})
            vl = [x for x in r.stdout.splitlines() if "VIOLATION" in x]
            line += f" | {prop} rc={r.returncode} {len(vl)} " + "; ".join(x.strip()[:160] for x in r.stdout.splitlines() if x.startswith("  "))[:400]
    print(line, flush=True)
    shutil.rmtree(tmp)
