#!/usr/bin/env python3
"""Confirm a planted bug and write it to seeded/<id>: plant.py SPEC.py [--nocheck]
SPEC.py defines PROP, NEEDS, BREAKS, EDITS = [(file, old, new), ...] and DEMO (text of demo.py)."""
import json, os, re, runpy, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
spec = sys.argv[1]
sid = os.path.basename(spec)[:-3]
S = runpy.run_path(spec)
copy = f"/tmp/seed/{sid}"
shutil.rmtree(copy, ignore_errors=True)
os.makedirs("/tmp/seed", exist_ok=True)
subprocess.check_call(["cp", "-a", "/repo", copy])
try:
    for f, old, new in S["EDITS"]:
        p = os.path.join(copy, f)
        t = open(p).read()
        assert t.count(old) == 1, (f, t.count(old), old)
        open(p, "w").write(t.replace(old, new))
    diff = subprocess.check_output(["git", "-C", copy, "diff"], text=True)
    env = dict(os.environ, PYTHONPATH=f"{copy}/src", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
               NUMBA_NUM_THREADS="1", MPLCONFIGDIR="/opt/vp/cache/matplotlib", NUMBA_CACHE_DIR=f"{copy}/.nb")
    d = os.path.join(HERE, "seeded", sid)
    os.makedirs(d, exist_ok=True)
    open(f"{d}/patch.diff", "w").write(diff)
    open(f"{d}/demo.py", "w").write(S["DEMO"].lstrip())
    open(f"{d}/demo.sh", "w").write('#!/bin/bash\n# exit 0 when the behaviour is right\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=agg NUMBA_CACHE_DIR=$(mktemp -d)\n'
                                    'trap \'rm -rf "$NUMBA_CACHE_DIR"\' EXIT\n/opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    os.chmod(f"{d}/demo.sh", 0o755)
    json.dump({"property": S["PROP"], "needs": S["NEEDS"], "what_it_breaks": S["BREAKS"]}, open(f"{d}/meta.json", "w"), indent=1)
    ok = True
    clean = dict(os.environ); clean.pop("PYTHONPATH", None)
    a = subprocess.run(["bash", f"{d}/demo.sh"], cwd="/repo", env=clean, capture_output=True, text=True)
    b = subprocess.run(["bash", f"{d}/demo.sh"], cwd=copy, env=env, capture_output=True, text=True)
    print(sid, S["PROP"], "demo unpatched rc", a.returncode, "patched rc", b.returncode, (b.stdout + b.stderr).strip()[-200:])
    ok &= a.returncode == 0 and b.returncode != 0
    if a.returncode:
        print(a.stdout, a.stderr)
    t = subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "-n", "4", "--dist", "loadfile", "--benchmark-disable", "tests"], cwd=copy, env=env, capture_output=True, text=True)
    tail = t.stdout.strip().splitlines()
    print("   tests:", tail[-1], [l for l in tail if l.startswith("FAILED")][:4])
    ok &= " failed" not in tail[-1]
    hits = []
    for pid in ([S["PROP"]] + S.get("ALSO", [])) if "--nocheck" not in sys.argv else []:
        t0 = time.time()
        c = subprocess.run([sys.executable, f"{HERE}/run.py", pid, "--tier", "quick"], env=dict(clean, VERIF_REPO=copy), capture_output=True, text=True)
        if c.returncode == 1:
            hits.append(pid)
        print(f"   check {pid}: rc {c.returncode} {time.time() - t0:.0f}s", next((l for l in c.stdout.splitlines() if l.startswith("VIOLATION")), c.stderr[-300:])[:300])
    if ok and "--nocheck" not in sys.argv:
        cf = os.path.join(HERE, "tools", "design", "caught.json")
        d0 = json.load(open(cf)) if os.path.exists(cf) else {}
        d0[sid] = hits
        json.dump(dict(sorted(d0.items())), open(cf, "w"), indent=1)
    print("   =>", "KEEP" if ok else "REJECT")
    if not ok:
        shutil.rmtree(d)
finally:
    shutil.rmtree(copy, ignore_errors=True)
