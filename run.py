#!/usr/bin/env python3
"""run.py ID [--tier quick|thorough] [--replay FILE] : run one check against /repo's working tree."""
import os, sys, tempfile, shutil, json, time, atexit
HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
if os.environ.get("VERIF_CHILD") != "1":
    import subprocess
    scratch = tempfile.mkdtemp(prefix="verif_mc_")
    env = dict(os.environ)
    repo = env.get("VERIF_REPO", "/repo")
    env.update(VERIF_CHILD="1", VERIF_SCRATCH=scratch, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="agg",
               OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", NUMBA_NUM_THREADS="1",
               NUMBA_CACHE_DIR=os.path.join(scratch, "numba"), MPLCONFIGDIR=os.path.join(scratch, "mpl"),
               PYTHONPATH=os.path.join(repo, "src") + os.pathsep + HERE, TERM="dumb", COLUMNS="200",
               TMPDIR=scratch, HOME=scratch)
    env.pop("NUMBA_DISABLE_JIT", None)
    os.makedirs(env["MPLCONFIGDIR"])
    for f in ("fontlist-v390.json",):
        src = os.path.join("/opt/vp/cache/matplotlib", f)
        if os.path.exists(src):
            shutil.copy(src, env["MPLCONFIGDIR"])
    try:
        rc = subprocess.call([PY, "-W", "ignore", os.path.abspath(__file__)] + sys.argv[1:], env=env, cwd=scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)

import importlib, warnings
sys.path.insert(0, HERE)
warnings.simplefilter("ignore")
from mc import core


def main():
    args = sys.argv[1:]
    pid = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    known, lines = load_known(pid)
    try:
        import sectionproperties
        mod = importlib.import_module(f"mc.{pid.lower()}")
    except Exception as e:
        import traceback; traceback.print_exc()
        if "mc." in str(e) or not isinstance(e, Exception):
            raise
        fail(pid, 0, None, f"the library cannot be imported: {e!r}")
        return 1
    root = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "src")
    assert os.path.abspath(sectionproperties.__file__).startswith(os.path.abspath(root)), sectionproperties.__file__
    if getattr(mod, "NEEDS_FEA", False):
        try:
            from mc import warm
            warm.warm()
        except Exception as e:  # a broken library shows up in the cases themselves
            print("warm-up raised", repr(e))
    if "--replay" in args:
        d = json.load(open(args[args.index("--replay") + 1]))
        for c in d.get("prefix", []):
            core.run_one(mod, c, core.Rec(known))
        v = core.run_one(mod, d["case"], core.Rec(known))
        if v:
            print("message:", v[0])
            print(f"VIOLATION property={pid} replay={args[args.index('--replay') + 1]}")
            return 1
        print("no violation")
        return 0
    cases = list(mod.cases(tier))
    res = core.explore(mod, cases, known, budget=780 if tier == "quick" else None)
    agg = res["agg"]
    cov = dict(states=len(agg.states), transitions=agg.transitions, traces_validated_against_impl=agg.traces,
               samples=[cases[0], cases[len(cases) // 2], cases[-1]],
               cases_enumerated=len(cases), cases_completed=res["done"], distinct_observed_outcomes=len(agg.outcomes),
               exhaustive=(res["done"] == len(cases) and not res["capped"]),
               alphabet=mod.ALPHABET, bound=mod.BOUND[tier], oracle=mod.ORACLE,
               outside_bound=dict(agg.skips), counters=dict(agg.counts))
    nv = len(res["viols"])
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking", coverage=cov,
              assumptions=getattr(mod, "ASSUMPTIONS", []), wall_s=round(time.time() - t0, 2), violations=nv)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for key, what in lines:
        if key in agg.findings:
            print(f"KNOWN-FINDING: property={pid} {what} [{agg.findings[key]}]")
    print(f"{pid} {tier}: cases={len(cases)} done={res['done']} states={len(agg.states)} transitions={agg.transitions} "
          f"traces={agg.traces} outcomes={len(agg.outcomes)} skips={dict(agg.skips)} counts={dict(agg.counts)} wall={time.time()-t0:.1f}s")
    if nv:
        idx, case, msg, key = res["viols"][0]
        # make sure it reproduces on its own; otherwise replay with the cases run before it in its process
        base = idx - idx % res["chunk"]
        prefix = [] if "did not terminate" in msg or core.alone(mod, case, known) else cases[base:idx]
        fail(pid, idx, case, msg, prefix, key)
        return 1
    return 0


def fail(pid, idx, case, msg, prefix=(), key=None):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{pid}-{idx}.json")
    with open(path, "w") as f:
        json.dump(dict(property=pid, case=case, message=msg, key=key, prefix=list(prefix)), f, default=str)
    print("message:", msg)
    print("key:", key)
    print("case:", json.dumps(case, default=str)[:3000])
    print(f"VIOLATION property={pid} replay={path}")


def load_known(pid):
    keys, lines = set(), []
    p = os.path.join(HERE, "known_findings.jsonl")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if not l.startswith('{'):
                continue
            d = json.loads(l)
            if d.get("status") == "known" and d["property"] == pid:
                keys.add(d["key"]); lines.append((d["key"], d["what"]))
    return keys, lines


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
