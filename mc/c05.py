"""C05: the frame analysis returns what the full analyses return, from any prior state, with either solver, with or without progress display."""
import contextlib, io, itertools, math
import numpy as np
from . import ref, obs
from .c08 import sections
from .c06 import TN, trn, THIN
from .core import close

NEEDS_FEA = True
ALPHABET = ("analyses G (geometric), W (warping), P (plastic), S (stress), F (frame, direct), C (frame, cgs) in every order up to a depth before the "
            "frame analysis under test; connected sections of one to three materials; progress display on/off")
BOUND = {"quick": "about 95 connected sections x 3 maps x 2 solvers without history; all 258 histories of length <=3 over {G,W,P,S,F,C} on 2 sections; "
                  "progress display on/off for every analysis on 24 sections",
         "thorough": "about 290 connected sections x 6 maps x 2 solvers x 2 meshes; all histories of length <=4 on 4 sections; progress display on every section"}
ORACLE = ("geometric + warping analysis (direct) of a fresh section: area, ixx, iyy, ixy, phi to 1e-12, j to 1e-9 (2e-4 with the iterative solver); "
          "results available before are unchanged by the frame analysis; results with the progress display are bitwise those without")

NAMES = ("area", "ixx", "iyy", "ixy", "j", "phi")
HS = [dict(regions=[dict(ext=THIN["L"], holes=[], mat=None)]),
      dict(regions=[dict(ext=[[0, 0], [3, 0], [3, 1], [0, 1]], holes=[], mat="S"), dict(ext=[[0, 1], [1, 1], [1, 3], [0, 3]], holes=[], mat="C")], compound=1),
      dict(regions=[dict(ext=THIN["W"], holes=[], mat="T")]),
      dict(regions=[dict(ext=THIN["Z"], holes=[], mat=None)])]


def cases(tier):
    q = tier == "quick"
    out = []
    secs = [s for s in sections(q) if not s.get("disjoint")]
    for i, s in enumerate(secs):
        for k in range(3 if q else 6):
            for sv in ("direct", "cgs"):
                for m in ([[0, 0.4][(i + k) % 2]] if q else [0, 0.3]):
                    out.append(dict(s, tr=TN[(i * 5 + k * 7) % len(TN)], mesh={"s": m}, solver=sv, hist=""))
    for s in HS[:2 if q else 4]:
        for n in range(1, 4 if q else 5):
            for h in itertools.product("GWPSFC", repeat=n):
                out.append(dict(s, tr="mix", mesh={"s": 0}, solver="direct" if len(out) % 2 else "cgs", hist="".join(h)))
    for i, s in enumerate(secs if not q else secs[::3]):
        out.append(dict(s, tr=TN[(i * 3) % len(TN)], mesh={"s": 0}, solver="direct", hist="", progress=1))
    return out


def make(case, time_info=False):
    from sectionproperties.analysis import Section
    tr = trn(case["tr"])
    g = ref.build(dict(case, tr=tr), fresh=case.get("fresh"))
    obs.mesh(g, case["mesh"], ref.area_scale(tr))
    return Section(g, time_info=time_info)


def step(sec, op):
    """one analysis; returns True if it ran"""
    try:
        if op == "G":
            sec.calculate_geometric_properties()
        elif op == "W":
            sec.calculate_warping_properties()
        elif op == "P":
            sec.calculate_plastic_properties()
        elif op == "S":
            sec.calculate_stress(n=1.0, mxx=2.0)
        elif op == "F":
            return sec.calculate_frame_properties()
        elif op == "C":
            return sec.calculate_frame_properties(solver_type="cgs")
    except RuntimeError:
        return False
    return True


def everything(sec):
    """all results available now"""
    out = {}
    for f in (obs.geo, obs.warp, obs.plast):
        try:
            out[f.__name__] = f(sec)
        except RuntimeError:
            out[f.__name__] = None
    return out


def want(case):
    sec = make(case)
    sec.calculate_geometric_properties(); sec.calculate_warping_properties()
    comp = sec.is_composite()
    i = sec.get_eic() if comp else sec.get_ic()
    return (sec.get_area(), *i, sec.get_ej() if comp else sec.get_j(), sec.get_phi()), max(abs(v) for v in (sec.get_eip() if comp else sec.get_ip()))


def same(rec, got, w, imax, solver, tag):
    rec.check(len(got) == 6, f"{tag}: {len(got)} values returned")
    for nm, g, e in zip(NAMES, got, w):
        at = 1e-12 * imax if nm in ("ixx", "iyy", "ixy") else 1e-9 if nm == "phi" else 0.0
        rt = 1e-12 if nm != "j" else (2e-4 if solver == "cgs" else 1e-9)
        rec.step()
        rec.check(close(float(g), float(e), rt, at + (1e-13 * imax if nm == "j" else 0)), lambda: f"{tag}: frame analysis {nm} = {g!r}, full analyses give {e!r}")


def run_case(case, rec):
    if case.get("progress"):
        return progress(case, rec)
    w, imax = want(case)
    sec = make(case)
    for op in case["hist"]:
        step(sec, op); rec.step()
    before = everything(sec)
    try:
        got = sec.calculate_frame_properties(solver_type=case["solver"])
    except RuntimeError:
        # the iterative solver may refuse (no convergence); then the full analysis refuses as well
        rec.check(case["solver"] == "cgs", "frame analysis with the direct solver failed")
        s2 = make(case); s2.calculate_geometric_properties()
        try:
            s2.calculate_warping_properties(solver_type="cgs")
        except RuntimeError:
            rec.count("iterative solver refused"); rec.trace()
            return
        rec.fail("the iterative frame analysis does not converge, the iterative warping analysis does")
    same(rec, got, w, imax, case["solver"], f"after {case['hist'] or 'nothing'}")
    after = everything(sec)
    comp = sec.is_composite()
    g2 = (sec.get_area(), *(sec.get_eic() if comp else sec.get_ic()), sec.get_ej() if comp else sec.get_j(), sec.get_phi())
    rec.check(all(a == b for a, b in zip(got, g2)), lambda: f"requests after the frame analysis give {g2}, it returned {got}")
    for k, v in before.items():
        if v is None:
            continue
        rec.check(after[k] is not None, f"{k} results are gone after the frame analysis")
        for n in v:
            tol = (2e-4 if case["solver"] == "cgs" or "C" in case["hist"] else 1e-9) if n == "j" else 1e-12
            rec.check(close(v[n], after[k][n], tol, 1e-12 * imax if n.startswith("ix") or n.startswith("iy") else 1e-12 * abs(v.get("cx", 0)) + 1e-9 * (n == "phi")),
                      lambda: f"{n} was {v[n]!r}, after the frame analysis {after[k][n]!r}")
            rec.step()
    # a second run, and the full analyses afterwards, give the same again
    got2 = sec.calculate_frame_properties(solver_type=case["solver"])
    rec.check(all(float(a) == float(b) for a, b in zip(got, got2)), lambda: f"repeated frame analysis {got2}, first {got}")
    if len(case["hist"]) <= 1:
        sec.calculate_geometric_properties(); sec.calculate_warping_properties()
        ww = (sec.get_area(), *(sec.get_eic() if comp else sec.get_ic()), sec.get_ej() if comp else sec.get_j(), sec.get_phi())
        same(rec, ww, w, imax, "direct", "full analyses after a frame analysis")
    rec.state((repr(case["regions"]), case["tr"], case["hist"]))
    rec.outcome((case["solver"], tuple(round(float(v), 8) for v in got)))
    rec.trace()


def cgs(f):
    try:
        return f()
    except RuntimeError:
        return ()


def progress(case, rec):
    res = []
    for ti in (False, True):
        sec = make(case, ti)
        with contextlib.redirect_stdout(io.StringIO()):
            fr = sec.calculate_frame_properties()
            fc = cgs(lambda: make(case, ti).calculate_frame_properties(solver_type="cgs"))
            sec.calculate_geometric_properties(); sec.calculate_warping_properties(); sec.calculate_plastic_properties()
            st = sec.calculate_stress(n=1, mxx=2, myy=3, vx=4, vy=5, mzz=6).get_stress()
            s2 = make(case, ti); s2.calculate_geometric_properties(); cgs(lambda: s2.calculate_warping_properties(solver_type="cgs"))
        rec.step(8)
        res.append((tuple(map(float, fr)), tuple(map(float, fc or ())), everything(sec), everything(s2), [{k: (v if isinstance(v, str) else v.tobytes()) for k, v in d.items()} for d in st]))
    a, b = res
    for nm, x, y in zip(("frame", "frame (cgs)", "results", "results (cgs)", "stress"), a, b):
        rec.check(x == y, lambda: f"{nm} differ between progress display off and on: {str(x)[:300]} / {str(y)[:300]}")
    rec.state((repr(case["regions"]), case["tr"], "progress"))
    rec.outcome(a[0])
    rec.trace()
