"""C04: warping analysis equals an independent dense FE solution of the documented boundary-value problem on the same mesh."""
import itertools, math
import numpy as np
from . import ref, obs, fem
from .c01 import labelled
from .core import close

NEEDS_FEA = True
ALPHABET = ("connected add-cell shapes, void/material labellings (1-3 materials, equal-E pair), rings, nested regions, lattice triangles/quads, "
            "affine maps, mesh size 0/medium/fine/coarse, direct and cgs solver")
BOUND = {"quick": "polyominoes <=4 x 6 maps, connected labellings of a 2x3 box, 3x3 rings, lattice triangles/quads (<=2); size-0 meshes plus finer meshes "
                  "on a subset; both solvers on a subset; rectangles b/d 1..8 and symmetric/closed-form families; 12 connected sections of many parts (12 regions, 9 voids, 5 nested rings) x 2 maps",
         "thorough": "polyominoes <=5 x 22 maps x 2 meshes, connected labellings of a 2x4 and 3x3 (no void) box, lattice <=3, finer meshes and both solvers everywhere on a larger subset"}
ORACLE = ("independent dense quadratic FE solution (Lagrange constraint) with exact quadrature (or, for the quartic integrals I_omega and kappa, "
          "either exact or the library's degree-3 rule); series solution for rectangles; Bredt-type and symmetry facts; coarse/fine ordering of J")


def cases(tier):
    T = list(ref.TR)
    q = tier == "quick"
    out = []
    k = 0
    for n in range(1, 5 if q else 6):
        for p in ref.polyominoes(n):
            if ref.corner_touch(p):
                continue
            for i, t in enumerate(T):
                if q and (i + k) % 3:
                    continue
                out.append(dict(regions=[dict(ref.region_cells(p), mat=[None, "C", None, "S"][(i + k) % 4])], tr=t, mesh={"s": 0} if (i + n) % 4 else {"s": 0.2}))
            k += 1
    w, h = (2, 3) if q else (2, 4)
    boxes = [(w, h, l) for l in itertools.product((0, 1, 2), repeat=w * h)]
    for l in itertools.product((0, 1, 2), repeat=9):
        ring = all(l[i] for i in (0, 1, 2, 3, 5, 6, 7, 8))
        nb = sum(l[i] == 2 for i in (0, 1, 2, 3, 5, 6, 7, 8))
        if (ring and nb <= (1 if q else 8)) or (not q and 0 not in l):
            boxes.append((3, 3, l))
    for j, (bw, bh, l) in enumerate(boxes):
        cells = [(x, y) for x in range(bw) for y in range(bh)]
        used = [c for c, v in zip(cells, l) if v]
        if not used or not ref.connected(used) or ref.corner_touch(used):
            continue
        regs, _ = labelled(bw, bh, l)
        if not regs:
            continue
        if j % 5 == 0:
            for r in regs:
                r["mat"] = {"S": "T", "C": "E"}[r["mat"]]
        elif j % 7 == 0:
            for r in regs:
                r["mat"] = {"S": "S", "C": None}[r["mat"]]
        c = dict(regions=regs, compound=1, tr=T[(j * 7) % len(T)], mesh={"s": 0})
        out.append(c)
        if j % (29 if q else 7) == 0:
            out.append(dict(c, mesh={"s": 0.1}))
            out.append(dict(c, solver="cgs"))
    for j, (_, b) in enumerate(ref.big_sections()):
        if not b.get("disjoint"):
            for i in range(2 if q else 8):
                out.append(dict(b, tr=T[(j * 3 + i * 7) % len(T)], mesh={"s": [0, 0.3][i % 2]}, **({"solver": "cgs"} if (i + j) % 3 == 0 else {})))
    L = 2 if q else 3
    for j, s in enumerate(ref.lattice_triangles(L) + ref.lattice_quads(L)):
        out.append(dict(regions=[dict(ext=s, holes=[], mat=[None, "T"][j % 2])], tr=T[(j * 5) % len(T)], mesh=[{"s": 0}, {"s": 0.15}][j % 3 == 0]))
        if j % 12 == 0:
            out.append(dict(regions=[dict(ext=s, holes=[], mat=None)], tr="mix", mesh={"s": 0.1}, solver="cgs"))
    for b, d in itertools.product((1, 2, 3, 5, 8), (1, 2, 4)):
        out.append(dict(regions=[dict(ext=[[0, 0], [b, 0], [b, d], [0, d]], holes=[], mat=None)], tr="shift", mesh={"s": 0.01 * b * d}, rect=[b, d]))
    sym = {"I": [[0, 0], [6, 0], [6, 1], [4, 1], [4, 5], [6, 5], [6, 6], [0, 6], [0, 5], [2, 5], [2, 1], [0, 1]],
           "T": [[0, 3], [2, 3], [2, 0], [4, 0], [4, 3], [6, 3], [6, 4], [0, 4]],
           "C": [[0, 0], [4, 0], [4, 1], [1, 1], [1, 5], [4, 5], [4, 6], [0, 6]],
           "U": [[0, 0], [5, 0], [5, 5], [4, 5], [4, 1], [1, 1], [1, 5], [0, 5]]}
    for nme, ext in sym.items():
        for t in ("id", "rot90", "shift"):
            for mat in (None, "S"):
                out.append(dict(regions=[dict(ext=ext, holes=[], mat=mat)], tr=t, mesh={"s": 0.1}, sym=nme))
    # refinement: the torsion constant of a finer mesh does not exceed the coarse one
    for ext in list(sym.values()) + [[[0, 0], [3, 0], [3, 1], [0, 1]], [[0, 0], [4, 0], [0, 3]], [[0, 0], [4, 0], [5, 3], [1, 2]]]:
        out.append(dict(regions=[dict(ext=ext, holes=[], mat=None)], tr="mix", mesh={"s": 0, "coarse": True}, refine=[0.5, 0.1, 0.02]))
    return out


TOLK = {"j": "i", "x_se": "l", "y_se": "l", "x11_se": "l", "y22_se": "l", "x_st": "l", "y_st": "l"}


def series_j(b, d):
    a, c = max(b, d) / 2, min(b, d) / 2
    s = sum(math.tanh((2 * k + 1) * math.pi * a / (2 * c)) / (2 * k + 1) ** 5 for k in range(40))
    return a * (2 * c) ** 3 / 1.5 * (1 - 192 / math.pi ** 5 * c / a * s) if False else (2 * a) * (2 * c) ** 3 * (1 / 3 - 64 / math.pi ** 5 * c / a * s)


def compare(rec, w, f, L, rt, extra=0.0):
    """w: library results (obs.warp); f: solved Fem."""
    r = f.r
    rec.step(len(w))
    for k, v in w.items():
        if k in ("gamma", "asx", "asy", "as11", "as22"):
            at = rt * abs(f.alt[0]["i_omega"]) * 10 + 1e-14 * f.ixx * L * L if k == "gamma" else 0.0
            wants = [f.alt[0][k], f.alt[1][k]]
        else:
            at = rt * (f.ixx + f.iyy) if k == "j" else rt * L * 10
            wants = [r[k]]
        if not any(close(v, x, rt, at) for x in wants):
            rec.fail(f"{k}: library {v!r}, reference finite element solution {wants}")
    if not w["j"] > 0:
        rec.fail(f"torsion constant {w['j']} is not positive")


def run_case(case, rec):
    from sectionproperties.analysis import Section
    g = ref.build(case)
    sc = ref.area_scale(case["tr"])
    obs.mesh(g, case.get("mesh"), sc)
    sec = Section(g)
    sec.calculate_geometric_properties()
    solver = case.get("solver", "direct")
    try:
        sec.calculate_warping_properties(solver_type=solver); rec.step(4)
    except RuntimeError:
        if solver == "direct":
            raise
        rec.count("iterative solver refused"); rec.trace()   # it may refuse, but not be wrong
        return
    w = obs.warp(sec)
    f = fem.from_section(sec)
    phi = sec.get_phi()
    if f.delta < 1e-7 * f.i11:
        f.phi = phi  # degenerate: any axes are principal, use the reported ones
    f.solve()
    x0, x1, y0, y1 = ref.extents(case)
    L = max(x1 - x0, y1 - y0)
    R = max(abs(v) for v in (x0, x1, y0, y1))
    cond = max(f.ixx, f.iyy) / min(f.ixx, f.iyy)
    rt = 1e-9 * max(1.0, (R / L)) * max(1.0, cond ** 0.5)
    if f.delta >= 1e-7 * f.i11:
        rt = max(rt, 1e-13 * f.i11 / f.delta)
    if solver == "cgs":
        rt = 2e-4
    compare(rec, w, f, L, rt)
    if "rect" in case:
        J = series_j(*case["rect"])
        rec.check(J * (1 - 1e-9) <= w["j"] <= J * 1.005, f"rectangle {case['rect']}: J = {w['j']}, series solution {J}")
        A = case["rect"][0] * case["rect"][1]
        rec.check(abs(w["asx"] - 5 / 6 * A) < 2e-3 * A and abs(w["asy"] - 5 / 6 * A) < 2e-3 * A, f"rectangle shear areas {w['asx']}, {w['asy']} are not 5/6 A = {5/6*A}")
    if "sym" in case:
        cx, cy = sec.get_c()
        ax = []
        if case["sym"] in "ITU":
            ax.append("x_se" if case["tr"] != "rot90" else "y_se")
        if case["sym"] in "IC":
            ax.append("y_se" if case["tr"] != "rot90" else "x_se")
        for a in ax:
            c = cx if a == "x_se" else cy
            rec.check(abs(w[a] - c) < 5e-3 * L, f"shear centre {a}={w[a]} is off the axis of symmetry {c}")
            st = w[a.replace("se", "st")]
            rec.check(abs(st - c) < 5e-3 * L, f"Trefftz shear centre {st} is off the axis of symmetry {c}")
    if "refine" in case:
        J0 = w["j"]; rec.trace()
        for s in case["refine"]:
            obs.mesh(g, {"s": s}, sc)
            s2 = Section(g); s2.calculate_geometric_properties(); s2.calculate_warping_properties(); rec.step(4)
            J1 = s2.get_j()
            rec.check(J1 <= J0 * (1 + 1e-9), f"refining to {s} increases J from {J0} to {J1}")
    rec.state((str(case["regions"]), case["tr"], len(sec.elements), solver))
    rec.outcome(tuple(f"{v:.6e}" for v in w.values()))
    rec.trace()
