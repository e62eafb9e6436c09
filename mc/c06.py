"""C06: plastic centroids, moduli and shape factors equal those of the exact equal-force split."""
import itertools, math
from fractions import Fraction as F
from . import ref, obs
from .c01 import labelled
from .core import close

NEEDS_FEA = True
ALPHABET = ("add-cell shapes, lattice triangles/quads, void/steel/concrete labellings, rings and nested regions, disjoint regions, thin-walled "
            "I/T/channel/angle/zed outlines, region order reversal, affine maps (shifts, Pythagorean and right-angle rotations, mirrors, shears, "
            "thin, flat, 0.001x to 1000x scales), two mesh sizes; 4 axes (x, y, 11, 22) per section")
BOUND = {"quick": "polyominoes <=4 x 22 maps; lattice triangles/quads (<=2) x 3 maps; all 3^6 labellings of a 2x3 box (x2 region orders); rings of a 3x3 "
                  "box with <=1 differing cell; 6 thin-walled outlines x 22 maps; 45 two/three-region material assignments x 4 maps; 14 sections of many parts (see C01) x 3 maps",
         "thorough": "polyominoes <=5 x 22 maps; lattice (<=3) x 3 maps; all 3^8 labellings of a 2x4 box (x2 orders); all 3x3 rings; 6 thin-walled "
                     "outlines x 22 maps x 2 meshes; 125 three-region material assignments x 6 maps; 14 sections of many parts x 12 maps"}
ORACLE = ("exact half-plane clipping of the region polygons (yield-strength weighted): root of the force balance by bisection, plateau of "
          "admissible positions, first absolute moment about the root; shape factor = plastic / reported elastic modulus or yield moment")

TN = list(ref.TR)


def trn(name):
    return ref.TR[name]


def sq(x, y, w, h, m):
    return dict(ext=[[x, y], [x + w, y], [x + w, y + h], [x, y + h]], holes=[], mat=m)


THIN = {
    "I": [[0, 0], [10, 0], [10, 1], [6, 1], [6, 15], [8, 15], [8, 16], [3, 16], [3, 15], [5, 15], [5, 1], [0, 1]],
    "T": [[4, 0], [5, 0], [5, 11], [9, 11], [9, 12], [0, 12], [0, 11], [4, 11]],
    "C": [[0, 0], [6, 0], [6, 1], [1, 1], [1, 9], [6, 9], [6, 10], [0, 10]],
    "L": [[0, 0], [7, 0], [7, 1], [1, 1], [1, 5], [0, 5]],
    "Z": [[0, 0], [1, 0], [1, 9], [6, 9], [6, 10], [0, 10], [0, 1], [-5, 1], [-5, 0]],
    "W": [[0, 0], [3, 1], [6, 0], [9, 1], [12, 0], [12, 4], [9, 5], [6, 4], [3, 5], [0, 4]],
}


def cases(tier):
    q = tier == "quick"
    out = []
    k = 0
    for n in range(1, 5 if q else 6):
        for p in ref.polyominoes(n):
            if ref.corner_touch(p):
                continue
            r = ref.region_cells(p)
            for t in TN:
                k += 1
                out.append(dict(regions=[dict(r, mat=None if k % 3 else "C")], tr=t, mesh={"s": 0}))
    for name, o in THIN.items():
        for t in TN:
            for m in ({"s": 0}, {"s": 0.5})[:1 if q else 2]:
                k += 1
                out.append(dict(regions=[dict(ext=o, holes=[], mat=None if k % 4 else "S")], tr=t, mesh=m))
    L = 2 if q else 3
    for j, qd in enumerate(ref.lattice_triangles(L) + ref.lattice_quads(L)):
        for t in ("id", TN[j % len(TN)], TN[(j * 5 + 3) % len(TN)]):
            out.append(dict(regions=[dict(ext=qd, holes=[], mat=None if j % 2 else "T")], tr=t, mesh={"s": [0, 0.4][j % 2]}))
    w, h = (2, 3) if q else (2, 4)
    boxes = [(w, h, l) for l in itertools.product((0, 1, 2), repeat=w * h) if any(l)]
    for l in itertools.product((0, 1, 2), repeat=9):
        o = [l[i] for i in (0, 1, 2, 3, 5, 6, 7, 8)]
        if all(o) and (not q or o.count(2) <= 1):
            boxes.append((3, 3, l))
    for j, (bw, bh, l) in enumerate(boxes):
        regs, _ = labelled(bw, bh, l)
        if regs is None:
            continue
        for rev in ((False, True) if len(regs) > 1 and (not q or j % 2) else (False,)):
            out.append(dict(regions=regs[::-1] if rev else regs, tr=TN[(j * 7 + 3 * rev) % len(TN)], compound=1, mesh={"s": [0, 0, 0.3][j % 3]}))
    MS = (None, "S", "C", "T", "K")
    for i, ms in enumerate(list(itertools.product(MS, repeat=2)) + [("S", "N"), ("N", "S"), ("S", "M"), ("M", "S")]):
        for t in ("id", "rot345", "shift", "rot90"):
            out.append(dict(regions=[sq(0, 0, 2, 1, ms[0]), sq(0, 1, 1, 3, ms[1])], tr=t, mesh={"s": 0}, compound=1))
            out.append(dict(regions=[sq(0, 0, 2, 1, ms[0]), sq(5, 1, 1, 3, ms[1])], tr=t, mesh={"s": 0}, compound=1))
    for i, ms in enumerate(list(itertools.product(MS, repeat=3)) + [("S", "N", "C"), ("N", "S", "M"), (None, "M", "S")]):
        if q and i % 6 and i < len(MS) ** 3:
            continue
        for t in ("id", "shear", "rot512", "far", "rot90", "mm")[:4 if q else 6]:
            # a plate between two strips, stacked and side by side, plus a bar in a hole
            out.append(dict(regions=[sq(0, 0, 4, 1, ms[0]), sq(1, 1, 1, 2, ms[1]), sq(0, 3, 4, 1, ms[2])], tr=t, mesh={"s": 0}, compound=1))
            ring = dict(ext=[[0, 0], [5, 0], [5, 4], [0, 4]], holes=[[[1, 1], [2, 1], [2, 2], [1, 2]], [[3, 1], [4, 1], [4, 3], [3, 3]]], mat=ms[0])
            out.append(dict(regions=[ring, sq(1, 1, 1, 1, ms[1]), sq(3, 1, 1, 2, ms[2])], tr=t, mesh={"s": 0}, compound=1))
    for j, (_, b) in enumerate(ref.big_sections()):
        for i in range(3 if q else 12):
            out.append(dict(b, tr=TN[(j * 3 + i * 7) % len(TN)], mesh={"s": [0, 0.3][i % 2]}))
    # equal forces with a gap between: a whole interval of admissible positions
    for g in (1, 3):
        for t in TN:
            out.append(dict(regions=[sq(0, 0, 2, 1, None), sq(0, 1 + g, 2, 1, None)], tr=t, mesh={"s": 0}, compound=1))
    return out


def clip(ring, n, t):
    """signed area and first moment (along n) of the part of a ring with n.p > t."""
    pts = []
    m = len(ring)
    d = [n[0] * x + n[1] * y - t for x, y in ring]
    for i in range(m):
        j = (i + 1) % m
        if d[i] >= 0:
            pts.append(ring[i])
        if (d[i] > 0 > d[j]) or (d[i] < 0 < d[j]):
            s = d[i] / (d[i] - d[j])
            pts.append((ring[i][0] + s * (ring[j][0] - ring[i][0]), ring[i][1] + s * (ring[j][1] - ring[i][1])))
    A = M = 0.0
    for i in range(len(pts)):
        x0, y0 = pts[i - 1]; x1, y1 = pts[i]
        c = x0 * y1 - x1 * y0
        A += c
        M += c * (n[0] * (x0 + x1) + n[1] * (y0 + y1))
    return A / 2, M / 6


def rings_of(case, c):
    out = []
    for e, hs, m in ref.exact_regions(dict(case, tr=trn(case["tr"]))):
        fy = ref.matvals(m)["fy"]
        for r, s in [(e, 1)] + [(h, -1) for h in hs]:
            rr = [(float(x) - c[0], float(y) - c[1]) for x, y in r]
            sg = 1 if clip(rr, (0, 0), -1)[0] > 0 else -1
            out.append((rr, s * sg * fy))
    return out


class Plastic:
    """force balance of a section for a unit normal n (coordinates relative to the elastic centroid)"""

    def __init__(self, rings, n):
        self.r, self.n = rings, n
        pr = [n[0] * x + n[1] * y for r, _ in rings for x, y in r]
        self.lo, self.hi = min(pr), max(pr)
        self.N = sum(w * clip(r, (0, 0), -1)[0] for r, w in rings)
        self.M = sum(w * clip(r, n, self.lo - 1 - abs(self.lo))[1] for r, w in rings)

    def top(self, t):
        A = M = 0.0
        for r, w in self.r:
            a, m = clip(r, self.n, t)
            A += w * a; M += w * m
        return A, M

    def root(self, level):
        a, b = self.lo, self.hi
        for _ in range(80):
            m = 0.5 * (a + b)
            if 2 * self.top(m)[0] - self.N > level:
                a = m
            else:
                b = m
        return 0.5 * (a + b)

    def solve(self):
        lo, hi = self.root(1e-11 * self.N), self.root(-1e-11 * self.N)
        d = 0.5 * (lo + hi)
        A, M = self.top(d)
        return lo, hi, 2 * M - self.M - d * (2 * A - self.N)


def run_case(case, rec):
    case = dict(case)
    tr = trn(case["tr"])
    g = ref.build(dict(case, tr=tr))
    obs.mesh(g, case["mesh"], ref.area_scale(tr))
    from sectionproperties.analysis import Section
    sec = Section(g)
    sec.calculate_geometric_properties()
    sec.calculate_plastic_properties()
    rec.step(4)
    got = obs.plast(sec)
    import contextlib, io
    with contextlib.redirect_stdout(io.StringIO()):
        sec.calculate_plastic_properties(verbose=True)
    again = obs.plast(sec)
    rec.check(again == got, lambda: f"repeated, verbose analysis gives {again}, first {got}")
    rec.step(4)
    el = obs.geo(sec)
    comp = ref.is_composite(case)
    p = ref.area_props(dict(case, tr=tr))
    c = (p["cx"], p["cy"])
    rings = rings_of(case, c)
    phi = math.radians(sec.get_phi())
    e1 = (math.cos(phi), math.sin(phi)); e2 = (-math.sin(phi), math.cos(phi))
    res = {}
    size = 0
    for nm, n in (("y", (0.0, 1.0)), ("x", (1.0, 0.0)), ("22", e2), ("11", e1)):
        P = Plastic(rings, n)
        res[nm] = P.solve()
        size = max(size, P.hi - P.lo)
    far = max(abs(v) for v in ref.extents(dict(case, tr=tr)))
    tol = 1e-5 * size + 1e-11 * far
    pc = (got["x_pc"] - c[0], got["y_pc"] - c[1])
    gp = (got["x11_pc"] - c[0], got["y22_pc"] - c[1])
    loc = {"x": pc[0], "y": pc[1], "11": gp[0] * e1[0] + gp[1] * e1[1], "22": gp[0] * e2[0] + gp[1] * e2[1]}
    for nm in res:
        lo, hi, S = res[nm]
        rec.check(lo - tol <= loc[nm] <= hi + tol, lambda: f"plastic centroid along {nm}: {loc[nm]!r} from the elastic centroid, equal-force position(s) [{lo!r}, {hi!r}]")
    rt = 1e-8 + 1e-10 * far / size
    for key, nm in (("sxx", "y"), ("syy", "x"), ("s11", "22"), ("s22", "11")):
        rec.check(close(got[key], res[nm][2], rt), lambda: f"{key}: got {got[key]!r}, exact {res[nm][2]!r}")
    for ax, key in (("x", "sxx"), ("y", "syy"), ("11", "s11"), ("22", "s22")):
        for sg in "+-":
            nm = ax if ax in ("11", "22") else ax + ax
            e = el["my" + ax] if comp else el[f"z{nm}{sg}"]
            rec.check(close(got[f"sf{ax}{sg}"], got[key] / e, 1e-12), lambda: f"shape factor {ax}{sg}: {got[f'sf{ax}{sg}']!r}, {key}/elastic = {got[key] / e!r}")
    rec.state((repr(case["regions"]), case["tr"]))
    rec.outcome(tuple(round(got[k] / (1 if k.startswith("sf") else 1), 6) for k in ("sfx+", "sfy+", "sf11+")))
    rec.trace()
