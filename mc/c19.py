"""C19: align_to and align_center over all pairs of shapes, sides and targets."""
import itertools, math
import numpy as np
import shapely.affinity
from . import ref, gref
from .c13 import shapes as c13shapes

ALPHABET = "align_to (4 sides, inner/outer, geometry/compound/point), align_center (default, point, geometry, compound); sequences of two alignments"
BOUND = {"quick": "every ordered pair of 26 single/compound/composite shapes (holes, control points, tolerances, negative and far positions) x 4 sides x inner/outer, 7 points; "
                  "align_center to nothing, 7 points and every other shape; all two-step sequences of side alignments on 8 shapes; 4 rejected targets",
         "thorough": "the same under 5 affine maps of the aligned shape and all three-step sequences"}
ORACLE = "exact extents and modulus-weighted centroid from rational polygon moments; translation of every region, control point and hole"

PTS = [(0, 0), (1, 2), (-3.5, 0.25), (100, -7), (0, 5), (-1, 0), (0.1, 0.2)]
SIDE = {"left": 0, "right": 1, "bottom": 2, "top": 3}
OPP = {"left": "right", "right": "left", "bottom": "top", "top": "bottom"}
TRS = ["id", "rot345", "thin", "big", "shear", "tiny", "rot90far"]


def shapes():
    return [dict(regions=s, comp=c) for s, c in c13shapes()]


def cases(tier):
    n = len(shapes())
    out = []
    for i in range(n):
        for t in (TRS if tier != "quick" else [TRS[i % 5]]):
            out.append(dict(i=i, tr=t))
    for i in range(0, n, 3):
        out.append(dict(i=i, tr="id", seq=2 if tier == "quick" else 3))
    out.append(dict(bad=1))
    return out


def make(sh, tr="id"):
    regs = [dict(r, ext=ref.tr_pts(r["ext"], tr), holes=[ref.tr_pts(h, tr) for h in r.get("holes", ())],
                 cp=[float(v) for v in ref.tr_pts([r["cp"]], tr)[0]] if r.get("cp") else None) for r in sh["regions"]]
    gs = gref.mk_regions(regs)
    from sectionproperties.pre import CompoundGeometry
    return CompoundGeometry(gs) if sh["comp"] else gs[0]


def centroid(g, weighted):
    sx = sy = s = 0.0
    for p, m in gref.polys(g):
        a = ref.poly_moments([tuple(map(ref.F, c)) for c in p.exterior.coords[:-1]], [[tuple(map(ref.F, c)) for c in h.coords[:-1]] for h in p.interiors])
        e = m.elastic_modulus if weighted else 1.0
        s += e * float(a[0]); sx += e * float(a[2]); sy += e * float(a[1])
    return sx / s, sy / s


def box(g):
    b = [p.bounds for p, _ in gref.polys(g)]
    return min(v[0] for v in b), max(v[2] for v in b), min(v[1] for v in b), max(v[3] for v in b)


def moved(rec, g, r, dx, dy, tol, what):
    """r is g translated by (dx, dy)."""
    a, b = gref.parts(g), gref.parts(r)
    rec.check(type(g) is type(r) and len(a) == len(b), f"{what}: kind or number of regions changed")
    for p, q in zip(a, b):
        rec.check(gref.same(shapely.affinity.translate(p.geom, dx, dy), q.geom, tol), lambda: f"{what}: region at {q.geom.bounds}, expected shift {dx, dy} of {p.geom.bounds}")
        rec.check(q.material is p.material, f"{what}: material changed")
        rec.check(gref.inside(q.geom, q.control_points[0]), f"{what}: control point outside")
        if p.assigned_control_point is not None:
            rec.check(math.dist(q.control_points[0], (p.control_points[0][0] + dx, p.control_points[0][1] + dy)) <= tol, f"{what}: control point not moved along")
        rec.check(q.tol == p.tol, f"{what}: tolerance changed")
    rec.check(len(r.points) == len(g.points) and len(r.facets) == len(g.facets) and len(r.holes) == len(g.holes), f"{what}: description changed")


def run_case(case, rec):
    if case.get("bad"):
        return bad(rec)
    sh = shapes()
    g = make(sh[case["i"]], case["tr"])
    if "seq" in case:
        return seq(case, rec, sh, g)
    others = [make(s) for s in sh]
    tol0 = max(10.0 ** -min(p.tol for p in gref.parts(g)), 1e-11)
    for j, o in enumerate(others):
        bo, ao = gref.snapshot(g), gref.snapshot(o)
        L = max(gref.size(g.geom), gref.size(o.geom))
        for on, inner in itertools.product(SIDE, (False, True)):
            what = f"shape {case['i']} ({case['tr']}) aligned to shape {j} on {on}, inner={inner}"
            r = g.align_to(o, on=on, inner=inner) if (j + inner) % 2 else g.align_to(other=o, on=on, inner=inner)
            rec.step()
            check_side(rec, g, r, box(o), on, inner, tol0 * 2 + 1e-11 * L, what)
        for how in (o,):
            what = f"shape {case['i']} ({case['tr']}) centred on shape {j}"
            r = g.align_center(align_to=o)
            rec.step()
            c, t = centroid(g, True), centroid(o, False)
            moved(rec, g, r, t[0] - c[0], t[1] - c[1], tol0 * 2 + 1e-10 * L, what)
        rec.check(gref.snapshot(g) == bo and gref.snapshot(o) == ao, f"shape {case['i']} or {j} modified by alignment")
        rec.state((case["i"], case["tr"], j))
    for k, p in enumerate(PTS):
        p2 = (p, list(p), np.array(p))[k % 3]
        L = gref.size(g.geom) + max(map(abs, p))
        for on, inner in itertools.product(SIDE, (False, True)):
            what = f"shape {case['i']} ({case['tr']}) aligned to point {p} on {on}, inner={inner}"
            r = g.align_to(p2, on=on, inner=inner); rec.step()
            check_side(rec, g, r, (p[0], p[0], p[1], p[1]), on, inner, tol0 * 2 + 1e-11 * L, what)
        r = g.align_center(align_to=p2); rec.step()
        c = centroid(g, True)
        moved(rec, g, r, p[0] - c[0], p[1] - c[1], tol0 * 2 + 1e-10 * L, f"shape {case['i']} ({case['tr']}) centred on {p}")
    r = g.align_center(); rec.step()
    c = centroid(g, True)
    L = gref.size(g.geom)
    moved(rec, g, r, -c[0], -c[1], tol0 * 2 + 1e-10 * L, f"shape {case['i']} ({case['tr']}) centred on the origin")
    r2 = r.align_center(align_to=None)
    moved(rec, r, r2, 0, 0, tol0 * 4 + 1e-10 * L, f"shape {case['i']} centred twice")
    rec.outcome((round(c[0], 6), round(c[1], 6))); rec.trace()


def check_side(rec, g, r, t, on, inner, tol, what):
    s = box(g)
    k = SIDE[on]
    d = t[k] - (s[k] if inner else s[SIDE[OPP[on]]])
    dx, dy = (d, 0.0) if k < 2 else (0.0, d)
    moved(rec, g, r, dx, dy, tol, what)
    e = r.calculate_extents()
    rec.check(abs(e[k if inner else SIDE[OPP[on]]] - t[k]) <= tol, lambda: f"{what}: edge at {e[k if inner else SIDE[OPP[on]]]}, target {t[k]}")


def seq(case, rec, sh, g):
    others = [make(sh[j]) for j in (1, 9, 12, 19)]
    ops = [(on, inner, j) for on in SIDE for inner in (False, True) for j in range(4)]
    for ch in itertools.product(ops, repeat=2):
        r = g
        for on, inner, j in ch:
            r = r.align_to(others[j], on, inner)
        rec.step(2)
        # last side alignment of each direction decides the position
        s = box(g)
        want = list(s)
        for on, inner, j in ch:
            t = box(others[j]); k = SIDE[on]
            o = SIDE[OPP[on]] if not inner else k
            d = t[k] - want[o]
            a = 0 if k < 2 else 2
            want[a] += d; want[a + 1] += d
        e = r.calculate_extents()
        tol = max(10.0 ** -min(p.tol for p in gref.parts(g)) * 4, 1e-9)
        rec.check(all(abs(x - y) <= tol for x, y in zip(e, want)), lambda: f"shape {case['i']} aligned {ch}: extents {e}, expected {want}")
        rec.state((case["i"], ch))
        if case["seq"] > 2:
            for on in SIDE:
                q = r.align_to(others[0], on); rec.step()
                check_side(rec, r, q, box(others[0]), on, False, tol, f"shape {case['i']} aligned {ch} then {on}")
    rec.trace()


def bad(rec):
    for s in shapes():
        g = make(s)
        for t in (5, (1,), (1, 2, 3), "a"):
            rec.step()
            try:
                g.align_center(align_to=t)
            except ValueError:
                continue
            rec.fail(f"align_center accepts the target {t!r}")
    rec.trace(); rec.state(0)
