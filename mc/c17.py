"""C17: splitting along a line partitions the section; every line through a grid of points."""
import itertools, math
import numpy as np
import shapely
from shapely import Polygon
from . import ref, gref
from .c01 import labelled

ALPHABET = "every line through two points of a half-step grid around and beyond the shape, given as two points, a vector (three signs/lengths) or a far point"
BOUND = {"quick": "all polyominoes of up to 4 cells and 3x3 rings, all triangles on a 2-lattice, 40 labelled 2x2/2x3 compounds, nested rings, 7 sections of many parts x all distinct lines through "
                  "a 5x5 grid that spans the shape and its outside; 22 affine maps cycled; 6 ways to give the line cycled",
         "thorough": "the same with polyominoes of up to 5 cells, quadrilaterals on a 2-lattice and all labelled 2x3 compounds, every line under 3 maps"}
ORACLE = "half-plane clipping of the untransformed regions (number of pieces, areas, sides), point-set equality of the pieces with the regions"

SQ = lambda x, y, w, h, m=None: dict(ext=[[x, y], [x + w, y], [x + w, y + h], [x, y + h]], holes=[], mat=m)
MODES = ("ij", "vec", "veclist", "rev", "long", "ijfar")


def lines(n=5, lo=-0.5, step=1.0):
    """Distinct lines through two points of an n x n grid, as (point, point) pairs."""
    pts = [(lo + step * i, lo + step * j) for i in range(n) for j in range(n)]
    seen, out = set(), []
    for p, q in itertools.combinations(pts, 2):
        a, b = q[1] - p[1], p[0] - q[0]
        g = math.hypot(a, b)
        s = 1 if (a > 0 or (a == 0 and b > 0)) else -1
        k = (round(s * a / g, 9), round(s * b / g, 9), round(s * (a * p[0] + b * p[1]) / g, 9))
        if k not in seen:
            seen.add(k); out.append((p, q))
    return out


def shapes(tier):
    out = []
    for n in range(1, 5 if tier == "quick" else 6):
        for c in ref.polyominoes(n):
            out.append([ref.region_cells(c, None if n % 2 else "S")])
    ring = [(x, y) for x in range(3) for y in range(3) if (x, y) != (1, 1)]
    out.append([ref.region_cells(ring, "C")])
    out.append([dict(ext=[[0, 0], [4, 0], [4, 3], [0, 3]], holes=[[[1, 1], [2, 1], [1, 2]], [[2, 2], [3, 1], [3, 2]]], mat="T")])
    out += [[dict(ext=t, holes=[], mat="S" if i % 2 else None)] for i, t in enumerate(ref.lattice_triangles(2))]
    out.append([dict(ext=[[0, 0], [3, 0], [3, 3], [2, 3], [2, 1], [1, 1], [1, 3], [0, 3]], holes=[], mat="K")])
    comp = []
    for j, l in enumerate(itertools.product((0, 1, 2), repeat=4)):
        if any(l) and 2 in l and (tier != "quick" or j % 2 == 0):
            comp.append(labelled(2, 2, l)[0])
    for j, l in enumerate(itertools.product((0, 1, 2), repeat=6)):
        if any(l) and 2 in l and j % (47 if tier == "quick" else 5) == 0:
            comp.append(labelled(2, 3, l)[0])
    comp.append([dict(SQ(0, 0, 3, 3, "S"), holes=[[[1, 1], [2, 1], [2, 2], [1, 2]]]), SQ(1, 1, 1, 1, "C")])
    comp.append([dict(ext=[[0, 0], [3, 0], [0, 3]], mat="T"), dict(ext=[[3, 0], [3, 3], [0, 3]], mat="S")])
    comp.append([SQ(0, 0, 1, 1, "S"), SQ(2, 2, 1, 1, "C")]); comp.append([SQ(0, 0, 3, 1, "S"), SQ(1, 1, 1, 2, "C"), SQ(0, 3, 3, 1, "T")])
    big = {k: b["regions"] for k, b in ref.big_sections()}
    out += [big["grid"], big["five voids"], big["comb"]]
    comp += [big[k] for k in ("bars", "strip", "nested", "islands")]
    if tier != "quick":
        comp += [b for b in big.values() if len(b) > 1]
        out += [[dict(ext=t, holes=[], mat="S")] for t in ref.lattice_quads(2)]
    return [(s, 0) for s in out] + [(s, 1) for s in comp]


def cases(tier):
    T = list(ref.TR)
    out = []
    for i, (s, c) in enumerate(shapes(tier)):
        for k in range(2 if tier == "quick" else 3):
            out.append(dict(regions=s, comp=c, k=i + k * 5, tr=T[i % len(T) if k else 0] if k < 2 else T[(i + 7) % len(T)]))
    for p in ("none",):
        out.append(dict(bad=p))
    return out


def halfplane(p, d, big=1e3):
    """Polygon on the left of the line p + t d, 1e-8 away from it so that regions meeting in a point of the line are separate pieces."""
    n = math.hypot(*d); p = (p[0] - d[1] / n * 1e-8, p[1] + d[0] / n * 1e-8)
    d = (d[0] / n * big, d[1] / n * big)
    w = (-d[1], d[0])
    a = (p[0] - d[0], p[1] - d[1]); b = (p[0] + d[0], p[1] + d[1])
    return Polygon([a, b, (b[0] + w[0], b[1] + w[1]), (a[0] + w[0], a[1] + w[1])])


def pieces(poly, hp):
    g = poly.intersection(hp)
    gs = list(g.geoms) if hasattr(g, "geoms") else [g]
    return sorted(x.area for x in gs if x.geom_type == "Polygon" and x.area > 1e-7)


def run_case(case, rec):
    if "bad" in case:
        return bad(case, rec)
    flat = [gref.poly_of(r) for r in case["regions"]]
    ex = ref.exact_regions(case)
    gs = [gref.mk(e, hs, m) for e, hs, m in ex]
    if case["comp"]:
        from sectionproperties.pre import CompoundGeometry
        g = CompoundGeometry(gs)
    else:
        g = gs[0]
    for i, (p, q) in enumerate(lines()):
        one(case, rec, g, gs, flat, p, q, MODES[(i + case["k"]) % 6], halfplane)
    rec.trace()


def one(case, rec, g, gs, flat, p, q, mode, hp):
    tr = case["tr"]
    sc = ref.area_scale(tr)
    (p1x, p1y), (q1x, q1y) = ref.fl(ref.tr_pts([p, q], tr))
    d = (q1x - p1x, q1y - p1y)
    L = max(gref.size(g.geom), 1e-300)
    what = f"split of {[r['ext'] for r in case['regions']]} under {tr} by the line through {p} and {q} ({mode})"
    before = gref.snapshot(g)
    if mode == "ij":
        t, b = g.split_section(point_i=(p1x, p1y), point_j=(q1x, q1y))
    elif mode == "vec":
        t, b = g.split_section(point_i=(p1x, p1y), vector=d)
    elif mode == "veclist":
        t, b = g.split_section((q1x, q1y), vector=np.array([d[0] * 0.001, d[1] * 0.001]))
    elif mode == "rev":
        t, b = g.split_section(point_i=(q1x, q1y), vector=(-d[0], -d[1]))
    elif mode == "long":
        t, b = g.split_section(point_i=(p1x, p1y), vector=(d[0] * 1000, d[1] * 1000))
    else:
        f = (p1x - 3 * d[0], p1y - 3 * d[1])
        t, b = g.split_section(point_i=f, point_j=(f[0] + d[0], f[1] + d[1]))
    rec.step()
    rec.check(gref.snapshot(g) == before, f"{what}: the geometry was modified")
    # orientation: left of d is the top when d points right; the right side of a vertical line is the top
    flips = (d[0] < 0) or (d[0] == 0 and d[1] > 0)
    free = d[0] != 0 and abs(d[0]) < 1e-9 * abs(d[1])
    det = float(ref.TR[tr][0] * ref.TR[tr][3] - ref.TR[tr][1] * ref.TR[tr][2])
    dd = (q[0] - p[0], q[1] - p[1])
    left0 = halfplane(p, dd); right0 = halfplane(p, (-dd[0], -dd[1]))
    if det < 0:
        left0, right0 = right0, left0
    if free and (t or b):  # the direction is vertical up to round-off: either convention
        x = (t + b)[0].geom.representative_point()
        side = d[0] * (x.y - p1y) - d[1] * (x.x - p1x)
        flips = (side < 0) == bool(t)
    top0, bot0 = (right0, left0) if flips else (left0, right0)
    tol = 1e-9 * max(L, abs(p1x), abs(p1y), abs(d[0]), abs(d[1]))
    n = math.hypot(*d)
    sgn = -1 if flips else 1
    for name, ps, half, s in (("top", t, top0, sgn), ("bottom", b, bot0, -sgn)):
        want = {}
        areas = sorted(a * sc for f in flat for a in pieces(f, half))
        got = sorted(x.geom.area for x in ps)
        rec.check(len(got) == len(areas), lambda: f"{what}: {len(got)} {name} pieces, expected {len(areas)}; {[x.geom.wkt[:120] for x in ps]}")
        rec.check(all(abs(u - v) <= 1e-6 * sc for u, v in zip(got, areas)), lambda: f"{what}: {name} areas {got}, expected {areas}")
        for x in ps:
            rec.check(type(x).__name__ == "Geometry" and x.geom.is_valid, f"{what}: {name} piece is not a valid single region")
            for (u, v) in x.geom.exterior.coords:
                side = (d[0] * (v - p1y) - d[1] * (u - p1x)) / n * s
                rec.check(side >= -tol * 10, lambda: f"{what}: a {name} piece reaches {-side} across the line")
    # every piece lies in one region and carries its material; together they cover every region once
    left = [0.0] * len(gs)
    for x in t + b:
        ks = [i for i, r in enumerate(gs) if r.geom.buffer(max(1e-9 * L, 2e-12)).contains(x.geom)]
        rec.check(len(ks) == 1, lambda: f"{what}: piece lies in {len(ks)} regions: {x.geom.wkt}")
        k = ks[0]
        rec.check(x.material is gs[k].material, f"{what}: piece of {gs[k].material.name} has material {x.material.name}")
        rec.check(gref.inside(x.geom, x.control_points[0]), f"{what}: control point outside of the piece")
        left[k] += x.geom.area
    for a, k in zip(left, gs):
        rec.check(abs(a - k.geom.area) <= 1e-9 * L * L + 4e-12 * L, f"{what}: pieces of a region cover {a} of {k.geom.area}")
    for x, y in itertools.combinations(t + b, 2):
        rec.check(not x.geom.buffer(-1e-9 * L).intersects(y.geom), f"{what}: pieces overlap")
    rec.state((what,))
    rec.outcome((len(t), len(b), case["comp"]))


def bad(case, rec):
    g = gref.mk([[0, 0], [1, 0], [1, 1], [0, 1]])
    rec.step(); rec.trace(); rec.state(case["bad"])
    try:
        g.split_section((0, 0))
    except ValueError:
        return
    rec.fail("a line given by a single point is accepted")
