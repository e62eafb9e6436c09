"""C13: shift, rotate, mirror and point edits against plain affine maps, over all operation sequences to a depth."""
import itertools, math
import shapely
from shapely import Point, Polygon
from . import ref, gref
from .c01 import labelled

ALPHABET = ("shift (4 vectors), rotate (9 angles incl. quarter turns, degrees and radians, about the centre, the origin, a point), "
            "mirror (x, y; centre, origin, a point), shift_points (index or list, dx/dy, absolute incl. 0), on single geometries with holes, "
            "assigned control points and tolerances and on compound geometries")
BOUND = {"quick": "all operation sequences of length <=2 over 22 operations on 32 geometries; every shift_points call over each point x 12 targets",
         "thorough": "all operation sequences of length <=3 over 22 operations on the same geometries; length-2 on 120 more shapes"}
ORACLE = "plain affine map of every ring vertex and control point about one intended point (bounding-box centre by default), composed over the sequence"

OPS = [("shift", 3, -2), ("shift", 0, 0), ("shift", -0.5, 0), ("shift", 0, 100.25)]
OPS += [("rot", a, p, r) for a, p, r in ((90, "center", 0), (-90, None, 0), (180, "center", 0), (270, "0", 0), (30, "center", 0),
                                         (-137.5, "p", 0), (math.pi / 3, "center", 1), (math.pi / 2, "0", 1), (-2.5, "p", 1), (45, "0", 0))]
OPS += [("mir", a, p) for a in "xy" for p in (None, "center", "0", "p")]
PT = {"0": (0, 0), "p": (1.5, -0.25)}

SQ = lambda x, y, w, h, m=None, **k: dict(ext=[[x, y], [x + w, y], [x + w, y + h], [x, y + h]], holes=[], mat=m, **k)


def shapes():
    L = [[0, 0], [2, 0], [2, 1], [1, 1], [1, 3], [0, 3]]
    out = [[SQ(0, 0, 2, 1)], [dict(ext=L, mat="S")], [dict(ext=L, mat="C", cp=[0.5, 2.5])], [dict(ext=[[0, 0], [3, 0], [0, 2]], mat=None, cp=[0.25, 0.25])],
           [dict(ext=[[0, 0], [4, 0], [4, 4], [0, 4]], holes=[[[1, 1], [2, 1], [2, 3], [1, 3]]], mat="T")],
           [dict(ext=[[0, 0], [6, 0], [6, 4], [0, 4]], holes=[[[1, 1], [2, 1], [2, 3], [1, 3]], [[4, 1], [5, 1], [5, 2]]], mat=None, cp=[3, 2])],
           [dict(ext=[[-3, 5], [2, 6], [1, 9]], mat="S", tol=3)], [dict(ext=L, mat="U", tol=6, cp=[0.5, 0.5])],
           [dict(ext=[[100, 100], [102, 100], [102, 105], [100, 105]], mat="D")]]
    comp = [[SQ(0, 0, 2, 1, "S"), SQ(0, 1, 1, 2, "C")], [SQ(0, 0, 2, 1), SQ(4, 3, 1, 2)], [SQ(0, 0, 2, 1, "S", cp=[0.25, 0.25]), SQ(2, 0, 1, 1, "C", cp=[2.75, 0.25])],
            [dict(ext=[[0, 0], [4, 0], [4, 4], [0, 4]], holes=[[[1, 1], [2, 1], [2, 3], [1, 3]]], mat="T"), dict(ext=[[1, 1], [2, 1], [2, 3], [1, 3]], mat="C")],
            [dict(ext=[[0, 0], [3, 0], [0, 3]], mat="S"), dict(ext=[[3, 0], [3, 3], [0, 3]], mat="S", cp=[2.5, 2])],
            [SQ(0, 0, 1, 1, "S"), SQ(1, 0, 1, 1, "C"), SQ(1, 1, 1, 3, "T")], [SQ(-5, -5, 1, 1)], [SQ(0, 0, 1, 5, "D", cp=[0.5, 4.5]), SQ(1, 0, 3, 1)],
            [dict(ext=[[0, 0], [6, 0], [6, 4], [0, 4]], holes=[[[1, 1], [2, 1], [2, 3], [1, 3]], [[4, 1], [5, 1], [5, 2]]], mat="K"), SQ(6, 1, 1, 1, "C")]]
    big = {k: b["regions"] for k, b in ref.big_sections()}
    out.append(big["grid"])
    comp += [big[k] for k in ("bars", "strip shuffled", "nested", "ring and islands")]
    # the same shapes in other units
    out += [scaled(out[k], f) for k, f in ((1, 1e-4), (4, 1e-3), (5, 1000.0))]
    comp += [scaled(comp[k], f) for k, f in ((0, 1e-4), (3, 1000.0), (8, 1e-3), (2, 1e-4))]
    return [(s, 0) for s in out] + [(s, 1) for s in comp + out[1:6] + out[7:10]]


def scaled(regs, f):
    z = lambda ring: [[f * float(x), f * float(y)] for x, y in ring]
    return [dict(r, ext=z(r["ext"]), holes=[z(h) for h in r.get("holes", [])], **({"cp": z([r["cp"]])[0]} if r.get("cp") else {})) for r in regs]


def cases(tier):
    out = []
    sh = shapes()
    for s, comp in sh:
        out.append(dict(regions=s, comp=comp, ops=[]))
    # shift_points: every point, list of points, relative and absolute
    for s, comp in sh:
        if comp:
            continue
        n = len(s[0]["ext"]) + sum(len(h) for h in s[0].get("holes", []))
        for idx in list(range(n)) + [[0], [0, 1], list(range(len(s[0]["ext"]))), [n - 1, 0], [-1]]:
            out.append(dict(regions=s, comp=0, pts=idx))
    deep = 2 if tier == "quick" else 3
    for s, comp in sh:
        for o in OPS:
            out.append(dict(regions=s, comp=comp, ops=[o], deep=deep - 1))
    if tier != "quick":
        for j, l in enumerate(itertools.product((0, 1, 2), repeat=5)):
            regs, _ = labelled(2, 3, list(l) + [1])
            if regs and j % 2 == 0:
                out += [dict(regions=regs, comp=1, ops=[o], deep=1) for o in OPS]
    return out


class Model:
    """List of [polygon, material, assigned control point]."""

    def __init__(self, regs):
        self.p = [[[tuple(map(float, q)) for q in ring] for ring in [r["ext"]] + list(r.get("holes", []))] for r in regs]
        self.c = [tuple(map(float, r["cp"])) if r.get("cp") else None for r in regs]

    def bbox_center(self):
        xs = [q[0] for r in self.p for ring in r for q in ring]; ys = [q[1] for r in self.p for ring in r for q in ring]
        return ((min(xs) + max(xs)) / 2, (min(ys) + max(ys)) / 2)

    def map(self, f):
        m = Model([])
        m.p = [[[f(*q) for q in ring] for ring in r] for r in self.p]
        m.c = [f(*c) if c else None for c in self.c]
        return m

    def op(self, o):
        if o[0] == "shift":
            return self.map(lambda x, y: (x + o[1], y + o[2]))
        cx, cy = self.bbox_center() if o[2] in (None, "center") else PT[o[2]]
        if o[0] == "rot":
            a = o[1] if o[3] else math.radians(o[1])
            c, s = math.cos(a), math.sin(a)
            return self.map(lambda x, y: (cx + c * (x - cx) - s * (y - cy), cy + s * (x - cx) + c * (y - cy)))
        if o[1] == "x":
            return self.map(lambda x, y: (x, 2 * cy - y))
        return self.map(lambda x, y: (2 * cx - x, y))


def apply(g, o):
    if o[0] == "shift":
        return g.shift_section(x_offset=o[1], y_offset=o[2])
    if o[0] == "rot":
        kw = {} if o[2] is None else {"rot_point": PT.get(o[2], o[2])}
        if o[3]:
            kw["use_radians"] = True
        return g.rotate_section(angle=o[1], **kw)
    kw = {} if o[2] is None else {"mirror_point": PT.get(o[2], o[2])}
    return g.mirror_section(axis=o[1], **kw)


def compare(rec, g, m, mats, tols, comp, what, loose):
    ps = gref.parts(g)
    rec.check(hasattr(g, "geoms") == bool(comp), f"{what}: kind of geometry changed")
    rec.check(len(ps) == len(m.p), f"{what}: {len(ps)} regions instead of {len(m.p)}")
    for k, (p, r) in enumerate(zip(ps, m.p)):
        want = Polygon(r[0], r[1:])
        L = gref.size(want) + loose
        tol = 1e-11 * L + 3 * 10.0 ** -min(tols) * (1 if min(tols) < 12 else 0)
        rec.check(gref.same(p.geom, want, tol), lambda: f"{what}: region {k} is {p.geom.wkt}, expected {want.wkt}")
        rec.check(p.material is mats[k] or p.material == mats[k], f"{what}: material of region {k} changed")
        rec.check(p.tol == tols[k], f"{what}: tolerance of region {k} is {p.tol}, was {tols[k]}")
        if m.c[k]:
            d = math.dist(p.control_points[0], m.c[k])
            rec.check(d <= tol, lambda: f"{what}: assigned control point at {p.control_points[0]}, expected {m.c[k]}")
        rec.check(gref.inside(want, p.control_points[0]), f"{what}: control point outside its region")
        for c in p.geom.interiors:
            rec.check(any(gref.inside(Polygon(c), h) for h in p.holes), f"{what}: hole without marker")
        rec.check(len(p.holes) == len(p.geom.interiors), f"{what}: {len(p.holes)} hole markers for {len(p.geom.interiors)} holes")
    e = g.calculate_extents()
    xs = [q[0] for r in m.p for ring in r for q in ring]; ys = [q[1] for r in m.p for ring in r for q in ring]
    tol = 1e-11 * (max(map(abs, xs + ys)) + loose) + (3 * 10.0 ** -min(tols) if min(tols) < 12 else 0)
    rec.check(max(abs(a - b) for a, b in zip(e, (min(xs), max(xs), min(ys), max(ys)))) <= tol, lambda: f"{what}: extents {e}")
    gref.wellformed(rec, g, what, tol=1e-9 + 3 * 10.0 ** -min(tols))


def make(case):
    from sectionproperties.pre import CompoundGeometry
    gs = gref.mk_regions(case["regions"])
    g = CompoundGeometry(gs) if case["comp"] else gs[0]
    return g, Model(case["regions"])


def run_case(case, rec):
    g, m = make(case)
    mats = [ref.material(r.get("mat")) for r in case["regions"]]
    tols = [r.get("tol", 12) for r in case["regions"]]
    if "pts" in case:
        return points(case, rec, g, m, mats, tols)
    if not case["ops"]:
        compare(rec, g, m, mats, tols, case["comp"], "construction", 0)
    loose = 200.0

    def go(g, m, path, left, first):
        for o in first:
            o = tuple(o)
            before = gref.snapshot(g)
            h = apply(g, o); rec.step()
            rec.check(h is not g, f"{path + [o]}: returns the original object")
            rec.check(gref.snapshot(g) == before, f"{path + [o]}: the original geometry was modified")
            mm = m.op(o)
            compare(rec, h, mm, mats, tols, case["comp"], f"{path + [o]}", loose)
            rec.state((str(case["regions"]), case["comp"], path + [o]))
            rec.outcome(h.geom.wkb)
            if left:
                go(h, mm, path + [o], left - 1, OPS)
            else:
                rec.trace()
    go(g, m, [], case.get("deep", 0), case["ops"])


MOVES = [dict(dx=0.25), dict(dy=-0.125), dict(dx=-0.125, dy=0.25), dict(abs_x=0), dict(abs_y=0), dict(abs_x=0.0, abs_y=0.0), dict(abs_x=0.5), dict(abs_y=-0.25),
         dict(abs_x=0.5, dx=7), dict(abs_y=0.0, dy=9, dx=0.125), dict(), dict(abs_x=0, dy=0.25)]


def points(case, rec, g, m, mats, tols):
    idx = case["pts"]
    flat = [(k, i) for k, ring in enumerate(m.p[0]) for i in range(len(ring))]
    # order of the points as the library lists them
    lib = [tuple(p) for p in g.points]
    order = [min(flat, key=lambda f: math.dist(m.p[0][f[0]][f[1]], p)) for p in lib]
    ids = [idx] if isinstance(idx, int) else idx
    for mv in MOVES:
        rings = [list(r) for r in m.p[0]]
        for i in ids:
            k, j = order[i]
            x, y = rings[k][j]
            rings[k][j] = (mv["abs_x"] if mv.get("abs_x") is not None else x + mv.get("dx", 0),
                           mv["abs_y"] if mv.get("abs_y") is not None else y + mv.get("dy", 0))
        ext, holes = Polygon(rings[0]), [Polygon(r) for r in rings[1:]]
        want = Polygon(rings[0], rings[1:])
        if any(len(set(r)) < len(r) for r in rings):
            rec.count("edit makes points coincide (not checked)")
            continue
        if not want.is_valid or want.area == 0 or not all(h.is_valid and h.area > 0 and ext.contains_properly(h) for h in holes):
            rec.count("edit makes the polygon invalid (not checked)")
            continue
        before = gref.snapshot(g)
        h = g.shift_points(idx, **mv); rec.step()
        rec.check(gref.snapshot(g) == before, f"shift_points({idx}, {mv}): the original geometry was modified")
        mm = Model([]); mm.p = [rings]
        mm.c = [m.c[0] if m.c[0] and gref.inside(want, m.c[0]) else None]
        compare(rec, h, mm, mats, tols, 0, f"shift_points({idx}, {mv})", 0)
        rec.state((str(case["regions"]), str(idx), str(mv)))
        rec.outcome(h.geom.wkb)
        rec.trace()
