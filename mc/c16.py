"""C16: geometries from points, facets, holes and control points."""
import itertools
import shapely
from shapely import Point, Polygon
from . import ref, gref
from .c01 import labelled

ALPHABET = ("loops of single regions with up to 3 holes and of compounds; every starting point and direction of each loop, point renumberings, hole loop and marker "
            "orders, several control point positions; round trips of points/facets/holes/control points")
BOUND = {"quick": "all polyominoes of up to 5 cells, all 3x3 hole patterns, triangles on a 2-lattice, 5 multi-hole shapes x all starts (lock-step) x all direction "
                  "combinations x 4 numberings x 2 loop orders; all labellings {void,1,2}^6 of a 2x3 box and 3x3 rings round-tripped under cycled affine maps in both "
                  "region orders; 9 sections of many parts; 8 kinds of inconsistent input",
         "thorough": "additionally the labellings of a 2x4 and the two-label 3x3 boxes, every labelling under 3 maps"}
ORACLE = "the polygons the loops were written from, compared as point sets; materials by identity; control points and hole markers inside their region/void"


def shapes():
    out = [[ref.region_cells(c)] for n in range(1, 6) for c in ref.polyominoes(n)]
    full = [(x, y) for x in range(3) for y in range(3)]
    out.append([ref.region_cells([c for c in full if c != (1, 1)])])
    out += [[dict(ext=t, holes=[])] for t in ref.lattice_triangles(2)]
    R = lambda x, y, w, h: [[x, y], [x + w, y], [x + w, y + h], [x, y + h]]
    out.append([dict(ext=R(0, 0, 7, 3), holes=[R(1, 1, 1, 1), [[3, 1], [4, 1], [3, 2]], R(5, 1, 1, 0.5)])])
    out.append([dict(ext=R(0, 0, 3, 7), holes=[R(1, 5, 1, 1), R(1, 1, 1, 1)])])
    out.append([dict(ext=[[0, 0], [6, 0], [6, 6], [3, 3], [0, 6]], holes=[[[1, 1], [2, 1], [2, 2], [1, 2]], [[4, 1], [5, 1], [4.5, 2]]])])
    out.append([dict(ext=R(0, 0, 4, 4), holes=[[[1, 1], [3, 1], [3, 3], [2, 2], [1, 3]]])])
    big = {k: b["regions"] for k, b in ref.big_sections()}
    return out + [big["five voids"], big["comb"]]


def surrounds(regs):
    ps = [gref.poly_of(r) for r in regs]
    return any(Polygon(h).contains(q) for i, p in enumerate(ps) for h in p.interiors for j, q in enumerate(ps) if i != j)


def cases(tier):
    T = list(ref.TR); out = []
    for i, s in enumerate(shapes()):
        out.append(dict(regions=s, tr=T[i % len(T)], mode="loops"))
        out.append(dict(regions=s, tr=T[(i + 9) % len(T)], mode="loops"))
    boxes = [(2, 3)] + ([(2, 4)] if tier != "quick" else [])
    for w, h in boxes:
        for j, l in enumerate(itertools.product((0, 1, 2), repeat=w * h)):
            r = labelled(w, h, l)[0] if any(l) else None
            if r:
                for k in range(1 if tier == "quick" else 3):
                    out.append(dict(regions=r, tr=T[(j + 7 * k) % len(T)], mode="trip", dup=(j % 3)))
                    if len(r) > 1:
                        out.append(dict(regions=r[::-1], tr=T[(j * 5 + 3 + k) % len(T)], mode="trip", dup=((j + 1) % 3)))
    for j, l in enumerate(itertools.product((0, 1, 2), repeat=9)):
        if l[4] == 0 and any(l) and (l.count(0) <= 2 and (tier != "quick" or l.count(2) in (1, 2, 6))) or (tier != "quick" and 2 not in l and any(l)):
            r = labelled(3, 3, l)[0]
            if r and not surrounds(r):
                out.append(dict(regions=r, tr=T[j % len(T)], mode="trip", dup=j % 3))
    for j, (_, b) in enumerate(ref.big_sections()):
        if not surrounds(b["regions"]):
            for k in range(3):
                r = b["regions"]
                out.append(dict(regions=[r, r[::-1], r[1::2] + r[::2]][k], tr=T[(j * 5 + k * 7) % len(T)], mode="trip", dup=(j + k) % 3))
    # vertices where one loop starts at the end of the previous one
    R = lambda x, y, w, h, m: dict(ext=[[x, y], [x + w, y], [x + w, y + h], [x, y + h]], holes=[], mat=m)
    for a in range(4):
        for b in range(4):
            for q in ((1, 0), (0, 1), (-1, 0), (1, 1), (0, -1)):
                r1, r2 = R(0, 0, 1, 1, "S"), R(*q, 1, 1, "C")
                r1["ext"] = r1["ext"][a:] + r1["ext"][:a]; r2["ext"] = r2["ext"][b:] + r2["ext"][:b]
                out.append(dict(regions=[r1, r2], tr="id", mode="trip", dup=0))
                out.append(dict(regions=[r1, r2, R(5, 5, 1, 2, "T")], tr="id", mode="merged", dup=0))
    for i in range(8):
        out.append(dict(mode="bad", i=i))
    return out


def run_case(case, rec):
    dict(loops=loops, trip=trip, merged=merged, bad=bad)[case["mode"]](case, rec)


def number(rings, how):
    """points and facets of closed rings; how: numbering of the points."""
    pts = [p for r in rings for p in r]
    n = len(pts)
    order = {0: list(range(n)), 1: list(range(n))[::-1], 2: list(range(0, n, 2)) + list(range(1, n, 2)), 3: [(3 * i + 1) % n if n % 3 else (i + 2) % n for i in range(n)]}[how]
    pos = {k: i for i, k in enumerate(order)}
    points = [tuple(pts[k]) for k in order]
    facets, o = [], 0
    for r in rings:
        m = len(r)
        facets += [(pos[o + i], pos[o + (i + 1) % m]) for i in range(m)]
        o += m
    return points, facets


def cps(poly):
    c = [poly.representative_point().coords[0]]
    x0, y0, x1, y1 = poly.bounds
    for a in (0.05, 0.5, 0.93):
        for b in (0.06, 0.49, 0.95):
            q = (x0 + a * (x1 - x0), y0 + b * (y1 - y0))
            if poly.buffer(-1e-3 * min(x1 - x0, y1 - y0)).contains(Point(q)):
                c.append(q)
    return c


def loops(case, rec):
    from sectionproperties.pre import CompoundGeometry, Geometry
    e, hs, _ = ref.exact_regions(case)[0]
    ext = ref.fl(e); holes = [ref.fl(h) for h in hs]
    want = Polygon(ext, holes)
    L = gref.size(want)
    cands = cps(want)
    mat = ref.material("S")
    k = 0
    for st in range(max(len(ext), max([len(h) for h in holes] or [0]))):
        for dirs in itertools.product((1, -1), repeat=1 + len(holes)):
            rings = []
            for r, d in zip([ext] + holes, dirs):
                s = st % len(r)
                r = r[s:] + r[:s]
                rings.append(r[::d] if d > 0 else [r[0]] + r[:0:-1])
            for rev in ((0, 1) if len(holes) > 1 else (0,)):
                rr = [rings[0]] + (rings[1:][::-1] if rev else rings[1:])
                marks = [Polygon(h).representative_point().coords[0] for h in holes]
                how = k % 4; k += 1
                pts, fac = number(rr, how)
                cp = cands[k % len(cands)]
                what = f"loops start {st}, directions {dirs}, numbering {how}, reversed holes {rev}, {case['regions'][0]['ext']} holes {case['regions'][0]['holes']} under {case['tr']}"
                g = Geometry.from_points(points=pts, facets=fac, control_points=[cp], holes=marks if (marks or k % 2) else None, material=mat)
                rec.step()
                same(rec, g, [want], [mat], [cp], L, what)
                c = CompoundGeometry.from_points(points=pts, facets=fac, control_points=[cp], holes=marks if (marks or k % 2) else None, materials=[mat])
                rec.step()
                same(rec, c, [want], [mat], [cp], L, what + " (compound)")
                if st == 0:
                    d = Geometry.from_points(pts, fac, [cp], marks)
                    rec.check(d.material == ref.material(None), f"{what}: default material not used")
                    d = CompoundGeometry.from_points(pts, fac, [cp], marks)
                    rec.check(d.geoms[0].material == ref.material(None), f"{what}: default material not used")
                    # and round again
                    g2 = Geometry.from_points(g.points, g.facets, g.control_points, g.holes, g.material)
                    same(rec, g2, [want], [mat], [cp], L, what + " (round trip)")
                rec.state((what,))
    rec.trace()


def same(rec, g, want, mats, cp, L, what):
    ps = gref.parts(g)
    rec.check(len(ps) == len(want), f"{what}: {len(ps)} regions, expected {len(want)}")
    for i, (p, w, m) in enumerate(zip(ps, want, mats)):
        rec.check(gref.same(p.geom, w, 1e-9 * L), lambda: f"{what}: region {i} is {p.geom.wkt}, expected {w.wkt}")
        rec.check(len(p.geom.interiors) == len(w.interiors), f"{what}: region {i} has {len(p.geom.interiors)} holes")
        rec.check(p.material is m, f"{what}: region {i} has material {p.material.name}, expected {m.name}")
        if cp:
            rec.check(p.control_points[0] == cp[i] or shapely.Point(p.control_points[0]).distance(Point(cp[i])) <= 1e-9 * L, f"{what}: control point of region {i} is {p.control_points}")
    gref.wellformed(rec, g, what)


def trip(case, rec):
    from sectionproperties.pre import CompoundGeometry, Geometry
    mats = [ref.material(m, fresh=case["dup"] == 1) for m in ("S", "C", "T", "K", "S", "E", "C", "T", "K")]
    gs = []
    for i, (e, hs, m) in enumerate(ref.exact_regions(case)):
        gs.append(Geometry(Polygon(ref.fl(e), [ref.fl(h) for h in hs]), mats[i % len(mats)]))
    g = CompoundGeometry(gs)
    want = [x.geom for x in gs]
    L = gref.size(*want)
    what = f"round trip of {[r['ext'] for r in case['regions']]} under {case['tr']}"
    before = gref.snapshot(g)
    c = CompoundGeometry.from_points(points=g.points, facets=g.facets, control_points=g.control_points, holes=g.holes, materials=[x.material for x in g.geoms])
    rec.step()
    rec.check(gref.snapshot(g) == before, f"{what}: the geometry was modified")
    same(rec, c, want, [x.material for x in gs], g.control_points, L, what)
    rec.check(len(c.holes) == len(g.holes), f"{what}: {len(c.holes)} holes for {len(g.holes)}")
    for x in gs:
        y = Geometry.from_points(x.points, x.facets, x.control_points, x.holes, x.material)
        rec.step()
        same(rec, y, [x.geom], [x.material], x.control_points, L, what + " (constituent)")
    rec.state((what,)); rec.outcome((len(c.points), len(c.facets), len(c.holes)))
    rec.trace()


def merged(case, rec):
    """Loops over common points, written by hand: duplicates of a point are given once."""
    from sectionproperties.pre import CompoundGeometry
    pts, fac, cp = [], [], []
    regs = [gref.poly_of(r) for r in case["regions"]]
    for r in case["regions"]:
        idx = []
        for p in r["ext"]:
            p = tuple(p)
            if p not in pts:
                pts.append(p)
            idx.append(pts.index(p))
        fac += list(zip(idx, idx[1:] + idx[:1]))
        cp.append(gref.poly_of(r).centroid.coords[0])
    mats = [ref.material(m) for m in ("S", "C", "T")]
    for holes in (None, [], [(100.0, 100.0)]):
        g = CompoundGeometry.from_points(pts, fac, cp, holes, mats)
        rec.step()
        what = f"loops {[r['ext'] for r in case['regions']]} over common points, holes {holes}"
        same(rec, g, regs, mats, cp, 10.0, what)
        rec.state(what)
    rec.trace()


def bad(case, rec):
    from sectionproperties.pre import CompoundGeometry, Geometry
    p = [(0, 0), (1, 0), (1, 1), (0, 1), (2, 0), (3, 0), (3, 1), (2, 1)]
    f = [(0, 1), (1, 2), (2, 3), (3, 0)]; f2 = f + [(4, 5), (5, 6), (6, 7), (7, 4)]
    m = ref.material("S")
    i = case["i"]
    calls = [lambda: Geometry.from_points(p, f, []), lambda: Geometry.from_points(p, f, [(0.5, 0.5), (0.2, 0.2)]),
             lambda: CompoundGeometry.from_points(p, f2, [(0.5, 0.5)]), lambda: CompoundGeometry.from_points(p, f2, [(0.5, 0.5), (2.5, 0.5)], materials=[m]),
             lambda: CompoundGeometry.from_points(p, f, [(0.5, 0.5), (2.5, 0.5)]), lambda: CompoundGeometry.from_points(p, f2, [], materials=[m, m]),
             lambda: CompoundGeometry.from_points(p, f2, [(0.5, 0.5), (2.5, 0.5)], materials=[m, m, m]),
             lambda: CompoundGeometry.from_points([(0, 0), (9, 0), (9, 9), (0, 9), (1, 1), (2, 1), (2, 2), (1, 2)], f2, [(20, 20)], holes=[(1.5, 1.5)])]
    rec.step(); rec.trace(); rec.state(i)
    try:
        calls[i]()
    except ValueError:
        return
    rec.fail(f"inconsistent input {i} is accepted")
