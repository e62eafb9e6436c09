"""C15: compound geometries compile to a consistent planar description."""
import itertools, math, warnings
import shapely
from shapely import Point, Polygon
from . import ref, gref
from .c01 import labelled

NEEDS_FEA = True
CHUNK = 12
ALPHABET = "combine labelled cell regions, nested rings and islands, T-junction arrangements, lattice triangles; region orders; nested sums; affine maps"
BOUND = {"quick": "all labellings {void,1,2}^6 of a 2x3 box (each map cycled, both orders), all 3x3 rings with a labelled centre and 2 void rings, 96 special "
                  "arrangements x 22 maps, all region orders of up to 4 regions; all pairs of triangles on a 2-lattice x 4 offsets; "
                  "every polyomino void of 2 to 5 cells in one region, of 3 and 4 cells between two regions; 14 sections of up to 12 regions, 9 voids and 5 nested rings x 3 orders; 16 assigned control points x 99 cutting boxes; "
                  "all 2^8 choices of corners of two regions doubled within the rounding tolerance x 4 tolerances",
         "thorough": "additionally all labellings of a 2x4 and {void,1}^9 and two-label 3x3 boxes"}
ORACLE = ("cell combinatorics: exact point set, boundary edges, connectivity, voids; shared-point planarity; extents, area, centroid; warnings of disjoint and "
          "overlapping regions")

SQ = lambda x, y, w, h, m=None: dict(ext=[[x, y], [x + w, y], [x + w, y + h], [x, y + h]], holes=[], mat=m)


def hole(r, *hs):
    return dict(r, holes=[list(h["ext"]) for h in hs])


def specials():
    out = []
    out.append([SQ(0, 0, 2, 1), SQ(0, 1, 1, 2)]); out.append([SQ(0, 0, 3, 1), SQ(1, 1, 1, 2), SQ(0, 3, 3, 1)])
    out.append([SQ(0, 0, 4, 4), SQ(4, 1, 1, 1), SQ(4, 2.5, 1, 1)])
    out.append([SQ(0, 0, 4, 1), SQ(0, 1, 1, 1), SQ(1, 1, 1, 1), SQ(2, 1, 0.5, 2), SQ(3, 1, 1, 1)])
    out.append([hole(SQ(0, 0, 4, 4), SQ(1, 1, 2, 2)), SQ(1, 1, 2, 2)])
    out.append([hole(SQ(0, 0, 4, 4), SQ(1, 1, 2, 2)), SQ(1, 1, 1, 2)])
    out.append([hole(SQ(0, 0, 4, 4), SQ(1, 1, 2, 2)), SQ(1.5, 1.5, 1, 1)])
    out.append([hole(SQ(0, 0, 4, 4), SQ(1, 1, 2, 2)), SQ(1, 1, 1, 1), SQ(2, 2, 1, 1)])
    out.append([hole(SQ(0, 0, 6, 6), SQ(1, 1, 4, 4)), hole(SQ(1, 1, 4, 4), SQ(2, 2, 2, 2)), SQ(2, 2, 2, 2)])
    out.append([hole(SQ(0, 0, 6, 6), SQ(1, 1, 4, 4)), hole(SQ(1.5, 1.5, 3, 3), SQ(2, 2, 2, 2))])
    out.append([hole(SQ(0, 0, 6, 6), SQ(1, 1, 4, 4)), hole(SQ(1.5, 1.5, 3, 3), SQ(2, 2, 2, 2)), SQ(2.5, 2.5, 0.5, 0.5)])
    out.append([hole(SQ(0, 0, 8, 4), SQ(1, 1, 2, 2), SQ(5, 1, 2, 2)), SQ(5, 1, 2, 2)])
    out.append([SQ(0, 0, 4, 1), SQ(0, 1, 1, 2), SQ(3, 1, 1, 2), SQ(0, 3, 4, 1)])
    out.append([SQ(0, 0, 4, 1), SQ(0, 1, 1, 2), SQ(3, 1, 1, 2), SQ(0, 3, 4, 1), SQ(1.5, 1.5, 0.5, 0.5)])
    out.append([SQ(0, 0, 1, 1), SQ(3, 0, 1, 1)]); out.append([SQ(0, 0, 1, 1), SQ(1, 1, 1, 1)])
    out.append([SQ(0, 0, 1, 1), SQ(3, 0, 1, 1), SQ(1, 0, 1, 0.5)])
    out.append([SQ(0, 0, 1, 1), SQ(3, 0, 1, 1), SQ(1, 0.25, 2, 0.5)])
    out.append([dict(ext=[[0, 0], [4, 0], [2, 3]]), dict(ext=[[0, 0], [2, 3], [0, 6]]), dict(ext=[[1, -2], [3, -2], [3, 0], [1, 0]])])
    out.append([dict(ext=[[0, 0], [4, 0], [0, 4]]), dict(ext=[[3, 1], [1, 3], [4, 4]])])
    out.append([dict(ext=[[0, 0], [6, 0], [0, 6]]), dict(ext=[[5, 1], [4, 2], [6, 3]]), dict(ext=[[3, 3], [2, 4], [4, 5]])])
    out.append([SQ(0, 0, 4, 0.01), SQ(1, 0.01, 2, 5), SQ(0.5, 5.01, 3, 0.01)])
    out.append([SQ(0, 0, 1, 1, "S")]); out.append([hole(SQ(0, 0, 4, 4, "S"), SQ(1, 1, 2, 2))])
    mats = ["S", "C", "T", "K", "E"]
    return [[dict(r, mat=r.get("mat") or mats[i % 5]) for i, r in enumerate(s)] for s in out]


def cases(tier):
    T = list(ref.TR)
    out = []
    boxes = [(2, 3)] if tier == "quick" else [(2, 3), (2, 4)]
    for (w, h) in boxes:
        for j, l in enumerate(itertools.product((0, 1, 2), repeat=w * h)):
            regs, _ = labelled(w, h, l) if any(l) else (None, None)
            if not regs:
                continue
            out.append(dict(regions=regs, tr=T[j % len(T)]))
            if len(regs) > 1:
                out.append(dict(regions=regs[::-1], tr=T[(j * 7 + 3) % len(T)]))
    for j, l in enumerate(itertools.product((0, 1, 2), repeat=9)):
        ring = [l[i] for i in (0, 1, 2, 3, 5, 6, 7, 8)]
        if not (ring.count(0) == 0 and (tier != "quick" or ring.count(2) <= 3) or (tier != "quick" and (2 not in l or 0 not in l))):
            continue
        regs, _ = labelled(3, 3, l) if any(l) else (None, None)
        if regs:
            out.append(dict(regions=regs, tr=T[j % len(T)]))
    for s in specials():
        perms = list(itertools.permutations(range(len(s)))) if len(s) <= 4 else [tuple(range(len(s))), tuple(range(len(s)))[::-1]]
        for i, t in enumerate(T):
            for p in (perms if i == 0 else [perms[i % len(perms)]]):
                out.append(dict(regions=[s[k] for k in p], tr=t, warn=(i % 6 == 0)))
    big = tier != "quick"
    for i, r in enumerate(ref.void_plates((2, 3, 4, 5)) + ref.void_plates((3, 4, 5) if big else (3, 4), True)):
        for k in range(3 if big else 1):
            out.append(dict(regions=r, tr=T[(i * 5 + k * 7) % len(T)], single=len(r) == 1 and i % 3 != 2))
    for i, (_, s) in enumerate(ref.big_sections()):
        n = len(s["regions"])
        for k in range(3 if not big else 12):
            o = [list(range(n)), list(range(n))[::-1], sorted(range(n), key=lambda j: (j * 5 + k) % (n + 1))][k % 3]
            out.append(dict(regions=[s["regions"][j] for j in o], tr=T[(i * 5 + k * 7) % len(T)], warn=k == 0, single=n == 1 and k % 2))
    tr = ref.lattice_triangles(2)
    for i, a in enumerate(tr):
        out.append(dict(tri=a, pairs=1, tr=T[i % len(T)]))
    for i in range(4):
        for j in range(4):
            out.append(dict(cp=[i + 0.5, j + 0.375], tr=["id", "mirx", "big", "rot90far", "rot345"][(i + j) % 5]))
    for dx, dy in itertools.product((0.5, 1, 2, 2.5, 3, -1, 0), repeat=2):
        out.append(dict(over=[dx, dy]))
    for tol in (2, 5, 9, 12):
        for k in range(4):
            out.append(dict(near=tol, first=k))
    for e in (0.1, 0.01, 0.001, 1e-4, 1e-5, 1e-6):   # small overlaps, at corners and along sides, in every scale
        for i, t in enumerate(["id", "mm", "km", "rot345", "mix"] if tier == "quick" else T):
            for dx, dy in ((2 - e, 0), (2 - e, 0.5), (2 - e, 1), (0, e - 1), (1, 2 - e), (0.5, 2 - e), (2 - e, 2 - e)):
                if dx + dy < 3 or e > 1e-4:
                    out.append(dict(over=[dx, dy], tr=t))
    return out


def expected(case):
    """Exact model: regions as rings, union through cells is not available for free shapes; use shapely on snapped exact floats."""
    return [Polygon(ref.fl(e), [ref.fl(h) for h in hs]) for e, hs, m in ref.exact_regions(case)]


def union_facts(case):
    """Connectivity, outer length and voids from the untransformed (exactly representable) coordinates."""
    ps = [Polygon(ref.fl(r["ext"]), [ref.fl(h) for h in r.get("holes", ())]) for r in case["regions"]]
    u = shapely.unary_union(ps)
    us = list(u.geoms) if hasattr(u, "geoms") else [u]
    voids = []
    for q in us:
        for r in q.interiors:
            v = Polygon(r)
            for o in us:
                if o is not q and v.contains(o):
                    v = v.difference(Polygon(o.exterior))
            voids += [g for g in (v.geoms if hasattr(v, "geoms") else [v]) if g.area > 0]
    return us, voids, ps


def run_case(case, rec):
    if "over" in case:
        return overlap(case, rec)
    if "near" in case:
        return near(case, rec)
    if "cp" in case:
        return assigned(case, rec)
    if "tri" in case:
        for b in ref.lattice_triangles(2):
            for dx, dy in ((2, 0), (0, 2), (0, -2), (1, 2)):
                bb = [[x + dx, y + dy] for x, y in b]
                A, B = Polygon(case["tri"]), Polygon(bb)
                if A.intersection(B).area > 0:
                    continue
                check(dict(regions=[dict(ext=case["tri"], holes=[], mat="S"), dict(ext=bb, holes=[], mat="C")], tr=case["tr"]), rec)
        return
    check(case, rec)


NEAR = [[[0, 0], [2, 0], [2, 2], [0, 2]], [[2, 0], [4, 0], [4, 1], [2, 1]]]


def near(case, rec):
    """Every choice of corners followed (or preceded) by a vertex that coincides with it once rounded."""
    import numpy as np
    from sectionproperties.pre import CompoundGeometry, Geometry
    tol, k0 = case["near"], case["first"]
    e = 0.3 * 10.0 ** -tol
    for mask in range(k0, 256, 4):
        for sgn in (1, -1):
            ps = []
            for r, ring in enumerate(NEAR):
                c = []
                for i, (x, y) in enumerate(ring):
                    u, v = ring[(i + sgn) % 4]
                    x2, y2 = x + e * ((u > x) - (u < x)), y + e * ((v > y) - (v < y))
                    c += [[x, y]] if not mask >> (4 * r + i) & 1 else [[x, y], [x2, y2]] if sgn > 0 else [[x2, y2], [x, y]]
                ps.append(Polygon(c))
            what = f"regions {[p.wkt for p in ps]} rounded to {tol} decimals"
            with warnings.catch_warnings(), np.errstate(all="raise"):
                warnings.simplefilter("error", RuntimeWarning)
                gs = [Geometry(p, ref.material("SC"[i]), tol=tol) for i, p in enumerate(ps)]
                g = CompoundGeometry(gs)
            rec.step()
            for q, ring in zip(gs, NEAR):
                rec.check(sorted(q.points) == sorted(map(tuple, ring)), lambda: f"{what}: points of a region {q.points}")
                rec.check(len(q.facets) == 4 and all(i != j for i, j in q.facets), lambda: f"{what}: facets of a region {q.facets}")
            rec.check(sorted(g.points) == sorted({tuple(p) for r in NEAR for p in r} ), lambda: f"{what}: points {g.points}")
            f = {tuple(sorted((g.points[i], g.points[j]))) for i, j in g.facets}
            rec.check(len(f) == 8 and all(a != b for a, b in f), lambda: f"{what}: facets {sorted(f)}")
            gref.wellformed(rec, g, what)
    rec.trace(); rec.state(("near", tol, k0)); rec.outcome((tol, k0))


def check(case, rec):
    from sectionproperties.pre import CompoundGeometry
    tr = case["tr"]
    want = expected(case)
    gs = [gref.mk(e, hs, m) for e, hs, m in ref.exact_regions(case)]
    if len(gs) > 2 and case.get("warn"):
        g = gs[0] + gs[1]
        for k in gs[2:]:
            g = g + k
    elif case.get("single"):
        g = gs[0]
    else:
        g = CompoundGeometry(gs)
    rec.step()
    us, voids, flat = union_facts(case)
    a, b, c, d, tx, ty = ref.TR[tr]
    aff = lambda p: shapely.affinity.affine_transform(p, [float(v) for v in (a, b, c, d, tx, ty)])
    import shapely.affinity
    L = gref.size(*want)
    tol = 1e-10 * L
    what = f"{[r['ext'] for r in case['regions']]} under {tr}"
    rec.check(len(gref.parts(g)) == len(want), f"{what}: regions lost")
    for p, q, r in zip(gref.parts(g), want, case["regions"]):
        rec.check(gref.same(p.geom, q, tol), f"{what}: region changed: {p.geom.wkt}")
        rec.check(p.material == ref.material(r.get("mat")), f"{what}: material changed")
    gref.wellformed(rec, g, what)
    # unique points, exactly the vertices
    pts = [tuple(map(float, p)) for p in g.points]
    vs = []
    for p in want:
        for v in shapely.get_coordinates(p):
            if all(math.dist(v, w) > tol for w in vs):
                vs.append(tuple(v))
    rec.check(len(pts) == len(vs), lambda: f"{what}: {len(pts)} points for {len(vs)} distinct vertices")
    for v in vs:
        rec.check(min(math.dist(v, p) for p in pts) <= tol, f"{what}: vertex {v} has no point")
    # planar: no point in the interior of a facet, no facet crossing another
    for i, j in g.facets:
        s = shapely.LineString([pts[i], pts[j]])
        for k, p in enumerate(pts):
            if k not in (i, j):
                rec.check(s.distance(Point(p)) > tol * 0.1 + 1e-9 * s.length, lambda: f"{what}: point {p} lies on facet {pts[i]}-{pts[j]} without being its end")
    rec.step(len(g.facets))
    # voids
    av = [aff(v) for v in voids]
    rec.check(len(g.holes) == len(av), lambda: f"{what}: {len(g.holes)} hole markers for {len(av)} enclosed voids")
    for v in av:
        n = sum(v.contains(Point(h)) for h in g.holes)
        rec.check(n == 1, f"{what}: a void has {n} hole markers")
    for h in g.holes:
        rec.check(not any(p.buffer(-tol).contains(Point(h)) for p in want), f"{what}: hole marker inside a region")
    # measures
    xs = [v[0] for v in vs]; ys = [v[1] for v in vs]
    e = g.calculate_extents()
    rec.check(max(abs(p - q) for p, q in zip(e, (min(xs), max(xs), min(ys), max(ys)))) <= tol, f"{what}: extents {e}")
    m = [sum(t) for t in zip(*[v for _, v in ref.moments(case)])]
    A = float(m[0])
    rec.check(abs(g.calculate_area() - A) <= 1e-9 * A, f"{what}: area {g.calculate_area()}, exact {A}")
    cx, cy = g.calculate_centroid()
    rec.check(abs(cx - float(m[2] / m[0])) <= 1e-9 * L and abs(cy - float(m[1] / m[0])) <= 1e-9 * L, f"{what}: centroid {cx, cy}")
    P = g.calculate_perimeter()
    if len(us) == 1:
        w = aff(us[0]).exterior.length
        rec.check(abs(P - w) <= 1e-8 * w, f"{what}: perimeter {P}, expected {w}")
    else:
        rec.check(P == -1, f"{what}: perimeter {P} of disjoint regions")
    if case.get("warn"):
        warns(case, g, rec, us, flat, what)
    rec.state((what,))
    rec.outcome((len(g.points), len(g.facets), len(g.holes), len(us)))
    rec.trace()


def warns(case, g, rec, us, flat, what):
    """Disjoint regions are reported by the warping analysis, overlapping ones by the plastic analysis."""
    from sectionproperties.analysis import Section
    g.create_mesh([0]); s = Section(g)
    s.calculate_geometric_properties()
    touch = {i: {j for j in range(len(flat)) if i != j and flat[i].intersects(flat[j])} for i in range(len(flat))}
    seen, st = {0}, [0]
    while st:
        for j in touch[st.pop()]:
            if j not in seen:
                seen.add(j); st.append(j)
    if len(seen) == len(flat) and len(us) > 1:
        return  # touching at a point only
    if len(flat) > 1 or not case.get("single"):
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            try:
                s.calculate_warping_properties()
            except Exception:
                rec.check(len(us) > 1, f"{what}: warping analysis fails on connected regions")
        got = any("disjoint" in str(x.message) for x in w)
        rec.check(got == (len(us) > 1), f"{what}: disjoint warning {got}, regions form {len(us)} pieces")
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        s.calculate_plastic_properties()
    rec.check(not any("overlap" in str(x.message) for x in w), f"{what}: regions reported as overlapping")
    rec.step(3)


def assigned(case, rec):
    """A region with an assigned control point, cut by every box of a 4x4 grid and combined with what was cut out."""
    t = case["tr"]
    pts = lambda x, y, w, h: ref.tr_pts([[x, y], [x + w, y], [x + w, y + h], [x, y + h]], t)
    cp = tuple(float(v) for v in ref.tr_pts([case["cp"]], t)[0])
    for given in (0, 1):
        A = gref.mk(pts(0, 0, 4, 4), (), "S", cp if given else None)
        if not given:
            A = A.assign_control_point(cp)
        gref.wellformed(rec, A, f"control point {cp}")
        rec.check(math.dist(A.control_points[0], cp) < 1e-9 * gref.size(A.geom), f"control point {cp} assigned, {A.control_points[0]} used")
        for x, y, w, h in itertools.product(range(4), range(4), range(1, 5), range(1, 5)):
            if x + w > 4 or y + h > 4 or (w, h) == (4, 4):
                continue
            B = gref.mk(pts(x, y, w, h), (), "C")
            what = f"4x4 region with control point {case['cp']} and box {x, y, w, h} under {t}"
            D, I = A - B, A & B
            for nm, g in (("difference", D), ("intersection", I), ("union", A | B), ("difference + box", D + B), ("box + difference", B + D), ("difference + intersection", D + I)):
                gref.wellformed(rec, g, f"{what}: {nm}"); rec.step()
            rec.state((what, given))
    rec.outcome(case["cp"]); rec.trace()


def overlap(case, rec):
    from sectionproperties.pre import CompoundGeometry
    from sectionproperties.analysis import Section
    dx, dy = case["over"]
    t = case.get("tr", "id")
    mk = lambda x, y, w, h, m: gref.mk(ref.tr_pts([[x, y], [x + w, y], [x + w, y + h], [x, y + h]], t), (), m)
    a, b, c = mk(0, 0, 2, 2, "S"), mk(dx, dy, 2, 1, "C"), mk(-3, -1, 3, 5, "T")
    ov = a.geom.intersection(b.geom).area
    from sectionproperties.pre import geometry as G
    if "tr" in case:
        for gs in () if not hasattr(G, "check_geometry_overlaps") else ([a, b], [b, a], [c, a, b], [b, c, a]):
            rec.check(G.check_geometry_overlaps(lop=[x.geom for x in gs]), f"offset {dx, dy} under {t}: regions that overlap by {ov} are not reported")
            rec.step(); rec.state((dx, dy, t, len(gs)))
        rec.trace()
        return
    for gs in ([a, b], [b, a]):
        g = CompoundGeometry(gs); rec.step()
        if hasattr(G, "check_geometry_overlaps"):
            rec.check(G.check_geometry_overlaps(lop=[x.geom for x in g.geoms]) == (ov > 0), f"offset {dx, dy}: overlap detection wrong for overlap area {ov}")
        if hasattr(G, "check_geometry_disjoint"):
            dj = not a.geom.intersects(b.geom)
            rec.check(G.check_geometry_disjoint(lop=[x.geom for x in g.geoms]) == dj, f"offset {dx, dy}: disjoint detection wrong")
        if ov == 0:
            gref.wellformed(rec, g, f"offset {dx, dy}")
        else:
            g.create_mesh([0]); s = Section(g); s.calculate_geometric_properties()
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter("always")
                try:
                    s.calculate_plastic_properties()
                except (RuntimeError, ValueError):
                    pass    # only the warning is required for regions that overlap
            rec.check(any("overlap" in str(x.message) for x in w), f"offset {dx, dy}: no warning about regions that overlap by {ov}")
        rec.state((dx, dy, len(gs)))
    rec.trace()
