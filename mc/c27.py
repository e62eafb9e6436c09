"""C27: geometries read from DXF drawings and Rhino models and encodings."""
import itertools, math, os, shutil, tempfile
import numpy as np
import shapely
from shapely import LineString, Point, Polygon
from shapely.ops import polygonize
from . import gref

ALPHABET = ("DXF: all simple lattice outlines up to a vertex count, with holes and several regions, drawn as lines, open/closed light and classic polylines, arcs, bulges, circles and splines in every drawing "
            "order and direction; drawing positions and scales; discretisations; Rhino: planar breps in every coordinate plane, moved, rotated, scaled, several per file, with holes and curved edges, every option")
BOUND = {"quick": "all simple polygons of 3 to 5 vertices (3x3 lattice) x 5 entity types x 2 of 9 placements, also as holes; all 48/384 line orders and directions of 12 triangles and 3 quadrilaterals; 6 curved outlines x 5 discretisations x "
                  "entity types x hole types x orders; Rhino: the same polygons of 3 and 4 vertices x 6 planes, 1 to 3 breps per file, refinements 0 to 5",
         "thorough": "simple polygons of 3 to 8 vertices; 8 discretisations, 9 placements; all orders of curved outlines"}
ORACLE = ("the drawn outline itself (exact for straight edges; for arcs and splines vertices on the curve and deviation within the bound of the requested discretisation), holes subtracted; the brep's "
          "outline in plane coordinates; documented errors")
ASSUMPTIONS = ["outlines inside holes (islands) are not claimed: the importer treats every ring inside an outline as part of a hole",
               "regions that share an edge may come back as one region: only their union is compared"]


# ---------------------------------------------------------------- outlines
def simple(nmax, m=3):
    """All simple polygons with vertices on the m x m lattice, no straight vertices, up to translation; anticlockwise, starting at the least vertex."""
    pts = [(i, j) for i in range(m) for j in range(m)]
    out = []
    for n in range(3, nmax + 1):
        for v in itertools.combinations(pts, n):
            if min(p[0] for p in v) or min(p[1] for p in v):
                continue
            for perm in itertools.permutations(v[1:]):
                if perm[0] > perm[-1]:
                    continue
                r = (v[0],) + perm
                if any((r[i][0] - r[i - 1][0]) * (r[(i + 1) % n][1] - r[i][1]) == (r[i][1] - r[i - 1][1]) * (r[(i + 1) % n][0] - r[i][0]) for i in range(n)):
                    continue
                if Polygon(r).is_valid:
                    out.append(r)
    return out


def seg_circle(c, r, a0, a1, rev=False):
    return dict(k="arc", c=c, r=r, a0=a0, a1=a1)


def L(p, q):
    return dict(k="line", p=p, q=q)


R = 0.625
CURVED = {
    "rounded": [L((R, 0), (4 - R, 0)), seg_circle((4 - R, R), R, 270, 360), L((4, R), (4, 3 - R)), seg_circle((4 - R, 3 - R), R, 0, 90), L((4 - R, 3), (R, 3)), seg_circle((R, 3 - R), R, 90, 180),
                L((0, 3 - R), (0, R)), seg_circle((R, R), R, 180, 270)],
    "slot": [L((0.7, 0), (3, 0)), seg_circle((3, 1.1), 1.1, 270, 90), L((3, 2.2), (0.7, 2.2)), seg_circle((0.7, 1.1), 1.1, 90, 270)],
    "halves": [seg_circle((2, 1.5), 1.9, 37, 217), seg_circle((2, 1.5), 1.9, 217, 37)],
    "dee": [L((1, 0.3), (1, 3.5)), seg_circle((1, 1.9), 1.6, 270, 90)],
    "notch": [L((0, 0), (4, 0)), L((4, 0), (4, 3)), L((4, 3), (3, 3)), seg_circle((2, 3), 1, 180, 360), L((1, 3), (0, 3)), L((0, 3), (0, 0))],
    "lens": [seg_circle((2, 0), 2.2, math.degrees(math.asin(1 / 2.2)), 180 - math.degrees(math.asin(1 / 2.2))), seg_circle((2, 2), 2.2, 180 + math.degrees(math.asin(1 / 2.2)), 360 - math.degrees(math.asin(1 / 2.2)))],
}
HOLES = {"none": [], "square": [("poly", [(1.7, 1.1), (2.2, 1.1), (2.2, 1.5), (1.7, 1.5)])], "circle": [("circle", (2, 1.3), 0.3)],
         "two": [("poly", [(1.4, 1.1), (1.8, 1.1), (1.6, 1.5)]), ("circle", (2.1, 1.3), 0.2)]}


def deviation(a, b):
    """Largest distance of the vertices and segment midpoints of boundary a from boundary b and back."""
    out = 0.0
    for p, q in ((a, b), (b, a)):
        c = np.concatenate([shapely.get_coordinates(r) for r in (p.geoms if hasattr(p, "geoms") else [p])])
        pts = shapely.points(np.concatenate([c, (c[1:] + c[:-1]) / 2]) if not hasattr(p, "geoms") else c)
        shapely.prepare(q)
        out = max(out, float(shapely.distance(pts, q).max()))
    return out


def fine(e, n=2000):
    if e["k"] == "line":
        return [e["p"], e["q"]]
    a0, a1 = math.radians(e["a0"]), math.radians(e["a1"])
    if a0 > a1:
        a1 += 2 * math.pi
    return [(e["c"][0] + e["r"] * math.cos(a0 + (a1 - a0) * i / n), e["c"][1] + e["r"] * math.sin(a0 + (a1 - a0) * i / n)) for i in range(n + 1)]


def curve_polygon(es):
    """Polygon bounded by the finely sampled curves."""
    if len(es) == 1 and es[0]["k"] == "circle":
        n = 4000
        return Polygon([(es[0]["c"][0] + es[0]["r"] * math.cos(2 * math.pi * i / n), es[0]["c"][1] + es[0]["r"] * math.sin(2 * math.pi * i / n)) for i in range(n)])
    left = [fine(e) for e in es]
    ring = left.pop(0)
    while left:
        for i, c in enumerate(left):
            if math.dist(c[0], ring[-1]) < 1e-7:
                ring += left.pop(i)[1:]; break
            if math.dist(c[-1], ring[-1]) < 1e-7:
                ring += left.pop(i)[::-1][1:]; break
        else:
            raise AssertionError("oracle: open outline")
    return Polygon(ring)


PLACES = [(0, 0, 1), (101.1, 57.3, 1), (-2000.7, 0.1, 1), (3, -4, 25.4), (1e4, 1e4, 1), (0.1, 0.2, 0.1), (-7, 3, 1000), (12.3, -45.6, 7.7), (0, -3e3, 1)]
ENT = ["line", "lw", "lwopen", "pl", "plopen"]


def cases(tier):
    q = tier == "quick"
    out = []
    P = simple(5 if q else 8)
    for i, r in enumerate(P):
        out.append(dict(dxf="poly", ring=r, few=q, places=[PLACES[i % 9], PLACES[(i + 3) % 9]] if q else PLACES[:4] if len(r) > 6 else PLACES))
    done = set()
    for r in P:
        n = len(r)
        if n in (3, 4) and (n == 3 or not q or len(done) < 60):
            done.add(r)
            if len([x for x in done if len(x) == n]) <= ((12 if n == 3 else 3) if q else 1000):
                out.append(dict(dxf="orders", ring=r, timeout=600))
    for name in CURVED:
        for h in HOLES:
            for j, deg in enumerate((0.25, 1, 5, 15, 30) if q else (0.5, 1, 2, 5, 9, 15, 22.5, 30)):
                for pl in range(2 if q else 5):
                    out.append(dict(dxf="curved", name=name, holes=h, deg=deg, place=(pl + j) % 4 if q else pl, bulge=False))
                    if all(e["k"] == "line" or (e["a1"] - e["a0"]) % 360 <= 180 for e in CURVED[name]):
                        out.append(dict(dxf="curved", name=name, holes=h, deg=deg, place=(pl + j) % 4 if q else pl, bulge=True))
    for name in CURVED:
        for second in range(1, 8) if not q and len(CURVED[name]) > 6 else [None]:
            out.append(dict(dxf="curve orders", name=name, all=not q, second=second, timeout=600 if q else 3600))
    for deg in (0.1, 0.6, 1, 10, 30):
        for r in (0.01, 1, 250):
            out.append(dict(dxf="circle", deg=deg, r=r))
    for k in range(6):
        for delta in (0.1, 0.05, 0.02):
            for rev in (0, 1):
                out.append(dict(dxf="spline", k=k, delta=delta, rev=rev))
    for k in range(len(MULTI)):
        for e in ENT[:4]:
            out.append(dict(dxf="multi", k=k, ent=e))
    out.append(dict(dxf="bad"))
    out.append(dict(dxf="lwbulge"))
    Q = [r for r in P if len(r) <= (4 if q else 6)]
    for r in Q:
        out.append(dict(rhino="poly", ring=r))
    for n in (1, 2, 3):
        for k in range(10 if q else 40):
            out.append(dict(rhino="file", rings=[P[(7 * k + 3 * i) % len(P)] for i in range(n)]))
    for k in range(4):
        for refine in range(0, 6 if q else 12):
            out.append(dict(rhino="curved", k=k, refine=refine))
    for k in range(6 if q else 12):
        out.append(dict(rhino="fixture", k=k))
    out.append(dict(rhino="bad"))
    return out


MULTI = [[[(0, 0), (4, 0), (4, 3), (0, 3)], [(5, 0), (9, 0), (9, 3), (5, 3)]],
         [[(0, 0), (4, 0), (4, 3), (0, 3)], [(5, 0), (9, 0), (7, 3)], [(0, 5), (2, 5), (1, 8)]],
         [[(0, 0), (4, 0), (4, 3), (0, 3)], [(4, 0), (8, 0), (8, 3), (4, 3)]],
         [[(0, 0), (4, 0), (4, 3), (0, 3)], [(4, 1), (8, 1), (8, 2), (4, 2)]],
         [[(0, 0), (4, 0), (4, 3), (0, 3)], [(4, 3), (8, 3), (8, 6), (4, 6)]]]


# ---------------------------------------------------------------- drawing
def path():
    d = tempfile.mkdtemp(prefix="c27_")
    return d


def draw(fn, **kw):
    """Write a drawing, read it through from_dxf (file name as a string) and through a Path."""
    import pathlib
    import ezdxf
    import logging
    logging.disable(logging.CRITICAL)
    from sectionproperties.pre import Geometry
    d = path()
    try:
        f = os.path.join(d, "x.dxf")
        doc = ezdxf.new()
        fn(doc.modelspace())
        doc.saveas(f)
        return Geometry.from_dxf(pathlib.Path(f) if kw.pop("as_path", False) else f, **kw)
    finally:
        shutil.rmtree(d, ignore_errors=True)
        logging.disable(logging.NOTSET)


def put(ring, ms, ent):
    r = list(ring)
    if ent == "line":
        for i in range(len(r)):
            ms.add_line(r[i - 1], r[i])
    elif ent == "lw":
        ms.add_lwpolyline(r, close=True)
    elif ent == "lwopen":
        ms.add_lwpolyline(r + r[:1])
    elif ent == "pl":
        ms.add_polyline2d(r, close=True)
    else:
        ms.add_polyline2d(r + r[:1])


def at(p, place):
    return (place[0] + place[2] * p[0], place[1] + place[2] * p[1])


def is_region(rec, g, want, tol, what):
    from sectionproperties.pre import Geometry
    rec.check(type(g) is Geometry, f"{what}: {type(g).__name__}")
    rec.check(gref.same(g.geom, want, tol), lambda: f"{what}: read {g.geom.wkt[:200]} (area {g.geom.area}), drawn {want.wkt[:200]} (area {want.area})")
    rec.check(len(g.holes) == len(want.interiors), f"{what}: {len(g.holes)} holes")
    gref.wellformed(rec, g, what)


def run_case(case, rec):
    if "rhino" in case:
        return globals()["rhino_" + case["rhino"]](case, rec)
    globals()["dxf_" + case["dxf"].replace(" ", "_")](case, rec)


def dxf_poly(case, rec):
    for k, place in enumerate(case["places"]):
        ring = [at(p, place) for p in case["ring"]]
        want = Polygon(ring)
        tol = 1e-9 * gref.size(want)
        for j, ent in enumerate(ENT):
            r = ring[j % len(ring):] + ring[:j % len(ring)]
            r = r[::-1] if (j + k) % 2 else r
            g = draw(lambda m: put(r, m, ent), as_path=(j + k) % 3 == 0)
            rec.step()
            is_region(rec, g, want, tol, f"{ent} outline {r}")
            rec.trace(); rec.state((tuple(ring), ent)); rec.outcome(round(want.area / place[2] ** 2, 6))
        # the same outline as a hole in a big square, hole first and last
        b = place[2] * 10
        x, y = place[0] - b / 2, place[1] - b / 2
        sq = [(x, y), (x + b, y), (x + b, y + b), (x, y + b)]
        w = Polygon(sq) - want
        for j, (a, c) in enumerate(itertools.product(ENT[:3], ENT[1:4])):
            if case.get("few") and j % 3 != k % 3:
                continue
            loops = [(sq, a), (ring, c)][:: 1 if (j + k) % 2 else -1]
            g = draw(lambda m: [put(r, m, e) for r, e in loops])
            rec.step()
            is_region(rec, g, w, tol * 10, f"{c} hole {ring} in a {a} square")
            rec.trace(); rec.state((tuple(ring), a, c)); rec.outcome(1)


def dxf_orders(case, rec):
    r = case["ring"]; n = len(r)
    want = Polygon(r)
    segs = [(r[i - 1], r[i]) for i in range(n)]
    for perm in itertools.permutations(range(n)):
        for mask in range(2 ** n):
            ls = [segs[i] if mask >> i & 1 else segs[i][::-1] for i in perm]
            g = draw(lambda m: [m.add_line(*s) for s in ls])
            rec.step()
            is_region(rec, g, want, 1e-9, f"lines {ls}")
            rec.trace(); rec.state((r, perm, mask)); rec.outcome(perm)


def put_curve(es, ms, place, bulge, rev=0, order=None):
    es = [es[i] for i in order] if order else es
    s = place[2]
    if not bulge:
        for e in es:
            if e["k"] == "line":
                p, q = at(e["p"], place), at(e["q"], place)
                ms.add_line(*((q, p) if rev else (p, q)))
            else:
                ms.add_arc(at(e["c"], place), e["r"] * s, e["a0"], e["a1"])
        return
    # chain into one closed classic polyline with bulges, in the direction of the first curve
    left = []
    for e in es:
        f = fine(e, 2)
        b = 0 if e["k"] == "line" else math.tan(math.radians(((e["a1"] - e["a0"]) % 360) / 4))
        left.append((f[0], f[-1], b))
    c = left.pop(0); chain = [c]
    while left:
        for i, (p, q, b) in enumerate(left):
            if math.dist(p, chain[-1][1]) < 1e-7:
                chain.append((p, q, b)); left.pop(i); break
            if math.dist(q, chain[-1][1]) < 1e-7:
                chain.append((q, p, -b)); left.pop(i); break
        else:
            raise AssertionError("oracle: open outline")
    if rev:
        chain = [(q, p, -b) for p, q, b in reversed(chain)]
    ms.add_polyline2d([(*at(p, place), b) for p, q, b in chain], format="xyb", close=True)


def near_curve(rec, g, es, holes, place, deg, what):
    """Vertices on the drawn curves, deviation within the discretisation; holes present."""
    s = place[2]
    ext = curve_polygon(es)
    hs = [Polygon(h[1]) if h[0] == "poly" else curve_polygon([dict(k="circle", c=h[1], r=h[2])]) for h in holes]
    want = ext
    for h in hs:
        want = want - h
    want = shapely.transform(want, lambda a: a * s + [place[0], place[1]])
    rmax = max([e["r"] for e in es if e["k"] != "line"] + [h[2] for h in holes if h[0] == "circle"] + [0]) * s
    # an arc of n = int(angle/deg) points has n - 1 segments
    spans = [((e["a1"] - e["a0"]) % 360 or 360) for e in es if e["k"] == "arc"] + [360 for e in es if e["k"] == "circle"] + [360 for h in holes if h[0] == "circle"]
    step = max([a / max(1, int(a / deg - 1e-9) - 1) for a in spans] + [0])
    sag = rmax * (1 - math.cos(math.radians(step) / 2)) * 1.01 + 1e-6 * s
    from sectionproperties.pre import Geometry
    rec.check(type(g) is Geometry, f"{what}: {type(g).__name__}")
    rec.check(len(g.geom.interiors) == len(hs) == len(g.holes), f"{what}: {len(g.geom.interiors)} holes, drawn {len(hs)}; area {g.geom.area}, drawn {want.area}")
    d = deviation(g.geom.boundary, want.boundary)
    rec.check(d <= sag + 1e-5 * s, lambda: f"{what}: outline {d} away from the drawn curve, allowed {sag}")
    rec.check(g.geom.symmetric_difference(want).area <= sag * want.length + 1e-6 * s * s, lambda: f"{what}: area {g.geom.area}, drawn {want.area}")
    B = want.boundary
    shapely.prepare(B)
    v = float(shapely.distance(shapely.points(np.array(g.points)), B).max())
    rec.check(v <= 2e-6 * s + 1e-6, lambda: f"{what}: a vertex lies {v} off the drawn curve")
    # the discretisation is not finer than requested by much either: points per full turn
    total = sum(spans)
    if total:
        n = sum(int(a / deg + 1e-9) for a in spans)
        straight = sum(e["k"] == "line" for e in es) * 2 + sum(len(h[1]) for h in holes if h[0] == "poly")
        rec.check(n - 2 * len(spans) <= len(g.points) <= n + 2 * len(spans) + straight, f"{what}: {len(g.points)} points, {n} expected on the arcs")
    gref.wellformed(rec, g, what, tol=1e-7)


def put_holes(hs, ms, place, k):
    for i, h in enumerate(hs):
        if h[0] == "poly":
            put([at(p, place) for p in h[1]], ms, ENT[(k + i) % len(ENT)])
        else:
            ms.add_circle(at(h[1], place), h[2] * place[2])


def dxf_curved(case, rec):
    es, hs, place = CURVED[case["name"]], HOLES[case["holes"]], PLACES[case["place"]]
    for rev in (0, 1):
        for first in (0, 1):
            def fn(ms):
                if first:
                    put_holes(hs, ms, place, rev)
                put_curve(es, ms, place, case["bulge"], rev)
                if not first:
                    put_holes(hs, ms, place, rev + 2)
            g = draw(fn, degrees_per_segment=case["deg"])
            rec.step()
            near_curve(rec, g, es, hs, place, case["deg"], f"{case} rev={rev} holes {'first' if first else 'last'}")
            rec.trace(); rec.state((case["name"], case["holes"], case["deg"], case["place"], case["bulge"], rev, first)); rec.outcome(len(g.points))


def dxf_curve_orders(case, rec):
    es = CURVED[case["name"]]; n = len(es)
    perms = list(itertools.permutations(range(n)))
    if n > 4 and not case["all"]:
        perms = [tuple((i * k + s) % n for i in range(n)) for k in range(1, n) if math.gcd(k, n) == 1 for s in range(n)]
    elif n > 6:
        perms = [p for p in perms if p[0] == 0 and p[1] == case["second"]]
    for p in perms:
        for hs in ("none", "circle"):
            g = draw(lambda ms: (put_holes(HOLES[hs], ms, PLACES[0], 0), put_curve(es, ms, PLACES[0], False, len(p) % 2, p)), degrees_per_segment=15)
            rec.step()
            near_curve(rec, g, es, HOLES[hs], PLACES[0], 15, f"{case['name']} drawn in order {p}, hole {hs}")
            rec.trace(); rec.state((case["name"], p, hs)); rec.outcome(p)


def dxf_circle(case, rec):
    r, deg = case["r"], case["deg"]
    es = [dict(k="circle", c=(2, 1), r=1.0)]
    place = (5, -3, r)
    for hs in ([], [("circle", (2, 1), 0.5)], [("poly", [(1.8, 0.9), (2.1, 0.9), (2, 1.3)])]):
        g = draw(lambda ms: (ms.add_circle(at((2, 1), place), r), put_holes(hs, ms, place, 1)), degrees_per_segment=deg)
        rec.step()
        near_curve(rec, g, es, hs, place, deg, f"circle {case} holes {hs}")
        rec.trace(); rec.state((r, deg, len(hs))); rec.outcome(len(g.points))


SPL = [[(0, 0), (1, 1), (3, 1), (4, 0)], [(0, 0), (1, 3), (2, -0.5), (4, 2)], [(0, 0), (-1, 2), (3, 3), (4, 0)], [(0, 0), (0.5, 2), (3.5, 2), (4, 0)], [(-10, 5), (-11, 20), (10, 8), (10, 5)], [(0, 0), (0, 100), (100, 100), (100, 0)]]


def dxf_spline(case, rec):
    c = SPL[case["k"]]
    pts = c[::-1] if case["rev"] else c
    # close below the curve
    lo = min(p[1] for p in c) - 1
    legs = [(c[0], (c[0][0] - 1, lo)), ((c[0][0] - 1, lo), (c[3][0] + 1.5, lo)), ((c[3][0] + 1.5, lo), c[3])]
    def fn(ms):
        s = ms.add_open_spline([(*p, 0) for p in pts])
        s.dxf.flags = s.dxf.flags | 8
        for p, q in legs:
            ms.add_line(p, q)
    g = draw(fn, spline_delta=case["delta"])
    rec.step()
    B = lambda t: tuple((1 - t) ** 3 * c[0][i] + 3 * t * (1 - t) ** 2 * c[1][i] + 3 * t * t * (1 - t) * c[2][i] + t ** 3 * c[3][i] for i in (0, 1))
    crv = [B(i / 4000) for i in range(4001)]
    want = Polygon(crv + [legs[2][0], legs[1][0]])
    c2 = 6 * max(math.hypot(*(c[i][k] - 2 * c[i + 1][k] + c[i + 2][k] for k in (0, 1))) for i in (0, 1))
    n = round(1 / case["delta"])
    dev = c2 / (n - 1) ** 2 / 8 * 1.01
    L = gref.size(want)
    rec.check(want.is_valid, f"oracle: {case}")
    d = shapely.hausdorff_distance(g.geom.boundary, want.boundary)
    rec.check(gref.size(g.geom) <= L * (1 + 1e-6) and d <= dev * 4 + 1e-6 + max(math.dist(p, q) for p, q in zip(crv, crv[1:])), lambda: f"{case}: outline {d} away from the spline, allowed {dev}")
    rec.check(abs(g.geom.area - want.area) <= dev * LineString(crv).length + 1e-6 * L * L, lambda: f"{case}: area {g.geom.area}, drawn {want.area}")
    v = max(want.boundary.distance(Point(p)) for p in g.points)
    rec.check(v <= 1e-5 * L, lambda: f"{case}: a vertex lies {v} off the spline")
    rec.check(abs(len(g.points) - (n + 2)) <= 2, f"{case}: {len(g.points)} points with a spline_delta of {case['delta']}")
    gref.wellformed(rec, g, str(case), tol=1e-7)
    rec.trace(); rec.state(tuple(case.values())); rec.outcome(len(g.points))


def dxf_multi(case, rec):
    from sectionproperties.pre import CompoundGeometry
    regs = MULTI[case["k"]]
    for perm in itertools.permutations(range(len(regs))):
        # lines that regions share are drawn once
        def fn(ms):
            if case["ent"] == "line":
                seen = set()
                for i in perm:
                    r = regs[i]
                    for j in range(len(r)):
                        s = frozenset((r[j - 1], r[j]))
                        if s not in seen:
                            seen.add(s); ms.add_line(r[j - 1], r[j])
            else:
                for i in perm:
                    put(regs[i], ms, case["ent"])
        g = draw(fn)
        rec.step()
        want = shapely.unary_union([Polygon(r) for r in regs])
        rec.check(gref.close_regions(g.geom.buffer(0), want, 1e-9), lambda: f"regions {regs} in order {perm}: read {g.geom.wkt}")
        ps = gref.parts(g)
        rec.check(abs(sum(p.geom.area for p in ps) - want.area) <= 1e-9, lambda: f"regions {regs}: overlapping regions read")
        if case["k"] in (0, 1):
            rec.check(type(g) is CompoundGeometry and len(ps) == len(regs) and all(sum(gref.same(p.geom, Polygon(r), 1e-9) for p in ps) == 1 for r in regs), f"regions {regs} in order {perm}: {len(ps)} read")
        rec.trace(); rec.state((case["k"], case["ent"], perm)); rec.outcome(len(ps))


def dxf_lwbulge(case, rec):
    """Arcs in light polylines."""
    for b in (1, 0.3, -0.2):
        g = None
        try:
            g = draw(lambda ms: ms.add_lwpolyline([(0, 0, b), (4, 0, 0), (4, 3, 0), (0, 3, 0)], format="xyb", close=True))
        except Exception as e:
            rec.fail(f"light polyline with a bulge of {b}: {e!r}", key="lwpolyline-bulge")
        rec.step(); rec.trace()
        if g is not None:
            th = 4 * math.atan(b); r = 4 * (b * b + 1) / (4 * b)
            area = 12 + r * r / 2 * (th - math.sin(th)) * (1 if b > 0 else 1)
            if abs(g.geom.area - area) > 1e-2:
                rec.fail(f"light polyline with a bulge of {b}: area {g.geom.area}, drawn {area}", key="lwpolyline-bulge")


def dxf_bad(case, rec):
    import pathlib
    from sectionproperties.pre import Geometry
    from sectionproperties.pre.geometry import load_dxf
    for f in ("/nonexistent/x.dxf", pathlib.Path("/nonexistent/x.dxf")):
        for call in (lambda: Geometry.from_dxf(f), lambda: load_dxf(f, 0.1, 1.0)):
            rec.step()
            try:
                call()
            except ValueError:
                rec.trace(); continue
            rec.fail(f"{f!r} read although it does not exist")
    for what, fn in (("empty drawing", lambda ms: None), ("single line", lambda ms: ms.add_line((0, 0), (1, 1))), ("open outline", lambda ms: ms.add_lwpolyline([(0, 0), (4, 0), (4, 3), (0, 3)])),
                     ("outline with a gap", lambda ms: [ms.add_line(*s) for s in (((0, 0), (4, 0)), ((4, 0), (4, 3)), ((4, 3), (0.1, 0)))]), ("text", lambda ms: ms.add_text("x")), ("point", lambda ms: ms.add_point((0, 0)))):
        rec.step()
        try:
            g = draw(fn)
        except RuntimeError:
            rec.trace(); continue
        rec.fail(f"{what} read as {g.geom.wkt[:100]}")


# ---------------------------------------------------------------- Rhino
PLANES = [((0, 0, 0), (1, 0, 0), (0, 1, 0)), ((0, 0, 5), (1, 0, 0), (0, 1, 0)), ((0, 0, 0), (0, 1, 0), (-1, 0, 0)), ((1, 2, 3), (0, 1, 0), (0, 0, 1)), ((0, 0, 0), (1, 0, 0), (0, 0, 1)), ((0, 0, -1), (0.6, 0.8, 0), (-0.8, 0.6, 0))]


def brep(ring, plane=PLANES[0]):
    import rhino3dm as rh
    o, u, v = plane
    p = rh.Polyline(len(ring) + 1)
    for x, y in list(ring) + [ring[0]]:
        p.Add(*(o[i] + x * u[i] + y * v[i] for i in range(3)))
    pl = rh.Plane(rh.Point3d(*o), rh.Vector3d(*u), rh.Vector3d(*v))
    return rh.Brep.CreateTrimmedPlane(pl, p.ToPolylineCurve())


def model(objs, fn):
    import rhino3dm as rh
    d = path()
    try:
        f = os.path.join(d, "x.3dm")
        m = rh.File3dm()
        for o in objs:
            m.Objects.AddBrep(o)
        m.Write(f, 7)
        return fn(f)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def rhino_poly(case, rec):
    from sectionproperties.pre import CompoundGeometry, Geometry
    ring = case["ring"]
    for k, plane in enumerate(PLANES):
        b = brep(ring, plane)
        o, u, v = plane
        def coords(v1, v2):
            e1 = np.array(v1, float) / np.linalg.norm(v1); e3 = np.cross(v1, v2); e3 = e3 / np.linalg.norm(e3); e2 = np.cross(e3, e1)
            pts = np.array([[o[i] + x * u[i] + y * v[i] for i in range(3)] for x, y in ring])
            return Polygon(np.column_stack([pts @ e1, pts @ e2]))
        # the drawing plane itself, and a rotated frame in it given by vectors of any length and angle
        frames = [(u, v), (tuple(2 * a for a in u), tuple(a + 3 * c for a, c in zip(u, v))), (tuple(-a for a in v), u)]
        if k < 3 or k == 5:
            frames.append(None)
        for fr in frames:
            kw = {} if fr is None else dict(vec1=np.array(fr[0], float), vec2=np.array(fr[1], float))
            want = coords(*(fr or ((1, 0, 0), (0, 1, 0))))
            what = f"brep {ring} in plane {plane} read with {kw}"
            for how in ("enc", "file", "cfile"):
                if how == "enc":
                    g = Geometry.from_rhino_encoding(b.Encode(), **kw)
                else:
                    g = model([b], lambda f: (Geometry if how == "file" else CompoundGeometry).from_3dm(f, **kw))
                rec.step()
                if how == "cfile":
                    rec.check(type(g) is CompoundGeometry and len(g.geoms) == 1, f"{what}: {type(g).__name__}")
                    g = g.geoms[0]
                is_region(rec, g, want, 1e-9, what)
                rec.trace(); rec.state((ring, k, fr, how)); rec.outcome(k)
        # only parallel surfaces are wanted
        n = np.cross(u, v)
        for vec, ok in (((u, v), True), ((u, tuple(n)), False)):
            if k > 4 and ok:
                continue   # normals equal up to round-off only
            kw = dict(vec1=np.array(vec[0], float), vec2=np.array(vec[1], float), parallel=True)
            rec.step()
            try:
                g = Geometry.from_rhino_encoding(b.Encode(), **kw)
            except RuntimeError:
                rec.check(not ok, f"brep {ring} in plane {plane}: parallel surface not found with {kw}")
                rec.trace(); continue
            rec.check(ok, f"brep {ring} in plane {plane}: read with {kw} although it is not parallel")
            is_region(rec, g, coords(*vec), 1e-9, f"brep {ring} in plane {plane}, parallel")
            rec.trace()
    # only the surface at the given height
    for h, z in itertools.product((0.0, 5.0), repeat=2):
        b = brep(ring, ((0, 0, z), (1, 0, 0), (0, 1, 0)))
        rec.step()
        try:
            g = Geometry.from_rhino_encoding(b.Encode(), project=False, parallel=True, plane_distance=h)
        except RuntimeError:
            rec.check(h != z, f"brep {ring} at height {z}: not found with plane_distance={h}")
            rec.trace(); continue
        rec.check(h == z, f"brep {ring} at height {z}: read with plane_distance={h}")
        rec.trace()


def rhino_file(case, rec):
    from sectionproperties.pre import CompoundGeometry, Geometry
    rings = [[(x + 4 * i, y) for x, y in r] for i, r in enumerate(case["rings"])]
    for perm in itertools.permutations(range(len(rings))):
        bs = [brep(rings[i]) for i in perm]
        g = model(bs, CompoundGeometry.from_3dm)
        rec.step()
        ps = gref.parts(g)
        rec.check(type(g) is CompoundGeometry and len(ps) == len(rings) and all(sum(gref.same(p.geom, Polygon(r), 1e-9) for p in ps) == 1 for r in rings), f"breps {rings}: {[p.geom.wkt for p in ps]}")
        gref.wellformed(rec, g, f"breps {rings}")
        try:
            h = model(bs, Geometry.from_3dm)
        except RuntimeError:
            rec.check(len(rings) > 1, f"brep {rings} refused")
        else:
            rec.check(len(rings) == 1, f"{len(rings)} breps read as {h.geom.wkt}")
        rec.trace(); rec.state((str(rings), perm)); rec.outcome(len(ps))
    # breps that touch
    t = [(0, 0), (2, 0), (2, 3), (0, 3)], [(2, 1), (5, 1), (5, 2), (2, 2)]
    g = model([brep(r) for r in t], CompoundGeometry.from_3dm)
    rec.check(len(g.geoms) == 2 and len(g.geom.geoms) == 2, "touching breps")
    gref.wellformed(rec, g, "touching breps"); rec.step(); rec.trace()


def rhino_curved(case, rec):
    import rhino3dm as rh
    from sectionproperties.pre import Geometry
    r = (0.5, 1.0, 3.0, 40.0)[case["k"]]
    c = ((0, 0), (2, 1.5), (-7, 3), (100, -50))[case["k"]]
    n = case["refine"]
    b = rh.Brep.CreateTrimmedPlane(rh.Plane.WorldXY(), rh.Circle(rh.Point3d(c[0], c[1], 0), r).ToNurbsCurve())
    last = None
    for how in ("enc", "file"):
        kw = {} if n == 1 and how == "enc" else dict(refine_num=n)
        g = Geometry.from_rhino_encoding(b.Encode(), **kw) if how == "enc" else model([b], lambda f: Geometry.from_3dm(f, **kw))
        rec.step()
        d = [math.dist(p, c) for p in g.points]
        rec.check(max(abs(x - r) for x in d) <= 1e-6 * r, lambda: f"{case} {how}: vertices {min(d)} to {max(d)} from the centre, radius {r}")
        # 8 spans between Greville points, refine_num points inserted in each
        rec.check(len(g.points) == 8 * (n + 1), lambda: f"{case} {how}: {len(g.points)} points")
        a = 2 * math.pi / len(g.points) * 1.5
        rec.check(math.pi * r * r * (1 - a * a) <= g.geom.area <= math.pi * r * r, lambda: f"{case} {how}: area {g.geom.area}")
        rec.trace(); rec.state((case["k"], n, how)); rec.outcome(len(g.points))


def rhino_fixture(case, rec):
    """A brep with curved outer and inner edges, moved about: the import moves along."""
    import rhino3dm as rh
    from shapely import affinity
    from sectionproperties.pre import Geometry
    f = os.path.join(os.path.dirname(os.path.abspath(__file__)), "data", "complex_shape.3dm")
    base = Geometry.from_3dm(f)
    k = case["k"]
    rec.check(len(base.geom.interiors) == 1 and abs(base.geom.area - 2.602049353845336) < 1e-9, "complex shape")
    T = [lambda b: None, lambda b: b.Translate(rh.Vector3d(3.5, -2.25, 0)), lambda b: b.Translate(rh.Vector3d(0, 0, 9)), lambda b: b.Rotate(math.pi / 2, rh.Vector3d(0, 0, 1), rh.Point3d(0, 0, 0)),
         lambda b: b.Scale(2.5), lambda b: (b.Scale(0.1), b.Translate(rh.Vector3d(100, 100, 0)))][k % 6]
    A = [(1, 0, 0, 1, 0, 0), (1, 0, 0, 1, 3.5, -2.25), (1, 0, 0, 1, 0, 0), (0, -1, 1, 0, 0, 0), (2.5, 0, 0, 2.5, 0, 0), (0.1, 0, 0, 0.1, 100, 100)][k % 6]
    want = affinity.affine_transform(base.geom, A)
    b = [o.Geometry for o in rh.File3dm.Read(f).Objects][0]
    T(b)
    tol = 1e-8 * gref.size(want)
    for how in ("enc", "file"):
        g = Geometry.from_rhino_encoding(b.Encode()) if how == "enc" else model([b], Geometry.from_3dm)
        rec.step()
        is_region(rec, g, want, tol, f"complex shape moved by {A}, {how}")
        rec.trace(); rec.state((k, how)); rec.outcome(k)


def rhino_bad(case, rec):
    import rhino3dm as rh
    from sectionproperties.pre import CompoundGeometry, Geometry
    for what, call in (("missing file", lambda: Geometry.from_3dm("/nonexistent/x.3dm")), ("missing file", lambda: CompoundGeometry.from_3dm("/nonexistent/x.3dm")),
                       ("empty model", lambda: model([], Geometry.from_3dm)), ("empty model", lambda: model([], CompoundGeometry.from_3dm)),
                       ("no planar brep", lambda: Geometry.from_rhino_encoding(rh.Sphere(rh.Point3d(0, 0, 0), 1).ToBrep().Encode()))):
        rec.step()
        try:
            g = call()
        except (RuntimeError, ValueError):
            rec.trace(); continue
        rec.fail(f"{what} read as {g.geom.wkt[:100]}")
