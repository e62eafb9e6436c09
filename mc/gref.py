"""Reference view of geometries: lists of (polygon, material, assigned control point), compared as point sets."""
import math
import shapely
from shapely import MultiPolygon, Point, Polygon
from . import ref


def polys(g):
    """[(polygon, material)] of a Geometry or CompoundGeometry through public attributes."""
    return [(p.geom, p.material) for p in g.geoms] if hasattr(g, "geoms") else [(g.geom, g.material)]


def parts(g):
    return list(g.geoms) if hasattr(g, "geoms") else [g]


def size(*ps):
    return max([abs(v) for p in ps if not p.is_empty for v in p.bounds] + [1e-300])


def same(a, b, tol):
    """a and b describe the same point set up to vertex displacement tol."""
    if a.is_empty or b.is_empty:
        return a.is_empty and b.is_empty
    if abs(a.area - b.area) > tol * (a.length + b.length) + 1e-300:
        return False
    return shapely.hausdorff_distance(a.boundary, b.boundary) <= tol


def close_regions(a, b, tol):
    """Like same, but vertices on straight edges and slivers thinner than tol do not count."""
    if a.is_empty and b.is_empty:
        return True
    d = a.symmetric_difference(b)
    return d.is_empty or d.area <= tol * (a.length + b.length)


def snapshot(g):
    """Everything public about a geometry, to see that it is not modified."""
    s = [(p.geom.wkb, id(p.material), repr(p.material), tuple(map(tuple, p.points)), tuple(map(tuple, p.facets)), tuple(map(tuple, p.holes)),
          tuple(map(tuple, p.control_points)), p.tol) for p in parts(g)]
    return (s, g.geom.wkb, tuple(map(tuple, g.points)), tuple(map(tuple, g.facets)), tuple(map(tuple, g.holes)), tuple(map(tuple, g.control_points)), g.tol)


def inside(p, pt):
    return p.contains(Point(pt))


def wellformed(rec, g, what, tol=1e-9, compiled=True):
    """Points, facets, holes and control points describe the regions."""
    ps = parts(g)
    L = size(g.geom)
    n = len(g.points)
    rec.check(all(0 <= i < n and 0 <= j < n and i != j for i, j in g.facets), f"{what}: facet refers to a point that does not exist")
    gs = max(L * 1e-9, 4e-12)  # vertices are rounded to twelve decimals
    allb = shapely.unary_union([p.geom.boundary for p in ps], grid_size=gs)
    fb = shapely.unary_union([shapely.LineString([g.points[i], g.points[j]]) for i, j in g.facets], grid_size=gs)
    d = shapely.hausdorff_distance(fb, allb)
    rec.check(d <= max(tol * L, 2 * gs), lambda: f"{what}: facets are {d} away from the region boundaries")
    rec.check(abs(fb.length - allb.length) <= 1e-6 * allb.length + 10 * gs, lambda: f"{what}: facets measure {fb.length}, boundaries {allb.length}")
    rec.check(len(g.control_points) == len(ps), f"{what}: {len(g.control_points)} control points for {len(ps)} regions")
    for c, p in zip(g.control_points, ps):
        rec.check(inside(p.geom, c), lambda: f"{what}: control point {c} is not inside its region")
        rec.check(not p.geom.is_empty and p.geom.is_valid, f"{what}: empty or invalid region")
    u = shapely.unary_union([p.geom.buffer(max(L * 1e-10, 2e-12)) for p in ps]) if len(ps) > 1 else ps[0].geom
    us = list(u.geoms) if hasattr(u, "geoms") else [u]
    x0, y0, x1, y1 = shapely.total_bounds(us)
    ext = max(x1 - x0, y1 - y0)
    voids = []
    for q in us:
        for r in q.interiors:
            v = Polygon(r)
            for o in us:
                if o is not q and v.contains(o):
                    v = v - Polygon(o.exterior)
            if len(ps) == 1 or v.area > 1e-9 * L * ext:
                voids.append(v)
    # a void region is a connected component of the enclosed complement
    used = [0] * len(g.holes)
    for v in voids:
        hit = [k for k, h in enumerate(g.holes) if inside(v, h)]
        rec.check(len(hit) >= 1, lambda: f"{what}: enclosed void {v.wkt[:80]} has no hole marker")
        for k in hit:
            used[k] = 1
    rec.check(all(used), lambda: f"{what}: hole marker {[h for h, k in zip(g.holes, used) if not k]} does not lie in a void")


def mk(ext, holes=(), mat=None, cp=None, tol=12):
    from sectionproperties.pre import Geometry
    return Geometry(Polygon(ref.fl(ext), [ref.fl(h) for h in holes]), ref.material(mat), control_points=cp, tol=tol)


def mk_regions(regs):
    """Geometry for one region, CompoundGeometry for a list; regions {"ext","holes","mat","cp","tol"}."""
    from sectionproperties.pre import CompoundGeometry
    gs = [mk(r["ext"], r.get("holes", ()), r.get("mat"), tuple(r["cp"]) if r.get("cp") else None, r.get("tol", 12)) for r in regs]
    return gs


def poly_of(r):
    return Polygon(ref.fl(r["ext"]), [ref.fl(h) for h in r.get("holes", ())])
