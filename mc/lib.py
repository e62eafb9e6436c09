"""Outlines of library sections, written down independently of the library: sharp vertices with fillet radii."""
import itertools, math
from shapely import Polygon
from . import gref


def arc(c, r, a0, a1, n):
    """n points on the arc about c from angle a0 to a1 (radians), ends included."""
    return [(c[0] + r * math.cos(a0 + (a1 - a0) * i / (n - 1)), c[1] + r * math.sin(a0 + (a1 - a0) * i / (n - 1))) for i in range(n)]


def fillet(verts, n):
    """Ring of points for vertices (x, y[, r]) whose corners are rounded by tangent arcs of n points.

    Returns (points, area with true arcs, chord error bound, fits)."""
    m = len(verts)
    P = [(float(v[0]), float(v[1])) for v in verts]
    R = [float(v[2]) if len(v) > 2 else 0.0 for v in verts]
    out = []; tl = [0.0] * m
    area = 0.5 * sum(P[i][0] * P[(i + 1) % m][1] - P[(i + 1) % m][0] * P[i][1] for i in range(m))
    ccw = 1 if area > 0 else -1
    err = 0.0
    for i in range(m):
        p, a, b = P[i], P[i - 1], P[(i + 1) % m]
        if R[i] == 0:
            out.append(p)
            continue
        u = (a[0] - p[0], a[1] - p[1]); w = (b[0] - p[0], b[1] - p[1])
        lu, lw = math.hypot(*u), math.hypot(*w)
        u = (u[0] / lu, u[1] / lu); w = (w[0] / lw, w[1] / lw)
        turn = math.atan2(-u[0] * w[1] + u[1] * w[0], -u[0] * w[0] - u[1] * w[1])   # direction change at the corner
        t = R[i] * math.tan(abs(turn) / 2)
        tl[i] = t
        s = (p[0] + u[0] * t, p[1] + u[1] * t)
        sg = 1 if turn > 0 else -1
        # centre lies to the left (turn > 0) of the incoming direction -u
        c = (s[0] + sg * R[i] * u[1], s[1] - sg * R[i] * u[0])
        a0 = math.atan2(s[1] - c[1], s[0] - c[0])
        out += arc(c, R[i], a0, a0 + turn, n)
        area -= sg * R[i] ** 2 * (math.tan(abs(turn) / 2) - abs(turn) / 2)
        err += R[i] ** 2 * abs(turn) ** 3 / (12.0 * (n - 1) ** 2)
    L = max(max(abs(x), abs(y)) for x, y in P)
    fits = all(tl[i] + tl[(i + 1) % m] <= math.dist(P[i], P[(i + 1) % m]) + 1e-9 * L for i in range(m))
    return out, abs(area), err, fits


def mirror_x(verts, x0):
    """Vertices on the right of the axis x = x0, listed upwards, completed by their mirror images."""
    return list(verts) + [(2 * x0 - v[0],) + tuple(v[1:]) for v in reversed(verts)]


def mirror_y(verts, y0):
    """Vertices below the axis y = y0, ending at it, completed by their mirror images."""
    return list(verts) + [(v[0], 2 * y0 - v[1]) + tuple(v[2:]) for v in reversed(verts)]


def valid(outer, holes=()):
    p = Polygon(outer, holes)
    return p.is_valid and p.area > 0


def match(rec, g, outer, holes, mat, what, default=None):
    """Geometry g is the single region outer minus holes, of the given material."""
    from sectionproperties.pre import Geometry
    want = Polygon(outer, holes)
    rec.check(type(g) is Geometry and g.geom.geom_type == "Polygon", f"{what}: not a single region")
    rec.check(g.geom.is_valid and not g.geom.is_empty, f"{what}: invalid outline")
    L = max(want.bounds[2] - want.bounds[0], want.bounds[3] - want.bounds[1], max(map(abs, want.bounds)))
    t = 1e-9 * L
    rec.check(all(abs(a - b) <= t for a, b in zip(g.geom.bounds, want.bounds)), lambda: f"{what}: extents {g.geom.bounds}, documented {want.bounds}")
    rec.check(len(g.geom.interiors) == len(want.interiors), lambda: f"{what}: {len(g.geom.interiors)} holes, documented {len(want.interiors)}")
    rec.check(abs(g.geom.area - want.area) <= t * want.length, lambda: f"{what}: area {g.geom.area}, documented outline has {want.area}")
    rec.check(gref.same(g.geom, want, t), lambda: f"{what}: outline differs from the documented one by {g.geom.boundary.hausdorff_distance(want.boundary)}")
    rec.check(g.material is mat, lambda: f"{what}: material {g.material}")
    return want


def grid(**kw):
    """All combinations of named values."""
    ks = list(kw)
    return [dict(zip(ks, v)) for v in itertools.product(*kw.values())]
