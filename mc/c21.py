"""C21: NASTRAN sections over grids of all their dimensions."""
import math
import shapely
import shapely.affinity
from shapely import Polygon
from . import ref, gref, lib
from .lib import grid, mirror_x, mirror_y
from .c20 import ngon

ALPHABET = "all 24 NASTRAN section functions over product grids of all their dimensions, valid and invalid, three size scales, given and default material; recovery points of compound geometries"
BOUND = {"quick": "product grids of 2 to 5 values per dimension (9 to 3000 dimension sets per function) x 3 size scales (1, 1e-3, 250)",
         "thorough": "the same grids with one more value per dimension x 6 size scales"}
ORACLE = ("independent outlines about the documented origin; recovery points at the documented corners and on the outline; sets of dimensions that leave a part without thickness "
          "or make parts overlap raise ValueError; position either as documented or, listed as a finding, with the lower left corner at the origin")


def R(x0, y0, x1, y1):
    return [(x0, y0), (x1, y0), (x1, y1), (x0, y1)]


def quad(q):
    """Outline with both axes of symmetry from its lower right quarter listed upwards from the vertical axis."""
    return mirror_x(mirror_y(q, 0), 0)


# Each spec: dict(o=outline about the documented origin, h=[holes], r=recovery points, ok=condition the dimensions must meet,
#            edge=True where the limiting case may be accepted or rejected)
def bar(a, b):
    return dict(o=R(-a / 2, -b / 2, a / 2, b / 2), r=corners(a, b))


def corners(w, d):
    return [(w / 2, d / 2), (w / 2, -d / 2), (-w / 2, -d / 2), (-w / 2, d / 2)]


def box(a, b, t, w):
    return dict(o=R(-a / 2, -b / 2, a / 2, b / 2), h=[R(w - a / 2, t - b / 2, a / 2 - w, b / 2 - t)], r=corners(a, b), gaps=[a - 2 * w, b - 2 * t])


def box1(a, b, top, bot, left, right):
    return dict(o=R(-a / 2, -b / 2, a / 2, b / 2), h=[R(left - a / 2, bot - b / 2, a / 2 - right, b / 2 - top)], r=corners(a, b), gaps=[a - left - right, b - top - bot])


def chan(w, d, tw, tf):
    x = w - tw / 2
    return dict(o=mirror_y([(-tw / 2, -d / 2), (x, -d / 2), (x, tf - d / 2), (tw / 2, tf - d / 2)], 0), r=[(x, d / 2), (x, -d / 2), (-tw / 2, -d / 2), (-tw / 2, d / 2)], gaps=[d - 2 * tf, w - tw])


def chan1(a, tw, h, d):
    return chan(a + tw, d, tw, (d - h) / 2) | dict(gaps=[d - h])


def chan2(t, tw, d, w):
    return dict(o=mirror_x([(w / 2, -tw / 2), (w / 2, d - tw / 2), (w / 2 - t, d - tw / 2), (w / 2 - t, tw / 2)], 0),
                r=[(w / 2, d - tw / 2), (w / 2, -tw / 2), (-w / 2, -tw / 2), (-w / 2, d - tw / 2)], gaps=[w - 2 * t, d - tw])


def cross(a, tv, d, th):
    w = a + tv
    return dict(o=quad([(tv / 2, -d / 2), (tv / 2, -th / 2), (w / 2, -th / 2)]), r=[(0, d / 2), (w / 2, 0), (0, -d / 2), (-w / 2, 0)], gaps=[d - th])


def fcross(d, w, tv, th, lv, tlv, lh, tlh):
    q = [(lv / 2, -d / 2), (lv / 2, tlv - d / 2), (tv / 2, tlv - d / 2), (tv / 2, -th / 2), (w / 2 - tlh, -th / 2), (w / 2 - tlh, -lh / 2), (w / 2, -lh / 2)]
    apart = max(w - lv - 2 * tlh, d - lh - 2 * tlv)
    return dict(o=quad(q), r=[(0, d / 2), (w / 2, 0), (0, -d / 2), (-w / 2, 0)], gaps=[lv - tv, lh - th, d - lh, w - lv, w / 2 - tv / 2 - tlh, d / 2 - th / 2 - tlv, apart])


def dbox(w, d, wl, tl, tc, tr, ttl, tbl, ttr, tbr):
    X, Y = -w / 2, -d / 2
    return dict(o=R(X, Y, -X, -Y), h=[R(X + tl, Y + tbl, X + wl - tc / 2, -Y - ttl), R(X + wl + tc / 2, Y + tbr, -X - tr, -Y - ttr)], r=corners(w, d),
                gaps=[wl - tc / 2 - tl, w - tr - wl - tc / 2, d - ttl - tbl, d - ttr - tbr])


def gbox(w, d, tt, tb, tw, s):
    x = s / 2 + tw
    return dict(o=mirror_x([(w / 2, -d / 2), (w / 2, tb - d / 2), (x, tb - d / 2), (x, d / 2 - tt), (w / 2, d / 2 - tt), (w / 2, d / 2)], 0),
                h=[R(-s / 2, tb - d / 2, s / 2, d / 2 - tt)], r=corners(w, d), gaps=[d - tt - tb, w - 2 * tw - s])


def h(s, t2, d, tw):
    w = s + t2
    return dict(o=quad([(s / 2, -tw / 2), (s / 2, -d / 2), (w / 2, -d / 2)]), r=corners(w, d), gaps=[d - tw])


def hat(d, t, w, b):
    top, bot = t / 2, t / 2 - d
    return dict(o=mirror_x([(w / 2 - t, top - t), (w / 2 - t, bot), (w / 2 + b, bot), (w / 2 + b, bot + t), (w / 2, bot + t), (w / 2, top)], 0),
                r=[(w / 2, top), (w / 2 + b, bot + t / 2), (-w / 2 - b, bot + t / 2), (-w / 2, top)], gaps=[d - 2 * t, w - 2 * t])


def hat1(w, d, wt, t, tp):
    b = (w - wt) / 2
    s = hat(d - tp, t, wt, b)
    up = lambda p: [(x, y + d - t / 2) for x, y in p]
    hatp = up(s["o"])
    return dict(o=mirror_x([(w / 2, 0), (w / 2, tp + t), (wt / 2, tp + t), (wt / 2, d)], 0), h=[R(-wt / 2 + t, tp, wt / 2 - t, d - t)], parts=[hatp, R(-w / 2, 0, w / 2, tp)],
                r=[(-w / 2, 0), (w / 2, 0), (-wt / 2, d), (wt / 2, d)], gaps=[d - tp - 2 * t, w - wt, wt - 2 * t])


def hexa(a, w, d):
    return dict(o=[(w / 2, 0), (w / 2 - a, d / 2), (a - w / 2, d / 2), (-w / 2, 0), (a - w / 2, -d / 2), (w / 2 - a, -d / 2)], r=[(0, d / 2), (0, -d / 2), (w / 2, 0), (-w / 2, 0)],
                gaps=[w - 2 * a], edge=True)


def i(d, wb, wt, tw, tb, tt):
    # the documentation takes the origin at the bottom flange, the recovery points at mid-depth
    y = -d / 2
    return dict(o=mirror_x([(wb / 2, y), (wb / 2, y + tb), (tw / 2, y + tb), (tw / 2, -y - tt), (wt / 2, -y - tt), (wt / 2, -y)], 0),
                r=[(wt / 2, -y), (wb / 2, y), (-wb / 2, y), (-wt / 2, -y)], gaps=[d - tb - tt, wt - tw, wb - tw])


def i1(a, tw, hw, d):
    w = a + tw
    return dict(o=quad([(w / 2, -d / 2), (w / 2, -hw / 2), (tw / 2, -hw / 2)]), r=corners(w, d), gaps=[d - hw])


def l(w, d, tf, tw):
    x, y = -tw / 2, -tf / 2
    return dict(o=[(x, y), (x + w, y), (x + w, -y), (-x, -y), (-x, y + d), (x, y + d)], r=[(-x, y + d), (x + w, y), (x, y), (x, y + d)], gaps=[w - tw, d - tf])


def rod(r, n):
    return dict(o=ngon(r, r, n), r=[(0, r), (r, 0), (0, -r), (-r, 0)], round=True)


def tee(w, d, tf, tw):
    y = tf / 2
    return dict(o=mirror_x([(tw / 2, y - d), (tw / 2, -y), (w / 2, -y), (w / 2, y)], 0), r=[(0, y), (w / 2, y), (0, y - d), (-w / 2, y)], gaps=[w - tw, d - tf])


def tee1(d, b, tf, tw):
    x = tf / 2
    return dict(o=mirror_y([(-x - b, -tw / 2), (-x, -tw / 2), (-x, -d / 2), (x, -d / 2)], 0), r=[(x, 0), (x, -d / 2), (-x - b, 0), (x, d / 2)], gaps=[d - tw])


def tee2(w, d, tf, tw):
    y = -tf / 2
    return dict(o=mirror_x([(w / 2, y), (w / 2, -y), (tw / 2, -y), (tw / 2, y + d)], 0), r=[(tw / 2, y + d), (w / 2, y), (-w / 2, y), (-tw / 2, y + d)], gaps=[w - tw, d - tf])


def tube(ro, ri, n):
    return rod(ro, n) | dict(h=[ngon(ri, ri, n)], gaps=[ro - ri])


def tube2(ro, t, n):
    return rod(ro, n) | dict(h=[ngon(ro - t, ro - t, n)], gaps=[ro - t])


def zed(a, tw, hw, d):
    x = tw / 2
    lo = [(-x, -d / 2), (x + a, -d / 2), (x + a, -hw / 2), (x, -hw / 2)]
    return dict(o=lo + [(-p, -q) for p, q in lo], r=[(x, d / 2), (x + a, -d / 2), (-x, -d / 2), (-x - a, d / 2)], gaps=[d - hw])


SPEC = dict(bar=bar, box=box, box1=box1, chan=chan, chan1=chan1, chan2=chan2, cross=cross, fcross=fcross, dbox=dbox, gbox=gbox, h=h, hat=hat, hat1=hat1, hexa=hexa, i=i, i1=i1, l=l,
            rod=rod, tee=tee, tee1=tee1, tee2=tee2, tube=tube, tube2=tube2, zed=zed)

GRID = dict(
    bar=[[1, 4, 50], [1, 3, 70]],
    box=[[2, 5, 8], [2, 3, 9], [0.25, 1, 1.5], [0.25, 1, 1.5]],
    box1=[[2, 4, 9], [2, 5], [0.25, 1, 1.5], [0.25, 0.5, 1], [0.25, 1, 1.5], [0.5, 0.75, 1]],
    chan=[[1, 3, 8], [2, 6, 20], [0.25, 1, 3], [0.25, 1, 3]],
    chan1=[[1, 4, 0.25], [0.25, 1, 3], [1, 3, 8], [3, 4, 12]],
    chan2=[[0.25, 1, 2], [0.25, 1, 2], [1, 2, 8], [2, 4, 9]],
    cross=[[1, 3, 8], [0.25, 1, 4], [2, 3, 9], [0.25, 2, 3]],
    fcross=[[6, 9], [5, 8], [0.5, 1], [0.5, 1.25], [1, 2, 5], [0.25, 1, 2.5], [1.25, 4, 6], [0.5, 2]],
    dbox=[[5, 8], [2.5, 6], [1, 3, 4], [0.5, 2], [0.5, 1], [0.25, 2], [0.5, 1.5], [0.25, 2], [0.5, 1.25], [0.5, 2]],
    gbox=[[3, 6, 10], [1, 2.5, 8], [0.25, 1, 2], [0.25, 0.5, 1.5], [0.25, 1, 2], [0.5, 1, 4]],
    h=[[1, 2, 9], [0.5, 1, 4], [1, 3.5, 8], [0.25, 1, 2]],
    hat=[[1.25, 2, 6], [0.25, 0.75, 1], [1.5, 2, 5], [0.5, 1, 4]],
    hat1=[[2, 4, 9], [1, 2, 7], [1, 1.5, 4], [0.25, 0.5, 0.75], [0.25, 1, 2]],
    hexa=[[0.25, 0.5, 1, 2], [1, 2, 5], [0.5, 1.5, 6]],
    i=[[2, 5, 12], [1, 2, 6], [1, 3, 5], [0.25, 1, 2], [0.25, 1], [0.5, 1, 4]],
    i1=[[0.5, 1, 4], [0.25, 0.75, 2], [2, 4, 9], [3, 5, 12]],
    l=[[1, 3, 8], [1, 6, 9], [0.25, 1, 2], [0.5, 1, 3]],
    rod=[[0.5, 3, 20], [3, 4, 8, 50]],
    tee=[[1, 3, 8], [1, 4, 9], [0.25, 1, 2], [0.25, 1, 3]],
    tee1=[[1, 3, 8], [0.5, 3.5, 6], [0.25, 1, 2], [0.25, 1, 2]],
    tee2=[[1, 3, 8], [1, 4, 9], [0.25, 1, 2], [0.5, 1, 3]],
    tube=[[1, 3, 8], [0.5, 1, 2.5, 9], [3, 8, 37]],
    tube2=[[1, 3, 8], [0.5, 1, 2.5, 9], [3, 8, 37]],
    zed=[[0.5, 1, 4], [0.25, 0.5, 2], [2, 2.5, 8], [2.5, 4, 9]],
)


def combos(name, tier):
    import itertools
    g = GRID[name]
    if tier != "quick" and len(g) <= 6:
        g = [v + ([v[-1] + 16] if name in ("rod", "tube", "tube2") and k == len(g) - 1 else [v[0] * 1.3 + v[-1] * 0.2]) for k, v in enumerate(g)]
    return list(itertools.product(*g))


def cases(tier):
    out = []
    for s in ([1, 1e-3, 250] if tier == "quick" else [1, 1e-3, 250, 1e5, 1 / 7, 25.4]):
        for name in SPEC:
            n = len(combos(name, tier))
            for k in range(0, n, 120):
                out.append(dict(name=name, scale=s, lo=k, hi=min(n, k + 120), tier=tier))
    return out + [dict(compound=1)]


def run_case(case, rec):
    if "compound" in case:
        return compound(rec)
    name = case["name"]
    for j, v in enumerate(combos(name, case["tier"])[case["lo"]:case["hi"]]):
        v = [x if name in ("rod", "tube", "tube2") and k == len(v) - 1 else x * case["scale"] for k, x in enumerate(v)]
        one(rec, name, v, j % 2)


def one(rec, name, v, withmat):
    import sectionproperties.pre.library as L
    from sectionproperties.pre import CompoundGeometry
    from sectionproperties.pre.pre import DEFAULT_MATERIAL
    f = getattr(L, "nastran_" + name)
    mat = ref.material("S") if withmat else DEFAULT_MATERIAL
    n = v[-1] if name in ("rod", "tube", "tube2") else None
    kw = {f"dim_{k + 1}": x for k, x in enumerate(v if n is None else v[:-1])}
    if n is not None:
        kw["n"] = n
    what = f"nastran_{name}({', '.join(f'{k}={x}' for k, x in kw.items())})"
    s = SPEC[name](*v)
    rec.step()
    scale = max(v if n is None else v[:-1])
    gap = min(s.get("gaps", [1])) / scale
    eps = 1e-12
    try:
        g = f(**kw, **(dict(material=mat) if withmat else {}))
    except ValueError:
        rec.check(gap <= eps, f"{what} rejected although the section exists")
        rec.count("dimensions rejected")
        rec.state((name, tuple(v), "rejected"))
        return
    if abs(gap) <= eps and (s.get("edge") or gap != 0):
        if not s.get("edge"):
            return      # thickness zero up to round-off: either
    else:
        rec.check(gap > 0, f"{what} accepted although a part has no thickness, no opening or overlaps another")
    o, hs = s["o"], s.get("h", [])
    want = Polygon(o, hs)
    b, w = g.geom.bounds, want.bounds
    L0 = max(w[2] - w[0], w[3] - w[1])
    dx, dy = b[0] - w[0], b[1] - w[1]
    if max(abs(dx), abs(dy)) > 1e-9 * L0:
        # lower left corner of the section, of the bottom flange, or of the right flange at the origin
        x0 = -v[1] if name == "tee1" else min(0, (v[1] - v[2]) / 2) if name == "i" else 0
        corner = max(abs(b[0] - x0), abs(b[1])) <= 1e-9 * L0
        rec.fail(f"{what}: bounding box starts at {b[:2]}, about the documented origin it starts at {w[:2]}", key=f"position:nastran_{name}" if corner else None)
        sh = lambda p: [(x + dx, y + dy) for x, y in p]
        o, hs = sh(o), [sh(q) for q in hs]
    if "parts" in s:
        rec.check(type(g) is CompoundGeometry and len(g.geoms) == 2, f"{what}: not two regions")
        for p, q in zip(sorted(g.geoms, key=lambda p: -p.geom.bounds[3]), s["parts"]):
            lib.match(rec, p, q, [], mat, what)
        u = shapely.unary_union([p.geom for p in g.geoms])
        rec.check(gref.close_regions(u, Polygon(o, hs), 1e-9 * L0), f"{what}: wrong outline")
        rec.check(len(g.holes) == 1 and gref.inside(Polygon(hs[0]), g.holes[0]), f"{what}: hole markers {g.holes}")
    else:
        lib.match(rec, g, o, hs, mat, what)
        rec.check(len(g.holes) == len(hs), f"{what}: {len(g.holes)} hole markers")
        gref.wellformed(rec, g, what)
    # recovery points are given about the documented origin
    r = [tuple(map(float, p)) for p in g.recovery_points]
    rec.check(len(r) == 4 and len(set(r)) == 4, f"{what}: recovery points {r}")
    line = want.boundary
    for p, q in zip(r, s["r"]):
        rec.check(math.dist(p, q) <= 1e-9 * L0, lambda: f"{what}: recovery points {r}, documented corners {s['r']}")
        if not s.get("round"):
            rec.check(line.distance(shapely.Point(p)) <= 1e-9 * L0, lambda: f"{what}: recovery point {p} is not on the section")
    rec.trace()
    rec.state((name, tuple(v)))
    rec.outcome((name, round(want.area, 9)))


def compound(rec):
    """Geometries other than NASTRAN sections have no recovery points until they are set."""
    from sectionproperties.pre.library import rectangular_section, nastran_bar
    a, b = rectangular_section(d=2, b=1), nastran_bar(1, 2).shift_section(2, 0)
    for g in (a, a + b, (a + b) + rectangular_section(d=1, b=1).shift_section(5, 5), (a + b).shift_section(1, 1)):
        rec.step(); rec.trace()
        rec.check(list(g.recovery_points) == [], f"recovery points {g.recovery_points} of a geometry without any")
        g.recovery_points = [(0, 0), (1, 2)]
        rec.check(list(g.recovery_points) == [(0, 0), (1, 2)], "recovery points that were set are not returned")
