"""C22: concrete sections: gross outline, bars and their placement."""
import itertools, math
import shapely
from shapely import Polygon, box
from . import ref, gref
from .lib import grid
from .core import Skip

ALPHABET = ("the 4 concrete sections, 7 wall/core sections, add_bar and add_bars over grids of dimensions, bar counts (0, 1, 2, ...), covers, spacings, layers, bar shapes, "
            "distinct, equal and default materials, millimetres and metres")
BOUND = {"quick": "product grids (60 to 600 parameter sets per function, feasible ones only) x 2 unit systems; for 13 walls and cores the spacings 0.3 % above and below those at which the number of bars of any layer changes; bars added at 9 positions of 4 geometries, sequences of two; rejected inputs",
         "thorough": "denser grids (3 to 6 times) x 4 unit systems"}
ORACLE = ("gross outlines as unions of wall rectangles; bars from layer lines: ends at the cover, ceil(length/spacing)+1 equally spaced, shared corners once; every bar a region of the "
          "given area, material and position; concrete regions = gross minus bars; well-formed compound")


# ---------------------------------------------------------------- layers of bars
def row(p, q, s=None, n=None, drop=(0, 0)):
    """Bar positions from p to q at a spacing of at most s, or n of them; the ends may be left out."""
    L = math.dist(p, q)
    if n is None:
        k = L / s
        if abs(k - round(k)) < 1e-9 and k != round(k):
            raise Skip("number of bars decided by round-off")
        n = math.ceil(k) + 1
    if n == 1:
        pts = [p]
    else:
        pts = [(p[0] + (q[0] - p[0]) * i / (n - 1), p[1] + (q[1] - p[1]) * i / (n - 1)) for i in range(n)]
    return pts[drop[0]:len(pts) - drop[1]]


def merge(rows, tol):
    out = []
    for r in rows:
        for p in r:
            if all(math.dist(p, q) > tol for q in out):
                out.append(p)
    return out


def mir(rows, y0):
    """Rows and their images about the axis y = y0."""
    return rows + [((p[0], 2 * y0 - p[1]), (q[0], 2 * y0 - q[1])) for p, q in rows]


def U(*b):
    return shapely.unary_union(b)


# each spec: (list of gross concrete polygons, list of bar layers [(area, [points])])
def concrete_rectangular_section(d, b, dia_top, area_top, n_top, c_top, dia_bot, area_bot, n_bot, c_bot, dia_side=None, area_side=None, n_side=0, c_side=0.0, x0=None, bt=None, gross=None):
    X, xc = (0, b / 2) if x0 is None else (x0, 0)
    bt = bt or b
    def layer(n, w, dia, c, y):
        e = (c_side or c) + dia / 2
        return [] if n == 0 else [(xc, y)] if n == 1 else row((xc - w / 2 + e, y), (xc + w / 2 - e, y), n=n)
    yb, yt = c_bot + dia_bot / 2, d - c_top - dia_top / 2
    L = [(area_top, layer(n_top, bt, dia_top, c_top, yt)), (area_bot, layer(n_bot, b, dia_bot, c_bot, yb))]
    if dia_side and area_side and n_side:
        e = c_side + dia_side / 2
        for x in (xc - b / 2 + e, xc + b / 2 - e):
            L.append((area_side, row((x, yb), (x, yt), n=n_side + 2, drop=(1, 1))))
    return gross or [box(0, 0, b, d)], L


def concrete_tee_section(d, b, d_f, b_f, **k):
    return concrete_rectangular_section(d, b, x0=-b / 2, bt=b_f, gross=[box(-b / 2, 0, b / 2, d - d_f), box(-b_f / 2, d - d_f, b_f / 2, d)], **k)


def concrete_column_section(d, b, dia_bar, area_bar, n_x, n_y, cover, filled=False):
    e = cover + dia_bar / 2
    xs = [p[0] for p in row((e, 0), (b - e, 0), n=n_x)]
    ys = [p[0] for p in row((e, 0), (d - e, 0), n=n_y)]
    return [box(0, 0, b, d)], [(area_bar, [(x, y) for i, x in enumerate(xs) for j, y in enumerate(ys) if filled or i in (0, n_x - 1) or j in (0, n_y - 1)])]


def concrete_circular_section(d, area_conc, n_conc, dia_bar, area_bar, n_bar, cover):
    r = d / 2 - cover - dia_bar / 2
    return [ngon_area(area_conc, n_conc, 0, 0)], [(area_bar, [(r * math.cos(2 * math.pi * i / n_bar), r * math.sin(2 * math.pi * i / n_bar)) for i in range(n_bar)])]


def wall(f):
    """Wall specs give gross parts and the ends of the bar layers; a third entry tells ends without a bar."""
    def g(dia_bar, area_bar, spacing, cover, double=True, **k):
        gross, rows = f(c=cover + dia_bar / 2, double=double, **k)
        size = max(k.values())
        return gross, [(area_bar, merge([row(r[0], r[1], spacing, drop=r[2] if len(r) > 2 else (0, 0)) for r in rows], 1e-9 * size))]
    g.rows = f
    return g


@wall
def rectangular_wall(d, t, c, double):
    return [box(0, 0, t, d)], [((x, c), (x, d - c)) for x in ((c, t - c) if double else (t / 2,))]


@wall
def cee_wall(d, b, t_f, t_w, c, double):
    G = [U(box(0, 0, t_w, d), box(0, 0, b, t_f), box(0, d - t_f, b, d))]
    if not double:
        x, y = t_w / 2, t_f / 2
        return G, mir([((x, y), (b - c, y))], d / 2) + [((x, y), (x, d - y))]
    x, y = t_w - c, t_f - c
    return G, mir([((c, c), (b - c, c)), ((x, y), (b - c, y))], d / 2) + [((c, c), (c, d - c)), ((x, y), (x, d - y))]


@wall
def tee_wall(d, b, t_f, t_w, c, double):
    G = [U(box(0, d - t_f, b, d), box((b - t_w) / 2, 0, (b + t_w) / 2, d))]
    if not double:
        return G, [((c, d - t_f / 2), (b - c, d - t_f / 2)), ((b / 2, c), (b / 2, d - t_f / 2), (0, 1))]
    y = d - t_f + c
    x = (b - t_w) / 2 + c
    return G, [((c, d - c), (b - c, d - c)), ((c, y), (x, y)), ((b - x, y), (b - c, y)), ((x, c), (x, y)), ((b - x, c), (b - x, y))]


def ring(d, b, t1, t2):
    return box(0, 0, b, d) - box(t2, t1, b - t2, d - t1)


@wall
def single_lift_core(d, b, t1, t2, a, c, double):
    G = [ring(d, b, t1, t2) - box(b - t2 - 1e-3 * t2, (d - a) / 2, 2 * b, (d + a) / 2)]
    e = (d - a) / 2 - c
    if not double:
        x, y = t2 / 2, t1 / 2
        return G, mir([((x, y), (b - x, y)), ((b - x, y), (b - x, e))], d / 2) + [((x, y), (x, d - y))]
    x, y = t2 - c, t1 - c
    return G, mir([((c, c), (b - c, c)), ((x, y), (b - x, y)), ((b - c, c), (b - c, e)), ((b - x, y), (b - x, e))], d / 2) + [((c, c), (c, d - c)), ((x, y), (x, d - y))]


@wall
def double_lift_core_a(d, b, t1, t2, a1, a2, c, double):
    nib = (d - 2 * t1 - 2 * a1 - a2) / 2
    G = ring(d, b, t1, t2)
    for y in (t1 + nib, d - t1 - nib - a1):
        G = G - box(b - t2 - 1e-3 * t2, y, 2 * b, y + a1)
    G = sorted(G.geoms, key=lambda p: -p.area)
    e, p = t1 + nib - c, (d - a2) / 2 + c
    if not double:
        x, y = t2 / 2, t1 / 2
        return G, mir([((x, y), (b - x, y)), ((b - x, y), (b - x, e))], d / 2) + [((x, y), (x, d - y)), ((b - x, p), (b - x, d - p))]
    x, y = t2 - c, t1 - c
    return G, (mir([((c, c), (b - c, c)), ((x, y), (b - x, y)), ((b - c, c), (b - c, e)), ((b - x, y), (b - x, e))], d / 2)
               + [((c, c), (c, d - c)), ((x, y), (x, d - y)), ((b - x, p), (b - x, d - p)), ((b - c, p), (b - c, d - p))])


@wall
def double_lift_core_b(d, b, t1, t2, t3, a, c, double):
    nib = (d - 2 * t1 - 2 * a - t3) / 4
    G = U(ring(d, b, t1, t2), box(0, (d - t3) / 2, b, (d + t3) / 2))
    for y in (t1 + nib, d - t1 - nib - a):
        G = G - box(b - t2 - 1e-3 * t2, y, 2 * b, y + a)
    e, p = t1 + nib - c, d / 2 - nib - t3 / 2 + c
    if not double:
        x, y = t2 / 2, t1 / 2
        return [G], mir([((x, y), (b - x, y)), ((b - x, y), (b - x, e))], d / 2) + [((x, y), (x, d - y)), ((x, d / 2), (b - x, d / 2), (1, 1)), ((b - x, p), (b - x, d - p))]
    x, y = t2 - c, t1 - c
    w = (d - t3) / 2 + c
    return [G], (mir([((c, c), (b - c, c)), ((x, y), (b - x, y)), ((x, w), (b - x, w)), ((x, y), (x, w)), ((b - c, c), (b - c, e)), ((b - x, y), (b - x, e)), ((b - x, p), (b - x, w))], d / 2)
                 + [((c, c), (c, d - c)), ((b - c, p), (b - c, d - p))])


@wall
def stairwell(d, b, t1, t2, a, c, double):
    G = [ring(d, b, t1, t2) - box(b - t2 - 1e-3 * t2, d - t1 - a, 2 * b, d - t1)]
    e = d - t1 - a - c
    if not double:
        x, y = t2 / 2, t1 / 2
        return G, [((x, y), (b - x, y)), ((x, d - y), (b - x, d - y)), ((x, y), (x, d - y)), ((b - x, y), (b - x, e))]
    x, y = t2 - c, t1 - c
    return G, [((c, c), (b - c, c)), ((c, d - c), (b - c, d - c)), ((x, y), (b - x, y)), ((x, d - y), (b - c, d - y)), ((c, c), (c, d - c)), ((x, y), (x, d - y)),
               ((b - c, c), (b - c, e)), ((b - x, y), (b - x, e))]


SPEC = {f: globals()[f] for f in ("concrete_rectangular_section", "concrete_tee_section", "concrete_column_section", "concrete_circular_section", "rectangular_wall", "cee_wall", "tee_wall",
                                  "single_lift_core", "double_lift_core_a", "double_lift_core_b", "stairwell")}


def ngon_area(area, n, x, y):
    r = math.sqrt(2 * area / (n * math.sin(2 * math.pi / n)))
    return Polygon([(x + r * math.cos(2 * math.pi * i / n), y + r * math.sin(2 * math.pi * i / n)) for i in range(n)])


# ---------------------------------------------------------------- grids
SIDES = [dict(), dict(c_side=30), dict(dia_side=12, area_side=110, n_side=1, c_side=25), dict(dia_side=12, area_side=110, n_side=3, c_side=45), dict(dia_side=16, area_side=190, n_side=2, c_side=30),
         dict(dia_side=12, area_side=110, n_side=0, c_side=25)]


def with_sides(g):
    return [dict(a, **s) for a in g for s in SIDES]


def grids(tier):
    q = tier == "quick"
    G = {}
    G["concrete_rectangular_section"] = with_sides(grid(d=[600] if q else [300, 600], b=[250, 400], dia_top=[16], area_top=[200], n_top=[0, 1, 2, 4] if q else [0, 1, 2, 3, 4, 7], c_top=[20, 45], dia_bot=[24],
                                                        area_bot=[450], n_bot=[0, 1, 3] if q else [0, 1, 2, 3, 5], c_bot=[30]))
    G["concrete_tee_section"] = with_sides(grid(d=[600], b=[250], d_f=[100, 150] if q else [50, 100, 150, 200], b_f=[800, 301], dia_top=[16], area_top=[200], n_top=[0, 1, 2, 5] if q else [0, 1, 2, 3, 5, 6], c_top=[20, 90],
                                                dia_bot=[24], area_bot=[450], n_bot=[0, 1, 3] if q else [0, 1, 2, 3, 4], c_bot=[30]))
    G["concrete_column_section"] = grid(d=[300, 500], b=[250, 400], dia_bar=[16, 25], area_bar=[200, 480], n_x=[2, 3, 5], n_y=[2, 4] if q else [2, 3, 4, 6], cover=[20, 41], filled=[False, True])
    G["concrete_circular_section"] = grid(d=[400], area_conc=[math.pi * 4e4], n_conc=[16, 33] if q else [16, 17, 33, 64], dia_bar=[16, 25], area_bar=[200, 480], n_bar=[2, 3, 4, 7] if q else [2, 3, 4, 5, 6, 7, 12], cover=[25, 40, 100])
    W = dict(dia_bar=[12, 16] if not q else [12], area_bar=[110], spacing=[150, 200, 333], cover=[30] if q else [25, 30, 45], double=[True, False])
    G["rectangular_wall"] = grid(d=[400, 1000, 1273] if q else [172, 372, 400, 1000, 1273], t=[180, 250], **W)
    G["cee_wall"] = grid(d=[700, 1200], b=[500, 830], t_f=[180, 220], t_w=[180, 250], **W)
    G["tee_wall"] = grid(d=[700, 1200], b=[600, 930], t_f=[180, 220], t_w=[180, 250], **W)
    G["single_lift_core"] = grid(d=[1800, 2200], b=[1100, 1700], t1=[180, 220], t2=[180, 250], a=[700, 1000], **W)
    G["double_lift_core_a"] = grid(d=[3000, 3500], b=[1100], t1=[180, 220], t2=[180, 250], a1=[700, 900], a2=[200, 530], **W)
    G["double_lift_core_b"] = grid(d=[3000, 3500], b=[1100], t1=[180, 220], t2=[180, 250], t3=[160, 250], a=[700, 900], **W)
    G["stairwell"] = grid(d=[1800, 2700], b=[1100, 1700], t1=[180, 220], t2=[180, 250], a=[700, 1000], **W)
    return G


BASES = {"rectangular_wall": [dict(d=1273, t=200)],
         "cee_wall": [dict(d=1207, b=834, t_f=263, t_w=181), dict(d=1340, b=901, t_f=179, t_w=247)],
         "tee_wall": [dict(d=1203, b=1131, t_f=251, t_w=183), dict(d=1101, b=1277, t_f=181, t_w=233)],
         "single_lift_core": [dict(d=2203, b=1511, t1=241, t2=183, a=901), dict(d=2303, b=1711, t1=187, t2=233, a=1003)],
         "double_lift_core_a": [dict(d=3301, b=1311, t1=241, t2=183, a1=811, a2=457), dict(d=3571, b=1403, t1=187, t2=233, a1=907, a2=403)],
         "double_lift_core_b": [dict(d=3607, b=1311, t1=241, t2=183, t3=207, a=811), dict(d=3803, b=1403, t1=187, t2=233, t3=271, a=887)],
         "stairwell": [dict(d=2203, b=1511, t1=241, t2=183, a=901), dict(d=2503, b=1711, t1=187, t2=233, a=1003)]}


def critical(tier):
    """Spacings just above and below those at which the number of bars of a layer changes."""
    out = []
    for name, bs in BASES.items():
        for a in bs:
            for double, cover in ((True, 31), (False, 43)) if tier == "quick" else itertools.product((True, False), (23, 31, 43)):
                rows = SPEC[name].rows(c=cover + 6, double=double, **a)[1]
                Ls = sorted({round(math.dist(r[0], r[1]), 6) for r in rows})
                for L in Ls:
                    for n in (2, 3, 5, 7) if tier == "quick" else range(1, 12):
                        for e in (-0.003, 0.003):
                            s = L / n * (1 + e)
                            if 60 < s < 800:
                                out.append((name, dict(a, dia_bar=12, area_bar=110, spacing=s, cover=cover, double=double)))
    return out


def cases(tier):
    out = []
    for k, (name, a) in enumerate(critical(tier)):
        out.append(dict(name=name, a=a, unit=(1, 1e-3)[k % 2], n_circle=4, mats="SC"))
    units = [("mm", 1)] if tier == "quick" else [("mm", 1), ("m", 1e-3), ("in", 1 / 25.4), ("km", 1e-6)]
    for u, s in units:
        for name, g in grids(tier).items():
            for k, a in enumerate(g):
                out.append(dict(name=name, a=a, unit=s, n_circle=(4, 7, 8, 5)[k % 4], mats=("SC", "SS", "D")[k % 3]))
    if tier == "quick":
        for name, g in grids(tier).items():
            for k, a in list(enumerate(g))[:60]:
                out.append(dict(name=name, a=a, unit=1e-3, n_circle=(4, 7, 8, 5)[(k + 1) % 4], mats=("SC", "SS", "D")[(k + 1) % 3]))
    for g in range(4):
        for k in range(9):
            for j in range(9 if tier != "quick" else 3):
                out.append(dict(add=g, at=k, then=(j * 3 + k) % 9 if tier == "quick" else j))
    out.append(dict(reject=1))
    return out


AREAS = ("area_top", "area_bot", "area_side", "area_bar", "area_conc")
COUNTS = ("n_top", "n_bot", "n_side", "n_x", "n_y", "n_bar", "n_conc", "filled", "double")


def run_case(case, rec):
    if "add" in case:
        return add(case, rec)
    if "reject" in case:
        return reject(rec)
    import sectionproperties.pre.library as L
    name, s = case["name"], case["unit"]
    a = {k: v if k in COUNTS else v * s * s if k in AREAS else v * s for k, v in case["a"].items()}
    gross, layers = SPEC[name](**a)
    bars = [(area, p) for area, pts in layers for p in pts]
    polys = [(ngon_area(ar, case["n_circle"], *p), ar, p) for ar, p in bars]
    dia = {ar: a[k.replace("area", "dia")] for k, ar in a.items() if k in AREAS and k != "area_conc"}
    for i, (p, ar, c) in enumerate(polys):
        cover = p.buffer(0).bounds
        if not any(g.contains(p) and g.exterior.distance(p) > 0 for g in gross) and not U(*gross).buffer(1e-9 * s).contains(p):
            rec.count("parameter sets whose bars do not fit"); return
        for q, ar2, c2 in polys[:i]:
            if p.distance(q) < 1e-3 * s or math.dist(c, c2) < (dia[ar] + dia[ar2]) / 2:
                rec.count("parameter sets whose bars do not fit"); return
    # no bar may break through the concrete boundary
    G = U(*gross)
    if polys and min(G.boundary.distance(p) for p, _, _ in polys) < 1e-6 * s:
        rec.count("parameter sets whose bars do not fit"); return
    mats = dict(SC=("C", "S"), SS=("S", "S"), D=(None, None))[case["mats"]]
    kw = dict(a, n_circle=case["n_circle"])
    if mats[0]:
        kw.update(conc_mat=ref.material(mats[0]), steel_mat=ref.material(mats[1]))
    what = f"{name}({', '.join(f'{k}={v}' for k, v in kw.items() if not k.endswith('mat'))})"
    rec.step()
    try:
        g = getattr(L, name)(**kw)
    except ValueError as e:
        # a single region without any bar is no compound geometry
        rec.check(not bars and len(gross) == 1, f"{what} raised {e}")
        rec.trace()
        return
    expect(rec, g, gross, polys, ref.material(mats[0]), ref.material(mats[1]), what, s)
    rec.trace()
    rec.state((name, s, case["n_circle"], case["mats"], tuple(sorted(case["a"].items()))))
    rec.outcome((name, len(bars), round(G.area / s / s, 3)))


def expect(rec, g, gross, polys, conc, steel, what, s):
    from sectionproperties.pre import CompoundGeometry
    rec.check(type(g) is CompoundGeometry, f"{what}: {type(g).__name__}")
    L = max(abs(v) for p in gross for v in p.bounds)
    t = 1e-9 * L
    left = list(g.geoms)
    for p, ar, c in polys:
        hit = [r for r in left if abs(r.geom.area - ar) <= 1e-9 * ar and math.dist(r.geom.centroid.coords[0], c) <= 1e-8 * L]
        rec.check(len(hit) == 1, lambda: f"{what}: {len(hit)} bars of area {ar} at {c}; small regions at {[(round(r.geom.centroid.x, 3), round(r.geom.centroid.y, 3), round(r.geom.area, 3)) for r in left if r.geom.area < 10 * ar][:12]}")
        rec.check(gref.same(hit[0].geom, p, t), f"{what}: bar at {c} is not the regular polygon of its area")
        rec.check(hit[0].material is steel, f"{what}: bar at {c} has material {hit[0].material.name}")
        left = [r for r in left if r is not hit[0]]
    want = []
    bars = shapely.union_all([p for p, _, _ in polys])
    for gr in gross:
        w = gr - bars
        want += [q for q in (w.geoms if hasattr(w, "geoms") else [w]) if q.area > t * L]
    rec.check(len(left) == len(want), lambda: f"{what}: {len(left)} regions besides the {len(polys)} bars, expected {len(want)}")
    for w in want:
        hit = [r for r in left if gref.close_regions(r.geom, w, t)]
        rec.check(len(hit) == 1, lambda: f"{what}: no concrete region equals gross outline minus bars; areas {[r.geom.area for r in left]}, expected {w.area}")
        rec.check(hit[0].material is conc, f"{what}: concrete region has material {hit[0].material.name}")
        rec.check(hit[0].geom.is_valid, f"{what}: invalid concrete region")
    tot = sum(r.geom.area for r in g.geoms); G = sum(p.area for p in gross)
    rec.check(abs(tot - G) <= 1e-9 * G, lambda: f"{what}: regions have area {tot}, gross outline {G}")
    for c, r in zip(g.control_points, g.geoms):
        rec.check(gref.inside(r.geom, c), f"{what}: control point outside its region")
    rec.check(not g.holes or not all(abs(U(*gross).area - Polygon(q.exterior).area) < t * L for q in [U(*gross)] if q.geom_type == "Polygon"), f"{what}: hole markers {g.holes}")


# ---------------------------------------------------------------- add_bar, add_bars
SHAPES = [[dict(ext=[[0, 0], [300, 0], [300, 500], [0, 500]], mat="C")],
          [dict(ext=[[0, 0], [300, 0], [300, 300], [0, 300]], mat="C"), dict(ext=[[-100, 300], [400, 300], [400, 500], [-100, 500]], mat="C")],
          [dict(ext=[[0, 0], [300, 0], [300, 500], [0, 500]], holes=[[[140, 200], [160, 200], [160, 300], [140, 300]]], mat="C"), dict(ext=[[300, 0], [400, 0], [400, 500], [300, 500]], mat="T")],
          [dict(ext=[[0, 0], [300, 0], [300, 500], [0, 500]], holes=[[[40, 40], [60, 40], [60, 60], [40, 60]]], mat="C"), dict(ext=[[40, 40], [60, 40], [60, 60], [40, 60]], mat="T")]]
AT = [(50, 50), (250, 450), (100, 250), (150, 300), (200, 299), (299.5, 100), (52, 49), (30, 480), (150, 120)]


def add(case, rec):
    """One bar, then a second one, with add_bar and together with add_bars."""
    from sectionproperties.pre import CompoundGeometry
    from sectionproperties.pre.library import concrete_sections as cs
    regs = SHAPES[case["add"]]
    gs = gref.mk_regions(regs)
    base = gs[0] if len(gs) == 1 else CompoundGeometry(gs)
    snap = gref.snapshot(base)
    steel = ref.material("S")
    ar, n = 400, 8
    P = [ngon_area(ar, n, *AT[case[k]]) for k in ("at", "then")]
    Ps = P if P[0].distance(P[1]) > 1e-3 else P[:1]
    state = [(gref.poly_of(r), ref.material(r["mat"])) for r in regs]
    g = base
    for k, p in zip(("at", "then"), Ps):
        x, y = AT[case[k]]
        g2 = cs.add_bar(geometry=g, area=ar, material=steel, x=x, y=y, n=n)
        rec.step()
        state = [(q - p, m) for q, m in state if (q - p).area > 1e-6] + [(p, steel)]
        regions(rec, g2, state, f"bar at {(x, y)} added to shape {case['add']}")
        g = g2
    h = cs.add_bars(geometry=base, area=ar, material=steel, x=[AT[case[k]][0] for k, _ in zip(("at", "then"), Ps)], y=[AT[case[k]][1] for k, _ in zip(("at", "then"), Ps)], n=n)
    rec.step()
    regions(rec, h, state, f"bars at {[AT[case[k]] for k in ('at', 'then')][:len(Ps)]} added to shape {case['add']}")
    rec.check(gref.snapshot(base) == snap, "adding a bar modified the geometry it was added to")
    rec.trace(); rec.state((case["add"], case["at"], case["then"])); rec.outcome(len(state))


def regions(rec, g, state, what):
    want = [(q, m) for p, m in state for q in (p.geoms if hasattr(p, "geoms") else [p])]
    left = gref.parts(g)
    rec.check(len(left) == len(want), lambda: f"{what}: {len(left)} regions, expected {len(want)}")
    for q, m in want:
        hit = [r for r in left if gref.close_regions(r.geom, q, 1e-8)]
        rec.check(len(hit) == 1 and hit[0].material is m, lambda: f"{what}: no region of {m.name} of area {q.area}")
    gref.wellformed(rec, g, what)


def reject(rec):
    import sectionproperties.pre.library as L
    W = dict(dia_bar=12, area_bar=110, spacing=200, cover=30)
    bad = [("concrete_column_section", dict(d=400, b=300, dia_bar=16, area_bar=200, n_x=x, n_y=y, cover=30, filled=f)) for x, y in ((1, 3), (3, 1), (1, 1), (0, 4)) for f in (False, True)]
    bad += [("concrete_circular_section", dict(d=400, area_conc=125000, n_conc=16, dia_bar=16, area_bar=200, n_bar=n, cover=30)) for n in (0, 1)]
    bad += [("double_lift_core_a", dict(d=3000, b=1100, t1=200, t2=200, a1=a1, a2=a2, **W)) for a1, a2 in ((1200, 300), (900, 801))]
    bad += [("double_lift_core_b", dict(d=3000, b=1100, t1=200, t2=200, t3=200, a=a, **W)) for a in (1201, 1500)]
    bad += [("concrete_rectangular_section", dict(d=600, b=300, dia_top=16, area_top=200, n_top=0, c_top=30, dia_bot=16, area_bot=200, n_bot=0, c_bot=30))]
    for f, a in bad:
        rec.step()
        try:
            getattr(L, f)(**a)
        except ValueError:
            rec.trace()
            continue
        rec.fail(f"{f}({a}) accepted")
    for f, a in (("double_lift_core_a", dict(d=3000, b=1100, t1=200, t2=200, a1=1100, a2=400, **W)), ("double_lift_core_b", dict(d=3000, b=1100, t1=200, t2=200, t3=200, a=1200, **W))):
        for dbl in (True, False):
            getattr(L, f)(**a, double=dbl)   # doors as wide as the opening
            rec.step(); rec.trace()
