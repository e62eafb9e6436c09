"""Reference models: exact polygon integrals, shape enumeration, case builder.

A *section* (JSON) is {"regions": [{"ext": ring, "holes": [ring..], "mat": name}]}.
Coordinates are ints, floats, or "a/b" strings (exact rationals).
"""
from __future__ import annotations
import itertools, math
from fractions import Fraction as F

# ---------------------------------------------------------------- materials
MATS = {
    None: None,
    "D": ("default", 1, 0, 1, 1, "w"),
    "S": ("steel", 200.0, 0.3, 5.0, 7.0, "grey"),
    "C": ("concrete", 25.0, 0.2, 1.25, 2.4, "lightgrey"),
    "T": ("timber", 8.0, 0.35, 0.25, 0.5, "burlywood"),
    "U": ("unit", 1.0, 0.0, 1.0, 1.0, "red"),          # equal numbers to default but not default
    "K": ("stiff", 1000.0, 0.25, 3.0, 0.0, "k"),
    "N": ("steel", 90.0, 0.15, 0.8, 3.0, "grey"),        # same name and colour as S, different numbers
    "M": ("steel", 200.0, 0.3, 5.5, 7.0, "grey"),        # differs from S in strength only
    "E": ("equal E", 25.0, 0.0, 4.0, 1.0, "c"),          # same E as C, different nu/fy
    "O": ("light", 4.0, 0.0, 2.0, 0.0, "b"),              # neither density nor transverse strain
}
_mat_cache = {}


def material(name, fresh=False):
    """pre.Material for a short name; the default is the library's own object."""
    from sectionproperties.pre import Material
    from sectionproperties.pre.pre import DEFAULT_MATERIAL
    if name in (None, "D"):
        return DEFAULT_MATERIAL
    if fresh:
        return Material(*MATS[name])
    if name not in _mat_cache:
        _mat_cache[name] = Material(*MATS[name])
    return _mat_cache[name]


def matvals(name):
    t = MATS[name] if name else MATS["D"]
    E, nu, fy, rho = t[1], t[2], t[3], t[4]
    return dict(E=E, nu=nu, fy=fy, rho=rho, G=E / (2 * (1 + nu)))


# ---------------------------------------------------------------- exact integrals
def fr(x):
    return F(x)


def ring_moments(r):
    """A, Qx(=int y), Qy(=int x), Ixx, Iyy, Ixy of a ring (signed, exact for rationals)."""
    A = Qx = Qy = Ixx = Iyy = Ixy = 0
    n = len(r)
    for i in range(n):
        x0, y0 = r[i]
        x1, y1 = r[(i + 1) % n]
        c = x0 * y1 - x1 * y0
        A += c
        Qy += c * (x0 + x1)
        Qx += c * (y0 + y1)
        Iyy += c * (x0 * x0 + x0 * x1 + x1 * x1)
        Ixx += c * (y0 * y0 + y0 * y1 + y1 * y1)
        Ixy += c * (x0 * y1 + 2 * x0 * y0 + 2 * x1 * y1 + x1 * y0)
    if isinstance(A, F) or isinstance(A, int):
        A, Qx, Qy, Ixx, Iyy, Ixy = (F(v) for v in (A, Qx, Qy, Ixx, Iyy, Ixy))
    return [A / 2, Qx / 6, Qy / 6, Ixx / 12, Iyy / 12, Ixy / 24]


def poly_moments(ext, holes=()):
    m = ring_moments(ext)
    if m[0] < 0:
        m = [-v for v in m]
    for h in holes:
        k = ring_moments(h)
        s = 1 if k[0] > 0 else -1
        m = [a - s * b for a, b in zip(m, k)]
    return m


def ring_len(r):
    return sum(math.hypot(float(r[i][0] - r[i - 1][0]), float(r[i][1] - r[i - 1][1])) for i in range(len(r)))


# ---------------------------------------------------------------- polyominoes
def polyominoes(n):
    """All fixed polyominoes with exactly n cells (BFS by adding a cell)."""
    level = {frozenset([(0, 0)])}
    for _ in range(n - 1):
        nxt = set()
        for p in level:
            for (x, y) in p:
                for dx, dy in ((1, 0), (-1, 0), (0, 1), (0, -1)):
                    c = (x + dx, y + dy)
                    if c not in p:
                        q = set(p) | {c}
                        mx = min(a for a, _ in q); my = min(b for _, b in q)
                        nxt.add(frozenset((a - mx, b - my) for a, b in q))
        level = nxt
    return sorted(tuple(sorted(p)) for p in level)


def connected(cells):
    cells = set(cells)
    if not cells:
        return False
    st = [next(iter(cells))]; seen = {st[0]}
    while st:
        x, y = st.pop()
        for dx, dy in ((1, 0), (-1, 0), (0, 1), (0, -1)):
            c = (x + dx, y + dy)
            if c in cells and c not in seen:
                seen.add(c); st.append(c)
    return len(seen) == len(cells)


def subsets_box(w, h, min_cells=1):
    allc = [(x, y) for x in range(w) for y in range(h)]
    out = []
    for k in range(min_cells, len(allc) + 1):
        for c in itertools.combinations(allc, k):
            if connected(c):
                if min(a for a, _ in c) == 0 and min(b for _, b in c) == 0:
                    out.append(c)
    return out


def corner_touch(cells):
    """True if two cells meet only at a corner (ring touching at a point)."""
    s = set(cells)
    for (x, y) in s:
        for dx, dy in ((1, 1), (1, -1)):
            if (x + dx, y + dy) in s and (x + dx, y) not in s and (x, y + dy) not in s:
                return True
    return False


def cells_rings(cells):
    """Boundary rings of a cell set: (exteriors, holes) with collinear points merged."""
    s = set(cells)
    edges = {}
    for (x, y) in s:
        for (a, b, nb) in (((x, y), (x + 1, y), (x, y - 1)), ((x + 1, y), (x + 1, y + 1), (x + 1, y)),
                           ((x + 1, y + 1), (x, y + 1), (x, y + 1)), ((x, y + 1), (x, y), (x - 1, y))):
            if nb not in s:
                edges.setdefault(a, []).append(b)
    rings = []
    while edges:
        a = min(edges)
        b = edges[a].pop()
        if not edges[a]:
            del edges[a]
        ring = [a]
        prev, cur = a, b
        while cur != a:
            ring.append(cur)
            opts = edges[cur]
            if len(opts) > 1:  # corner touch: turn left first so that rings separate there
                d = (cur[0] - prev[0], cur[1] - prev[1])
                opts.sort(key=lambda o: -((d[0] * (o[1] - cur[1]) - d[1] * (o[0] - cur[0]))))
            nx = opts.pop(0)
            if not opts:
                del edges[cur]
            prev, cur = cur, nx
        m = []
        for i in range(len(ring)):
            p, q, r = ring[i - 1], ring[i], ring[(i + 1) % len(ring)]
            if (q[0] - p[0]) * (r[1] - q[1]) != (q[1] - p[1]) * (r[0] - q[0]):
                m.append(q)
        rings.append(m)
    ext = [r for r in rings if ring_moments(r)[0] > 0]
    hol = [r for r in rings if ring_moments(r)[0] < 0]
    return ext, hol


def region_cells(cells, mat=None):
    ext, hol = cells_rings(cells)
    assert len(ext) == 1, cells
    return {"ext": [list(p) for p in ext[0]], "holes": [[list(p) for p in h] for h in hol], "mat": mat}


def void_plates(sizes, split=False):
    """Plates one cell wider than every polyomino of the given sizes, with that polyomino cut out; split: as two regions meeting on
    a vertical line through the void."""
    out = []
    for n in sizes:
        for p in polyominoes(n):
            if corner_touch(p):
                continue
            p = {(x + 1, y + 1) for x, y in p}
            w, h = max(x for x, _ in p) + 2, max(y for _, y in p) + 2
            cells = {(x, y) for x in range(w) for y in range(h)} - p
            if not split:
                out.append([region_cells(cells, "S")])
                continue
            for k in range(2, w - 1):
                a, b = [{c for c in cells if (c[0] < k) == s} for s in (True, False)]
                if connected(a) and connected(b) and not corner_touch(a) and not corner_touch(b):
                    out.append([region_cells(a, "S"), region_cells(b, "C")])
    return out


def big_sections():
    """Sections of many parts: up to 12 regions, 9 voids, 8 materials, 5 nested rings, 40 corners; [(name, section)], section["outer"]
    is the outline (None: disjoint)."""
    sq = lambda x, y, w, h, m: dict(ext=[[x, y], [x + w, y], [x + w, y + h], [x, y + h]], holes=[], mat=m)
    box = lambda w, h: [[0, 0], [w, 0], [w, h], [0, h]]
    out = []
    bars = [(1, 1), (3, 1), (5, 1), (1, 3), (3, 3), (5, 3)]
    con = dict(ext=box(7, 5), holes=[sq(x, y, 1, 1, None)["ext"] for x, y in bars], mat="C")
    rb = [sq(x, y, 1, 1, "S") for x, y in bars]
    out.append(("bars", dict(regions=[con] + rb, outer=box(7, 5))))
    out.append(("bars last", dict(regions=rb[:3] + [con] + [dict(r, mat=m) for r, m in zip(rb[3:], "NTK")], outer=box(7, 5))))
    cells = {(x, y) for x in range(7) for y in range(7)} - {(x, y) for x in (1, 3, 5) for y in (1, 3, 5)}
    out.append(("grid", dict(regions=[region_cells(cells, None)], outer=box(7, 7))))
    out.append(("five voids", dict(regions=[region_cells({(x, y) for x in range(11) for y in range(3)} - {(x, 1) for x in (1, 3, 5, 7, 9)}, "T")], outer=box(11, 3))))
    ms = ["S", "C", "T", "K", "E", "N", "S", "M"]
    strip = [sq(i, 0, 1, 2 if i % 2 else 1, m) for i, m in enumerate(ms)]
    o = region_cells({(i, y) for i in range(8) for y in range(2 if i % 2 else 1)})["ext"]
    out.append(("strip", dict(regions=strip, outer=o)))
    out.append(("strip shuffled", dict(regions=[strip[i] for i in (5, 0, 7, 3, 6, 1, 4, 2)], outer=o)))
    out.append(("strip partly", dict(regions=[dict(r, mat=None if i in (0, 3, 6) else r["mat"]) for i, r in enumerate(strip)], outer=o)))
    out.append(("chequer", dict(regions=[sq(x, y, 1, 1, "SCT"[(x + y) % 3]) for y in range(3) for x in range(4)], outer=box(4, 3))))
    out.append(("chequer plain", dict(regions=[sq(x, y, 1, 1, None) for x in range(3) for y in range(4)], outer=box(3, 4))))
    ring = lambda a, m, last=False: dict(ext=[[a, a], [10 - a, a], [10 - a, 10 - a], [a, 10 - a]],
                                         holes=[] if last else [[[a + 1, a + 1], [9 - a, a + 1], [9 - a, 9 - a], [a + 1, 9 - a]]], mat=m)
    out.append(("nested", dict(regions=[ring(i, m, i == 4) for i, m in enumerate(("C", "S", "C", "T", "S"))], outer=box(10, 10))))
    out.append(("nested inside out", dict(regions=[ring(i, m, i == 4) for i, m in enumerate(("C", "S", "T", "K", "E"))][::-1], outer=box(10, 10))))
    out.append(("comb", dict(regions=[region_cells({(x, 0) for x in range(15)} | {(x, y) for x in range(0, 15, 2) for y in range(1, 4)}, None)], outer=None)))
    out[-1][1]["outer"] = out[-1][1]["regions"][0]["ext"]
    out.append(("islands", dict(regions=[sq(3 * i, i % 3, 1 + i % 2, 2, m) for i, m in enumerate(("S", "C", "S", "T", None, "K"))], outer=None, disjoint=1)))
    out.append(("ring and islands", dict(regions=[ring(0, "C"), sq(2, 2, 1, 2, "S"), sq(5, 3, 2, 1, "T"), sq(3, 6, 2, 2, "C"), sq(12, 0, 1, 3, "K")], outer=None, disjoint=1)))
    for _, b in out:
        if len(b["regions"]) > 1:
            b["compound"] = 1
    return out


def components(cells):
    cells = set(cells); out = []
    while cells:
        st = [min(cells)]; comp = {st[0]}
        while st:
            x, y = st.pop()
            for c in ((x + 1, y), (x - 1, y), (x, y + 1), (x, y - 1)):
                if c in cells and c not in comp:
                    comp.add(c); st.append(c)
        out.append(tuple(sorted(comp))); cells -= comp
    return out


# ---------------------------------------------------------------- lattice polygons
def lattice_triangles(n):
    """Triangles on the (n+1)^2 lattice, touching both axes minimum, up to translation."""
    pts = [(x, y) for x in range(n + 1) for y in range(n + 1)]
    out = []
    for t in itertools.combinations(pts, 3):
        if min(p[0] for p in t) or min(p[1] for p in t):
            continue
        (a, b), (c, d), (e, f) = t
        if (c - a) * (f - b) - (d - b) * (e - a) != 0:
            out.append([list(p) for p in t])
    return out


def _seg_cross(p, q, r, s):
    def o(a, b, c):
        v = (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])
        return (v > 0) - (v < 0)

    def on(a, b, c):
        return min(a[0], b[0]) <= c[0] <= max(a[0], b[0]) and min(a[1], b[1]) <= c[1] <= max(a[1], b[1])
    o1, o2, o3, o4 = o(p, q, r), o(p, q, s), o(r, s, p), o(r, s, q)
    if o1 != o2 and o3 != o4:
        return True
    return (o1 == 0 and on(p, q, r)) or (o2 == 0 and on(p, q, s)) or (o3 == 0 and on(r, s, p)) or (o4 == 0 and on(r, s, q))


def lattice_quads(n):
    """Simple quadrilaterals (convex and not) on the (n+1)^2 lattice up to translation."""
    pts = [(x, y) for x in range(n + 1) for y in range(n + 1)]
    out, seen = [], set()
    for t in itertools.combinations(pts, 4):
        if min(p[0] for p in t) or min(p[1] for p in t):
            continue
        for perm in ((0, 1, 2, 3), (0, 1, 3, 2), (0, 2, 1, 3)):
            q = [t[i] for i in perm]
            if _seg_cross(q[0], q[1], q[2], q[3]) or _seg_cross(q[1], q[2], q[3], q[0]):
                continue
            bad = False
            for i in range(4):
                a, b, c = q[i - 1], q[i], q[(i + 1) % 4]
                if (b[0] - a[0]) * (c[1] - b[1]) == (b[1] - a[1]) * (c[0] - b[0]):
                    bad = True
            if bad:
                continue
            out.append([list(p) for p in q])
    return out


# ---------------------------------------------------------------- transforms (exact)
# name -> (a, b, c, d, tx, ty): x' = a x + b y + tx ; y' = c x + d y + ty
TR = {
    "id": (1, 0, 0, 1, 0, 0),
    "shift": (1, 0, 0, 1, 7, -3),
    "neg": (1, 0, 0, 1, -11, -13),
    "far": (1, 0, 0, 1, 1000, 500),
    "rot345": (F(3, 5), F(-4, 5), F(4, 5), F(3, 5), 0, 0),
    "rot90": (0, -1, 1, 0, 0, 0),
    "rot90far": (0, -1, 1, 0, -250, 100),
    "rot512": (F(12, 13), F(-5, 13), F(5, 13), F(12, 13), -2, 4),
    "mirx": (1, 0, 0, -1, 0, 0),
    "miry": (-1, 0, 0, 1, 5, 0),
    "shear": (1, F(1, 2), 0, 1, 0, 0),
    "sheary": (1, 0, F(1, 3), 1, -1, 2),
    "skew": (1, F(1, 1000), 0, 1, 0, 0),
    "thin": (F(1, 8), 0, 0, 2, 0, 0),
    "flat": (3, 0, 0, F(1, 4), 1, 1),
    "big": (100, 0, 0, 100, 50, -20),
    "small": (F(1, 100), 0, 0, F(1, 100), 0, 0),
    "mix": (2, F(-1, 2), F(1, 4), F(3, 2), F(-7, 2), F(1, 3)),
    "mm": (F(1, 1000), 0, 0, F(1, 1000), 0, 0),
    "km": (1000, 0, 0, 1000, -10 ** 6, 3 * 10 ** 5),
    "tiny": (F(1, 10 ** 4), 0, 0, F(1, 10 ** 4), 0, 0),
    "rot90s": (0, F(-1, 1000), F(1, 1000), 0, 2, 1),
}


def tr_pts(ring, name):
    a, b, c, d, tx, ty = (TR[name] if isinstance(name, str) else name)
    return [[a * F(x) + b * F(y) + tx, c * F(x) + d * F(y) + ty] for x, y in ring]


def exact_regions(case):
    """[(ext, holes, mat)] with Fraction coordinates after the case's transform."""
    t = case.get("tr", "id")
    return [(tr_pts(r["ext"], t), [tr_pts(h, t) for h in r.get("holes", [])], r.get("mat")) for r in case["regions"]]


def area_scale(name):
    a, b, c, d, tx, ty = (TR[name] if isinstance(name, str) else name)
    return abs(float(a * d - b * c))


def fl(ring):
    return [(float(x), float(y)) for x, y in ring]


def build(case, fresh=False):
    """Geometry (one region, unless case['compound']) or CompoundGeometry for a case, as floats."""
    from shapely import Polygon
    from sectionproperties.pre import CompoundGeometry, Geometry
    regs = exact_regions(case)
    gs = [Geometry(Polygon(fl(e), [fl(h) for h in hs]), material(m, fresh)) for e, hs, m in regs]
    if len(gs) == 1 and not case.get("compound"):
        return gs[0]
    return CompoundGeometry(gs)


def moments(case):
    """Exact per-region moments: [(mat, [A,Qx,Qy,Ixx,Iyy,Ixy])] of the *float* coordinates."""
    out = []
    for e, hs, m in exact_regions(case):
        ee = [(F(float(x)), F(float(y))) for x, y in e]
        hh = [[(F(float(x)), F(float(y))) for x, y in h] for h in hs]
        out.append((m, poly_moments(ee, hh)))
    return out


def is_composite(case):
    return any(m not in (None, "D") for m in (r.get("mat") for r in case["regions"]))


def area_props(case):
    """Dict of exact (float-rounded) area properties, modulus weighted."""
    ms = moments(case)
    A = mass = EA = GA = F(0)
    Q = [F(0)] * 5
    for m, v in ms:
        mv = matvals(m)
        A += v[0]; mass += v[0] * F(mv["rho"]); EA += v[0] * F(mv["E"])
        GA += v[0] * F(mv["E"]) / (2 * (1 + F(mv["nu"])))
        for i in range(5):
            Q[i] += v[i + 1] * F(mv["E"])
    cx, cy = Q[1] / EA, Q[0] / EA
    Ixx, Iyy, Ixy = Q[2] - Q[0] ** 2 / EA, Q[3] - Q[1] ** 2 / EA, Q[4] - Q[0] * Q[1] / EA
    p = dict(area=A, mass=mass, ea=EA, ga=GA, qx=Q[0], qy=Q[1], ixx_g=Q[2], iyy_g=Q[3], ixy_g=Q[4],
             cx=cx, cy=cy, ixx=Ixx, iyy=Iyy, ixy=Ixy, nu_eff=EA / (2 * GA) - 1, e_eff=EA / A, g_eff=GA / A)
    half = float((Ixx - Iyy) / 2)
    delta = math.sqrt(half * half + float(Ixy) ** 2)
    p = {k: float(v) for k, v in p.items()}
    mean = float((Ixx + Iyy) / 2)
    p["delta"] = delta
    p["i11"], p["i22"] = mean + delta, float(Ixx * Iyy - Ixy ** 2) / (mean + delta)
    # Ixx - I11 = half - delta, cancellation free
    num = (half - delta) if half <= 0 else -float(Ixy) ** 2 / (half + delta) if (half + delta) else 0.0
    p["phi"] = 0.0 if abs(num) < 1e-12 * p["i11"] else math.degrees(math.atan2(num, float(Ixy)))
    p["rx"], p["ry"] = math.sqrt(p["ixx"] / p["ea"]), math.sqrt(p["iyy"] / p["ea"])
    p["r11"], p["r22"] = math.sqrt(p["i11"] / p["ea"]), math.sqrt(p["i22"] / p["ea"])
    return p


def verts(case):
    return [(float(x), float(y)) for e, hs, m in exact_regions(case) for x, y in e]


def extents(case):
    v = verts(case)
    return (min(x for x, _ in v), max(x for x, _ in v), min(y for _, y in v), max(y for _, y in v))
