"""C20: primitive and steel library sections over grids of all their dimensions."""
import math
from shapely import Polygon
from . import ref, gref, lib
from .lib import arc, grid, mirror_x, mirror_y

ALPHABET = "all 7 primitive and 15 steel section functions over grids of every dimension: zero and maximal radii, non-square, extreme ratios, unequal flanges, tapers, optional arguments, segment counts"
BOUND = {"quick": "full product grids (about 30 to 3000 dimension sets per function, valid sets only) x 3 segment counts x 3 size scales (1, 1e-3, 250), every smallest set meshed",
         "thorough": "6 segment counts up to 64, 5 size scales, every set meshed"}
ORACLE = ("independent outline: sharp polygon of the documented dimensions with tangent arcs of n points; its closed-form area with true arcs within the chord error; "
          "extents, holes, symmetry, material identity, well-formed points/facets/holes")

Q = math.pi / 2


def half(x0, *v):
    return mirror_x(v, x0)


# every spec returns (outer vertices, [hole vertices]) with radii, or None when the dimensions are not valid
def S_rectangular_section(d, b):
    return [(0, 0), (b, 0), (b, d), (0, d)], []


def S_triangular_section(b, h):
    return [(0, 0), (b, 0), (0, h)], []


def S_cruciform_section(d, b, t, r):
    q = [(t / 2, -d / 2), (t / 2, -t / 2, r), (b / 2, -t / 2)]
    return half(0, *mirror_y(q, 0)), []


def S_rectangular_hollow_section(d, b, t, r_out, r_in=None, t_w=None):
    w = t if t_w is None else t_w
    if r_in is None:
        r_in = max(r_out - max(t, w), 0)
    R = lambda x, y, X, Y, r: [(x, y, r), (X, y, r), (X, Y, r), (x, Y, r)]
    return R(0, 0, b, d, r_out), [R(w, t, b - w, d - t, r_in)]


def S_i_section(d, b, t_f, t_w, r):
    return half(b / 2, *mirror_y([(b, 0), (b, t_f), (b / 2 + t_w / 2, t_f, r)], d / 2)), []


def S_mono_i_section(d, b_t, b_b, t_ft, t_fb, t_w, r):
    c = max(b_t, b_b) / 2
    return half(c, (c + b_b / 2, 0), (c + b_b / 2, t_fb), (c + t_w / 2, t_fb, r), (c + t_w / 2, d - t_ft, r), (c + b_t / 2, d - t_ft), (c + b_t / 2, d)), []


def S_tapered_flange_i_section(d, b, t_f, t_w, r_r, r_f, alpha):
    xm = (b + b / 2 + t_w / 2) / 2; k = math.tan(math.radians(alpha))
    y = lambda x: t_f + (xm - x) * k
    q = [(b, 0), (b, y(b), r_f), (b / 2 + t_w / 2, y(b / 2 + t_w / 2), r_r)]
    return half(b / 2, *mirror_y(q, d / 2)), []


def S_channel_section(d, b, t_f, t_w, r):
    return mirror_y([(0, 0), (b, 0), (b, t_f), (t_w, t_f, r)], d / 2), []


def S_tapered_flange_channel(d, b, t_f, t_w, r_r, r_f, alpha):
    xm = (b + t_w) / 2; k = math.tan(math.radians(alpha))
    y = lambda x: t_f + (xm - x) * k
    return mirror_y([(0, 0), (b, 0), (b, y(b), r_f), (t_w, y(t_w), r_r)], d / 2), []


def S_tee_section(d, b, t_f, t_w, r):
    return half(b / 2, (b / 2 + t_w / 2, 0), (b / 2 + t_w / 2, d - t_f, r), (b, d - t_f), (b, d)), []


def S_angle_section(d, b, t, r_r, r_t):
    return [(0, 0), (b, 0), (b, t, r_t), (t, t, r_r), (t, d, r_t), (0, d)], []


def lip(b, l, t, r_out):
    """Flange tip on the right, upwards, of a flange whose outer face is y = 0 and whose tip is at x = b."""
    if l == 0:
        return [(b, 0), (b, t)]
    r = min(r_out, l)
    return [(b, 0, r), (b, l), (b - t, l), (b - t, t, max(r - t, 0))]


def S_cee_section(d, b, l, t, r_out):
    if 0 < l <= t:
        return None
    ri = max(r_out - t, 0)
    return mirror_y([(0, 0, r_out)] + lip(b, l, t, r_out) + [(t, t, ri)], d / 2), []


def S_zed_section(d, b_l, b_r, l, t, r_out):
    if 0 < l <= t:
        return None
    ri = max(r_out - t, 0)
    low = [(0, 0, r_out)] + lip(b_r, l, t, r_out) + [(t, t, ri)]
    up = [(t - v[0], d - v[1]) + tuple(v[2:]) for v in [(0, 0, r_out)] + lip(b_l, l, t, r_out) + [(t, t, ri)]]
    return low + up, []


def S_box_girder_section(d, b_t, b_b, t_ft, t_fb, t_w):
    c = max(b_t, b_b) / 2
    s = (b_t - b_b) / 2 / d                       # outward slope of the outer web face
    w = t_w * math.hypot(1, s)                    # horizontal width of a web of thickness t_w
    x = lambda y: b_b / 2 + s * y
    f = lambda x0, y: (c + x0, y)
    i0, i1 = x(t_fb) - w, x(d - t_ft) - w
    if min(i0, i1) <= 0:
        return None
    return [f(-b_b / 2, 0), f(b_b / 2, 0), f(b_t / 2, d), f(-b_t / 2, d)], [[f(-i0, t_fb), f(i0, t_fb), f(i1, d - t_ft), f(-i1, d - t_ft)]]


SHARP = {k[2:]: v for k, v in list(globals().items()) if k.startswith("S_")}
PRIM = ("rectangular_section", "circular_section", "circular_section_by_area", "elliptical_section", "triangular_section", "triangular_radius_section", "cruciform_section")


# ---------------------------------------------------------------- curved sections: explicit rings
def ngon(rx, ry, n):
    return [(rx * math.cos(2 * math.pi * i / n), ry * math.sin(2 * math.pi * i / n)) for i in range(n)]


def ring_spec(name, a, n):
    """(outer, holes, true area, allowed chord error) for the sections that are not fillet polygons."""
    if name == "circular_section":
        r = a["d"] / 2
        return ngon(r, r, n), [], math.pi * r * r, True
    if name == "circular_section_by_area":
        r = math.sqrt(2 * a["area"] / (n * math.sin(2 * math.pi / n)))
        return ngon(r, r, n), [], a["area"], False
    if name == "elliptical_section":
        return ngon(a["d_x"] / 2, a["d_y"] / 2, n), [], math.pi * a["d_x"] * a["d_y"] / 4, True
    if name == "circular_hollow_section":
        r, t = a["d"] / 2, a["t"]
        return ngon(r, r, n), [ngon(r - t, r - t, n)], math.pi * (r * r - (r - t) ** 2), True
    if name == "elliptical_hollow_section":
        p, q, t = a["d_x"] / 2, a["d_y"] / 2, a["t"]
        return ngon(p, q, n), [ngon(p - t, q - t, n)], math.pi * (p * q - (p - t) * (q - t)), True
    if name == "triangular_radius_section":
        b = a["b"]
        return [(0, 0)] + arc((b, b), b, 3 * Q, 2 * Q, n), [], b * b * (1 - math.pi / 4), True


def polygon_hollow(a, n):
    d, t, k = a["d"], a["t"], a["n_sides"]
    ri = a.get("r_in", 0); rot = math.radians(a.get("rot", 0))
    f = lambda R: [(R * math.cos(-Q + math.pi / k + rot + 2 * math.pi * i / k), R * math.sin(-Q + math.pi / k + rot + 2 * math.pi * i / k)) for i in range(k)]
    c = math.cos(math.pi / k)
    if d / 2 * c - t <= 0:
        return None
    ri = min(ri, d / 2 * c - t)  # radii merge to a circle
    o = [v + ((ri + t) if ri else 0,) for v in f(d / 2)]
    i = [v + (ri,) for v in f((d / 2 * c - t) / c)]
    return o, [i]


def bulb(a, n):
    d, b, t, r = a["d"], a["b"], a["t"], a["r"]
    c = (b + t / 2 - r, d - r)
    s = math.sqrt(3)
    if a.get("d_b") is None:
        # slope of 30 degrees tangent to the nose, from the web to the nose
        v = [(t / 2, 0), (t / 2, d - r - r / s - b / s, r)]
        tip = (c[0] + r / 2, c[1] - r * s / 2)
    else:
        v = [(t / 2, 0), (t / 2, d - a["d_b"], r)]
    # fillet at the web with a 60 degree arc, then the nose
    y0 = v[1][1]
    cf = (t / 2 + r, y0 - r / s)
    if r == 0:
        ring = [(t / 2, 0), (t / 2, y0), (b + t / 2, d)]
    else:
        ring = [(t / 2, 0)] + arc(cf, r, math.pi, math.pi * 2 / 3, n) + arc(c, r, -math.pi / 3, 0, n) + arc(c, r, 0, Q, n)[1:]
    ring += [(-t / 2, d), (-t / 2, 0)]
    # the parts must not run into each other
    if y0 - r / s <= 0 or (b < r) or (r and cf[0] - r / 2 > c[0] + r / 2) or (r and y0 + 0.5 * r / s > c[1] - r * s / 2 + 1e-9):
        return None
    return ring


# ---------------------------------------------------------------- grids of dimensions
def grids(tier):
    G = {}
    G["rectangular_section"] = grid(d=[1, 7, 100], b=[1, 3, 50])
    G["triangular_section"] = grid(b=[1, 4, 30], h=[1, 5, 40])
    G["cruciform_section"] = grid(d=[10, 25], b=[10, 40], t=[1, 2, 5], r=[0, 0.5, 2, 2.5])
    G["circular_section"] = grid(d=[1, 10, 33.3])
    G["circular_section_by_area"] = grid(area=[1, 10, 777.7])
    G["elliptical_section"] = grid(d_x=[1, 10, 25], d_y=[2, 10, 40])
    G["triangular_radius_section"] = grid(b=[1, 6, 30])
    G["circular_hollow_section"] = grid(d=[10, 48], t=[0.1, 1, 3.2, 4.9])
    G["elliptical_hollow_section"] = grid(d_x=[10, 50], d_y=[10, 25, 70], t=[0.1, 2, 4])
    G["rectangular_hollow_section"] = [g for g in grid(d=[10, 20, 40], b=[10, 16], t=[1, 2, 4], r_out=[0, 1, 2.5, 5], r_in=[None, 0, 0.5, 1.5, 3], t_w=[None, 0.5, 2, 3])]
    G["polygon_hollow_section"] = grid(d=[10, 30], t=[0.5, 1.5], n_sides=[3, 4, 5, 6, 7, 8, 12], r_in=[0, 0.5, 1, 2, 50], rot=[0, 15, 90, -33.3])
    G["i_section"] = grid(d=[10, 20, 60], b=[4, 10], t_f=[0.5, 1, 4], t_w=[0.5, 2], r=[0, 0.5, 1])
    G["mono_i_section"] = grid(d=[12, 30], b_t=[4, 8], b_b=[4, 11], t_ft=[0.5, 2], t_fb=[1, 3], t_w=[0.5, 2], r=[0, 0.5, 1])
    G["tapered_flange_i_section"] = grid(d=[20, 40], b=[10, 16], t_f=[2, 4], t_w=[1, 2], r_r=[0, 1, 2], r_f=[0, 0.5, 1], alpha=[0, 5, 8, 14])
    G["channel_section"] = grid(d=[10, 20, 60], b=[4, 10], t_f=[0.5, 1, 4], t_w=[0.5, 2], r=[0, 0.5, 1])
    G["tapered_flange_channel"] = grid(d=[20, 40], b=[6, 10], t_f=[2, 4], t_w=[1, 2], r_r=[0, 1, 2], r_f=[0, 0.5, 1], alpha=[0, 5, 8, 14])
    G["tee_section"] = grid(d=[10, 20, 60], b=[4, 10], t_f=[0.5, 1, 4], t_w=[0.5, 2], r=[0, 0.5, 1])
    G["angle_section"] = grid(d=[6, 15, 40], b=[6, 10], t=[0.5, 1, 3], r_r=[0, 1, 2.5], r_t=[0, 0.25, 0.5, 1, 3])
    G["cee_section"] = grid(d=[20, 50], b=[10, 16], l=[0, 1.5, 2.5, 4, 6], t=[0.5, 1, 2], r_out=[0, 0.5, 1, 2, 3])
    G["zed_section"] = grid(d=[20, 50], b_l=[10, 13], b_r=[10, 16], l=[0, 1.5, 2.5, 4, 6], t=[0.5, 1, 2], r_out=[0, 0.5, 1, 2, 3])
    G["box_girder_section"] = grid(d=[10, 25], b_t=[8, 20, 40], b_b=[8, 14, 40], t_ft=[0.5, 2], t_fb=[0.5, 3], t_w=[0.5, 1.5])
    G["bulb_section"] = grid(d=[24, 50], b=[3, 5], t=[1, 2], r=[0, 0.5, 1, 2], d_b=[None, 5, 8])
    return G


DIMLESS = ("n_sides", "rot", "alpha")


def cases(tier):
    scales = [1, 1e-3, 250] if tier == "quick" else [1, 1e-3, 250, 1e5, 1 / 7]
    ns = [3, 4, 16] if tier == "quick" else [3, 4, 7, 16, 33, 64]
    out = []
    for s in scales:
        for n in ns:
            for name, g in grids(tier).items():
                for k in range(0, len(g), 60):
                    out.append(dict(name=name, n=n, scale=s, lo=k, hi=min(k + 60, len(g)), mesh=1 if tier != "quick" else (k == 0 and s == 1)))
    out.append(dict(special="zero"))
    out.append(dict(special="reject"))
    return out


def run_case(case, rec):
    if "special" in case:
        return dict(zero=zero, reject=reject)[case["special"]](rec)
    G = grids("quick")[case["name"]]
    for j, a in enumerate(G[case["lo"]:case["hi"]]):
        a = {k: (v if v is None or k in DIMLESS else v * (case["scale"] ** 2 if k == "area" else case["scale"])) for k, v in a.items()}
        one(rec, case["name"], a, case["n"], j % 2, case["mesh"] and (j < 3 or case["mesh"] != True))


def expected(name, a, n):
    """(outer, holes, exact area or None, chord error) or None."""
    if name == "bulb_section":
        r = bulb(a, n)
        return r and (r, [], None, 0)
    if name == "polygon_hollow_section" or name in SHARP:
        sp = polygon_hollow(a, n) if name == "polygon_hollow_section" else SHARP[name](**a)
        if sp is None:
            return None
        o, ar, err, fits = lib.fillet(sp[0], n)
        hs = []
        if any(v[0] != v[0] for v in sp[0]):
            return None
        for h in sp[1]:
            ho, ha, he, hf = lib.fillet(h, n)
            if not hf:
                return None
            hs.append(ho); ar -= ha; err += he
        return (o, hs, ar, err) if fits else None
    o, hs, ar, approx = ring_spec(name, a, n)
    return o, hs, ar, (ar * 4 * (2 * math.pi / n) ** 2 if approx else 0) if name != "triangular_radius_section" else a["b"] ** 2 * (Q ** 3 / 12 / (n - 1) ** 2)


def one(rec, name, a, n, withmat, mesh):
    import sectionproperties.pre.library as L
    from sectionproperties.pre.pre import DEFAULT_MATERIAL
    ex = expected(name, a, n)
    if ex is None or not lib.valid(ex[0], ex[1]) or any(h.within(Polygon(ex[0])) is False or h.boundary.distance(Polygon(ex[0]).exterior) < 1e-6 * h.length for h in map(Polygon, ex[1])):
        rec.count("dimension sets that are not valid sections")
        return
    kw = dict(a)
    if name not in ("rectangular_section", "triangular_section", "box_girder_section"):
        kw["n" if name.startswith(("circ", "ellip")) else "n_r"] = n
    if withmat:
        kw["material"] = ref.material("S")
    what = f"{name}({', '.join(f'{k}={v}' for k, v in kw.items() if k != 'material')})"
    g = getattr(L, name)(**kw)
    rec.step()
    want = lib.match(rec, g, ex[0], ex[1], kw.get("material", DEFAULT_MATERIAL), what)
    if ex[2] is not None:
        rec.check(abs(g.geom.area - ex[2]) <= ex[3] + 1e-9 * want.length * max(want.bounds[2] - want.bounds[0], want.bounds[3] - want.bounds[1]),
                  lambda: f"{what}: area {g.geom.area}, closed form {ex[2]} (discretisation explains {ex[3]})")
    rec.check(len(g.control_points) == 1 and gref.inside(g.geom, g.control_points[0]), f"{what}: control point outside")
    rec.check(len(g.holes) == len(ex[1]), f"{what}: {len(g.holes)} hole markers")
    gref.wellformed(rec, g, what)
    if mesh:
        g.create_mesh(mesh_sizes=[want.area / 4])
        v = g.mesh["vertices"]; t = g.mesh["triangles"]
        s = 0.0
        for e in t:
            (x0, y0), (x1, y1), (x2, y2) = v[e[0]], v[e[1]], v[e[2]]
            s += 0.5 * ((x1 - x0) * (y2 - y0) - (x2 - x0) * (y1 - y0))
        rec.check(abs(s - want.area) <= 1e-8 * want.area, lambda: f"{what}: mesh area {s}, section {want.area}")
        rec.count("sections meshed")
    rec.trace()
    rec.state((name, n, tuple(sorted((k, v) for k, v in a.items() if v is not None))))
    rec.outcome((name, round(want.area, 9)))


def zero(rec):
    """Without radii the number of points per radius is immaterial."""
    import sectionproperties.pre.library as L
    D = dict(rectangular_hollow_section=dict(d=10, b=8, t=1, r_out=0), i_section=dict(d=10, b=8, t_f=1, t_w=1, r=0), cruciform_section=dict(d=10, b=8, t=1, r=0),
             mono_i_section=dict(d=10, b_t=8, b_b=6, t_ft=1, t_fb=2, t_w=1, r=0), tapered_flange_i_section=dict(d=10, b=8, t_f=1, t_w=1, r_r=0, r_f=0, alpha=8),
             channel_section=dict(d=10, b=8, t_f=1, t_w=1, r=0), tapered_flange_channel=dict(d=10, b=6, t_f=1.5, t_w=1, r_r=0, r_f=0, alpha=8), tee_section=dict(d=10, b=8, t_f=1, t_w=1, r=0),
             angle_section=dict(d=10, b=8, t=1, r_r=0, r_t=0), cee_section=dict(d=10, b=8, l=3, t=1, r_out=0), zed_section=dict(d=10, b_l=8, b_r=7, l=3, t=1, r_out=0),
             polygon_hollow_section=dict(d=10, t=1, n_sides=6))
    for name, a in D.items():
        for n in (0, 1, 2, 5):
            o, hs, ar, err = expected(name, a, 3)
            from sectionproperties.pre.pre import DEFAULT_MATERIAL
            lib.match(rec, getattr(L, name)(**a, n_r=n), o, hs, DEFAULT_MATERIAL, f"{name} without radii, n_r={n}")
            rec.step(); rec.trace()
    o, hs, _, _ = expected("polygon_hollow_section", D["polygon_hollow_section"], 3)
    lib.match(rec, L.polygon_hollow_section(**D["polygon_hollow_section"]), o, hs, DEFAULT_MATERIAL, "polygon_hollow_section with its defaults")


def reject(rec):
    import sectionproperties.pre.library as L
    for f, a in [(L.angle_section, dict(d=10, b=8, t=1, r_r=1, r_t=1.5, n_r=4)), (L.polygon_hollow_section, dict(d=10, t=1, n_sides=2)), (L.polygon_hollow_section, dict(d=10, t=1, n_sides=1))]:
        rec.step()
        try:
            f(**a)
        except ValueError:
            continue
        rec.fail(f"{f.__name__}({a}) accepted")
