"""C23: cross-laminated timber and bridge girder sections."""
import itertools, math
from shapely import Polygon, box
from . import ref, gref

NEEDS_FEA = True
ALPHABET = ("layer lists over a thickness and material alphabet (equal, unequal, integer and non-dyadic thicknesses, two equal-valued materials), widths, scales; all super T types, eras, flange widths and "
            "thicknesses, web thicknesses; all I girder types; invalid types; girders with an overlay slab")
BOUND = {"quick": "all layer lists of 1 to 4 layers over 3 thicknesses x 2 materials (1554) and 5 to 7 layers over 2 thicknesses; 9 x 4 x 4 x 3 super T girders; types -1 to 7",
         "thorough": "all layer lists of 1 to 5 layers over 4 thicknesses x 3 materials, 6 to 9 layers over 2 thicknesses; 9 x 8 x 8 x 6 super T girders; types -10 to 20"}
ORACLE = ("stacked rectangles with running sums of the thicknesses; closed-form composite second moments of meshed stacks; girder outlines from their dimension tables with webs as the strip of given "
          "thickness parallel to the documented slope; symmetry; material identity")

T = {"a": 20.0, "b": 35, "c": 0.1, "d": 47.3}
M = "STC"


def cases(tier):
    q = tier == "quick"
    out = []
    ts, ms = ("abc", "ST") if q else ("abcd", "STC")
    for n in range(1, 5 if q else 6):
        for th in itertools.product(ts, repeat=n):
            for chunk in itertools.product(ms, repeat=min(n, 2)):
                out.append(dict(clt=th, head=chunk, ms=ms, b=(1000, 333.3, 1)[len(out) % 3], s=(1, 1e-3)[len(out) % 2], fea=len(out) % 7 == 0 and n <= 4))
    for n in range(5, 8 if q else 10):
        for th in itertools.product("ab", repeat=n):
            out.append(dict(clt=th, head=[ms[0]], ms=ms[:1], alt=1, b=1000, s=1, fea=len(out) % 16 == 0))
    for t, e in [(t, e) for t in range(1, 6) for e in (1, 2) if (t, e) != (5, 1)]:
        for w in ((1300, 1700, 2100, 2500) if q else (1260, 1300, 1500, 1700, 2100, 2101.5, 2500, 4000)):
            out.append(dict(supert=t, era=e, w=w, tf=(75, 90, 50, 120) if q else (30, 50, 60, 75, 90, 100, 120, 150), tw=(None, 80, 137.5) if q else (None, 60, 80, 100, 120, 137.5)))
    for t in range(1, 5):
        out.append(dict(igirder=t))
    out.append(dict(reject=[-1, 0, 5, 6, 7] if q else list(range(-10, 1)) + list(range(5, 21))))
    return out


def run_case(case, rec):
    if "clt" in case:
        clt(case, rec)
    elif "supert" in case:
        supert(case, rec)
    elif "igirder" in case:
        igirder(case, rec)
    else:
        reject(case, rec)


def clt(case, rec):
    from sectionproperties.pre import CompoundGeometry
    from sectionproperties.pre.library import clt_rectangular_section
    n, s = len(case["clt"]), case["s"]
    d = [T[k] * s if s != 1 else T[k] for k in case["clt"]]
    b = case["b"] * s if s != 1 else case["b"]
    h = len(case["head"])
    if case.get("alt"):
        lists = [tuple("ST"[i % 2] for i in range(n)), tuple("STT"[i % 3] for i in range(n))]
    else:
        lists = [tuple(case["head"]) + t for t in itertools.product(case["ms"], repeat=n - h)]
    for k, names in enumerate(lists):
        mats = [ref.material(m) for m in names]
        what = f"clt(d={d}, layers={''.join(names)}, b={b})"
        d0, m0 = list(d), list(mats)
        g = clt_rectangular_section(d=d, layer_mat=mats, b=b)
        rec.step()
        rec.check(d == d0 and len(mats) == len(m0) and all(x is y for x, y in zip(mats, m0)), f"{what}: argument lists modified")
        rec.check(type(g) is CompoundGeometry and len(g.geoms) == n, f"{what}: {type(g).__name__}")
        top = 0.0
        H = sum(d); L = max(H, b)
        for i, (r, m) in enumerate(zip(g.geoms, mats)):
            want = box(0, top - d[i], b, top)
            top -= d[i]
            rec.check(gref.same(r.geom, want, 1e-10 * L), lambda: f"{what}: layer {i} is {r.geom.bounds}, expected {want.bounds}")
            rec.check(r.material is m, f"{what}: layer {i} is of {r.material.name}")
        rec.check(len(g.holes) == 0, f"{what}: holes {g.holes}")
        gref.wellformed(rec, g, what)
        rec.trace(); rec.state((tuple(d), names, b)); rec.outcome((n, names))
        if case["fea"] and k == 0:
            from sectionproperties.analysis import Section
            g.create_mesh(mesh_sizes=[0])
            sec = Section(geometry=g)
            sec.calculate_geometric_properties()
            rec.step()
            y = 0.0; ea = eq = 0.0; lay = []
            for t, m in zip(d, mats):
                lay.append((m.elastic_modulus * b * t, y - t / 2, t)); y -= t
            ea = sum(a for a, _, _ in lay); yc = sum(a * v for a, v, _ in lay) / ea
            ei = sum(a * (t * t / 12 + (v - yc) ** 2) for a, v, t in lay)
            got = sec.get_eic()
            rec.check(abs(got[0] - ei) <= 1e-8 * ei, lambda: f"{what}: flexural rigidity {got[0]}, expected {ei}")
            rec.check(abs(sec.get_ea() - ea) <= 1e-10 * ea, f"{what}: axial rigidity {sec.get_ea()}, expected {ea}")
            rec.check(abs(sec.get_area() - b * H) <= 1e-9 * b * H, f"{what}: area {sec.get_area()}")


# depth of the girder below the top flange, thickness of the base at the middle, thickness of the webs
SUPER_T = {1: (675, 240, 100), 2: (925, 240, 100), 3: (1125, 260, 100), 4: (1425, 260, 100), 5: (1725, 325, 120)}
SLOPE = 10.556
ERA = {1: (920, 5.0), 2: (1027, 5.347)}
# widths of top flange, bottom flange, web; heights of top flange, splay, web, splay, bottom flange
I_GIRDER = {1: (200, 300, 120, 100, 40, 420, 90, 100), 2: (350, 450, 150, 100, 100, 450, 150, 100), 3: (450, 500, 150, 130, 150, 545, 175, 150), 4: (500, 650, 150, 150, 175, 650, 250, 175)}


def supert_outline(t, era, w, tw, tf):
    d, tb, tw0 = SUPER_T[t]
    tw = tw0 if tw is None else tw
    wn, fl = ERA[era]
    big = 10 * w
    X = lambda y: wn / 2 + y / SLOPE                       # outer face of the web
    c = tw * math.sqrt(1 + SLOPE ** 2) / SLOPE             # thickness measured across
    outer = Polygon([(-X(-d), -d), (X(-d), -d), (X(tf), tf), (-X(tf), tf)])
    # 13 mm chamfer at the soffit
    for s in (1, -1):
        outer = outer - Polygon([(s * X(-d + 13), -d + 13), (s * (X(-d) - 13), -d), (s * big, -d), (s * big, -d + 13)])
    flange = Polygon([(-w / 2, tf), (-w / 2, 13), (-w / 2 + 13, 0), (w / 2 - 13, 0), (w / 2, 13), (w / 2, tf)])
    fillets = Polygon([(-wn / 2 - 100, 0), (-X(-75), -75), (X(-75), -75), (wn / 2 + 100, 0)])
    p = outer.union(flange).union(fillets)
    I = lambda y: X(y) - c
    # void: between the inner faces, above the base that falls to the middle
    void = Polygon([(-I(tf), tf), (-I(-d), -d), (I(-d), -d), (I(tf), tf), (I(tf), tf + 10), (-I(tf), tf + 10)])
    base = Polygon([(0, -(d - tb)), (big, -(d - tb) + big / fl), (big, -2 * d), (-big, -2 * d), (-big, -(d - tb) + big / fl)])
    r = I(tf - 25) + 25
    return p - (void - base) - box(-r, tf - 25, r, tf + 10)


def supert(case, rec):
    from sectionproperties.pre import Geometry
    from sectionproperties.pre.library import super_t_girder_section, rectangular_section
    t, e, w = case["supert"], case["era"], case["w"]
    for tw in case["tw"]:
        for tf in case["tf"]:
            for m in (None, "C"):
                kw = dict(girder_type=t, girder_subtype=e, w=w, t_w=tw, t_f=tf)
                if m:
                    kw["material"] = ref.material(m)
                if m is None:   # leave defaults out where they apply
                    kw = {k: v for k, v in kw.items() if (k, v) not in (("girder_subtype", 2), ("w", 2100), ("t_w", None), ("t_f", 75))}
                what = f"super_t_girder_section({kw})"
                want = supert_outline(t, e, w, tw, tf)
                rec.check(want.geom_type == "Polygon" and want.is_valid, f"oracle: {what}")
                g = super_t_girder_section(**kw)
                rec.step()
                rec.check(type(g) is Geometry and gref.same(g.geom, want, 1e-6), lambda: f"{what}: area {g.geom.area} bounds {g.geom.bounds}, expected {want.area} {want.bounds}; "
                          f"difference {g.geom.symmetric_difference(want).area} within {g.geom.symmetric_difference(want).bounds}")
                rec.check(g.material is ref.material(m), f"{what}: material {g.material.name}")
                gref.wellformed(rec, g, what)
                rec.trace(); rec.state((t, e, w, tw, tf, m)); rec.outcome(round(want.area, 3))
    # an overlay slab rests on the flange tips and closes the girder
    g = super_t_girder_section(girder_type=t, girder_subtype=e, w=w) + rectangular_section(d=180, b=w, material=ref.material("C")).shift_section(x_offset=-w / 2, y_offset=75)
    rec.step()
    rec.check(len(g.geoms) == 2 and len(g.holes) == 1 and abs(g.holes[0][0]) < ERA[e][0] / 2, f"super T {t} with slab: holes {g.holes}")
    gref.wellformed(rec, g, f"super T {t} with slab")
    rec.trace()


def igirder(case, rec):
    from sectionproperties.pre import Geometry
    from sectionproperties.pre.library import i_girder_section
    t = case["igirder"]
    bt, bb, bw, *h = I_GIRDER[t]
    for m in (None, "C"):
        kw = dict(girder_type=t, **({"material": ref.material(m)} if m else {}))
        g = i_girder_section(**kw)
        rec.step()
        y = [0]
        for k in h:
            y.append(y[-1] - k)
        half = [(bt / 2, y[0]), (bt / 2, y[1]), (bw / 2, y[2]), (bw / 2, y[3]), (bb / 2, y[4]), (bb / 2, y[5])]
        want = Polygon(half + [(-a, b) for a, b in reversed(half)])
        rec.check(type(g) is Geometry and gref.same(g.geom, want, 1e-6), lambda: f"i_girder_section({t}): bounds {g.geom.bounds} area {g.geom.area}, expected {want.bounds} {want.area}")
        rec.check(g.material is ref.material(m), f"i_girder_section({t}): material")
        gref.wellformed(rec, g, f"i_girder_section({t})")
        rec.trace(); rec.state((t, m)); rec.outcome(want.area)


def reject(case, rec):
    from sectionproperties.pre.library import i_girder_section, super_t_girder_section
    tries = [(super_t_girder_section, dict(girder_type=k)) for k in case["reject"] if not 1 <= k <= 5] + [(i_girder_section, dict(girder_type=k)) for k in case["reject"] if not 1 <= k <= 4]
    tries += [(super_t_girder_section, dict(girder_type=t, girder_subtype=k)) for t in range(1, 6) for k in (0, 3, -1)] + [(super_t_girder_section, dict(girder_type=5, girder_subtype=1))]
    for f, kw in tries:
        rec.step()
        try:
            f(**kw)
        except ValueError:
            rec.trace(); continue
        rec.fail(f"{f.__name__}({kw}) accepted")
