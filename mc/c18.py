"""C18: perimeter offsets against an independently resolved distance buffer.

Offsets that make a part vanish exactly are only checked for materials, exceptions and (in frames
without round-off) membership: GEOS' buffer may lose parts there."""
import itertools, math
import shapely
from shapely import Point, Polygon
from . import ref, gref
from .c01 import labelled

ALPHABET = "offset amounts (growing, eroding, splitting and removing parts), exterior/interior/all, 1/2/12 segments per quarter circle, control points"
BOUND = {"quick": "all polyominoes of up to 4 cells, triangles on a 2-lattice, dumbbells, frames and multi-hole shapes x 3 boundary choices x 13 amounts x 3 resolutions "
                  "x 8 similarity maps cycled; 200 compounds (labelled boxes, nests, disjoint and T-junction arrangements) x 4 eroding amounts "
                  "and 4 of 8 further boundary choices and amounts of either sign; each shape and compound by 0 and with invalid boundaries; all labelled filled boxes of up to 3x2 cells growing; 1/2/5/12 segments",
         "thorough": "polyominoes of up to 5 cells, quadrilaterals, every combination under 3 maps; all labelled 2x3 and 3x3 ring compounds x 12 choices, filled 3x3 boxes"}
ORACLE = ("distance of a grid of points from the chosen original boundary decides membership; boundaries within the chord error of a 96-segment buffer; "
          "area by the Steiner formula for convex outlines; all pieces, materials and control points kept; grown "
          "compounds equal the grown union without overlaps, each strip with the region whose edge moved, unless regions meet in a moved corner "
          "(a limitation the code documents)")

SIM = ["id", "shift", "far", "rot345", "rot90far", "mirx", "big", "small", "tiny"]
AMT = [-1.5, -0.6, -0.5, -0.45, -0.25, -0.1, -0.01, 0.01, 0.1, 0.25, 0.45, 0.6, 1.5]
R = lambda x, y, w, h: [[x, y], [x + w, y], [x + w, y + h], [x, y + h]]


def shapes(tier):
    out = [dict(ext=ref.region_cells(c)["ext"], holes=[]) for n in range(1, 5 if tier == "quick" else 6) for c in ref.polyominoes(n)]
    out += [dict(ext=t, holes=[]) for t in ref.lattice_triangles(2)]
    if tier != "quick":
        out += [dict(ext=t, holes=[]) for t in ref.lattice_quads(2)]
    out.append(dict(ext=[[0, 0], [3, 0], [3, 1.25], [5, 1.25], [5, 0], [8, 0], [8, 3], [5, 3], [5, 1.75], [3, 1.75], [3, 3], [0, 3]], holes=[]))
    out.append(dict(ext=R(0, 0, 3, 3), holes=[R(1, 1, 1, 1)]))
    out.append(dict(ext=R(0, 0, 4, 4), holes=[R(0.5, 1, 2, 2)], cp=[3, 3.5]))
    out.append(dict(ext=R(0, 0, 7, 3), holes=[R(1, 1, 1, 1), [[3, 1], [4, 1], [3, 2]], R(5, 1, 1, 0.5)]))
    out.append(dict(ext=R(0, 0, 6, 3), holes=[R(1, 1, 1.5, 1), R(3, 1, 1.5, 1)]))
    out.append(dict(ext=R(0, 0, 6, 6), holes=[[[1, 1], [3, 1], [3, 2.75], [4, 2.75], [4, 1], [5, 1], [5, 5], [4, 5], [4, 3.25], [3, 3.25], [3, 5], [1, 5]]]))
    out.append(dict(ext=R(0, 0, 5, 2), holes=[], cp=[0.3, 0.3]))
    return out


def compounds(tier):
    out = []
    for j, l in enumerate(itertools.product((0, 1, 2), repeat=6)):
        if 2 in l and (tier != "quick" or j % 5 == 0):
            r = labelled(2, 3, l)[0]
            if r:
                out.append(r)
    for j, l in enumerate(itertools.product((0, 1, 2), repeat=9)):
        if l[4] != 1 and l.count(0) <= 1 and 2 in l and (l.count(2) <= 2 or tier != "quick"):
            r = labelled(3, 3, l)[0]
            if r:
                out.append(r)
    Q = lambda x, y, w, h, m, *hs: dict(ext=R(x, y, w, h), holes=list(hs), mat=m)
    out.append([Q(0, 0, 3, 3, "S", R(1, 1, 1, 1)), Q(1, 1, 1, 1, "C")])
    out.append([Q(0, 0, 4, 4, "S", R(1, 1, 2, 2)), Q(1, 1, 1, 2, "C")])
    out.append([Q(0, 0, 2, 1, "S"), Q(2, 0.25, 2, 0.5, "C"), Q(4, 0, 2, 1, "T")])
    out.append([Q(0, 0, 6, 1, "S"), Q(0, 1, 1, 3, "C"), Q(5, 1, 1, 3, "T")])
    out.append([Q(0, 0, 2, 2, "S"), Q(5, 0, 2, 2, "C")])
    out.append([Q(0, 0, 2, 0.4, "S"), Q(0, 0.4, 2, 3, "C"), Q(0, 3.4, 2, 0.4, "S")])
    return out


def cases(tier):
    out = []
    n = 0
    for s in shapes(tier):
        for w in ("exterior", "interior", "all"):
            for a in AMT:
                for k in range(1 if tier == "quick" else 3):
                    n += 1
                    out.append(dict(regions=[dict(s, mat="S")], where=w, amt=a, tr=SIM[(n + 3 * k) % len(SIM)] if n % 3 or k else "id", comp=0))
    res = (1, 2, 5, 12)
    for i, c in enumerate(compounds(tier)):
        for j, a in enumerate((-0.05, -0.2, -0.45, -0.7)):
            out.append(dict(regions=c, where="exterior", amt=a, tr=SIM[(i + j) % len(SIM)], comp=1, res=res[(i + 3 * j) % 4]))
        for j, (w, a) in enumerate(OTHER):
            if tier != "quick" or (i + j) % 2:
                out.append(dict(regions=c, where=w, amt=a, tr=SIM[(i + 3 * j) % len(SIM)], comp=1, res=res[(i // 2 + j) % 4]))
    for i, c in enumerate(compounds(tier) + [[dict(x, mat="S")] for x in shapes(tier)]):
        out.append(dict(regions=c, where="", amt=0, tr=SIM[i % len(SIM)], comp=2))
    for i, c in enumerate(boxes(tier)):
        for j, (w, a) in enumerate((("exterior", 0.05), ("exterior", 0.25), ("all", 0.125))):
            if tier != "quick" or (i + j) % 3 == 0:
                out.append(dict(regions=c, where=w, amt=a, tr=SIM[(i // 3 + j) % len(SIM)], comp=1, res=res[(i + j) % 4]))
    return out


OTHER = [("exterior", 0.1), ("interior", -0.1), ("interior", 0.1), ("interior", 0.2), ("all", -0.1), ("all", 0.1), ("all", -0.2), ("interior", -0.2)]


def boxes(tier):
    """Completely filled boxes, cut into regions of two materials in every way."""
    out = [[dict(ext=R(0, 0, 2, 1), holes=[], mat="S")]]
    for w, h in ((1, 2), (2, 1), (2, 2), (3, 1), (3, 2)) + (((3, 3),) if tier != "quick" else ()):
        for l in itertools.product((1, 2), repeat=w * h):
            r = labelled(w, h, l)[0]
            if r:
                out.append(r)
    return out


def buf(p, d):
    return p.buffer(d, quad_segs=96)


def plist(g):
    gs = list(g.geoms) if hasattr(g, "geoms") else [g]
    return [x for x in gs if x.geom_type == "Polygon" and not x.is_empty]


def ideal(p, where, d):
    """The described offset of one polygon: chosen boundaries moved by d."""
    ext = Polygon(p.exterior)
    holes = [Polygon(h) for h in p.interiors]
    if where == "all":
        ext, holes = buf(ext, d), [buf(h, -d) for h in holes]
    elif where == "exterior":
        ext = buf(ext, d)
    else:
        holes = [buf(h, d) for h in holes]
    return ext.difference(shapely.unary_union(holes)) if holes else ext


def signed(p, x):
    return p.exterior.distance(x) * (1 if Polygon(p.exterior).contains(x) else -1)


def run_case(case, rec):
    [single, compound, nothing][case["comp"]](case, rec)
    rec.trace()


def nothing(case, rec):
    """An offset by nothing leaves every region; interior offsets need a void; other boundaries are rejected."""
    from sectionproperties.pre import CompoundGeometry
    gs = [gref.mk(e, hs, m) for e, hs, m in ref.exact_regions(case)]
    g = CompoundGeometry(gs) if len(gs) > 1 else gs[0]
    before = gref.snapshot(g)
    void = any(q.interiors for q in plist(shapely.unary_union([gref.poly_of(r) for r in case["regions"]])))
    L = gref.size(g.geom)
    for where in ("exterior", "interior", "all"):
        what = f"offset of {[(r['ext'], r['holes']) for r in case['regions']]} under {case['tr']} by 0 {where}"
        rec.step()
        for a in (0, 0.0) if void or where != "interior" else ():
            ps = gref.parts(g.offset_perimeter(a, where))
            rec.check(len(ps) == len(gs), f"{what}: {len(ps)} regions, expected {len(gs)}")
            for x, y in zip(ps, gs):
                rec.check(x.material is y.material, f"{what}: material {x.material.name}")
                rec.check(x.geom.symmetric_difference(y.geom).area <= 1e-9 * L * L, f"{what}: a region changed")
                rec.check(gref.inside(x.geom, x.control_points[0]), f"{what}: control point outside its region")
    for where, a in ([("inside", 0.1), ("", 0.1), ("EXTERIOR", -0.1), ("both", -0.1)] if len(gs) == 1 else []) + ([] if void else [("interior", 0.1), ("interior", -0.1)]):
        rec.step()
        try:
            g.offset_perimeter(a, where)
        except ValueError:
            continue
        rec.fail(f"offset of {[(r['ext'], r['holes']) for r in case['regions']]} by {a} {where!r} accepted")
    rec.check(gref.snapshot(g) == before, f"offset of {[r['ext'] for r in case['regions']]}: the geometry was modified")
    rec.state((repr(case["regions"]), case["tr"])); rec.count("geometries offset by nothing")


def single(case, rec):
    e, hs, m = ref.exact_regions(case)[0]
    sc = math.sqrt(ref.area_scale(case["tr"]))
    d = case["amt"] * sc
    cp = ref.fl(ref.tr_pts([case["regions"][0]["cp"]], case["tr"]))[0] if case["regions"][0].get("cp") else None
    g = gref.mk(e, hs, m, cp)
    p = g.geom
    before = gref.snapshot(g)
    what0 = f"offset of {case['regions'][0]['ext']} holes {case['regions'][0]['holes']} under {case['tr']} by {case['amt']} {case['where']}"
    if case["where"] == "interior" and not hs:
        rec.step()
        try:
            g.offset_perimeter(d, "interior")
        except ValueError:
            return
        rec.fail(f"{what0}: accepted although there are no holes")
    want = ideal(p, case["where"], d)
    near = [ideal(p, case["where"], d * k) for k in (1 - 1e-4, 1 + 1e-4)]
    critical = (plist(near[0]) and plist(near[1]) and shapely.hausdorff_distance(near[0].boundary, near[1].boundary) > 0.05 * abs(d)) or len({len(plist(x)) for x in near + [want]}) > 1 or len({sum(len(q.interiors) for q in plist(x)) for x in near + [want]}) > 1
    if critical and case["tr"] == "rot345":
        rec.count("exactly critical amount in a rotated frame (GEOS buffer unreliable, not decided)")
        return
    for res in (1, 2, 12):
        what = f"{what0}, resolution {res}"
        sag = abs(d) * (1 - math.cos(0.75 * math.pi / 2 / res)) + 1e-7 * sc + abs(d) * 2e-4
        if not plist(want):
            try:
                r = g.offset_perimeter(amount=d, where=case["where"], resolution=res)
            except Exception:
                rec.count("nothing remains (raises)"); rec.step(); continue
            if not plist(ideal(p, case["where"], math.copysign(abs(d) - sag, d))):
                rec.check(all(x.geom.area <= 1e-9 * sc * sc for x in gref.parts(r)), f"{what}: something remains")
            rec.step(); continue
        r = g.offset_perimeter(amount=d, where=case["where"], resolution=res)
        rec.step()
        rec.check(gref.snapshot(g) == before, f"{what}: the geometry was modified")
        ps = gref.parts(r)
        for x in ps:
            rec.check(x.material is g.material, f"{what}: material {x.material.name}")
            rec.check(critical or x.geom.is_valid and x.geom.area > 0 and gref.inside(x.geom, x.control_points[0]), f"{what}: invalid piece or control point")
        if cp and len(ps) == 1 and Polygon(ps[0].geom).contains(Point(cp)):
            rec.check(math.dist(ps[0].control_points[0], cp) < 1e-9 * gref.size(p), f"{what}: assigned control point lost")
        un = shapely.unary_union([x.geom for x in ps])
        for x in grid(p, d):
            s, out = member(p, case["where"], d, x, sag)
            if s is not None:
                rec.check(un.contains(x) == s, lambda: f"{what}: point {x.wkt} should be {'inside' if s else 'outside'} (distance to the moved boundary {out})")
        rec.step(81)
        if not critical:
            segments(rec, case, p, ps, d, res, what)
        if critical or res < 12:
            continue
        rec.check(len(ps) == len(plist(want)), f"{what}: {len(ps)} pieces, expected {len(plist(want))}")
        h = shapely.hausdorff_distance(un.boundary, want.boundary)
        rec.check(h <= sag * 3 + 1e-9, lambda: f"{what}: boundary is {h} off the offset boundary")
        ar = want.area
        rec.check(abs(un.area - ar) <= sag * want.length + 1e-9, lambda: f"{what}: area {un.area}, expected {ar}")
        if case["where"] == "exterior" and d > 0 and not hs and p.convex_hull.area - p.area < 1e-9 * p.area:
            st = p.area + p.length * d + 2 * res * d * d * math.sin(math.pi / 2 / res)
            st2 = p.area + p.length * d + math.pi * d * d
            rec.check(st - 1e-6 * st - abs(d) * d * 1e-2 <= un.area <= st2 + 1e-9 * st2, lambda: f"{what}: area {un.area}, Steiner {st}..{st2}")
        rec.outcome((len(ps), len(un.exterior.coords) if hasattr(un, "exterior") else 0))
        rec.state((what,))


def rectangle(ring):
    q = Polygon(ring)
    return len(ring.coords) == 5 and abs(q.minimum_rotated_rectangle.area - q.area) < 1e-9 * q.area


def segments(rec, case, p, ps, d, res, what):
    """Grown rectangular rings have `res` segments per quarter circle, shrunk ones keep four corners."""
    if len(ps) != 1:
        return
    r = ps[0].geom
    de = d if case["where"] != "interior" else 0.0
    dh = {"exterior": 0.0, "interior": d, "all": -d}[case["where"]]
    if len(r.interiors) != len(p.interiors) and not (de and not p.interiors):
        return
    todo = [(p.exterior, r.exterior, de)] if rectangle(p.exterior) else []
    for h in p.interiors:
        hit = [q for q in r.interiors if Polygon(q).intersects(Polygon(h))]
        if rectangle(h) and len(hit) == 1:
            todo.append((h, hit[0], dh))
    for old, new, k in todo:
        n = len(new.coords) - 1
        w = 4 * (res + 1) if k > 0 else 4
        full = [Polygon(old).buffer(k, quad_segs=q).area for q in (1, 96)] if k else [Polygon(old).area] * 2
        if not 0.99 * full[0] <= Polygon(new).area <= 1.01 * full[1]:
            continue  # merged with another ring
        rec.step()
        rec.check(n == w, f"{what}: a ring moved by {k} has {n} vertices, {w} expected for {res} segments per quarter circle")
        rec.count("ring vertex counts")


def grid(p, d, n=9):
    x0, y0, x1, y1 = p.bounds
    k = abs(d) * 1.3
    return [Point(x0 - k + (x1 - x0 + 2 * k) * (i + 0.37) / n, y0 - k + (y1 - y0 + 2 * k) * (j + 0.41) / n) for i in range(n) for j in range(n)]


def member(p, where, d, x, sag):
    """(True/False/None if too close, distance)."""
    s = signed(p, x)
    de = d if where in ("exterior", "all") else 0.0
    dist = s + de  # > 0 inside the moved exterior
    if abs(dist) <= sag:
        return None, dist
    ins = dist > 0
    near = abs(dist)
    for h in p.interiors:
        q = Polygon(h)
        sh = h.distance(x) * (1 if q.contains(x) else -1)
        dh = d if where == "interior" else -d if where == "all" else 0.0
        t = sh + dh  # > 0 inside the moved hole
        if abs(t) <= sag:
            return None, t
        near = min(near, abs(t))
        if t > 0:
            ins = False
    return ins, near


def compound(case, rec):
    from sectionproperties.pre import CompoundGeometry
    sc = math.sqrt(ref.area_scale(case["tr"]))
    amt, where, res = case["amt"], case["where"], case["res"]
    d = amt * sc
    gs = [gref.mk(e, hs, m) for e, hs, m in ref.exact_regions(case)]
    g = CompoundGeometry(gs)
    before = gref.snapshot(g)
    what = f"offset of {[r['ext'] for r in case['regions']]} under {case['tr']} by {amt} {where}, resolution {res}"
    flat = [gref.poly_of(r) for r in case["regions"]]
    u0 = shapely.unary_union(flat)
    if where == "interior" and not all(q.interiors for q in plist(u0)):
        rec.count("interior offsets of compounds without voids (not decided)")
        return
    off = lambda k: shapely.unary_union([ideal(q, where, amt * k) for q in plist(u0)])
    num = lambda q: (len(plist(q)), sum(len(x.interiors) for x in plist(q)))
    sag = abs(d) * (1 - math.cos(0.75 * math.pi / 2 / res)) + abs(d) * 2e-4 + 1e-7 * sc
    grow = amt < 0 if where == "interior" else amt > 0
    if grow:
        if any(num(off(k)) != num(u0) for k in (0.999, 1, 1.5)) or not smooth(flat, u0, where):
            rec.count("growing compounds whose regions meet in a corner or whose parts merge (not decided)")
            return
        return dilate(case, rec, g, gs, before, flat, u0, off(1.0), sag, sc, what)
    erode(case, rec, g, gs, before, flat, off, sag, sc, what)


def mover(tr):
    import shapely.affinity as af
    a, b, c, e, tx, ty = (float(v) for v in ref.TR[tr])
    return lambda q: af.affine_transform(q, [a, b, c, e, tx, ty])


def chosen(u0, where):
    return [r for q in plist(u0) for r in ([q.exterior] if where != "interior" else []) + (list(q.interiors) if where != "exterior" else [])]


def smooth(flat, u0, where):
    """No two regions meet in a corner of a boundary that moves."""
    for ring in chosen(u0, where):
        c = list(ring.coords)[:-1]
        for i, v in enumerate(c):
            p, q = c[i - 1], c[(i + 1) % len(c)]
            straight = abs((v[0] - p[0]) * (q[1] - v[1]) - (v[1] - p[1]) * (q[0] - v[0])) < 1e-9
            if not straight and sum(f.distance(Point(v)) < 1e-9 for f in flat) > 1:
                return False
    return True


def dilate(case, rec, g, gs, before, flat, u0, want, sag, sc, what):
    where, res, amt = case["where"], case["res"], abs(case["amt"])
    fw = mover(case["tr"])
    r = g.offset_perimeter(amount=case["amt"] * sc, where=where, resolution=res)
    rec.step()
    rec.check(gref.snapshot(g) == before, f"{what}: the geometry was modified")
    ps = gref.parts(r)
    rec.check(len(ps) == len(gs), f"{what}: {len(ps)} regions, expected {len(gs)}")
    un = shapely.unary_union([x.geom for x in ps])
    un = un.buffer(1e-7 * sc, join_style="mitre").buffer(-1e-7 * sc, join_style="mitre")  # slits of round-off width
    rec.check(abs(sum(x.geom.area for x in ps) - un.area) <= 1e-6 * sc * sc, lambda: f"{what}: the regions overlap, areas {[x.geom.area for x in ps]}, union {un.area}")
    W = fw(want)
    rec.check(abs(un.area - W.area) <= sag * sum(q.length for q in chosen(W, where)) + 1e-9 * W.area, lambda: f"{what}: area {un.area}, expected {W.area}")
    h = shapely.hausdorff_distance(un.boundary, W.boundary)
    rec.check(h <= sag * 3, lambda: f"{what}: boundary is {h} off the offset boundary")
    for i, (x, y, f) in enumerate(zip(ps, gs, flat)):
        rec.check(x.material is y.material, f"{what}: region {i} has material {x.material.name}")
        rec.check(x.geom.buffer(1e-7 * sc).contains(y.geom), f"{what}: region {i} lost a part")
        rec.check(fw(f).buffer(amt * sc * (1 + 1e-6) + 1e-9 * sc, quad_segs=96).buffer(amt * sc * 1e-3).contains(x.geom), f"{what}: region {i} moved by more than the amount")
    # the strip along a moved edge belongs to the region with this edge
    for ring in chosen(u0, where):
        for (x0, y0), (x1, y1) in zip(ring.coords[:-1], ring.coords[1:]):
            L = math.hypot(x1 - x0, y1 - y0)
            for t in (0.137, 0.456, 0.871):
                for s in (-1, 1):
                    for k in (0.3, 0.9):
                        px, py = x0 + t * (x1 - x0), y0 + t * (y1 - y0)
                        q = Point(px - s * k * amt * (y1 - y0) / L, py + s * k * amt * (x1 - x0) / L)
                        if u0.distance(q) > 1e-9:
                            near = sorted((f.distance(q), i) for i, f in enumerate(flat))
                            if len(near) > 1 and near[1][0] - near[0][0] < 1e-6:
                                continue
                            rec.step()
                            own = [i for i, x in enumerate(ps) if x.geom.contains(fw(q))]
                            rec.check(own == [near[0][1]], lambda: f"{what}: point {fw(q).wkt} next to region {near[0][1]} belongs to the regions {own}")
    if where == "exterior" and not any(q.interiors for q in plist(u0)) and len(plist(u0)) == 1 and abs(u0.envelope.area - u0.area) < 1e-9:
        n = len(un.simplify(1e-7 * sc).exterior.coords) - 1
        rec.check(n == 4 * (res + 1), f"{what}: outline with {n} vertices, expected {4 * (res + 1)}")
        rec.count("dilated boxes with counted vertices")
    gref.wellformed(rec, r, what)
    rec.count("dilated compounds")
    rec.state((what,)); rec.outcome((len(ps),))


def erode(case, rec, g, gs, before, flat, off, sag, sc, what):
    where, d = case["where"], case["amt"] * sc
    L = gref.size(g.geom)
    fw = mover(case["tr"])
    er = lambda k: [f.intersection(off(k)) for f in flat]
    masks = er(1.0)
    cnt = lambda ms: tuple(len([q for q in plist(m) if q.area > 1e-7]) for m in ms)
    critical = len({cnt(masks), cnt(er(1 - 1e-4)), cnt(er(1 + 1e-4))}) > 1
    want = [[fw(q) for q in plist(m) if q.area > 1e-7] for m in masks]
    n = sum(map(len, want))
    if n == 0:
        try:
            r = g.offset_perimeter(amount=d, where=where, resolution=case["res"])
        except Exception:
            rec.count("nothing remains (raises)"); rec.step(); return
        k = math.copysign(max(0.0, 1 - sag / abs(d)), 1)
        if not any(q.area > 1e-7 for m in er(k) for q in plist(m)):
            rec.check(all(x.geom.area <= 1e-6 * sc * sc for x in gref.parts(r)), f"{what}: something remains")
        return
    r = g.offset_perimeter(amount=d, where=where, resolution=case["res"])
    rec.step()
    rec.check(gref.snapshot(g) == before, f"{what}: the geometry was modified")
    ps = gref.parts(r)
    rec.check(all(type(x).__name__ == "Geometry" for x in ps), f"{what}: nested compound")
    got = [[] for _ in gs]
    for x in ps:
        ks = [i for i, q in enumerate(gs) if q.geom.buffer(1e-7 * L).contains(x.geom)]
        rec.check(len(ks) == 1, f"{what}: piece lies in {len(ks)} regions: {x.geom.wkt}")
        rec.check(x.material is gs[ks[0]].material, f"{what}: piece has material {x.material.name}")
        got[ks[0]].append(x.geom)
    for i, (p, w) in enumerate(zip(got, want)):
        if not critical:
            rec.check(len(p) == len(w), f"{what}: region {i} leaves {len(p)} pieces, expected {len(w)}")
        A, B = sum(x.area for x in p), sum(x.area for x in w)
        rec.check(abs(A - B) <= sag * (sum(x.length for x in w) + sum(x.length for x in p)) + 1e-6 * sc * sc, lambda: f"{what}: region {i} leaves area {A}, expected {B}")
        if p and w and not critical:
            h = shapely.hausdorff_distance(shapely.unary_union(p).boundary, shapely.unary_union(w).boundary)
            rec.check(h <= sag * 20, lambda: f"{what}: region {i} is {h} off")
    if not critical:
        gref.wellformed(rec, r, what)
    rec.state((what,)); rec.outcome((len(ps),))
