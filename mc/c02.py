"""C02: the mesh tiles exactly the requested regions, with the requested sizes and angles."""
import itertools, math
import numpy as np
from . import ref, obs
from .c01 import labelled

NEEDS_FEA = True
ALPHABET = ("add-cell shapes, void/material labellings, rings and nested regions, disjoint regions, lattice triangles and quads, affine maps; "
            "mesh sizes 0/large/small/per region/single-for-all, min angle 0..33, coarse")
BOUND = {"quick": "all void/material labellings of a 2x3 box (every non-empty one) with one mesh setting each plus 24 mesh settings on 40 shapes "
                  "and lattice triangles/quads (<=2) with 3 settings; every polyomino void of 3 or 5 cells (one region, and 3 cells between two regions) x 2 settings; 14 sections of many parts (12 regions, 9 voids) x 12 settings",
         "thorough": "all labellings of a 2x4 box, all 3x3 boxes with at most one void, x3 mesh settings; 24 mesh settings on 150 shapes; lattice <=3; 14 sections of many parts x 24 settings"}
ORACLE = ("combinatorial tiling argument: positive element areas, each edge shared by at most two elements on opposite sides, unpaired edges lie on "
          "and add up to the outline, area sums equal exact region areas, each element inside its material's region")

SET = [{"s": 0}, {"s": [0]}, {"s": 0.5}, {"s": [0.1]}, {"s": 0.03}, {"s": 100.0}, {"s": 0, "coarse": True}, {"s": 0.1, "coarse": True},
       {"s": "per"}, {"s": "rper"}, {"s": "one"}, {"s": "last"},
       {"s": 0, "a": 0}, {"s": 0.2, "a": 0}, {"s": 0, "a": 10}, {"s": 0.2, "a": 20.7}, {"s": 0.15, "a": 25}, {"s": 0, "a": 28.3},
       {"s": 0.3, "a": 30}, {"s": 0.4, "a": 32}, {"s": 0, "a": 33}, {"s": "per", "a": 22}, {"s": "per", "coarse": True, "a": 33}, {"s": 1, "a": 15.5}]


def sizes(s, n):
    if s == "per":
        return [0.3 / (i + 1) for i in range(n)]
    if s == "rper":
        return [0.02 * (i + 1) for i in range(n)]
    if s == "one":
        return [0.07] + [0] * (n - 1)
    if s == "last":
        return [0] * (n - 1) + [0.04]
    return s


def exact(t, m):
    """Without any angle limit round-off slivers at non-representable edges are legitimate."""
    return "mirx" if m.get("a") == 0 and t in ("rot345", "rot512", "small", "mm", "tiny") else t


def cases(tier):
    T = list(ref.TR)
    rect = ["id", "shift", "neg", "far", "rot345", "rot90", "rot90far", "rot512", "mirx", "miry", "big", "small", "mm", "km", "tiny"]
    out = []
    w, h = (2, 3) if tier == "quick" else (2, 4)
    reps = 1 if tier == "quick" else 3
    for j, l in enumerate(itertools.product((0, 1, 2), repeat=w * h)):
        if not any(l):
            continue
        regs, _ = labelled(w, h, l)
        if regs is None:
            continue
        for r in range(reps):
            out.append(dict(regions=regs, compound=1, tr=exact(rect[(j + r * 5) % len(rect)], SET[(j * 5 + r * 7) % len(SET)]), mesh=SET[(j * 5 + r * 7) % len(SET)]))
    shapes = [dict(regions=[ref.region_cells(p)]) for n in range(1, 5 if tier == "quick" else 6) for p in ref.polyominoes(n)]
    for l in itertools.product((0, 1, 2), repeat=9):
        nv = l.count(0)
        if nv <= 1 and (l.count(2) <= 1 or (tier != "quick" and l.count(2) <= 4)):
            regs, _ = labelled(3, 3, l)
            if regs:
                shapes.append(dict(regions=regs, compound=1))
    inner = [[F / 8 for F in p] for p in ((11, 11), (13, 11), (13, 13), (11, 13))]
    ring = [[0, 0], [3, 0], [3, 3], [0, 3]]
    two = [[[1, 1], [2, 1], [2, 2], [1, 2]], [[4, 1], [5, 1], [5, 2], [4, 2]]]
    sq = lambda x, y, a, m: dict(ext=[[x, y], [x + a, y], [x + a, y + a], [x, y + a]], holes=[], mat=m)
    extra = [dict(regions=[dict(ext=ring, holes=[two[0]], mat=None)]),
             dict(regions=[dict(ext=ring, holes=[two[0]], mat="S"), dict(ext=two[0], holes=[], mat="C")], compound=1),
             dict(regions=[dict(ext=ring, holes=[two[0]], mat="S"), dict(ext=two[0], holes=[inner], mat="C"), dict(ext=inner, holes=[], mat="T")], compound=1),
             dict(regions=[dict(ext=ring, holes=[two[0]], mat="S"), dict(ext=inner, holes=[], mat="T")], compound=1),
             dict(regions=[dict(ext=[[0, 0], [6, 0], [6, 3], [0, 3]], holes=two, mat=None)]),
             dict(regions=[dict(ext=[[0, 0], [6, 0], [6, 3], [0, 3]], holes=two, mat="S"), dict(ext=two[1], holes=[], mat="T")], compound=1),
             dict(regions=[sq(0, 0, 1, "S"), sq(3, 0, 1, "C"), sq(0, 3, 2, "S")], compound=1),
             dict(regions=[sq(0, 0, 1, "S"), sq(1, 0, 1, "S"), sq(0, 1, 2, "S")], compound=1),
             dict(regions=[sq(0, 0, 1, None), sq(1, 1, 1, None)], compound=1)]
    for j, r in enumerate(ref.void_plates((3, 5) if tier == "quick" else (2, 3, 4, 5)) + ref.void_plates((3,) if tier == "quick" else (3, 4, 5), True)):
        for k in range(2):
            out.append(dict(regions=r, tr=exact(rect[(j + k) % len(rect)], SET[(j * 5 + k * 7) % len(SET)]), mesh=SET[(j * 5 + k * 7) % len(SET)]))
    if tier == "quick":
        shapes = shapes[::2]
    for k, s in enumerate(extra + shapes):
        for m in SET:
            out.append(dict(s, tr=exact(rect[k % len(rect)], m), mesh=m))
    for j, (_, b) in enumerate(ref.big_sections()):
        for k, m in enumerate(SET[j % 2::2] if tier == "quick" else SET):
            out.append(dict(b, tr=exact(rect[(j * 2 + k) % len(rect)], m), mesh=m))
    L = 2 if tier == "quick" else 3
    for j, q in enumerate(ref.lattice_triangles(L) + ref.lattice_quads(L)):
        for r in range(3):
            out.append(dict(regions=[dict(ext=q, holes=[], mat="S" if j % 2 else None)], tr=T[(j + 6 * r) % len(T)],
                            mesh=[SET[0], SET[3], SET[6]][r], any_angle=1))
    return out


def cross(a, b):
    return a[..., 0] * b[..., 1] - a[..., 1] * b[..., 0]


def tiling(rec, regs, scale, nodes, els, mats, min_angle=None, sizes=None, L=1.0, coord=1.0):
    """regs: [(shapely polygon, exact area, material)]; els n x 6; mats: region index or material per element."""
    import shapely
    tol = 1e-9 * max(L, 1e-3 * coord)
    ne = len(els)
    rec.step(ne)
    P = nodes[els[:, :3]]
    area = 0.5 * cross(P[:, 1] - P[:, 0], P[:, 2] - P[:, 0])
    floor = 1e-12 * scale if min_angle != 0 else -1e-15 * max(L, coord) ** 2  # without an angle limit slivers are legitimate
    rec.check((area > floor).all(), lambda: f"degenerate or inconsistently oriented element, area {area.min()}")
    area = np.abs(area)
    rec.check(len(np.unique(np.round(nodes / (tol * 10)), axis=0)) == len(nodes), "duplicate mesh nodes")
    used = np.unique(els)
    rec.check(len(used) == len(nodes), "mesh nodes that belong to no element")
    for (a, b), c in zip(((0, 1), (1, 2), (2, 0)), (3, 4, 5)):
        d = np.abs(nodes[els[:, c]] - 0.5 * (nodes[els[:, a]] + nodes[els[:, b]])).max()
        rec.check(d <= tol, f"mid-side node {c} is {d} off the middle of its edge")
    edges = {}
    for e in range(ne):
        t = els[e]
        for i, c in ((0, 3), (1, 4), (2, 5)):
            a, b = int(t[i]), int(t[(i + 1) % 3])
            edges.setdefault((min(a, b), max(a, b)), []).append((e, a < b, int(t[c])))
    outline = shapely.unary_union(shapely.snap([g for g, _, _ in regs], shapely.MultiPoint(shapely.get_coordinates([g for g, _, _ in regs])), tol)).boundary
    free = []
    for (a, b), us in edges.items():
        rec.check(len(us) <= 2, "edge shared by more than two elements")
        if len(us) == 2:
            rec.check(us[0][1] != us[1][1], "overlapping elements (edge used twice in the same direction)")
            rec.check(us[0][2] == us[1][2], "mesh is not conforming at a mid-side node")
        else:
            free.append((a, b))
    fr = np.array(free)
    mid = 0.5 * (nodes[fr[:, 0]] + nodes[fr[:, 1]])
    ln = np.hypot(*(nodes[fr[:, 0]] - nodes[fr[:, 1]]).T).sum()
    d = shapely.distance(outline, shapely.points(np.vstack([mid, nodes[fr[:, 0]], nodes[fr[:, 1]]]))).max()
    rec.check(d <= 10 * tol, f"free element edge {d} away from the outline")
    rec.check(abs(ln - outline.length) <= 1e-8 * outline.length, f"free edges measure {ln}, outline {outline.length}")
    tot = sum(a for _, a, _ in regs)
    rec.check(abs(area.sum() - tot) <= 1e-9 * tot, f"mesh area {area.sum()} != region area {tot}")
    cen = P.mean(axis=1)
    n_in = np.zeros(ne, int)
    for k, (g, a, m) in enumerate(regs):
        inside = shapely.contains_xy(g, cen[:, 0], cen[:, 1])
        n_in += inside
        rec.check(abs(area[inside].sum() - a) <= 1e-8 * tot, f"region {k} meshed with area {area[inside].sum()}, exact {a}")
        if mats is not None:
            bad = [i for i in np.flatnonzero(inside) if mats[i] != m]
            rec.check(not bad, lambda: f"element in region {k} ({m}) has material {mats[bad[0]]}")
        if sizes is not None and sizes[k] > 0:
            rec.check(area[inside].max() <= sizes[k] * (1 + 1e-9), f"region {k}: element area {area[inside].max()} exceeds the requested {sizes[k]}")
            rec.count("size limits checked")
    rec.check((n_in == 1).all(), "element not inside exactly one region")
    if min_angle is not None:
        a = np.linalg.norm(P[:, 1] - P[:, 2], axis=1); b = np.linalg.norm(P[:, 2] - P[:, 0], axis=1); c = np.linalg.norm(P[:, 0] - P[:, 1], axis=1)
        ang = [np.degrees(np.arccos(np.clip((y * y + z * z - x * x) / (2 * y * z), -1, 1))) for x, y, z in ((a, b, c), (b, c, a), (c, a, b))]
        mn = float(np.min(ang))
        rec.check(mn >= min_angle - 1e-3, f"element angle {mn} below the requested {min_angle}")
        rec.count("angle limits checked")


def run_case(case, rec):
    from shapely import Polygon
    from sectionproperties.analysis import Section
    g = ref.build(case)
    m = case["mesh"]
    sc = ref.area_scale(case["tr"])
    regs_e = ref.exact_regions(case)
    n = len(regs_e)
    s = sizes(m["s"], n)
    if isinstance(s, list) and len(s) != 1 and not case.get("compound"):
        s = s[:1]
    s = [v * sc for v in s] if isinstance(s, list) else s * sc
    kw = {}
    if "a" in m:
        kw["min_angle"] = m["a"]
    if m.get("coarse"):
        kw["coarse"] = True
    ret = g.create_mesh(mesh_sizes=list(s) if isinstance(s, list) else s, **kw); rec.step()
    rec.check(ret is g, "create_mesh does not return the geometry itself")
    sec = Section(g); rec.step()
    full = (list(s) if isinstance(s, list) else [s])
    if len(full) == 1:
        full = full * n
    x0, x1, y0, y1 = ref.extents(case)
    L = max(x1 - x0, y1 - y0)
    regs = [(Polygon(ref.fl(e), [ref.fl(h) for h in hs]), float(ref.poly_moments(e, hs)[0]), ref.material(mt)) for e, hs, mt in regs_e]
    coarse = m.get("coarse")
    els = np.asarray(sec.mesh_elements); nodes = np.asarray(sec.mesh_nodes)
    rec.check(len(sec.elements) == len(els) and sec.num_nodes == len(nodes), "elements or nodes lost")
    for i, el in enumerate(sec.elements):
        rec.check(list(el.node_ids) == list(els[i]) and np.array_equal(np.asarray(el.coords), nodes[els[i]].T), "element data differ from the mesh")
    tiling(rec, regs, sc, nodes, els, [el.material for el in sec.elements],
           min_angle=None if coarse or case.get("any_angle") else round(m.get("a", 30.0), 1),
           sizes=None if coarse else full, L=L, coord=max(abs(v) for v in (x0, x1, y0, y1)))
    if coarse:
        corner = {tuple(np.round(nodes[i] / (1e-9 * L))) for i in np.unique(els[:, :3])}
        want = {tuple(np.round(np.array(p) / (1e-9 * L))) for p in g.points}
        rec.check(corner == want, "a coarse mesh has added or lost corner points")
    elif all(v == 0 for v in full):
        # no size limit: nothing smaller than with a huge limit
        ne = len(els)
        g.create_mesh(mesh_sizes=1e6 * sc, **kw)
        rec.check(ne == len(g.mesh["triangles"]), f"size 0 gives {ne} elements but no limit needs {len(g.mesh['triangles'])}")
    rec.state((str(case["regions"]), case["tr"], str(m)))
    rec.outcome((len(nodes), len(els)))
    rec.trace()
