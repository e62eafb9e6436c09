"""C09: point stresses equal the stress field, point by point, and respect the boundary."""
import itertools, math
from fractions import Fraction as F
import numpy as np
from . import ref, obs, fem
from .c08 import sections, setup, reference, MAG
from .c06 import TN, trn

NEEDS_FEA = True
ALPHABET = ("points: every mesh node, edge midpoint, element centroid, every point of a 4-per-unit lattice over the bounding box plus a margin "
            "(inside, outside, in holes, on edges and interfaces), points a hair inside/outside edges; query order: whole list, reversed, one by "
            "one, duplicated; actions: 12 patterns; aggregation: default, max, min, first, a counting function")
BOUND = {"quick": "about 110 sections (see C08) x all listed points x 12 action patterns, order/aggregation variants with 2 patterns",
         "thorough": "about 300 sections x 2 maps x all listed points x 12 patterns, order/aggregation variants with 4 patterns"}
ORACLE = ("exact rational point-in-closed-triangle test on the mesh decides the adjoining elements; independent FE field of each adjoining element at the "
          "point, aggregated; elastic formula for normal stress")

PAT = [("n",), ("mxx",), ("myy",), ("m11",), ("m22",), ("n", "mxx", "myy"), ("m11", "m22", "n"), ("vx",), ("vy",), ("mzz",), ("mzz", "vx", "vy"),
       fem.ACTIONS]


def cases(tier):
    q = tier == "quick"
    out = []
    for i, s in enumerate(sections(q)):
        ts = [TN[(i * 7) % len(TN)]] if q else [TN[(i * 7) % len(TN)], TN[(i * 5 + 4) % len(TN)]]
        if i % 3 == 0:
            ts.append("id")
        for t in ts:
            out.append(dict(s, tr=t, mesh={"s": [0, 0.5, 0.25][i % 3]}, mag=(i // 3) % 3, var=2 if q else 4))
    return out


def adjoining(tris, bb, pt):
    """indices of closed triangles containing pt, exactly"""
    out = []
    px, py = F(pt[0]), F(pt[1])
    for i, t in enumerate(tris):
        b = bb[i]
        if pt[0] < b[0] or pt[0] > b[1] or pt[1] < b[2] or pt[1] > b[3]:
            continue
        sg = []
        for k in range(3):
            (ax, ay), (bx, by) = t[k], t[(k + 1) % 3]
            v = (F(bx) - F(ax)) * (py - F(ay)) - (F(by) - F(ay)) * (px - F(ax))
            sg.append((v > 0) - (v < 0))
        if not (1 in sg and -1 in sg):
            out.append(i)
    return out


def points(sec, ext):
    nd = sec.mesh_nodes
    pts = [tuple(map(float, p)) for p in nd]
    for el in sec.elements:
        c = el.coords[:, :3]
        pts.append((float(c[0].mean()), float(c[1].mean())))
        for a, b in ((0, 1), (1, 2), (2, 0)):
            m = (c[:, a] + c[:, b]) / 2
            pts.append((float(m[0]), float(m[1])))
            inn = c.mean(axis=1) - m
            pts.append((float(m[0] + 1e-7 * inn[0]), float(m[1] + 1e-7 * inn[1])))
            pts.append((float(m[0] - 1e-7 * inn[0]), float(m[1] - 1e-7 * inn[1])))
    x0, x1, y0, y1 = ext
    n = 11
    for i in range(-2, n + 2):
        for j in range(-2, n + 2):
            pts.append((x0 + (x1 - x0) * i / (n - 1), y0 + (y1 - y0) * j / (n - 1)))
    pts += [(x0 - 10 * (x1 - x0), y0), (1e9, 1e9), (x0, y1 + 1e-3 * (y1 - y0))]
    seen = set()
    return [p for p in pts if not (p in seen or seen.add(p))]


def run_case(case, rec):
    sec, tr = setup(case)
    sec.calculate_geometric_properties()
    shear = not case.get("disjoint")
    if shear:
        sec.calculate_warping_properties()
    f, U = reference(sec, shear)
    ext = ref.extents(dict(case, tr=tr))
    x0, x1, y0, y1 = ext
    far = max(abs(v) for v in ext) / min(x1 - x0, y1 - y0)
    rt = 1e-8 + 1e-11 * far * far
    if f.delta >= 1e-7 * f.i11:
        rt = max(rt, 1e-12 * f.i11 / f.delta)
    tris = [[tuple(map(float, p)) for p in el.coords[:, :3].T] for el in sec.elements]
    bb = [(min(p[0] for p in t), max(p[0] for p in t), min(p[1] for p in t), max(p[1] for p in t)) for t in tris]
    pts = points(sec, ext)
    if len(pts) > 900:
        pts = pts[::len(pts) // 900 + 1]
    adj = [adjoining(tris, bb, p) for p in pts]
    mag = MAG[case["mag"]]
    pats = [p for p in PAT if shear or not set(p) & {"vx", "vy", "mzz"}]
    unit = {}
    for a in fem.ACTIONS:
        if a in U:
            unit[a] = max(np.abs(q).max() for q in U[a])
    vals = {}
    for k, p in enumerate(pats):
        act = {a: mag[a] for a in p}
        got = sec.get_stress_at_points(pts, **act)
        rec.step(len(pts))
        rec.check(len(got) == len(pts), lambda: f"{len(got)} results for {len(pts)} points")
        tol = rt * sum(abs(act[a]) * unit[a] for a in p)
        variants = k in (0, len(pats) - 1) or (case["var"] > 2 and k in (3, 6))
        each = {}
        for pt, ids, g in zip(pts, adj, got):
            if not ids:
                rec.check(g is None, lambda: f"point {pt} is outside the section but has stress {g}")
                continue
            rec.check(g is not None and len(g) == 3, lambda: f"point {pt} lies in element(s) {ids} but has stress {g}")
            e = np.array([fem.point_field(f, i, pt, act) for i in ids])
            if variants:
                each[pt] = e
            w = e.mean(axis=0)
            rec.check(np.all(np.abs(np.array(g) - w) <= tol), lambda: f"stress at {pt} (elements {ids}) under {act}: {tuple(map(float, g))}, field {tuple(map(float, w))}")
        if not variants:
            continue
        rev = sec.get_stress_at_points(pts[::-1], **act)[::-1]
        rec.check(rev == got, "the order of the points changes their stresses")
        sub = pts[::17]
        one = [sec.get_stress_at_points([p_], **act)[0] for p_ in sub]
        rec.check(one == got[::17], "querying a point alone changes its stress")
        dup = sec.get_stress_at_points(sub + sub, **act)
        rec.check(dup == one + one, "duplicated points get different stresses")
        rec.check(sec.get_stress_at_points([], **act) == [], "no points give stresses")
        for nm, fn, rf in (("max", max, lambda a: a.max(axis=0)), ("min", min, lambda a: a.min(axis=0)), ("sum", sum, lambda a: a.sum(axis=0)),
                           ("count", len, lambda a: np.full(3, float(len(a))))):
            ag = sec.get_stress_at_points(pts, agg_func=fn, **act)
            for pt, ids, g in zip(pts, adj, ag):
                if len(ids) > 1:
                    w = rf(each[pt])
                    rec.check(np.all(np.abs(np.array(g) - w) <= tol * len(ids)), lambda: f"{nm} at {pt} ({len(ids)} elements): {g}, expected {tuple(map(float, w))}")
            rec.step(len(pts))
        rec.outcome((p, sum(g is None for g in got), sum(len(i) > 1 for i in adj)))
    rec.state((repr(case["regions"]), case["tr"]))
    rec.trace()
