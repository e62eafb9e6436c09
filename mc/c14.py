"""C14: the boolean operators against exact set algebra on lattice cells."""
import itertools
import shapely
from shapely import Point, Polygon
from . import ref, gref

ALPHABET = ("operators | & - ^ + on single geometries (connected cell sets with holes, triangles) and compound geometries (label partitions of cell sets "
            "with 1-2 materials), every ordered pair of a shape family, then a second operator on the result")
BOUND = {"quick": "all ordered pairs of 62 single shapes in a 3x3 box x 5 operators; 40 compounds x 62 singles and 40 x 40 compounds x 5 operators; "
                  "chained algebraic identities for every pair; triangle pairs on a 2-lattice; affine maps cycled",
         "thorough": "all ordered pairs of 218 single shapes of a 3x3 box x 5 operators, 84 compounds in both roles, the same identities, all pairs of triangles"}
ORACLE = "set algebra of unit lattice cells (or, for triangles, of the 1/8-lattice sample cells plus exact areas): area and membership of every cell centre"
CHUNK = 6

OPS = ("|", "&", "-", "^", "+")


def singles(tier):
    out = []
    for c in ref.subsets_box(2, 2):
        out.append(c)
    for c in ref.subsets_box(3, 3):
        if ref.corner_touch(c) or c in out:
            continue
        out.append(c)
    keep = [c for c in out if len(c) <= 4 or len(c) >= 7] if tier != "quick" else \
        [c for i, c in enumerate(out) if len(c) <= 2 or len(c) == 9 or (len(c) == 8 and (1, 1) not in c) or i % 5 == 0]
    return keep


def compounds(tier):
    out = []
    for c in singles("quick" if tier == "quick" else "thorough"):
        if len(c) < 2:
            continue
        for k, m in enumerate(((1, 2), (2, 1))):
            a = [q for i, q in enumerate(c) if (i + k) % len(c) < len(c) // 2]
            b = [q for q in c if q not in a]
            if any(ref.corner_touch(x) for x in ref.components(a) + ref.components(b)):
                continue
            out.append(((tuple(a), m[0]), (tuple(b), m[1])))
    # disjoint, corner touching, ring and island
    out.append(((((0, 0),), 1), (((2, 2),), 2)))
    out.append(((((0, 0),), 1), (((1, 1),), 1)))
    out.append(((tuple((x, y) for x in range(3) for y in range(3) if (x, y) != (1, 1)), 1), (((1, 1),), 2)))
    return out[::3] + out[-3:] if tier == "quick" else out[::2] + out[-3:]


TRS = ["id", "shift", "rot345", "neg", "miry", "rot90far", "rot512", "small", "big", "mm", "tiny"]


def cases(tier):
    S = singles(tier); C = compounds(tier)
    out = []
    for i, a in enumerate(S):
        out.append(dict(a=[[list(map(list, a)), [None, "S", "C"][i % 3]]], fam="S", tr=TRS[i % len(TRS)]))
    for i, a in enumerate(C):
        A = [[list(map(list, c)), [None, "S", "C"][m]] for c, m in a]
        for fam in "SC":
            out.append(dict(a=A, fam=fam, comp=1, tr=TRS[i % len(TRS)]))
    for i, a in enumerate(S):
        out.append(dict(a=[[list(map(list, a)), [None, "S", "C"][i % 3]]], fam="C", tr=TRS[(i + 3) % len(TRS)]))
    T = ref.lattice_triangles(2)
    for i, a in enumerate(T):
        out.append(dict(tri=a, tr=["id", "mix", "rot345"][i % 3], tier=tier))
    for c in out:
        c["tier"] = tier
    return out


def geom_of(parts, comp, tr):
    from sectionproperties.pre import CompoundGeometry
    gs = []
    for cells, m in parts:
        for comp_cells in ref.components([tuple(c) for c in cells]):
            r = ref.region_cells(comp_cells, m)
            gs.append(gref.mk(ref.tr_pts(r["ext"], tr), [ref.tr_pts(h, tr) for h in r["holes"]], m))
    return CompoundGeometry(gs) if comp else gs[0]


def do(a, op, b):
    return a | b if op == "|" else a & b if op == "&" else a - b if op == "-" else a ^ b if op == "^" else a + b


def setop(a, op, b):
    return a | b if op == "|" else a & b if op == "&" else a - b if op == "-" else a ^ b


def cells_of(poly, grid, tr):
    """Set of box cells whose centre lies in the polygon."""
    cc = ref.tr_pts([[x + 0.5, y + 0.5] for x, y in grid], tr)
    v = shapely.contains_xy(poly, [float(p[0]) for p in cc], [float(p[1]) for p in cc])
    return {g for g, i in zip(grid, v) if i}


GRID = [(x, y) for x in range(3) for y in range(3)]


def check_set(rec, g, want, tr, cell, what, mats=None):
    """g covers exactly the wanted cells; mats: {cell: material name} or None."""
    ps = gref.parts(g)
    if not want:
        rec.check(all(p.geom.is_empty for p in ps), lambda: f"{what}: result should be empty, is {g.geom.wkt[:100]}")
        return
    if hasattr(g, "geoms"):
        rec.check(all(not p.geom.is_empty for p in ps), f"{what}: compound result contains an empty region")
    tot = 0.0
    seen = set()
    for p in ps:
        rec.check(p.geom.is_valid and p.geom.area > 1e-7 * cell, f"{what}: result contains an invalid or sliver region of area {p.geom.area}")
        c = cells_of(p.geom, GRID, tr)
        rec.check(abs(p.geom.area - len(c) * cell) <= 1e-8 * cell * max(1, len(c)), lambda: f"{what}: region area {p.geom.area} does not match its {len(c)} cells of {cell}")
        rec.check(not (c & seen), f"{what}: regions of the result overlap")
        seen |= c; tot += p.geom.area
        if mats is not None:
            for q in c:
                if q in mats:
                    rec.check(p.material == ref.material(mats[q]), f"{what}: cell {q} has material {p.material.name}, expected {mats[q]}")
    rec.check(seen == want, lambda: f"{what}: covers {sorted(seen)}, expected {sorted(want)}")
    gref.wellformed(rec, g, what)


def run_case(case, rec):
    if "tri" in case:
        return tri_case(case, rec)
    tr = case["tr"]
    cell = ref.area_scale(tr)
    fam = singles(case["tier"]) if case["fam"] == "S" else compounds(case["tier"])
    A = geom_of(case["a"], case.get("comp"), tr)
    sa = {tuple(c) for cs, _ in case["a"] for c in cs}
    ma = {tuple(c): m for cs, m in case["a"] for c in cs}
    for j, fb in enumerate(fam):
        if case["fam"] == "S":
            b = [[list(fb), "T"]]
        else:
            b = [[list(c), ["", "T", "K"][m]] for c, m in fb]
        B = geom_of(b, case["fam"] == "C", tr)
        sb = {tuple(c) for cs, _ in b for c in cs}
        mb = {tuple(c): m for cs, m in b for c in cs}
        before = (gref.snapshot(A), gref.snapshot(B))
        res = {}
        for op in OPS:
            if op == "+":
                R = A + B
                rec.step()
                n = len(gref.parts(A)) + len(gref.parts(B))
                rec.check(len(R.geoms) == n, f"+: {len(R.geoms)} regions from {n}")
                for p, q in zip(R.geoms, gref.parts(A) + gref.parts(B)):
                    rec.check(p.geom.equals(q.geom) and p.material == q.material, "+: region or material changed")
            else:
                want = setop(sa, op, sb)
                R = do(A, op, B); rec.step()
                comp_left = case.get("comp")
                # | and ^ merge operands; material taken from a single left operand keeps its material
                mats = None
                if op in "-&":
                    mats = ma
                elif not comp_left:
                    mats = {c: case["a"][0][1] for c in sa} if op == "|" else {c: case["a"][0][1] for c in sa - sb}
                    if op == "^" and sa & sb == set():
                        mats = None if case["fam"] == "C" else {c: case["a"][0][1] for c in sa}
                check_set(rec, R, want, tr, cell, f"{sorted(sa)} {op} {sorted(sb)}", mats)
            res[op] = R
            rec.state((sorted(sa), case.get("comp"), tr, op, sorted(sb), case["fam"]))
        rec.check((gref.snapshot(A), gref.snapshot(B)) == before, f"{sorted(sa)}, {sorted(sb)}: an operator modified an operand")
        # identities through the library itself
        if sa - sb and sa & sb:
            R = res["-"] + res["&"]; rec.step()
            check_set(rec, R, sa, tr, cell, f"(A - B) + (A & B) for {sorted(sa)}, {sorted(sb)}")
            R2 = res["|"] - res["^"]; rec.step()
            check_set(rec, R2, sa & sb, tr, cell, f"(A | B) - (A ^ B) for {sorted(sa)}, {sorted(sb)}")
        R = res["-"] + B; rec.step()
        check_set(rec, R, sa | sb, tr, cell, f"(A - B) + B for {sorted(sa)}, {sorted(sb)}", {**{c: m for c, m in ma.items() if c not in sb}, **mb})
        if sa - sb:
            R = res["-"] - B; rec.step()
            check_set(rec, R, sa - sb, tr, cell, f"(A - B) - B for {sorted(sa)}, {sorted(sb)}", ma)
            R = res["-"] & B; rec.step()
            check_set(rec, R, set(), tr, cell, f"(A - B) & B for {sorted(sa)}, {sorted(sb)}")
        rec.outcome((len(gref.parts(res["|"])), len(gref.parts(res["-"])), res["^"].geom.wkb))
        rec.trace()


def tri_case(case, rec):
    """Triangles: areas by exact clipping, membership by a fine set of sample points."""
    from fractions import Fraction as F
    tr = case["tr"]
    T = ref.lattice_triangles(2)

    def clip(sub, tri):
        # Sutherland-Hodgman in exact arithmetic (convex clipper, ccw)
        if ref.ring_moments(tri)[0] < 0:
            tri = tri[::-1]
        out = sub
        for i in range(3):
            a, b = tri[i - 1], tri[i]
            side = lambda p: (b[0] - a[0]) * (p[1] - a[1]) - (b[1] - a[1]) * (p[0] - a[0])
            new = []
            for k in range(len(out)):
                p, q = out[k - 1], out[k]
                sp, sq = side(p), side(q)
                if (sp >= 0) != (sq >= 0):
                    t = F(sp) / F(sp - sq)
                    new.append((p[0] + t * (q[0] - p[0]), p[1] + t * (q[1] - p[1])))
                if sq >= 0:
                    new.append(q)
            out = new
            if not out:
                break
        return out
    a = [tuple(map(F, p)) for p in case["tri"]]
    if ref.ring_moments(a)[0] < 0:
        a = a[::-1]
    sc = ref.area_scale(tr)
    A = gref.mk(ref.tr_pts(a, tr), (), "S")
    pts = [(F(2 * x + 1, 16) + F(1, 97), F(2 * y + 1, 16) + F(1, 89)) for x in range(16) for y in range(16)]
    fp = [(float(x), float(y)) for x, y in ref.tr_pts(pts, tr)]

    def inside(t):
        s = [[(t[i][0] - t[i - 1][0]) * (p[1] - t[i - 1][1]) - (t[i][1] - t[i - 1][1]) * (p[0] - t[i - 1][0]) > 0 for p in pts] for i in range(3)]
        return {k for k in range(len(pts)) if s[0][k] == s[1][k] == s[2][k]}
    ia = inside(a)
    aa = abs(ref.ring_moments(a)[0])
    for tb in T[:: (3 if case["tier"] == "quick" else 1)]:
        for dx in (0, F(1, 2)):
            b = [(F(x) + dx, F(y) + dx / 2) for x, y in tb]
            B = gref.mk(ref.tr_pts(b, tr), (), "T")
            ib = inside(b)
            ab = abs(ref.ring_moments(b)[0])
            ov = clip(a, b)
            ao = abs(ref.ring_moments(ov)[0]) if len(ov) > 2 else F(0)
            want = {"|": aa + ab - ao, "&": ao, "-": aa - ao, "^": aa + ab - 2 * ao}
            before = (gref.snapshot(A), gref.snapshot(B))
            for op in "|&-^":
                R = do(A, op, B); rec.step()
                w = float(want[op]) * sc
                got = sum(p.geom.area for p in gref.parts(R))
                rec.check(abs(got - w) <= 1e-9 * sc * 4, lambda: f"{case['tri']} {op} {tb} (+{dx}): area {got}, exact {w}")
                u = shapely.unary_union([p.geom for p in gref.parts(R)])
                if not u.is_empty:
                    v = shapely.contains_xy(u, [p[0] for p in fp], [p[1] for p in fp])
                    rec.check({k for k in range(len(fp)) if v[k]} == setop(ia, op, ib), f"{case['tri']} {op} {tb}: wrong point membership")
                    if op in "&-" or (op == "|" and ao > 0):
                        rec.check(all(p.material == ref.material("S") for p in gref.parts(R)), f"{op}: left operand's material not kept")
                rec.state((str(case["tri"]), tr, op, str(tb), str(dx)))
            rec.check((gref.snapshot(A), gref.snapshot(B)) == before, "an operator modified an operand")
            rec.outcome((float(aa), float(ab), float(ao)))
            rec.trace()
