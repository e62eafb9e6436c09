"""C01: area properties equal exact rational integrals of the regions (Green's theorem)."""
import itertools, math
from . import ref, obs
from .core import close

NEEDS_FEA = True
ALPHABET = ("add-cell (polyomino BFS), lattice triangles/quadrilaterals, label cells with void/steel/concrete materials, "
            "reverse region order, affine maps (shift, far shift, Pythagorean rotations, mirror, shear, thin, big, small), "
            "mesh with size 0 / small / per region / min angle / coarse")
BOUND = {"quick": "all fixed polyominoes <=5 cells x 22 maps; all lattice triangles (<=2) and simple quads (<=2); all 3^6 void/material "
                  "labellings of a 2x3 box; rings and nested regions of a 3x3 box; 12 mesh settings on 12 sections; 14 sections of up to 12 regions, 9 voids, 8 materials x 4 maps",
         "thorough": "polyominoes <=6 cells x 22 maps x 3 meshes; lattice triangles/quads (<=3); all 3^8 labellings of a 2x4 box and "
                     "all 3x3 two-material labellings; 12 mesh settings on 60 sections; 14 sections of many parts x 22 maps"}
ORACLE = "exact rational Green's-theorem integrals of the regions' float coordinates, modulus weighted, plus the documented definitions"

MESHES = [{"s": 0}, {"s": [0.3]}, {"s": 0.05}, {"s": 0, "coarse": True}, {"s": [0.2], "a": 20.7}, {"s": 0.11, "a": 33},
          {"s": [1.0], "a": 0}, {"s": 10.0}, {"s": [0.02]}, {"s": 0.5, "coarse": True}, {"s": 1}, {"s": [0.7], "a": 25.5}]
LAB = {1: "S", 2: "C"}


def labelled(w, h, labels):
    """Regions of a labelled box (0 = void): connected components of equal label."""
    cells = [(x, y) for x in range(w) for y in range(h)]
    regs = []
    for lab in sorted(set(labels) - {0}):
        for comp in ref.components([c for c, l in zip(cells, labels) if l == lab]):
            if ref.corner_touch(comp):
                return None, None
            regs.append(ref.region_cells(comp, LAB[lab]))
    allc = [c for c, l in zip(cells, labels) if l]
    outer = None
    if allc and ref.connected(allc):
        e, _ = ref.cells_rings(allc)
        outer = [list(p) for p in e[0]] if not ref.corner_touch(allc) else "skip"
    return regs, outer


def cases(tier):
    T = list(ref.TR)
    out = []
    k = 0
    nmax = 5 if tier == "quick" else 6
    for n in range(1, nmax + 1):
        for p in ref.polyominoes(n):
            if ref.corner_touch(p):
                continue
            r = ref.region_cells(p)
            for i, t in enumerate(T):
                ms = [MESHES[0]] if tier == "quick" else MESHES[:3]
                if tier == "quick" and n <= 3:
                    ms = MESHES[:2]
                for m in ms:
                    out.append(dict(regions=[dict(r, mat=None if (i + n) % 3 else "C")], tr=t, mesh=m, outer=r["ext"]))
    L = 2 if tier == "quick" else 3
    for j, q in enumerate(ref.lattice_triangles(L) + ref.lattice_quads(L)):
        for t in ("id", T[j % len(T)], T[(j * 5 + 3) % len(T)]):
            out.append(dict(regions=[dict(ext=q, holes=[], mat=None if j % 2 else "T")], tr=t, mesh=MESHES[j % 2], outer=q))
    w, h = (2, 3) if tier == "quick" else (2, 4)
    boxes = [(w, h, l) for l in itertools.product((0, 1, 2), repeat=w * h)]
    three = []
    for l in itertools.product((0, 1, 2), repeat=9):
        # rings with filled centres and rings round a void; all two-material 3x3 in the thorough tier
        ring = all(l[i] for i in (0, 1, 2, 3, 5, 6, 7, 8))
        if ring and (tier != "quick" or sum(l[i] == 2 for i in (0, 1, 2, 3, 5, 6, 7, 8)) <= 2):
            three.append((3, 3, l))
        elif tier != "quick" and 0 not in l:
            three.append((3, 3, l))
    for j, (bw, bh, l) in enumerate(boxes + three):
        if not any(l):
            continue
        regs, outer = labelled(bw, bh, l)
        if regs is None:
            continue
        for rev in ((False, True) if len(regs) > 1 else (False,)):
            out.append(dict(regions=regs[::-1] if rev else regs, tr=T[(j * 7 + rev) % len(T)], compound=1,
                            mesh=MESHES[0] if j % 4 else {"s": [0.2 + 0.1 * i for i in range(len(regs))]}, outer=outer))
    base = [dict(regions=[ref.region_cells(p)], outer=ref.region_cells(p)["ext"])
            for p in ref.polyominoes(4)[:5 if tier == "quick" else 19]]
    for l in [(1, 1, 1, 1, 2, 1, 1, 1, 1), (1, 1, 1, 1, 0, 1, 1, 1, 1), (1, 2, 1, 1, 0, 2, 1, 1, 1), (1, 1, 1, 2, 2, 2, 1, 1, 1),
              (2, 1, 1, 1, 0, 1, 1, 1, 1), (1, 0, 0, 1, 2, 2, 1, 0, 1)]:
        regs, outer = labelled(3, 3, l)
        if regs is None:
            continue
        base.append(dict(regions=regs, outer=outer, compound=1))
    for b in base:
        for m in MESHES:
            out.append(dict(b, tr="mix", mesh=m))
    for j, (_, b) in enumerate(ref.big_sections()):
        for i, t in enumerate(T if tier != "quick" else [T[(j * 3 + a * 7) % len(T)] for a in range(4)]):
            n = len(b["regions"])
            ms = [MESHES[0], {"s": [0.1 + 0.2 * a for a in range(n)][::[1, -1][i % 2]]}]
            out.append(dict(b, tr=t, mesh=ms[i % 2]))
    # several circles of material: same material everywhere, no material in one region, zero density, single compound region
    sq = lambda x, y, w, h, m: dict(ext=[[x, y], [x + w, y], [x + w, y + h], [x, y + h]], holes=[], mat=m)
    for ms in itertools.product((None, "S", "U", "K", "E"), repeat=2):
        for t in ("id", "rot345", "shift"):
            out.append(dict(regions=[sq(0, 0, 2, 1, ms[0]), sq(0, 1, 1, 3, ms[1])], tr=t, mesh={"s": [0]}, compound=1,
                            outer=[[0, 0], [2, 0], [2, 1], [1, 1], [1, 4], [0, 4]]))
            out.append(dict(regions=[sq(0, 0, 2, 1, ms[0]), sq(5, 1, 1, 3, ms[1])], tr=t, mesh={"s": [0]}, compound=1, outer=None))
            out.append(dict(regions=[sq(0, 0, 1, 1, ms[0]), sq(1, 0, 1, 1, ms[1]), sq(1, 1, 1, 1, "T")], tr=t, mesh={"s": [0]}, compound=1,
                            outer=[[0, 0], [2, 0], [2, 2], [1, 2], [1, 1], [0, 1]]))
    return out


def compare(rec, case, got, tag=""):
    p = ref.area_props(case)
    comp = ref.is_composite(case)
    x0, x1, y0, y1 = ref.extents(case)
    Rr = max(abs(v) for v in (x0, x1, y0, y1))
    L = max(x1 - x0, y1 - y0)
    eps = 4e-12
    EA = p["ea"]
    tolI = eps * EA * Rr * Rr
    tolc = eps * Rr

    def eq(k, want, rtol=1e-9, atol=0.0):
        rec.step()
        if not close(got[k], want, rtol, atol):
            rec.fail(f"{tag}{k}: got {got[k]!r}, exact value {want!r}", key=None)
    eq("area", p["area"])
    if case.get("outer") != "skip":
        o = case.get("outer")
        want = -1.0 if o is None else ref.ring_len(ref.tr_pts(o, case.get("tr", "id")))
        eq("perimeter", want, 1e-9)
    for k, s in (("qx", 1), ("qy", 1)):
        eq(k, p[k], 1e-9, eps * EA * Rr)
    for k in ("ixx_g", "iyy_g", "ixy_g"):
        eq(k, p[k], 1e-9, tolI)
    eq("cx", p["cx"], 1e-9, tolc); eq("cy", p["cy"], 1e-9, tolc)
    for k in ("ixx", "iyy", "ixy", "i11", "i22"):
        eq(k, p[k], 1e-9, tolI * 4)
    rel = lambda k: 1e-9 + 4 * tolI / p[k]
    for k, i in (("rx", "ixx"), ("ry", "iyy"), ("r11", "i11"), ("r22", "i22")):
        eq(k, p[k], rel(i))
    for k, i, d in (("zxx+", "ixx", y1 - p["cy"]), ("zxx-", "ixx", p["cy"] - y0), ("zyy+", "iyy", x1 - p["cx"]), ("zyy-", "iyy", p["cx"] - x0)):
        eq(k, p[i] / d, rel(i) + 4 * tolc / d)
    # principal axes: the reported angle must be *the* axis angle when it is determined
    det = p["delta"] / p["i11"]
    phi = got["phi"]
    if det > 1e-6 + 1e3 * tolI / p["i11"]:
        want = p["phi"]
        dphi = abs(phi - want)
        tol = 1e-4 + math.degrees(10 * tolI / p["delta"])
        if not (dphi <= tol or (abs(p["ixy"]) <= 10 * tolI and min(abs(dphi - 180), dphi) <= tol)):
            rec.fail(f"{tag}phi: got {phi!r}, exact {want!r}")
    else:
        rec.count("degenerate principal axes")
    c, s = math.cos(math.radians(phi)), math.sin(math.radians(phi))
    vv = [(x - p["cx"], y - p["cy"]) for x, y in ref.verts(case)]
    x11 = [x * c + y * s for x, y in vv]; y22 = [y * c - x * s for x, y in vv]
    for k, i, d in (("z11+", "i11", max(y22)), ("z11-", "i11", -min(y22)), ("z22+", "i22", max(x11)), ("z22-", "i22", -min(x11))):
        eq(k, p[i] / d, rel(i) + 4 * tolc / d)
    if comp:
        for k in ("mass", "ea"):
            eq(k, p[k])
        eq("nu_eff", p["nu_eff"], 1e-9, 1e-12); eq("e_eff", p["e_eff"]); eq("g_eff", p["g_eff"])


def run_case(case, rec):
    from sectionproperties.analysis import Section
    g = ref.build(case)
    obs.mesh(g, case.get("mesh"), ref.area_scale(case["tr"])); rec.step()
    sec = Section(g); rec.step()
    rec.check(sec.is_composite() == ref.is_composite(case), "is_composite() does not match the assigned materials")
    sec.calculate_geometric_properties(); rec.step()
    got = obs.geo(sec)
    rec.state((str(case["regions"]), case["tr"], len(sec.elements)))
    rec.outcome(tuple(f"{v:.9e}" for v in got.values()))
    compare(rec, case, got)
    rec.trace()
