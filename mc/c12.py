"""C12: alternative descriptions of one physical section give the same results."""
import itertools, math
import numpy as np
from . import ref, obs
from .c06 import TN, trn, sq
from .core import close

NEEDS_FEA = True
ALPHABET = ("descriptions of a labelled box: every partition of the cells into connected single-material regions, every rotation of the region order and "
            "its reversal, shared material objects / equal copies / equal numbers under another name, a single-region geometry or a compound of one; one "
            "material everywhere or none; common mesh or each description meshed on its own")
BOUND = {"quick": "2x2 and 2x3 boxes: 14 labellings x all connected partitions x 3 order/identity variants on a common mesh; 9 three-by-three arrangements "
                  "with rings; 36 own-mesh comparisons per labelling (geometric and plastic); 5 arrangements of four materials on up to 21 cells in up to 21 regions; 5 materials against none on 20 shapes",
         "thorough": "every labelling of a 2x3 box by two materials and void x all connected partitions x 3 variants; 3x3 arrangements; own-mesh comparisons on all"}
ORACLE = "the results of the coarsest description with shared material objects (same physical section), on the same mesh where results depend on the mesh"


def partitions(cells, lab):
    """partitions of the non-void cells into connected blocks of one label"""
    cells = [c for c in cells if lab[c]]
    out = []

    def grow(rest, blocks):
        if not rest:
            out.append(blocks)
            return
        first = rest[0]
        others = [c for c in rest[1:] if lab[c] == lab[first]]
        for r in range(len(others) + 1):
            for extra in itertools.combinations(others, r):
                b = (first,) + extra
                if ref.connected(b) and not ref.corner_touch(b):
                    grow([c for c in rest if c not in b], blocks + [b])
    grow(cells, [])
    return out


LABS = [(2, 2, (1, 1, 1, 1)), (2, 2, (1, 1, 1, 2)), (2, 2, (1, 2, 2, 1)), (2, 2, (1, 1, 2, 2)), (2, 2, (1, 1, 1, 0)), (2, 2, (1, 2, 0, 1)),
        (2, 3, (1, 1, 1, 1, 1, 1)), (2, 3, (1, 1, 1, 2, 1, 1)), (2, 3, (1, 1, 2, 2, 2, 1)), (2, 3, (1, 0, 1, 1, 1, 1)), (2, 3, (1, 1, 1, 0, 2, 2)),
        (2, 3, (1, 2, 1, 2, 1, 2)), (2, 3, (2, 2, 2, 1, 1, 1)), (2, 3, (1, 1, 0, 2, 1, 1))]
NAMES = {1: "S", 2: "C"}
ALT = {1: ("T", None), 2: (None, "S")}


def cases(tier):
    q = tier == "quick"
    out = []
    labs = list(LABS)
    if not q:
        for l in itertools.product((0, 1, 2), repeat=6):
            used = [c for c, v in zip([(x, y) for x in range(2) for y in range(3)], l) if v]
            if used and ref.connected(used) and not ref.corner_touch(used) and (2, 3, l) not in labs:
                labs.append((2, 3, l))
    for k, (w, h, l) in enumerate(labs):
        cells = [(x, y) for x in range(w) for y in range(h)]
        lab = dict(zip(cells, l))
        ps = partitions(cells, lab)
        if not q and len(labs) > 20 and len(ps) > 40 and k >= len(LABS):
            ps = ps[::2]
        for j, p in enumerate(ps):
            for v in range(4):
                out.append(dict(kind="part", w=w, h=h, lab=list(l), part=[list(map(list, b)) for b in p], order=(j + v * 5) % (2 * len(p)), ident=(j + v) % 3,
                                mats=[["S", "C"], ["T", "K"], ["C", None], [None, None]][(k + v) % 4] if v < 3 else [["S", "N"], ["M", "S"], ["N", "M"]][j % 3], tr=TN[(k * 5 + j * 3 + v) % len(TN)],
                                mesh={"s": [0, 0.3][(j + v) % 2]}, own=j % 2))
    for l in ((1, 1, 1, 1, 2, 1, 1, 1, 1), (1, 1, 1, 1, 0, 1, 1, 1, 1), (1, 1, 1, 1, 1, 1, 1, 1, 1), (2, 1, 1, 1, 0, 1, 1, 1, 2)):
        cells = [(x, y) for x in range(3) for y in range(3)]
        lab = dict(zip(cells, l))
        row = lambda f: [b for key in sorted({f(c) for c in cells}) for v in (1, 2) for b in ref.components([c for c in cells if f(c) == key and lab[c] == v])]
        for f in (lambda c: c, lambda c: c[0], lambda c: c[1], lambda c: (c[0] == 1 and c[1] == 1), lambda c: c[0] > 0, lambda c: (c[0] > 1, c[1] > 0),
                  lambda c: c[0] + c[1] > 2):
            p = row(f)
            if any(ref.corner_touch(b) for b in p):
                continue
            for v in range(2):
                out.append(dict(kind="part", w=3, h=3, lab=list(l), part=[list(map(list, b)) for b in p], order=(v * 3) % (2 * len(p)), ident=v,
                                mats=[["S", "C"], ["C", None]][v], tr=TN[len(out) % len(TN)], mesh={"s": [0, 0.3][v]}, own=v))
    # many regions and materials; every row, column or cell a region
    for w, h, l in ((4, 3, (1, 2, 3, 2, 3, 4, 3, 4, 1, 4, 1, 2)), (4, 3, (1, 1, 1, 1, 2, 1, 1, 3, 1, 1, 1, 1)), (8, 1, (1, 2, 3, 4, 1, 3, 2, 4)),
                    (5, 3, (1, 1, 1, 1, 0, 1, 1, 0, 1, 1, 1, 1, 1, 1, 1)), (7, 3, (1, 1, 1, 1, 2, 1, 1, 1, 1, 1, 3, 1, 1, 1, 1, 4, 1, 1, 1, 1, 1))):
        cells = [(x, y) for x in range(w) for y in range(h)]
        lab = dict(zip(cells, l))
        for a, f in enumerate((lambda c: c, lambda c: c[0], lambda c: c[1], lambda c: 0, lambda c: (c[0] // 2, c[1] // 2))):
            p = [b for key in sorted({f(c) for c in cells}) for v in (1, 2, 3, 4) for b in ref.components([c for c in cells if f(c) == key and lab[c] == v])]
            if any(ref.corner_touch(b) or len(ref.cells_rings(b)[0]) > 1 for b in p):
                continue
            for v in range(2 if q else 6):
                out.append(dict(kind="part", w=w, h=h, lab=list(l), part=[list(map(list, b)) for b in p], order=(a * 3 + v * 5) % (2 * len(p)), ident=(a + v) % 3,
                                mats=[["S", "C", "T", "K"], ["C", "E", "N", "S"], ["S", "M", "C", "N"], [None, "S", "C", "T"]][(a + v) % 4], tr=TN[len(out) % len(TN)], mesh={"s": [0, 0.3][v % 2]}, own=v % 2))
    shapes = [p for n in (1, 2, 3, 4) for p in ref.polyominoes(n) if not ref.corner_touch(p)]
    for i, p in enumerate(shapes if not q else shapes[::2]):
        for m in ("U", "S", "C", "K", "Z"):
            out.append(dict(kind="mat", regions=[ref.region_cells(p)], mat=m, tr=TN[(i * 3) % len(TN)], mesh={"s": [0, 0.4][i % 2]}))
    for i, m in enumerate(("U", "S", "Z")):
        out.append(dict(kind="mat", regions=[sq(0, 0, 2, 1, None), sq(0, 1, 1, 3, None)], compound=1, mat=m, tr="mix", mesh={"s": 0}))
    return out


ZNU = ("zero nu", 37.0, 0.0, 2.5, 3.0, "m")


def mats_for(case):
    ref.MATS["Z"] = ZNU


def lenscale(case):
    x0, x1, y0, y1 = ref.extents(case)
    return max(x1 - x0, y1 - y0), max(abs(v) for v in (x0, x1, y0, y1))


LEN = {"cx", "cy", "x_se", "y_se", "x11_se", "y22_se", "x_st", "y_st", "x_pc", "y_pc", "x11_pc", "y22_pc",
       "bx+", "bx-", "by+", "by-", "b11+", "b11-", "b22+", "b22-"}
PRINC = {"phi", "r11", "r22", "i11", "i22", "z11+", "z11-", "z22+", "z22-", "my11", "my22", "x11_se", "y22_se", "as11", "as22", "b11+", "b11-", "b22+", "b22-",
         "x11_pc", "y22_pc", "s11", "s22", "sf11+", "sf11-", "sf22+", "sf22-"}


def compare(rec, tag, A, B, L, R, imax, ea, factor=None, skip=()):
    far = R / L
    rt = 1e-9 + 1e-11 * far * far
    for grp in A:
        a, b = A[grp], B[grp]
        if factor is None:
            rec.check(set(a) == set(b), lambda: f"{tag}: {grp} results {sorted(set(a) ^ set(b))} differ in availability")
        for k in a:
            if k not in b or k in skip:
                continue
            f = factor(k) if factor else 1.0
            v, w = a[k], b[k] / f
            at = 0.0
            r = rt
            if k in LEN:
                at = (1e-8 if not k.endswith("pc") else 1e-5) * L + rt * L
            elif k in ("qx", "qy"):
                at = 1e-12 * ea * R
            elif k.startswith("i") and k[:3] in ("ixx", "iyy", "ixy"):
                at = rt * imax
            elif k == "phi":
                at = 1e-6
            elif k == "gamma":
                at = rt * imax * L * L
            elif k == "j":
                at = rt * imax * 0.01
            elif k.startswith("s") or grp == "plast":
                r = 1e-8 + rt
            elif k.startswith("as"):
                r = 10 * rt
            rec.step()
            if not close(v, w, r, at):
                rec.fail(f"{tag}: {k} = {v!r}, the reference description gives {w!r}")


def results(sec, warp=True, plast=True):
    sec.calculate_geometric_properties()
    out = {"geo": obs.geo(sec)}
    if warp:
        sec.calculate_warping_properties()
        out["warp"] = obs.warp(sec)
    if plast:
        sec.calculate_plastic_properties()
        out["plast"] = obs.plast(sec)
    return out


def regions_of(case, blocks, mats):
    lab = {tuple(c): v for c, v in zip([(x, y) for x in range(case["w"]) for y in range(case["h"])], case["lab"])}
    return [ref.region_cells([tuple(c) for c in b], mats[lab[tuple(b[0])] - 1]) for b in blocks]


def build(case, regs, ident):
    """geometry with shared (0), copied (1) material objects or alternately renamed copies (2)"""
    from shapely import Polygon
    from sectionproperties.pre import CompoundGeometry, Geometry, Material
    from sectionproperties.pre.pre import DEFAULT_MATERIAL
    cs = dict(regions=regs, tr=trn(case["tr"]))
    gs = []
    for i, (e, hs, m) in enumerate(ref.exact_regions(cs)):
        if m in (None, "D"):
            mt = DEFAULT_MATERIAL if ident == 0 else Material(*ref.MATS["D"])
        else:
            mt = ref.material(m) if ident == 0 else Material(*ref.MATS[m])
            if ident == 2 and i % 2:
                t = ref.MATS[m]
                mt = Material(t[0] + " copy", *t[1:])
        gs.append(Geometry(Polygon(ref.fl(e), [ref.fl(h) for h in hs]), mt))
    return gs


def run_case(case, rec):
    mats_for(case)
    if case["kind"] == "mat":
        return material_case(case, rec)
    from sectionproperties.analysis import Section
    from sectionproperties.pre import CompoundGeometry
    cells = [(x, y) for x in range(case["w"]) for y in range(case["h"])]
    lab = dict(zip(cells, case["lab"]))
    mats = case["mats"]
    # finest description carries the common mesh; with equal materials blocks of different labels may merge in the reference
    eff = {c: (mats[lab[c] - 1] if lab[c] else "void") for c in cells}
    fine = [(c,) for c in cells if lab[c]]
    coarse = []
    for m in sorted({eff[c] for c in cells if lab[c]}, key=str):
        coarse += [b for b in ref.components([c for c in cells if lab[c] and eff[c] == m])]
    if any(ref.corner_touch(b) for b in coarse):
        coarse = [tuple(map(tuple, b)) for b in case["part"]]
    part = [tuple(map(tuple, b)) for b in case["part"]]
    o = case["order"]
    part = part[o % len(part):] + part[:o % len(part)]
    if o >= len(part):
        part = part[::-1]
    gfine = CompoundGeometry(build(case, regions_of(case, fine, mats), 0))
    obs.mesh(gfine, case["mesh"], ref.area_scale(trn(case["tr"])))
    att = np.array(gfine.mesh["triangle_attributes"]).T[0].astype(int)

    def described(blocks, ident):
        gs = build(case, regions_of(case, blocks, mats), ident)
        g = CompoundGeometry(gs) if len(gs) > 1 or ident == 1 else gs[0]
        own = {c: i for i, b in enumerate(blocks) for c in b}
        return g, np.array([own[fine[a][0]] for a in att])
    sections = []
    for blocks, ident in ((coarse, 0), (part, case["ident"])):
        g, at = described(blocks, ident)
        g.mesh = dict(gfine.mesh)
        g.mesh["triangle_attributes"] = at.reshape(-1, 1)
        sections.append(Section(g))
    ra, rb = results(sections[0]), results(sections[1])
    rec.step(6)
    comp = sections[0].is_composite()
    rec.check(sections[1].is_composite() == comp, "the descriptions disagree on being composite")
    cs = dict(regions=regions_of(case, coarse, mats), tr=trn(case["tr"]))
    L, R = lenscale(cs)
    imax = ra["geo"]["i11"]
    skip = PRINC - {"i11", "i22", "r11", "r22"} if (ra["geo"]["i11"] - ra["geo"]["i22"]) < 1e-6 * imax else set()
    compare(rec, f"{len(part)} regions", rb, ra, L, R, imax, ra["geo"].get("ea", ra["geo"]["area"]), skip=skip)
    act = dict(n=1.0, mxx=2.0, myy=-3.0, vx=1.5, vy=-2.5, mzz=4.0)
    if case["ident"] != 2:
        sa, sb = (s.calculate_stress(**act).get_stress() for s in sections)
        # one entry per distinct material, in order of first appearance
        da, db = (dict(zip(dict.fromkeys(s.materials), d)) for s, d in zip(sections, (sa, sb)))
        rec.check(len(da) == len(sa) and len(db) == len(sb) and set(da) == set(db), lambda: f"{len(sa)} and {len(sb)} stress groups for {len(da)} and {len(db)} distinct materials")
        rec.check(all(m.name == d["material"] for t in (da, db) for m, d in t.items()), "stress group of another material")
        rec.check(sorted(d["material"] for d in sa) == sorted(d["material"] for d in sb), lambda: f"stress groups {[d['material'] for d in sb]}, reference {[d['material'] for d in sa]}")
        tol = 1e-7 * max(np.abs(d["sig_vm"]).max() for d in sa)
        for m in da:
            for k in ("sig_zz", "sig_zx", "sig_zy", "sig_vm", "sig_zx_mzz", "sig_zy_vx"):
                rec.check(np.all(np.abs(da[m][k] - db[m][k]) <= tol), lambda: f"{k} in {m.name} differs between the descriptions by {np.abs(da[m][k] - db[m][k]).max()} (tolerance {tol})")
                rec.step()
    pts = [tuple(map(float, e.coords.mean(axis=1))) for e in sections[0].elements[::3]]
    ta, tb = (s.get_stress_at_points(pts, **act) for s in sections)
    tol = 1e-7 * max(max(map(abs, t)) for t in ta)
    rec.check(all(max(abs(u - v) for u, v in zip(x, y)) <= tol for x, y in zip(ta, tb)), "point stresses differ between the descriptions")
    if case["own"]:
        # each description meshed on its own: geometric and plastic results
        g, _ = described(part, case["ident"])
        obs.mesh(g, {"s": [0.5, 0][case["order"] % 2]}, ref.area_scale(trn(case["tr"])))
        rc = results(Section(g), warp=False)
        compare(rec, "own mesh", rc, {k: ra[k] for k in rc}, L, R, imax, ra["geo"].get("ea", ra["geo"]["area"]), skip=skip)
    rec.state((repr(case["part"]), tuple(case["lab"]), repr(mats), case["tr"], case["order"], case["ident"]))
    rec.outcome(tuple(f"{v:.6e}" for v in ra["warp"].values()))
    rec.trace()


def material_case(case, rec):
    from sectionproperties.analysis import Section
    out = []
    for m in (None, case["mat"]):
        cs = dict(case, regions=[dict(r, mat=m) for r in case["regions"]], tr=trn(case["tr"]))
        g = ref.build(cs, fresh=True)
        obs.mesh(g, case["mesh"], ref.area_scale(trn(case["tr"])))
        s = Section(g)
        out.append((s, results(s)))
    (a, ra), (b, rb) = out
    E, nu, fy, rho = ref.MATS[case["mat"]][1:5]
    rec.check(not a.is_composite() and b.is_composite(), "composite flag")
    rec.check(close(b.get_mass(), ra["geo"]["area"] * rho, 1e-12), "mass is not area times density")

    def factor(k):
        if k[0] == "z" or k[:2] in ("qx", "qy", "as") or (k[0] == "i" and k[:3] in ("ixx", "iyy", "ixy", "i11", "i22")) or k in ("j", "gamma"):
            return E
        if k in ("sxx", "syy", "s11", "s22"):
            return fy
        return 1.0
    L, R = lenscale(cs)
    imax = ra["geo"]["i11"]
    deg = (ra["geo"]["i11"] - ra["geo"]["i22"]) < 1e-6 * imax
    skip = set(PRINC - {"i11", "i22", "r11", "r22"}) if deg else set()
    if nu:
        skip |= {"asx", "asy", "as11", "as22", "x_se", "y_se", "x11_se", "y22_se", "bx+", "bx-", "by+", "by-", "b11+", "b11-", "b22+", "b22-", "gamma"}
    skip |= {k for k in rb["plast"] if k.startswith("sf")}
    compare(rec, f"{case['mat']} everywhere", {k: dict(v) for k, v in ra.items()}, rb, L, R, imax, ra["geo"]["area"], factor, skip)
    g = rb["geo"]
    rec.check(close(g["ea"], E * g["area"], 1e-12) and close(g["e_eff"], E, 1e-12) and close(g["nu_eff"], nu, 1e-9, 1e-12), lambda: f"effective moduli {g}")
    # yield moments and shape factors: the smaller modulus governs
    # (about the global axes only without a product of inertia: yield moments include its effect, section moduli do not)
    pairs = [("myx", "zxx"), ("myy", "zyy")] if abs(ra["geo"]["ixy"]) < 1e-9 * imax else []
    pairs += [] if deg else [("my11", "z11"), ("my22", "z22")]
    for my, z in pairs:
        zmin = min(ra["geo"][z + "+"], ra["geo"][z + "-"])
        rec.check(close(g[my], fy * zmin, 1e-8 + 1e-10 * (R / L) ** 2), lambda: f"{my} = {g[my]!r}, strength times modulus {fy * zmin!r}")
        sf = "sf" + my[2:]
        want = max(ra["plast"][sf + "+"], ra["plast"][sf + "-"])
        for sg in "+-":
            rec.check(close(rb["plast"][sf + sg], want, 1e-7), lambda: f"{sf}{sg} = {rb['plast'][sf + sg]!r}, expected {want!r}")
    rec.step(2 + 6 * len(pairs) // 2)
    rec.state((repr(case["regions"]), case["mat"], case["tr"]))
    rec.outcome((case["mat"], f"{rb['warp']['j']:.6e}"))
    rec.trace()
