"""C08: stresses are linear, equilibrated and combined as documented, for every combination of actions."""
import itertools, math
import numpy as np
from . import ref, obs, fem
from .c01 import labelled
from .c06 import THIN, sq, TN, trn

NEEDS_FEA = True
ALPHABET = ("all 2^8 on/off patterns of (n, mxx, myy, m11, m22, mzz, vx, vy) with signs and magnitudes from a fixed table; sections: add-cell "
            "shapes, labellings with 1-3 materials, rings with fillings, thin-walled outlines, disjoint regions (normal stress patterns), equal "
            "materials as copies, affine maps, meshes")
BOUND = {"quick": "94 connected (including strips of materials that return and sections of up to 12 regions, 9 voids, 8 materials) and 18 disjoint sections; every one of the 255 non-empty action patterns on 24 of them and 40 patterns (each pair of "
                  "actions, singles, all) on the rest; normal-action patterns before and after the warping analysis",
         "thorough": "all connected labellings of a 2x3 box and polyominoes <=4 (about 300 sections) x every non-empty action pattern x 3 tables of magnitudes"}
ORACLE = ("independent FE solution evaluated element-wise at the nodes and averaged per material; its own resultants are checked to equal the "
          "applied actions; combination formulas recomputed from the reference components")

MAG = [dict(n=1e3, mxx=-2.5, myy=4.0, m11=3.0, m22=-7.0, mzz=1.5, vx=-12.0, vy=8.0),
       dict(n=-40.0, mxx=1e4, myy=-3e3, m11=-5e3, m22=2e3, mzz=-6e3, vx=2e3, vy=-1e3),
       dict(n=4e-9, mxx=-5e-10, myy=2e-11, m11=3e-9, m22=-1e-10, mzz=2e-10, vx=-3e-9, vy=7e-11)]
KEYS = ["sig_zz_n", "sig_zz_mxx", "sig_zz_myy", "sig_zz_m11", "sig_zz_m22", "sig_zz_m", "sig_zx_mzz", "sig_zy_mzz", "sig_zxy_mzz",
        "sig_zx_vx", "sig_zy_vx", "sig_zxy_vx", "sig_zx_vy", "sig_zy_vy", "sig_zxy_vy", "sig_zx_v", "sig_zy_v", "sig_zxy_v",
        "sig_zz", "sig_zx", "sig_zy", "sig_zxy", "sig_11", "sig_33", "sig_vm"]


def combined(c):
    """c: components {sig_zz_n, ...} -> every documented key"""
    o = dict(c)
    o["sig_zz_m"] = c["sig_zz_mxx"] + c["sig_zz_myy"] + c["sig_zz_m11"] + c["sig_zz_m22"]
    for k in ("mzz", "vx", "vy"):
        o["sig_zxy_" + k] = np.hypot(c["sig_zx_" + k], c["sig_zy_" + k])
    o["sig_zx_v"] = c["sig_zx_vx"] + c["sig_zx_vy"]; o["sig_zy_v"] = c["sig_zy_vx"] + c["sig_zy_vy"]
    o["sig_zxy_v"] = np.hypot(o["sig_zx_v"], o["sig_zy_v"])
    o["sig_zz"] = c["sig_zz_n"] + o["sig_zz_m"]
    o["sig_zx"] = c["sig_zx_mzz"] + o["sig_zx_v"]; o["sig_zy"] = c["sig_zy_mzz"] + o["sig_zy_v"]
    o["sig_zxy"] = np.hypot(o["sig_zx"], o["sig_zy"])
    r = np.hypot(o["sig_zz"] / 2, o["sig_zxy"])
    o["sig_11"] = o["sig_zz"] / 2 + r; o["sig_33"] = o["sig_zz"] / 2 - r
    o["sig_vm"] = np.sqrt(o["sig_zz"] ** 2 + 3 * o["sig_zxy"] ** 2)
    return o


def sections(q):
    out = []
    for n in range(1, 4 if q else 5):
        for p in ref.polyominoes(n):
            if not ref.corner_touch(p):
                out.append(dict(regions=[ref.region_cells(p, [None, "S", None, "C"][len(out) % 4])]))
    k = 0
    for l in itertools.product((0, 1, 2), repeat=6):
        used = [c for c, v in zip([(x, y) for x in range(2) for y in range(3)], l) if v]
        if not used or not ref.connected(used) or ref.corner_touch(used) or 2 not in l or 1 not in l:
            continue
        k += 1
        if q and k % 12:
            continue
        regs, _ = labelled(2, 3, l)
        if regs:
            out.append(dict(regions=regs, compound=1, fresh=k % 2))
    for o in THIN.values():
        out.append(dict(regions=[dict(ext=o, holes=[], mat=[None, "T"][len(out) % 2])]))
    ring = lambda m: dict(ext=[[0, 0], [5, 0], [5, 4], [0, 4]], holes=[[[1, 1], [2, 1], [2, 2], [1, 2]], [[3, 1], [4, 1], [4, 3], [3, 3]]], mat=m)
    for a, b, c in ((None, "S", "C"), ("C", "S", "S"), ("E", "C", "T"), ("S", "S", "S"), ("K", None, "D"), ("C", "S", None), ("S", "N", "C"), ("N", "M", "S"), ("C", "M", "S")):
        out.append(dict(regions=[ring(a)] + [sq(1, 1, 1, 1, b)] + ([sq(3, 1, 1, 2, c)] if c else []), compound=1, fresh=len(out) % 2))
        out.append(dict(regions=[sq(3, 1, 1, 2, c or "T"), sq(1, 1, 1, 1, b), ring(a)], compound=1, fresh=len(out) % 2))
    for n in (3, 4):   # strips of materials that return after others
        for m in itertools.product("SCM" if n == 3 else "SC", repeat=n):
            if len(set(m)) < n and list(m) != sorted(m, key=m.index):
                out.append(dict(regions=[sq(i, 0, 1, 1 + i % 2, x) for i, x in enumerate(m)], compound=1, fresh=len(out) % 2))
    dis = []
    for a, b in itertools.product((None, "S", "C", "T"), repeat=2):
        dis.append(dict(regions=[sq(0, 0, 2, 1, a), sq(3, 1, 1, 4, b)], compound=1, fresh=len(dis) % 2, disjoint=1))
    big = [dict(b, fresh=j % 2) for j, (_, b) in enumerate(ref.big_sections())]
    return out + dis + big


def cases(tier):
    q = tier == "quick"
    out = []
    for i, s in enumerate(sections(q)):
        ts = [TN[(i * 5) % len(TN)]] if q else [TN[(i * 5) % len(TN)], TN[(i * 3 + 7) % len(TN)]]
        for t in ts:
            out.append(dict(s, tr=t, mesh={"s": [0, 0, 0.4][i % 3]}, full=(not q) or (i % 3 == 0 and len(s["regions"]) < 5), mag=(i // 3) % 3))
    return out


def patterns(full, names):
    allp = [p for r in range(1, len(names) + 1) for p in itertools.combinations(names, r)]
    if full:
        return allp
    return [p for p in allp if len(p) <= 2 or len(p) == len(names)] + [p for p in allp if len(p) == len(names) - 1]


def setup(case):
    from sectionproperties.analysis import Section
    tr = trn(case["tr"])
    g = ref.build(dict(case, tr=tr), fresh=case.get("fresh"))
    obs.mesh(g, case["mesh"], ref.area_scale(tr))
    return Section(g), tr


def reference(sec, shear):
    f = fem.from_section(sec)
    if f.delta < 1e-7 * f.i11:
        f.phi = sec.get_phi()
    if shear:
        f.solve()
    return f, fem.unit_fields(f, shear)


def run_case(case, rec):
    sec, tr = setup(case)
    sec.calculate_geometric_properties()
    shear = not case.get("disjoint")
    f, U = reference(sec, shear)
    x0, x1, y0, y1 = ref.extents(dict(case, tr=tr))
    far = max(abs(v) for v in (x0, x1, y0, y1)) / min(x1 - x0, y1 - y0)
    rt = 1e-8 + 1e-11 * far * far
    if f.delta >= 1e-7 * f.i11:
        rt = max(rt, 1e-12 * f.i11 / f.delta)
    # the reference's own resultants equal the unit actions
    c, s = math.cos(math.radians(f.phi)), math.sin(math.radians(f.phi))
    want = {"n": (0, 1), "mxx": (1, 1), "myy": (2, 1), "vx": (3, 1), "vy": (4, 1), "mzz": (5, 1)}
    L = max(x1 - x0, y1 - y0)
    for a, (sz, tx, ty) in U.items():
        r = fem.resultants(f, (sz, tx, ty))
        if a in want:
            w = np.zeros(6); w[want[a][0]] = 1
        elif a == "m11":
            w = np.array([0, c, s, 0, 0, 0])
        else:
            w = np.array([0, -s, c, 0, 0, 0])
        idx = [0, 1, 2, 3, 4] + ([5] if a in ("n", "mxx", "myy", "m11", "m22", "mzz") else [])
        sc = np.array([1, L, L, 1, 1, L]) * (1 / L if a.startswith("m") else 1)
        assert np.allclose((r / sc)[idx] * (L if a.startswith("m") else 1) / 1, (w / sc)[idx] * (L if a.startswith("m") else 1), atol=1e-6), (a, r, w)
    # groups: one per distinct material, in order of first appearance
    mats = []
    for m in sec.materials:
        if m not in mats:
            mats.append(m)
    gidx = [np.array([i for i, el in enumerate(sec.elements) if el.material == m]) for m in mats]
    nod = [{a: [fem.nodal(f, gi, q) for q in U[a]] for a in U} for gi in gidx]
    mag = MAG[case.get("mag", 0)]
    normal = ("n", "mxx", "myy", "m11", "m22")
    zero = np.zeros(len(f.nodes))
    todo = [(p, False) for p in patterns(case.get("full"), normal)]
    if shear:
        todo += [(p, True) for p in patterns(case.get("full"), fem.ACTIONS)]
    warped = False
    for p, wp in todo:
        if wp and not warped:
            sec.calculate_warping_properties(); warped = True
        act = {a: mag[a] for a in p}
        got = sec.calculate_stress(**act).get_stress()
        rec.step(len(KEYS))
        rec.check([d["material"] for d in got] == [m.name for m in mats], lambda: f"stresses are reported for {[d['material'] for d in got]}, materials are {[m.name for m in mats]}")
        for gi, d in enumerate(got):
            comp = {}
            scale = 0.0
            for a in fem.ACTIONS:
                v = act.get(a, 0.0)
                u = nod[gi].get(a)
                zz, zx, zy = (v * u[0], v * u[1], v * u[2]) if v and u is not None else (zero, zero, zero)
                if a in normal:
                    comp["sig_zz_" + a] = zz
                else:
                    comp["sig_zx_" + a] = zx; comp["sig_zy_" + a] = zy
                scale += max(np.abs(zz).max(), np.abs(zx).max(), np.abs(zy).max())
            want = combined(comp)
            rec.check(set(d) == set(KEYS) | {"material"}, lambda: f"keys {sorted(d)}")
            for k in KEYS:
                w = want[k]
                g = np.asarray(d[k])
                # components: relative to their own magnitude, combinations: to the sum of the magnitudes present
                a = k.split("_")[-1]
                ref_s = np.abs(w).max() if a in fem.ACTIONS and k != "sig_zxy_" + a else scale
                if a in ("mzz", "vx", "vy") and a in act:
                    ref_s = max(np.abs(comp["sig_zx_" + a]).max(), np.abs(comp["sig_zy_" + a]).max())
                elif a in act:
                    ref_s = max(ref_s, abs(act[a]) * max(np.abs(n2[a][0]).max() for n2 in nod) * 1e-3)
                tol = rt * ref_s
                if g.shape != w.shape or not np.all(np.abs(g - w) <= tol):
                    i = int(np.argmax(np.abs(g - w))) if g.shape == w.shape else -1
                    rec.fail(f"{k} of {d['material']} under {act}: node {i} at {sec.mesh_nodes[i].tolist()} {g[i] if i >= 0 else g.shape!r}, expected {w[i]!r}")
        rec.outcome((p, round(float(np.log10(scale + 1e-300)), 6)))
    rec.state((repr(case["regions"]), case["tr"]))
    rec.trace()
