"""C07: yield moments are the smallest moments that bring any fibre of any region to yield."""
import itertools, math
import numpy as np
from fractions import Fraction as F
from . import ref, obs
from .c01 import labelled
from .c06 import THIN, sq, TN, trn
from .core import close

NEEDS_FEA = True
ALPHABET = ("void/material labellings, two- and three-region sections (stacked, side by side, nested, disjoint) with materials of different "
            "stiffness/strength ratio, shared material objects or equal copies, region order permutations, affine maps, mesh sizes")
BOUND = {"quick": "all 3^6 labellings of a 2x3 box x 1 map; 6^2 + 6^3 material assignments x 4 layouts x {shared, copied} materials x all region "
                  "orders (one map each); 6 thin-walled outlines x 22 maps x 2 meshes; 14 sections of many parts (see C01) x 3 maps",
         "thorough": "all 3^8 labellings of a 2x4 box and 3x3 rings; material assignments x 4 layouts x {shared, copied} x all orders x 4 maps x 2 meshes; thin-walled x 22 maps x 4 meshes; 14 sections of many parts x 12 maps"}
ORACLE = ("1 / max over region vertices of |elastic bending stress per unit moment| / yield strength with exact section moments; and the stress "
          "analysis under that moment reaches a largest stress/strength ratio of exactly 1")

EXTRA = {"A": ("alpha", 200.0, 0.3, 40.0, 1.0, "r"), "B": ("beta", 10.0, 0.1, 0.01, 1.0, "b")}


def cases(tier):
    q = tier == "quick"
    ref.MATS.update(EXTRA)
    out = []
    k = 0
    w, h = (2, 3) if q else (2, 4)
    boxes = [(w, h, l) for l in itertools.product((0, 1, 2), repeat=w * h) if any(l)]
    if not q:
        boxes += [(3, 3, l) for l in itertools.product((0, 1, 2), repeat=9) if all(l[i] for i in (0, 1, 2, 3, 5, 6, 7, 8))]
    for j, (bw, bh, l) in enumerate(boxes):
        regs, _ = labelled(bw, bh, l)
        if regs is None:
            continue
        if j % 3 == 0:
            regs = regs[::-1]
        out.append(dict(regions=regs, tr=TN[j % len(TN)], compound=1, mesh={"s": [0, 0.4][j % 2]}, fresh=j % 5 == 0))
    for name, o in THIN.items():
        for t in TN:
            for m in (0, 0.5, 0.2, 5)[:2 if q else 4]:
                k += 1
                out.append(dict(regions=[dict(ext=o, holes=[], mat="SCTK"[k % 4])], tr=t, mesh={"s": m}, fresh=k % 2))
    for j, (_, b) in enumerate(ref.big_sections()):
        for i in range(3 if q else 12):
            out.append(dict(b, tr=TN[(j * 3 + i * 7) % len(TN)], mesh={"s": [0, 0.3][i % 2]}, fresh=(i + j) % 2))
    MS = (None, "S", "C", "A", "B", "K")
    lay2 = [lambda m: [sq(0, 0, 2, 1, m[0]), sq(0, 1, 1, 3, m[1])],
            lambda m: [sq(0, 0, 4, 1, m[0]), sq(6, 1, 1, 3, m[1])]]
    lay3 = [lambda m: [sq(0, 0, 4, 1, m[0]), sq(1, 1, 1, 2, m[1]), sq(0, 3, 5, 1, m[2])],
            lambda m: [dict(ext=[[0, 0], [5, 0], [5, 4], [0, 4]], holes=[[[1, 1], [2, 1], [2, 2], [1, 2]], [[3, 1], [4, 1], [4, 3], [3, 3]]], mat=m[0]),
                       sq(1, 1, 1, 1, m[1]), sq(3, 1, 1, 2, m[2])]]
    i = 0
    for n, lays in ((2, lay2), (3, lay3)):
        # S, N and M share their name and colour
        for ms in list(itertools.product(MS, repeat=n)) + [m for m in itertools.product("SNM" if n == 2 else "SNC", repeat=n) if len(set(m) & set("SNM")) > 1]:
            if not any(ms):
                continue
            for lay in lays:
                for fresh in (0, 1):
                    for o in itertools.permutations(range(n)):
                        i += 1
                        if q and n == 3 and i % 4:
                            continue
                        regs = [lay(ms)[j] for j in o]
                        for a in range(1 if q else 4):
                            out.append(dict(regions=regs, tr=TN[(i * 5 + a * 7) % len(TN)], mesh={"s": [0, 0.6][i % 2]}, compound=1, fresh=fresh))
    return out


def run_case(case, rec):
    ref.MATS.update(EXTRA)
    tr = trn(case["tr"])
    cs = dict(case, tr=tr)
    if not ref.is_composite(cs):
        case = dict(case)
    g = ref.build(cs, fresh=case.get("fresh"))
    obs.mesh(g, case["mesh"], ref.area_scale(tr))
    from sectionproperties.analysis import Section
    sec = Section(g)
    sec.calculate_geometric_properties()
    rec.step(2)
    if not ref.is_composite(cs):
        for f in (sec.get_my, sec.get_my_p):
            try:
                f()
                rec.fail("yield moment returned for a geometric-only section")
            except RuntimeError:
                rec.outcome("refused")
        rec.trace()
        return
    p = ref.area_props(cs)
    phi = math.radians(sec.get_phi())
    c, s = math.cos(phi), math.sin(phi)
    D = p["ixx"] * p["iyy"] - p["ixy"] ** 2
    best = [0.0] * 4
    for e, hs, m in ref.exact_regions(cs):
        mv = ref.matvals(m)
        for r in [e] + hs:
            for x, y in r:
                x = float(x) - p["cx"]; y = float(y) - p["cy"]
                x11, y22 = x * c + y * s, y * c - x * s
                sg = (mv["E"] * (-p["ixy"] * x + p["iyy"] * y) / D, mv["E"] * (-p["ixx"] * x + p["ixy"] * y) / D,
                      mv["E"] * y22 / p["i11"], mv["E"] * x11 / p["i22"])
                best = [max(b, abs(v) / mv["fy"]) for b, v in zip(best, sg)]
    got = list(sec.get_my()) + list(sec.get_my_p())
    x0, x1, y0, y1 = ref.extents(cs)
    far = max(abs(v) for v in (x0, x1, y0, y1)) / min(x1 - x0, y1 - y0)
    rt = 1e-9 + 1e-11 * far * far
    # the principal axis angle is only defined to round-off; a nearly degenerate pair amplifies it
    for nm, v, b in zip(("my_xx", "my_yy", "my_11", "my_22"), got, best):
        rec.step()
        rec.check(close(v, 1 / b, rt), lambda: f"{nm}: got {v!r}, first yield at {1 / b!r}")
    # stress analysis under the yield moment; one result per distinct material, in order of first appearance
    mats = list(dict.fromkeys(sec.materials))
    for nm, act, v in zip(("xx", "yy", "11", "22"), ("mxx", "myy", "m11", "m22"), got):
        sp = sec.calculate_stress(**{act: v})
        worst = 0.0
        for mg in sp.material_groups:
            sg = np.asarray(mg.stress_result.sig_zz)
            worst = max(worst, float(np.max(np.abs(sg))) / mg.material.yield_strength)
        st = sp.get_stress()
        rec.check([d["material"] for d in st] == [m.name for m in mats], lambda: f"stresses are reported for {[d['material'] for d in st]}, materials are {[m.name for m in mats]}")
        w2 = max(float(np.max(np.abs(d["sig_zz"]))) / m.yield_strength for d, m in zip(st, mats))
        rec.step(2)
        rec.check(close(worst, 1, 10 * rt) and close(w2, 1, 10 * rt), lambda: f"under my_{nm} the largest stress/strength is {worst!r} / {w2!r}, not 1")
    rec.state((repr(case["regions"]), case["tr"], case.get("fresh")))
    rec.outcome(tuple(round(math.log10(v), 4) for v in got))
    rec.trace()

