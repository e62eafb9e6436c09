"""C03: every result of a transformed section (same mesh, transformed) follows the tensor transformation laws."""
import itertools, math, dataclasses
import numpy as np
from . import ref, obs
from .c08 import sections
from .core import close

NEEDS_FEA = True
ALPHABET = ("maps x' = k R x + t with R one of the 8 lattice symmetries or a rotation/reflection by 30, 45, 137.5, -10, 359.9, 0.004, -0.05, 0.3, 89.99, 180.001 degrees or atan(3/4), "
            "k in {1e-3, 0.0254, 25.4, 1000}, t up to 1e4 section sizes; modulus x {1e-3, 4.5, 1e6}, strength x {0.2, 30}, density x {7, 1e-9}; "
            "products of two of them")
BOUND = {"quick": "about 95 connected sections (1-8 materials) x 12 of 42 transformations each (every transformation used on at least 18 sections), "
                  "all geometric, warping, plastic results and 9 load cases compared",
         "thorough": "about 290 connected sections x all 42 transformations"}
ORACLE = "tensor transformation of the base section's own results; the transformed section uses the base mesh mapped node by node"


def rot(d):
    a = math.radians(d)
    c, s = round(math.cos(a), 16), round(math.sin(a), 16)
    if d % 90 == 0:
        c, s = round(c), round(s)
    return [[c, -s], [s, c]]


def refl(d):
    """reflection about the axis at angle d"""
    a = math.radians(2 * d)
    c, s = math.cos(a), math.sin(a)
    if (2 * d) % 90 == 0:
        c, s = round(c), round(s)
    return [[c, s], [s, -c]]


I2 = [[1, 0], [0, 1]]
XF = []


def add(name, R=I2, k=1.0, t=(0, 0), mu=1.0, fy=1.0, rho=1.0):
    XF.append(dict(name=name, R=R, k=k, t=t, mu=mu, fy=fy, rho=rho))


add("shift", t=(3.25, -7.5)); add("far", t=(1e4, -4e3)); add("neg", t=(-100, -50))
for d in (90, 180, 270):
    add(f"rot{d}", rot(d))
for d in (30, 45, 137.5, -10, 359.9):
    add(f"rot{d}", rot(d), t=(1.5, 0.5))
add("rot345", [[0.6, -0.8], [0.8, 0.6]], t=(-2, 5))
for d in (0.004, -0.05, 0.3, 89.99, 180.001):  # nearly aligned axes must not be taken for aligned ones
    add(f"tilt{d}", rot(d), t=(0.5, -0.25) if d < 0 else (0, 0))
for d in (0, 45, 90, 135, 20, 71):
    add(f"mir{d}", refl(d), t=(0, 0) if d < 20 else (4, -1))
for k in (1e-3, 0.0254, 25.4, 1000):
    add(f"scale{k}", k=k)
for m in (1e-3, 4.5, 1e6):
    add(f"mod{m}", mu=m)
add("fy.2", fy=0.2); add("fy30", fy=30.0); add("rho7", rho=7.0); add("rho-9", rho=1e-9)
add("unit", k=1e-3, mu=1e6, fy=1e6, rho=1e9)
add("rs", rot(90), k=25.4, t=(100, 30)); add("ms", refl(90), k=1e-3, t=(0.02, -0.01)); add("rm", rot(33), mu=4.5, fy=0.2)
add("mm", refl(45), k=2.0, mu=1e-3, fy=30.0, rho=3.0); add("tr", rot(270), t=(1e3, 1e3)); add("tm", refl(0), t=(-300, 700))
add("s180", rot(180), k=0.5, t=(-7, 9))


def cases(tier):
    q = tier == "quick"
    out = []
    secs = [s for s in sections(q) if not s.get("disjoint")]
    for i, s in enumerate(secs):
        todo = range(len(XF)) if not q else sorted({(i * 5 + 3 * j) % len(XF) for j in range(12)})
        for j in todo:
            out.append(dict(s, tr=["id", "mix", "shear"][i % 3], mesh={"s": [0, 0.5][(i // 2) % 2]}, x=XF[j]["name"]))
    return out


def transformed(geom, x, case):
    """geometry with mapped regions and mapped mesh"""
    from shapely import Polygon
    from sectionproperties.pre import CompoundGeometry, Geometry, Material
    from sectionproperties.pre.pre import DEFAULT_MATERIAL
    R = np.array(x["R"], float); k = x["k"]; t = np.array(x["t"], float)
    f = lambda P: k * (np.asarray(P, float) @ R.T) + t
    gs = geom.geoms if isinstance(geom, CompoundGeometry) else [geom]
    memo = {}

    def mat(m):
        if m is DEFAULT_MATERIAL or (x["mu"] == x["fy"] == x["rho"] == 1):
            return m
        if id(m) not in memo:
            memo[id(m)] = Material(m.name, m.elastic_modulus * x["mu"], m.poissons_ratio, m.yield_strength * x["fy"], m.density * x["rho"], m.color)
        return memo[id(m)]
    new = [Geometry(Polygon(f(g.geom.exterior.coords[:-1]), [f(r.coords[:-1]) for r in g.geom.interiors]), mat(g.material), tol=15) for g in gs]
    ng = CompoundGeometry(new) if isinstance(geom, CompoundGeometry) else new[0]
    ng.mesh = dict(geom.mesh)
    ng.mesh["vertices"] = f(geom.mesh["vertices"])
    if np.linalg.det(R) < 0:
        ng.mesh["triangles"] = np.array(geom.mesh["triangles"])[:, [0, 2, 1, 3, 5, 4]]
    return ng


def run_case(case, rec):
    from sectionproperties.analysis import Section
    x = next(v for v in XF if v["name"] == case["x"])
    if ref.is_composite(case) and (x["mu"], x["fy"], x["rho"]) != (1, 1, 1):
        # the default material has no modulus to scale: give these regions a material with the same numbers
        case = dict(case, regions=[dict(r, mat=r["mat"] if r["mat"] not in (None, "D") else "U") for r in case["regions"]])
    g = ref.build(case, fresh=case.get("fresh"))
    obs.mesh(g, case["mesh"], ref.area_scale(case["tr"]))
    a = Section(g)
    if not a.is_composite() and (x["mu"] != 1 or x["fy"] != 1 or x["rho"] != 1):
        x = dict(x, mu=1.0, fy=1.0, rho=1.0)
    b = Section(transformed(g, x, case))
    res = []
    for s in (a, b):
        s.calculate_geometric_properties(); s.calculate_warping_properties(); s.calculate_plastic_properties()
        fr = tuple(map(float, s.calculate_frame_properties()))
        res.append((obs.geo(s), obs.warp(s), obs.plast(s), fr))
        rec.step(4)
    (ga, wa, pa, fa), (gb, wb, pb, fb) = res
    comp = a.is_composite()
    R = np.array(x["R"], float); k = x["k"]; t = np.array(x["t"], float)
    det = round(np.linalg.det(R)); mu, fy, rho = x["mu"], x["fy"], x["rho"]
    perm = np.all(np.abs(R) == np.round(np.abs(R)))
    if not comp:
        assert mu == fy == rho == 1
    ea = "ea" if comp else "area"
    x0, x1, y0, y1 = ref.extents(case)
    L = max(x1 - x0, y1 - y0)
    far = max(max(abs(v) for v in (x0, x1, y0, y1)) / L, (np.abs(t).max() / (k * L)))
    imax = ga["i11"]
    rt = 1e-9 + 3e-12 * far * far
    delta = ga["i11"] - ga["i22"]
    degenerate = delta < 1e-5 * imax
    rp = max(rt, 1e-12 * (1 + far * far) * imax / delta) if not degenerate else rt

    def eq(nm, got, want, r=rt, at=0.0):
        rec.step()
        if not close(float(got), float(want), r, at):
            rec.fail(f"{case['x']}: {nm} = {float(got)!r}, transformation of the base result gives {float(want)!r}")

    def vec(nm, got, want, r=rt, at=0.0):
        for c, u, v in zip("xy", got, want):
            eq(f"{nm}.{c}", u, v, r, at)
    pt = lambda p: k * (R @ np.array(p)) + t
    ten = lambda xx, yy, xy: R @ np.array([[yy, xy], [xy, xx]]) @ R.T  # [[int x^2, int xy],[.., int y^2]]
    lt = rt * k * L * (1 + far)
    eq("area", gb["area"], ga["area"] * k * k)
    eq("perimeter", gb["perimeter"], ga["perimeter"] * k)
    if comp:
        eq("mass", gb["mass"], ga["mass"] * rho * k * k)
        eq("ea", gb["ea"], ga["ea"] * k * k * mu)
    vec("c", (gb["cx"], gb["cy"]), pt((ga["cx"], ga["cy"])), rt, lt)
    c_a, c_b = np.array((ga["cx"], ga["cy"])), np.array((gb["cx"], gb["cy"]))
    qa = np.array((ga["qy"], ga["qx"]))  # (int x, int y)
    vec("q", (gb["qy"], gb["qx"]), mu * k * k * (k * R @ qa + t * ga[ea]), rt, lt * ga[ea] * mu * k * k)
    Ig = ten(ga["ixx_g"], ga["iyy_g"], ga["ixy_g"])
    Rq = R @ qa
    Ig = mu * k * k * (k * k * Ig + k * (np.outer(Rq, t) + np.outer(t, Rq)) + np.outer(t, t) * ga[ea])
    at = rt * np.abs(Ig).max()
    eq("ixx_g", gb["ixx_g"], Ig[1, 1], rt, at); eq("iyy_g", gb["iyy_g"], Ig[0, 0], rt, at); eq("ixy_g", gb["ixy_g"], Ig[0, 1], rt, at)
    Ic = mu * k ** 4 * ten(ga["ixx"], ga["iyy"], ga["ixy"])
    at = rt * np.abs(Ic).max()
    eq("ixx", gb["ixx"], Ic[1, 1], rt, at); eq("iyy", gb["iyy"], Ic[0, 0], rt, at); eq("ixy", gb["ixy"], Ic[0, 1], rt, at)
    fI = mu * k ** 4
    for key in ("i11", "i22"):
        eq(key, gb[key], ga[key] * fI, rt, at)
    for key in ("r11", "r22"):
        eq(key, gb[key], ga[key] * k, rt * 10)
    eq("rx", gb["rx"], k * math.sqrt(Ic[1, 1] / fI / ga[ea]), rt * 10); eq("ry", gb["ry"], k * math.sqrt(Ic[0, 0] / fI / ga[ea]), rt * 10)
    # frame analysis
    for nm, got, want, r in (("area", fb[0], fa[0] * k * k, rt), ("ixx", fb[1], Ic[1, 1], rt), ("iyy", fb[2], Ic[0, 0], rt), ("ixy", fb[3], Ic[0, 1], rt), ("j", fb[4], fa[4] * fI, 10 * rt)):
        eq("frame " + nm, got, want, r, at if nm in ("ixx", "iyy", "ixy") else 0)
    # principal axes
    s1 = s2 = None
    if not degenerate:
        d = lambda ph: np.array([math.cos(math.radians(ph)), math.sin(math.radians(ph))])
        e = d(gb["phi"]); Re = R @ d(ga["phi"])
        dot = float(e @ Re)
        rec.check(abs(abs(dot) - 1) < 1e-9 + 1e-9 * far, lambda: f"{case['x']}: principal axis at {gb['phi']}, base {ga['phi']}")
        s1 = 1 if dot > 0 else -1
        s2 = s1 * det
        e1, e2 = e, np.array([-e[1], e[0]])
        z = lambda p, nm, s: p[nm] if s > 0 else p[nm[:-1] + ("-" if nm[-1] == "+" else "+")]
        for nm, s in (("z11+", s2), ("z11-", s2), ("z22+", s1), ("z22-", s1)):
            eq(nm, gb[nm], z(ga, nm, s) * mu * k ** 3, rp * 10)
            eq("sf" + nm[1:], pb["sf" + nm[1:]], z(pa, "sf" + nm[1:], s), rp * 10 + 1e-8)
        if comp:
            eq("my11", gb["my11"], ga["my11"] * fy * k ** 3, rp * 10); eq("my22", gb["my22"], ga["my22"] * fy * k ** 3, rp * 10)
        for nm in ("s11", "s22"):
            eq(nm, pb[nm], pa[nm] * k ** 3 * fy, 1e-8 + rp * 10)
        vec("pc_p", (pb["x11_pc"], pb["y22_pc"]), pt((pa["x11_pc"], pa["y22_pc"])), rt, 1e-5 * L * k + lt)
        vec("sc_p", (wb["x11_se"], wb["y22_se"]), (s1 * k * wa["x11_se"], s2 * k * wa["y22_se"]), rt, 10 * rp * L * k)
        for nm, s in (("b11", s2), ("b22", s1)):
            for sg in "+-":
                eq(nm + sg, wb[nm + sg], s * k * wa[nm + sg], rt, 100 * rp * L * k)
        for nm in ("as11", "as22"):
            eq(nm, wb[nm], wa[nm] * mu * k * k, 100 * rp)
    if perm:
        ax = {"x": "x", "y": "y"} if R[0, 0] else {"x": "y", "y": "x"}  # axis in the base for an axis of the transformed one
        # quantity about x (extent along y): direction sign of the y axis
        sy = R[1, 1] if R[0, 0] else R[1, 0]
        sx = R[0, 0] if R[0, 0] else R[0, 1]
        fl = lambda sg, s: sg if s > 0 else ("-" if sg == "+" else "+")
        for sg in "+-":
            eq("zxx" + sg, gb["zxx" + sg], ga[f"z{ax['x'] * 2}{fl(sg, sy)}"] * mu * k ** 3, rt * 10)
            eq("zyy" + sg, gb["zyy" + sg], ga[f"z{ax['y'] * 2}{fl(sg, sx)}"] * mu * k ** 3, rt * 10)
            eq("sfx" + sg, pb["sfx" + sg], pa[f"sf{ax['x']}{fl(sg, sy)}"], rt * 10 + 1e-8)
            eq("sfy" + sg, pb["sfy" + sg], pa[f"sf{ax['y']}{fl(sg, sx)}"], rt * 10 + 1e-8)
        for nm in "xy":
            eq(f"s{nm * 2}", pb[f"s{nm * 2}"], pa[f"s{ax[nm] * 2}"] * k ** 3 * fy, 1e-8 + rt * 10)
            eq(f"as{nm}", wb[f"as{nm}"], wa[f"as{ax[nm]}"] * mu * k * k, 100 * rt)
            if comp:
                eq(f"my{nm}", gb[f"my{nm}"], ga[f"my{ax[nm]}"] * fy * k ** 3, rt * 10)
        vec("pc", (pb["x_pc"], pb["y_pc"]), pt((pa["x_pc"], pa["y_pc"])), rt, 1e-5 * L * k + lt)
    if comp:
        eq("nu_eff", gb["nu_eff"], ga["nu_eff"]); eq("e_eff", gb["e_eff"], ga["e_eff"] * mu); eq("g_eff", gb["g_eff"], ga["g_eff"] * mu)
    # warping
    at_j = 10 * rt * fI * ga["i11"]
    eq("j", wb["j"], wa["j"] * fI, 10 * rt, 0 if far < 100 else at_j)
    eq("gamma", wb["gamma"], wa["gamma"] * mu * k ** 6, 100 * rt, 1e-11 * (1 + far * far) * fI * ga["i11"] * (k * L) ** 2)
    vec("sc", (wb["x_se"], wb["y_se"]), pt((wa["x_se"], wa["y_se"])), rt, 10 * lt)
    vec("sc_t", (wb["x_st"], wb["y_st"]), pt((wa["x_st"], wa["y_st"])), rt, 10 * lt)
    eq("1/asx + 1/asy", 1 / wb["asx"] + 1 / wb["asy"], (1 / wa["asx"] + 1 / wa["asy"]) / (mu * k * k), 100 * rt)
    if not degenerate:
        eq("1/as11 + 1/as22", 1 / wb["as11"] + 1 / wb["as22"], 1 / wb["asx"] + 1 / wb["asy"], 100 * rt)
    mom = lambda g, w: np.array([(2 * (w["x_se"] - g["cx"]) - w["by+"]) * g["iyy"], (2 * (w["y_se"] - g["cy"]) - w["bx+"]) * g["ixx"]])
    vec("monosymmetry integrals", mom(gb, wb), mu * k ** 5 * (R @ mom(ga, wa)), rt * 100, 100 * rt * fI * ga["i11"] * k * L)
    for nm in ("bx", "by"):
        eq(nm + "-", wb[nm + "-"], -wb[nm + "+"], 0)
    # stresses
    loads = [dict(n=3.0), dict(mxx=2.0), dict(myy=-1.5), dict(mzz=4.0), dict(vx=1.0), dict(vy=-2.0), dict(n=1.0, mxx=-3.0, myy=2.0, mzz=1.0, vx=5.0, vy=3.0)]
    if not degenerate:
        loads += [dict(m11=2.5), dict(m22=-1.0), dict(n=-1.0, m11=1.0, m22=2.0, mxx=1.0, vy=1.0)]
    for ld in loads:
        v = lambda nm: ld.get(nm, 0.0)
        q_ = k ** 3 * (R @ np.array([-v("myy"), v("mxx")]))
        V = k * k * (R @ np.array([v("vx"), v("vy")]))
        l2 = dict(n=v("n") * k * k, mxx=q_[1], myy=-q_[0], mzz=det * k ** 3 * v("mzz"), vx=V[0], vy=V[1])
        if s1:
            l2.update(m11=s2 * k ** 3 * v("m11"), m22=s1 * k ** 3 * v("m22"))
        sa = a.calculate_stress(**ld).get_stress(); sb = b.calculate_stress(**{kk: float(vv) for kk, vv in l2.items()}).get_stress()
        for da, db in zip(sa, sb):
            tol = (rp if s1 and ("m11" in ld or "m22" in ld) else rt) * 100 * max(np.abs(d["sig_vm"]).max() for d in sa)
            for nm in ("sig_zz", "sig_zxy", "sig_11", "sig_33", "sig_vm"):
                bad = np.abs(db[nm] - da[nm]) > tol
                rec.check(not bad.any(), lambda: f"{case['x']}: {nm} under {ld}: {db[nm][bad][0]!r}, base {da[nm][bad][0]!r}")
            T = np.stack([da["sig_zx"], da["sig_zy"]], 1) @ R.T
            Tb = np.stack([db["sig_zx"], db["sig_zy"]], 1)
            rec.check(np.all(np.abs(T - Tb) <= tol), lambda: f"{case['x']}: shear stress vectors under {ld} do not turn with the section")
            rec.step(7)
    rec.state((repr(case["regions"]), case["tr"], case["x"]))
    rec.outcome(tuple(f"{v:.6e}" for v in (*gb.values(), *wb.values())))
    rec.trace()

