"""C30: invalid input is rejected with the documented error and leaves every object as it was."""
import contextlib, hashlib, io, itertools, os, tempfile
import numpy as np
from . import ref, obs, gref
from .c05 import HS
from .c06 import trn, sq
from .c10 import LSH, CMP, TEE, THREE, HOLE
from .core import close

NEEDS_FEA = True
CHUNK = 2
ALPHABET = ("valid: mesh, Section, G (geometric), W/w (warping direct/iterative), P (plastic), F (frame), S (stress); invalid: about 60 calls the documentation rejects: geometries that are not "
            "polygons, inconsistent points, facets, control points and materials, wrong mesh size lists, alignments, lines, offsets, boolean operands, files, sections without mesh or with "
            "other regions than the mesh, solver names, premature or unsuitable analyses and results, fibre exports, quadrature orders, positions outside the section, subplots")
BOUND = {"quick": "6 sections x all valid histories of length <=2 (geometry) and <=3 (analysis) x every invalid call, then all ordered pairs of invalid calls, then the remaining valid history",
         "thorough": "11 sections, histories of length <=4, all ordered pairs in every state, triples after the longest history"}
ORACLE = ("the documented exception type; snapshots of the geometry (outline, points, facets, holes, control points, materials), mesh and all section results "
          "are identical before and after; the valid history ends in exactly the results of the same history without invalid calls")

SECS = [dict(regions=LSH), dict(regions=CMP, compound=1), dict(regions=HOLE), dict(regions=THREE, compound=1), dict(regions=[sq(0, 0, 2, 1, None), sq(0, 1, 1, 1, None)], compound=1),
        dict(regions=[dict(r, mat="S") for r in LSH]),
        dict(regions=TEE, compound=1), dict(regions=[sq(0, 0, 1, 1, "S"), sq(3, 0, 1, 1, "C")], compound=1), dict(regions=[dict(r, mat="U") for r in HOLE]), dict(regions=[dict(CMP[0], mat=None), CMP[1]], compound=1),
        dict(regions=[sq(0, 0, 2, 3, "D")])]
GEO = ["", "m", "mm"]
ANA = ["", "G", "GW", "Gw", "GP", "F", "FG", "GF", "GS", "GWS", "GWP", "GPW", "GWG", "FGP", "GPG", "GGW"]
DEEP = ["GWPS", "GPWS", "GWSP", "FGWS", "GFWP", "GwPS"]
FRAME = {"area", "ea", "ga", "qx", "qy", "cx", "cy", "ixx_g", "iyy_g", "ixy_g", "ixx_c", "iyy_c", "ixy_c", "i11_c", "i22_c", "phi", "mass", "perimeter", "nu_eff", "e_eff", "g_eff"}
ERR = {"V": ValueError, "R": RuntimeError, "T": TypeError}


def cases(tier):
    q = tier == "quick"
    out = []
    for k, s in enumerate(SECS[:6] if q else SECS):
        base = dict(s, tr=["mix", "id", "rot345"][k % 3], mesh={"s": 0}, timeout=600 if q else 1800)
        out += [dict(base, hist=h, kind="geometry", pairs=1) for h in GEO]
        for h in ANA + ([] if q else DEEP):
            out.append(dict(base, hist=h, kind="section", pairs=int(not q or h in ("", "G", "GWS", "GWP", "F")), triples=int(not q and h == "GWPS")))
    out.append(dict(kind="free"))
    return out


# ---------------------------------------------------------------- the invalid calls
def free_calls(d):
    """Invalid calls that need no object."""
    import shapely
    from shapely import LineString, MultiPolygon, Point, Polygon
    from sectionproperties.pre import CompoundGeometry, Geometry
    from sectionproperties.analysis.fea import gauss_points
    import sectionproperties.pre.library as L
    b = shapely.box(0, 0, 1, 1)
    p = [(0, 0), (1, 0), (1, 1), (0, 1), (2, 0), (3, 0), (3, 1), (2, 1)]
    f = [(0, 1), (1, 2), (2, 3), (3, 0)]; f2 = f + [(4, 5), (5, 6), (6, 7), (7, 4)]
    nest = [(0, 0), (9, 0), (9, 9), (0, 9), (1, 1), (2, 1), (2, 2), (1, 2)]
    m = ref.material("S")
    out = [(f"Geometry({type(x).__name__})", "V", lambda x=x: Geometry(x)) for x in
           (MultiPolygon([b, shapely.box(2, 0, 3, 1)]), MultiPolygon([b]), LineString([(0, 0), (1, 1)]), Point(0, 0), None, "POLYGON ((0 0, 1 0, 0 1, 0 0))", 3.0, [(0, 0), (1, 0), (0, 1)],
            shapely.GeometryCollection([b]), b.exterior)]
    out += [(f"Geometry.from_points with {len(c)} control points", "V", lambda c=c: Geometry.from_points(p, f, c)) for c in ([], [(0.5, 0.5), (0.2, 0.2)], [(0.5, 0.5)] * 3)]
    out += [(f"CompoundGeometry.from_points of {len(ff) // 4} regions with {len(c)} control points", "V", lambda ff=ff, c=c: CompoundGeometry.from_points(p, ff, c))
            for ff, c in ((f2, [(0.5, 0.5)]), (f, [(0.5, 0.5), (2.5, 0.5)]), (f2, [(0.5, 0.5), (2.5, 0.5), (0.2, 0.2)]), (f2, [(2.5, 0.5)]))]
    out += [(f"CompoundGeometry.from_points with {n} control points and {k} materials", "V", lambda n=n, k=k: CompoundGeometry.from_points(p, f2, [(0.5, 0.5), (2.5, 0.5)][:n], materials=[m] * k))
            for n, k in ((2, 1), (2, 3), (0, 2), (0, 1), (1, 2))]
    out += [("control point in the hole", "V", lambda: CompoundGeometry.from_points(nest, f2, [(20, 20)], holes=[(1.5, 1.5)]))]
    out += [(f"gauss_points({n})", "V", lambda n=n: gauss_points(n=n)) for n in (-1, 0, 2, 5, 7, 12)]
    out += [("from_dxf of a missing file", "V", lambda: Geometry.from_dxf(os.path.join(d, "missing.dxf"))),
            ("CompoundGeometry.from_dxf of a missing file", "V", lambda: CompoundGeometry.from_dxf(os.path.join(d, "missing.dxf")))]
    out += [("angle_section with a toe radius above its thickness", "V", lambda: L.angle_section(d=10, b=8, t=1, r_r=1, r_t=1.01, n_r=4)),
            ("polygon_hollow_section with two sides", "V", lambda: L.polygon_hollow_section(d=10, t=1, n_sides=2)),
            ("super T girder of type 6", "V", lambda: L.super_t_girder_section(girder_type=6)), ("super T girder of subtype 3", "V", lambda: L.super_t_girder_section(girder_type=1, girder_subtype=3)),
            ("I girder of type 5", "V", lambda: L.i_girder_section(girder_type=5))]
    return out


def geometry_calls(case, g, others):
    from sectionproperties.analysis import Section
    from sectionproperties.post.fibre import to_fibre_section
    out = []
    comp = bool(case.get("compound"))
    if not comp:
        out += [(f"create_mesh({x!r})", "V", lambda x=x: g.create_mesh(x)) for x in ([], [0.1, 0.1], (0.1,), "0.1", None)]
        out += [(f"offset_perimeter(0.01, {w!r})", "V", lambda w=w: g.offset_perimeter(0.01, w)) for w in ("inside", "", "Exterior")]
    else:
        # one size, or one per region
        n = len(case["regions"])
        out += [(f"create_mesh of {n} regions with {k} sizes", "M", lambda k=k: g.create_mesh([0.1] * k)) for k in {0, 2, n - 1} if k < n and k != 1]
    if case["void"] == 0:
        out += [(f"offset_perimeter({a}, 'interior')", "V", lambda a=a: g.offset_perimeter(a, "interior")) for a in (0.01, -0.01)]
    out += [(f"align_center({x!r})", "V", lambda x=x: g.align_center(x)) for x in (5, (1,), (1, 2, 3), "a")]
    out += [("split_section((0, 0))", "V", lambda: g.split_section((0, 0)))]
    out += [(f"boolean operation {n} with {x!r}", "A", lambda o=o, x=x: o(g, x)) for n, o in BOOL for x in (5, "a", None)]
    out += [("Section without a mesh", "V", lambda: Section(others["plain"])), ("Section with a mesh of more regions", "V", lambda: Section(others["more"])),
            ("Section with a mesh of fewer regions", "V", lambda: Section(others["fewer"]))]
    out += [("to_fibre_section of a geometry without a mesh", "V", lambda: to_fibre_section(others["plain"]))]
    if case["hist"] or case["kind"] == "section":
        out += [(f"to_fibre_section(analysis_type={x!r})", "V", lambda x=x: to_fibre_section(g, analysis_type=x)) for x in ("", "1D", "4D", "3DO", "fibre")]
    out += [(f"to_fibre_section({type(x).__name__})", "T", lambda x=x: to_fibre_section(x)) for x in (5, "section", None, [g], g.geom)]
    out += [("plot_geometry(nrows=2, axis_index=5)", "V", lambda: g.plot_geometry(nrows=2, axis_index=5, render=False))]
    return out


BOOL = [("union", lambda a, b: a | b), ("symmetric difference", lambda a, b: a ^ b), ("difference", lambda a, b: a - b), ("intersection", lambda a, b: a & b)]


def section_calls(case, s):
    """Invalid calls in the state reached by case['hist'] (the state decides which calls are premature)."""
    h = case["hist"]
    comp = s.is_composite()
    geo = "G" in h
    warp = "W" in h or "w" in h
    out = [(f"calculate_warping_properties({x!r})", "V" if geo else "R", lambda x=x: s.calculate_warping_properties(solver_type=x)) for x in ("", "CGS", "lu", "Direct")]
    if not geo and "F" not in h:
        out += [("premature stress analysis", "R", lambda: s.calculate_stress(n=1)), ("premature plastic analysis", "R", s.calculate_plastic_properties),
                ("premature warping analysis", "R", s.calculate_warping_properties)]
        out += [(f"premature {n}", "R", getattr(s, n)) for n in ("get_area", "get_c", "get_perimeter", "get_phi", "get_rc")]
    if not warp:
        out += [(f"premature stress analysis with {k}", "R", lambda k=k: s.calculate_stress(**{k: 1.0})) for k in ("vx", "vy", "mzz")]
        out += [(f"premature {n}", "R", getattr(s, n)) for n in ("get_sc", "get_sc_t", "get_beta", "get_gamma" if not comp else "get_egamma") + (("plot_warping_function",) if "F" not in h else ())]
    if "P" not in h:
        out += [(f"premature {n}", "R", getattr(s, n)) for n in ("get_pc", "get_sf", "get_s" if not comp else "get_mp")]
    out += [(f"{n} on the other kind of section", "R", getattr(s, n)) for n in
            (("get_q", "get_ig", "get_ic", "get_z", "get_ip", "get_zp", "get_j", "get_gamma", "get_as", "get_s", "get_sp") if comp else
             ("get_mass", "get_ea", "get_eq", "get_eig", "get_eic", "get_ez", "get_eip", "get_ezp", "get_ej", "get_egamma", "get_eas", "get_mp", "get_mp_p", "get_nu_eff", "get_e_eff", "get_g_eff",
              "get_my"))]
    if not comp:
        out += [("display_transformed_results of a geometric section", "R", lambda: s.display_transformed_results(e_ref=2.0))]
    if "S" in h:
        x0, x1, y0, y1 = s.geometry.calculate_extents()
        st = case["stress"]
        out += [(f"Mohr's circles at {k}", "V", lambda x=x, y=y: st.plot_mohrs_circles(x, y, render=False)) for k, x, y in
                (("the right of the section", x1 + 1, (y0 + y1) / 2), ("the corner of its box enlarged", x0 - 0.1 * (x1 - x0), y0 - 0.1 * (y1 - y0)))]
    return out


# ---------------------------------------------------------------- states
def apply(case, g, s, op):
    if op == "m":
        obs.mesh(g, case["mesh"], ref.area_scale(trn(case["tr"])))
    elif op == "G":
        s.calculate_geometric_properties()
    elif op in "Ww":
        s.calculate_warping_properties(solver_type="direct" if op == "W" else "cgs")
    elif op == "P":
        s.calculate_plastic_properties()
    elif op == "F":
        s.calculate_frame_properties()
    elif op == "S":
        kw = dict(n=3.0, mxx=-2.0, m22=1.5)
        if case["warped"]:
            kw.update(vx=0.7, vy=-1.1, mzz=0.4)
        case["stress"] = s.calculate_stress(**kw)


def arr(h, a):
    a = np.asarray(a)
    h.update(str(a.shape).encode()); h.update(np.ascontiguousarray(a).tobytes() if a.dtype != object else repr(a.tolist()).encode())


def digest(g, s, case):
    h = hashlib.sha1(repr(gref.snapshot(g)).encode())
    for o in [g] + gref.parts(g) + ([s.geometry] if s else []):
        m = getattr(o, "mesh", None)
        h.update(repr(sorted(m) if m else None).encode())
        for k in sorted(m or {}):
            arr(h, m[k])
    if s:
        h.update(repr(gref.snapshot(s.geometry)).encode())
        arr(h, s.mesh_nodes); arr(h, s.mesh_elements)
        h.update(repr([(x.name, repr(x)) for x in s.materials]).encode())
        for k, v in sorted(vars(s.section_props).items()):
            h.update(k.encode())
            if isinstance(v, np.ndarray):
                arr(h, v)
            else:
                h.update(repr(v).encode())
        st = case.get("stress")
        if st is not None:
            for d in st.get_stress():
                for k in sorted(d):
                    h.update(str(k).encode()); arr(h, d[k]) if isinstance(d[k], np.ndarray) else h.update(repr(d[k]).encode())
    return h.hexdigest()


def others(case):
    """A geometry without mesh, and ones whose mesh has more or fewer regions than they have."""
    from sectionproperties.pre import CompoundGeometry
    g = ref.build(dict(case, tr=trn(case["tr"])))
    ps = gref.parts(g)
    x0, x1, y0, y1 = g.calculate_extents()
    extra = ps[0].shift_section(x_offset=3 * (x1 - x0))
    more = CompoundGeometry(ps + [extra])
    more.create_mesh([0]); less = CompoundGeometry(ps); less.mesh = more.mesh
    few = CompoundGeometry(ps + [extra]); g2 = CompoundGeometry(ps); g2.create_mesh([0]); few.mesh = g2.mesh
    return {"plain": g, "more": less, "fewer": few}


def attempt(rec, call, what):
    import matplotlib.pyplot as plt
    name, kind, f = call
    rec.step()
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            f()
    except Exception as e:
        # operands that are no geometry: any of the exceptions Python code raises for unusable types
        ok = isinstance(e, (ValueError, TypeError, AttributeError) if kind == "A" else (ValueError, IndexError) if kind == "M" else ERR[kind])
        rec.check(ok, lambda: f"{what}: {name} raises {type(e).__name__}: {e}")
        return
    finally:
        plt.close("all")
    rec.fail(f"{what}: {name} is accepted")


def run_case(case, rec):
    import matplotlib
    matplotlib.use("Agg")
    if case["kind"] == "free":
        d = tempfile.mkdtemp(prefix="c30")
        try:
            for a in free_calls(d):
                attempt(rec, a, "without objects")
                rec.state((a[0],)); rec.trace()
            rec.check(os.listdir(d) == [], "files were written")
        finally:
            os.rmdir(d)
        return
    case = dict(case, warped="W" in case["hist"] or "w" in case["hist"])
    what = f"section {[(r['ext'], r['mat']) for r in case['regions']]} under {case['tr']} after {case['hist'] or 'nothing'}"
    g, s = start(case)
    import shapely
    u = shapely.unary_union([p.geom.buffer(1e-9) for p in gref.parts(g)])
    case["void"] = sum(len(x.interiors) for x in getattr(u, "geoms", [u]))
    for op in case["hist"]:
        apply(case, g, s, op)
    ot = others(case)
    calls = geometry_calls(case, g, ot) + (section_calls(case, s) if s else [])
    before = digest(g, s, case)
    od = [repr(gref.snapshot(x)) for x in ot.values()]
    for a in calls:
        attempt(rec, a, what)
        rec.check(digest(g, s, case) == before, lambda: f"{what}: {a[0]} changed the geometry, the mesh or the results")
        rec.check([repr(gref.snapshot(x)) for x in ot.values()] == od and ot["plain"].mesh is None, lambda: f"{what}: {a[0]} changed another geometry")
        rec.state((what, a[0]))
        rec.trace()
    n = 3 if case.get("triples") else 2
    for r in range(2, n + 1) if case["pairs"] else ():
        for t in itertools.product([a for a in calls if r == 2 or a[1] != "R"], repeat=r):
            if r == 2 and t[0] is t[1] and t[0][0].startswith("plot"):
                continue
            if any("warping_prop" in a[0] or a[0].startswith(("plot", "Mohr")) for a in t) and r == 2 and not (t[0][1] == "V" and t[1][1] == "V"):
                continue  # costly calls: pairs of them only
            for a in t:
                attempt(rec, a, what)
            rec.trace()
        rec.check(digest(g, s, case) == before, lambda: f"{what}: sequences of {r} rejected calls changed the geometry, the mesh or the results")
    # a rejected frame analysis may have obtained missing geometric results, but keeps the existing ones
    for x in ("", "iterative", "DIRECT") if s else ():
        old = {k: v for k, v in vars(s.section_props).items() if v is not None}
        attempt(rec, (f"calculate_frame_properties({x!r})", "V", lambda: s.calculate_frame_properties(solver_type=x)), what)
        new = vars(s.section_props)
        for k, v in old.items():
            rec.check(new[k] is not None and np.all(np.abs(np.asarray(new[k], float) - np.asarray(v, float)) <= 1e-9 * (1 + np.abs(np.asarray(v, float)).max())) if not isinstance(v, str) else new[k] == v,
                      lambda: f"{what}: calculate_frame_properties({x!r}) changed {k} from {v} to {new[k]}")
        rec.check({k for k, v in new.items() if v is not None} - set(old) <= FRAME, lambda: f"{what}: rejected frame analysis sets {sorted({k for k, v in new.items() if v is not None} - set(old))}")
    # the valid history continues as if nothing had happened
    g2, s2 = start(case)
    c2 = dict(case); c2.pop("stress", None)
    for op in case["hist"]:
        apply(c2, g2, s2, op)
    if s:
        for op in "GWPS":
            case["warped"] = c2["warped"] = True
            apply(case, g, s, op); apply(c2, g2, s2, op)
        a, b = everything(s), everything(s2)
        for k in b:
            rec.check(close(a[k], b[k], 1e-9, 1e-9 * max(abs(v) for v in b.values() if v == v)) if k.startswith(("x", "y", "c")) else close(a[k], b[k], 1e-7, 1e-9),
                      lambda: f"{what}: {k} = {a[k]} after rejected calls, {b[k]} without them")
        rec.step(len(b))
        rec.outcome((case["hist"], f"{b['area']:.9g}"))
    else:
        apply(case, g, s, "m"); apply(case, g2, s2, "m")
        rec.check(digest(g, None, case) == digest(g2, None, case), f"{what}: meshing after rejected calls differs")


def start(case):
    from sectionproperties.analysis import Section
    g = ref.build(dict(case, tr=trn(case["tr"])))
    if case["kind"] == "geometry":
        return g, None
    obs.mesh(g, case["mesh"], ref.area_scale(trn(case["tr"])))
    return g, Section(g)


def everything(s):
    d = obs.geo(s); d.update(obs.warp(s)); d.update(obs.plast(s))
    return d
