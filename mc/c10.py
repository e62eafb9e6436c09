"""C10: results do not depend on the history of analyses, on other sections or on what happens to the geometry afterwards."""
import contextlib, copy, hashlib, io
import numpy as np
from . import ref, obs
from .c05 import HS
from .c06 import trn, THIN, sq
from .core import close

NEEDS_FEA = True
CHUNK = 1
ALPHABET = ("on each of two sections: G geometric, W warping (direct), w warping (iterative), P plastic, F frame analysis, S bending stresses, M shear/torsion stresses, "
            "A stresses at points, D displays, E fibre export, V plots; on the shared geometry: R re-mesh with another size, T transform it and analyse the copy; "
            "N create the second section (on the same geometry, on a transformed copy sharing the material objects, or on one of its regions)")
BOUND = {"quick": "8 worlds (geometry x way the sections are related): the reachable states of the real objects are enumerated breadth first to depth 4 (states merged by "
                  "content; plots to depth 2); every history to depth 2 (3 on the first world) is also run from scratch and must end in the same state",
         "thorough": "14 worlds, all reachable states (until no new state is found, at most depth 12); every history to depth 3 from scratch"}
ORACLE = ("results and stresses of the same analysis on a fresh section with the same mesh (1e-9; 1e-3 where the iterative solver is involved); requests fail exactly as long as "
          "their analysis has not run")

LSH = HS[0]["regions"]
CMP = HS[1]["regions"]
TEE = [sq(0, 0, 4, 1, None), sq(1, 1, 1, 3, None)]
THREE = [sq(0, 0, 3, 1, "S"), sq(0, 1, 1, 2, "C"), sq(1, 1, 2, 1, "S")]
HOLE = [dict(ext=[[0, 0], [3, 0], [3, 3], [0, 3]], holes=[[[1, 1], [2, 1], [2, 2], [1, 2]]], mat="S")]
WORLDS = [dict(regions=LSH, b="same"), dict(regions=CMP, compound=1, b="same"), dict(regions=CMP, compound=1, b="moved"), dict(regions=TEE, compound=1, b="same"),
          dict(regions=TEE, compound=1, b="part"), dict(regions=THREE, compound=1, b="part"), dict(regions=HOLE, b="moved"), dict(regions=THREE, compound=1, b="late"),
          dict(regions=LSH, b="moved"), dict(regions=HOLE, b="same"), dict(regions=HOLE, b="late"), dict(regions=THREE, compound=1, b="same"),
          dict(regions=TEE, compound=1, b="late"), dict(regions=LSH, b="late")]
AOPS = "GWwPFSMADE"
BOPS = "GWPFM"
ACT = dict(n=1.0, mxx=2.0, myy=-3.0, m11=1.5, m22=0.5)
SHEAR = dict(n=-1.0, mxx=0.5, vx=1.5, vy=-2.5, mzz=4.0)


def cases(tier):
    q = tier == "quick"
    out = []
    for k, w in enumerate(WORLDS[:8] if q else WORLDS):
        w = dict(w, tr=["mix", "id", "rot345", "mix"][k % 4], sizes=[0, 0.4])
        for first in (AOPS + "RNTV"):
            out.append(dict(w, kind="reach", first=first, depth=4 if q else 12, **({} if q else {"timeout": 3600})))
        n = (3 if k == 0 else 2) if q else 3
        for first in (AOPS + "RNV"):
            out.append(dict(w, kind="scratch", first=first, depth=n))
    return out


def fresh_geom(case):
    return ref.build(dict(case, tr=trn(case["tr"])), fresh=False)


def mesh(case, g, i):
    obs.mesh(g, {"s": case["sizes"][i]}, ref.area_scale(trn(case["tr"])))


def second_geom(case, g):
    """the geometry of the second section"""
    if case["b"] == "moved":
        h = g.rotate_section(angle=30).shift_section(x_offset=1.5, y_offset=-0.5)
        mesh(case, h, 0)
        return h
    if case["b"] == "part":
        h = g.geoms[0]
        mesh(case, h, 1)
        return h
    return g


class World:
    """the real objects and the model's view of them"""

    def __init__(self, case):
        from sectionproperties.analysis import Section
        self.case = case
        self.g = fresh_geom(case)
        mesh(case, self.g, 0)
        self.gm = 0
        self.s = {"A": Section(self.g), "B": None}
        # model: mesh index at creation, analyses done: (G, kind of warping, kind of last j, P, F-only)
        self.m = {"A": dict(mesh=0, g=0, w=None, j=None, p=0, f=0), "B": None}
        if case["b"] != "late":
            self.create_b()

    def create_b(self):
        from sectionproperties.analysis import Section
        self.s["B"] = Section(second_geom(self.case, self.g))
        self.m["B"] = dict(mesh=self.gm if self.case["b"] in ("same", "late") else -1, g=0, w=None, j=None, p=0, f=0)

    def clone(self):
        c = World.__new__(World)
        c.case = self.case
        memo = {}
        from sectionproperties.pre.pre import DEFAULT_MATERIAL
        for m in [DEFAULT_MATERIAL] + [ref.material(k) for k in ref.MATS]:
            memo[id(m)] = m
        c.g, c.s = copy.deepcopy((self.g, self.s), memo)
        c.gm, c.m = self.gm, copy.deepcopy(self.m)
        return c


def digest(o, seen=None):
    """canonical content of a Python object graph"""
    h = hashlib.blake2b(digest_size=16)
    seen = {}

    def walk(v):
        if isinstance(v, (str, bytes, bool, int, type(None))):
            h.update(repr(v).encode()); return
        if isinstance(v, (float, np.floating)):
            h.update(float(v).hex().encode()); return
        if isinstance(v, np.generic):
            h.update(repr(v.item()).encode()); return
        if id(v) in seen:
            h.update(b"@%d" % seen[id(v)]); return
        seen[id(v)] = len(seen)
        if isinstance(v, np.ndarray):
            h.update(str((v.shape, v.dtype)).encode()); h.update(v.tobytes() if v.dtype != object else repr(v.tolist()).encode()); return
        if isinstance(v, dict):
            h.update(b"{")
            for k in v:
                walk(k); walk(v[k])
            h.update(b"}"); return
        if isinstance(v, (list, tuple)):
            h.update(b"[")
            for k in v:
                walk(k)
            h.update(b"]"); return
        if isinstance(v, (set, frozenset)):
            h.update(repr(sorted(map(repr, v))).encode()); return
        if hasattr(v, "wkb"):
            h.update(v.wkb); return
        h.update(type(v).__name__.encode())
        d = getattr(v, "__dict__", None)
        if d:
            walk(d)
        for s in getattr(type(v), "__slots__", ()):
            if hasattr(v, s):
                walk(getattr(v, s))
    walk(o)
    return h.hexdigest()


REF = {}


def baseline(case, kind, mi):
    """results of each analysis on a fresh section; kind A or B, mesh index mi (of the shared geometry)"""
    key = (repr(case["regions"]), case["tr"], case["b"] if kind == "B" and mi < 0 else "same", mi)
    if key not in REF:
        from sectionproperties.analysis import Section

        def new():
            g = fresh_geom(case)
            if kind == "B" and mi < 0:
                return Section(second_geom(case, g))
            mesh(case, g, mi)
            return Section(g)
        d = {}
        s = new(); s.calculate_geometric_properties(); d["geo"] = obs.geo(s)
        d["S"] = stress(s, ACT)
        d["pts"] = [tuple(map(float, e.coords.mean(axis=1))) for e in s.elements[::3]]
        d["A"] = s.get_stress_at_points(d["pts"], **ACT)
        for k, sv in (("W", "direct"), ("w", "cgs")):
            s = new(); s.calculate_geometric_properties()
            try:
                s.calculate_warping_properties(solver_type=sv)
            except RuntimeError:
                d[k] = None
                continue
            d[k] = obs.warp(s)
            d["M" + k] = stress(s, SHEAR)
        s = new(); d["F"] = [float(v) for v in s.calculate_frame_properties()]
        s = new(); s.calculate_geometric_properties(); s.calculate_plastic_properties(); d["plast"] = obs.plast(s)
        REF[key] = d
    return REF[key]


def stress(sec, act):
    return [{k: (v if isinstance(v, str) else np.array(v)) for k, v in d.items()} for d in sec.calculate_stress(**act).get_stress()]


def same_stress(rec, tag, a, b, rel):
    rec.check([d["material"] for d in a] == [d["material"] for d in b], lambda: f"{tag}: material groups {[d['material'] for d in a]}, fresh {[d['material'] for d in b]}")
    tol = rel * max(np.abs(d["sig_vm"]).max() for d in b)
    for x, y in zip(a, b):
        for k in y:
            if k != "material":
                rec.check(x[k].shape == y[k].shape and np.all(np.abs(x[k] - y[k]) <= tol), lambda: f"{tag}: {k} differs from a fresh section's by {np.abs(x[k] - y[k]).max() if x[k].shape == y[k].shape else 'shape'}")
                rec.step()


def refused(rec, tag, f):
    try:
        f()
    except RuntimeError:
        return
    rec.fail(f"{tag} did not fail although its analysis has not been run")


def apply(w, op, rec, hist):
    """one operation; returns False when it does not apply"""
    case = w.case
    tag = f"after {' '.join(hist)}: {op}"
    if op == "R":
        w.gm = 1 - w.gm
        mesh(case, w.g, w.gm)
        return True
    if op == "T":
        from sectionproperties.analysis import Section
        h = w.g.rotate_section(angle=20).mirror_section(axis="x").shift_section(x_offset=3)
        mesh(case, h, 0)
        s = Section(h); s.calculate_geometric_properties(); s.calculate_frame_properties(); s.calculate_stress(n=1, mxx=3)
        a = baseline(case, "A", 0)["geo"]["area"]
        rec.check(close(s.get_area(), a, 1e-9), lambda: f"{tag}: area of the transformed copy {s.get_area()}, expected {a}")
        return True
    if op == "N":
        if w.s["B"] is not None:
            return False
        w.create_b()
        return True
    which, op = (op[0], op[1]) if len(op) == 2 else ("A", op)
    sec, m = w.s[which], w.m[which]
    if sec is None:
        return False
    base = baseline(case, which, m["mesh"])
    if op == "G":
        sec.calculate_geometric_properties(); m["g"] = 1
    elif op in "Ww":
        if base[op] is None:
            return False
        f = lambda: sec.calculate_warping_properties(solver_type="direct" if op == "W" else "cgs")
        if not m["g"]:
            refused(rec, tag, f)
        else:
            f(); m["w"] = m["j"] = op
    elif op == "P":
        if not m["g"]:
            refused(rec, tag, sec.calculate_plastic_properties)
        else:
            sec.calculate_plastic_properties(); m["p"] = 1
    elif op == "F":
        got = sec.calculate_frame_properties()
        scale = max(abs(base["geo"]["i11"]), 1e-300)
        for a, b in zip(got, base["F"]):
            rec.check(close(float(a), b, 1e-9, 1e-10 * scale if abs(b) < 1e-6 * scale else 0), lambda: f"{tag}: {got}, a fresh section gives {base['F']}")
        m["f"] = 1
        if m["w"]:
            m["j"] = "W"
    elif op == "S":
        if not m["g"]:
            refused(rec, tag, lambda: sec.calculate_stress(**ACT))
        else:
            same_stress(rec, tag, stress(sec, ACT), base["S"], 1e-9)
    elif op == "M":
        if not m["w"]:
            refused(rec, tag, lambda: sec.calculate_stress(**SHEAR))
        else:
            same_stress(rec, tag, stress(sec, SHEAR), base["M" + m["w"]], 1e-8 if m["w"] == m["j"] else 1e-2)
    elif op == "A":
        if not m["g"]:
            refused(rec, tag, lambda: sec.get_stress_at_points(base["pts"], **ACT))
        else:
            got = sec.get_stress_at_points(base["pts"], **ACT)
            tol = 1e-9 * max(abs(v) for t in base["A"] for v in t)
            rec.check(all(all(abs(u - v) <= tol for u, v in zip(x, y)) for x, y in zip(got, base["A"])), lambda: f"{tag}: point stresses {got}, fresh {base['A']}")
    elif op == "D":
        with contextlib.redirect_stdout(io.StringIO()):
            sec.display_mesh_info()
            sec.display_results()
            if sec.is_composite():
                sec.display_transformed_results(e_ref=3.0)
    elif op == "E":
        from sectionproperties.post.fibre import to_fibre_section
        t = to_fibre_section(sec, analysis_type="3DOS")
        rec.check(t.count("section Cell3DOS") == len(sec.elements), lambda: f"{tag}: {t.count('section Cell3DOS')} fibres for {len(sec.elements)} elements")
    elif op == "V":
        import matplotlib
        matplotlib.use("Agg")
        import matplotlib.pyplot as plt
        sec.plot_mesh(render=False); sec.plot_centroids(render=False)
        if m["w"]:
            sec.plot_warping_function(render=False)
        if m["g"]:
            st = sec.calculate_stress(n=1, mxx=2)
            st.plot_stress("zz", render=False); st.plot_stress_vector("zxy", render=False)
            st.plot_mohrs_circles(*baseline(case, which, m["mesh"])["pts"][0], render=False)
        w.g.plot_geometry(render=False)
        plt.close("all")
    return True


LOOK = "SMADEVT"


def inspect(w, rec, hist):
    """every available result of every section equals that of a fresh section"""
    for which in "AB":
        sec, m = w.s[which], w.m[which]
        if sec is None:
            continue
        base = baseline(w.case, which, m["mesh"])
        tag = f"after {' '.join(hist)}: section {which}"
        geo = warp = plast = None
        for nm, f, on in (("geo", obs.geo, m["g"]), ("warp", obs.warp, m["w"]), ("plast", lambda s: obs.plast(s), m["p"])):
            try:
                got = f(sec)
            except RuntimeError:
                rec.check(not on, lambda: f"{tag}: {nm} results are not available")
                continue
            rec.check(on, lambda: f"{tag}: {nm} results are available without their analysis")
            want = base[nm] if nm != "warp" else base[m["w"]]
            if nm == "warp" and m["j"] != m["w"]:
                want = dict(want, j=base["W"]["j"])
            rt = 1e-9
            L = base["geo"]["rx"] + abs(base["geo"]["cx"]) + abs(base["geo"]["cy"])
            for k in want:
                v = want[k]
                at = rt * (L if k in ("cx", "cy", "x_se", "y_se", "x11_se", "y22_se", "x_st", "y_st", "x_pc", "y_pc", "x11_pc", "y22_pc") or k[0] == "b"
                           else base["geo"]["i11"] * L if k in ("ixy", "gamma", "qx", "qy") else 1e-3 if k == "phi" else 0)
                rec.step()
                if not close(got[k], v, rt, at):
                    rec.fail(f"{tag}: {k} = {got[k]!r}, a fresh section gives {v!r}")


def run_case(case, rec):
    if case["kind"] == "reach":
        reach(case, rec)
    else:
        scratch(case, rec)


def ops_of(w, depth_left, plots):
    out = [a for a in AOPS]
    if w.s["B"] is not None:
        out += ["B" + b for b in BOPS]
    else:
        out.append("N")
    out += ["R", "T"]
    if plots:
        out.append("V")
    return out


def play(w, op, rec, hist, before=None):
    if not apply(w, op, rec, hist):
        return False
    inspect(w, rec, hist + [op])
    rec.step()
    return True


def reach(case, rec):
    w = World(case)
    if not play(w, case["first"], rec, []):
        rec.trace()
        return
    frontier = [(w, [case["first"]], digest(content(w)))]
    seen = {frontier[0][2]}
    if case["first"] in LOOK and frontier[0][2] == digest(content(World(case))):
        frontier = []   # the look-up left the objects as they were: same continuations as without it
    depth = 1
    while frontier and depth < case["depth"]:
        nxt = []
        for w, hist, key in frontier:
            for op in ops_of(w, 0, depth <= 1):
                c = w.clone()
                if not play(c, op, rec, hist):
                    continue
                k = digest(content(c))
                if k not in seen:
                    seen.add(k)
                    nxt.append((c, hist + [op], k))
                    rec.state((repr(case["regions"]), case["b"], k))
        frontier = nxt
        depth += 1
    rec.count("states", len(seen))
    rec.count("closed" if not frontier else "bounded by depth")
    rec.outcome((repr(case["regions"]), case["b"], len(seen)))
    rec.trace(len(seen))


def content(w):
    return (w.g, w.s)


def scratch(case, rec):
    """every history without copies of the objects; the state equals that of the history on copies"""
    def go(hist, w):
        if len(hist) >= case["depth"]:
            return
        for op in ops_of(w, 0, False):
            c = w.clone()
            if not apply(c, op, rec, hist):
                continue
            w2 = World(case)
            ok = all(apply(w2, o, rec, hist[:i]) for i, o in enumerate(hist + [op]))
            rec.check(ok, "operation refused")
            inspect(w2, rec, hist + [op])
            rec.check(w2.m == c.m, "model state")
            rec.step(len(hist) + 1); rec.trace()
            go(hist + [op], c)
    w = World(case)
    if apply(w, case["first"], rec, []):
        go([case["first"]], w)
    rec.trace()
    rec.state((repr(case["regions"]), case["b"], case["first"], "scratch"))
    rec.outcome((case["first"], repr(case["regions"])))
