"""C26: stress results are independent snapshots, and plots show their very values."""
import copy, itertools
import numpy as np
from . import ref, obs
from .c05 import HS
from .c06 import trn
from .c10 import LSH, CMP, TEE, THREE, HOLE
from .core import close

NEEDS_FEA = True
CHUNK = 1
ALPHABET = ("stress analyses a (axial), b (bending), c (shear and torsion), d (all), z (none); other work G, W (direct), w (iterative), P, F, R (re-mesh the geometry), "
            "T (stresses at points); uses of a result: p (contour plot of the first), q (vector plot of the last), m (Mohr's circles of the first), e (edit the list and "
            "dictionaries returned for the first)")
BOUND = {"quick": "all histories of length <=3 over 16 operations on 2 sections and of length <=2 on 3 more; on 5 sections every contour and vector plot of the documented "
                  "quantities, every subset of materials, stress limits given or not, and Mohr's circles at every element centroid and single-material node, for 3 load cases",
         "thorough": "length <=4 on 5 sections; plots on 12 sections with two mesh sizes"}
ORACLE = ("the arrays read right after the analysis (bitwise) and those of the same load on a fresh section (1e-8; 1e-3 after the iterative solver); the plotted arrays are those of "
          "get_stress, drawn on the elements of each material, coloured by one range with one colour bar, over the mesh of the section on the axes returned; Mohr's circles are those of the stress tensor interpolated linearly over the element's corners")

ACT = {"a": dict(n=2.0), "b": dict(mxx=1.0, myy=-2.0, m11=0.5, m22=0.25), "c": dict(vx=1.0, vy=-2.0, mzz=3.0),
       "d": dict(n=1.0, mxx=1.0, myy=-2.0, m11=0.5, m22=0.25, vx=1.0, vy=-2.0, mzz=3.0), "z": {}}
OPS = "abcdzGWwPFRTpqme"
SECS = [dict(regions=LSH), dict(regions=CMP, compound=1), dict(regions=TEE, compound=1), dict(regions=THREE, compound=1), dict(regions=HOLE)]
CONTOUR = {"n_zz": "sig_zz_n", "mxx_zz": "sig_zz_mxx", "myy_zz": "sig_zz_myy", "m11_zz": "sig_zz_m11", "m22_zz": "sig_zz_m22", "m_zz": "sig_zz_m", "mzz_zx": "sig_zx_mzz",
           "mzz_zy": "sig_zy_mzz", "mzz_zxy": "sig_zxy_mzz", "vx_zx": "sig_zx_vx", "vx_zy": "sig_zy_vx", "vx_zxy": "sig_zxy_vx", "vy_zx": "sig_zx_vy", "vy_zy": "sig_zy_vy",
           "vy_zxy": "sig_zxy_vy", "v_zx": "sig_zx_v", "v_zy": "sig_zy_v", "v_zxy": "sig_zxy_v", "zz": "sig_zz", "zx": "sig_zx", "zy": "sig_zy", "zxy": "sig_zxy", "11": "sig_11",
           "33": "sig_33", "vm": "sig_vm"}
VECTOR = {"mzz_zxy": ("sig_zx_mzz", "sig_zy_mzz"), "vx_zxy": ("sig_zx_vx", "sig_zy_vx"), "vy_zxy": ("sig_zx_vy", "sig_zy_vy"), "v_zxy": ("sig_zx_v", "sig_zy_v"),
          "zxy": ("sig_zx", "sig_zy")}


def cases(tier):
    q = tier == "quick"
    out, pl = [], []
    for k, s in enumerate(SECS):
        base = dict(s, tr=["mix", "id", "rot345", "mix", "id"][k], kind="hist", mesh={"s": 0})
        for o in OPS:
            if q and k not in (1, 2):
                out.append(dict(base, first=[o], depth=2))
            elif q:
                out.append(dict(base, first=[o], depth=3))
            else:
                out += [dict(base, first=[o, o2], depth=4) for o2 in OPS]
    for k, s in enumerate(SECS + ([] if q else [dict(x, mats=1) for x in SECS])):
        for m in ([0] if q else [0, 0.4]):
            for ld in "bcd":
                for part in ["vector", "mohr"] + [["contour", i] for i in range(5)]:
                    part, i = part if isinstance(part, list) else (part, 0)
                    pl.append(dict(s, tr=["mix", "id", "rot345"][(k + "bcd".index(ld)) % 3], kind=part, mesh={"s": m}, load=ld, i=i))
    return pl + out


def new(case):
    from sectionproperties.analysis import Section
    g = ref.build(dict(case, tr=trn(case["tr"])))
    obs.mesh(g, case["mesh"], ref.area_scale(trn(case["tr"])))
    s = Section(g)
    s.calculate_geometric_properties(); s.calculate_warping_properties()
    return g, s


def grab(post):
    return [{k: (v if isinstance(v, str) else np.array(v, copy=True)) for k, v in d.items()} for d in post.get_stress()]


def same(rec, tag, a, b, rel=None):
    rec.check(len(a) == len(b) and all(set(x) == set(y) and x["material"] == y["material"] for x, y in zip(a, b)), lambda: f"{tag}: structure of the result differs")
    scale = max(np.abs(d["sig_vm"]).max() for d in b) or 1.0
    for x, y in zip(a, b):
        for k in y:
            if k == "material":
                continue
            ok = np.array_equal(x[k], y[k]) if rel is None else x[k].shape == y[k].shape and np.all(np.abs(x[k] - y[k]) <= rel * scale)
            rec.check(ok, lambda: f"{tag}: {k} in {y['material']} differs by {np.abs(x[k] - y[k]).max() if x[k].shape == y[k].shape else 'shape'}")
            rec.step()


REF = {}


def fresh(case, key):
    k = (repr(case["regions"]), case["tr"], repr(case["mesh"]), key)
    if k not in REF:
        REF[k] = grab(new(case)[1].calculate_stress(**ACT[key]))
    return REF[k]


class World:
    def __init__(self, case):
        self.g, self.s = new(case)
        self.case, self.res, self.it, self.size = case, [], False, 0

    def clone(self):
        from sectionproperties.pre.pre import DEFAULT_MATERIAL
        c = World.__new__(World)
        memo = {id(m): m for m in [DEFAULT_MATERIAL] + [ref.material(k) for k in ref.MATS]}
        c.g, c.s, posts = copy.deepcopy((self.g, self.s, [p for p, _, _ in self.res]), memo)
        c.res = [(p, sn, key) for p, (_, sn, key) in zip(posts, self.res)]
        c.case, c.it, c.size = self.case, self.it, self.size
        return c


def apply(w, op, rec, tag):
    case = w.case
    if op in ACT:
        p = w.s.calculate_stress(**ACT[op])
        sn = grab(p)
        same(rec, f"{tag}: stresses of load {op} compared with a fresh section", sn, fresh(case, op), 1e-3 if w.it else 1e-8)
        w.res.append((p, sn, op))
        return True
    if op == "G":
        w.s.calculate_geometric_properties()
    elif op in "Ww":
        try:
            w.s.calculate_warping_properties(solver_type="direct" if op == "W" else "cgs")
        except RuntimeError:
            if op == "W":
                raise
            return False
        w.it = op == "w"
    elif op == "P":
        w.s.calculate_plastic_properties()
    elif op == "F":
        w.s.calculate_frame_properties()
    elif op == "R":
        w.size = 1 - w.size
        obs.mesh(w.g, {"s": [0, 0.4][w.size]}, ref.area_scale(trn(case["tr"])))
    elif op == "T":
        w.s.get_stress_at_points([tuple(map(float, w.s.mesh_nodes[w.s.mesh_elements[0][:3]].mean(axis=0)))], **ACT["d"])
    elif not w.res:
        return False
    elif op == "p":
        pl = plotting(); w.res[0][0].plot_stress("zz", render=False); pl.close("all")
    elif op == "q":
        pl = plotting(); w.res[-1][0].plot_stress_vector("zxy", render=False); pl.close("all")
    elif op == "m":
        pl = plotting(); x, y = w.s.mesh_nodes[w.s.mesh_elements[0][:3]].mean(axis=0); w.res[0][0].plot_mohrs_circles(float(x), float(y), render=False); pl.close("all")
    elif op == "e":
        st = w.res[0][0].get_stress()
        st[0]["sig_zz"] = None; st[-1].pop("sig_vm"); st[0]["material"] = "x"; st.append({}); st.reverse()
    return True


def plotting():
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    return plt


def run_case(case, rec):
    if case["kind"] == "hist":
        hist(case, rec)
    else:
        plots(case, rec)


def hist(case, rec):
    def go(w, ops):
        tag = "after " + " ".join(ops)
        for i, (p, sn, key) in enumerate(w.res):
            same(rec, f"{tag}: result {i + 1} (load {key}) changed", grab(p), sn)
        rec.step(); rec.state((repr(case["regions"]), tuple(ops)))
        if len(ops) == case["depth"]:
            rec.trace()
            return
        for o in OPS:
            c = w.clone()
            if apply(c, o, rec, tag + f": {o}"):
                go(c, ops + [o])
    w = World(case)
    done = []
    for o in case["first"]:
        if not apply(w, o, rec, "after " + " ".join(done) + f": {o}"):
            rec.trace()
            return
        done.append(o)
    go(w, done)
    rec.outcome((repr(case["regions"]), tuple(case["first"])))


class Drawn:
    def __init__(self, t):
        self.x, self.y, self.tri = np.array(t.x), np.array(t.y), np.array(t.get_masked_triangles())

    def get_masked_triangles(self):
        return self.tri


def keep(x):
    return Drawn(x) if hasattr(x, "get_masked_triangles") else np.array(x, copy=True) if isinstance(x, np.ndarray) else x


class Spy:
    """records what is drawn through the axes' contour, arrow and mesh methods and the figure's colour bar"""

    def __enter__(self):
        import matplotlib.axes, matplotlib.figure
        self.A, self.F = matplotlib.axes.Axes, matplotlib.figure.Figure
        self.calls, self.made, self.bars = [], [], []
        self.saved = {n: getattr(self.A, n) for n in ("tricontourf", "tripcolor", "quiver", "triplot")}
        for n, f in self.saved.items():
            def wrap(ax, *a, _n=n, _f=f, **k):
                self.calls.append((_n, [keep(x) for x in a[:5]], k))
                r = _f(ax, *a, **k)
                self.made.append((_n, ax, r))
                return r
            setattr(self.A, n, wrap)
        self.bar = self.F.colorbar
        def bar(fig, *a, **k):
            self.bars.append((a[0] if a else k.get("mappable"), k))
            return self.bar(fig, *a, **k)
        self.F.colorbar = bar
        return self

    def __exit__(self, *e):
        for n, f in self.saved.items():
            setattr(self.A, n, f)
        self.F.colorbar = self.bar

    def drawn(self, name):
        return [(ax, r) for n, ax, r in self.made if n == name]


def frame(rec, tag, spy, name, ax, s, title, plt):
    """everything is drawn on the axes that are returned: the values, the outline of every element and one colour bar"""
    rec.check(all(a is ax for a, _ in spy.drawn(name)), f"{tag}: drawn on other axes than those returned")
    mesh = [(a, c) for (n, a, r), c in zip(spy.made, spy.calls) if n == "triplot"]
    rec.check(mesh and all(a is ax for a, _ in mesh), f"{tag}: the mesh is not drawn on the axes of the plot")
    el = {tuple(sorted(map(int, t))) for _, c in mesh for t in c[1][0].get_masked_triangles()}
    rec.check(el == {tuple(sorted(map(int, t[:3]))) for t in s.mesh_elements}, f"{tag}: the mesh drawn is not the mesh of the section")
    rec.check(len(spy.bars) == 1, f"{tag}: {len(spy.bars)} colour bars")
    rec.check(any(spy.bars[0][0] is r for _, r in spy.drawn(name)), f"{tag}: the colour bar does not belong to the values drawn")
    rec.check(ax.get_title() == title if title else ax.get_title() != "", f"{tag}: title {ax.get_title()!r}")
    rec.check(sorted(plt.get_fignums()) == [ax.get_figure().number], f"{tag}: figures left open: {plt.get_fignums()}")
    rec.step()


def colours(rec, tag, made, lo, hi, normalize):
    """equal values have equal colours in every material, and the colour range covers all values (symmetric about zero when normalised)"""
    rng = {(float(r.norm.vmin), float(r.norm.vmax)) for _, r in made}
    rec.check(len(rng) == 1, lambda: f"{tag}: materials are coloured by different ranges {sorted(rng)}")
    a, b = rng.pop()
    e = 1e-9 * max(abs(lo), abs(hi)) + 1e-11
    rec.check(a <= lo + e and b >= hi - e, lambda: f"{tag}: colours range over {(a, b)}, values over {(lo, hi)}")
    if normalize:
        rec.check(abs(a + b) <= 1e-9 * max(abs(a), abs(b)), lambda: f"{tag}: normalised colours range over {(a, b)}")
    elif hi - lo > 1e-6 * max(abs(lo), abs(hi)):
        rec.check(b - a <= 1.2 * (hi - lo) + 1e-11, lambda: f"{tag}: colours range over {(a, b)}, values over {(lo, hi)}")


def elements_by_material(sec):
    by = {}
    for i, e in enumerate(sec.elements):
        by.setdefault(e.material.name, set()).add(i)
    return by


def plots(case, rec):
    plt = plotting()
    g, s = new(case)
    p = s.calculate_stress(**ACT[case["load"]])
    other = s.calculate_stress(**ACT["a"])
    want = {d["material"]: d for d in grab(p)}
    by = elements_by_material(s)
    tri3 = [tuple(sorted(map(int, t[:3]))) for t in s.mesh_elements]
    mats = list(dict.fromkeys(s.materials))
    if case["kind"] == "contour":
        subsets = [None] + [[m] for m in mats] + ([mats[::-1]] if len(mats) > 1 else [])
        turn = case["i"]
        for q, key in list(CONTOUR.items())[case["i"]::5]:
            for sub in subsets:
                for lim in ((None, (-1.0, 2.0)) if q in ("zz", "vm") else (None,)):
                    turn += 1
                    title, norm = ("T" if turn % 2 else None), turn % 3 == 0
                    tag = f"contour plot {q}" + (f" of {[m.name for m in sub]}" if sub else "")
                    with Spy() as spy:
                        ax = p.plot_stress(q, material_list=sub, stress_limits=lim, title=title, normalize=norm, render=False)
                        frame(rec, tag, spy, "tricontourf", ax, s, title, plt)
                    names = [m.name for m in sub] if sub else list(want)
                    lo, hi = lim or (min(want[n][key].min() for n in names), max(want[n][key].max() for n in names))
                    if hi - lo > 1e-9:
                        colours(rec, tag, spy.drawn("tricontourf"), lo, hi, norm)
                    plt.close("all")
                    drawn = {}
                    for n, a, k in spy.calls:
                        if n != "tricontourf":
                            continue
                        t, z, lv = a[0], a[1], a[2] if len(a) > 2 else None
                        el = {tuple(sorted(map(int, r))) for r in t.get_masked_triangles()}
                        rec.check(np.array_equal(t.x, s.mesh_nodes[:, 0]) and np.array_equal(t.y, s.mesh_nodes[:, 1]), f"{tag}: drawn at other positions than the nodes")
                        nm = [m for m in by if {tri3[i] for i in by[m]} == el]
                        rec.check(len(nm) == 1, f"{tag}: a contour covers elements that are not those of one material")
                        rec.check(nm[0] not in drawn, f"{tag}: {nm[0]} drawn twice")
                        drawn[nm[0]] = (np.asarray(z), lv)
                        rec.step()
                    exp = {m.name for m in sub} if sub else set(by)
                    rec.check(set(drawn) == exp, lambda: f"{tag}: materials {sorted(drawn)} drawn, requested {sorted(exp)}")
                    for m, (z, lv) in drawn.items():
                        rec.check(np.array_equal(z, want[m][key]), lambda: f"{tag}: values for {m} are not {key} of the result")
                        if lv is not None and not np.isscalar(lv):
                            lo = lim[0] if lim else min(want[n][key].min() for n in drawn)
                            hi = lim[1] if lim else max(want[n][key].max() for n in drawn)
                            rec.check(lv[0] <= lo + 1e-9 * (hi - lo) and lv[-1] >= hi - 1e-9 * (hi - lo), lambda: f"{tag}: contour levels {lv[0]}..{lv[-1]} do not span {lo}..{hi}")
                    rec.trace()
    elif case["kind"] == "vector":
        for (q, (kx, ky)), norm in itertools.product(VECTOR.items(), (False, True)):
            title = "T" if norm else None
            with Spy() as spy:
                ax = p.plot_stress_vector(q, normalize=norm, title=title, render=False)
                frame(rec, f"vector plot {q}", spy, "quiver", ax, s, title, plt)
            size = [np.hypot(d[kx], d[ky]) for d in want.values()]
            lo, hi = min(v.min() for v in size), max(v.max() for v in size)
            if hi > 1e-9:
                colours(rec, f"vector plot {q}", spy.drawn("quiver"), lo, hi, norm)
                rec.check(len({float(r.scale) for _, r in spy.drawn("quiver")}) == 1, lambda: f"vector plot {q}: arrows of the materials have different scales")
                for _, r in spy.drawn("quiver"):
                    rec.check(np.array_equal(np.asarray(r.get_array()), np.hypot(r.U, r.V)), f"vector plot {q}: arrows are not coloured by their size")
            plt.close("all")
            qs = [a for n, a, k in spy.calls if n == "quiver"]
            rec.check(len(qs) == len(want), lambda: f"vector plot {q}: {len(qs)} arrow sets for {len(want)} materials")
            left = dict(want)
            for a in qs:
                m = [n for n, d in left.items() if np.array_equal(a[2], d[kx]) and np.array_equal(a[3], d[ky])]
                rec.check(m, lambda: f"vector plot {q}: arrows are not ({kx}, {ky}) of any material of the result")
                left.pop(m[0])
                rec.check(np.array_equal(a[0], s.mesh_nodes[:, 0]) and np.array_equal(a[1], s.mesh_nodes[:, 1]), f"vector plot {q}: arrows at other positions than the nodes")
                rec.step()
            rec.trace()
    else:
        from matplotlib.patches import Circle
        owner = {}
        for m, els in by.items():
            for i in els:
                for n in s.mesh_elements[i][:3]:
                    owner.setdefault(int(n), set()).add(m)
        pts = []
        for m, els in by.items():
            for i in sorted(els):
                c = [int(n) for n in s.mesh_elements[i][:3]]
                pts.append((m, c, (1 / 3, 1 / 3, 1 / 3)))
                pts.append((m, c, (0.5, 0.3, 0.2)))
        for m, c, wt in pts:
            x, y = (float(v) for v in np.dot(wt, s.mesh_nodes[c]))
            d = want[m]
            szz, sx, sy = (float(np.dot(wt, d[k][c])) for k in ("sig_zz", "sig_zx", "sig_zy"))
            ax = p.plot_mohrs_circles(x, y, render=False)
            circ = sorted((float(o.radius), float(o.center[0]), float(o.center[1])) for o in ax.patches if isinstance(o, Circle))
            pr = sorted(np.linalg.eigvalsh(np.array([[0, 0, sx], [0, 0, sy], [sx, sy, szz]])))
            exp = sorted(((b - a) / 2, (a + b) / 2, 0.0) for a, b in ((pr[0], pr[1]), (pr[1], pr[2]), (pr[0], pr[2])))
            tol = 1e-7 * max(abs(szz), abs(sx), abs(sy), 1e-12)
            rec.check(len(circ) == 3 and any(all(abs(u - v) <= tol for a, b in zip(circ, o) for u, v in zip(a, b)) for o in itertools.permutations(exp)),
                      lambda: f"Mohr's circles at {(x, y)} are {circ}, the stresses {(szz, sx, sy)} give {exp}")
            faces = {l.get_label(): (float(l.get_xdata()[0]), float(l.get_ydata()[0])) for l in ax.lines if "face" in str(l.get_label())}
            plt.close("all")
            fexp = {"X": (0.0, abs(sx)), "Y": (0.0, abs(sy)), "Z": (szz, float(np.hypot(sx, sy)))}
            ft = 1e-6 * max(abs(szz), abs(sx), abs(sy), 1e-12)
            for f, (u, v) in fexp.items():
                got = [faces[k] for k in faces if k.startswith(f)]
                rec.check(len(got) == 1 and abs(got[0][0] - u) <= ft and abs(abs(got[0][1]) - v) <= ft, lambda: f"{f}-face at {(x, y)}: drawn at {got}, stresses {(u, v)}")
            rec.step(4); rec.trace()
    same(rec, "after the plots: result changed", grab(p), list(want.values()))
    same(rec, "after the plots: other result changed", grab(other), fresh(case, "a"), 1e-8)
    rec.state((repr(case["regions"]), case["kind"], case["i"], case["load"], case["tr"], repr(case["mesh"])))
    rec.outcome((case["kind"], case["load"], repr(case["regions"])))
