"""C28: plots of a geometry, its mesh, centroids and warping function show exactly the section's data."""
import itertools, math, os, re, tempfile
import numpy as np
from . import ref, obs
from .c05 import HS
from .c06 import trn
from .c10 import LSH, CMP, TEE, THREE, HOLE

NEEDS_FEA = True
CHUNK = 2
ALPHABET = ("geometries (one region, holes, several regions and materials, sharing equal materials) under affine maps; label sets, control points and legend on or off; element masks; "
            "histories of analyses G (geometric), W (warping), P (plastic), F (frame); target axes: new, supplied, grid of axes with every index, file")
BOUND = {"quick": "9 geometries x 4 maps (and 5 of up to 12 regions): all 16 label sets x control points x legend; all single-element masks, their complements, the masks of each material and of each prefix; "
                  "all histories of G, W, P, F up to length 3 before plotting centroids and the warping function; all targets",
         "thorough": "9 geometries x 8 maps and two mesh sizes, histories up to length 4"}
ORACLE = ("the drawn facets cover the exact boundaries of the regions and nothing else; every point, facet, hole and control point is marked and numbered where the geometry has it; the drawn "
          "triangles are the mesh elements not masked, in their material's colour, with one legend entry for every distinct material; the marks for centroids are at what the getters return "
          "and appear exactly for what is calculated; the contours of the warping function are the nodal values of a fresh warping analysis; the printed counts are those of the mesh")

TWO_S = [dict(ext=[[0, 0], [2, 0], [2, 1], [0, 1]], holes=[], mat="S"), dict(ext=[[0, 1], [1, 1], [1, 2], [0, 2]], holes=[], mat="N"), dict(ext=[[1, 1], [2, 1], [2, 3], [1, 3]], holes=[], mat="S")]
TWOH = [dict(ext=[[0, 0], [5, 0], [5, 3], [0, 3]], holes=[[[1, 1], [2, 1], [2, 2], [1, 2]], [[3, 1], [4, 1], [4, 2]]], mat="C")]
FILLED = [dict(ext=[[0, 0], [4, 0], [4, 3], [0, 3]], holes=[[[1, 1], [3, 1], [3, 2], [1, 2]]], mat="C"), dict(ext=[[1, 1], [3, 1], [3, 2], [1, 2]], holes=[], mat="S")]
APART = [dict(ext=[[0, 0], [1, 0], [1, 2], [0, 2]], holes=[], mat="S"), dict(ext=[[3, 0], [4, 0], [4, 1], [3, 1]], holes=[], mat="T")]
SECS = [dict(regions=LSH), dict(regions=CMP, compound=1), dict(regions=TEE, compound=1), dict(regions=THREE, compound=1), dict(regions=HOLE), dict(regions=TWO_S, compound=1),
        dict(regions=TWOH), dict(regions=FILLED, compound=1), dict(regions=APART, compound=1, apart=1)]
SECS += [dict(b, big=1) for k, b in ref.big_sections() if k in ("bars", "grid", "nested inside out", "chequer", "strip")]
MAPS = ["id", "mix", "rot345", "tiny", "small", "far", "shear", "rot90far", "big", "rot90s"]
LABELS = ("control_points", "points", "facets", "holes")


def cases(tier):
    q = tier == "quick"
    out = []
    for t in MAPS[:4 if q else 8]:
        for i, s in enumerate(SECS):
            b = dict(s, tr=t)
            if s.get("big"):
                if i % 4 == MAPS.index(t):
                    out += [dict(b, mesh={"s": 0}, kind=k) for k in ("geometry", "mesh")]
                continue
            for m in ([0] if q else [0, 0.4]):
                b = dict(b, mesh={"s": m})
                out += [dict(b, kind=k) for k in ("geometry", "mesh", "target")]
                if not s.get("apart"):
                    out += [dict(b, kind="centroids", depth=3 if q else 4, first=o) for o in " GWPF" if not q or i % 2 == MAPS.index(t) % 2]
                else:
                    out.append(dict(b, kind="centroids", depth=2, first=" ", ops="GP"))
    return out


def setup():
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    return plt


def make(case):
    from sectionproperties.analysis import Section
    g = ref.build(dict(case, tr=trn(case["tr"])))
    obs.mesh(g, case["mesh"], ref.area_scale(trn(case["tr"])))
    return g, Section(g)


def size_of(case):
    v = ref.extents(dict(case, tr=trn(case["tr"])))
    return max(v[1] - v[0], v[3] - v[2]), max(abs(x) for x in v)


def rgba(c):
    from matplotlib.colors import to_rgba
    return tuple(round(float(v), 6) for v in to_rgba(c))


def lines_of(ax):
    return [(l.get_marker(), l.get_linestyle(), l.get_label(), np.array(l.get_xydata(), float), rgba(l.get_color())) for l in ax.lines]


def texts_of(ax):
    return [(t.get_text(), tuple(map(float, t.xy)) if hasattr(t, "xy") else tuple(map(float, t.get_position()))) for t in ax.texts if t.get_text()]


def legend_of(ax):
    l = ax.get_legend()
    return None if l is None else [t.get_text() for t in l.get_texts()]


def is_marker(l, m):
    return l[0] == m


# ------------------------------------------------------------------ geometry
def geometry(case, rec, plt):
    from shapely import LineString, Point, unary_union
    c = dict(case, tr=trn(case["tr"]))
    size, far = size_of(case)
    tol = 1e-9 * max(size, far)
    g = ref.build(c)
    want = unary_union([LineString(list(r) + [r[0]]) for e, hs, m in ref.exact_regions(c) for r in [ref.fl(e)] + [ref.fl(h) for h in hs]])
    from shapely import Polygon
    solids = [Polygon(ref.fl(e), [ref.fl(h) for h in hs]) for e, hs, m in ref.exact_regions(c)]
    solid = unary_union(solids)
    for stage in ("new", "meshed"):
        if stage == "meshed":
            obs.mesh(g, case["mesh"], ref.area_scale(c["tr"]))
        before = (list(map(tuple, g.points)), list(map(tuple, g.facets)), list(map(tuple, g.holes)), list(map(tuple, g.control_points)))
        for n in range(5):
            for labels in itertools.combinations(LABELS, n):
                for cp, leg in itertools.product((True, False), repeat=2):
                    ax = g.plot_geometry(labels=labels, cp=cp, legend=leg, title=f"T{n}", render=False)
                    tag = f"plot of the {stage} geometry, labels {labels}, cp={cp}, legend={leg}"
                    ls = lines_of(ax)
                    rec.check(all(len(l[3]) in (1, 2) for l in ls), f"{tag}: drawn lines are not facets or marks")
                    seg = [l for l in ls if len(l[3]) == 2 and l[1] == "-"]
                    drawn = unary_union([LineString(l[3]) for l in seg])
                    rec.check(want.difference(drawn.buffer(tol)).length <= 1e-6 * size, lambda: f"{tag}: boundary of length {want.difference(drawn.buffer(tol)).length} not drawn")
                    rec.check(drawn.difference(want.buffer(tol)).length <= 1e-6 * size, lambda: f"{tag}: lines drawn that are no boundary")
                    pts = {tuple(p) for l in seg for p in l[3]}
                    rec.check(pts == set(before[0]), f"{tag}: points marked differ from the points of the geometry")
                    single = [l for l in ls if len(l[3]) == 1]
                    hx = sorted(tuple(l[3][0]) for l in single if is_marker(l, "x"))
                    cx = sorted(tuple(l[3][0]) for l in single if is_marker(l, "o"))
                    rec.check(hx == sorted(before[2]), lambda: f"{tag}: holes marked at {hx}, geometry has {before[2]}")
                    rec.check(all(not solid.contains(Point(h)) for h in hx), f"{tag}: a hole is marked in the material")
                    rec.check(cx == (sorted(before[3]) if cp else []), lambda: f"{tag}: control points marked at {cx}, geometry has {before[3]}")
                    if cp:
                        rec.check(all(sum(s.contains(Point(p)) for p in cx) == 1 for s in solids), f"{tag}: not one control point marked in every region")
                    exp = []
                    for lb in labels:
                        if lb == "facets":
                            exp += [(str(i), tuple((np.array(before[0][a]) + np.array(before[0][b])) / 2)) for i, (a, b) in enumerate(before[1])]
                        else:
                            exp += [(str(i), tuple(p)) for i, p in enumerate({"control_points": before[3], "points": before[0], "holes": before[2]}[lb])]
                    got = texts_of(ax)
                    rec.check(sorted(t for t, _ in got) == sorted(t for t, _ in exp), lambda: f"{tag}: labels {sorted(t for t, _ in got)}, expected {sorted(t for t, _ in exp)}")
                    left = list(got)
                    for t, p in exp:
                        k = [i for i, (u, v) in enumerate(left) if u == t and math.dist(p, v) <= tol]
                        rec.check(k, lambda: f"{tag}: number {t} is not at {p}")
                        left.pop(k[0])
                    le = legend_of(ax)
                    if leg:
                        e = ["Points & Facets"] + (["Holes"] if before[2] else []) + (["Control Points"] if cp else [])
                        rec.check(le == e, lambda: f"{tag}: legend {le}, expected {e}")
                    else:
                        rec.check(le is None, f"{tag}: a legend is drawn")
                    rec.check(ax.get_title() == f"T{n}", f"{tag}: title {ax.get_title()!r}")
                    rec.check(before == (list(map(tuple, g.points)), list(map(tuple, g.facets)), list(map(tuple, g.holes)), list(map(tuple, g.control_points))), f"{tag}: the geometry changed")
                    plt.close("all")
                    rec.step(); rec.state((stage, labels, cp, leg, repr(case["regions"]), case["tr"]))
    rec.trace(); rec.outcome(("geometry", repr(case["regions"])))


# ---------------------------------------------------------------------- mesh
def tri_xy(s, i):
    return frozenset(tuple(map(float, s.mesh_nodes[int(n)])) for n in s.mesh_elements[i][:3])


def edges_of(s, els):
    out = set()
    for i in els:
        a, b, c = (tuple(map(float, s.mesh_nodes[int(n)])) for n in s.mesh_elements[i][:3])
        out |= {frozenset((a, b)), frozenset((b, c)), frozenset((c, a))}
    return out


def drawn_faces(ax):
    """{triangle vertices: colour} of the colour mesh"""
    from matplotlib.collections import PolyCollection, TriMesh
    out = []
    for c in ax.collections:
        if isinstance(c, PolyCollection) and c.get_array() is not None:
            c.update_scalarmappable()
            fc = c.get_facecolor()
            for p, f in zip(c.get_paths(), fc):
                out.append((frozenset(map(tuple, np.array(p.vertices[:3], float))), tuple(round(float(v), 6) for v in f)))
            if len(fc) != len(c.get_paths()):
                out.append(("count", len(fc)))
    return out


def drawn_edges(ax):
    out = set()
    for l in ax.lines:
        xy = np.array(l.get_xydata(), float)
        if l.get_marker() not in ("None", None, "", " ") or l.get_linestyle() != "-":
            continue
        for p, q in zip(xy[:-1], xy[1:]):
            if not (np.isnan(p).any() or np.isnan(q).any()) and tuple(p) != tuple(q):
                out.add(frozenset((tuple(p), tuple(q))))
    return out


def check_mesh(rec, tag, ax, s, materials, mask):
    shown = [i for i in range(len(s.elements)) if mask is None or not mask[i]]
    rec.check(drawn_edges(ax) == edges_of(s, shown), f"{tag}: the triangles drawn are not those of the mesh elements{'' if mask is None else ' left by the mask'}")
    faces = drawn_faces(ax)
    if materials:
        got = sorted((sorted(f), c) for f, c in faces)
        exp = sorted((sorted(tri_xy(s, i)), rgba(s.elements[i].material.color)) for i in shown)
        rec.check([f for f, _ in got] == [f for f, _ in exp], f"{tag}: the shaded triangles are not those of the mesh elements")
        bad = [f for (f, c), (_, d) in zip(got, exp) if c != d]
        rec.check(not bad, lambda: f"{tag}: {len(bad)} of {len(exp)} elements shaded in another colour than their material's, first {bad[0]}")
    else:
        rec.check(not faces, f"{tag}: elements are shaded without materials")
    rec.step()


def mesh(case, rec, plt):
    import contextlib, io
    g, s = make(case)
    n = len(s.elements)
    mats = {}
    for i, e in enumerate(s.elements):
        mats.setdefault(e.material, []).append(i)
    masks = [None, [False] * n]
    masks += [[(i in els) != inv for i in range(n)] for els in mats.values() for inv in (0, 1)]
    single = range(n) if n <= 40 else range(0, n, n // 40 + 1)
    masks += [[(i == j) != bool(inv) for i in range(n)] for j in single for inv in (0, 1)]
    masks += [[(i < j) for i in range(n)] for j in single]
    uniq = []
    for m in masks:
        if m not in uniq and not (m is not None and all(m)):
            uniq.append(m)
    for k, m in enumerate(uniq):
        for materials in ((True, False) if k < 6 else (True,)):
            ax = s.plot_mesh(materials=materials, mask=m, title=f"M{k}", alpha=0.25, render=False)
            tag = f"plot of the mesh, materials={materials}, {'no mask' if m is None else f'{sum(m)} of {n} elements masked (mask {k})'}"
            check_mesh(rec, tag, ax, s, materials, m)
            if materials:
                exp, got = {(x.name, rgba(x.color)) for x in mats}, set()
                lg = ax.get_legend()
                hs = getattr(lg, "legend_handles", None) or lg.legendHandles
                got = [(t.get_text(), tuple(round(float(v), 6) for v in h.get_facecolor())) for t, h in zip(lg.get_texts(), hs)]
                rec.check(len(got) == len(mats), lambda: f"{tag}: {len(got)} legend entries for {len(mats)} materials")
                rec.check(set(got) == exp, lambda: f"{tag}: legend {got}, materials {exp}")
            rec.check(ax.get_title() == f"M{k}", f"{tag}: title {ax.get_title()!r}")
            plt.close("all")
            rec.state(("mesh", repr(case["regions"]), case["tr"], repr(case["mesh"]), k, materials))
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        s.display_mesh_info()
    t = buf.getvalue()
    nums = {w: int(a) for a, w in re.findall(r"(\d+)\s+(node|element|region)s?", t)}
    exp = dict(node=len(s.mesh_nodes), element=len(s.mesh_elements), region=len(case["regions"]))
    rec.check(nums == exp, lambda: f"printed mesh statistics {nums}, the mesh has {exp}")
    rec.trace(); rec.outcome(("mesh", repr(case["regions"])))


# ----------------------------------------------------- centroids and warping
MARK = [("Elastic centroid", "get_c"), ("Shear centre", "get_sc"), ("Global plastic centroid", "get_pc"), ("Principal plastic centroid", "get_pc_p")]


def getter(s, name):
    try:
        return getattr(s, name)()
    except RuntimeError:
        return None


def check_centroids(rec, tag, s, plt, size, done):
    # what is available, by what was calculated
    avail = {"get_c": "G" in done or "F" in done, "get_sc": "W" in done, "get_pc": "P" in done, "get_pc_p": "P" in done, "get_phi": "G" in done or "F" in done}
    for k, v in avail.items():
        rec.check((getter(s, k) is not None) == v, f"{tag}: {k} {'refused' if v else 'available'}")
    ax = s.plot_centroids(title="C", render=False)
    check_mesh(rec, tag, ax, s, True, None)
    from matplotlib.collections import PathCollection
    marks = {c.get_label(): [tuple(map(float, o)) for o in c.get_offsets()] for c in ax.collections if isinstance(c, PathCollection)}
    exp = {lb: [tuple(map(float, getter(s, f)))] for lb, f in MARK if avail[f]}
    rec.check(set(marks) == set(exp), lambda: f"{tag}: marks {sorted(marks)}, calculated {sorted(exp)}")
    for lb in exp:
        rec.check(len(marks[lb]) == 1 and math.dist(marks[lb][0], exp[lb][0]) <= 1e-12 * (size + math.hypot(*exp[lb][0])), lambda: f"{tag}: {lb} marked at {marks[lb]}, calculated {exp[lb]}")
    axes = {l[2]: l[3] for l in lines_of(ax) if str(l[2]).endswith("-axis")}
    rec.check(set(axes) == ({"11-axis", "22-axis"} if avail["get_phi"] else set()), lambda: f"{tag}: axes drawn: {sorted(axes)}")
    if axes:
        phi = math.radians(float(s.get_phi()))
        c = np.array(s.get_c(), float)
        lo, hi = s.mesh_nodes.min(axis=0), s.mesh_nodes.max(axis=0)
        for nm, d in (("11-axis", (math.cos(phi), math.sin(phi))), ("22-axis", (-math.sin(phi), math.cos(phi)))):
            xy = axes[nm]
            rec.check(len(xy) == 2, f"{tag}: {nm} has {len(xy)} points")
            t = [float((p - c) @ d) for p in xy]
            off = [abs(float((p - c) @ np.array([-d[1], d[0]]))) for p in xy]
            rec.check(max(off) <= 1e-7 * size, lambda: f"{tag}: the {nm} drawn is off the principal axis by {max(off)} (phi {math.degrees(phi)})")
            rec.check(min(t) < -1e-9 * size and max(t) > 1e-9 * size, lambda: f"{tag}: the {nm} drawn does not pass through the centroid: {xy.tolist()}")
            for p in xy:
                rec.check(p[0] <= lo[0] + 1e-6 * size or p[0] >= hi[0] - 1e-6 * size or p[1] <= lo[1] + 1e-6 * size or p[1] >= hi[1] - 1e-6 * size, lambda: f"{tag}: the {nm} drawn ends inside the section")
                rec.check(max(abs(p - c)) <= 20 * size, lambda: f"{tag}: the {nm} drawn ends far away")
    le = legend_of(ax)
    rec.check(sorted(le or []) == sorted(list(exp) + list(axes)), lambda: f"{tag}: legend {le}")
    rec.check(ax.get_title() == "C", f"{tag}: title {ax.get_title()!r}")
    plt.close("all")


class Spy:
    def __enter__(self):
        import matplotlib.axes
        self.A, self.calls = matplotlib.axes.Axes, []
        self.saved = {n: getattr(self.A, n) for n in ("tricontourf", "tricontour")}
        for n, f in self.saved.items():
            def wrap(ax, t, z, *a, _n=n, _f=f, **k):
                self.calls.append((_n, ax, np.array(t.x), np.array(t.y), np.array(t.get_masked_triangles()), np.array(z)))
                return _f(ax, t, z, *a, **k)
            setattr(self.A, n, wrap)
        return self

    def __exit__(self, *e):
        for n, f in self.saved.items():
            setattr(self.A, n, f)


def check_warping(rec, tag, s, plt, done, omega):
    if not done & {"W", "F"}:
        try:
            s.plot_warping_function(render=False)
        except RuntimeError:
            plt.close("all")
            return
        finally:
            plt.close("all")
        rec.fail(f"{tag}: the warping function is plotted before an analysis that solves for it")
    for lines, level in ((True, 20), (False, 7)):
        with Spy() as spy:
            ax = s.plot_warping_function(with_lines=lines, level=level, title="W", render=False)
        fill = [c for c in spy.calls if c[0] == "tricontourf"]
        line = [c for c in spy.calls if c[0] == "tricontour"]
        rec.check(len(fill) == 1 and len(line) == int(lines), f"{tag}: warping function drawn with {len(fill)} filled and {len(line)} line contours")
        for _, a, x, y, t, z in fill + line:
            rec.check(a is ax and np.array_equal(x, s.mesh_nodes[:, 0]) and np.array_equal(y, s.mesh_nodes[:, 1]), f"{tag}: warping function drawn at other positions than the nodes")
            rec.check({tuple(sorted(map(int, r))) for r in t} == {tuple(sorted(map(int, e[:3]))) for e in s.mesh_elements}, f"{tag}: warping function drawn on other triangles than the elements")
            rec.check(len(z) == len(omega) and np.abs(z - omega).max() <= 1e-9 * max(np.abs(omega).max(), 1e-30) + 1e-12 * omega_scale(s), lambda: f"{tag}: drawn values are not the warping function")
        rec.check(drawn_edges(ax) == edges_of(s, range(len(s.elements))) and not drawn_faces(ax), f"{tag}: mesh drawn over the warping function differs from the elements")
        rec.check(ax.get_title() == "W", f"{tag}: title {ax.get_title()!r}")
        plt.close("all")
        rec.step()


def omega_scale(s):
    ext = s.mesh_nodes.max(axis=0) - s.mesh_nodes.min(axis=0)
    return float(ext @ ext)


def centroids(case, rec, plt):
    size, far = size_of(case)
    omega = None
    if not case.get("apart"):
        _, s0 = make(case)
        s0.calculate_geometric_properties(); s0.calculate_warping_properties()
        omega = np.array(s0.section_props.omega, float)
    ops = case.get("ops", "GWPF")
    first = case["first"].strip()
    hists = [""] if not first else [first + "".join(h) for n in range(case["depth"]) for h in itertools.product(ops, repeat=n)]
    if case.get("ops"):
        hists = ["".join(h) for n in range(case["depth"] + 1) for h in itertools.product(ops, repeat=n)]
    for h in hists:
        _, s = make(case)
        done = ""
        for o in [""] + list(h):
            if o == "G":
                s.calculate_geometric_properties()
            elif o == "W" or o == "P":
                if "G" not in done:
                    break
                s.calculate_warping_properties() if o == "W" else s.calculate_plastic_properties()
            elif o == "F":
                s.calculate_frame_properties()
            done += o
            if len(done) == len(h):     # shorter prefixes are histories of their own
                # results calculated on other grounds stay available
                tag = f"after {' '.join(done) or 'nothing'}"
                state = set(done)
                check_centroids(rec, tag, s, plt, size, state)
                if omega is not None:
                    check_warping(rec, tag, s, plt, state, omega)
                rec.step(); rec.state((repr(case["regions"]), case["tr"], repr(case["mesh"]), done))
        rec.trace()
    rec.outcome(("centroids", repr(case["regions"]), case["first"]))


# -------------------------------------------------------------------- target
def target(case, rec, plt):
    g, s = make(case)
    s.calculate_geometric_properties()
    if not case.get("apart"):
        s.calculate_warping_properties()
    plots = [("plot_geometry", g), ("plot_mesh", s), ("plot_centroids", s)] + ([] if case.get("apart") else [("plot_warping_function", s)])

    def content(ax):
        return (len(ax.lines), len(ax.collections), [np.array(l.get_xydata()).tobytes() for l in ax.lines], ax.get_title(), legend_of(ax))

    for name, o in plots:
        f = getattr(o, name)
        base = content(f(render=False, title="x"))
        rec.check(base[0] + base[1] > 0, f"{name}: nothing drawn")
        plt.close("all")
        # supplied axes
        fig, axs = plt.subplots(1, 2)
        for k in (0, 1):
            r = f(ax=axs[k], title="x", render=False)
            rec.check(r is axs[k], f"{name}: returned axes are not the ones supplied")
            rec.check(content(axs[k]) == base, f"{name}: drawing on supplied axes differs")
            if k == 0:
                rec.check(len(axs[1].lines) + len(axs[1].collections) == 0, f"{name}: drew on axes that were not supplied")
            rec.step()
        rec.check(plt.get_fignums() == [fig.number], f"{name}: opened another figure although axes were supplied")
        plt.close("all")
        # grids of axes
        for kw, idx in ((dict(nrows=1, ncols=2), [None, 0, 1]), (dict(nrows=2, ncols=2), [None, (0, 0), (0, 1), (1, 0), (1, 1)]), (dict(nrows=3), [None, 0, 2])):
            for i in idx:
                r = f(render=False, title="x", axis_index=i, **kw)
                fig = r.get_figure()
                flat = fig.axes
                shape = (kw.get("nrows", 1), kw.get("ncols", 1))
                pos = 0 if i is None else i if isinstance(i, int) else i[0] * shape[1] + i[1]
                rec.check(len(flat) == shape[0] * shape[1] and flat[pos] is r, f"{name}: axis_index={i} of {kw} drew on another axes")
                rec.check(content(r) == base, f"{name}: drawing on axes {i} of {kw} differs")
                rec.check(all(len(a.lines) + len(a.collections) == 0 for a in flat if a is not r), f"{name}: drew on several axes")
                plt.close("all")
                rec.step()
        try:
            f(render=False, axis_index=5, nrows=1, ncols=2)
        except ValueError:
            pass
        else:
            rec.fail(f"{name}: axis_index=5 of two axes accepted")
        plt.close("all")
        # file
        with tempfile.TemporaryDirectory() as d:
            p = os.path.join(d, "out.png")
            f(filename=p, title="x")
            rec.check(os.path.getsize(p) > 1000, f"{name}: no image saved")
            rec.check(not plt.get_fignums(), f"{name}: the figure stays open after saving")
        rec.step(); rec.trace(); rec.state((name, repr(case["regions"]), case["tr"]))
    rec.outcome(("target", repr(case["regions"])))


def run_case(case, rec):
    plt = setup()
    plt.close("all")
    {"geometry": geometry, "mesh": mesh, "centroids": centroids, "target": target}[case["kind"]](case, rec, plt)
