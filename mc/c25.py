"""C25: fibre export represents the section completely and unambiguously."""
import contextlib, itertools, os, shutil, tempfile
import numpy as np
from . import ref, obs, fem, gref
from .c06 import TN, trn, sq
from .c10 import LSH, CMP, TEE, THREE, HOLE
from .core import close

NEEDS_FEA = True
CHUNK = 10
ALPHABET = ("sections of 1..3 regions (L, T, hollow, two-material, three-material) in 4 frames; 2D, 3D and 3DOS (any letter case); geometry, compound or section, the latter also after analyses; main tags; line "
            "widths; written to a file or not; material names: plain, with blanks, part of each other, numbers, words of the export itself; mappings: none, complete, partial, "
            "swapped numbers, of unused names, empty")
BOUND = {"quick": "10 sections x 3 analysis types x 4 main tags x 5 widths x 3 kinds of input x file or not, and exports after 6 analysis histories; all ordered pairs of 14 names x 9 mappings x 3 analysis types on a "
                  "two-material section; triples of 6 names", "thorough": "also x 4 frames x 2 mesh sizes, all ordered triples of 14 names"}
ORACLE = ("parsed export: tags of the header and of the fibres agree, areas, centroids and first moments computed from the mesh, material word = requested tag or the name itself; "
          "sums equal the area and first moments of the exact shape; 3DOS: warping function and derivatives of an independent finite element solution about the origin")

NAMES = ["Steel", "Steel 500", "C", "Cell3D", "section", "1", "2", "e", "a b", "b", "Fibre3DOS", "10", "Grade-500", "500"]
SECS = [dict(regions=LSH), dict(regions=CMP, compound=1), dict(regions=TEE, compound=1), dict(regions=THREE, compound=1), dict(regions=HOLE), dict(regions=[sq(0, 0, 2, 1, "S")])]
SECS += [b for k, b in ref.big_sections() if k in ("bars", "chequer", "nested inside out", "grid")]
AT = ["2D", "3D", "3DOS", "2d", "3dOS"]
MAPS = ["none", "full", "swap", "first", "second", "unused", "empty", "same", "chain"]


def cases(tier):
    q = tier == "quick"
    out = []
    for k, s in enumerate(SECS):
        for tr in ([TN[(k * 3) % len(TN)]] if q else ["id", "mix", "rot345", "tiny"]):
            for m in ([[0, 0.4][k % 2]] if q else [0, 0.4]):
                for at in AT[:3] if k else AT:
                    for w in (160, 10, 40, 79, 100000):
                        out.append(dict(s, kind="form", tr=tr, mesh={"s": m}, at=at, width=w))
    for a, b in itertools.permutations(NAMES, 2):
        for at in ("2D", "3D", "3DOS"):
            out.append(dict(kind="names", names=[a, b], at=at))
    for t in itertools.permutations(NAMES[:6] if q else NAMES, 3):
        out.append(dict(kind="names", names=list(t), at=["2D", "3D", "3DOS"][len(out) % 3]))
    return out


def build(case):
    g = ref.build(dict(case, tr=trn(case["tr"])))
    obs.mesh(g, case["mesh"], ref.area_scale(trn(case["tr"])))
    return g


def parse(rec, text, at, main, tag):
    kind = at.upper()
    lines = [l for l in text.split("\n")]
    body, i = [], 0
    while i < len(lines):
        l = lines[i]
        while l.endswith("\\"):
            i += 1
            l = l[:-1] + (lines[i] if i < len(lines) else "")
        i += 1
        if l.strip() and not l.lstrip().startswith("#"):
            body.append(l.split())
    rec.check(body and body[0][:2] == ["section", "Fibre" + kind], lambda: f"{tag}: first command is {body[0][:3] if body else None}")
    rec.check(body[0][2] == str(main), lambda: f"{tag}: main section tag {body[0][2]}, requested {main}")
    tags = body[0][3:]
    cells = body[1:]
    n = {"2D": 6, "3D": 7, "3DOS": 10}[kind]
    for c in cells:
        rec.check(c[:2] == ["section", "Cell" + kind] and len(c) == n, lambda: f"{tag}: fibre command {' '.join(c)!r}")
    rec.check([c[2] for c in cells] == tags, lambda: f"{tag}: tags of the header and of the fibres differ")
    rec.check(len(set(tags)) == len(tags) and str(main) not in tags, lambda: f"{tag}: fibre tags are not unique")
    out = []
    for c in cells:
        v = c[3:]
        d = dict(area=float(v[0]))
        if kind == "2D":
            d["mat"], d["y"] = v[1], float(v[2])
        elif kind == "3D":
            d["mat"], d["y"], d["z"] = v[1], float(v[2]), float(v[3])
        else:
            d.update(omega=float(v[1]), py=float(v[2]), pz=float(v[3]), mat=v[4], y=float(v[5]), z=float(v[6]))
        out.append(d)
    return out


def word(name):
    return "-".join(name.split())


def compare(rec, tag, cells, sec, kind, mapping):
    m = {word(k): str(v) for k, v in (mapping or {}).items()}
    rec.check(len(cells) == len(sec.elements), lambda: f"{tag}: {len(cells)} fibres for {len(sec.elements)} elements")
    R = np.abs(sec.mesh_nodes).max()
    for c, tri, att in zip(cells, sec.mesh["triangles"], np.array(sec.mesh["triangle_attributes"]).T[0].astype(int)):
        (x1, y1), (x2, y2), (x3, y3) = sec.mesh_nodes[np.asarray(tri)[:3]]
        a = 0.5 * ((x2 - x1) * (y3 - y1) - (x3 - x1) * (y2 - y1))
        w = m.get(word(sec.materials[att].name), word(sec.materials[att].name))
        rec.check(close(c["area"], a, 2e-8), lambda: f"{tag}: fibre area {c['area']}, element area {a}")
        rec.check(close(c["y"], (x1 + x2 + x3) / 3, 2e-8, 1e-15 * R), lambda: f"{tag}: fibre at y = {c['y']}, element centroid {(x1 + x2 + x3) / 3}")
        if "z" in c:
            rec.check(close(c["z"], (y1 + y2 + y3) / 3, 2e-8, 1e-15 * R), lambda: f"{tag}: fibre at z = {c['z']}, element centroid {(y1 + y2 + y3) / 3}")
        rec.check(c["mat"] == w, lambda: f"{tag}: fibre material {c['mat']!r}, requested {w!r} for {sec.materials[att].name!r}")
        rec.step(4)


def run_case(case, rec):
    if case["kind"] == "names":
        return names(case, rec)
    from sectionproperties.analysis import Section
    from sectionproperties.post.fibre import to_fibre_section
    g = build(case)
    sec = Section(g)
    at, kind = case["at"], case["at"].upper()
    tag = f"{at}, width {case['width']}"
    base = None
    for main in (1, 7, 100, 0):
        t = to_fibre_section(g, main_section_tag=main, analysis_type=at, max_width=case["width"])
        cells = parse(rec, t, at, main, tag)
        compare(rec, tag, cells, sec, kind, None)
        base = base or (t, cells)
        rec.step()
    rec.check(to_fibre_section(sec, analysis_type=at, max_width=case["width"]) == base[0], f"{tag}: exports of the geometry and of the section differ")
    top = base[0][base[0].index("section Fibre"):].split("\n\n")[0].split("\n")
    head = len(f"section Fibre{kind} 1 ")
    rec.check(max(map(len, top)) <= max(case["width"], head) + len(str(len(cells) + 1)) + 2, lambda: f"{tag}: lines of {max(map(len, top))} characters")
    if case["width"] == 160:
        analysed(rec, tag, g, at, base[0])
    d = tempfile.mkdtemp(prefix="c25")
    try:
        f = os.path.join(d, "out.sp")
        t = to_fibre_section(sec, analysis_type=at, max_width=case["width"], save_to=f)
        rec.check(t == base[0] and open(f).read() == base[0], f"{tag}: written file or returned text differ")
        with open(f, "w") as h:
            h.write("x" * 200000)
        to_fibre_section(g, analysis_type=at, max_width=case["width"], save_to=f)
        rec.check(open(f).read() == base[0], f"{tag}: an existing file is not replaced")
    finally:
        shutil.rmtree(d)
    # sums against the exact shape
    cells = base[1]
    ex = [ref.exact_props(dict(case, tr=trn(case["tr"])))] if hasattr(ref, "exact_props") else None
    s2 = Section(g); s2.calculate_geometric_properties()
    A = s2.get_area(); R = np.abs(sec.mesh_nodes).max()
    comp = s2.is_composite()
    ws = {word(m.name): m.elastic_modulus for m in sec.materials}
    rec.check(close(sum(c["area"] for c in cells), A, 1e-7), lambda: f"{tag}: fibre areas sum to {sum(c['area'] for c in cells)}, area {A}")
    qx, qy = s2.get_eq() if comp else s2.get_q()
    emax = max(ws.values())
    if "z" in cells[0]:
        v = sum(c["area"] * c["z"] * ws[c["mat"]] for c in cells)
        rec.check(close(v, qx, 1e-7, 1e-7 * A * R * emax), lambda: f"{tag}: first moments sum to {v}, {qx} expected")
    v = sum(c["area"] * c["y"] * ws[c["mat"]] for c in cells)
    rec.check(close(v, qy, 1e-7, 1e-7 * A * R * emax), lambda: f"{tag}: first moments sum to {v}, {qy} expected")
    if kind == "3DOS":
        warping(rec, tag, cells, sec)
    rec.step(6)
    rec.state((repr(case["regions"]), case["tr"], at, case["width"], repr(case["mesh"])))
    rec.outcome((kind, len(cells), f"{cells[0]['area']:.8e}"))
    rec.trace()


HIST = ["G", "GW", "Gw", "GWP", "F", "GWS"]


def analysed(rec, tag, g, at, want):
    """the export of a section does not depend on the analyses it went through, and leaves their results alone"""
    from sectionproperties.analysis import Section
    from sectionproperties.post.fibre import to_fibre_section
    for h in HIST:
        if "P" in h and len(gref.parts(g)) > 4:
            continue
        s = Section(g)
        try:
            for o in h:
                {"G": s.calculate_geometric_properties, "F": s.calculate_frame_properties, "P": s.calculate_plastic_properties, "W": s.calculate_warping_properties,
                 "w": lambda: s.calculate_warping_properties(solver_type="cgs"), "S": lambda: s.calculate_stress(n=1, mxx=2, vx=0.5, mzz=0.25)}[o]()
        except RuntimeError:
            if h != "Gw":
                raise
            rec.count("iterative solver reports no convergence")
        old = {k: np.copy(v) for k, v in vars(s.section_props).items() if v is not None and not isinstance(v, str)}
        for obj in (s, s.geometry):
            t = to_fibre_section(obj, analysis_type=at)
            rec.check(t == want, lambda: f"{tag}: export after {h} differs: {next((a, b) for a, b in zip(t.split(chr(10)) + [''], want.split(chr(10)) + ['']) if a != b)}")
        new = {k: v for k, v in vars(s.section_props).items() if v is not None and not isinstance(v, str)}
        rec.check(set(old) == set(new) and all(np.array_equal(old[k], new[k]) for k in old), lambda: f"{tag}: the export after {h} changes results of the section")
        rec.step(2); rec.trace()


def warping(rec, tag, cells, sec):
    """stationary point of the torsion functional about the origin, on the same mesh; constant fixed up to the library's choice"""
    f = fem.from_section(sec)
    n = len(f.nodes)
    K = np.zeros((n, n)); F = np.zeros(n)
    P = f.nodes[f.els]
    for w, a, b in fem.EXACT:
        N, dN = fem.shapes(a, b)
        B = f.gL @ dN.T
        wt = w * f.A * f.E
        x, y = P[:, :, 0] @ N, P[:, :, 1] @ N
        ke = np.einsum("e,eki,ekj->eij", wt, B, B)
        fe = np.einsum("e,eki,ek->ei", wt, B, np.stack([y, -x], 1))
        for e, ids in enumerate(f.els):
            K[np.ix_(ids, ids)] += ke[e]; F[ids] += fe[e]
    K2 = np.block([[K, np.ones((n, 1)) * np.abs(K).max()], [np.ones((1, n)) * np.abs(K).max(), np.zeros((1, 1))]])
    om = np.linalg.solve(K2, np.append(F, 0))[:n]
    N, dN = fem.shapes(1 / 3, 1 / 3)
    B = f.gL @ dN.T
    we = om[f.els] @ N
    dw = np.einsum("eki,ei->ek", B, om[f.els])
    got = np.array([c["omega"] for c in cells]); gy = np.array([c["py"] for c in cells]); gz = np.array([c["pz"] for c in cells])
    sc = max(np.abs(we).max(), np.abs(got).max(), 1e-300); sd = max(np.abs(dw).max(), 1e-300)
    off = (got - we).mean()
    R = np.abs(f.nodes).max()
    rec.check(np.abs(got - we - off).max() <= 1e-6 * max(sc, sd * R), lambda: f"{tag}: warping function of the fibres differs by {np.abs(got - we - off).max()} from the reference")
    rec.check(np.abs(gy - dw[:, 0]).max() <= 1e-6 * sd and np.abs(gz - dw[:, 1]).max() <= 1e-6 * sd, lambda: f"{tag}: derivatives of the warping function differ from the reference by "
              f"{np.abs(gy - dw[:, 0]).max()}, {np.abs(gz - dw[:, 1]).max()}")
    rec.step(3 * len(cells))


def mapping_of(kind, names):
    if kind == "none":
        return None
    if kind == "full":
        return {n: 11 * (i + 1) for i, n in enumerate(names)}
    if kind == "swap":
        return {n: 11 * (i + 1) for i, n in reversed(list(enumerate(names)))}
    if kind == "first":
        return {names[0]: 5}
    if kind == "second":
        return {names[-1]: 2}
    if kind == "unused":
        return {"ll": 3, "Cell": 4, "0": 9, **{n: i + 1 for i, n in enumerate(names)}}
    if kind == "empty":
        return {}
    if kind == "same":
        return {n: 4 for n in names}
    return {n: (1, 2, 10)[i] for i, n in enumerate(names)}


MESHED = {}


def names(case, rec):
    from sectionproperties.analysis import Section
    from sectionproperties.post.fibre import to_fibre_section
    from sectionproperties.pre import Material
    from sectionproperties.pre import CompoundGeometry
    from sectionproperties.pre.library import rectangular_section
    nm = case["names"]
    gs = [rectangular_section(d=1, b=2, material=Material(n, 2.0 + i, 0.2, 3.0, 1.0, "w")).shift_section(y_offset=i) for i, n in enumerate(nm)]
    g = CompoundGeometry(gs)
    g.create_mesh([0])
    sec = Section(g)
    for mk in MAPS:
        mp = mapping_of(mk, nm)
        tag = f"{case['at']}, materials {nm}, mapping {mp}"
        t = to_fibre_section([g, sec][len(mk) % 2], analysis_type=case["at"], material_mapping=mp)
        compare(rec, tag, parse(rec, t, case["at"], 1, tag), sec, case["at"], mp)
        rec.step()
        rec.outcome((mk, case["at"]))
    rec.state((tuple(nm), case["at"]))
    rec.trace()
