"""C11: results are available exactly when computed, for the right kind of section; transformed results."""
import itertools
import numpy as np
from . import ref, obs
from .c05 import HS
from .c06 import trn, sq
from .c10 import LSH, CMP, TEE, THREE, HOLE
from .core import close

NEEDS_FEA = True
CHUNK = 4
ALPHABET = ("histories over G (geometric), W (warping, direct), w (warping, iterative), P (plastic), F (frame), S (axial/bending stresses), M (shear/torsion stresses), "
            "A (bending stresses at a point), B (shear stresses at a point), V (plot of the warping function); sections with no, one, two and partly assigned materials; "
            "reference modulus: default, integers, floats, numpy numbers, materials")
BOUND = {"quick": "all 1,110 histories of length <=3 on 3 sections and all 110 of length <=2 on 7 more; after every step every result request, with 7 reference moduli in every state "
                  "reached first", "thorough": "all 11,110 histories of length <=4 on 10 sections, 7 reference moduli after every step"}
ORACLE = ("availability table: a result is available if and only if the analysis computing it has completed and its form fits the kind of section; dependent analyses fail with "
          "RuntimeError before theirs and change no available result; transformed results equal the modulus-weighted ones divided by the reference modulus")

OPS = "GWwPFSMABV"
# request: (computed by, kind of section: both/plain/composite, takes a reference modulus, computed by the frame analysis too (1: yes, 2: may be))
GET = {"get_area": ("G", "b", 0, 1), "get_perimeter": ("G", "b", 0, 0), "get_mass": ("G", "c", 0, 0), "get_ea": ("G", "c", 1, 2), "get_q": ("G", "p", 0, 2), "get_eq": ("G", "c", 1, 2),
       "get_ig": ("G", "p", 0, 2), "get_eig": ("G", "c", 1, 2), "get_c": ("G", "b", 0, 2), "get_ic": ("G", "p", 0, 1), "get_eic": ("G", "c", 1, 1), "get_z": ("G", "p", 0, 0),
       "get_ez": ("G", "c", 1, 0), "get_my": ("G", "c", 0, 0), "get_rc": ("G", "b", 0, 0), "get_ip": ("G", "p", 0, 0), "get_eip": ("G", "c", 1, 0), "get_phi": ("G", "b", 0, 1),
       "get_zp": ("G", "p", 0, 0), "get_ezp": ("G", "c", 1, 0), "get_my_p": ("G", "c", 0, 0), "get_rp": ("G", "b", 0, 0), "get_nu_eff": ("G", "c", 0, 0), "get_e_eff": ("G", "c", 0, 0),
       "get_g_eff": ("G", "c", 0, 0), "get_j": ("W", "p", 0, 1), "get_ej": ("W", "c", 1, 1), "get_sc": ("W", "b", 0, 0), "get_sc_p": ("W", "b", 0, 0), "get_sc_t": ("W", "b", 0, 0),
       "get_gamma": ("W", "p", 0, 0), "get_egamma": ("W", "c", 1, 0), "get_as": ("W", "p", 0, 0), "get_eas": ("W", "c", 1, 0), "get_as_p": ("W", "p", 0, 0), "get_eas_p": ("W", "c", 1, 0),
       "get_beta": ("W", "b", 0, 0), "get_beta_p": ("W", "b", 0, 0), "get_pc": ("P", "b", 0, 0), "get_pc_p": ("P", "b", 0, 0), "get_s": ("P", "p", 0, 0), "get_mp": ("P", "c", 0, 0),
       "get_sp": ("P", "p", 0, 0), "get_mp_p": ("P", "c", 0, 0), "get_sf": ("P", "b", 0, 0), "get_sf_p": ("P", "b", 0, 0)}
N1 = [dict(r, mat="S") for r in LSH]
HALF = [dict(CMP[0], mat=None), dict(CMP[1], mat="C")]
UNIT = [dict(r, mat="U") for r in LSH]
SECS = [dict(regions=LSH), dict(regions=CMP, compound=1), dict(regions=HALF, compound=1), dict(regions=N1), dict(regions=TEE, compound=1), dict(regions=THREE, compound=1),
        dict(regions=[dict(r, mat="D") for r in LSH]), dict(regions=UNIT), dict(regions=HALF[::-1], compound=1), dict(regions=[dict(r, mat="O") for r in LSH])]


def cases(tier):
    q = tier == "quick"
    out = []
    for k, s in enumerate(SECS):
        n = 3 if q and k < 3 else 2 if q else 4
        base = dict(s, tr=["id", "mix", "id"][k % 3], mesh={"s": 0}, k=k)
        if q:
            out += [dict(base, first=[o], depth=n) for o in OPS]
        else:
            out += [dict(base, first=[o, o2], depth=n) for o in OPS for o2 in OPS]
    return out


def new(case):
    from sectionproperties.analysis import Section
    g = ref.build(dict(case, tr=trn(case["tr"])))
    obs.mesh(g, case["mesh"], ref.area_scale(trn(case["tr"])))
    return Section(g)


def composite(case):
    return any(r["mat"] not in (None, "D") for r in case["regions"])


def refs():
    from sectionproperties.pre import Material
    return [1, 2.5, 200000, np.float64(3.25), 1e-3, Material("r", 7.0, 0.3, 11.0, 13.0, "w"), ref.material("S")]


def apply(s, op, done, pt, rec, tag):
    """one operation; the set of completed analyses afterwards"""
    need = {"G": "", "F": "", "W": "G", "w": "G", "P": "G", "S": "G", "A": "G", "M": "GW", "B": "GW", "V": "W"}[op]
    ok = all(n in done for n in need)

    def run():
        if op == "G":
            s.calculate_geometric_properties()
        elif op in "Ww":
            s.calculate_warping_properties(solver_type="cgs" if op == "w" else "direct")
        elif op == "P":
            s.calculate_plastic_properties()
        elif op == "F":
            s.calculate_frame_properties()
        elif op == "S":
            s.calculate_stress(n=1, mxx=2, m22=1)
        elif op == "M":
            s.calculate_stress(vy=1) if len(tag) % 2 else s.calculate_stress(n=1, mzz=2)
        elif op == "A":
            r = s.get_stress_at_points([pt], n=1, myy=2)
            rec.check(len(r) == 1 and r[0] is not None, f"{tag}: no stress at a point inside the section")
        elif op == "B":
            r = s.get_stress_at_points([pt], vx=1)
            rec.check(len(r) == 1 and r[0] is not None, f"{tag}: no stress at a point inside the section")
        elif op == "V":
            import matplotlib
            matplotlib.use("Agg")
            import matplotlib.pyplot as plt
            try:
                s.plot_warping_function(render=False)
            finally:
                plt.close("all")
    if ok:
        run()
        return done | ({"G": {"G"}, "W": {"W"}, "w": {"W"}, "P": {"P"}, "F": {"F"}}.get(op, set()))
    if op == "V" and "F" in done:
        return done   # the frame analysis computes a warping function as well; its plot is optional
    before = snapshot(s)
    try:
        run()
    except RuntimeError:
        after = snapshot(s)
        rec.check(before == after, lambda: f"{tag}: the refused operation changed {[k for k in before if before[k] != after[k]]}")
        return done
    rec.fail(f"{tag}: did not fail although {' and '.join(need)} has not been run")


def val(v):
    return tuple(float(x) for x in v) if isinstance(v, tuple) else (float(v),)


def snapshot(s):
    d = {}
    for name in GET:
        try:
            d[name] = val(getattr(s, name)())
        except RuntimeError:
            d[name] = None
    return d


def inspect(s, done, comp, rec, tag, refs_):
    for name, (by, kind, er, fr) in GET.items():
        fits = kind == "b" or (kind == "c") == comp
        must = fits and (by in done or ("F" in done and fr == 1))
        may = fits and "F" in done and fr == 2
        try:
            v = getattr(s, name)()
        except RuntimeError:
            rec.check(not must, lambda: f"{tag}: {name} is not available")
            continue
        rec.check(must or may, lambda: f"{tag}: {name} returned {v}, it must fail: " + ("not computed" if fits else "wrong kind of section"))
        w = val(v)
        rec.check(all(np.isfinite(w)), lambda: f"{tag}: {name} = {v}")
        rec.step()
        if er:
            for e in refs_:
                t = val(getattr(s, name)(e_ref=e))
                m = float(getattr(e, "elastic_modulus", e))
                rec.check(len(t) == len(w) and all(close(a * m, b, 1e-13) for a, b in zip(t, w)), lambda: f"{tag}: {name}(e_ref={m}) = {t}, modulus-weighted {w}")
                rec.step()
        elif refs_ and kind == "c":
            # results that are not transformed take no reference modulus, or ignore it
            try:
                t = val(getattr(s, name)(e_ref=2.5))
            except TypeError:
                continue
            rec.check(t == w, lambda: f"{tag}: {name} depends on a reference modulus")


def run_case(case, rec):
    comp = composite(case)
    ids = refs()
    s0 = new(case)
    rec.check(s0.is_composite() == comp, f"is_composite() is {s0.is_composite()}")
    for e in ids:
        rec.check(float(s0.get_e_ref(e)) == float(getattr(e, "elastic_modulus", e)), "get_e_ref")
    if not comp:
        try:
            s0.display_transformed_results(e_ref=2.0)
        except RuntimeError:
            pass
        else:
            rec.fail("transformed results of a section without materials were displayed")
    pt = tuple(map(float, s0.mesh_nodes[s0.mesh_elements[0][:3]].mean(axis=0)))
    seen = set()

    def go(hist, done):
        if len(hist) == case["depth"]:
            rec.trace()
            return
        for o in OPS:
            h = hist + [o]
            # from scratch: real objects only
            s = new(case)
            d = frozenset()
            for i, p in enumerate(h):
                tag = f"after {' '.join(h[:i]) or 'nothing'}: {p}"
                if i < len(h) - 1:
                    silent = {"G": s.calculate_geometric_properties, "F": s.calculate_frame_properties}.get(p)
                    if silent:
                        silent(); d = d | {p}
                        continue
                d = frozenset(apply(s, p, d, pt, rec, tag))
            key = d
            inspect(s, d, comp, rec, f"after {' '.join(h)}", ids if key not in seen or case["depth"] == 4 else [])
            seen.add(key)
            rec.step(len(h)); rec.state((case["k"], tuple(h)))
            go(h, d)

    s = new(case)
    inspect(s, frozenset(), comp, rec, "new section", [])
    d = frozenset()
    for i, p in enumerate(case["first"]):
        d = frozenset(apply(s, p, d, pt, rec, f"after {' '.join(case['first'][:i]) or 'nothing'}: {p}"))
    inspect(s, d, comp, rec, f"after {' '.join(case['first'])}", ids)
    rec.state((case["k"], tuple(case["first"])))
    go(case["first"], d)
    rec.outcome((case["k"], tuple(case["first"]), tuple(sorted(d))))
