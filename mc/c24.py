"""C24: displayed result tables show exactly the available results."""
import contextlib, io, itertools, os
import numpy as np
from . import ref
from .c11 import GET, SECS, new, composite, refs
from .c10 import HOLE
from .core import close

NEEDS_FEA = True
CHUNK = 4
ALPHABET = ("histories over G, W (direct), w (iterative), P, F; sections with no, one, two and partly assigned materials; number formats; reference moduli given as integers, "
            "floats, numpy numbers and materials; standard and wide consoles")
BOUND = {"quick": "all 156 histories of length <=3 on 4 sections (formats and reference moduli in rotation) and of length <=2 on 8 more, G and P on 3 of disjoint parts; every format x modulus after the full history",
         "thorough": "all 781 histories of length <=4 on 15 sections, every format and reference modulus after each"}
ORACLE = ("the rows of the printed table: names and order-independent set equal to those of the results available through the requests, values the formatted returned values "
          "(divided by the reference modulus in the transformed table)")

OPS = "GWwPF"
FMTS = ["8.6e", ".3f", "10.2e", "12.8g", ".2f", "+.3e", "20.12e"]
# request: labels in the plain table, in the composite table, in the transformed table
NAMES = {
    "get_area": (["area"], ["area"], ["geom area"]), "get_perimeter": (["perimeter"],) * 3, "get_mass": (None, ["mass"], ["mass"]), "get_ea": (None, ["e.a"], ["a"]),
    "get_q": (["qx", "qy"], None, None), "get_eq": (None, ["e.qx", "e.qy"], ["qx", "qy"]), "get_ig": (["ixx_g", "iyy_g", "ixy_g"], None, None),
    "get_eig": (None, ["e.ixx_g", "e.iyy_g", "e.ixy_g"], ["ixx_g", "iyy_g", "ixy_g"]), "get_c": (["cx", "cy"],) * 3, "get_ic": (["ixx_c", "iyy_c", "ixy_c"], None, None),
    "get_eic": (None, ["e.ixx_c", "e.iyy_c", "e.ixy_c"], ["ixx_c", "iyy_c", "ixy_c"]), "get_z": (["zxx+", "zxx-", "zyy+", "zyy-"], None, None),
    "get_ez": (None, ["e.zxx+", "e.zxx-", "e.zyy+", "e.zyy-"], ["zxx+", "zxx-", "zyy+", "zyy-"]), "get_my": (None, ["my_xx", "my_yy"], ["my_xx", "my_yy"]),
    "get_rc": (["rx", "ry"],) * 3, "get_ip": (["i11_c", "i22_c"], None, None), "get_eip": (None, ["e.i11_c", "e.i22_c"], ["i11_c", "i22_c"]), "get_phi": (["phi"],) * 3,
    "get_zp": (["z11+", "z11-", "z22+", "z22-"], None, None), "get_ezp": (None, ["e.z11+", "e.z11-", "e.z22+", "e.z22-"], ["z11+", "z11-", "z22+", "z22-"]),
    "get_my_p": (None, ["my_11", "my_22"], ["my_11", "my_22"]), "get_rp": (["r11", "r22"],) * 3, "get_nu_eff": (None, ["nu_eff"], ["nu_eff"]), "get_e_eff": (None, ["e_eff"], ["e_eff"]),
    "get_g_eff": (None, ["g_eff"], ["g_eff"]), "get_j": (["j"], None, None), "get_ej": (None, ["e.j"], ["j"]), "get_sc": (["x_se", "y_se"],) * 3, "get_sc_p": (["x1_se", "y2_se"],) * 3,
    "get_sc_t": (["x_st", "y_st"],) * 3, "get_gamma": (["gamma"], None, None), "get_egamma": (None, ["e.gamma"], ["gamma"]), "get_as": (["a_sx", "a_sy"], None, None),
    "get_eas": (None, ["e.a_sx", "e.a_sy"], ["a_sx", "a_sy"]), "get_as_p": (["a_s11", "a_s22"], None, None), "get_eas_p": (None, ["e.a_s11", "e.a_s22"], ["a_s11", "a_s22"]),
    "get_beta": (["beta_x+", "beta_x-", "beta_y+", "beta_y-"],) * 3, "get_beta_p": (["beta_11+", "beta_11-", "beta_22+", "beta_22-"],) * 3, "get_pc": (["x_pc", "y_pc"],) * 3,
    "get_pc_p": (["x11_pc", "y22_pc"],) * 3, "get_s": (["sxx", "syy"], None, None), "get_mp": (None, ["mp_xx", "mp_yy"], ["mp_xx", "mp_yy"]), "get_sp": (["s11", "s22"], None, None),
    "get_mp_p": (None, ["mp_11", "mp_22"], ["mp_11", "mp_22"]), "get_sf": (["sf_xx+", "sf_xx-", "sf_yy+", "sf_yy-"],) * 3, "get_sf_p": (["sf_11+", "sf_11-", "sf_22+", "sf_22-"],) * 3}


# disjoint parts (no warping analysis), a perimeter of -1 or several voids
APART = [dict(ext=[[0, 0], [1, 0], [1, 2], [0, 2]], holes=[], mat="S"), dict(ext=[[3, 0], [4, 0], [4, 1], [3, 1]], holes=[], mat="T")]
MORE = [dict(regions=APART, compound=1, ops="GP"), dict(regions=[dict(r, mat=None) for r in APART], compound=1, ops="GP"), dict(regions=[APART[0], dict(APART[1], mat=None)], compound=1, ops="GP"),
        dict(regions=HOLE), dict(regions=[dict(r, mat="C") for r in HOLE])]


def cases(tier):
    q = tier == "quick"
    out = []
    for k, s in enumerate(SECS + MORE):
        n = 3 if q and k < 4 else 2 if q else 4
        base = {a: b for a, b in dict(s, tr=["id", "mix", "id"][k % 3], mesh={"s": 0}, k=k).items() if a != "ops"}
        out.append(dict(base, hist="", full=1))
        for m in range(1, n + 1):
            for h in itertools.product(s.get("ops", OPS), repeat=m):
                out.append(dict(base, hist="".join(h), full=int(not q or (m == 3 and set(h) == set("GWP")))))
    return out


def shown(f):
    """rows of the table printed by f"""
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        f()
    rows = []
    for line in out.getvalue().splitlines():
        for bar in ("│", "┃", "|"):
            if line.strip().startswith(bar):
                cells = [c.strip() for c in line.strip().strip(bar).split(bar)]
                if len(cells) == 2 and cells[0] != "Property":
                    rows.append(tuple(cells))
                break
    return rows, out.getvalue()


def run_case(case, rec):
    comp = composite(case)
    s = new(case)
    for i, o in enumerate(case["hist"]):
        try:
            {"G": s.calculate_geometric_properties, "W": s.calculate_warping_properties, "w": lambda: s.calculate_warping_properties(solver_type="cgs"),
             "P": s.calculate_plastic_properties, "F": s.calculate_frame_properties}[o]()
        except RuntimeError:
            pass
    k = len(case["hist"]) + sum(OPS.index(c) * 5 ** i for i, c in enumerate(case["hist"])) + case["k"]
    rs = refs()
    fmts = FMTS if case["full"] else [FMTS[k % len(FMTS)]]
    ers = rs if case["full"] else [rs[k % len(rs)]]
    have = {}
    for name in GET:
        try:
            v = getattr(s, name)()
        except RuntimeError:
            continue
        have[name] = v if isinstance(v, tuple) else (v,)
    tag = f"after {case['hist'] or 'nothing'}"
    for fmt in fmts:
        check(rec, f"{tag}, format {fmt}", lambda: s.display_results(fmt=fmt) if (fmt != "8.6e" or k % 2) else s.display_results(), have, 1 if comp else 0, fmt, None)
        if comp:
            for e in ers:
                m = float(getattr(e, "elastic_modulus", e))
                check(rec, f"{tag}, format {fmt}, transformed with {m}", lambda: s.display_transformed_results(e_ref=e, fmt=fmt), have, 2, fmt, m)
    rec.state((case["k"], case["hist"]))
    rec.outcome((case["k"], tuple(sorted(have))))
    rec.trace()


def check(rec, tag, show, have, table, fmt, er):
    rows, text = shown(show)
    want = {}
    for name, v in have.items():
        labels = NAMES[name][table]
        if labels is None:
            continue
        for l, x in zip(labels, v):
            want[l] = x / er if table == 2 and GET[name][2] else x
    if table == 2:
        want["e_ref"] = er
    got = dict(rows)
    rec.check(len(got) == len(rows), lambda: f"{tag}: repeated rows in {rows}")
    rec.check(set(got) == set(want), lambda: f"{tag}: rows {sorted(set(got) - set(want))} shown but not available, {sorted(set(want) - set(got))} available but not shown")
    for l, x in want.items():
        exp = {f"{y:>{fmt}}".strip() for y in (x, x * (1 + 2e-16), x * (1 - 2e-16))} if l != "e_ref" else {f"{x:>{fmt}}".strip()}
        rec.check(got[l] in exp, lambda: f"{tag}: {l} shown as {got[l]!r}, the value is {x!r}")
        rec.step()
