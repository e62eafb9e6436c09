"""Observations through the public API, as flat dicts."""
import math


def names(prefix, vals, suff):
    return {f"{prefix}.{s}": float(v) for s, v in zip(suff, vals)}


def geo(sec):
    """All geometric-analysis results through the getters of the section's kind."""
    comp = sec.is_composite()
    d = {"area": sec.get_area(), "perimeter": sec.get_perimeter()}
    d["cx"], d["cy"] = sec.get_c()
    d["rx"], d["ry"] = sec.get_rc()
    d["r11"], d["r22"] = sec.get_rp()
    d["phi"] = sec.get_phi()
    if comp:
        d["mass"] = sec.get_mass(); d["ea"] = sec.get_ea()
        d["qx"], d["qy"] = sec.get_eq()
        d["ixx_g"], d["iyy_g"], d["ixy_g"] = sec.get_eig()
        d["ixx"], d["iyy"], d["ixy"] = sec.get_eic()
        d["zxx+"], d["zxx-"], d["zyy+"], d["zyy-"] = sec.get_ez()
        d["i11"], d["i22"] = sec.get_eip()
        d["z11+"], d["z11-"], d["z22+"], d["z22-"] = sec.get_ezp()
        d["nu_eff"] = sec.get_nu_eff(); d["e_eff"] = sec.get_e_eff(); d["g_eff"] = sec.get_g_eff()
        d["myx"], d["myy"] = sec.get_my(); d["my11"], d["my22"] = sec.get_my_p()
    else:
        d["qx"], d["qy"] = sec.get_q()
        d["ixx_g"], d["iyy_g"], d["ixy_g"] = sec.get_ig()
        d["ixx"], d["iyy"], d["ixy"] = sec.get_ic()
        d["zxx+"], d["zxx-"], d["zyy+"], d["zyy-"] = sec.get_z()
        d["i11"], d["i22"] = sec.get_ip()
        d["z11+"], d["z11-"], d["z22+"], d["z22-"] = sec.get_zp()
    return {k: float(v) for k, v in d.items()}


def warp(sec):
    comp = sec.is_composite()
    d = {}
    d["j"] = sec.get_ej() if comp else sec.get_j()
    d["gamma"] = sec.get_egamma() if comp else sec.get_gamma()
    d["x_se"], d["y_se"] = sec.get_sc()
    d["x11_se"], d["y22_se"] = sec.get_sc_p()
    d["x_st"], d["y_st"] = sec.get_sc_t()
    d["asx"], d["asy"] = sec.get_eas() if comp else sec.get_as()
    d["as11"], d["as22"] = sec.get_eas_p() if comp else sec.get_as_p()
    d["bx+"], d["bx-"], d["by+"], d["by-"] = sec.get_beta()
    d["b11+"], d["b11-"], d["b22+"], d["b22-"] = sec.get_beta_p()
    return {k: float(v) for k, v in d.items()}


def plast(sec, sf=True):
    comp = sec.is_composite()
    d = {}
    d["x_pc"], d["y_pc"] = sec.get_pc()
    d["x11_pc"], d["y22_pc"] = sec.get_pc_p()
    d["sxx"], d["syy"] = sec.get_mp() if comp else sec.get_s()
    d["s11"], d["s22"] = sec.get_mp_p() if comp else sec.get_sp()
    if sf:
        d["sfx+"], d["sfx-"], d["sfy+"], d["sfy-"] = sec.get_sf()
        d["sf11+"], d["sf11-"], d["sf22+"], d["sf22-"] = sec.get_sf_p()
    return {k: float(v) for k, v in d.items()}


def mesh(geom, m=None, scale=1.0):
    """Mesh with the case's parameters; sizes are multiplied by the area scale of the case's map."""
    m = m or {"s": 0}
    s = m["s"]
    m = dict(m, s=[v * scale for v in s] if isinstance(s, list) else s * scale)
    kw = {}
    if "a" in m:
        kw["min_angle"] = m["a"]
    if m.get("coarse"):
        kw["coarse"] = True
    geom.create_mesh(mesh_sizes=m["s"], **kw)
    return geom


def section(case, fresh=False):
    from sectionproperties.analysis import Section
    from . import ref
    g = ref.build(case, fresh)
    mesh(g, case.get("mesh"))
    return Section(g)
