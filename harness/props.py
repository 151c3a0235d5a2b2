"""Reads every public result of a Section into one flat dictionary (modulus-weighted for composite sections)."""
from __future__ import annotations


def geo(s):
    """All results of the geometric analysis."""
    c = s.is_composite()
    d = dict(area=s.get_area(), perimeter=s.get_perimeter())
    if c:
        d["mass"] = s.get_mass()
        d["ea"] = s.get_ea()
        d["qx"], d["qy"] = s.get_eq()
        d["ixx_g"], d["iyy_g"], d["ixy_g"] = s.get_eig()
        d["ixx_c"], d["iyy_c"], d["ixy_c"] = s.get_eic()
        d["zxx_plus"], d["zxx_minus"], d["zyy_plus"], d["zyy_minus"] = s.get_ez()
        d["i11_c"], d["i22_c"] = s.get_eip()
        d["z11_plus"], d["z11_minus"], d["z22_plus"], d["z22_minus"] = s.get_ezp()
        d["my_xx"], d["my_yy"] = s.get_my()
        d["my_11"], d["my_22"] = s.get_my_p()
        d["nu_eff"], d["e_eff"], d["g_eff"] = s.get_nu_eff(), s.get_e_eff(), s.get_g_eff()
    else:
        d["ea"] = d["area"]
        d["qx"], d["qy"] = s.get_q()
        d["ixx_g"], d["iyy_g"], d["ixy_g"] = s.get_ig()
        d["ixx_c"], d["iyy_c"], d["ixy_c"] = s.get_ic()
        d["zxx_plus"], d["zxx_minus"], d["zyy_plus"], d["zyy_minus"] = s.get_z()
        d["i11_c"], d["i22_c"] = s.get_ip()
        d["z11_plus"], d["z11_minus"], d["z22_plus"], d["z22_minus"] = s.get_zp()
    d["cx"], d["cy"] = s.get_c()
    d["rx"], d["ry"] = s.get_rc()
    d["r11"], d["r22"] = s.get_rp()
    d["phi"] = s.get_phi()
    return d


def warp(s):
    c = s.is_composite()
    d = {}
    d["j"] = s.get_ej() if c else s.get_j()
    d["gamma"] = s.get_egamma() if c else s.get_gamma()
    d["x_se"], d["y_se"] = s.get_sc()
    d["x11_se"], d["y22_se"] = s.get_sc_p()
    d["x_st"], d["y_st"] = s.get_sc_t()
    d["a_sx"], d["a_sy"] = s.get_eas() if c else s.get_as()
    d["a_s11"], d["a_s22"] = s.get_eas_p() if c else s.get_as_p()
    d["beta_x_plus"], d["beta_x_minus"], d["beta_y_plus"], d["beta_y_minus"] = s.get_beta()
    d["beta_11_plus"], d["beta_11_minus"], d["beta_22_plus"], d["beta_22_minus"] = s.get_beta_p()
    return d


def plas(s):
    c = s.is_composite()
    d = {}
    d["x_pc"], d["y_pc"] = s.get_pc()
    d["x11_pc"], d["y22_pc"] = s.get_pc_p()
    if c:
        d["sxx"], d["syy"] = s.get_mp()
        d["s11"], d["s22"] = s.get_mp_p()
    else:
        d["sxx"], d["syy"] = s.get_s()
        d["s11"], d["s22"] = s.get_sp()
    if True:
        d["sf_xx_plus"], d["sf_xx_minus"], d["sf_yy_plus"], d["sf_yy_minus"] = s.get_sf()
        d["sf_11_plus"], d["sf_11_minus"], d["sf_22_plus"], d["sf_22_minus"] = s.get_sf_p()
    return d


def frame(s):
    c = s.is_composite()
    if c:
        ixx, iyy, ixy = s.get_eic()
    else:
        ixx, iyy, ixy = s.get_ic()
    return dict(area=s.get_area(), ixx_c=ixx, iyy_c=iyy, ixy_c=ixy, j=s.get_ej() if c else s.get_j(), phi=s.get_phi())


# (length exponent, modulus exponent [composite], strength exponent [composite])
DIMS = dict(
    area=(2, 0), perimeter=(1, 0), ea=(2, 1), qx=(3, 1), qy=(3, 1), ixx_g=(4, 1), iyy_g=(4, 1), ixy_g=(4, 1),
    ixx_c=(4, 1), iyy_c=(4, 1), ixy_c=(4, 1), zxx_plus=(3, 1), zxx_minus=(3, 1), zyy_plus=(3, 1), zyy_minus=(3, 1),
    i11_c=(4, 1), i22_c=(4, 1), z11_plus=(3, 1), z11_minus=(3, 1), z22_plus=(3, 1), z22_minus=(3, 1),
    cx=(1, 0), cy=(1, 0), rx=(1, 0), ry=(1, 0), r11=(1, 0), r22=(1, 0), phi=(0, 0), nu_eff=(0, 0), e_eff=(0, 1), g_eff=(0, 1),
    mass=(2, 0), my_xx=(3, 0), my_yy=(3, 0), my_11=(3, 0), my_22=(3, 0),
    j=(4, 1), gamma=(6, 1), x_se=(1, 0), y_se=(1, 0), x11_se=(1, 0), y22_se=(1, 0), x_st=(1, 0), y_st=(1, 0),
    a_sx=(2, 1), a_sy=(2, 1), a_s11=(2, 1), a_s22=(2, 1),
    beta_x_plus=(1, 0), beta_x_minus=(1, 0), beta_y_plus=(1, 0), beta_y_minus=(1, 0),
    beta_11_plus=(1, 0), beta_11_minus=(1, 0), beta_22_plus=(1, 0), beta_22_minus=(1, 0),
    x_pc=(1, 0), y_pc=(1, 0), x11_pc=(1, 0), y22_pc=(1, 0), sxx=(3, 0), syy=(3, 0), s11=(3, 0), s22=(3, 0),
    sf_xx_plus=(0, 0), sf_xx_minus=(0, 0), sf_yy_plus=(0, 0), sf_yy_minus=(0, 0),
    sf_11_plus=(0, 0), sf_11_minus=(0, 0), sf_22_plus=(0, 0), sf_22_minus=(0, 0),
)
