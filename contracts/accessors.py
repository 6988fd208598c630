"""The accessors of a section: kind, fields in order, divided by the reference modulus or not, analysis."""

# name: (kind, e_ref allowed, fields in order, analysis)   kind: any | geometric | composite
TABLE = {
    "get_area": ("any", False, ["area"], "geometric"),
    "get_perimeter": ("any", False, ["perimeter"], "geometric"),
    "get_mass": ("composite", False, ["mass"], "geometric"),
    "get_ea": ("composite", True, ["ea"], "geometric"),
    "get_q": ("geometric", False, ["qx", "qy"], "geometric"),
    "get_eq": ("composite", True, ["qx", "qy"], "geometric"),
    "get_ig": ("geometric", False, ["ixx_g", "iyy_g", "ixy_g"], "geometric"),
    "get_eig": ("composite", True, ["ixx_g", "iyy_g", "ixy_g"], "geometric"),
    "get_c": ("any", False, ["cx", "cy"], "geometric"),
    "get_ic": ("geometric", False, ["ixx_c", "iyy_c", "ixy_c"], "geometric"),
    "get_eic": ("composite", True, ["ixx_c", "iyy_c", "ixy_c"], "geometric"),
    "get_z": ("geometric", False, ["zxx_plus", "zxx_minus", "zyy_plus", "zyy_minus"], "geometric"),
    "get_ez": ("composite", True, ["zxx_plus", "zxx_minus", "zyy_plus", "zyy_minus"], "geometric"),
    "get_my": ("composite", False, ["my_xx", "my_yy"], "geometric"),
    "get_rc": ("any", False, ["rx_c", "ry_c"], "geometric"),
    "get_ip": ("geometric", False, ["i11_c", "i22_c"], "geometric"),
    "get_eip": ("composite", True, ["i11_c", "i22_c"], "geometric"),
    "get_phi": ("any", False, ["phi"], "geometric"),
    "get_zp": ("geometric", False, ["z11_plus", "z11_minus", "z22_plus", "z22_minus"], "geometric"),
    "get_ezp": ("composite", True, ["z11_plus", "z11_minus", "z22_plus", "z22_minus"], "geometric"),
    "get_my_p": ("composite", False, ["my_11", "my_22"], "geometric"),
    "get_rp": ("any", False, ["r11_c", "r22_c"], "geometric"),
    "get_nu_eff": ("composite", False, ["nu_eff"], "geometric"),
    "get_e_eff": ("composite", False, ["e_eff"], "geometric"),
    "get_g_eff": ("composite", False, ["g_eff"], "geometric"),
    "get_j": ("geometric", False, ["j"], "warping"),
    "get_ej": ("composite", True, ["j"], "warping"),
    "get_sc": ("any", False, ["x_se+cx", "y_se+cy"], "warping"),
    "get_sc_p": ("any", False, ["x11_se", "y22_se"], "warping"),
    "get_sc_t": ("any", False, ["x_st+cx", "y_st+cy"], "warping"),
    "get_gamma": ("geometric", False, ["gamma"], "warping"),
    "get_egamma": ("composite", True, ["gamma"], "warping"),
    "get_as": ("geometric", False, ["a_sx", "a_sy"], "warping"),
    "get_eas": ("composite", True, ["a_sx", "a_sy"], "warping"),
    "get_as_p": ("geometric", False, ["a_s11", "a_s22"], "warping"),
    "get_eas_p": ("composite", True, ["a_s11", "a_s22"], "warping"),
    "get_beta": ("any", False, ["beta_x_plus", "beta_x_minus", "beta_y_plus", "beta_y_minus"], "warping"),
    "get_beta_p": ("any", False, ["beta_11_plus", "beta_11_minus", "beta_22_plus", "beta_22_minus"], "warping"),
    "get_pc": ("any", False, ["x_pc+cx", "y_pc+cy"], "plastic"),
    "get_pc_p": ("any", False, None, "plastic"),
    "get_s": ("geometric", False, ["sxx", "syy"], "plastic"),
    "get_mp": ("composite", False, ["sxx", "syy"], "plastic"),
    "get_sp": ("geometric", False, ["s11", "s22"], "plastic"),
    "get_mp_p": ("composite", False, ["s11", "s22"], "plastic"),
    "get_sf": ("any", False, ["sf_xx_plus", "sf_xx_minus", "sf_yy_plus", "sf_yy_minus"], "plastic"),
    "get_sf_p": ("any", False, ["sf_11_plus", "sf_11_minus", "sf_22_plus", "sf_22_minus"], "plastic"),
}

WARPING = ["omega", "psi_shear", "phi_shear", "delta_s", "x_se", "y_se", "x11_se", "y22_se", "x_st", "y_st", "gamma", "a_sx",
           "a_sy", "a_sxy", "a_s11", "a_s22", "beta_x_plus", "beta_x_minus", "beta_y_plus", "beta_y_minus", "beta_11_plus",
           "beta_11_minus", "beta_22_plus", "beta_22_minus", "j"]
PLASTIC = ["x_pc", "y_pc", "x11_pc", "y22_pc", "sxx", "syy", "s11", "s22", "sf_xx_plus", "sf_xx_minus", "sf_yy_plus",
           "sf_yy_minus", "sf_11_plus", "sf_11_minus", "sf_22_plus", "sf_22_minus"]


def expected(p, name, rot):
    """The stored quantities an accessor returns; rot(phi, x11, y22) is the rotation to global axes."""
    kind, ref, fields, _ = TABLE[name]
    if name == "get_pc_p":
        x, y = rot(p.phi, p.x11_pc, p.y22_pc)
        return [x + p.cx, y + p.cy]
    out = []
    for f in fields:
        a, _, b = f.partition("+")
        out.append(getattr(p, a) + getattr(p, b) if b else getattr(p, a))
    return out


def as_list(r):
    return list(r) if isinstance(r, (tuple, list)) else [r]
