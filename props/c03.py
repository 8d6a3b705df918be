"""C03 -- rotation matrix and the setters of a camera."""
from pyvc.api import contract

from .common import ANG, DM, calstate, ens_matrix, fullcal, unchanged


@contract("C03", ["calibration.rotation_matrix"])
def matrix_is_the_product_of_elementary_rotations(B):
    c = fullcal(B)
    s0 = calstate(c)
    B.call("calibration.rotation_matrix", c.ext_par)
    ens_matrix(B, "dm", c.ext_par["dm"], s0["omega"], s0["phi"], s0["kappa"])
    unchanged(B, "rotation_matrix", s0, calstate(c), DM)


@contract("C03", ["calibration.rotation_matrix"])
def matrix_is_a_rotation(B):
    c = fullcal(B)
    B.call("calibration.rotation_matrix", c.ext_par)
    m = c.ext_par["dm"]
    for i in range(3):
        for j in range(i, 3):
            B.ens_eq(f"row {i} . row {j}", sum(m[i, k] * m[j, k] for k in range(3)), 1.0 if i == j else 0.0)
            B.ens_eq(f"column {i} . column {j}", sum(m[k, i] * m[k, j] for k in range(3)), 1.0 if i == j else 0.0)
    B.ens_eq("determinant", B.det3(m), 1.0)


@contract("C03", ["calibration.Calibration.set_angles", "calibration.Calibration.get_angles",
                  "calibration.Calibration.update_rotation_matrix", "calibration.Calibration.get_rotation_matrix"])
def set_angles_updates_the_matrix(B):
    c = fullcal(B)
    s0 = calstate(c)
    a = B.vec("a", 3, s=(-3.2, 3.2))
    a0 = [a[0] + 0.0, a[1] + 0.0, a[2] + 0.0]
    arg = B.choice("as list", [0, 1])
    c.set_angles(a if arg == 0 else [a[0], a[1], a[2]])
    g = c.get_angles()
    for i in range(3):
        B.ens(f"reads back angle {i}", g[i] == a0[i])
    m = c.get_rotation_matrix()
    ens_matrix(B, "dm", m, *a0)
    unchanged(B, "set_angles", s0, calstate(c), DM + ANG)
    m[0, 0] = m[0, 0] + 1.0
    m[2, 1] = 7.0
    ens_matrix(B, "dm after the returned copy is changed", c.ext_par["dm"], *a0)
    a[0] = a[0] + 1.0
    B.ens("argument not kept", c.ext_par["omega"] == a0[0])


def _setter(B, n, set_, get, fields, chg=None):
    c = fullcal(B)
    s0 = calstate(c)
    v = B.vec("v", n)
    v0 = [v[i] + 0.0 for i in range(n)]
    getattr(c, set_)(v)
    g = getattr(c, get)()
    B.ens("length", len(g) == n)
    for i in range(n):
        B.ens(f"{get}[{i}]", g[i] == v0[i])
        B.ens(f"argument[{i}] unchanged", v[i] == v0[i])
    s1 = calstate(c)
    for f, x in zip(fields, v0):
        B.ens(f"{f} stored", s1[f] == x)
    unchanged(B, set_, s0, s1, fields)
    v[0] = v[0] + 1.0
    B.ens("later changes of the argument do not reach the camera", calstate(c)[fields[0]] == v0[0])


@contract("C03", ["calibration.Calibration.set_pos", "calibration.Calibration.get_pos"])
def set_pos(B):
    _setter(B, 3, "set_pos", "get_pos", ["x0", "y0", "z0"])


@contract("C03", ["calibration.Calibration.set_primary_point", "calibration.Calibration.get_primary_point"])
def set_primary_point(B):
    _setter(B, 3, "set_primary_point", "get_primary_point", ["xh", "yh", "cc"])


@contract("C03", ["calibration.Calibration.set_radial_distortion", "calibration.Calibration.get_radial_distortion"])
def set_radial(B):
    _setter(B, 3, "set_radial_distortion", "get_radial_distortion", ["ap0", "ap1", "ap2"])


@contract("C03", ["calibration.Calibration.set_decentering", "calibration.Calibration.get_decentering"])
def set_decentering(B):
    _setter(B, 2, "set_decentering", "get_decentering", ["ap3", "ap4"])


@contract("C03", ["calibration.Calibration.set_affine_distortion", "calibration.Calibration.get_affine"])
def set_affine(B):
    _setter(B, 2, "set_affine_distortion", "get_affine", ["ap5", "ap6"])


@contract("C03", ["calibration.Calibration.set_glass_vec", "calibration.Calibration.get_glass_vec"])
def set_glass(B):
    _setter(B, 3, "set_glass_vec", "get_glass_vec", ["glass0", "glass1", "glass2"])


@contract("C03", ["calibration.Calibration.set_added_par"])
def set_added_par(B):
    c = fullcal(B)
    s0 = calstate(c)
    v = B.vec("v", 7)
    v0 = [v[i] + 0.0 for i in range(7)]
    c.set_added_par(v)
    s1 = calstate(c)
    for i in range(7):
        B.ens(f"ap{i} stored", s1[f"ap{i}"] == v0[i])
    unchanged(B, "set_added_par", s0, s1, [f"ap{i}" for i in range(7)])
    v[0] = v[0] + 1.0
    B.ens("argument not kept", c.added_par[0] == v0[0])


@contract("C03", ["calibration.Calibration.set_rotation_matrix", "calibration.Calibration.get_rotation_matrix"])
def set_rotation_matrix(B):
    c = fullcal(B)
    s0 = calstate(c)
    m = B.np.array([[B.real(f"m{i}{j}") for j in range(3)] for i in range(3)], dtype=B.np.float64)
    m0 = [[m[i, j] + 0.0 for j in range(3)] for i in range(3)]
    c.set_rotation_matrix(m)
    g = c.get_rotation_matrix()
    for i in range(3):
        for j in range(3):
            B.ens(f"dm{i}{j}", g[i, j] == m0[i][j])
    unchanged(B, "set_rotation_matrix", s0, calstate(c), DM)
    m[1, 1] = m[1, 1] + 1.0
    B.ens("argument not kept", c.ext_par["dm"][1, 1] == m0[1][1])


SETTERS = [("set_pos", 3), ("set_angles", 3), ("set_primary_point", 3), ("set_radial_distortion", 3),
           ("set_decentering", 2), ("set_affine_distortion", 2), ("set_glass_vec", 3)]


@contract("C03", ["calibration.Calibration." + s for s, _ in SETTERS], cases=60)
def wrong_shapes_are_refused_without_effect(B):
    s, n = B.choice("setter", SETTERS)
    c = fullcal(B)
    s0 = calstate(c)
    k = B.choice("size", [1, 2, 3, 4, 5])
    B.req(k != n)
    v = B.vec("v", k)
    B.ens("refused", B.raises(ValueError, getattr(c, s), v))
    unchanged(B, "a refused " + s, s0, calstate(c))


@contract("C03", ["calibration.Calibration.__init__"])
def cameras_do_not_share_storage(B):
    K = B.mod("calibration").Calibration
    a, b = K(), K()
    sb = calstate(b)
    which = B.choice("operation", list(range(8)))
    v = B.vec("v", 3)
    if which == 0:
        a.set_pos(v)
    elif which == 1:
        a.set_angles(v)
    elif which == 2:
        a.set_primary_point(v)
    elif which == 3:
        a.set_radial_distortion(v)
    elif which == 4:
        a.set_decentering(v[:2])
        a.set_affine_distortion(v[1:])
    elif which == 5:
        a.glass_par[0] = v[0]
        a.glass_par[2] = v[1]
    elif which == 6:
        a.added_par[4] = v[0]
        a.ext_par["dm"][1, 2] = v[1]
        a.int_par.cc = v[2]
    else:
        a.mmlut["origin"][0] = v[0]
        a.mmlut["nr"] = 5
        a.mmlut["rw"] = 3
    unchanged(B, "the other camera", sb, calstate(b))
    c = K()
    unchanged(B, "a new camera", sb, calstate(c))
    B.ens("table of the other camera", b.mmlut["origin"][0] == 0 and b.mmlut["nr"] == 0 and b.mmlut["rw"] == 0)
    B.ens("table of a new camera", c.mmlut["origin"][0] == 0 and c.mmlut["nr"] == 0 and c.mmlut["rw"] == 0)
    for f, x in dict(x0=0, y0=0, z0=0, omega=0, phi=0, kappa=0, xh=0, yh=0, cc=0, glass0=0, glass1=0, glass2=1, ap0=0,
                     ap1=0, ap2=0, ap3=0, ap4=0, ap5=1, ap6=0).items():
        B.ens(f"a new camera starts with {f} = {x}", sb[f] == x)
    for i in range(3):
        for j in range(3):
            B.ens(f"a new camera starts with the identity, {i}{j}", sb[f"dm{i}{j}"] == (1 if i == j else 0))


@contract("C03", ["calibration.Calibration.increment_attribute"])
def increment_changes_one_parameter(B):
    c = fullcal(B)
    s0 = calstate(c)
    f = B.choice("field", ["x0", "y0", "z0", "omega", "phi", "kappa", "xh", "yh", "cc"])
    d = B.real("d")
    c.increment_attribute(f, d)
    s1 = calstate(c)
    B.ens_eq("incremented", s1[f], s0[f] + d)
    unchanged(B, "increment", s0, s1, [f])


@contract("C03", ["calibration.Calibration.copy"])
def copies_are_equal_and_independent(B):
    a = fullcal(B)
    # with a look-up table
    a.mmlut.origin = B.vec("origin", 3)
    a.mmlut.nr, a.mmlut.nz, a.mmlut.rw = 2, 3, B.int("rw", 1, 5)
    a.mmlut_data = B.np.array([[B.real(f"t{i}{j}") for j in range(3)] for i in range(2)])
    t0 = [[a.mmlut_data[i, j] + 0.0 for j in range(3)] for i in range(2)]
    o0, rw = [a.mmlut.origin[k] + 0.0 for k in range(3)], a.mmlut.rw + 0

    def table(nm, k):
        B.ens(f"{nm}: table", B.all_([k.mmlut_data[i, j] == t0[i][j] for i in range(2) for j in range(3)] + [k.mmlut.nr == 2, k.mmlut.nz == 3, k.mmlut.rw == rw]
                                     + [k.mmlut.origin[i] == o0[i] for i in range(3)]))
    s0 = calstate(a)
    b = B.mod("calibration").Calibration()
    r = a.copy(b)
    b = b if r is None else r
    unchanged(B, "copy", s0, calstate(b))
    table("copy", b)
    b.mmlut_data[1, 2] = b.mmlut_data[1, 2] + 1
    b.mmlut.rw = rw + 1
    table("the original", a)
    v = B.vec("v", 3)
    b.set_pos(v)
    b.set_angles(v)
    b.set_primary_point(v)
    b.set_radial_distortion(v)
    b.glass_par[0] = v[1]
    unchanged(B, "the original after the copy was changed", s0, calstate(a))
