"""C02 -- lens distortion (Brown radial + decentering, affine shear and scale)."""
from pyvc.api import contract

def coefs(B, small=1.0):
    k = [B.real(n, s=(-1e-3 * small, 1e-3 * small)) for n in ("k1", "k2", "k3")]
    ap = k + [B.real(n, s=(-1e-3 * small, 1e-3 * small)) for n in ("p1", "p2")]
    scx, she = B.real("scx", s=(0.8, 1.2)), B.real("she", s=(-0.1, 0.1))
    return B.np.array(ap + [scx, she], dtype=B.np.float64)


def radial(B, ap, r2):
    return ap[0] * r2 + ap[1] * (r2 * r2) + ap[2] * (r2 * r2 * r2)


@contract("C02", ["trafo.distort_brown_affine"])
def distortion_fixes_origin(B):
    x, y = B.call("trafo.distort_brown_affine", 0.0, 0.0, coefs(B))
    B.ens_eq("x", x, 0.0)
    B.ens_eq("y", y, 0.0)


@contract("C02", ["trafo.correct_brown_affine"])
def correction_fixes_origin(B):
    x, y = B.call("trafo.correct_brown_affine", 0.0, 0.0, coefs(B))
    B.ens_eq("x", x, 0.0)
    B.ens_eq("y", y, 0.0)


@contract("C02", ["trafo.distort_brown_affine"], opts={"prove_ms": 20000})
def distortion_is_the_model(B):
    ap = coefs(B)
    x, y = B.real("x", s=(-8, 8)), B.real("y", s=(-8, 8))
    dx, dy = B.call("trafo.distort_brown_affine", x, y, ap)
    r2 = x * x + y * y
    q = radial(B, ap, r2)
    # radial and decentering; the y update uses the updated x in its mixed term, as liboptv does
    X = x + x * q + ap[3] * (r2 + 2 * x * x) + 2 * ap[4] * x * y
    Y = y + y * q + ap[4] * (r2 + 2 * y * y) + 2 * ap[3] * X * y
    B.ens_eq("x = scx X - sin(she) Y", dx, ap[5] * X - B.np.sin(ap[6]) * Y)
    B.ens_eq("y = cos(she) Y", dy, B.np.cos(ap[6]) * Y)


def _cloops(B):
    def inv(v, k):
        return [("scale and shear only: the start value or the shear-corrected point",
                 B.any_([B.all_([v.itnum == 0, v.xq == v.x, v.yq == v.y]),
                         B.all_([v.itnum >= 1, v.yq == v.y / v.cos_she])])),
                ("count", v.itnum >= 0)]
    return {"trafo.correct_brown_affine": {0: B.loop(inv, lambda v: 201 - v.itnum)}}


@contract("C02", ["trafo.correct_brown_affine"], loops=_cloops, opts={"prove_ms": 20000})
def correction_inverts_scale_and_shear(B):
    scx, she = B.real("scx", s=(0.8, 1.2)), B.real("she", s=(-0.3, 0.3))
    ap = B.np.array([0.0, 0.0, 0.0, 0.0, 0.0, scx, she], dtype=B.np.float64)
    B.req(scx != 0)
    B.req(B.np.cos(she) != 0)
    X, Y = B.real("X", s=(-8, 8)), B.real("Y", s=(-8, 8))
    c = B.np.cos(she)
    x, y = scx * X - B.np.sin(she) * Y, c * Y
    tol = B.choice("tol", [1e-5, 1e-8])
    B.req(B.any_([x != 0, y != 0]))
    # the shear correction needs a second pass; with one pass only the start value y
    # is available, so the claim is for results produced after at least two passes
    ux, uy = B.call("trafo.correct_brown_affine", x, y, ap, tol)
    B.ens_eq("y", uy, Y)
    B.ens("x, up to one pass of the shear term", B.any_([B.eq(ux, X), B.eq(ux, (x + Y * B.np.sin(she)) / scx)]))


def _tloops(B):
    return {"trafo.correct_brown_affine": {0: B.loop(lambda v, k: [("count", v.itnum >= 0)], lambda v: 201 - v.itnum)}}


@contract("C02", ["trafo.correct_brown_affine"], loops=_tloops)
def correction_terminates(B):
    """For every coefficient set and point: the iteration counter is a variant."""
    ap = coefs(B)
    B.req(ap[5] != 0)
    B.req(B.np.cos(ap[6]) != 0)
    x, y = B.real("x", s=(-8, 8)), B.real("y", s=(-8, 8))
    u = B.call("trafo.correct_brown_affine", x, y, ap)
    B.ens("a point", len(u) == 2)


def _sloops(B):
    B.ghost = {}
    return {"trafo.correct_brown_affine": {0: B.loop(lambda v, k: [("count", v.itnum >= 0)], lambda v: 201 - v.itnum,
                                                    exit=lambda v: B.ghost.update(xq=v.xq, yq=v.yq, rq=v.rq, r=v.r))}}


@contract("C02", ["trafo.correct_brown_affine", "trafo.distort_brown_affine"], loops=_sloops, conc=False,
          opts={"prove_ms": 20000}, note="settled: the last pass left the point and the radius where they were; "
          "no shear and no p1, where the correction is the exact inverse")
def a_settled_correction_is_the_exact_inverse(B):
    ap = B.np.array([B.real("k1"), B.real("k2"), B.real("k3"), 0.0, B.real("p2"), B.real("scx"), 0.0],
                    dtype=B.np.float64)
    x, y = B.real("x", s=(-8, 8)), B.real("y", s=(-8, 8))
    B.req(B.any_([x != 0, y != 0]))
    B.req(ap[5] != 0)
    ux, uy = B.call("trafo.correct_brown_affine", x, y, ap)
    g = B.ghost
    X, Y = B.real("settled x"), B.real("settled y")
    R = B.sqrt(X * X + Y * Y)
    # settled: last pass left point and radius where they were, and the result is that point
    ux, uy = B.generalize([ux, uy], [(g["xq"], X), (g["yq"], Y), (g["r"], R), (g["rq"], R)])
    B.req(B.all_([ux == X, uy == Y]))
    dx, dy = B.call("trafo.distort_brown_affine", X, Y, ap)
    B.ens_combo("x", dx, x, [(-ap[5], ux, X)])
    B.ens_combo("y", dy, y, [(-1, uy, Y)])


@contract("C02", ["trafo.correct_brown_affine", "trafo.distort_brown_affine"], sym=False, cases=400)
def settled_correction_is_a_preimage(B):
    """Corrected points map back to the given one (small coefficients, so the iteration settles)."""
    k = [B.real("k1", s=(-2e-4, 2e-4)), B.real("k2", s=(-1e-6, 1e-6)), B.real("k3", s=(-1e-8, 1e-8)),
         B.real("p1", s=(-1e-5, 1e-5)), B.real("p2", s=(-1e-5, 1e-5)), B.real("scx", s=(0.97, 1.03)),
         B.real("she", s=(-1e-3, 1e-3))]
    ap = B.np.array(k, dtype=B.np.float64)
    x, y = B.real("x", s=(-8, 8)), B.real("y", s=(-8, 8))
    B.req(abs(x) + abs(y) > 0.05)
    ux, uy = B.call("trafo.correct_brown_affine", x, y, ap, 1e-8)
    dx, dy = B.call("trafo.distort_brown_affine", ux, uy, ap)
    err = ((dx - x) ** 2 + (dy - y) ** 2) ** 0.5
    # terms of second order: shear or p1 times the other corrections (displacements of up to 0.4 here)
    bound = 1e-5 + 0.6 * abs(k[6]) + 100 * abs(k[3]) * 0.5
    B.ens("maps back", err <= bound, f"error {err} bound {bound}")


@contract("C02", ["trafo.correct_brown_affine", "trafo.distort_brown_affine"], sym=False, cases=400)
def settled_radial_correction_is_exact(B):
    # (coefficients for which the iteration contracts: corrections of up to a tenth of the radius)
    k = [B.real("k1", s=(-2e-4, 2e-4)), B.real("k2", s=(-1e-6, 1e-6)), B.real("k3", s=(-3e-9, 3e-9)),
         0.0, B.real("p2", s=(-2e-5, 2e-5)), B.real("scx", s=(0.95, 1.05)), 0.0]
    ap = B.np.array(k, dtype=B.np.float64)
    x, y = B.real("x", s=(-8, 8)), B.real("y", s=(-8, 8))
    B.req(abs(x) + abs(y) > 0.05)
    ux, uy = B.call("trafo.correct_brown_affine", x, y, ap, 1e-12)
    dx, dy = B.call("trafo.distort_brown_affine", ux, uy, ap)
    B.ens("maps back, x", abs(dx - x) < 1e-6, f"{dx} {x}")
    B.ens("maps back, y", abs(dy - y) < 1e-6, f"{dy} {y}")


def cal(B):
    c = B.mod("calibration").Calibration()
    c.int_par.xh, c.int_par.yh = B.real("xh"), B.real("yh")
    c.added_par = coefs(B, 1e-3)
    return c


@contract("C02", ["trafo.flat_to_dist"], contracts=lambda B: {
    "trafo.distort_brown_affine": B.pure("trafo.distort_brown_affine", ["f", "f"])})
def flat_to_dist_adds_the_principal_point(B):
    c = cal(B)
    x, y = B.real("x"), B.real("y")
    d = B.call("trafo.flat_to_dist", x, y, c)
    e = B.call("trafo.distort_brown_affine", x + c.int_par.xh, y + c.int_par.yh, c.added_par)
    B.ens_vec("distorted about the principal point", d, e)


@contract("C02", ["trafo.dist_to_flat"], contracts=lambda B: {
    "trafo.correct_brown_affine": B.pure("trafo.correct_brown_affine", ["f", "f"])})
def dist_to_flat_removes_the_principal_point(B):
    c = cal(B)
    x, y = B.real("x"), B.real("y")
    tol = B.real("tol", s=(1e-8, 1e-3))
    B.req(tol > 0)
    d = B.call("trafo.dist_to_flat", x, y, c, tol)
    e = B.call("trafo.correct_brown_affine", x, y, c.added_par, tol)
    B.ens_vec("corrected, then offset", d, [e[0] - c.int_par.xh, e[1] - c.int_par.yh])
