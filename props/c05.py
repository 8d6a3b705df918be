"""C05 -- projection through the media, glass-aligned frame."""
from pyvc.api import contract
from .common import calstate, fullcal, unchanged

OPT = {"sqrt_alias": True, "prove_ms": 10000, "total_s": 120.0}


class Frame:
    """Camera centre P, glass vector G = L*u, glass thickness d, object point Q.
    a = Q - P split into height h along u and the rest w across."""

    def __init__(self, B, d=None):
        self.B = B
        self.L = B.pos("L", (1, 80))
        self.u = B.unit("u")
        self.P, self.Q = B.vec("P", 3, s=(-100, 100)), B.vec("Q", 3, s=(-100, 100))
        self.d = B.pos("d", (0.1, 30)) if d is None else d
        B.sqrt_hint(self.L)
        self.g = self.L * self.u
        u, P, Q = self.u, self.P, self.Q
        self.h = B.dot3(u, Q) - B.dot3(u, P)
        self.w = [Q[i] - P[i] - self.h * u[i] for i in range(3)]
        self.w2 = B.dot3(self.w, self.w)
        B.value_hint(*self.w)

    def axis(self, far=None):
        """Off the axis (through P along the glass normal) or on it."""
        B = self.B
        if far:
            B.req(B.sqrt(self.w2) > (0 if not B.conc else 1e-2))
        if far is False:
            if B.conc:
                self.Q = self.P + self.h * self.u
                self.h = B.dot3(self.u, self.Q) - B.dot3(self.u, self.P)
            else:
                B.req(B.all_([x == 0 for x in self.w]))
            self.w = [0.0, 0.0, 0.0]


@contract("C05", ["multimed.fast_trans_cam_point"], opts=OPT, cases=200)
def glass_frame_keeps_heights_and_distances(B):
    q = Frame(B)
    pos_t, cp, cc, z0 = B.call("multimed.fast_trans_cam_point", q.P, q.d, q.g, q.Q)
    u = q.u
    B.ens_eq("camera height above the glass", z0, B.dot3(u, q.P) - q.L)
    B.ens_eq("point height above the glass", pos_t[2], B.dot3(u, q.Q) - q.L)
    B.ens_eq("second coordinate", pos_t[1], 0.0)
    B.ens_eq("squared distance across the normal", pos_t[0] * pos_t[0], q.w2, 1e-6)
    B.ens("distance is not negative", B.ge(pos_t[0], 0.0))
    for i in range(3):
        B.ens_eq(f"foot of the point on the glass [{i}]", cp[i], q.Q[i] - (B.dot3(u, q.Q) - q.L) * u[i], 1e-6)
        B.ens_eq(f"foot of the camera on the outer face [{i}]", cc[i],
                 q.P[i] - (B.dot3(u, q.P) - q.L - q.d) * u[i], 1e-6)


@contract("C05", ["multimed.fast_trans_cam_point", "multimed.fast_back_trans_point"], opts=OPT, cases=200)
def frame_there_and_back_is_the_identity(B):
    q = Frame(B)
    q.axis(True)
    pos_t, cp, cc, z0 = B.call("multimed.fast_trans_cam_point", q.P, q.d, q.g, q.Q)
    r = B.call("multimed.fast_back_trans_point", q.g, q.d, cc, cp, pos_t)
    for i in range(3):
        B.ens_eq(f"[{i}]", r[i], q.Q[i], 1e-6)


@contract("C05", ["multimed.fast_trans_cam_point", "multimed.fast_back_trans_point"], opts=OPT, cases=200)
def frame_there_and_back_on_the_axis(B):
    q = Frame(B)
    B.req(q.h != 0)
    q.Q = q.P + q.h * q.u
    pos_t, cp, cc, z0 = B.call("multimed.fast_trans_cam_point", q.P, q.d, q.g, q.Q)
    B.ens_eq("on the axis", pos_t[0], 0.0, 1e-6)
    r = B.call("multimed.fast_back_trans_point", q.g, q.d, cc, cp, pos_t)
    for i in range(3):
        B.ens_eq(f"[{i}]", r[i], q.Q[i], 1e-6)


@contract("C05", ["multimed.fast_trans_cam_point", "multimed.fast_back_trans_point"], opts=OPT, cases=200)
def shifted_points_come_back_at_their_distance(B):
    """A position changed in the glass frame: its height and distance are kept, on the same side."""
    q = Frame(B)
    q.axis(True)
    f, z = B.real("f", s=(-2, 3)), B.real("z", s=(-50, 50))
    pos_t, cp, cc, z0 = B.call("multimed.fast_trans_cam_point", q.P, q.d, q.g, q.Q)
    t = B.np.array([f * pos_t[0], 0.0, z], dtype=B.np.float64)
    r = B.call("multimed.fast_back_trans_point", q.g, q.d, cc, cp, t)
    up = B.dot3(q.u, q.P)
    for i in range(3):
        B.ens_eq(f"[{i}]", r[i], q.P[i] + (z + q.L - up) * q.u[i] + f * q.w[i], 1e-6)


@contract("C05", ["multimed.trans_cam_point", "multimed.back_trans_point"], contracts=lambda B: {
    "multimed.fast_trans_cam_point": B.pure("multimed.fast_trans_cam_point", [3, 3, 3, "f"]),
    "multimed.fast_back_trans_point": B.pure("multimed.fast_back_trans_point", 3)}, cases=60)
def frame_parameters_reach_the_transform(B):
    c = fullcal(B)
    if B.conc:
        B.req(abs(c.glass_par).sum() > 0.1)
    M = B.mod("parameters").MultimediaPar
    n1, n2, n3, d = [B.real(x, s=(1, 2)) for x in ("n1", "n2", "n3", "d")]
    mm = M(nlay=1, n1=n1, n2=[n2], n3=n3, d=[d])
    Q = B.vec("Q", 3)
    s0 = calstate(c)
    q0 = B.snap(Q)
    a = B.call("multimed.trans_cam_point", c.ext_par, mm, c.glass_par, Q)
    e = c.ext_par
    P = B.np.array([e["x0"] + 0.0, e["y0"] + 0.0, e["z0"] + 0.0], dtype=B.np.float64)
    b = B.call("multimed.fast_trans_cam_point", P, d, c.glass_par, q0)
    for i in range(3):
        B.ens_vec(f"part {i}", a[i], b[i])
    B.ens_eq("camera height", a[3], b[3])
    r = B.call("multimed.back_trans_point", Q, mm, c.glass_par, a[1], a[2])
    r2 = B.call("multimed.fast_back_trans_point", c.glass_par, d, a[2], a[1], q0)
    B.ens_vec("back", r, r2)
    unchanged(B, "transform", s0, calstate(c))
    B.ens_vec("the point is left alone", Q, q0)


@contract("C05", ["multimed.move_along_ray"], cases=100)
def move_along_ray_reaches_the_depth(B):
    z, v, a = B.real("z"), B.vec("v", 3), B.vec("a", 3)
    B.req(a[2] != 0 if not B.conc else abs(a[2]) > 1e-3)
    v0, a0 = B.snap(v), B.snap(a)
    o = B.call("multimed.move_along_ray", z, v, a)
    B.ens_eq("depth", o[2], z)
    for i in range(2):
        B.ens_eq(f"on the ray [{i}]", (o[i] - v0[i]) * a0[2], (z - v0[2]) * a0[i], 1e-6)
    B.ens_vec("start left alone", v, v0)
    B.ens_vec("direction left alone", a, a0)


def _mmpar(B, nlay=1, one=None):
    M = B.mod("parameters").MultimediaPar
    if one is not None:
        n1, n3, n2 = one, one, [one] * nlay
    else:
        n1, n3 = B.pos("n1", (1, 1.6)), B.pos("n3", (1, 1.6))
        n2 = [B.pos(f"n2{i}", (1, 1.6)) for i in range(nlay)]
    d = [B.pos(f"d{i}", (0.1, 10)) for i in range(nlay)]
    return M(nlay=nlay, n1=n1, n2=n2, n3=n3, d=d)


PURE_R = {"multimed.fast_multimed_r_nlay": lambda B: B.pure("multimed.fast_multimed_r_nlay", "f"),
          "multimed.get_mmf_from_mmlut": lambda B: B.pure("multimed.get_mmf_from_mmlut", "f")}


def _pr(B):
    return {k: f(B) for k, f in PURE_R.items()}


@contract("C05", ["multimed.multimed_r_nlay", "multimed.multimed_nlay"], contracts=_pr, cases=80)
def radial_factor_source(B):
    """1 without refraction, the table's value if it has one, the direct computation otherwise."""
    c = fullcal(B)
    lut = B.choice("lut", [False, True])
    if lut:
        if B.conc:
            c.mmlut.nr, c.mmlut.nz, c.mmlut.rw = 4, 5, 2
            c.mmlut.origin = B.np.array([B.real("ox"), B.real("oy"), B.real("oz")])
            c.mmlut_data = B.np.array([[B.real(f"l{i}{j}", s=(-1, 2)) for j in range(5)] for i in range(4)])
        else:
            c.mmlut_data = B.np.zeros((3, 3))
    mm = _mmpar(B, B.choice("nlay", [1, 2]), one=1.0 if B.bool("air") else None)
    pos = B.vec("pos", 3)
    if B.conc:
        B.req(abs(c.ext_par["z0"] - pos[2]) > 1)
    s0, p0 = calstate(c), B.snap(pos)
    r = B.call("multimed.multimed_r_nlay", c, mm, pos)
    e = c.ext_par
    n2, d = B.np.array([x for x in mm.n2]), B.np.array([x for x in mm.d])
    direct = B.call("multimed.fast_multimed_r_nlay", mm.nlay, mm.n1, n2, mm.n3, d, e["x0"] + 0.0, e["y0"] + 0.0,
                    e["z0"] + 0.0, p0)
    want = direct
    if lut:
        t = B.call("multimed.get_mmf_from_mmlut", c, p0)
        want = B.ite(t > 0, t, direct)
    air = B.all_([mm.nlay == 1, mm.n1 == 1, mm.n2[0] == 1, mm.n3 == 1])
    want = B.ite(air, 1.0, want)
    if not (B.conc and not B.np.isfinite(want)):
        B.ens_eq("factor", r, want)
        x, y = B.call("multimed.multimed_nlay", c, mm, pos)
        B.ens_eq("x scaled about the camera", x, s0["x0"] + (p0[0] - s0["x0"]) * want)
        B.ens_eq("y scaled about the camera", y, s0["y0"] + (p0[1] - s0["y0"]) * want)
    unchanged(B, "lookup", s0, calstate(c))


def _snell(B, mm_n1, n2, n3, d, z0, Z, nlay, rq):
    """Radius reached in the object medium by a ray whose straight continuation would reach rq."""
    t1 = rq / (z0 - Z)
    s1 = t1 / B.np.sqrt(1.0 + t1 * t1)
    tot = (z0 - d[0]) * t1
    zout = Z
    for i in range(nlay):
        s = s1 * mm_n1 / n2[i]
        tot = tot + d[i] * (s / B.np.sqrt(1.0 - s * s))
        if i > 0:
            zout = zout + d[i]
    s = s1 * mm_n1 / n3
    return tot - zout * (s / B.np.sqrt(1.0 - s * s))


def _eq_loops(B):
    return {"multimed.fast_multimed_r_nlay": {0: B.loop(lambda v, k: [("radius kept", v.rq == v.r), ("count", v.it >= 0)],
                                                        lambda v: v.n_iter - v.it)}}


@contract("C05", ["multimed.fast_multimed_r_nlay"], loops=_eq_loops, opts={"prove_ms": 20000, "total_s": 150.0}, cases=80)
def equal_indices_do_not_shift(B):
    nlay = B.choice("nlay", [1, 2, 3])
    n = B.pos("n", (1, 1.6))
    d = B.np.array([B.pos(f"d{i}", (0.1, 10)) for i in range(nlay)])
    pos = B.vec("pos", 3)
    x0, y0, z0 = B.real("x0"), B.real("y0"), B.real("z0", s=(12, 100))
    B.req(pos[2] < z0 if not B.conc else pos[2] < z0 - 1)
    r = B.call("multimed.fast_multimed_r_nlay", nlay, n, B.np.array([n] * nlay), n, d, x0, y0, z0, pos)
    B.ens_eq("factor one", r, 1.0, 1e-6)


def _axis_loops(B):
    return {"multimed.fast_multimed_r_nlay": {0: B.loop(lambda v, k: [("count", v.it >= 0), ("on the axis", v.rq == 0)],
                                                        lambda v: v.n_iter - v.it)}}


@contract("C05", ["multimed.fast_multimed_r_nlay"], loops=_axis_loops, cases=30)
def on_the_axis_the_factor_is_one(B):
    nlay = B.choice("nlay", [1, 2])
    mm = _mmpar(B, nlay)
    x0, y0, z0, z = B.real("x0"), B.real("y0"), B.real("z0", s=(12, 100)), B.real("z")
    B.req(z < z0)
    r = B.call("multimed.fast_multimed_r_nlay", nlay, mm.n1, B.np.array([x for x in mm.n2]), mm.n3,
               B.np.array([x for x in mm.d]), x0, y0, z0, B.np.array([x0, y0, z], dtype=B.np.float64))
    B.ens_eq("factor one", r, 1.0)


def _reach(B, nlay, n1, n2, n3, d, z0, Z, rq):
    """Distance from the axis at which a ray arrives that leaves the camera towards the
    (straight-line) distance rq: air, the layers, the object medium, by Snell's law."""
    m = B.np
    b1 = m.arctan(rq / (z0 - Z))
    tot = (z0 - d[0]) * m.tan(b1)
    deep = Z
    for i in range(nlay):
        tot = tot + d[i] * m.tan(m.arcsin(m.sin(b1) * n1 / n2[i]))
        if i > 0:
            deep = deep + d[i]
    return tot - deep * m.tan(m.arcsin(m.sin(b1) * n1 / n3))


def _settled_loops(B):
    B.g = g0 = {}

    def inv(v, k):
        g = B.g
        return [("count", v.it >= 0), ("the last change is the miss distance of the ray before it", B.any_(
            [B.all_([v.it == 0, v.rdiff == 0.1]),
             v.rdiff == v.r - g["reach"](v.rq - v.rdiff)]))]
    return {"multimed.fast_multimed_r_nlay": {0: B.loop(inv, lambda v: v.n_iter - v.it,
                                                        exit=lambda v: (B.req(v.rdiff == 0), g0.update(rq=v.rq)))}}


@contract("C05", ["multimed.fast_multimed_r_nlay"], loops=_settled_loops, conc=False,
          opts={"prove_ms": 20000, "total_s": 150.0},
          note="settled: the last pass changed nothing; indices not below the first medium's (no total reflection)")
def a_settled_factor_obeys_snell_through_every_layer(B):
    nlay = B.choice("nlay", [1, 2])
    mm = _mmpar(B, nlay)
    for x in mm.n2 + [mm.n3]:
        B.req(mm.n1 <= x)
    x0, y0, z0 = B.real("x0"), B.real("y0"), B.real("z0", s=(12, 100))
    pos = B.vec("pos", 3)
    B.req(pos[2] < z0)
    n2, d = B.np.array([x for x in mm.n2]), B.np.array([x for x in mm.d])
    r = B.sqrt((pos[0] - x0) * (pos[0] - x0) + (pos[1] - y0) * (pos[1] - y0))
    B.req(r > 0)
    B.g["reach"] = lambda q: _reach(B, nlay, mm.n1, n2, mm.n3, d, z0, pos[2], q)
    f = B.call("multimed.fast_multimed_r_nlay", nlay, mm.n1, n2, mm.n3, d, x0, y0, z0, pos)
    B.ens_eq("factor times distance is the settled distance", f * r, B.g["rq"])
    B.ens_eq("the ray towards the shifted point arrives at the point's distance", B.g["reach"](B.g["rq"]), r)


@contract("C05", ["multimed.fast_multimed_r_nlay"], sym=False, cases=400)
def computed_factor_obeys_snell(B):
    nlay = B.choice("nlay", [1, 2, 3])
    mm = _mmpar(B, nlay)
    for x in mm.n2 + [mm.n3]:
        B.req(mm.n1 <= x)
    x0, y0, z0 = B.real("x0"), B.real("y0"), B.real("z0", s=(30, 100))
    pos = B.vec("pos", 3, s=(-20, 20))
    B.req(pos[2] < 1)
    n2, d = B.np.array([x for x in mm.n2]), B.np.array([x for x in mm.d])
    r = B.sqrt((pos[0] - x0) * (pos[0] - x0) + (pos[1] - y0) * (pos[1] - y0))
    B.req(r > 0.01)
    B.req(sum(mm.d[1:]) + pos[2] < 0)
    f = B.call("multimed.fast_multimed_r_nlay", nlay, mm.n1, n2, mm.n3, d, x0, y0, z0, pos)
    q = _reach(B, nlay, mm.n1, n2, mm.n3, d, z0, pos[2], f * r)
    B.ens("arrives at the point", abs(q - r) < 2e-3, f"{q} {r}")


def _flat_pure(B):
    return {"multimed.fast_multimed_r_nlay": B.pure("multimed.fast_multimed_r_nlay", "f")}


def _camera(B, q):
    """A camera at q.P behind the glass vector q.g, with an arbitrary matrix."""
    c = B.mod("calibration").Calibration()
    e = c.ext_par
    e["x0"], e["y0"], e["z0"] = q.P[0], q.P[1], q.P[2]
    if B.conc:
        c.set_angles(B.vec("ang", 3, s=(-1, 1)))
    else:
        for i in range(3):
            for j in range(3):
                e["dm"][i, j] = B.real(f"dm{i}{j}", s=(-1, 1))
    c.int_par.cc = B.pos("cc", (10, 200))
    c.int_par.xh, c.int_par.yh = B.real("xh", s=(-1, 1)), B.real("yh", s=(-1, 1))
    c.glass_par = q.g
    return c


def _pinhole(B, c, v):
    m = c.ext_par["dm"]
    de = B.dot3([m[i, 2] for i in range(3)], v)
    B.req(de != 0 if not B.conc else abs(de) > 1e-2)
    return [-c.int_par.cc * B.dot3([m[i, k] for i in range(3)], v) / de for k in range(2)]


@contract("C05", ["imgcoord.flat_image_coord"], contracts=_flat_pure, opts=OPT, cases=200)
def projection_is_the_pinhole_image_of_the_shifted_point(B):
    """The flat image is the collinearity projection of the point moved across the glass
    normal by the radial factor (at its own height)."""
    q = Frame(B)
    q.axis(True)
    c = _camera(B, q)
    mm = _mmpar(B, 1)
    mm.d[0] = q.d
    z0 = B.dot3(q.u, q.P) - q.L
    if B.conc:
        B.req(z0 > 10 and q.h < -10 and z0 + q.h < 0)
    s0, p0 = calstate(c), B.snap(q.Q)
    air = B.all_([mm.n1 == 1, mm.n2[0] == 1, mm.n3 == 1])
    n2, d = B.np.array([x for x in mm.n2]), B.np.array([x for x in mm.d])
    pt = B.np.array([B.sqrt(q.w2), 0.0, B.dot3(q.u, q.Q) - q.L], dtype=B.np.float64)
    f = B.call("multimed.fast_multimed_r_nlay", 1, mm.n1, n2, mm.n3, d, 0.0, 0.0, z0, pt)
    if B.case(air):
        f = 1.0
    v = [q.h * q.u[i] + f * q.w[i] for i in range(3)]
    want = _pinhole(B, c, v)
    B.value_hint(*[q.P[i] + v[i] for i in range(3)])
    x, y = B.call("imgcoord.flat_image_coord", q.Q, c, mm)
    B.ens_eq("x", x, want[0], 1e-6)
    B.ens_eq("y", y, want[1], 1e-6)
    unchanged(B, "projection", s0, calstate(c))
    B.ens_vec("the point is left alone", q.Q, p0)


@contract("C05", ["imgcoord.img_coord"], contracts=lambda B: {
    "imgcoord.flat_image_coord": B.pure("imgcoord.flat_image_coord", ["f", "f"]),
    "trafo.flat_to_dist": B.pure("trafo.flat_to_dist", ["f", "f"])}, cases=60)
def image_coordinates_are_the_distorted_flat_ones(B):
    q, c, mm = _scene(B)
    x, y = B.call("imgcoord.img_coord", q, c, mm)
    fx, fy = B.call("imgcoord.flat_image_coord", q, c, mm)
    if B.conc:
        B.req(B.np.isfinite([fx, fy]).all() and B.np.isfinite([x, y]).all() and abs(fx) + abs(fy) < 1e4)
    wx, wy = B.call("trafo.flat_to_dist", fx, fy, c)
    B.ens_eq("x", x, wx)
    B.ens_eq("y", y, wy)


def steep(B, c, q):
    """Not a grazing view (there the iteration for the refracted ray need not settle)."""
    g = c.glass_par
    u = g / B.np.linalg.norm(g)
    P = B.np.array([c.ext_par.x0, c.ext_par.y0, c.ext_par.z0])
    up, down = B.dot3(u, P) - B.np.linalg.norm(g), B.np.linalg.norm(g) - B.dot3(u, q)
    side = B.np.linalg.norm((P - q) - B.dot3(u, P - q) * u)
    B.req(up > 10 and down > 1 and side < 0.6 * (up + down))


def _scene(B, pts=None):
    c = B.mod("calibration").Calibration()
    c.set_pos(B.np.array([B.real("x0", s=(-50, 50)), B.real("y0", s=(-50, 50)), B.real("z0", s=(80, 200))]))
    c.set_angles(B.vec("ang", 3, s=(-0.5, 0.5)))
    c.int_par.xh, c.int_par.yh, c.int_par.cc = B.real("xh", s=(-1, 1)), B.real("yh", s=(-1, 1)), B.pos("cc", (50, 100))
    c.glass_par = B.np.array([B.real("g0", s=(-5, 5)), B.real("g1", s=(-5, 5)), B.real("g2", s=(20, 60))])
    c.added_par = B.np.array([B.real(f"a{i}", s=(-1e-5, 1e-5)) for i in range(5)] + [B.real("scx", s=(0.9, 1.1)), B.real("she", s=(-0.1, 0.1))])
    return B.vec("q", 3, s=(-15, 15)), c, _mmpar(B, 1)


def _row_contracts(one):
    def f(B):
        def go(pos, cal, mm):
            B.ens("called with the camera and media given", cal is B.cal and mm is B.mm)
            return tuple(B.uf(f"{one}_{a}", pos[0], pos[1], pos[2]) for a in "xy")
        return {"imgcoord." + one: B.spec("imgcoord." + one, go)}
    return f


def _row_loops(many, one):
    def f(B):
        return {"imgcoord." + many: {0: B.loop(lambda v, k: [("rows so far", B.forall(0, k, lambda j: B.all_(
            [v.out[j, a] == B.uf(f"{one}_{'xy'[a]}", *[v.orig_pos[j, m] for m in range(3)]) for a in (0, 1)])))])}}
    return f


def _rows(B, many, one):
    pts = B.seq("pts", ("vec", 3, "f"), "ndarray")
    B.cal, B.mm = B.mod("calibration").Calibration(), B.mod("parameters").MultimediaPar()
    n = B.length(pts)
    p0 = B.snap(pts)
    out = B.call("imgcoord." + many, pts, B.cal, B.mm)
    B.ens("as many rows as points", B.length(out) == n)
    B.ens_forall("row i is the image of point i", 0, n, lambda j: B.all_(
        [out[j, a] == B.uf(f"{one}_{'xy'[a]}", *[p0[j, m] for m in range(3)]) for a in (0, 1)]))
    B.ens_forall("points left alone", 0, n, lambda j: B.all_([pts[j, m] == p0[j, m] for m in range(3)]))


@contract("C05", ["imgcoord.image_coordinates"], contracts=_row_contracts("img_coord"),
          loops=_row_loops("image_coordinates", "img_coord"), conc=False)
def image_coordinates_of_many_points(B):
    _rows(B, "image_coordinates", "img_coord")


@contract("C05", ["imgcoord.flat_image_coordinates"], contracts=_row_contracts("flat_image_coord"),
          loops=_row_loops("flat_image_coordinates", "flat_image_coord"), conc=False)
def flat_image_coordinates_of_many_points(B):
    _rows(B, "flat_image_coordinates", "flat_image_coord")


@contract("C05", ["imgcoord.image_coordinates"], sym=False, cases=60)
def image_coordinates_row_by_row(B):
    q, c, mm = _scene(B)
    n = B.int("n", 0, 6)
    pts = B.np.array([B.vec(f"p{i}", 3, s=(-15, 15)) for i in range(n)]).reshape(n, 3)
    for many, one in (("image_coordinates", "img_coord"), ("flat_image_coordinates", "flat_image_coord")):
        out = B.call("imgcoord." + many, pts, c, mm)
        B.ens("shape", out.shape == (n, 2))
        for i in range(n):
            w = B.call("imgcoord." + one, pts[i], c, mm)
            if B.np.isfinite(w).all():
                B.ens_vec(f"{many} row", out[i], w)


@contract("C05", ["imgcoord.flat_image_coord", "ray_tracing.ray_tracing", "multimed.init_mmlut"], sym=False, cases=300)
def tracing_the_projection_back_meets_the_point(B):
    q, c, mm = _scene(B)
    mm.n1 = 1.0
    for x in mm.n2 + [mm.n3]:
        B.req(x >= 1)
    steep(B, c, q)
    x, y = B.call("imgcoord.flat_image_coord", q, c, mm)
    X, a = B.call("ray_tracing.ray_tracing", x, y, c, mm)
    t = B.dot3(a, q - X)
    B.req(t > 0)
    miss = q - X - t * a
    B.ens("meets the point", float(B.np.linalg.norm(miss)) < 0.02, repr(miss))
