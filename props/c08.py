"""C08 -- epipolar segments and the candidate search."""
from pyvc.api import contract
from .c05 import _scene

W = range(3)
V = "xyz"


def _near_far(B, vpar, x):
    t = (x - vpar.x_lay[0]) / (vpar.x_lay[1] - vpar.x_lay[0])
    return (vpar.z_min_lay[0] + t * (vpar.z_min_lay[1] - vpar.z_min_lay[0]),
            vpar.z_max_lay[0] + t * (vpar.z_max_lay[1] - vpar.z_max_lay[0]))


def _vpar(B):
    x0 = B.real("lay0", s=(-100, 0))
    x1 = B.real("lay1", s=(1, 100))
    B.req(x0 < x1)
    z = [B.real(f"lz{i}", s=(-40, 0)) for i in range(2)] + [B.real(f"lz{i}", s=(1, 40)) for i in (2, 3)]
    return B.mod("parameters").VolumePar(x_lay=[x0, x1], z_min_lay=z[:2], z_max_lay=z[2:])


def _seg_contracts(B):
    return {"ray_tracing.ray_tracing": B.pure("ray_tracing.ray_tracing", [3, 3]),
            "imgcoord.flat_image_coord": B.pure("imgcoord.flat_image_coord", ["f", "f"])}


def _two_cams(B):
    q, _, mm = _scene(B)
    cs = []
    for i in range(2):
        c = B.mod("calibration").Calibration()
        c.set_pos(B.np.array([B.real(f"cx{i}", s=(-80, 80)), B.real(f"cy{i}", s=(-50, 50)), B.real(f"cz{i}", s=(90, 200))]))
        c.glass_par = B.np.array([0.0, 0.0, B.real(f"cg{i}", s=(42, 60))])
        c.int_par.cc = 80.0
        cs.append(c)
    return cs, mm


@contract("C08", ["epi.epi_mm"], contracts=_seg_contracts, cases=150, opts={"sqrt_alias": True})
def segment_ends_are_the_images_of_the_near_and_far_points_of_the_ray(B):
    (c1, c2), mm = _two_cams(B)
    vpar = _vpar(B)
    x, y = B.real("x", s=(-5, 5)), B.real("y", s=(-5, 5))
    p, v = B.call("ray_tracing.ray_tracing", x, y, c1, mm)
    if B.conc:
        B.req(B.np.isfinite(p).all() and abs(v[2]) > 0.1)
    B.req(v[2] != 0)
    zs = _near_far(B, vpar, p[0])
    res = B.call("epi.epi_mm", x, y, c1, c2, mm, vpar)
    B.ens("four numbers", len(res) == 4)
    for k, nm in ((0, "near"), (1, "far")):
        z = zs[k]
        s = (z - p[2]) / v[2]
        # the point of the ray p + s v at that depth
        P = B.np.array([p[0] + s * v[0], p[1] + s * v[1], z])
        w = B.call("imgcoord.flat_image_coord", P, c2, mm)
        if B.conc and not B.np.max(B.np.abs(w)) < 1e4:       # (also NaN) the point is in the plane of the projection centre
            return
        B.ens_eq(f"{nm} end x", res[2 * k], w[0], 1e-6)
        B.ens_eq(f"{nm} end y", res[2 * k + 1], w[1], 1e-6)


@contract("C08", ["epi.epi_mm_2D"], contracts=_seg_contracts, cases=150)
def one_camera_takes_the_middle_of_the_depth_range(B):
    (c1, c2), mm = _two_cams(B)
    vpar = _vpar(B)
    x, y = B.real("x", s=(-5, 5)), B.real("y", s=(-5, 5))
    p, v = B.call("ray_tracing.ray_tracing", x, y, c1, mm)
    if B.conc:
        B.req(B.np.isfinite(p).all() and abs(v[2]) > 0.1)
    B.req(v[2] != 0)
    a, b = _near_far(B, vpar, p[0])
    r = B.call("epi.epi_mm_2D", x, y, c1, mm, vpar)
    z = (a + b) / 2
    s = (z - p[2]) / v[2]
    for i, w in enumerate([p[0] + s * v[0], p[1] + s * v[1], z]):
        B.ens_eq(f"point [{i}]", r[i], w, 1e-6)


@contract("C08", ["epi.epipolar_curve"], sym=False, cases=100)
def curve_runs_from_the_near_to_the_far_limit(B):
    (c1, c2), mm = _two_cams(B)
    vpar = _vpar(B)
    cpar = B.mod("parameters").ControlPar(num_cams=2, imx=1000, imy=800, pix_x=0.01, pix_y=0.01, mm=mm)
    n = B.choice("n", [1, 2, 3, 4, 17])
    px, py = B.real("px", s=(300, 700)), B.real("py", s=(200, 600))
    mx, my = B.call("trafo.pixel_to_metric", px, py, cpar)
    fx, fy = B.call("trafo.dist_to_flat", mx, my, c1, 1e-5)
    p, v = B.call("ray_tracing.ray_tracing", fx, fy, c1, mm)
    if B.conc:
        B.req(B.np.isfinite(p).all() and abs(v[2]) > 0.1)
    B.req(v[2] != 0)
    r = B.call("epi.epipolar_curve", [px, py], c1, c2, n, cpar, vpar)
    B.ens("number of points", B.length(r) == n)
    a, b = vpar.z_min_lay[0], vpar.z_max_lay[0]
    for k in range(n):
        z = a + (b - a) * k / (n - 1) if n > 1 else a
        s = (z - p[2]) / v[2]
        P = B.np.array([p[0] + s * v[0], p[1] + s * v[1], z])
        ix, iy = B.call("imgcoord.img_coord", P, c2, mm)
        w = B.call("trafo.metric_to_pixel", ix, iy, cpar)
        if B.conc and not B.np.max(B.np.abs(w)) < 1e4:       # (also NaN) the point is in the plane of the projection centre
            return
        B.ens_eq(f"x of point {k}", r[k][0], w[0], 1e-5)
        B.ens_eq(f"y of point {k}", r[k][1], w[1], 1e-5)


def _chain(B):
    """Each link of the curve: a function of what it is given, with the camera it has to be given."""
    def two(nm, *xs):
        return B.uf(nm + "x", *xs), B.uf(nm + "y", *xs)

    def flat(dist_x, dist_y, cal, tol=1e-5):
        B.ens("the first camera's distortion", cal is B.c1)
        return two("flat", dist_x, dist_y)

    def ray(x, y, cal, mm):
        B.ens("the first camera's ray", cal is B.c1 and mm is B.cpar.mm)
        B.ens("of the point given", B.all_([x == B.flat[0], y == B.flat[1]]))
        return B.np.array(B.p, dtype=B.np.float64), B.np.array(B.v, dtype=B.np.float64)

    def seen(orig_pos, cal, mm):
        B.ens("the second camera's image", cal is B.c2 and mm is B.cpar.mm)
        return two("seen", *[orig_pos[a] for a in range(3)])

    def pixel(x, y, cpar):
        B.ens("the sensor", cpar is B.cpar)
        return two("pix", x, y)

    def metric(x, y, cpar):
        B.ens("the sensor", cpar is B.cpar)
        return two("met", x, y)
    return {k: B.spec(k, f) for k, f in (
        ("trafo.pixel_to_metric", metric), ("trafo.metric_to_pixel", pixel), ("trafo.dist_to_flat", flat),
        ("ray_tracing.ray_tracing", ray), ("imgcoord.img_coord", seen))}


def _on_curve(B, j):
    a, b = B.vpar.z_min_lay[0], B.vpar.z_max_lay[0]
    one = B.any_([B.n == 1])
    z = B.ite(one, a, a + (b - a) * j / B.ite(one, 1, B.n - 1))
    s = (z - B.p[2]) / B.v[2]
    P = [B.p[0] + s * B.v[0], B.p[1] + s * B.v[1], z]
    w = [B.uf("seen" + a, *P) for a in "xy"]
    return [B.uf("pix" + a, *w) for a in "xy"]


def _curve_loops(B):
    def inv(v, k):
        for a, x in zip("xy", _on_curve(B, k)):
            B.req(B.ufr("curve" + a, k) == x)       # by definition
        return [("points so far", B.forall(0, k, lambda j: B.all_([v.line_points[j, i] == B.ufr("curve" + a, j) for i, a in enumerate("xy")])))]
    return {"epi.epipolar_curve": {0: B.loop(inv)}}


@contract("C08", ["epi.epipolar_curve", "multimed.move_along_ray"], contracts=_chain, loops=_curve_loops, conc=False, note="any number of points on the curve")
def curve_of_any_number_of_points(B):
    B.c1, B.c2 = [B.mod("calibration").Calibration() for _ in range(2)]
    B.vpar = _vpar(B)
    B.cpar = cpar = B.mod("parameters").ControlPar(num_cams=2)
    B.n = n = B.int("n", 1, None)
    px, py = B.real("u"), B.real("w")
    B.flat = [B.uf("flat" + a, B.uf("metx", px, py), B.uf("mety", px, py)) for a in "xy"]
    B.p, B.v = [B.real(f"p{a}") for a in V], [B.real(f"v{a}") for a in V]
    B.req(B.v[2] != 0)
    r = B.call("epi.epipolar_curve", [px, py], B.c1, B.c2, n, cpar, B.vpar)
    B.ens("number of points", B.length(r) == n)
    B.ens_forall("the images of the points of the ray, from the near to the far limit", 0, n, lambda j: B.all_(
        [r[j, i] == B.ufr("curve" + a, j) for i, a in enumerate("xy")]))


# ---------------------------------------------------------------- ratios
@contract("C08", ["find_candidate.quality_ratio"], cases=300)
def ratio_is_the_smaller_over_the_larger(B):
    a, b = B.real("a", 0, None, s=(0, 50)), B.real("b", 0, None, s=(0, 50))
    if B.conc and B.bool("ints"):
        a, b = float(int(a) // 10), float(int(b) // 10)
    r = B.call("find_candidate.quality_ratio", a, b)
    B.ens("between nothing and one", B.between(0, r, 1))
    B.ens("nothing for nothing", B.implies(B.all_([a == 0, b == 0]), r == 0))
    B.ens("a is the smaller", B.implies(B.all_([a < b]), B.eq(r * b, a)))
    B.ens("b is the smaller", B.implies(B.all_([a > b]), B.eq(r * a, b)))
    B.ens("equal", B.implies(B.all_([a == b, a > 0]), r == 1))


# ---------------------------------------------------------------- where to start
def _start_loops(B):
    def halve(v, k):
        return [("left", v.j0 - 2 * v.dj >= 0), ("right", v.j0 + 2 * v.dj <= v.num), ("step", v.dj >= 0)]

    def back(v, k):
        return [("inside", B.all_([v.start_point >= 0, v.start_point <= v.num]))]
    return {"find_candidate.find_start_point_binary": {
        0: B.loop(halve, lambda v: v.dj), 1: B.loop(back, lambda v: v.start_point)}}


def _sorted(B, n, f):
    return B.forall(0, n, lambda i: B.forall(i, n, lambda j: f(i) <= f(j)))


@contract("C08", ["find_candidate.find_start_point_binary", "find_candidate.find_start_point"], loops=_start_loops,
          conc=False, note="lists of any length, sorted along x")
def search_starts_before_every_target_in_range(B):
    x = B.seq("x", "f", "ndarray")
    n = B.length(x)
    xa, eps = B.real("xa"), B.real("eps0", 0, None)
    B.req(_sorted(B, n, lambda i: x[i]))
    j0 = B.call("find_candidate.find_start_point_binary", x, n, xa, eps)
    B.ens("inside the list", B.all_([j0 >= 0, j0 <= n]))
    B.ens_forall("everything before it is out of range", 0, j0, lambda i: x[i] < xa - eps)


@contract("C08", ["find_candidate.find_start_point_binary"], sym=False, cases=150)
def start_in_long_lists(B):
    """The same on the real code, lists of up to twenty thousand."""
    n = B.choice("size", [0, 1, 2, 3, 12, 13, 50, 4096, 8191, 10000, 16383, 19999])
    if B.bool("any"):
        n = B.int("n", 0, 20000)
    gap = B.real("gap", s=(0.1, 2))
    x = B.np.arange(n) * gap
    s = B.int("s", 0, max(0, n))
    xa = s * gap - B.choice("d", [0.0, 0.001, -0.001])
    j0 = B.call("find_candidate.find_start_point_binary", x, n, xa, 0.0)
    B.ens("inside the list", 0 <= j0 <= n)
    B.ens("everything before it is out of range", j0 == 0 or x[j0 - 1] < xa)


# ---------------------------------------------------------------- the search itself
def _search_contracts(B):
    def start(crd, num, xa, vpar):
        j0 = B.int("j0")
        B.req(B.all_([j0 >= 0, j0 <= num]))
        B.req(B.forall(0, j0, lambda i: crd[i].x < xa - vpar.eps0))     # proved above
        B.req(B.cnt(j0) == 0)           # the count starts here
        return j0
    return {"find_candidate.quality_ratio": B.spec("find_candidate.quality_ratio", lambda a, b: B.uf("ratio", a, b)),
            "trafo.correct_brown_affine": B.pure("trafo.correct_brown_affine", ["f", "f"]),
            "find_candidate.find_start_point": B.spec("find_candidate.find_start_point", start)}


def _accept(B, j):
    """Target j is in the band, inside the segment's limits and similar enough."""
    c, e = B.crd[j], B.vpar.eps0
    p = B.pix[c.pnr]
    q = [B.uf("ratio", a, b) for a, b in zip(B.size, (p.n, p.nx, p.ny, p.sumg))]
    return B.all_([c.x > B.lox - e, c.x < B.hix + e, c.y > B.loy - e, c.y < B.hiy + e, B.dist(c) < e,
                   q[0] >= B.vpar.cn, q[1] >= B.vpar.cnx, q[2] >= B.vpar.cny, q[3] > B.vpar.csumg])


def _score(B, j):
    p = B.pix[B.crd[j].pnr]
    qn, qx, qy, qs = [B.uf("ratio", a, b) for a, b in zip(B.size, (p.n, p.nx, p.ny, p.sumg))]
    return (4 * qs + 2 * qn + qx + qy) * (B.size[3] + p.sumg)


def _is(B, r, j):
    return B.all_([r.pnr == j, r.tol == B.ufr("D", j), r.corr == B.ufr("S", j)])


def _define(B, k):
    """ok(k), D(k), S(k) and the number of acceptable targets before k, by their definitions."""
    ok = B.ufb("ok", k)
    B.req(B.total(lambda: B.iff(ok, _accept(B, k))))
    B.req(B.total(lambda: B.all_([B.ufr("D", k) == B.dist(B.crd[k]), B.ufr("S", k) == _score(B, k)])))
    B.req(B.cnt(k + 1) == B.cnt(k) + B.ite(ok, 1, 0))


def _search_loops(B):
    def inv(v, k):
        n = B.length(v.cand)
        _define(B, k)
        return [("count", n == B.cnt(k)), ("room", n <= B.cap),
                ("found so far", B.forall(0, k, lambda j: B.implies(B.ufb("ok", j), B.all_(
                    [B.cnt(j) >= 0, B.cnt(j) < n, _is(B, v.cand[B.cnt(j)], j)])))),
                ("nothing else", B.forall(0, n, lambda t: B.all_(
                    [v.cand[t].pnr >= 0, v.cand[t].pnr < k, B.ufb("ok", v.cand[t].pnr), _is(B, v.cand[t], v.cand[t].pnr)])))]
    return {"find_candidate.find_candidate": {0: B.loop(inv, templates={
        "cand": {"pnr": "i", "tol": "f", "corr": "f"}})}}


def _search(B, kind):
    B.cap = B.mod("constants").MAXCAND
    B.cnt = lambda j: B.ufi("cnt", j)
    B.crd = crd = B.seq("crd", {"pnr": "i", "x": "f", "y": "f"}, "recarray")
    B.pix = pix = B.seq("pix", {"n": "i", "nx": "i", "ny": "i", "sumg": "i", "__cls__": B.mod("tracking_frame_buf").Target})
    n = B.length(crd)
    B.req(B.forall(0, n, lambda j: B.all_([crd[j].pnr >= 0, crd[j].pnr < B.length(pix)])))
    B.req(_sorted(B, n, lambda i: crd[i].x))
    B.vpar = vpar = B.mod("parameters").VolumePar()
    for f in ("eps0", "cn", "cnx", "cny", "csumg"):
        setattr(vpar, f, B.real(f))
    cpar = B.mod("parameters").ControlPar(num_cams=4)
    cpar.imx, cpar.imy = B.int("imx", 1, None), B.int("imy", 1, None)
    cpar.pix_x, cpar.pix_y = B.pos("pix_x"), B.pos("pix_y")
    cal = B.mod("calibration").Calibration()
    cal.int_par.xh, cal.int_par.yh = B.real("xh"), B.real("yh")
    xa, ya, xb, yb = [B.real(f) for f in ("xa", "ya", "xb", "yb")]
    if kind == "right":
        B.req(xa < xb)
    elif kind == "left":
        B.req(xa > xb)
    else:
        B.req(xa == xb)
    B.size = [B.int(f) for f in ("n", "nx", "ny", "sumg")]
    xe = xb + 1e-10 if kind == "vertical" else xb
    m = (yb - ya) / (xe - xa)
    b = ya - m * xa
    s = B.sqrt(m * m + 1)
    B.lemma("slope", s > 0)
    B.dist = lambda c: B.total(lambda: abs((c.y - m * c.x - b) / s))
    B.lox, B.hix = (xb, xa) if kind == "left" else (xa, xe)
    B.loy, B.hiy = B.ite(ya < yb, ya, yb), B.ite(ya < yb, yb, ya)
    # (part of the definition of ok, for every target at once)
    B.req(B.forall(0, n, lambda j: B.implies(B.ufb("ok", j), B.all_(
        [crd[j].x > B.lox - vpar.eps0, crd[j].x < B.hix + vpar.eps0]))))
    return crd, pix, n, xa, ya, xb, yb, vpar, cpar, cal


@contract("C08", ["find_candidate.find_candidate"], contracts=_search_contracts, loops=_search_loops, conc=False,
          opts={"total_s": 300.0, "feas_ms": 40}, note="lists of any length; the band distance is |y - m x - b| / sqrt(m^2 + 1), see the next contract")
def search_returns_exactly_the_acceptable_targets(B):
    kind = B.choice("kind", ["right", "left", "vertical"])
    crd, pix, n, xa, ya, xb, yb, vpar, cpar, cal = _search(B, kind)
    xmax, ymax = cpar.pix_x * cpar.imx / 2, cpar.pix_y * cpar.imy / 2
    x1, y1 = B.call("trafo.correct_brown_affine", -xmax - cal.int_par.xh, -ymax - cal.int_par.yh, cal.added_par)
    x2, y2 = B.call("trafo.correct_brown_affine", xmax - cal.int_par.xh, ymax - cal.int_par.yh, cal.added_par)
    B.req(B.all_([B.hix > x1, B.lox < x2, B.hiy > y1, B.loy < y2]))
    B.req(vpar.eps0 > 0)
    res = B.call("find_candidate.find_candidate", crd, pix, n, xa, ya, xb, yb, *B.size, vpar, cpar, cal)
    k = B.length(res)
    B.ens("at most the maximum", k <= B.cap)
    B.ens_forall("only acceptable targets, with their own distance and score", 0, k, lambda t: B.all_(
        [res[t].pnr >= 0, res[t].pnr < n, B.ufb("ok", res[t].pnr), _is(B, res[t], res[t].pnr)]))
    B.ens_forall("every acceptable target, unless the list is full", 0, n, lambda j: B.implies(
        B.all_([B.ufb("ok", j), k < B.cap]), B.all_([B.cnt(j) >= 0, B.cnt(j) < k, res[B.cnt(j)].pnr == j])))


@contract("C08", ["find_candidate.find_candidate"], contracts=_search_contracts, loops=_search_loops, conc=False, opts={"feas_ms": 40})
def segment_off_the_sensor_has_no_candidates(B):
    kind = B.choice("kind", ["right", "left", "vertical"])
    crd, pix, n, xa, ya, xb, yb, vpar, cpar, cal = _search(B, kind)
    xmax, ymax = cpar.pix_x * cpar.imx / 2, cpar.pix_y * cpar.imy / 2
    x1, y1 = B.call("trafo.correct_brown_affine", -xmax - cal.int_par.xh, -ymax - cal.int_par.yh, cal.added_par)
    x2, y2 = B.call("trafo.correct_brown_affine", xmax - cal.int_par.xh, ymax - cal.int_par.yh, cal.added_par)
    B.req(B.any_([B.hix <= x1, B.lox >= x2, B.hiy <= y1, B.loy >= y2]))
    res = B.call("find_candidate.find_candidate", crd, pix, n, xa, ya, xb, yb, *B.size, vpar, cpar, cal)
    B.ens("none", B.length(res) == 0)


@contract("C08", ["find_candidate.find_candidate"], cases=200)
def band_distance_is_the_distance_from_the_line(B):
    """The tolerance of a reported candidate, for one target and any segment."""
    P, T = B.mod("parameters"), B.mod("tracking_frame_buf")
    xa, ya, xb, yb = [B.real(f, s=(-2, 2)) for f in ("xa", "ya", "xb", "yb")]
    B.req(xa != xb)
    x, y = B.real("x", s=(-2, 2)), B.real("y", s=(-2, 2))
    if B.conc and B.bool("near"):
        t = B.real("t", s=(0, 1))
        x, y = xa + t * (xb - xa) + B.real("e", s=(-0.3, 0.3)), ya + t * (yb - ya)
    crd = B.np.recarray((1,), dtype=B.mod("epi").Coord2d_dtype)
    crd[0].pnr, crd[0].x, crd[0].y = 0, x, y
    eps = B.pos("eps0", s=(0.1, 1))
    vpar = P.VolumePar(cn=0.0, cnx=0.0, cny=0.0, csumg=0.0, eps0=eps)
    cpar = P.ControlPar(num_cams=2, imx=1000, imy=1000, pix_x=0.01, pix_y=0.01)
    res = B.call("find_candidate.find_candidate", crd, [T.Target(0, x, y, 5, 2, 2, 9, -1)], 1, xa, ya, xb, yb,
                 5, 2, 2, 9, vpar, cpar, B.mod("calibration").Calibration())
    cross = (x - xa) * (yb - ya) - (y - ya) * (xb - xa)
    len2 = (xb - xa) * (xb - xa) + (yb - ya) * (yb - ya)
    k = B.length(res)
    B.ens("one or none", B.any_([k == 0, k == 1]))
    if B.case(k == 1):
        m = (yb - ya) / (xb - xa)
        e = (y - m * x - (ya - m * xa)) / B.sqrt(m * m + 1)
        e = e if B.case(e >= 0) else -e
        B.ens_eq("distance from the line given by slope and offset", res[0].tol, e, 1e-6)
        B.ens_eq("distance from the line through both ends", e * e * len2, cross * cross, 1e-6)
        B.ens("not negative", res[0].tol >= 0)
        B.ens("inside the band", res[0].tol < eps)


@contract("C08", ["find_candidate.find_candidate"], sym=False, cases=400)
def search_agrees_with_the_definition(B):
    """Every target against the definition, up to 120 targets (also more than the maximum)."""
    P, T = B.mod("parameters"), B.mod("tracking_frame_buf")
    cap = B.mod("constants").MAXCAND
    n = B.int("n", 0, 12)
    crowd = B.choice("crowd", [0, 0, 1])        # all alike: more acceptable ones than the maximum
    if crowd or B.bool("many"):
        n = B.int("more", 60, 120)
    grid = B.real("grid", s=(0.05, 0.3))
    xa, ya, xb, yb = [B.real(f, s=(-3, 3)) for f in ("xa", "ya", "xb", "yb")]
    if B.bool("vertical"):
        xb = xa
    eps = B.real("eps0", s=(0.05, 0.6))
    rows = []
    for i in range(n):
        t = B.real(f"t{i}", s=(-0.3, 1.3))
        rows.append((xa + t * (xb - xa) + B.real(f"ex{i}", s=(-1, 1)) * eps, ya + t * (yb - ya) + B.real(f"ey{i}", s=(-1, 1)) * eps))
    if n > 4 and B.bool("ties"):
        rows = [(round(x / grid) * grid, y) for x, y in rows]
    order = sorted(range(n), key=lambda i: rows[i][0])
    crd = B.np.recarray((n,), dtype=B.mod("epi").Coord2d_dtype)
    for j, i in enumerate(order):
        crd[j].pnr, crd[j].x, crd[j].y = i, rows[i][0], rows[i][1]
    low = 3 if crowd else 0
    pix = [T.Target(i, 0.0, 0.0, B.int(f"n{i}", low, 9), B.int(f"nx{i}", low, 4), B.int(f"ny{i}", low, 4), B.int(f"sg{i}", 8 * low, 30), -1)
           for i in range(n)]
    me = [B.int("n_", low, 9), B.int("nx_", low, 4), B.int("ny_", low, 4), B.int("sg_", 8 * low, 30)]
    top = .3 if crowd else .6
    vpar = P.VolumePar(eps0=eps, cn=B.real("cn", s=(0, top)), cnx=B.real("cnx", s=(0, top)), cny=B.real("cny", s=(0, top)),
                       csumg=B.real("cs", s=(0, top)))
    cpar = P.ControlPar(num_cams=2, imx=B.choice("imx", [1000, 300, 60]), imy=B.choice("imy", [800, 200]),
                       pix_x=B.choice("pix_x", [0.01, 0.01, 0.004]), pix_y=B.choice("pix_y", [0.01, 0.01, 0.004]))
    cal = B.mod("calibration").Calibration()
    cal.added_par = B.np.array([B.choice("k1", [0.0, 0.01, -0.01]), 0.0, 0.0, B.choice("p1", [0.0, 0.005]), 0.0, 1.0, B.choice("shear", [0.0, 0.02])])
    cal.int_par.xh, cal.int_par.yh = B.real("xh", s=(-1, 1)), B.real("yh", s=(-1, 1))
    res = B.call("find_candidate.find_candidate", crd, pix, n, xa, ya, xb, yb, *me, vpar, cpar, cal)
    ratio = lambda a, b: 0 if a == b == 0 else min(a, b) / max(a, b)
    xe = xb + 1e-10 if xa == xb else xb
    m = (yb - ya) / (xe - xa)
    lo, hi = sorted((xa, xe))
    bo, to = sorted((ya, yb))
    hx, hy = cpar.pix_x * cpar.imx / 2, cpar.pix_y * cpar.imy / 2
    x1, y1 = B.call("trafo.correct_brown_affine", -hx - cal.int_par.xh, -hy - cal.int_par.yh, cal.added_par)
    x2, y2 = B.call("trafo.correct_brown_affine", hx - cal.int_par.xh, hy - cal.int_par.yh, cal.added_par)
    off = hi <= x1 or lo >= x2 or to <= y1 or bo >= y2
    want, close = [], min(abs(hi - x1), abs(lo - x2), abs(to - y1), abs(bo - y2)) < 1e-6
    for j in range(n):
        p = pix[crd[j].pnr]
        q = [ratio(a, b) for a, b in zip(me, (p.n, p.nx, p.ny, p.sumg))]
        d = abs(crd[j].y - m * crd[j].x - (ya - m * xa)) / (m * m + 1) ** 0.5
        gaps = [crd[j].x - lo + eps, hi + eps - crd[j].x, crd[j].y - bo + eps, to + eps - crd[j].y, eps - d,
                q[0] - vpar.cn, q[1] - vpar.cnx, q[2] - vpar.cny, q[3] - vpar.csumg]
        close = close or min(abs(g) for g in gaps[:5]) < 1e-4 or min(abs(g) for g in gaps[5:]) < 1e-12
        if not off and all(g >= 0 for g in gaps) and q[3] > vpar.csumg:
            want.append((j, d, (4 * q[3] + 2 * q[0] + q[1] + q[2]) * (me[3] + p.sumg)))
    B.req(not close)        # rounding decides on the border
    B.ens("number", len(res) == min(len(want), cap), f"{len(res)} {len(want)}")
    for r, w in zip(res, want):
        B.ens("target", r.pnr == w[0], f"{r} {w}")
        B.ens_eq("distance", r.tol, w[1], 1e-4 if xa == xb else 1e-6)
        B.ens_eq("score", r.corr, w[2], 1e-9)
