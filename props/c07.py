"""C07 -- triangulation."""
from pyvc.api import contract
from .c05 import _scene, steep

UNUSED = -1e10      # constants.COORD_UNUSED, read back below


@contract("C07", ["orientation.skew_midpoint"], opts={"sqrt_alias": True, "prove_ms": 8000}, cases=300)
def two_rays_meet_in_the_middle_of_their_common_perpendicular(B):
    v1, v2 = B.vec("v1", 3, s=(-50, 50)), B.vec("v2", 3, s=(-50, 50))
    d1, d2 = B.vec("d1", 3, s=(-1, 1)), B.vec("d2", 3, s=(-1, 1))
    a, b, c = B.dot3(d1, d1), B.dot3(d1, d2), B.dot3(d2, d2)
    den = a * c - b * b
    B.req(den != 0 if not B.conc else den > 1e-3)
    w = [v2[i] - v1[i] for i in range(3)]
    s = (c * B.dot3(w, d1) - b * B.dot3(w, d2)) / den
    t = (b * B.dot3(w, d1) - a * B.dot3(w, d2)) / den
    p1 = [v1[i] + s * d1[i] for i in range(3)]
    p2 = [v2[i] + t * d2[i] for i in range(3)]
    gap = [p2[i] - p1[i] for i in range(3)]
    B.lemma("p1 p2 is perpendicular to the first ray", B.eq(B.dot3(gap, d1), 0.0, 1e-5))
    B.lemma("p1 p2 is perpendicular to the second ray", B.eq(B.dot3(gap, d2), 0.0, 1e-5))
    i1, i2, i3, i4 = B.snap(v1), B.snap(d1), B.snap(v2), B.snap(d2)
    dist, m = B.call("orientation.skew_midpoint", v1, d1, v2, d2)
    for i in range(3):
        B.ens_eq(f"midpoint [{i}]", m[i], (p1[i] + p2[i]) / 2, 1e-5)
    B.ens_eq("length of the common perpendicular, squared", dist * dist, B.dot3(gap, gap), 1e-4)
    B.ens("length is not negative", B.ge(dist, 0.0))
    for x, y in ((v1, i1), (d1, i2), (v2, i3), (d2, i4)):
        B.ens_vec("rays left alone", x, y)


# ---------------------------------------------------------------- the mean over pairs
V, D, W = "xyz", "uvw", range(3)


def _ray(B, cam):
    return ([B.uf("vertex_" + a, cam) for a in V], [B.uf("direct_" + a, cam) for a in V])


def _pair(B, c, p):
    return B.uf("pair_dist", c, p), [B.uf("pair_" + a, c, p) for a in V]


def _point_contracts(B):
    """Any tracer and any two-ray intersection; the calls are identified by what is passed."""
    def trace(x, y, cal, mm):
        B.ens("media handed over", mm is B.mm)
        cam = cal
        B.ens("seen by this camera", B.targets[cam, 0] != B.unused)
        B.ens("x of this camera", x == B.targets[cam, 0])
        B.ens("y of this camera", y == B.targets[cam, 1])
        v, d = _ray(B, cam)
        return B.np.array(v, dtype=B.np.float64), B.np.array(d, dtype=B.np.float64)

    def skew(v1, d1, v2, d2):
        # which pair: the loop variables of the caller, checked against what is handed over
        c, p = B.now
        for nm, k, v, d in (("first", c, v1, d1), ("second", p, v2, d2)):
            rv, rd = _ray(B, k)
            B.ens(f"ray of the {nm} camera", B.all_([v[i] == rv[i] for i in W] + [d[i] == rd[i] for i in W]))
        s, m = _pair(B, c, p)
        return s, B.np.array(m, dtype=B.np.float64)
    return {"ray_tracing.ray_tracing": B.spec("ray_tracing.ray_tracing", trace),
            "orientation.skew_midpoint": B.spec("orientation.skew_midpoint", skew)}


def _seen(B, c):
    return B.total(lambda: B.targets[c, 0] != B.unused)


def _defs(B, c, p):
    """The sums are defined by recursion: over p inside a camera, then over cameras."""
    one = lambda x: B.ite(B.all_([_seen(B, c), _seen(B, p)]), x, 0.0)
    d, m = _pair(B, c, p)
    for nm, x in [("n", 1.0), ("d", d)] + [(a, m[i]) for i, a in enumerate(V)]:
        B.req(B.uf("in_" + nm, c, p + 1) == B.uf("in_" + nm, c, p) + one(x))


def _defs_out(B, c):
    for nm in ["n", "d"] + list(V):
        B.req(B.uf("in_" + nm, c, c + 1) == 0)
        B.req(B.uf("sum_" + nm, c + 1) == B.uf("sum_" + nm, c) + B.ite(_seen(B, c), B.uf("in_" + nm, c, B.n), 0.0))


def _point_loops(B):
    def inv0(v, k):
        return [("rays of the cameras that see the point", B.forall(0, k, lambda c: B.implies(_seen(B, c), B.all_(
            [v.vertices[c, i] == B.uf("vertex_" + a, c) for i, a in enumerate(V)]
            + [v.directs[c, i] == B.uf("direct_" + a, c) for i, a in enumerate(V)]))))]

    def sums(v, f):
        return [("pairs", v.num_used_pairs == f("n")), ("distance", v.dtot == f("d"))] + [
            ("position " + a, v.point_tot[i] == f(a)) for i, a in enumerate(V)]

    def inv1(v, k):
        _defs_out(B, k)
        return sums(v, lambda nm: B.uf("sum_" + nm, k))

    def inv2(v, k):
        _defs(B, v.cam, k)
        B.now = (v.cam, k)
        return sums(v, lambda nm: B.uf("sum_" + nm, v.cam) + B.uf("in_" + nm, v.cam, k))
    return {"orientation.point_position": {0: B.loop(inv0), 1: B.loop(inv1), 2: B.loop(inv2)}}


@contract("C07", ["orientation.point_position"], contracts=_point_contracts, loops=_point_loops, conc=False,
          note="any number of cameras; sums defined by recursion over cameras and pairs")
def many_cameras_give_the_mean_over_all_pairs(B):
    B.unused = B.mod("constants").COORD_UNUSED
    B.n = n = B.int("n", 0, None)
    B.targets = t = B.seq("t", ("vec", 2, "f"), "ndarray", n=n)
    cals = B.seq("cals", "i", n=n)          # handles: camera i is i
    B.req(B.forall(0, n, lambda j: cals[j] == j))
    B.mm = B.mod("parameters").MultimediaPar()
    for nm in ["n", "d"] + list(V):
        B.req(B.uf("sum_" + nm, 0) == 0)
    B.req(B.uf("sum_n", n) != 0)
    t0 = B.snap(t)
    dist, pos = B.call("orientation.point_position", t, n, B.mm, cals)
    B.ens("mean distance", dist * B.uf("sum_n", n) == B.uf("sum_d", n))
    for i, a in enumerate(V):
        B.ens("mean position " + a, pos[i] * B.uf("sum_n", n) == B.uf("sum_" + a, n))
    B.ens_forall("detections left alone", 0, n, lambda j: B.all_([t[j, 0] == t0[j, 0], t[j, 1] == t0[j, 1]]))


@contract("C07", ["orientation.point_position"], bounded="2 to 4 cameras (every seen-pattern)", contracts=lambda B: {
    "ray_tracing.ray_tracing": B.pure("ray_tracing.ray_tracing", [3, 3]),
    "orientation.skew_midpoint": B.pure("orientation.skew_midpoint", ["f", 3])}, cases=150)
def few_cameras_give_the_mean_over_all_pairs(B):
    n = B.choice("n", [2, 3, 4])
    cu = B.mod("constants").COORD_UNUSED
    seen = [B.bool(f"seen{i}") for i in range(n)]
    seen = [B.case(s) for s in seen]
    B.req(sum(seen) >= 2)
    q, _, mm = _scene(B)
    cals, rows = [], []
    for i in range(n):
        c = B.mod("calibration").Calibration()
        c.set_pos(B.np.array([B.real(f"cx{i}", s=(-50, 50)), B.real(f"cy{i}", s=(-50, 50)), B.real(f"cz{i}", s=(80, 200))]))
        c.glass_par = B.np.array([0.0, 0.0, B.real(f"cg{i}", s=(20, 60))])
        c.int_par.cc = 80.0
        cals.append(c)
        x, y = B.real(f"tx{i}", s=(-5, 5)), B.real(f"ty{i}", s=(-5, 5))
        if seen[i]:
            B.req(x != cu)
        rows.append([x if seen[i] else cu, y])
    t = B.np.array(rows, dtype=B.np.float64)
    dist, pos = B.call("orientation.point_position", t, n, mm, cals)
    rays = {i: B.call("ray_tracing.ray_tracing", rows[i][0], rows[i][1], cals[i], mm) for i in range(n) if seen[i]}
    sd, sp, k = 0.0, [0.0] * 3, 0
    for i in range(n):
        for j in range(i + 1, n):
            if seen[i] and seen[j]:
                d, m = B.call("orientation.skew_midpoint", *rays[i], *rays[j])
                sd, k = sd + d, k + 1
                sp = [sp[a] + m[a] for a in range(3)]
    if B.conc and not B.np.isfinite(sd):
        return
    B.ens_eq("mean distance", dist * k, sd, 1e-6)
    for a in range(3):
        B.ens_eq(f"mean position [{a}]", pos[a] * k, sp[a], 1e-5)


# ---------------------------------------------------------------- rows
def _rows_contracts(B):
    def one(targ, num_cams, mm, cals):
        B.ens("cameras and media handed over", num_cams == B.nc and mm is B.mm and cals is B.cals)
        xs = [targ[c, m] for c in range(B.nc) for m in (0, 1)]
        return B.uf("rcm", *xs), B.np.array([B.uf("pos_" + a, *xs) for a in V], dtype=B.np.float64)

    def flat(x, y, cal, mm, vpar):
        B.ens("camera, media and volume handed over", cal is B.cals[0] and mm is B.mm and vpar is B.vpar)
        return B.np.array([B.uf("pos_" + a, x, y) for a in V], dtype=B.np.float64)
    return {"orientation.point_position": B.spec("orientation.point_position", one),
            "epi.epi_mm_2D": B.spec("epi.epi_mm_2D", flat)}


def _row_is(B, res, rcm, t, j):
    xs = [t[j, c, m] for c in range(B.nc) for m in (0, 1)]
    ps = [res[j, i] == B.uf("pos_" + a, *xs) for i, a in enumerate(V)]
    return B.all_(ps + [rcm[j] == (B.uf("rcm", *xs) if B.nc > 1 else 0.0)])


def _rows_loops(B):
    return {f"orientation.{f}_cam_point_positions": {0: B.loop(lambda v, k: [("rows so far", B.forall(
        0, k, lambda j: _row_is(B, v.res, v.rcm, v.targets, j)))] + ([("measure of one camera", B.forall(
            0, B.length(v.targets), lambda j: v.rcm[j] == 0.0))] if B.nc == 1 else []))}
        for f in ("single", "multi")}


@contract("C07", ["orientation.point_positions", "orientation.single_cam_point_positions",
                  "orientation.multi_cam_point_positions"], contracts=_rows_contracts, loops=_rows_loops, conc=False,
          note="any number of rows; 1 to 4 cameras")
def rows_do_not_influence_one_another(B):
    B.nc = B.choice("cams", [1, 2, 3, 4])
    t = B.seq("t", ("vec", B.nc, ("vec", 2, "f")), "ndarray")
    B.cals = [B.mod("calibration").Calibration() for _ in range(B.nc)]
    B.mm, B.vpar = B.mod("parameters").MultimediaPar(), B.mod("parameters").VolumePar()
    n = B.length(t)
    t0 = B.snap(t)
    res, rcm = B.call("orientation.point_positions", t, B.mm, B.cals, B.vpar)
    B.ens("one position per row", B.length(res) == n)
    B.ens("one measure per row", B.length(rcm) == n)
    B.ens_forall("row i is the result of row i", 0, n, lambda j: _row_is(B, res, rcm, t0, j))


@contract("C07", ["orientation.point_positions"], sym=False, cases=60)
def rows_agree_with_single_points(B):
    nc, n = B.int("cams", 2, 4), B.int("n", 0, 5)
    q, c0, mm = _scene(B)
    cals = []
    for i in range(nc):
        c = B.mod("calibration").Calibration()
        c.set_pos(B.np.array([B.real(f"cx{i}", s=(-80, 80)), B.real(f"cy{i}", s=(-50, 50)), B.real(f"cz{i}", s=(80, 200))]))
        c.glass_par = B.np.array([0.0, 0.0, 40.0])
        c.int_par.cc = 80.0
        cals.append(c)
    t = B.np.array([[B.vec(f"t{j},{i}", 2, s=(-5, 5)) for i in range(nc)] for j in range(n)]).reshape(n, nc, 2)
    res, rcm = B.call("orientation.point_positions", t, mm, cals, None)
    B.ens("shapes", res.shape == (n, 3) and rcm.shape == (n,))
    for j in range(n):
        d, p = B.call("orientation.point_position", t[j], nc, mm, cals)
        if B.np.isfinite(p).all():
            B.ens_vec("position", res[j], p)
            B.ens_eq("measure", rcm[j], d)


@contract("C07", ["orientation.point_position", "imgcoord.flat_image_coord"], sym=False, cases=150)
def projections_of_a_point_triangulate_to_it(B):
    nc = B.int("cams", 2, 4)
    q, c0, mm = _scene(B)
    mm.n1 = 1.0
    cals, t = [], []
    for i in range(nc):
        c = B.mod("calibration").Calibration()
        c.set_pos(B.np.array([35.0 * i - 50 + B.real(f"cx{i}", s=(-10, 10)), B.real(f"cy{i}", s=(-50, 50)), B.real(f"cz{i}", s=(120, 240))]))
        c.set_angles(B.vec(f"can{i}", 3, s=(-0.4, 0.4)))
        c.glass_par = B.np.array([0.0, 0.0, B.real(f"cg{i}", s=(20, 60))])
        c.int_par.cc = 80.0
        cals.append(c)
        steep(B, c, q)
        t.append(B.mod("imgcoord").flat_image_coord(q, c, mm))
    d, p = B.call("orientation.point_position", B.np.array(t), nc, mm, cals)
    B.ens("found", float(B.np.linalg.norm(p - q)) < 0.1, f"{p} {q}")
    B.ens("rays meet", d < 0.05)
