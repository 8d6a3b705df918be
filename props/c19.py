"""C19 -- adjusting a camera changes only the parameters it was asked to."""
from pyvc.api import contract

from .common import ANG, DM, EXT, calstate, ens_matrix, fullcal, unchanged

O = "orientation."
TARG = {"pnr": "i", "x": "f", "y": "f", "n": "i", "nx": "i", "ny": "i", "sumg": "i", "tnr": "i"}
# the interior and distortion parameters and their flags
FLAG = dict(cc="ccflag", xh="xhflag", yh="yhflag", ap0="k1flag", ap1="k2flag", ap2="k3flag", ap3="p1flag", ap4="p2flag", ap5="scxflag",
            ap6="sheflag")
GLASS = ["glass0", "glass1", "glass2"]


def _camera(B, n="c"):
    """An arbitrary camera whose matrix belongs to its angles."""
    c = fullcal(B, n)
    c.update_rotation_matrix()
    return c


def _real_camera(B, n="c"):
    """A camera that looks at the points, air only."""
    np = B.np
    c = B.mod("calibration").Calibration()
    x, y = B.real(n + "x", s=(-120, 120)), B.real(n + "y", s=(-90, 90))
    c.set_pos(np.array([x, y, B.real(n + "z", s=(300, 500))]))
    c.set_angles(np.array([-y / 400.0 + B.real(n + "o", s=(-0.02, 0.02)), x / 400.0 + B.real(n + "p", s=(-0.02, 0.02)), B.real(n + "k", s=(-3, 3))]))
    c.int_par.cc, c.int_par.xh, c.int_par.yh = B.real(n + "cc", s=(50, 90)), B.real(n + "xh", s=(-0.5, 0.5)), B.real(n + "yh", s=(-0.5, 0.5))
    c.glass_par = np.array([B.real(f"{n}g0", s=(-9, 9)), B.real(f"{n}g1", s=(-9, 9)), B.real(f"{n}g2", s=(40, 60))])
    k = B.choice(n + "distorted", [0, 1])
    c.added_par = np.array([k * B.real(f"{n}a{i}", s=(-1e-6, 1e-6)) for i in range(3)] + [k * B.real(f"{n}a{i}", s=(-1e-5, 1e-5)) for i in (3, 4)] + [
        1.0 + k * B.real(n + "a5", s=(-0.01, 0.01)), k * B.real(n + "a6", s=(-0.01, 0.01))])
    return c


def _cpar(B):
    P = B.mod("parameters")
    mm = P.MultimediaPar(nlay=1, n1=1.0, n2=[1.0], d=[1.0], n3=1.0)
    return P.ControlPar(num_cams=1, imx=1280, imy=1024, pix_x=0.012, pix_y=0.0115, mm=mm)


# ---------------------------------------------------------------- derivatives
@contract("C19", [O + "num_deriv_exterior", "calibration.Calibration.increment_attribute"], cases=60,
          contracts=lambda B: {"imgcoord.img_coord": B.pure("imgcoord.img_coord", ["f", "f"])})
def derivatives_are_forward_differences_and_leave_the_camera_alone(B):
    c = _real_camera(B) if B.conc else _camera(B)
    cpar = _cpar(B)
    s0 = calstate(c)
    pos = B.vec("pos", 3, s=(-20, 20))
    p0 = [pos[i] + 0.0 for i in range(3)]
    dpos, dang = B.real("dpos", s=(1e-3, 0.5)), B.real("dang", s=(1e-4, 0.1))
    B.req(B.all_([dpos != 0, dang != 0]))
    dx, dy = B.call(O + "num_deriv_exterior", c, cpar, dpos, dang, pos)
    unchanged(B, "camera", s0, calstate(c))
    B.ens("point unchanged", B.all_([pos[i] == p0[i] for i in range(3)]))
    B.ens("six derivatives", len(dx) == 6 and len(dy) == 6)
    K = B.mod("calibration")

    def project(f, step):
        d = c.copy(K.Calibration())
        if f is not None:
            d.ext_par[f] = d.ext_par[f] + step
            d.update_rotation_matrix()
        return B.call("imgcoord.img_coord", pos, d, cpar.mm)
    x, y = project(None, 0)
    for i, f in enumerate(EXT):
        h = dpos if i < 3 else dang
        u, v = project(f, h)
        B.ens_eq(f"d x / d {f}", dx[i], (u - x) / h, tol=1e-6)
        B.ens_eq(f"d y / d {f}", dy[i], (v - y) / h, tol=1e-6)


# ---------------------------------------------------------------- the adjustments, for all points, flags and solver outcomes
def _set_matrix(B, cal):
    cal.update_rotation_matrix()


def _contracts(B):
    def deriv(cal, cpar, dpos, dang, pos):
        """(proved above; here the camera's matrix need not belong to its angles yet)"""
        cal.update_rotation_matrix()
        return B.vec(B.ctx.fresh_name("dx"), 6), B.vec(B.ctx.fresh_name("dy"), 6)

    def two(*a, **k):
        return B.real(B.ctx.fresh_name("u")), B.real(B.ctx.fresh_name("w"))
    return {O + "num_deriv_exterior": B.spec(O + "num_deriv_exterior", deriv),
            "imgcoord.img_coord": B.spec("imgcoord.img_coord", two),
            "trafo.pixel_to_metric": B.spec("trafo.pixel_to_metric", two),
            "trafo.correct_brown_affine": B.spec("trafo.correct_brown_affine", two),
            "vec_utils.unit_vector": B.pure("vec_utils.unit_vector", 3),
            "vec_utils.vec_norm": B.pure("vec_utils.vec_norm", "f")}


def _names(fl, glass):
    out = list(EXT) + [f for f, g in FLAG.items() if fl[g]] + (GLASS if glass else [])
    return out


def _orient_loops(B):
    def state():
        s = calstate(B.cal)
        return [(f, s[f]) for f in s]

    def whole(v, k):
        """Between the iterations: what was not asked for is as it was."""
        s = calstate(B.cal)
        return [(f"{f} as it was", B.any_([B.flags.get(FLAG.get(f)) if f in FLAG else B.flags["interfflag"], s[f] == B.s0[f]]))
                for f in list(FLAG) + GLASS] + weights(v)

    n = [0]

    def points(v, k):
        """Over the points: the camera is as it was before them (its glass: as at the start)."""
        s = calstate(B.cal)
        out = [("rows", v.n <= 2 * k), ("even", v.n >= 0)]
        n[0] += 1
        if n[0] % 3 == 1:
            B.s1 = s
        return out + [(f"{f} as before", B.any_([s[f] == B.s1[f], s[f] == B.s0[f]] if f in GLASS else [s[f] == B.s1[f]]))
                      for f in list(EXT) + list(FLAG) + GLASS]

    def rows(v, k):
        return weights(v)

    def weights(v):
        P = v._d.get("P")
        return [("weights", B.forall(0, B.length(P), lambda j: P[j] >= 0))] if hasattr(P, "at") else []
    return {O + "orient": {0: B.loop(whole), 1: B.loop(points), **{i: B.loop(rows) for i in range(3, 12)}}}


@contract("C19", [O + "orient"], contracts=_contracts, loops=_orient_loops, conc=False, opts={"merge": True, "total_s": 300})
def orient_changes_only_what_its_flags_say(B):
    P, T = B.mod("parameters"), B.mod("tracking_frame_buf")
    B.cal = c = _camera(B)
    n = B.int("nfix", 0, None)
    fix = B.seq("fix", ("vec", 3, "f"), "ndarray", n=n)
    pix = B.seq("pix", dict(TARG, __cls__=T.Target), n=n)
    B.flags = {}
    kw = {}
    for g in list(FLAG.values()) + ["interfflag"]:
        b = B.bool(g)
        B.flags[g] = b
        kw[g] = B.ite(b, 1, 0)
    interf = B.choice("glass", [0, 1])
    B.req(B.iff(B.flags["interfflag"], interf == 1))
    kw["interfflag"] = interf
    flags = P.OrientPar(useflag=B.int("useflag", 0, 3), **kw)
    f0, p0 = fix.copy(), pix.copy()
    B.s0 = calstate(c)
    sigma = B.np.zeros(20)
    r = B.call(O + "orient", c, _cpar(B), n, fix, pix, flags, sigma)
    s = calstate(c)
    for f in list(FLAG) + GLASS:
        B.ens(f"{f} changes only if asked", B.any_([B.flags[FLAG[f]] if f in FLAG else B.flags["interfflag"], s[f] == B.s0[f]]))
    ens_matrix(B, "matrix belongs to the angles", c.ext_par["dm"], *[c.ext_par[f] for f in ANG])
    B.ens_forall("the points are left alone", 0, n, lambda j: B.all_([fix[j][k] == f0[j][k] for k in range(3)]))
    B.ens_forall("the detections are left alone", 0, n, lambda j: B.all_([getattr(pix[j], k) == getattr(p0[j], k) for k in TARG]))


def _raw_loops(B):
    def whole(v, k):
        s = calstate(B.cal)
        return [(f"{f} as it was", s[f] == B.s0[f]) for f in ["cc", "xh", "yh"] + GLASS] + [
            (f"{f} neutral", s[f] == (1 if f == "ap5" else 0)) for f in [f"ap{i}" for i in range(7)]]

    def points(v, k):
        return [("rows", v.n == 2 * k)] + whole(v, k)
    return {O + "raw_orient": {0: B.loop(whole), 1: B.loop(points)}}


@contract("C19", [O + "raw_orient"], contracts=_contracts, loops=_raw_loops, conc=False, opts={"merge": True})
def raw_orient_changes_the_pose_and_makes_the_distortion_neutral(B):
    T = B.mod("tracking_frame_buf")
    B.cal = c = _camera(B)
    n = B.int("nfix", 0, None)
    fix = B.seq("fix", ("vec", 3, "f"), "ndarray", n=n)
    pix = B.seq("pix", dict(TARG, __cls__=T.Target), n=n)
    f0, p0 = fix.copy(), pix.copy()
    B.s0 = calstate(c)
    B.call(O + "raw_orient", c, _cpar(B), n, fix, pix)
    s = calstate(c)
    for f in ["cc", "xh", "yh"] + GLASS:
        B.ens(f"{f} as it was", s[f] == B.s0[f])
    for i in range(7):
        B.ens(f"distortion {i} neutral", s[f"ap{i}"] == (1 if i == 5 else 0))
    ens_matrix(B, "matrix belongs to the angles", c.ext_par["dm"], *[c.ext_par[f] for f in ANG])
    B.ens_forall("the points are left alone", 0, n, lambda j: B.all_([fix[j][k] == f0[j][k] for k in range(3)]))
    B.ens_forall("the detections are left alone", 0, n, lambda j: B.all_([getattr(pix[j], k) == getattr(p0[j], k) for k in TARG]))


# ---------------------------------------------------------------- the user's entry points
# any number of points
TARG_T = dict(pnr="i", x="f", y="f", n="i", nx="i", ny="i", sumg="i", tnr="i")


def _entry_any(B):
    def given(cal, nfix, fix, pix):
        B.ens("adjusts the camera given", cal is B.cal)
        B.ens("with the points given", B.all_([nfix == B.n, fix is B.ref]))
        B.ens("as many detections", B.length(pix) == B.n)
        B.ens_forall("each detection at its place", 0, B.n, lambda j: B.all_([pix[j].x == B.img0_x(j), pix[j].y == B.img0_y(j)]))

    def orient(cal, cpar, nfix, fix, pix, flags, sigmabeta, dm=1e-6, drad=1e-6):
        given(cal, nfix, fix, pix)
        B.ens("with the settings given", flags is B.opar and cpar is B.cpar)
        B.ens_forall("numbered", 0, B.n, lambda j: pix[j].pnr == B.img0_nr(j))
        B.used.append("orient")
        if B.choice("converges", [True, False]):
            B.resi = B.seq("resi", "f", "ndarray", n=2 * B.n + 10)
            return B.resi
        return None

    def raw(cal, cpar, nfix, fix, pix, dm=1e-4, drad=1e-4):
        given(cal, nfix, fix, pix)
        B.ens("with the settings given", cpar is B.cpar)
        B.used.append("raw")
        B.ok = B.choice("converges", [True, False])
        return B.ok
    return {O + "orient": B.spec(O + "orient", orient), O + "raw_orient": B.spec(O + "raw_orient", raw)}


def _entry_loops(B):
    def put(v, k):
        fs = [("room", B.length(v.targs) == B.n), ("placed so far", B.forall(0, k, lambda j: B.all_(
            [v.targs[j].x == B.img0[j][0], v.targs[j].y == B.img0[j][1]])))]
        if B.which == "full":
            fs.append(("numbered so far", B.forall(0, k, lambda j: v.targs[j].pnr == j)))
        return fs

    def out(v, k):
        return [("residuals so far", B.forall(0, k, lambda j: B.all_([v.ret[j, i] == B.resi[2 * j + i] for i in (0, 1)]))),
                ("numbers so far", B.forall(0, k, lambda j: v.used[j] == B.img0_nr(j)))]
    return {O + "external_calibration": {0: B.loop(put)}, O + "full_calibration": {0: B.loop(put), 1: B.loop(out)}}


@contract("C19", [O + "full_calibration", O + "external_calibration"], conc=False, contracts=_entry_any, loops=_entry_loops, note="any number of points")
def the_measured_data_are_handed_over_and_never_altered(B):
    P, T = B.mod("parameters"), B.mod("tracking_frame_buf")
    B.cal, B.used = _camera(B), []
    s0 = calstate(B.cal)
    B.n = n = B.int("n", 0, None)
    B.ref = B.seq("ref", ("vec", 3, "f"), "ndarray", n=n)
    ref0 = B.ref.copy()
    B.which = B.choice("adjust", ["full", "external"])
    if B.which == "external" or B.choice("detections as", ["array", "targets"]) == "array":
        img = B.seq("img", ("vec", 2, "f"), "ndarray", n=n)
        B.img0 = i0 = img.copy()
        B.img0_x, B.img0_y, B.img0_nr = (lambda j: i0[j][0]), (lambda j: i0[j][1]), (lambda j: j)
    else:
        img = B.seq("T", dict(TARG_T, __cls__=T.Target), n=n)
        B.img0 = i0 = img.copy()
        B.img0_x, B.img0_y, B.img0_nr = (lambda j: i0[j].x), (lambda j: i0[j].y), (lambda j: i0[j].pnr)
    B.cpar = _cpar(B)
    B.opar = P.OrientPar(*[B.int(f"flag{i}") for i in range(12)])
    fl = list(FLAG.values()) + ["useflag", "interfflag"]
    fl0 = [getattr(B.opar, g) for g in fl]
    B.ok = True
    try:
        if B.which == "full":
            res, used, err = B.call(O + "full_calibration", B.cal, B.ref, img, B.cpar, B.opar)
            B.ens("a residual for each detection", B.all_([B.length(res) == n, B.length(used) == n]))
            B.ens_forall("its own residual", 0, n, lambda j: B.all_([res[j, i] == B.resi[2 * j + i] for i in (0, 1)]))
            B.ens_forall("numbers of the detections", 0, n, lambda j: used[j] == B.img0_nr(j))
        else:
            B.ens("tells whether it converged", B.call(O + "external_calibration", B.cal, B.ref, img, B.cpar) is B.ok)
    except ValueError as e:
        B.ens("only if it does not converge", "failed" in str(e))
    B.ens("one adjustment", B.used == (["orient"] if B.which == "full" else ["raw"]))
    unchanged(B, "nothing else touches the camera", s0, calstate(B.cal))
    B.ens_forall("points", 0, n, lambda j: B.all_([B.ref[j, k] == ref0[j, k] for k in range(3)]))
    if isinstance(img, list):
        B.ens_forall("detections", 0, n, lambda j: B.all_([getattr(img[j], k) == getattr(i0[j], k) for k in TARG_T]))
    else:
        B.ens_forall("detections", 0, n, lambda j: B.all_([img[j, k] == i0[j, k] for k in range(2)]))
    B.ens("flags", B.all_([getattr(B.opar, g) == f for g, f in zip(fl, fl0)]))


# ---------------------------------------------------------------- real adjustments
def _real(B, nmin, nmax):
    np, P, T = B.np, B.mod("parameters"), B.mod("tracking_frame_buf")
    c = _real_camera(B)
    cpar = _cpar(B)
    rnd = np.random.RandomState(B.int("seed", 0, 10 ** 6))
    n = B.int("points", nmin, nmax)
    ref = rnd.uniform(-1, 1, (n, 3)) * np.array([25, 20, 15])
    noise = B.choice("noise", [0.0, 0.5, 20.0, 300.0])
    xy = []
    for p in ref:
        u = B.mod("imgcoord").img_coord(p, c, cpar.mm)
        px = B.mod("trafo").metric_to_pixel(u[0], u[1], cpar)
        xy.append((px[0] + rnd.uniform(-noise, noise), px[1] + rnd.uniform(-noise, noise)))
    # start somewhere else
    off = B.choice("start", [0.0, 1.0, 30.0])
    c.set_pos(c.get_pos() + off * rnd.uniform(-1, 1, 3))
    c.set_angles(c.get_angles() + 0.01 * off * rnd.uniform(-1, 1, 3))
    return c, cpar, rnd, n, ref, xy


def _matrix(B, c):
    m = c.ext_par["dm"].copy()
    d = c.copy(B.mod("calibration").Calibration())
    d.update_rotation_matrix()
    B.ens("the matrix belongs to the angles", bool((abs(m - d.ext_par["dm"]) <= 1e-12).all()))


@contract("C19", [O + "orient", O + "full_calibration"], sym=False, cases=70, jit=False)
def full_adjustments_run(B):
    np, P, T = B.np, B.mod("parameters"), B.mod("tracking_frame_buf")
    c, cpar, rnd, n, ref, xy = _real(B, 4, 8)
    fl = {g: int(rnd.randint(0, 2)) for g in list(FLAG.values()) + ["interfflag"]}
    if B.choice("flags", ["some", "none"]) == "none":
        fl = {g: 0 for g in fl}
    opar = P.OrientPar(useflag=B.choice("useflag", [0, 0, 1, 2, 3]), **fl)
    if B.choice("as", ["array", "targets"]) == "array":
        img = np.array(xy)
    else:
        img = [T.Target(pnr=i if rnd.uniform() < 0.9 else -999, x=x, y=y, n=5, nx=2, ny=3, sumg=50, tnr=-1) for i, (x, y) in enumerate(xy)]
    import copy
    ref0, img0, fl0 = ref.copy(), copy.deepcopy(img), copy.deepcopy(opar)
    s0 = calstate(c)
    try:
        B.call(O + "full_calibration", c, ref, img, cpar, opar)
    except (ValueError, np.linalg.LinAlgError):
        pass
    s = calstate(c)
    if all(np.isfinite(v) for v in s.values()):
        unchanged(B, "what was not asked for", s0, s, _names(fl, fl["interfflag"]) + DM)
        _matrix(B, c)
    else:
        keep = [f for f in s0 if f not in _names(fl, fl["interfflag"]) + DM]
        unchanged(B, "what was not asked for", {f: s0[f] for f in keep}, s)
    B.ens("points left alone", bool((ref == ref0).all()))
    B.ens("detections left alone", bool((img == img0).all()) if isinstance(img, np.ndarray) else
          all(getattr(a, k) == getattr(b, k) for a, b in zip(img, img0) for k in TARG) and len(img) == len(img0))
    B.ens("flags left alone", opar == fl0)


@contract("C19", [O + "raw_orient", O + "external_calibration"], sym=False, cases=60, jit=False)
def external_adjustments_run(B):
    np = B.np
    c, cpar, rnd, n, ref, xy = _real(B, 4, 8)
    img, ref0 = np.array(xy), ref.copy()
    img0, s0 = img.copy(), calstate(c)
    try:
        B.call(O + "external_calibration", c, ref, img, cpar)
    except (ValueError, np.linalg.LinAlgError):
        pass
    s = calstate(c)
    unchanged(B, "interior and glass", {f: s0[f] for f in ["cc", "xh", "yh"] + GLASS}, s)
    B.ens("neutral distortion", all(s[f"ap{i}"] == (1 if i == 5 else 0) for i in range(7)))
    if all(np.isfinite(v) for v in s.values()):
        _matrix(B, c)
    B.ens("points left alone", bool((ref == ref0).all()))
    B.ens("detections left alone", bool((img == img0).all()))


@contract("C19", [O + "match_detection_to_ref"], sym=False, cases=40, jit=False)
def matching_to_the_points_leaves_the_detections_alone_run(B):
    import copy
    T = B.mod("tracking_frame_buf")
    c, cpar, rnd, n, ref, xy = _real(B, 1, 8)
    img = [T.Target(pnr=int(i), x=xy[i][0], y=xy[i][1], n=5, nx=2, ny=3, sumg=50, tnr=-1) for i in rnd.permutation(n)]
    img0, ref0, s0 = copy.deepcopy(img), ref.copy(), calstate(c)
    B.call(O + "match_detection_to_ref", c, ref, img, cpar)
    B.ens("detections left alone", all(getattr(a, k) == getattr(b, k) for a, b in zip(img, img0) for k in TARG) and len(img) == n)
    B.ens("points left alone", bool((ref == ref0).all()))
    unchanged(B, "camera", s0, calstate(c))
