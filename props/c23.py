"""C23 -- a tracking run starts with the volume its cameras can see."""
from pyvc.api import contract

M = "multimed."
BOX = ("xmax", "xmin", "ymax", "ymin")


# ---------------------------------------------------------------- the volume
def _contracts(B):
    """The chain pixel - metric - undistorted - ray: each a function of what it is given, and of its camera."""
    def metric(x, y, cpar):
        B.ens("the sensor given", cpar is B.cpar)
        return B.uf("mx", x, y), B.uf("my", x, y)

    def undistort(x, y, ap):
        return B.uf("ux", x, y, ap.id), B.uf("uy", x, y, ap.id)

    def trace(x, y, cal, mm):
        B.ens("the media given", mm is B.cpar.mm)
        p, d = _ray(B, x, y, cal.id)
        B.req(d[2] != 0)        # no ray is parallel to the planes
        return B.np.array(p, dtype=B.np.float64), B.np.array(d, dtype=B.np.float64)
    return {k: B.spec(k, f) for k, f in (("trafo.pixel_to_metric", metric), ("trafo.correct_brown_affine", undistort),
                                         ("ray_tracing.ray_tracing", trace))}


def _ray(B, x, y, cam):
    return [B.uf(f"ray{a}", x, y, cam) for a in range(3)], [B.uf(f"dir{a}", x, y, cam) for a in range(3)]


def _met(B, c):
    """Where the rays of the corners of camera c meet the lower and the upper plane."""
    cal = B.cals[c]
    out = []
    for px in (0, B.cpar.imx):
        for py in (0, B.cpar.imy):
            a, b = B.uf("mx", px, py) - cal.int_par.xh, B.uf("my", px, py) - cal.int_par.yh
            p, d = _ray(B, B.uf("ux", a, b, cal.added_par.id), B.uf("uy", a, b, cal.added_par.id), cal.id)
            for z in (B.lower, B.upper):
                out.append([p[m] + (z - p[2]) * d[m] / d[2] for m in (0, 1)])
    return out


def _loops(B):
    def inv(v, k):
        # the box after the cameras before k: the given one, grown to each point
        new = {n: B.ufr(n, k) for n in BOX}
        for x, y in B.total(lambda: _met(B, k)):
            new = dict(xmax=B.ite(x > new["xmax"], x, new["xmax"]), xmin=B.ite(x < new["xmin"], x, new["xmin"]),
                       ymax=B.ite(y > new["ymax"], y, new["ymax"]), ymin=B.ite(y < new["ymin"], y, new["ymin"]))
        for n in BOX:
            B.req(B.ufr(n, k + 1) == new[n])
        return [(n, getattr(v, n) == B.ufr(n, k)) for n in BOX] + [
            ("the planes", B.all_([v.z_min == B.lower, v.z_max == B.upper]))]
    return {M + "volumedimension": {0: B.loop(inv)}}


@contract("C23", [M + "volumedimension"], contracts=_contracts, loops=_loops, conc=False, opts={"feas_ms": 40, "merge": True, "opaque_products": True, "total_s": 200},
          note="any number of cameras; the box is defined by recursion over them")
def the_box_of_everything_seen(B):
    P = B.mod("parameters")
    B.n = n = B.int("n", 0, None)
    B.cpar = P.ControlPar(num_cams=1)
    B.cpar.num_cams = n
    B.cpar.imx, B.cpar.imy = B.int("imx", 1, None), B.int("imy", 1, None)
    B.cals = cals = B.seq("cals", dict(id="i", added_par=dict(id="i"), int_par=dict(xh="f", yh="f")), n=n)
    B.req(B.forall(0, n, lambda j: B.all_([cals[j].id == j, cals[j].added_par.id == j])))
    vpar = P.VolumePar()
    lo, hi = [B.real(f"lo{i}") for i in (0, 1)], [B.real(f"hi{i}") for i in (0, 1)]
    vpar.z_min_lay, vpar.z_max_lay = list(lo), list(hi)
    B.lower, B.upper = B.ite(lo[1] < lo[0], lo[1], lo[0]), B.ite(hi[1] > hi[0], hi[1], hi[0])
    box = [B.real(b) for b in BOX]
    for b, x in zip(BOX, box):
        B.req(B.ufr(b, 0) == x)
    r = B.call(M + "volumedimension", *box, B.real("z_max"), B.real("z_min"), vpar, B.cpar, cals)
    for i, b in enumerate(BOX):
        B.ens(b + " of everything seen", r[i] == B.ufr(b, n))
    B.ens("highest and lowest plane", B.all_([r[4] == B.upper, r[5] == B.lower]))
    B.ens("the layers are left alone", B.all_([vpar.z_min_lay[i] == lo[i] for i in (0, 1)] + [vpar.z_max_lay[i] == hi[i] for i in (0, 1)]))


# ---------------------------------------------------------------- the run
KEEP = ("seq_par", "tpar", "vpar", "cpar", "cal", "flatten_tol")


def _run_contracts(B):
    def volume(xmax, xmin, ymax, ymin, z_max, z_min, vpar, cpar, cal):
        B.ens("the volume grows from the one given", B.all_([xmax == B.x[1], xmin == B.x[0], z_max == B.hi[1], z_min == B.lo[0], ymax == 0, ymin == 0]))
        B.ens("seen by the cameras given", B.all_([vpar is B.vpar, cpar is B.cpar, B.same(cal, B.cals)]))
        return tuple(B.box)

    def buf(self, buf_len, num_cams, max_targets, corres_file_base, linkage_file_base, prio_file_base, target_file_base):
        B.made.append((buf_len, num_cams, max_targets, corres_file_base, linkage_file_base, prio_file_base, target_file_base))
    return {M + "volumedimension": B.spec(M + "volumedimension", volume),
            "tracking_frame_buf.FrameBuf.__init__": B.spec("tracking_frame_buf.FrameBuf.__init__", buf)}


def _setting(B):
    P = B.mod("parameters")
    B.seq_par = P.SequencePar(img_base_name=["a", "b"], first=B.int("first"), last=B.int("last"))
    B.t = {n: B.real(n) for n in ("dvxmin", "dvxmax", "dvymin", "dvymax", "dvzmin", "dvzmax")}
    B.tpar = P.convert_track_par_to_tuple(P.TrackPar(**B.t))
    B.vpar, B.cpar = P.VolumePar(), P.ControlPar(num_cams=2)
    B.x, B.lo, B.hi = ([B.real(f"{n}{i}") for i in (0, 1)] for n in ("x", "lo", "hi"))
    B.vpar.x_lay, B.vpar.z_min_lay, B.vpar.z_max_lay = list(B.x), list(B.lo), list(B.hi)
    B.cals = [B.mod("calibration").Calibration() for _ in range(2)]
    B.box = [B.real(f"box{i}") for i in range(6)]
    B.made = []


def _started(B, r, tol):
    d = [B.t[f"dv{a}min"] - B.t[f"dv{a}max"] for a in "xyz"]
    B.ens("largest displacement", B.all_([r.lmax >= 0, B.eq(r.lmax * r.lmax, d[0] * d[0] + d[1] * d[1] + d[2] * d[2])]))
    v = r.vpar
    B.ens("the volume", B.all_([B.eq(a, b) for a, b in zip((v.x_lay[1], v.x_lay[0], r.ymax, r.ymin, v.z_max_lay[1], v.z_min_lay[0]), B.box)]))
    B.ens("the other layer depths are kept", B.all_([v.z_min_lay[1] == B.lo[1], v.z_max_lay[0] == B.hi[0]]))
    B.ens("nothing tracked yet", B.all_([r.npart == 0, r.nlinks == 0, r.flatten_tol == tol]))


@contract("C23", ["tracking_run.TrackingRun.__init__"], contracts=_run_contracts, conc=False)
def a_run_starts_from_what_it_is_given(B):
    _setting(B)
    n, m, tol = B.int("buf_len", 1, None), B.int("max_targets", 1, None), B.pos("tol")
    r = B.call("tracking_run.TrackingRun", B.seq_par, B.tpar, B.vpar, B.cpar, n, m, "corres", "linkage", "prio", B.cals, tol)
    B.ens("keeps what it is given", r.seq_par is B.seq_par and r.tpar is B.tpar and r.vpar is B.vpar and r.cpar is B.cpar and B.same(r.cal, B.cals))
    B.ens("one buffer", len(B.made) == 1)
    a = B.made[0]
    B.ens("of the length and with the files given", B.all_([a[0] == n, a[1] == 2, a[2] == m]))
    B.ens("files", a[3:6] == ("corres", "linkage", "prio") and list(a[6]) == ["a", "b"])
    _started(B, r, tol)


def _file_contracts(B):
    def reader(what, val):
        def f(filename, *more):
            B.ens(f"the {what} parameters are read from their own file", filename == what + ".par")
            if what == "sequence":
                B.ens("for the cameras there are", len(more) == 1 and more[0] == 2)
            return val()
        return f
    P = "parameters."
    return dict(_run_contracts(B), **{P + "read_control_par": B.spec(P + "read_control_par", reader("control", lambda: B.cpar)),
                P + "read_volume_par": B.spec(P + "read_volume_par", reader("volume", lambda: B.vpar)),
                P + "read_track_par": B.spec(P + "read_track_par", reader("tracking", lambda: B.track_par)),
                P + "read_sequence_par": B.spec(P + "read_sequence_par", lambda filename, num_cams: reader("sequence", lambda: B.seq_par)(filename, num_cams))})


@contract("C23", ["tracking_run.tr_new", "tracking_run.TrackingRun.__init__", "parameters.convert_track_par_to_tuple"],
          contracts=_file_contracts, conc=False)
def a_run_from_files(B):
    _setting(B)
    P = B.mod("parameters")
    more = {f: B.int(f) for f in ("add",)}
    more.update({f: B.real(f) for f in ("dangle", "dacc")})
    B.t.update(more)
    B.track_par = P.TrackPar(**B.t)
    tol = B.pos("tol")
    r = B.call("tracking_run.tr_new", "sequence.par", "tracking.par", "volume.par", "control.par", 4, 10, "corres", "linkage", "prio", B.cals, tol)
    B.ens("parameters from the files", B.all_([r.seq_par is B.seq_par, r.vpar is B.vpar, r.cpar is B.cpar, B.same(r.cal, B.cals)]
                                             + [getattr(r.tpar, n) == x for n, x in B.t.items()]))
    a = B.made[0]
    B.ens("buffer", len(B.made) == 1 and a == (4, 2, 10, "corres", "linkage", "prio", a[6]) and list(a[6]) == ["a", "b"])
    _started(B, r, tol)


@contract("C23", [M + "volumedimension", "tracking_run.TrackingRun.__init__", "tracking_run.tr_new"], sym=False, cases=80)
def volumes_run(B):
    """Real cameras: the box against the corner rays followed to both planes, and the run that starts with it."""
    from .c05 import _mmpar
    np, P, tr, rt = B.np, B.mod("parameters"), B.mod("trafo"), B.mod("ray_tracing")
    nc = B.int("cams", 1, 4)
    cals = []
    for i in range(nc):
        c = B.mod("calibration").Calibration()
        c.set_pos(np.array([B.real(f"cx{i}", s=(-50, 50)), B.real(f"cy{i}", s=(-50, 50)), B.real(f"cz{i}", s=(120, 200))]))
        c.set_angles(np.array([B.real(f"w{i}{j}", s=(-0.3, 0.3)) for j in range(3)]))
        c.int_par.xh, c.int_par.yh, c.int_par.cc = B.real(f"xh{i}", s=(-1, 1)), B.real(f"yh{i}", s=(-1, 1)), B.real(f"cc{i}", s=(50, 100))
        c.glass_par = np.array([0.0, 0.0, B.real(f"g{i}", s=(20, 60))])
        c.added_par = np.array([B.real(f"k{i}{j}", s=(-1e-5, 1e-5)) for j in range(5)] + [1.0, 0.0])
        cals.append(c)
    cpar = P.ControlPar(num_cams=nc)
    cpar.imx, cpar.imy = B.int("imx", 100, 2000), B.int("imy", 100, 2000)
    cpar.pix_x = cpar.pix_y = 0.01
    cpar.mm = _mmpar(B, 1)
    v = P.VolumePar()
    v.x_lay = [-B.real("x0", s=(0, 60)), B.real("x1", s=(0, 60))]
    v.z_min_lay = [B.real("lo0", s=(-40, -5)), B.real("lo1", s=(-40, -5))]
    v.z_max_lay = [B.real("hi0", s=(-5, 19)), B.real("hi1", s=(-5, 19))]
    lo, hi = min(v.z_min_lay), max(v.z_max_lay)
    x0, l0, h0 = list(v.x_lay), list(v.z_min_lay), list(v.z_max_lay)
    xs, ys = list(v.x_lay), [0.0, 0.0]
    for c in cals:
        for px in (0.0, cpar.imx):
            for py in (0.0, cpar.imy):
                x, y = tr.pixel_to_metric(px, py, cpar)
                p, d = rt.ray_tracing(*tr.correct_brown_affine(x - c.int_par.xh, y - c.int_par.yh, c.added_par), c, cpar.mm)
                if abs(d[2]) < 0.2 or not np.isfinite(p).all():
                    return
                for z in (lo, hi):
                    xs.append(p[0] + (z - p[2]) * d[0] / d[2])
                    ys.append(p[1] + (z - p[2]) * d[1] / d[2])
    want = (max(xs), min(xs), max(ys), min(ys), hi, lo)
    r = B.call(M + "volumedimension", x0[1], x0[0], 0.0, 0.0, h0[1], l0[0], v, cpar, cals)
    for i, w in enumerate(want):
        B.ens_eq("box " + "xmax xmin ymax ymin zmax zmin".split()[i], r[i], w, 1e-6)
    t = P.TrackPar(dvxmin=-B.real("a", s=(0, 9)), dvxmax=B.real("b", s=(0, 9)), dvymin=-1.0, dvymax=B.real("c", s=(0, 9)), dvzmin=-B.real("d", s=(0, 9)), dvzmax=2.0,
                   dangle=B.real("angle", s=(0, 200)), dacc=B.real("acc", s=(0, 9)), add=B.int("add", 0, 1))
    s = P.SequencePar(img_base_name=[f"i{j}" for j in range(nc)], first=1, last=2)
    R = B.call("tracking_run.TrackingRun", s, P.convert_track_par_to_tuple(t), v, cpar, 4, 10, "c", "l", "p", cals, 1e-4)
    got = (R.vpar.x_lay[1], R.vpar.x_lay[0], R.ymax, R.ymin, R.vpar.z_max_lay[1], R.vpar.z_min_lay[0])
    for i, w in enumerate(want):
        B.ens_eq("the run's " + "xmax xmin ymax ymin zmax zmin".split()[i], got[i], w, 1e-6)
    B.ens_eq("largest displacement", R.lmax, float(np.linalg.norm([t.dvxmin - t.dvxmax, t.dvymin - t.dvymax, t.dvzmin - t.dvzmax])), 1e-9)
    B.ens("nothing tracked yet", R.npart == 0 and R.nlinks == 0 and R.flatten_tol == 1e-4)
    B.ens("buffer", len(R.fb.buf) == 4 and R.cal is cals and R.cpar is cpar and R.seq_par is s)
    # the same run from files: the layers as they were given
    v.x_lay, v.z_min_lay, v.z_max_lay = list(x0), list(l0), list(h0)
    import pathlib
    import tempfile
    from .c17 import _lines
    B.tmp = tempfile.TemporaryDirectory()
    d = pathlib.Path(B.tmp.name)
    mm = cpar.mm
    files = dict(track=_lines(t, "TrackPar"), seq=_lines(s, "SequencePar"), volume=_lines(v, "VolumePar"),
                 control=[nc] + [f"n{i}" for i in range(2 * nc)] + [1, 0, 1, cpar.imx, cpar.imy, 0.01, 0.01, 0, mm.n1, mm.n2[0], mm.n3, mm.d[0]])
    for k, ls in files.items():
        (d / k).write_text("".join(f"{x}\n" for x in ls))
    R = B.call("tracking_run.tr_new", d / "seq", d / "track", d / "volume", d / "control", 4, 10, "c", "l", "p", cals, 1e-4)
    got = (R.vpar.x_lay[1], R.vpar.x_lay[0], R.ymax, R.ymin, R.vpar.z_max_lay[1], R.vpar.z_min_lay[0])
    for i, w in enumerate(want):
        B.ens_eq("from files: " + "xmax xmin ymax ymin zmax zmin".split()[i], got[i], w, 1e-6)
    B.ens("from files: velocity limits", all(getattr(R.tpar, f) == getattr(t, f) for f in ("dvxmin", "dvxmax", "dvymin", "dvymax", "dvzmin", "dvzmax", "dangle", "dacc", "add")))
    B.ens("from files: cameras and sequence", R.cpar.num_cams == nc and list(R.seq_par.img_base_name) == list(s.img_base_name)
          and (R.seq_par.first, R.seq_par.last) == (1, 2) and R.cal is cals)
    B.ens("from files: buffer", len(R.fb.buf) == 4 and R.fb.num_cams == nc and len(R.fb.buf[0].correspond) == 10 and R.flatten_tol == 1e-4)
    B.ens("from files: nothing tracked yet", R.npart == 0 and R.nlinks == 0)
