"""C11 -- the local search of the tracking returns the nearest targets inside the window."""
from pyvc.api import contract

TR_UNUSED = -1
BIG = 1e6           # largest image size


def _targets(B, n):
    F = B.mod("tracking_frame_buf")
    tt = {f: "i" for f in ("pnr", "n", "nx", "ny", "sumg", "tnr")}
    tt.update(x="f", y="f", __cls__=F.Target)
    T = B.seq("T", tt, n=n)
    B.req(B.forall(0, n, lambda i: B.forall(0, i, lambda j: T[j].y <= T[i].y)))     # lists are sorted by y
    return T


def _window(B):
    B.imx, B.imy = B.int("imx", 1, int(BIG)), B.int("imy", 1, int(BIG))
    B.cx, B.cy = B.real("cx"), B.real("cy")
    w = [B.real(x) for x in ("dl", "dr", "du", "dd")]
    dl, dr, du, dd = w
    lo = lambda a: B.ite(a < 0, 0, a)
    hi = lambda a, m: B.ite(a > m, m, a)
    B.x0, B.x1 = lo(B.cx - dl), hi(B.cx + dr, B.imx)
    B.y0, B.y1 = lo(B.cy - du), hi(B.cy + dd, B.imy)
    B.inside = B.all_([B.cx >= 0, B.cx <= B.imx, B.cy >= 0, B.cy <= B.imy])
    return w, B.mod("parameters").ControlPar(num_cams=1, imx=B.imx, imy=B.imy)


def _in(B, j):
    t = B.T[j]
    assigned = t.tnr != TR_UNUSED
    return B.all_([B.x0 < t.x, t.x < B.x1, B.y0 < t.y, t.y < B.y1, assigned if B.kind == "assigned" else B.not_(assigned)])


def _sq(B, j):
    t = B.T[j]
    return (B.cx - t.x) ** 2 + (B.cy - t.y) ** 2


def _dist(B, j):
    return B.ufr("dist", j)


def _bisect(B, skip):
    """The two loops that find where to start."""
    def halving(v, k):
        return [("start", B.all_([v.dj >= 0, v.j0 - 2 * v.dj >= 0, v.j0 + 2 * v.dj <= B.n]))]

    def back(v, k):
        return [("start", B.all_([v.j0 >= 0, v.j0 <= B.n]))]
    return {0: B.loop(halving, lambda v: v.dj), 1: B.loop(back, lambda v: v.j0)}


def _define(B, k):
    """The distance of target k from the centre (it is smaller than the start value)."""
    t = B.total(lambda: B.T[k])
    d = B.norm(*B.total(lambda: (B.cx - t.x, B.cy - t.y)))
    B.req(B.implies(B.all_([k >= 0, k < B.n]), _dist(B, k) == d))


def _four(B, p, k):
    """p are the four best of the targets before k, in order of distance."""
    at = lambda j: B.any_([p[i] == j for i in range(4)])
    out = [("existing", B.all_([B.any_([p[i] == -1, B.all_([p[i] >= 0, p[i] < k, p[i] < B.n])]) for i in range(4)])),
           ("in the window", B.all_([B.any_([p[i] < 0, _in(B, p[i])]) for i in range(4)])),
           ("filled from the front", B.all_([B.implies(p[i] < 0, p[i + 1] < 0) for i in range(3)])),
           ("no target twice", B.all_([B.any_([p[i] < 0, p[i] != p[j]]) for i in range(4) for j in range(i)])),
           ("ordered by distance", B.all_([B.any_([p[i + 1] < 0, _dist(B, p[i]) <= _dist(B, p[i + 1])]) for i in range(3)])),
           ("nothing nearer is left out", B.forall(0, k, lambda j: B.implies(_in(B, j), B.any_(
               [at(j), B.all_([p[3] >= 0, _dist(B, p[3]) <= _dist(B, j)])]))))]
    return out


def _search_loops(B):
    def inv(v, k):
        _define(B, k)
        p, d = (v.p1, v.p2, v.p3, v.p4), (v.d1, v.d2, v.d3, v.d4)
        return B.total(lambda: _four(B, p, k)) + [("their distances", B.all_(
            [B.ite(p[i] < 0, d[i] == 1e20, d[i] == _dist(B, p[i])) for i in range(4)])),
            ("distances are small", B.all_([B.any_([p[i] < 0, d[i] < 1e20]) for i in range(4)]))]
    loops = _bisect(B, 0)
    loops[2] = B.loop(inv)
    return {"track.candsearch_in_pix": loops}


@contract("C11", ["track.candsearch_in_pix"], loops=_search_loops, conc=False, opts={"merge": True, "feas_ms": 40, "total_s": 220})
def the_four_nearest_assigned_targets(B):
    B.kind = "assigned"
    B.n = B.int("n", 0, None)
    B.T = _targets(B, B.n)
    w, cpar = _window(B)
    p = B.call("track.candsearch_in_pix", B.T, B.n, B.cx, B.cy, *w, cpar)
    B.ens("four slots", len(p) == 4)
    if B.case(B.inside):
        for nm, q in B.total(lambda: _four(B, p, B.n)):
            B.ens(nm, q)
    else:
        B.ens("centre outside the image: no target", B.all_([p[i] == -1 for i in range(4)]))


def _rest_state(B, q, k):
    return [("existing, in the window", B.any_([q == -1, B.all_([q >= 0, q < k, q < B.n, _in(B, q)])])),
            ("nothing nearer is left out", B.forall(0, k, lambda j: B.implies(_in(B, j), B.all_(
                [q >= 0, _dist(B, q) <= _dist(B, j)]))))]


def _rest_loops(B):
    def inv(v, k):
        _define(B, k)
        q = v.p[0]
        return B.total(lambda: _rest_state(B, q, k)) + [("distance", B.ite(q < 0, v.dmin == 1e20, B.all_([v.dmin == _dist(B, q), v.dmin < 1e20]))),
                                       ("the other slots", B.all_([v.p[i] == -1 for i in (1, 2, 3)]))]
    loops = _bisect(B, 0)
    loops[2] = B.loop(inv)
    return {"track.candsearch_in_pix_rest": loops}


@contract("C11", ["track.candsearch_in_pix_rest"], loops=_rest_loops, conc=False, opts={"merge": True, "feas_ms": 40, "total_s": 220})
def the_nearest_target_without_a_particle(B):
    B.kind = "unassigned"
    B.n = B.int("n", 0, None)
    B.T = _targets(B, B.n)
    w, cpar = _window(B)
    p = B.np.array([-1, -1, -1, -1])
    cnt = B.call("track.candsearch_in_pix_rest", B.T, B.n, B.cx, B.cy, *w, p, cpar)
    B.ens("the other slots", B.all_([p[i] == -1 for i in (1, 2, 3)]))
    if B.case(B.inside):
        B.ens("number found", cnt == B.ite(p[0] == -1, 0, 1))
        for nm, q in B.total(lambda: _rest_state(B, p[0], B.n)):
            B.ens(nm, q)
    else:
        B.ens("centre outside the image: no target", B.all_([p[0] == -1, cnt == 0]))


def _run_list(B):
    F = B.mod("tracking_frame_buf")
    n = B.choice("n", [0, 1, 2, 3, 5, 9, 20, 60, 200, 700])
    big = B.choice("extent", [20, 60, 400])
    tall = B.choice("height", [big, big // 2, 3 * big // 2])
    grid = B.bool("grid")
    rnd = B.np.random.RandomState(B.int("seed", 0, 10 ** 6))
    T = []
    for i in range(n):
        x, y = rnd.uniform(-3, big + 3), rnd.uniform(-3, tall + 3)
        if grid:
            x, y = round(x / 4) * 4.0, round(y / 4) * 4.0
        T.append(F.Target(pnr=i, x=x, y=y, n=1, nx=1, ny=1, sumg=1, tnr=int(rnd.choice([-1, 5 + i, 5 + i, 0]))))
    T.sort(key=lambda t: t.y)
    k = [B.int(f"w{i}", 0, 60) for i in range(4)]
    if B.bool("none"):
        k = [3] * 4
    cx, cy = B.real("cx", s=(-0.05, 1.05)) * big, B.real("cy", s=(-0.05, 1.05)) * tall
    if grid:
        cx, cy = round(cx / 4) * 4.0, round(cy / 4) * 4.0
    cpar = B.mod("parameters").ControlPar(num_cams=1, imx=big, imy=tall)
    x0, x1 = max(cx - k[0], 0), min(cx + k[1], big)
    y0, y1 = max(cy - k[2], 0), min(cy + k[3], tall)
    ok = 0 <= cx <= big and 0 <= cy <= tall
    D = [((t.x - cx) ** 2 + (t.y - cy) ** 2) ** 0.5 for t in T]
    win = [i for i, t in enumerate(T) if ok and x0 < t.x < x1 and y0 < t.y < y1]
    return T, n, cx, cy, k, cpar, D, win


@contract("C11", ["track.candsearch_in_pix", "track.candsearch_in_pix_rest"], sym=False, cases=600)
def searches_run(B):
    """Both searches on real lists, against looking at every target."""
    T, n, cx, cy, k, cpar, D, win = _run_list(B)
    p = list(B.call("track.candsearch_in_pix", T, n, cx, cy, *k, cpar))
    q = B.np.array([-1] * 4)
    cnt = B.call("track.candsearch_in_pix_rest", T, n, cx, cy, *k, q, cpar)
    want = sorted(D[i] for i in win if T[i].tnr != -1)[:4]
    got = [i for i in p if i != -1]
    B.ens("only targets of the window", all(i in win and T[i].tnr != -1 for i in got), f"{p}")
    B.ens("empty slots at the end", p == got + [-1] * (4 - len(got)))
    B.ens("each once", len(set(got)) == len(got))
    B.ens("nearest first", len(got) == len(want) and all(abs(D[i] - w) < 1e-9 for i, w in zip(got, want)), f"{got} {want}")
    want = sorted(D[i] for i in win if T[i].tnr == -1)[:1]
    B.ens("number of unassigned", cnt == len(want))
    if want:
        B.ens("nearest unassigned", int(q[0]) in win and T[int(q[0])].tnr == -1 and abs(D[int(q[0])] - want[0]) < 1e-9)
    else:
        B.ens("none", int(q[0]) == -1)
    B.ens("other slots", list(q[1:]) == [-1] * 3)


@contract("C11", ["track.candsearch_in_pix", "track.candsearch_in_pix_rest"], sym=False, cases=16)
def long_lists_run(B):
    """Windows at the ends of lists as long as a frame may hold (the halving of the list is off by more than a dozen there)."""
    F = B.mod("tracking_frame_buf")
    n = B.choice("n", [8191, 16383, 16383, 20000])
    first = B.choice("window from", [0, 1, 2, 5, 4090, 12280, n - 3])
    near = range(max(first - 3, 0), min(first + 6, n))
    T = [None] * n
    for i in range(n):
        T[i] = F.Target(pnr=i, x=50.0 if i in near else 5.0, y=i / 100.0, n=1, nx=1, ny=1, sumg=1, tnr=i if i % 2 else -1)
    cpar = B.mod("parameters").ControlPar(num_cams=1, imx=100, imy=300)
    cy = min(first / 100.0 + 0.021, 299.0)
    y0, y1 = cy - 0.026, cy + 0.024
    win = sorted((abs(T[i].y - cy), i) for i in near if y0 < T[i].y < y1)
    p = [i for i in B.call("track.candsearch_in_pix", T, n, 50.0, cy, 5.0, 5.0, 0.026, 0.024, cpar) if i != -1]
    q = B.np.array([-1] * 4)
    B.call("track.candsearch_in_pix_rest", T, n, 50.0, cy, 5.0, 5.0, 0.026, 0.024, q, cpar)
    want = [d for d, i in win if T[i].tnr != -1][:4]
    B.ens("the nearest assigned", len(p) == len(want) and all(abs(abs(T[i].y - cy) - d) < 1e-9 and T[i].tnr != -1 for i, d in zip(p, want)), f"{p}")
    want = [d for d, i in win if T[i].tnr == -1][:1]
    got = [int(i) for i in q if i != -1]
    B.ens("the nearest unassigned", len(got) == len(want) and all(abs(abs(T[i].y - cy) - d) < 1e-9 and T[i].tnr == -1 for i, d in zip(got, want)), f"{got}")


# ---------------------------------------------------------------- the window around a predicted position
def _pix(B):
    def f(p, cal, cpar):
        c = [k for k in range(4) if cal is B.cals[k]][0]
        B.ens("the cameras' parameters", cpar is B.cpar)
        return B.np.array([B.uf(f"px{c}", p[0], p[1], p[2]), B.uf(f"py{c}", p[0], p[1], p[2])])
    return {"track.point_to_pixel": B.spec("track.point_to_pixel", f)}


@contract("C11", ["track.searchquader"], contracts=_pix, conc=False, opts={"merge": True, "feas_ms": 40, "total_s": 220})
def the_window_is_the_image_of_the_search_volume(B):
    P = B.mod("parameters")
    B.cals = [B.mod("calibration").Calibration() for _ in range(4)]
    nc = B.choice("num_cams", [1, 4])
    B.cpar = P.ControlPar(num_cams=nc, imx=B.int("imx", 1, None), imy=B.int("imy", 1, None))
    tp = P.TrackPar()
    lim = {}
    for a in "xyz":
        for m in ("min", "max"):
            lim[a + m] = B.real(f"dv{a}{m}")
            setattr(tp, f"dv{a}{m}", lim[a + m])
    pt = B.vec("pt", 3)
    xr, xl, yd, yu = B.call("track.searchquader", pt, tp, B.cpar, B.vlist(B.cals[:nc]))
    for c in range(nc):
        at = lambda k, q: B.uf(f"p{'xy'[k]}{c}", *q)
        ctr = [at(k, [pt[0], pt[1], pt[2]]) for k in range(2)]
        cor = [[at(k, [pt[d] + lim["xyz"[d] + ("max" if (i >> d) & 1 else "min")] for d in range(3)]) for i in range(8)] for k in range(2)]
        for k, lo, hi, m, nm in ((0, xl[c], xr[c], B.cpar.imx, "x"), (1, yu[c], yd[c], B.cpar.imy, "y")):
            # lo = ctr - max(0, min(corners, m)), hi = min(m, max(corners, 0)) - ctr
            first, last = ctr[k] - lo, ctr[k] + hi
            inner = lambda a: B.ite(a < 0, 0, B.ite(a > m, m, a))
            B.ens(f"camera {c} {nm}: the image of every corner, as far as it is in the image, is inside",
                  B.all_([B.all_([first <= inner(a), inner(a) <= last]) for a in cor[k]]))
            B.ens(f"camera {c} {nm}: no larger than that", B.all_([
                B.any_([first == inner(a) for a in cor[k]]), B.any_([last == inner(a) for a in cor[k]])]))


@contract("C11", ["track.point_to_pixel"], cases=100,
          contracts=lambda B: {"imgcoord.img_coord": B.pure("imgcoord.img_coord", ["f", "f"])})
def a_point_s_pixel_is_its_distorted_image_in_pixels(B):
    from .c05 import _scene
    q, cal, mm = _scene(B)
    cpar = B.mod("parameters").ControlPar(num_cams=1, imx=B.int("imx", 1, 2000), imy=B.int("imy", 1, 2000), pix_x=B.real("pixx", s=(0.004, 0.02)),
                                          pix_y=B.real("pixy", s=(0.004, 0.02)), chfield=B.choice("chfield", [0, 1, 2]), mm=mm)
    B.req(cpar.pix_x > 0)
    B.req(cpar.pix_y > 0)
    r = B.call("track.point_to_pixel", q, cal, cpar)
    u = B.call("imgcoord.img_coord", q, cal, mm)
    if B.conc:
        B.req(B.np.isfinite(r).all())
    want = B.call("trafo.metric_to_pixel", u[0], u[1], cpar)
    for k in range(2):
        B.ens_eq("xy"[k], r[k], want[k], 1e-6)


# ---------------------------------------------------------------- the candidates of one camera
@contract("C11", ["track.register_closest_neighbs"], conc=False, contracts=lambda B: {
    "track.candsearch_in_pix": B.spec("track.candsearch_in_pix", lambda T, n, cx, cy, dl, dr, du, dd, cpar: _found(B, T, n, cx, cy, dl, dr, du, dd, cpar))})
def found_targets_are_registered_and_nothing_else(B):
    B.n = B.int("n", 0, None)
    B.T = _targets(B, B.n)
    w, B.cpar = _window(B)
    B.w = w
    cam = B.choice("cam", [0, 1, 2, 3])
    reg = B.np.array([(-1, 0, [0] * 4)] * 4, dtype=B.mod("track").Foundpix_dtype).view(B.np.recarray)
    B.call("track.register_closest_neighbs", B.T, B.n, cam, B.cx, B.cy, *w, reg, B.cpar)
    for i in range(4):
        empty = B.cand[i] == -1
        B.ens(f"slot {i}: the particle of the target found, or the no-target marker",
              reg[i].ftnr == B.ite(empty, -1, B.total(lambda: B.T[B.cand[i]].tnr)))
        B.ens(f"slot {i}: this camera's vote", reg[i].whichcam[cam] == B.ite(empty, 0, 1))
        B.ens(f"slot {i}: no other camera's", B.all_([reg[i].whichcam[c] == 0 for c in range(4) if c != cam]))
        B.ens(f"slot {i}: not counted yet", reg[i].freq == 0)


def _found(B, T, n, cx, cy, dl, dr, du, dd, cpar):
    B.ens("the list of the camera", T is B.T)
    B.ens("all of it", n == B.n)
    B.ens("around the centre given", B.all_([cx == B.cx, cy == B.cy]))
    B.ens("within the window given", B.all_([a == b for a, b in zip((dl, dr, du, dd), B.w)]))
    B.ens("in the image", cpar is B.cpar)
    B.cand = c = [B.int(f"cand{i}", -1, None) for i in range(4)]
    for x in c:
        B.req(x < B.n)
    return B.vlist(list(c))


@contract("C11", ["track.sorted_candidates_in_volume", "track.register_closest_neighbs", "track.searchquader"], sym=False, cases=120)
def candidates_in_the_volume_run(B):
    """Particles offered as successors, on real cameras: exactly those with targets in the windows of enough cameras."""
    K, P, F, R = B.mod("calibration"), B.mod("parameters"), B.mod("tracking_frame_buf"), B.mod("track")
    np = B.np
    nc = B.choice("num_cams", [1, 2, 3, 4])
    mm = P.MultimediaPar(nlay=1, n1=1.0, n2=[1.0], d=[1.0], n3=1.0)
    cpar = P.ControlPar(num_cams=nc, imx=1280, imy=1024, pix_x=0.012, pix_y=0.0115, mm=mm)
    cals = []
    for c in range(nc):
        k = K.Calibration()
        k.set_pos(np.array([(-1) ** c * 60.0, (1 if c < 2 else -1) * 40.0, 400.0]))
        k.set_angles(np.array([-k.ext_par.y0 / 400.0, k.ext_par.x0 / 400.0, 0.0]))
        k.int_par.cc = 70.0
        k.glass_par = np.array([0.0, 0.0, 50.0])
        cals.append(k)
    n = B.choice("n", [0, 1, 2, 4, 8, 20])
    pts = np.array([[B.real(f"p{i}{d}", s=(-4, 4)) for d in range(3)] for i in range(n)]).reshape(n, 3)
    frm = F.Frame(nc, n + 3)
    for c in range(nc):
        ts = []
        for i in range(n):
            if B.real(f"miss{i}{c}", s=(0, 1)) > 0.8:
                continue
            x, y = R.point_to_pixel(pts[i], cals[c], cpar)
            ts.append(F.Target(x=x, y=y, tnr=i if B.real(f"un{i}{c}", s=(0, 1)) < 0.9 else -1))
        ts.sort(key=lambda t: t.y)
        frm.targets[c], frm.num_targets[c] = ts, len(ts)
    tp = P.TrackPar(dvxmin=-1.5, dvxmax=2.0, dvymin=-1.0, dvymax=1.5, dvzmin=-2.0, dvzmax=2.5)
    run = type("Run", (), dict(tpar=tp, cpar=cpar, cal=cals))()
    ctr = np.array([B.real(f"c{d}", s=(-4, 4)) for d in range(3)])
    proj = np.array([R.point_to_pixel(ctr, k, cpar) for k in cals])
    w = B.call("track.sorted_candidates_in_volume", ctr, proj, frm, run)
    got = {int(x.ftnr): int(x.freq) for x in w if x.ftnr != -1}
    xr, xl, yd, yu = R.searchquader(ctr, tp, cpar, cals)
    votes, tie = {}, False
    for c in range(nc):
        cor = [R.point_to_pixel(ctr + np.array([(tp.dvxmin, tp.dvxmax)[i & 1], (tp.dvymin, tp.dvymax)[i >> 1 & 1],
                                                (tp.dvzmin, tp.dvzmax)[i >> 2 & 1]]), cals[c], cpar) for i in range(8)]
        x0, x1 = min(q[0] for q in cor), max(q[0] for q in cor)
        y0, y1 = min(q[1] for q in cor), max(q[1] for q in cor)
        B.ens("window", abs(proj[c][0] - xl[c] - max(0, x0)) + abs(proj[c][0] + xr[c] - min(1280, x1)) < 1e-6 and
              abs(proj[c][1] - yu[c] - max(0, y0)) + abs(proj[c][1] + yd[c] - min(1024, y1)) < 1e-6)
        ins = sorted(((t.x - proj[c][0]) ** 2 + (t.y - proj[c][1]) ** 2, t.tnr) for t in frm.targets[c]
                     if t.tnr != -1 and x0 < t.x < x1 and y0 < t.y < y1)
        for _, t in ins[:4]:
            votes[t] = votes.get(t, 0) + 1
    B.ens("terminated by the marker", int(w[len(w) - 1].ftnr) == -1)
    B.ens("only particles with a target in a window", all(t in votes for t in got), f"{got} {votes}")
    B.ens("every particle seen by two cameras", all(t in got for t in votes if votes[t] > 1), f"{got} {votes}")


def _volume_contracts(B):
    np = B.np

    def quader(point, tpar, cpar, cal):
        B.ens("around the centre, of this run", point is B.center and tpar is B.run.tpar and cpar is B.run.cpar and cal is B.run.cal)
        return tuple(np.array(B.win[d], dtype=np.float64) for d in range(4))        # right, left, down, up

    def register(targets, num_targets, cam, cent_x, cent_y, dl, dr, du, dd, reg, cpar):
        B.ens("this camera's targets, all of them", B.all_([targets is B.frm.targets[cam], num_targets == B.frm.num_targets[cam]]))
        B.ens("around its own centre", B.all_([cent_x == B.proj[cam, 0], cent_y == B.proj[cam, 1]]))
        B.ens("in its own window", B.all_([dl == B.win[1][cam], dr == B.win[0][cam], du == B.win[3][cam], dd == B.win[2][cam]]))
        B.ens("of this run", cpar is B.run.cpar)
        B.done.append(cam)
        for i in range(4):
            B.ens("an empty slot", B.all_([reg[i].ftnr == -1, reg[i].freq == 0] + [reg[i].whichcam[c] == 0 for c in range(B.nc)]))
            reg[i].ftnr = B.found[cam][i]
            reg[i].whichcam[cam] = 1

    def rank(foundpix, num_cams):
        B.ens("all cameras", num_cams == B.nc and B.done == list(range(B.nc)))
        for c in range(B.nc):
            for i in range(4):
                e = foundpix[4 * c + i]
                B.ens(f"what camera {c} found is in its slots", B.all_([e.ftnr == B.found[c][i]] + [e.whichcam[b] == (1 if b == c else 0) for b in range(B.nc)]))
        # (proved in C13: the ranked candidates first, then empty entries)
        k = B.choice("candidates", [0, 1, 2, 4] if B.nc > 1 else [0, 1])
        for i in range(4 * B.nc):
            foundpix[i].ftnr, foundpix[i].freq = (B.rank[i], B.freq[i]) if i < k else (-1, 0)
        B.k = k
        return k
    return {"track." + n: B.spec("track." + n, f) for n, f in (("searchquader", quader), ("register_closest_neighbs", register),
                                                              ("sort_candidates_by_freq", rank))}


@contract("C11", ["track.sorted_candidates_in_volume", "track.reset_foundpix_array"], contracts=_volume_contracts, conc=False,
          note="1 to 4 cameras")
def every_camera_is_searched_in_its_own_window(B):
    np, P, F = B.np, B.mod("parameters"), B.mod("tracking_frame_buf")
    B.nc = nc = B.choice("cams", [1, 2, 3, 4])
    B.done = []
    B.center = B.vec("center", 3)
    B.proj = np.array([[B.real(f"c{c}{k}") for k in range(2)] for c in range(nc)])
    B.win = [[B.real(f"w{d}{c}") for c in range(nc)] for d in range(4)]
    B.found = [[B.int(f"f{c}{i}") for i in range(4)] for c in range(nc)]
    B.rank, B.freq = [[B.int(f"{n}{i}") for i in range(4 * nc)] for n in ("rank", "freq")]
    B.frm = F.Frame(nc, 1)
    B.frm.num_targets = [B.int(f"m{c}", 0, None) for c in range(nc)]
    B.run = type("Run", (), dict(tpar=P.convert_track_par_to_tuple(P.TrackPar()), cpar=P.ControlPar(num_cams=nc), cal=[B.mod("calibration").Calibration() for _ in range(nc)]))()
    w = B.call("track.sorted_candidates_in_volume", B.center, B.proj, B.frm, B.run)
    B.ens("the candidates and a marker", len(w) == B.k + 1)
    for i in range(B.k):
        B.ens(f"candidate {i}", B.all_([w[i].ftnr == B.rank[i], w[i].freq == B.freq[i]]))
    B.ens("the marker", w[B.k].ftnr == -1)
