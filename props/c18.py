"""C18 -- each calibration point gets its own nearest detection."""
from pyvc.api import contract

NONE = -999
TARG = {"__cls__": "tracking_frame_buf.Target", "pnr": "i", "x": "f", "y": "f", "n": "i", "nx": "i", "ny": "i", "sumg": "i", "tnr": "i"}
KEYS = [k for k in TARG if k != "__cls__"]
BIG = 1e9


def _pix(B, n, nm="pix"):
    T = dict(TARG)
    T["__cls__"] = B.mod("tracking_frame_buf").Target
    s = (-5, 30)
    pix = B.seq(nm, T, "list", n=n, samp={"x": s, "y": s, "pnr": (0, 50), "n": (1, 50), "nx": (1, 9), "ny": (1, 9), "sumg": (1, 900), "tnr": (-1, 9)})
    B.req(B.forall(0, n, lambda j: B.all_([pix[j].x >= -BIG, pix[j].x <= BIG, pix[j].y >= -BIG, pix[j].y <= BIG])))
    return pix


def _inside(t, x, y, eps):
    return [x - eps < t.x, t.x < x + eps, y - eps < t.y, t.y < y + eps]


def _d2(t, x, y):
    return (x - t.x) * (x - t.x) + (y - t.y) * (y - t.y)


# ---------------------------------------------------------------- the nearest detection
def _nearest_loops(B):
    def inv(v, k):
        pix, x, y, eps = B.args

        def define(j):
            d = B.ufr("dist", j)
            B.req(B.all_([d >= 0, d * d == _d2(pix[j], x, y)]))
        if not B.conc:
            B.total(lambda: define(k))
        return B.total(lambda: [
            ("a detection of those seen, or none", B.any_([B.all_([v.pnr == NONE, v.dmin == 1e20]), B.all_([
                v.pnr >= 0, v.pnr < k, v.dmin == B.ufr("dist", v.pnr)] + _inside(pix[v.pnr], x, y, eps))])),
            ("the nearest of those seen", B.forall(0, k, lambda j: B.implies(
                B.all_(_inside(pix[j], x, y, eps)), v.dmin <= B.ufr("dist", j))))])
    return {"sortgrid.nearest_neighbour_pix": {0: B.loop(inv)}}


@contract("C18", ["sortgrid.nearest_neighbour_pix"], loops=_nearest_loops, cases=400)
def the_nearest_detection_in_the_window(B):
    n = B.int("n", 0, None, s=(0, 9))
    pix = _pix(B, n)
    x, y, eps = B.real("x", s=(-5, 30)), B.real("y", s=(-5, 30)), B.real("eps", s=(-1, 20))
    for a in (x, y, eps):
        B.req(B.all_([a >= -BIG, a <= BIG]))
    B.args = (pix, x, y, eps)
    p0 = pix.copy()
    r = B.call("sortgrid.nearest_neighbour_pix", pix, x, y, eps)
    none = r == NONE
    B.ens("a detection, or none", B.any_([none, B.all_([r >= 0, r < n])]))
    B.ens("inside the window", B.any_([none, B.all_(B.total(lambda: _inside(pix[r], x, y, eps)) if not B.conc or r >= 0 else [])]))
    if not B.conc:
        j = B.int("other")
        B.req(B.all_([j >= 0, j < n]))
        for i in (r, j):
            d = B.total(lambda: B.ufr("dist", i))
            B.req(B.all_([d >= 0, d * d == B.total(lambda: _d2(pix[i], x, y))]))
        B.ens("no nearer one in the window", B.total(lambda: B.implies(B.all_(_inside(pix[j], x, y, eps)), B.all_([
            B.not_(none), B.ufr("dist", r) <= B.ufr("dist", j)]))))
    else:
        for j in range(n):
            if all(_inside(pix[j], x, y, eps)):
                B.ens("no nearer one in the window", r >= 0 and _d2(pix[r], x, y) <= _d2(pix[j], x, y) * (1 + 1e-12), f"{r} {j}")
    B.ens_forall("detections as given", 0, n, lambda j: B.all_([getattr(pix[j], k) == getattr(p0[j], k) for k in KEYS]))


# ---------------------------------------------------------------- the whole grid
def _proj(B, p):
    return B.uf("px", *p), B.uf("py", *p)


def _grid_callees(B):
    def image(p, cal, mm):
        B.ens("the calibration's own camera and water", cal is B.cal and mm is B.cpar.mm)
        B.nw += 1
        B.point = [p[i] for i in range(3)], B.real(f"mx{B.nw}"), B.real(f"my{B.nw}")
        return B.point[1:]

    def pixel(x, y, cpar):
        B.ens("the pixels of the image coordinates", B.all_([cpar is B.cpar, x == B.point[1], y == B.point[2]]))
        return _proj(B, B.point[0])

    def nearest(pix, x, y, eps):
        px, py = B.total(lambda: _proj(B, [B.fix[B.at][d] for d in range(3)]))
        B.ens("among the detections, around the projection of this point", B.all_([pix is B.pix, x == px, y == py, eps == B.eps]))
        r = B.ufi("near", B.at)
        B.req(B.any_([r == NONE, B.all_([r >= 0, r < B.length(B.pix)])]))
        return r
    fs = {"imgcoord.img_coord": image, "trafo.metric_to_pixel": pixel, "sortgrid.nearest_neighbour_pix": nearest}
    out = {k: B.spec(k, f) for k, f in fs.items()}
    out["sortgrid.img_coord"], out["sortgrid.metric_to_pixel"] = out["imgcoord.img_coord"], out["trafo.metric_to_pixel"]
    return out


def _answer(B, t, i):
    """The entry of point i."""
    px, py = _proj(B, [B.fix[i][d] for d in range(3)])
    seen = B.all_([px > -B.eps, py > -B.eps, px < B.cpar.imx + B.eps, py < B.cpar.imy + B.eps])
    r = B.ufi("near", i)
    blank = {"pnr": NONE, "x": 0, "y": 0, "n": 0, "nx": 0, "ny": 0, "sumg": 0, "tnr": -1}
    has = B.all_([seen, r != NONE])
    return B.all_([getattr(t, k) == B.ite(has, i if k == "pnr" else getattr(B.pix0[r], k), blank[k]) for k in KEYS])


def _grid_loops(B):
    def inv(v, k):
        B.at = k
        out = v.sorted_pix
        return B.total(lambda: [("an entry each", B.length(out) == B.n),
                                ("points done", B.forall(0, k, lambda i: _answer(B, out[i], i))),
                                ("points to do", B.forall(k, B.n, lambda i: B.all_([out[i].pnr == NONE, out[i].x == 0, out[i].y == 0, out[i].n == 0,
                                    out[i].nx == 0, out[i].ny == 0, out[i].sumg == 0, out[i].tnr == -1]))),
                                ("detections as given", _same(B, B.pix, B.pix0))])
    return {"sortgrid.sortgrid": {0: B.loop(inv)}}


def _same(B, a, b):
    return B.forall(0, B.length(a), lambda j: B.all_([getattr(a[j], k) == getattr(b[j], k) for k in KEYS]))


@contract("C18", ["sortgrid.sortgrid"], contracts=_grid_callees, loops=_grid_loops, conc=False)
def every_point_gets_its_detection(B):
    P = B.mod("parameters")
    B.nw = 0
    B.n, m = B.int("nfix", 0, None), B.int("m", 0, None)
    B.pix = _pix(B, m)
    B.pix0 = B.pix.copy()
    B.fix = B.seq("fix", ("vec", 3, "f"), "ndarray", n=B.n)
    B.eps = B.real("eps")
    B.cpar = P.ControlPar(num_cams=1, imx=B.int("imx", 1, None), imy=B.int("imy", 1, None), pix_x=B.pos("px"), pix_y=B.pos("py"))
    B.cal = B.mod("calibration").Calibration()
    f0 = B.fix.copy()
    out = B.call("sortgrid.sortgrid", B.cal, B.cpar, B.n, B.fix, B.eps, B.pix)
    B.ens("as many entries as calibration points", B.length(out) == B.n)
    B.ens_forall("the detection nearest to its projection, under its number; unassigned if there is none", 0, B.n, lambda i: _answer(B, out[i], i))
    B.ens("the detections given are left as they were", _same(B, B.pix, B.pix0))
    B.ens_forall("points as given", 0, B.n, lambda i: B.all_([B.fix[i][d] == f0[i][d] for d in range(3)]))


# ---------------------------------------------------------------- on real cameras
@contract("C18", ["sortgrid.sortgrid", "orientation.match_detection_to_ref"], sym=False, cases=150)
def grid_run(B):
    K, P, F, np = B.mod("calibration"), B.mod("parameters"), B.mod("tracking_frame_buf"), B.np
    k = K.Calibration()
    k.set_pos(np.array([B.real(f"pos{d}", s=(-60, 60)) for d in range(2)] + [400.0]))
    k.set_angles(np.array([-k.ext_par.y0 / 400.0, k.ext_par.x0 / 400.0, B.real("kap", s=(-0.3, 0.3))]))
    k.int_par.cc, k.glass_par = 70.0, np.array([0.0, 0.0, 50.0])
    k.added_par[0] = B.real("k1", s=(-1e-5, 1e-5))
    mm = P.MultimediaPar(nlay=1, n1=1.0, n2=[1.3], d=[5.0], n3=1.33)
    cpar = P.ControlPar(num_cams=1, imx=1280, imy=1024, pix_x=0.012, pix_y=0.0115, chfield=B.choice("chfield", [0, 1, 2]), mm=mm)
    rnd = np.random.RandomState(B.int("seed", 0, 10 ** 6))
    n, eps = B.choice("n", [0, 1, 3, 8]), B.choice("eps", [0.0, 3, 12.5, 25, 60])
    far = B.choice("far", [15.0, 15.0, 50.0])
    fix = rnd.uniform(-far, far, (n, 3)) * [2, 2, 0.5]
    if n > 2:
        fix[1] = fix[0] + 0.3                       # two points near one detection
    pts = []
    for q in fix:
        x, y = B.mod("imgcoord").img_coord(q, k, mm)
        pts.append(B.mod("trafo").metric_to_pixel(x, y, cpar))
    pix = []
    for x, y in pts:
        for _ in range(rnd.randint(0, 3)):
            a, b = x + rnd.uniform(-30, 30), y + rnd.uniform(-30, 30)
            pix.append(F.Target(pnr=len(pix) + 100, x=a, y=b, n=rnd.randint(1, 50), nx=rnd.randint(1, 9), ny=rnd.randint(1, 9),
                                sumg=rnd.randint(1, 999), tnr=rnd.randint(-1, 5)))
    rnd.shuffle(pix)
    pix0, fix0 = B.snap(pix), fix.copy()
    if B.choice("through", [0, 1]):
        out = B.call("orientation.match_detection_to_ref", k, fix, pix, cpar, eps)
    else:
        out = B.call("sortgrid.sortgrid", k, cpar, n, fix, eps, pix)
    B.ens("as many entries as calibration points", len(out) == n, f"{len(out)} {n}")
    B.ens("the detections given are left as they were", pix == pix0)
    B.ens("points as given", (fix == fix0).all())
    for i, (x, y) in enumerate(pts):
        near = [t for t in pix0 if all(_inside(t, x, y, eps))]
        inside = -eps < x < 1280 + eps and -eps < y < 1024 + eps
        t = out[i]
        if not near or not inside:
            B.ens("no detection in range: unassigned", t.pnr == NONE, f"point {i}: {t}")
            continue
        B.ens("under its number", t.pnr == i, f"point {i}: {t}")
        d = min(_d2(u, x, y) for u in near)
        ok = [u for u in near if _d2(u, x, y) <= d * (1 + 1e-9)]
        B.ens("the nearest detection as measured", any(all(getattr(t, a) == getattr(u, a) for a in KEYS if a != "pnr") for u in ok),
              f"point {i} at {x:.2f} {y:.2f}: {t} of {near}")
