"""C16 -- detection reports only real, bounded, disjoint bright blobs."""
from pyvc.api import contract

S = "segmentation."
F = S + "fast_targ_rec"
ROW = ("vec", 8, "f", "list")
X, Y, TNR, PNR, N, NX, NY, SUMG = range(8)


class Par:
    """The limits, the window and the image, as one detection sees them."""

    def __init__(self, B):
        self.thres, self.disco = B.int("thres", 0, None), B.int("disco", 0, None)
        for a in ("nnmin", "nnmax", "nxmin", "nxmax", "nymin", "nymax", "sumg_min"):
            setattr(self, a, B.int(a))
        self.img = B.image("img", lo=0, hi=65535)
        self.h, self.w = self.img.shape
        self.xmin, self.ymin, self.xmax, self.ymax = B.int("xmin"), B.int("ymin"), B.int("xmax"), B.int("ymax")

    def inner(self, B):
        return B.all_([self.xmin >= 1, self.ymin >= 1, self.xmax <= self.w - 1, self.ymax <= self.h - 1])

    def args(self):
        return (self.img, self.thres, self.disco, self.nnmin, self.nnmax, self.nxmin, self.nxmax, self.nymin, self.nymax,
                self.sumg_min, self.xmin, self.xmax, self.ymin, self.ymax)

    def window(self, B, x, y):
        return B.all_([x >= self.xmin, x < self.xmax, y >= self.ymin, y < self.ymax])


def _removed(B, P, before, now):
    """Pixels only ever become 0, only in the window, and only ones brighter than the threshold."""
    a, b = before.copy(), now.copy()
    return B.tuples(2, lambda y, x: (b[y, x], B.any_([b[y, x] == a[y, x], B.all_(
        [b[y, x] == 0, a[y, x] > P.thres, P.window(B, x, y)])])))


def _within(B, P, r):
    return B.all_([r[N] >= P.nnmin, r[N] <= P.nnmax, r[NX] >= P.nxmin, r[NX] <= P.nxmax, r[NY] >= P.nymin, r[NY] <= P.nymax,
                   r[SUMG] + r[N] * P.thres > P.sumg_min, r[N] >= 1, r[SUMG] >= r[N],
                   r[X] >= P.xmin + 0.5, r[X] <= P.xmax - 0.5, r[Y] >= P.ymin + 0.5, r[Y] <= P.ymax - 0.5])


def _blob(B, P, v, a0):
    """What the growth has collected: sums over the pixels it removed, and their extent."""
    a = v.img0
    T = B.T
    s = v.sumg - v.numpix * P.thres
    d = lambda n: T(n, a0) - T(n, a)
    lit = a.copy()
    gone = lambda y, x: lit[y, x] != a0[y, x]
    return [("pixels counted", v.numpix == d("n")), ("their brightness", v.sumg == d("g")),
            ("their weighted columns", v.x == d("x")), ("their weighted rows", v.y == d("y")),
            ("at least one, all brighter than the threshold", B.all_([v.numpix >= 1, s >= v.numpix])),
            ("only pixels of the window removed", _removed(B, P, a0, a)),
            ("extent inside the window", B.all_([v.xa >= P.xmin, v.xb < P.xmax, v.ya >= P.ymin, v.yb < P.ymax, v.xa <= v.xb, v.ya <= v.yb])),
            ("every removed pixel is in the extent", B.tuples(2, lambda y, x: (lit[y, x], B.any_([lit[y, x] == a0[y, x], B.all_(
                [x >= v.xa, x <= v.xb, y >= v.ya, y <= v.yb])])))),
            ("the extent is no larger than the blob", B.all_([
                B.exists(P.ymin, P.ymax, lambda q: gone(q, v.xa)), B.exists(P.ymin, P.ymax, lambda q: gone(q, v.xb)),
                B.exists(P.xmin, P.xmax, lambda q: gone(v.ya, q)), B.exists(P.xmin, P.xmax, lambda q: gone(v.yb, q))])),
            ("mean column in the extent", B.all_([v.x >= v.xa * s, v.x <= v.xb * s])),
            ("mean row in the extent", B.all_([v.y >= v.ya * s, v.y <= v.yb * s]))]


def _waiting(B, P, wl, n):
    return B.forall(0, n, lambda m: P.window(B, wl[m][0], wl[m][1]))


def _loops(B):
    st = {}

    def always(v):
        pix = v.pix
        return [("a pixel is as in the image, or was taken", _removed(B, B.P, B.P.img, v.img0)),
                ("targets numbered", B.all_([v.n_targets == B.length(pix), B.length(v.waitlist) >= 1])),
                ("every target keeps to the limits and the window", B.forall(0, B.length(pix), lambda k: B.all_(
                    [_within(B, B.P, pix[k]), pix[k][PNR] == k, pix[k][TNR] == -1])))]

    def rows(v, k):
        return B.total(lambda: always(v))

    def cols(v, k):
        st["calls"] = st.get("calls", 0) + 1
        out = B.total(lambda: always(v))
        if st["calls"] == 2:
            st["img0"], st["pix"] = v.img0.copy(), v.pix.copy()
        if st["calls"] == 3:
            out += B.total(lambda: _new(B, B.P, st["img0"], st["pix"], v))
        return out

    def grow(v, k):
        return B.total(lambda: [("waiting pixels are in the window", B.all_([
            v.n_wait >= 0, B.length(v.waitlist) >= 1, v.n_wait <= B.length(v.waitlist), _waiting(B, B.P, v.waitlist, v.n_wait)]))] + _blob(B, B.P, v, st["img0"]))

    def left(v):
        B.req(B.T("n", v.img0) >= 0)        # (a number of pixels)
        return 2 * B.T("n", v.img0) + v.n_wait

    def sides(v, k):
        st["sides"] = st.get("sides", 0) + 1
        if st["sides"] == 1:
            st["left"] = left(v)
        return B.total(lambda: [("waiting pixels are in the window", B.all_([
            v.n_wait >= 1, v.n_wait <= B.length(v.waitlist), _waiting(B, B.P, v.waitlist, v.n_wait)])),
            ("each pixel waits once", left(v) <= st["left"])] + _blob(B, B.P, v, st["img0"]))

    def shift(v, k):
        st["shift"] = st.get("shift", 0) + 1
        if st["shift"] == 1:
            st["wl"] = v.waitlist.copy()
        wl, w0 = v.waitlist, st["wl"]
        return B.total(lambda: [("moved up", B.all_([
            B.forall(0, k, lambda q: B.all_([wl[q][c] == w0[q + 1][c] for c in (0, 1)])),
            B.forall(k, B.length(wl), lambda q: B.all_([wl[q][c] == w0[q][c] for c in (0, 1)]))]))])
    tm = {"pix": ROW}
    return {F: {0: B.loop(rows, templates=tm), 1: B.loop(cols, templates=tm), 2: B.loop(grow, left, templates=tm),
                3: B.loop(sides, force=True), 4: B.loop(shift)}}


def _new(B, P, a0, p0, v):
    """One more pixel looked at: at most one more target, and it is the blob just removed."""
    pix, n0, a = v.pix, B.length(p0), v.img0
    n = B.length(pix)
    grew = n == n0 + 1
    r = pix[n0]
    d = lambda q: B.T(q, a0) - B.T(q, a)
    return [("no target changed", B.all_([B.any_([n == n0, grew]), B.forall(0, n0, lambda k: B.all_([pix[k][c] == p0[k][c] for c in range(8)]))])),
            ("only taken pixels go", _removed(B, P, a0, a)),
            ("a target's size and brightness are those of the pixels removed", B.implies(grew, B.all_([
                r[N] == d("n"), r[SUMG] == d("g") - d("n") * P.thres]))),
            ("its centre is their weighted mean", B.implies(grew, B.all_([
                (r[X] - 0.5) * r[SUMG] == d("x"), (r[Y] - 0.5) * r[SUMG] == d("y")])))]


@contract("C16", [F], loops=_loops, conc=False, opts={"total_s": 600.0, "feas_ms": 40, "merge": True})
def detection_takes_bright_pixels_once(B):
    B.P = P = Par(B)
    B.req(P.inner(B))
    B.T = B.pixel_sums(P.thres, {"n": lambda i, j, v: 1, "g": lambda i, j, v: v,
                                 "x": lambda i, j, v: j * (v - P.thres), "y": lambda i, j, v: i * (v - P.thres)})
    i0 = P.img.copy()
    r = B.call(F, *P.args())
    B.ens("the image is not changed", B.tuples(2, lambda y, x: (i0[y, x], P.img[y, x] == i0[y, x])))
    B.ens("the limits", B.forall(0, B.length(r), lambda k: _within(B, P, r[k])))


# ---------------------------------------------------------------- the callers
def _pars(B, P):
    Q = B.mod("parameters")
    t, c = Q.TargetPar(), Q.ControlPar()
    cam = B.choice("cam", [0, 1, 2, 3])
    t.gvthresh = [B.int(f"gv{k}", 0, None, s=(0, 200)) if k != cam else P.thres for k in range(4)]
    t.discont, t.sumg_min = P.disco, P.sumg_min
    for a in ("nnmin", "nnmax", "nxmin", "nxmax", "nymin", "nymax"):
        setattr(t, a, getattr(P, a))
    c.imx, c.imy = B.int("imx", 1, None), B.int("imy", 1, None)
    return t, c, cam


def _detected(B):
    """fast_targ_rec as its own contract describes it."""
    def f(img, thres, disco, nnmin, nnmax, nxmin, nxmax, nymin, nymax, sumg_min, xmin, xmax, ymin, ymax):
        P = B.P
        B.ens("the image", img is P.img)
        B.ens("the window stays one pixel inside the image", B.all_(
            [xmin >= 1, ymin >= 1, xmax <= P.w - 1, ymax <= P.h - 1]))
        B.ens("the window asked for", B.all_([xmin >= P.xmin, xmax <= P.xmax, ymin >= P.ymin, ymax <= P.ymax]))
        B.ens("the limits of the parameters", B.all_([a == b for a, b in (
            (thres, P.thres), (disco, P.disco), (nnmin, P.nnmin), (nnmax, P.nnmax), (nxmin, P.nxmin), (nxmax, P.nxmax),
            (nymin, P.nymin), (nymax, P.nymax), (sumg_min, P.sumg_min))]))
        r = B.seq("pix", ROW, "list")
        B.req(B.forall(0, B.length(r), lambda k: B.all_([_within(B, P, r[k]), r[k][PNR] == k, r[k][TNR] == -1])))
        B.pix = r.copy()
        return r
    return {F: B.spec(F, f)}


def _reported(B, r):
    p = B.pix
    B.ens("as many targets as detected", B.length(r) == B.length(p))
    B.ens("every target is one detected", B.total(lambda: B.forall(0, B.length(p), lambda k: B.all_(
        [r[k].x == p[k][X], r[k].y == p[k][Y], r[k].n == p[k][N], r[k].nx == p[k][NX], r[k].ny == p[k][NY], r[k].sumg == p[k][SUMG],
         r[k].pnr == k, r[k].tnr == -1]))))


@contract("C16", [S + "targ_rec"], contracts=_detected, conc=False)
def the_window_and_the_limits_reach_the_detection(B):
    B.P = P = Par(B)
    t, c, cam = _pars(B, P)
    _reported(B, B.call(S + "targ_rec", P.img, t, P.xmin, P.xmax, P.ymin, P.ymax, c, cam))


@contract("C16", [S + "target_recognition", S + "targ_rec"], contracts=_detected, conc=False)
def detection_in_a_part_or_all_of_an_image(B):
    B.P = P = Par(B)
    t, c, cam = _pars(B, P)
    kw = {}
    if B.bool("part_x"):
        kw["subrange_x"] = (P.xmin, P.xmax)
    else:
        P.xmin, P.xmax = 0, c.imx
    if B.bool("part_y"):
        kw["subrange_y"] = (P.ymin, P.ymax)
    else:
        P.ymin, P.ymax = 0, c.imy
    too_large = B.any_([P.h < P.ymax, P.w < P.xmax])
    if B.case(too_large):
        B.raises(ValueError, lambda: B.call(S + "target_recognition", P.img, t, cam, c, **kw))
        B.ens("refused", True)
        return
    _reported(B, B.call(S + "target_recognition", P.img, t, cam, c, **kw))


# ---------------------------------------------------------------- the real code
def _picture(B):
    """A few blobs, flat patches and noise; also at the borders."""
    import numba
    np = B.np
    B.nojit = bool(numba.config.DISABLE_JIT)        # (numpy's own small integers overflow there)
    h, w = B.int("h", 3, 14), B.int("w", 3, 14)
    top = B.choice("top", [3, 40, 255])
    a = np.zeros((h, w), dtype=np.int64 if B.nojit else np.uint8)
    for k in range(B.int("blobs", 0, 5)):
        y, x = B.int(f"y{k}", 0, h - 1), B.int(f"x{k}", 0, w - 1)
        ry, rx, v = B.int(f"ry{k}", 0, 3), B.int(f"rx{k}", 0, 3), B.int(f"v{k}", 1, top)
        hill = B.bool(f"hill{k}")
        for i in range(max(0, y - ry), min(h, y + ry + 1)):
            for j in range(max(0, x - rx), min(w, x + rx + 1)):
                a[i, j] = max(a[i, j], v // (1 + abs(i - y) + abs(j - x)) if hill else v)
    for k in range(B.choice("noise", [0, 0, 12, 60])):
        a[B.int(f"ny{k}", 0, h - 1), B.int(f"nx{k}", 0, w - 1)] = B.int(f"nv{k}", 0, top)
    return a


def _settings(B, a):
    Q = B.mod("parameters")
    cam = B.int("cam", 0, 3)
    th = B.int("thres", 0, max(1, int(a.max()) - 1))
    t = Q.TargetPar(gvthresh=[th if k == cam else B.int(f"gv{k}", 0, 255) for k in range(4)])
    t.discont = B.choice("disco", [0, 2, 30, 1000])
    t.nnmin, t.nnmax = B.int("nnmin", 0, 3), B.int("nnmax", 1, 40)
    t.nxmin, t.nxmax = B.int("nxmin", 0, 2), B.int("nxmax", 1, 9)
    t.nymin, t.nymax = B.int("nymin", 0, 2), B.int("nymax", 1, 9)
    t.sumg_min = B.choice("sumg_min", [0, 10, 200])
    if B.bool("wide"):
        t.discont, t.nnmin, t.nnmax, t.nxmin, t.nxmax, t.nymin, t.nymax, t.sumg_min = 10 ** 6, 1, 10 ** 6, 1, 10 ** 6, 1, 10 ** 6, 0
    return t, cam, th


def _parts(a, th, x0, x1, y0, y1):
    """The 4-connected groups of pixels brighter than th in the window."""
    todo = {(i, j) for i in range(y0, y1) for j in range(x0, x1) if a[i, j] > th}
    out = []
    while todo:
        g, wait = set(), [todo.pop()]
        while wait:
            i, j = wait.pop()
            g.add((i, j))
            for q in ((i - 1, j), (i + 1, j), (i, j - 1), (i, j + 1)):
                if q in todo:
                    todo.remove(q)
                    wait.append(q)
        out.append(g)
    return out


def _facts(a, g, th):
    ws = [(i, j, int(a[i, j])) for i, j in g]
    s = sum(v - th for _, _, v in ws)
    ys, xs = [i for i, _, _ in ws], [j for _, j, _ in ws]
    return (sum(j * (v - th) for _, j, v in ws) / s + 0.5, sum(i * (v - th) for i, _, v in ws) / s + 0.5,
            len(ws), max(xs) - min(xs) + 1, max(ys) - min(ys) + 1, s)


def _check(B, a, t, th, r, x0, x1, y0, y1):
    parts = _parts(a, th, x0, x1, y0, y1)
    of = {q: k for k, g in enumerate(parts) for q in g}
    taken = {}
    for p in r:
        B.ens("the limits", t.nnmin <= p.n <= t.nnmax and t.nxmin <= p.nx <= t.nxmax and t.nymin <= p.ny <= t.nymax
              and p.sumg + p.n * th > t.sumg_min)
        B.ens("in the window", x0 <= p.x < x1 and y0 <= p.y < y1)
        B.ens("a whole number of pixels brighter than the threshold", p.n >= 1 and p.sumg >= p.n and p.n <= p.nx * p.ny)
        # the group it is of: one that has its centre in its extent, and has room for it
        fit = [k for k, g in enumerate(parts) if len(g) >= p.n and sum(int(a[q]) - th for q in g) >= p.sumg - 1e-9
               and min(j for _, j in g) <= p.x <= max(j for _, j in g) + 1 and min(i for i, _ in g) <= p.y <= max(i for i, _ in g) + 1]
        B.ens("made of bright pixels of the window", bool(fit))
        if len(fit) == 1:
            taken.setdefault(fit[0], []).append(p)
    for k, ps in taken.items():
        B.ens("no pixel in two targets", sum(p.n for p in ps) <= len(parts[k])
              and sum(p.sumg for p in ps) <= sum(int(a[q]) - th for q in parts[k]))
    return parts


@contract("C16", [S + "target_recognition"], sym=False, cases=500)
def detection_run(B):
    np = B.np
    a = _picture(B)
    h, w = a.shape
    t, cam, th = _settings(B, a)
    c = B.mod("parameters").ControlPar()
    c.imx, c.imy = w + B.choice("more_x", [0, 0, 5]), h + B.choice("more_y", [0, 0, 5])
    x0, x1, y0, y1 = 0, c.imx, 0, c.imy
    kw = {}
    if c.imx > w or B.bool("part_x"):
        x0, x1 = kw["subrange_x"] = (B.int("from_x", -1, w - 1), B.int("to_x", 0, w))
    if c.imy > h or B.bool("part_y"):
        y0, y1 = kw["subrange_y"] = (B.int("from_y", -1, h - 1), B.int("to_y", 0, h))
    a0 = a.copy()
    # the image is part of a larger memory: what lies beyond it must not matter
    store = np.full((3 * h, w), B.choice("beyond", [0, 255]), dtype=a.dtype)
    store[h:2 * h] = a
    r = B.call(S + "target_recognition", store[h:2 * h], t, cam, c, **kw)
    B.ens("the image is not changed", (store[h:2 * h] == a0).all())
    x0, x1, y0, y1 = max(x0, 1), min(x1, w - 1), max(y0, 1), min(y1, h - 1)
    parts = _check(B, a, t, th, r, x0, x1, y0, y1)
    B.ens("numbered", [int(p.pnr) for p in r] == list(range(len(r))) and all(p.tnr == -1 for p in r))
    if t.discont < 10 ** 6 or th == 0:
        return
    # nothing is cut off by a discontinuity: a target is a whole group of pixels
    whole = [_facts(a, g, th) for g in parts]
    for p in r:
        B.ens("a target is a group of touching bright pixels, and its centre their weighted mean", any(
            all(abs(u - v) < 1e-6 * (1 + abs(v)) for u, v in zip((p.x, p.y, p.n, p.nx, p.ny, p.sumg), f)) for f in whole))


@contract("C16", [F], sym=False, cases=1, jit=False)
def a_blob_of_any_size_and_shape_run(B):
    """More pixels are waiting at a time than the list of waiting pixels has to begin with."""
    np = B.np
    G = B.mod("segmentation")
    n0, G.MAX_TARGETS = G.MAX_TARGETS, 3
    try:
        a = np.full((12, 15), 9, dtype=np.int64)
        r = B.call(F, a, 3, 100, 1, 10 ** 6, 1, 10 ** 6, 1, 10 ** 6, 0, 1, 14, 1, 11)
    finally:
        G.MAX_TARGETS = n0
    B.ens("one target", len(r) == 1 and r[0][N] == 13 * 10)


@contract("C16", [S + "peak_fit"], sym=False, cases=40, jit=False)
def peaks_run(B):
    np = B.np
    h, w = B.int("h", 6, 12), B.int("w", 6, 12)
    a = np.zeros((h, w), dtype=np.int64)
    y, x = B.int("y", 2, h - 4), B.int("x", 2, w - 4)
    a[y, x], a[y, x + 1] = 90, 60
    t = B.mod("parameters").TargetPar(gvthresh=[10] * 4, discont=100, nnmin=1, nnmax=50, nxmin=1, nxmax=20, nymin=1, nymax=20, sumg_min=0)
    c = B.mod("parameters").ControlPar()
    c.imx, c.imy = w, h
    a0 = a.copy()
    try:
        r = B.call(S + "peak_fit", a.ravel(), t, 1, w - 1, 1, h - 1, c, 0)
    except IndexError:
        r = None
    B.ens("peak_fit answers for an image with a peak", r is not None)
    if r is not None:
        B.ens("the image is not changed", (a == a0).all())
        B.ens("one target of two pixels", len(r) == 1 and r[0].n == 2 and r[0].nx == 2 and r[0].ny == 1)
