"""C21 -- detections become flat coordinates sorted along x without being mixed up."""
from pyvc.api import contract

M = "tracking_frame_buf."
TARG = dict(pnr="i", x="f", y="f", n="i", nx="i", ny="i", sumg="i", tnr="i")
PATH = dict(x=("vec", 3, "f"), prev_frame="i", next_frame="i", prio="i", finaldecis="f", inlist="i")


def _camera(B):
    P = B.mod("parameters")
    cpar = P.ControlPar(num_cams=1)
    cpar.imx, cpar.imy = B.int("imx", 1, None, s=(100, 2000)), B.int("imy", 1, None, s=(100, 2000))
    cpar.pix_x, cpar.pix_y = B.pos("pix_x", s=(0.001, 0.05)), B.pos("pix_y", s=(0.001, 0.05))
    cal = B.mod("calibration").Calibration()
    cal.int_par.xh, cal.int_par.yh, cal.int_par.cc = B.real("xh", s=(-1, 1)), B.real("yh", s=(-1, 1)), B.real("cc", s=(20, 90))
    cal.added_par[0] = B.real("k1", s=(-1e-4, 1e-4))
    return cpar, cal


# ---------------------------------------------------------------- coordinates of the detections
def _conversions(B):
    def metric(x, y, cpar):
        B.ens("the camera's sensor", cpar is B.cpar)
        return B.uf("mx", x, y), B.uf("my", x, y)

    def flat(x, y, cal, tol):
        B.ens("the camera's lens, the tolerance given", B.all_([cal is B.cal, tol == B.tol]))
        return B.uf("fx", x, y), B.uf("fy", x, y)
    return {M + "pixel_to_metric": B.spec("trafo.pixel_to_metric", metric), "trafo.pixel_to_metric": B.spec("trafo.pixel_to_metric", metric),
            M + "dist_to_flat": B.spec("trafo.dist_to_flat", flat), "trafo.dist_to_flat": B.spec("trafo.dist_to_flat", flat)}


def _flat(B, j):
    t = B.T0[j]
    a, b = B.uf("mx", t.x, t.y), B.uf("my", t.x, t.y)
    return B.uf("fx", a, b), B.uf("fy", a, b)


def _is(B, e, j):
    fx, fy = _flat(B, j)
    return B.all_([e.x == fx, e.y == fy, e.pnr == (j if B.reset else B.T0[j].pnr)])


def _match_loops(B):
    def inv(v, k):
        mc, T = v.matched_coords, v.targs
        out = [("converted so far", B.forall(0, k, lambda j: _is(B, mc[j], j))), ("room", B.length(mc) == B.n)]
        if B.reset:
            out += [("numbers", B.forall(0, B.n, lambda j: T[j].pnr == B.ite(j < k, j, B.T0[j].pnr))),
                    ("measurements", B.forall(0, B.n, lambda j: B.all_([getattr(T[j], a) == getattr(B.T0[j], a) for a in TARG if a != "pnr"])))]
        return out
    return {M + "match_coords": {0: B.loop(inv)}}


@contract("C21", [M + "match_coords"], contracts=_conversions, loops=_match_loops, conc=False, opts={"feas_ms": 40})
def coordinates_are_those_of_their_detections(B):
    F = B.mod("tracking_frame_buf")
    B.cpar, B.cal = _camera(B)
    B.n = n = B.int("n", 0, None)
    T = B.seq("T", dict(TARG, __cls__=F.Target), n=n)
    B.T0 = T.copy()
    B.tol, B.reset = B.pos("tol"), B.choice("reset_numbers", [False, True])
    mc = B.call(M + "match_coords", T, B.cpar, B.cal, B.tol, B.reset)
    B.ens("as many as detections", B.length(mc) == n)
    B.ens_forall("sorted along x", 0, n, lambda j: B.forall(0, j, lambda i: mc[i].x <= mc[j].x))
    frm, to = B.order()
    at = lambda f, i: f(i) if f is not None else None
    B.ens_forall("every entry is a detection's", 0, n, lambda j: B.exists(0, n, lambda i: _is(B, mc[j], i), at=at(frm, j)))
    B.ens_forall("every detection has an entry", 0, n, lambda i: B.exists(0, n, lambda j: _is(B, mc[j], i), at=at(to, i)))
    B.ens_forall("the detections keep their measurements", 0, n, lambda j: B.all_(
        [getattr(T[j], a) == getattr(B.T0[j], a) for a in TARG if a != "pnr"] + [T[j].pnr == (j if B.reset else B.T0[j].pnr)]))


@contract("C21", [M + "match_coords", M + "matched_coords_as_arrays", M + "get_by_pnrs"], sym=False, cases=120)
def coordinates_run(B):
    """From detections to arrays and back by number."""
    F, tr, np = B.mod("tracking_frame_buf"), B.mod("trafo"), B.np
    cpar, cal = _camera(B)
    n, reset = B.int("n", 0, 12), B.bool("reset")
    nums = np.random.RandomState(B.int("seed", 0, 10 ** 6)).permutation(40)[:n]
    T = [F.Target(pnr=int(nums[i]), x=B.real(f"x{i}", s=(0, 2000)), y=B.real(f"y{i}", s=(0, 2000)), n=i, nx=2, ny=3, sumg=4, tnr=-1) for i in range(n)]
    if n > 2 and B.bool("tie"):
        T[2].x = T[0].x
    T0 = B.snap(T)
    mc = B.call(M + "match_coords", T, cpar, cal, 1e-6, reset)
    want = {}
    for i, t in enumerate(T0):
        want[i if reset else t.pnr] = tr.dist_to_flat(*tr.pixel_to_metric(t.x, t.y, cpar), cal, 1e-6)
    B.ens("as many as detections", len(mc) == n)
    B.ens("every detection once", sorted(int(m.pnr) for m in mc) == sorted(want))
    for j in range(n):
        B.ens("its own coordinates", B.all_([B.eq(mc[j].x, want[int(mc[j].pnr)][0], 1e-9), B.eq(mc[j].y, want[int(mc[j].pnr)][1], 1e-9)]))
        B.ens("sorted along x", j == 0 or mc[j - 1].x <= mc[j].x)
    B.ens("the detections keep their measurements", all(getattr(a, k) == getattr(b, k) for a, b in zip(T, T0) for k in TARG if k != "pnr"))
    B.ens("numbers", [t.pnr for t in T] == (list(range(n)) if reset else [t.pnr for t in T0]))
    pos, pnr = B.call(M + "matched_coords_as_arrays", mc)
    B.ens("arrays", pos.shape == (n, 2) and all(pos[j, 0] == mc[j].x and pos[j, 1] == mc[j].y and pnr[j] == mc[j].pnr for j in range(n)))
    ask = [int(a) for a in np.random.RandomState(B.int("seed2", 0, 10 ** 6)).permutation(40)[:B.int("ask", 0, 20)]]
    got = B.call(M + "get_by_pnrs", mc, np.array(ask, dtype=int))
    B.ens("one row for each number asked", got.shape == (len(ask), 2))
    for i, a in enumerate(ask):
        w = want.get(a, (-1e10, -1e10))
        B.ens("row of the detection with this number, or unused", B.all_([B.eq(got[i, 0], w[0], 1e-9), B.eq(got[i, 1], w[1], 1e-9)]))


# ---------------------------------------------------------------- as arrays, and by number
def _array_loops(B):
    def inv(v, k):
        return [("room", B.all_([B.length(v.pos) == B.n, B.length(v.pnr) == B.n])),
                ("copied so far", B.forall(0, k, lambda j: B.all_([v.pos[j, 0] == B.mc[j].x, v.pos[j, 1] == B.mc[j].y, v.pnr[j] == B.mc[j].pnr])))]

    def search(v, k):
        # last(i, k): the entry before k that has the i-th number asked for, -1 if none has
        last = lambda i: B.ufi("last", i, k)
        B.req(B.forall(0, B.m, lambda i: B.ufi("last", i, k + 1) == B.ite(B.mc[k].pnr == B.ask[i], k, last(i))))
        return [("room", B.length(v.pos) == B.m), ("found so far", B.forall(0, B.m, lambda i: B.all_(
            [last(i) >= -1, last(i) < k, B.implies(last(i) < 0, B.all_([v.pos[i, 0] == -1e10, v.pos[i, 1] == -1e10])),
             B.implies(last(i) >= 0, B.all_([v.pos[i, d] == getattr(B.mc[last(i)], "xy"[d]) for d in range(2)] + [B.mc[last(i)].pnr == B.ask[i]]))]))),
            ("none missed", B.forall(0, k, lambda j: B.forall(0, B.m, lambda i: B.implies(B.mc[j].pnr == B.ask[i], last(i) >= j))))]
    return {M + "matched_coords_as_arrays": {0: B.loop(inv)}, M + "get_by_pnrs": {0: B.loop(search)}}


def _entries(B):
    B.n = B.int("n", 0, None)
    mc = B.seq("mc", None, "recarray", n=B.n, dtype=B.mod("epi").Coord2d_dtype)
    B.mc = mc.copy()
    return mc


@contract("C21", [M + "matched_coords_as_arrays"], loops=_array_loops, conc=False, opts={"feas_ms": 40})
def arrays_have_every_entry_in_its_row(B):
    mc = _entries(B)
    pos, pnr = B.call(M + "matched_coords_as_arrays", mc)
    B.ens("as many rows", B.all_([B.length(pos) == B.n, B.length(pnr) == B.n]))
    B.ens_forall("row by row", 0, B.n, lambda j: B.all_([pos[j, 0] == B.mc[j].x, pos[j, 1] == B.mc[j].y, pnr[j] == B.mc[j].pnr]))


@contract("C21", [M + "get_by_pnrs"], loops=_array_loops, conc=False, opts={"feas_ms": 40})
def coordinates_by_number(B):
    mc = _entries(B)
    B.m = m = B.int("m", 0, None)
    ask = B.seq("ask", "i", "ndarray", n=m)
    B.ask = ask.copy()
    B.req(B.forall(0, m, lambda i: B.forall(0, m, lambda j: B.implies(ask[i] == ask[j], i == j))), "numbers asked for once")
    B.req(B.forall(0, B.n, lambda i: B.forall(0, B.n, lambda j: B.implies(mc[i].pnr == mc[j].pnr, i == j))), "detections have different numbers")
    B.req(B.forall(0, m, lambda i: B.ufi("last", i, 0) == -1))
    pos = B.call(M + "get_by_pnrs", mc, ask)
    B.ens("one row for each number asked", B.length(pos) == m)
    B.ens_forall("the coordinates of the detection with this number", 0, m, lambda i: B.forall(0, B.n, lambda j: B.implies(
        B.mc[j].pnr == B.ask[i], B.all_([pos[i, 0] == B.mc[j].x, pos[i, 1] == B.mc[j].y]))))
    B.ens_forall("unused if there is none", 0, m, lambda i: B.implies(
        B.forall(0, B.n, lambda j: B.mc[j].pnr != B.ask[i]), B.all_([pos[i, 0] == -1e10, pos[i, 1] == -1e10])))


@contract("C21", ["epi.sort_coord2d_x", "epi.sort_coord2d_y"], cases=60)
def sorting_keeps_every_entry(B):
    n = B.int("n", 0, None, s=(0, 8))
    c = B.seq("c", None, "recarray", n=n, dtype=B.mod("epi").Coord2d_dtype)
    c0 = c.copy()
    for ax in "xy":
        r = B.call("epi.sort_coord2d_" + ax, c)
        frm, to = B.order()
        at = lambda f, i: f(i) if f is not None else None
        same = lambda a, b: B.all_([a.pnr == b.pnr, a.x == b.x, a.y == b.y])
        B.ens("as many", B.length(r) == n)
        B.ens_forall(f"sorted along {ax}", 0, n, lambda j: B.forall(0, j, lambda i: getattr(r[i], ax) <= getattr(r[j], ax)))
        B.ens_forall(f"{ax}: every entry from the list", 0, n, lambda j: B.exists(0, n, lambda i: same(r[j], c0[i]), at=at(frm, j)))
        B.ens_forall(f"{ax}: no entry lost", 0, n, lambda i: B.exists(0, n, lambda j: same(r[j], c0[i]), at=at(to, i)))
    B.ens_forall("the list given is left as it was", 0, n, lambda j: same(c[j], c0[j]))


# ---------------------------------------------------------------- positions of a frame
def _pos_loops(B):
    return {M + "Frame.positions": {0: B.loop(lambda v, k: [("room", B.length(v.pos3d) == B.n), ("copied so far", B.forall(
        0, k, lambda j: B.all_([v.pos3d[j, d] == B.P0[j].x[d] for d in range(3)])))])}}


@contract("C21", [M + "Frame.positions"], loops=_pos_loops, conc=False, opts={"feas_ms": 40})
def positions_of_a_frame(B):
    F = B.mod("tracking_frame_buf")
    f = F.Frame(1, 1)
    n, L = B.int("n", 0, None), B.int("L", 0, None)
    B.req(n <= L)
    B.n = f.num_parts = n
    f.path_info = B.seq("P", dict(PATH, __cls__=F.Pathinfo), n=L)
    B.P0 = f.path_info.copy()
    pos = B.call(M + "Frame.positions", f)
    B.ens("one row for each particle", B.length(pos) == n)
    B.ens_forall("its position", 0, n, lambda j: B.all_([pos[j, d] == B.P0[j].x[d] for d in range(3)]))
    B.ens_forall("the particles are left as they were", 0, L, lambda j: B.all_([f.path_info[j].x[d] == B.P0[j].x[d] for d in range(3)]))


def _target_loops(B):
    def inv(v, k):
        return [("room", B.length(v.pos2d) == B.n), ("looked up so far", B.forall(0, k, lambda j: _seen(B, v.pos2d, j)))]
    return {M + "Frame.target_positions_for_camera": {0: B.loop(inv)}}


def _seen(B, pos, j):
    d = B.C0[j].p[B.cam]
    return B.all_([B.implies(d == -1, B.all_([pos[j, 0] == B.nan, pos[j, 1] == B.nan])),
                   B.implies(d != -1, B.all_([pos[j, 0] == B.D0[d].x, pos[j, 1] == B.D0[d].y]))])


@contract("C21", [M + "Frame.target_positions_for_camera"], loops=_target_loops, conc=False, opts={"feas_ms": 40})
def detections_of_the_particles_in_a_camera(B):
    F = B.mod("tracking_frame_buf")
    B.cam = cam = B.choice("cam", [0, 1, 2, 3])
    f = F.Frame(4, 1)
    n, L, m = B.int("n", 0, None), B.int("L", 0, None), B.int("m", 0, None)
    B.req(n <= L)
    B.n = f.num_parts = n
    f.correspond = B.seq("C", None, "recarray", n=L, dtype=F.Corres_dtype)
    f.targets[cam] = B.seq("D", dict(TARG, __cls__=F.Target), n=m)
    B.C0, B.D0 = f.correspond.copy(), f.targets[cam].copy()
    B.req(B.forall(0, n, lambda j: B.all_([B.C0[j].p[cam] >= -1, B.C0[j].p[cam] < m])), "the particles use detections there are")
    pos = B.call(M + "Frame.target_positions_for_camera", f, cam)
    B.ens("one row for each particle", B.length(pos) == n)
    B.ens_forall("the position of its detection, not a number if it has none", 0, n, lambda j: _seen(B, pos, j))


@contract("C21", [M + "Frame.positions", M + "Frame.target_positions_for_camera"], sym=False, cases=80)
def positions_run(B):
    F, np = B.mod("tracking_frame_buf"), B.np
    nc, n = B.choice("num_cams", [1, 2, 4]), B.int("n", 0, 6)
    f = F.Frame(nc, 8)
    f.num_parts = n
    for c in range(nc):
        for i in range(8):
            f.targets[c][i].x, f.targets[c][i].y = B.real(f"x{c}{i}"), B.real(f"y{c}{i}")
    for i in range(n):
        f.path_info[i].x = np.array(B.vec(f"p{i}", 3))
        f.correspond[i].p = [B.int(f"d{i}{c}", -1, 7) for c in range(4)]
    pos = B.call(M + "Frame.positions", f)
    B.ens("positions", pos.shape == (n, 3) and all((pos[i] == f.path_info[i].x).all() for i in range(n)))
    for c in range(nc):
        t = B.call(M + "Frame.target_positions_for_camera", f, c)
        B.ens("one row for each particle", t.shape == (n, 2))
        for i in range(n):
            d = int(f.correspond[i].p[c])
            if d == -1:
                B.ens("no detection: not a number", bool(np.isnan(t[i]).all()))
            else:
                B.ens("the detection's position", B.all_([t[i, 0] == f.targets[c][d].x, t[i, 1] == f.targets[c][d].y]))
