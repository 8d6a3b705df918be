"""C14 -- a particle added by the tracking: one more particle, everything else as it was."""
from pyvc.api import contract

PATH = dict(x=("vec", 3, "f"), prev_frame="i", next_frame="i", prio="i", finaldecis="f", inlist="i")
TARG = dict(pnr="i", x="f", y="f", n="i", nx="i", ny="i", sumg="i", tnr="i")


def _frame(B, nc, n, L, m, nm=""):
    """An arbitrary frame: n particles, room for L, m[c] targets in camera c."""
    F = B.mod("tracking_frame_buf")
    f = F.Frame(nc, 1)
    f.num_parts = n
    f.path_info = B.seq("P" + nm, dict(PATH, decis=B.row(80, "f"), linkdecis=B.row(80, "i"), __cls__=F.Pathinfo), n=L)
    f.correspond = B.seq("C" + nm, None, "recarray", n=L, dtype=F.Corres_dtype)
    for c in range(nc):
        f.targets[c] = B.seq(f"T{nm}{c}", dict(TARG, __cls__=F.Target), n=m[c])
        f.num_targets[c] = m[c]
    return f


def _same(B, a, b, keys):
    out = []
    for k in keys:
        x, y = getattr(a, k), getattr(b, k)
        out += [x[i] == y[i] for i in range({"x": 3, "p": 4}[k])] if k in ("p",) or (k == "x" and "decis" in keys) else [x == y]
    return B.all_(out)


@contract("C14", ["track.add_particle", "tracking_frame_buf.Pathinfo.reset_links"], conc=False, opts={"feas_ms": 40})
def one_particle_more_and_everything_else_as_it_was(B):
    nc = B.choice("num_cams", [1, 2, 3, 4])
    n, L = B.int("n", 0, None), B.int("L", 0, None)
    B.req(n <= L)
    m = [B.int(f"m{c}", 0, None) for c in range(nc)]
    f = _frame(B, nc, n, L, m)
    pos = B.vec("pos", 3)
    cand = [B.int(f"cand{c}", -1, None) for c in range(nc)]
    for c in range(nc):
        B.req(cand[c] < m[c])
    ci = B.np.array([[cand[c]] + [B.int(f"more{c}{k}") for k in range(3)] for c in range(nc)])
    P0, C0, T0 = f.path_info.copy(), f.correspond.copy(), [t.copy() for t in f.targets]
    lists = list(f.targets)
    paths = f.path_info
    B.call("track.add_particle", f, pos, ci)
    B.ens("one particle more", f.num_parts == n + 1)
    B.ens("the same list of particles", f.path_info is paths)
    size = B.ite(n < L, L, n + 1)
    B.ens("room for the particles", B.all_([B.length(f.path_info) == size, B.length(f.correspond) == size]))
    P, C = f.path_info, f.correspond
    B.ens_forall("every other particle", 0, L, lambda j: B.implies(j != n, B.all_(
        [P[j].x[d] == P0[j].x[d] for d in range(3)] + [getattr(P[j], k) == getattr(P0[j], k) for k in PATH if k != "x"])))
    for a in ("decis", "linkdecis"):
        B.ens_forall(f"every other particle's {a}", 0, L, lambda j: B.implies(j != n, B.forall(
            0, 80, lambda k: getattr(P[j], a)[k] == getattr(P0[j], a)[k])))
    B.ens_forall("every other correspondence record", 0, L, lambda j: B.implies(j != n, B.all_(
        [C[j].p[k] == C0[j].p[k] for k in range(4)] + [C[j].nr == C0[j].nr])))
    new, rec = B.total(lambda: P[n]), B.total(lambda: C[n])
    B.ens("at the position given", B.all_([new.x[d] == pos[d] for d in range(3)]))
    B.ens("unlinked", B.all_([new.prev_frame == -1, new.next_frame == -2]))
    B.ens("of the lowest priority", new.prio == 2)
    for c in range(4):
        B.ens(f"camera {c}: the target it uses", rec.p[c] == (cand[c] if c < nc else -1))
    for c in range(nc):
        T = f.targets[c]
        B.ens(f"camera {c}: the same list of targets", T is lists[c])
        B.ens(f"camera {c}: as many targets", B.all_([B.length(T) == m[c], f.num_targets[c] == m[c]]))
        B.ens_forall(f"camera {c}: exactly the targets used are marked", 0, m[c], lambda j: T[j].tnr == B.ite(
            j == cand[c], n, T0[c][j].tnr))
        B.ens_forall(f"camera {c}: measurements", 0, m[c], lambda j: B.all_([getattr(T[j], k) == getattr(T0[c][j], k)
                                                                            for k in TARG if k != "tnr"]))
    B.ens("candidates not altered", B.all_([ci[c, 0] == cand[c] for c in range(nc)]))


# ---------------------------------------------------------------- where the new particle could be
def _search(B):
    P = B.mod("parameters")

    def proj(p, cal, cpar):
        c = [k for k in range(len(B.cals)) if cal is B.cals[k]][0]
        B.ens("the position asked for", B.all_([p[d] == B.pos_[d] for d in range(3)]))
        B.ens("the parameters of the run", cpar is B.cpar)
        return B.np.array([B.px[c][0], B.px[c][1]])

    def search(T, n, cx, cy, dl, dr, du, dd, p, cpar):
        c = [k for k in range(len(B.cals)) if T is B.f.targets[k]][0]
        B.ens("all targets of the camera", n == B.f.num_targets[c])
        B.ens("around the image of the position", B.all_([cx == B.px[c][0], cy == B.px[c][1]]))
        B.ens("three pixels in every direction", B.all_([w == 3 for w in (dl, dr, du, dd)]))
        B.ens("starts from no candidate", B.all_([p[i] == -1 for i in range(4)]))
        q = B.best[c]
        t = B.total(lambda: T[q])
        # C11: an existing target, inside the image, not assigned
        B.req(B.implies(q >= 0, B.all_([q < n, t.x > 0, t.y > 0, t.tnr == -1])))
        p[0] = q
        return B.ite(q >= 0, 1, 0)
    return {"track.point_to_pixel": B.spec("track.point_to_pixel", proj),
            "track.candsearch_in_pix_rest": B.spec("track.candsearch_in_pix_rest", search),
            "trafo.pixel_to_metric": B.pure("trafo.pixel_to_metric", ["f", "f"]),
            "track.pixel_to_metric": B.pure("trafo.pixel_to_metric", ["f", "f"]),
            "trafo.dist_to_flat": B.pure("trafo.dist_to_flat", ["f", "f"]),
            "track.dist_to_flat": B.pure("trafo.dist_to_flat", ["f", "f"])}


@contract("C14", ["track.assess_new_position"], contracts=_search, conc=False, opts={"feas_ms": 40})
def candidates_are_the_nearest_unassigned_targets(B):
    P = B.mod("parameters")
    nc = B.choice("num_cams", [1, 2, 4])
    m = [B.int(f"m{c}", 0, None) for c in range(nc)]
    n = B.int("n", 0, None)
    B.f = f = _frame(B, nc, n, n, m)
    B.pos_ = pos = B.vec("pos", 3)
    B.px = [[B.real(f"px{c}"), B.real(f"py{c}")] for c in range(nc)]
    B.best = [B.int(f"best{c}", -1, None) for c in range(nc)]
    B.cals = [B.mod("calibration").Calibration() for _ in range(nc)]
    B.cpar = P.ControlPar(num_cams=nc)
    run = B.mod("tracking_run").TrackingRun.__new__(B.mod("tracking_run").TrackingRun)
    run.cpar, run.cal, run.flatten_tol = B.cpar, B.vlist(B.cals), B.real("tol")
    T0 = [t.copy() for t in f.targets]
    valid, tp, ci = B.call("track.assess_new_position", pos, f, run)
    B.ens("number of cameras with a candidate", valid == sum([B.ite(q >= 0, 1, 0) for q in B.best], 0))
    for c in range(nc):
        B.ens(f"camera {c}: the candidate", ci[c, 0] == B.best[c])
        B.ens(f"camera {c}: one candidate", B.all_([ci[c, k] == -1 for k in (1, 2, 3)]))
        if B.case(B.best[c] >= 0):
            t = B.total(lambda: f.targets[c][B.best[c]])
            a = B.call("trafo.pixel_to_metric", t.x, t.y, B.cpar)
            b = B.call("trafo.dist_to_flat", a[0], a[1], B.cals[c], run.flatten_tol)
            B.ens(f"camera {c}: the flat position of the candidate", B.all_([tp[c, k] == b[k] for k in range(2)]))
        else:
            B.ens(f"camera {c}: no position", B.all_([tp[c, k] == -1e10 for k in range(2)]))
        B.ens_forall(f"camera {c}: targets not altered", 0, m[c], lambda j: B.all_(
            [getattr(f.targets[c][j], k) == getattr(T0[c][j], k) for k in TARG]))


# ---------------------------------------------------------------- on real frames
@contract("C14", ["track.add_particle"], sym=False, cases=300)
def adding_run(B):
    F, np = B.mod("tracking_frame_buf"), B.np
    nc, n = B.choice("num_cams", [1, 2, 3, 4]), B.int("n", 0, 6)
    room = B.int("room", 0, 4)
    rnd = np.random.RandomState(B.int("seed", 0, 10 ** 6))
    f = F.Frame(nc, 1)
    L = n + room
    f.path_info = [F.Pathinfo(x=rnd.rand(3), prev_frame=int(rnd.randint(-1, 5)), next_frame=int(rnd.randint(-2, 5)),
                              prio=int(rnd.randint(0, 5)), finaldecis=rnd.rand(), inlist=int(rnd.randint(0, 3))) for _ in range(L)]
    for p in f.path_info:
        p.decis[:3], p.linkdecis[:3] = list(rnd.rand(3)), [int(x) for x in rnd.randint(0, 5, 3)]
    f.correspond = np.recarray(L, dtype=F.Corres_dtype)
    f.correspond.nr = np.arange(L) + 1
    f.correspond.p = rnd.randint(-1, 5, (L, 4))
    f.num_parts = n
    f.targets = [[F.Target(pnr=i, x=rnd.rand(), y=rnd.rand(), n=1, nx=2, ny=3, sumg=4, tnr=-1) for i in range(rnd.randint(0, 6))]
                 for _ in range(nc)]
    f.num_targets = [len(t) for t in f.targets]
    ci = np.array([[rnd.randint(-1, len(t)) if rnd.rand() < 0.8 else -1] + [-1] * 3 for t in f.targets])
    pos = rnd.rand(3)
    P0, C0, T0 = B.snap(f.path_info), f.correspond.copy(), B.snap(f.targets)
    want = pos.copy()
    B.call("track.add_particle", f, pos, ci)
    pos += 1.0
    B.ens("one particle more", f.num_parts == n + 1)
    B.ens("sizes", len(f.path_info) == len(f.correspond) == max(L, n + 1), f"{len(f.path_info)} {len(f.correspond)}")
    for j in range(L):
        if j != n:
            B.ens("other particles", f.path_info[j] == P0[j])
            B.ens("other records", f.correspond[j].nr == C0[j].nr and (f.correspond[j].p == C0[j].p).all())
    q = f.path_info[n]
    B.ens("the new one", (q.x == want).all() and q.prev_frame == -1 and q.next_frame == -2, f"{q}")
    B.ens("its targets", list(f.correspond[n].p) == [int(ci[c][0]) if c < nc else -1 for c in range(4)])
    for c in range(nc):
        for j, t in enumerate(T0[c]):
            t.tnr = n if j == ci[c][0] else t.tnr
        B.ens("targets", f.targets[c] == T0[c])
