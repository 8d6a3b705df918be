"""C10 -- every detection is used in at most one reported correspondence."""
from pyvc.api import contract
from .c09 import Marks, _pairs, _random_lists, _scratch_c

CAM = range(4)
TUPLE = {"p": ("vec", 4, "i"), "corr": "f"}


# ---------------------------------------------------------------- taking the best
def _marked(B, u, c, t, n):
    """Target t of camera c was marked before, or is used by one of the first n taken."""
    by = B.ufi(f"by{c}", t)
    return B.any_([u.rows[c][t] > 0, B.all_([by >= 0, by < n, B.dst[by].p[c] == t])])


def _free(B, rows, p):
    return B.all_([B.any_([p[c] < 0, B.all_([p[c] >= 0, rows[c][p[c]] <= 0])]) for c in range(B.nc)])


def _take_state(B, src, taken, k, rows):
    """What holds after k candidates of the sorted list."""
    pos, tk = (lambda t: B.ufi("pos", t)), (lambda j: B.ufi("tk", j))
    D = B.dst
    out = [("number", B.all_([taken >= 0, taken <= k])),
           ("taken in order of the sorted list", B.forall(0, taken, lambda t: B.all_(
               [pos(t) >= 0, pos(t) < k, D[t].corr == src[pos(t)].corr] + [D[t].p[c] == src[pos(t)].p[c] for c in CAM]))),
           ("one after the other", B.forall(0, taken, lambda t: B.forall(0, t, lambda s: pos(s) < pos(t)))),
           ("no detection twice", B.forall(0, taken, lambda t: B.forall(0, t, lambda s: B.all_(
               [B.any_([D[t].p[c] < 0, D[s].p[c] != D[t].p[c]]) for c in range(B.nc)])))),
           ("none that was used before", B.forall(0, taken, lambda t: B.all_(
               [B.any_([D[t].p[c] < 0, B.used0[c][D[t].p[c]] <= 0]) for c in range(B.nc)]))),
           ("passed over only for a detection used before or by a better one", B.forall(0, k, lambda j: B.any_(
               [B.all_([tk(j) >= 0, tk(j) < taken, pos(tk(j)) == j])] +
               [B.all_([src[j].p[c] >= 0, _blocked(B, c, src[j].p[c], taken, j)]) for c in range(B.nc)])))]
    for c in range(B.nc):
        out.append((f"marks of camera {c} are complete", B.all_([
            B.forall(0, taken, lambda t: B.any_([D[t].p[c] < 0, rows[c][D[t].p[c]] > 0])),
            B.forall(0, B.length(rows[c]), lambda x: B.implies(B.used0[c][x] > 0, rows[c][x] > 0))])))
        out.append((f"marks of camera {c} are right", B.forall(0, B.length(rows[c]), lambda x: B.all_([
            rows[c][x] >= 0, B.implies(rows[c][x] > 0, B.any_([B.used0[c][x] > 0, B.all_(
                [B.ufi(f"by{c}", x) >= 0, B.ufi(f"by{c}", x) < taken, D[B.ufi(f"by{c}", x)].p[c] == x])]))]))))
    return out


def _blocked(B, c, t, taken, j):
    by = B.ufi(f"by{c}", t)
    return B.any_([B.used0[c][t] > 0, B.all_([by >= 0, by < taken, B.dst[by].p[c] == t, B.ufi("pos", by) < j])])


def _take_loops(B):
    def inv(v, k):
        rows = B.tu.rows
        src = B.src

        def define():
            p = src[k].p
            free = B.all_([k >= 0, k < B.length(src), _free(B, rows, p)])
            B.req(B.implies(free, B.all_([B.ufi("pos", v.taken) == k, B.ufi("tk", k) == v.taken] + [
                B.implies(p[c] >= 0, B.ufi(f"by{c}", p[c]) == v.taken) for c in range(B.nc)])))
        B.total(define)
        return _take_state(B, src, v.taken, k, rows)
    return {"correspondences.take_best_candidates": {0: B.loop(inv)}}


def _best(B, nc):
    B.nc = nc
    B.src = src = B.seq("src", TUPLE, "recarray")
    B.dst = dst = B.seq("dst", TUPLE, "recarray")
    n = B.length(src)
    B.req(B.length(dst) >= n)
    rows = [B.seq(f"used{c}", "i", "ndarray") for c in range(nc)]
    for c in range(nc):
        B.req(B.forall(0, n, lambda i: src[i].p[c] < B.length(rows[c])))
        B.req(B.forall(0, B.length(rows[c]), lambda x: rows[c][x] >= 0))
    B.used0 = [r.copy() for r in rows]
    B.tu = Marks(rows)
    taken = B.call("correspondences.take_best_candidates", src, dst, nc, B.tu)
    B.ens("the list is sorted, best first", B.forall(0, n, lambda j: B.forall(0, j, lambda i: src[i].corr >= src[j].corr)))
    for nm, p in B.total(lambda: _take_state(B, src, taken, n, rows)):
        B.ens(nm, p)


BEST = dict(prop="C10", fns=["correspondences.take_best_candidates"], loops=_take_loops, conc=False,
            opts={"total_s": 400.0, "merge": True, "feas_ms": 40}, note="lists of any length; numpy's sort and flip are assumed to sort and flip")


@contract(**BEST)
def best_of_few_cameras_taken_greedily_and_without_sharing(B):
    _best(B, B.choice("num_cams", [1, 2]))


@contract(**BEST)
def best_of_three_cameras_taken_greedily_and_without_sharing(B):
    _best(B, 3)


@contract(**BEST)
def best_of_four_cameras_taken_greedily_and_without_sharing(B):
    _best(B, 4)


@contract("C10", ["correspondences.take_best_candidates"], sym=False, cases=250)
def taking_run(B):
    """The whole on the real arrays, against a plain greedy selection."""
    nc = B.choice("num_cams", [1, 2, 3, 4])
    n = B.int("n", 0, 12)
    src, dst = _scratch_c(B, n), _scratch_c(B, 20)
    use = B.np.zeros((nc, 10), dtype=B.np.int32)
    for c in range(nc):
        for t in range(6):
            use[c][t] = int(B.real(f"u{c}{t}", s=(0, 1)) > 0.85)
    rows = []
    for i in range(n):
        p = [B.int(f"p{i}{c}", -2 if B.bool(f"m{i}{c}") else 0, 5) for c in range(4)]
        p = [-2 if x < 0 else x for x in p]
        s = B.real(f"s{i}", s=(0, 100))
        src[i].p, src[i].corr = p, s
        rows.append((s, p))
    B.req(len({s for s, _ in rows}) == n)       # ties are broken either way
    u0 = use.copy()
    taken = B.call("correspondences.take_best_candidates", src, dst, nc, use)
    want, u = [], u0.copy()
    for s, p in sorted(rows, reverse=True):
        if all(p[c] < 0 or u[c][p[c]] == 0 for c in range(nc)):
            for c in range(nc):
                if p[c] >= 0:
                    u[c][p[c]] += 1
            want.append((s, p))
    B.ens("number", taken == len(want), f"{taken} {len(want)}")
    for t in range(taken):
        B.ens("taken", list(dst[t].p) == want[t][1] and dst[t].corr == want[t][0], f"{t}")
    B.ens("marks", bool(((use > 0) == (u > 0)).all()))


# ---------------------------------------------------------------- the whole list
def _corr_contracts(B):
    """The callees by what C09 and the contract above establish about them."""
    def match(lists, crd, frm, vpar, cpar, cals):
        B.ens("lists of this frame", crd is B.crd and frm is B.frm and vpar is B.vpar and cpar is B.cpar and cals is B.cals)
        B.lists = lists

    def groups(want):
        def f(lists, *a):
            a = list(a)
            used = a.pop() if want != 4 else None
            cnt, accept, scr, size = a[-4:]
            nc = 4 if want == 4 else a[0]
            B.ens(f"{want}-camera matching on these lists, cameras and counts", lists is B.lists and nc == B.nc)
            if want == 4:
                B.ens("first camera's targets", cnt == B.num[0])
            else:
                B.ens("targets of all cameras", cnt is B.num)
                B.ens("the marks", used is B.marks or B.marks is None)
                B.marks = used
            B.ens("acceptance threshold", accept == B.vpar.corrmin)
            B.ens("capacity", B.all_([size <= B.length(scr), size > 0]))
            n = B.int(f"matched{want}", 0, None)
            B.req(n <= size)
            scr.store.__vc_havoc__()
            B.req(B.forall(0, n, lambda t: B.all_([B.all_([scr[t].p[c] >= -2, scr[t].p[c] != -1, scr[t].p[c] < B.num[c]]) for c in range(B.nc)])))
            # the number of cameras taking part
            B.req(B.forall(0, n, lambda t: _members(B, scr[t]) == want))
            B.scr, B.matched, B.kind = scr, n, want
            return n
        return f

    def take(src, dst, nc, used):
        w = B.kind
        B.ens(f"{w}: best of the groups just found", B.all_([B.length(src) == B.matched, nc == B.nc]) if src.store is B.scr.store else False)
        B.ens("same marks", B.marks is None or used is B.marks)
        B.marks = used
        rows = [used[c] for c in range(B.nc)]
        old = [r.copy() for r in rows]
        src0 = src.copy()
        taken = B.int(f"taken{w}", 0, None)
        B.req(taken <= B.length(src))
        # every group uses up detections and there are at most num_cams * NMAX of them
        B.req(taken <= B.length(dst))
        B.havoc_part(dst, taken)
        for r in rows:
            r.store.__vc_havoc__()
        D, lo = B.whole(dst)
        hi = lo + taken
        frm = lambda t: B.ufi(f"from{w}", t)
        B.req(B.forall(lo, hi, lambda t: B.all_([frm(t) >= 0, frm(t) < B.length(src0), D[t].corr == src0[frm(t)].corr] + [
            D[t].p[c] == src0[frm(t)].p[c] for c in range(B.nc)])))
        B.req(B.forall(lo, hi, lambda t: B.forall(lo, t, lambda s: B.all_([D[s].corr >= D[t].corr] + [
            B.any_([D[t].p[c] < 0, D[s].p[c] != D[t].p[c]]) for c in range(B.nc)]))))
        for c in range(B.nc):
            B.req(B.forall(lo, hi, lambda t: B.any_([D[t].p[c] < 0, B.all_([old[c][D[t].p[c]] <= 0, rows[c][D[t].p[c]] > 0])])))
            B.req(B.forall(0, B.length(rows[c]), lambda x: B.implies(old[c][x] > 0, rows[c][x] > 0)))
        src.store.__vc_havoc__()
        B.called.append((w, taken))
        return taken
    S = "correspondences."
    return {S + "match_pairs": B.spec(S + "match_pairs", match),
            S + "four_camera_matching": B.spec(S + "four_camera_matching", groups(4)),
            S + "three_camera_matching": B.spec(S + "three_camera_matching", groups(3)),
            S + "consistent_pair_matching": B.spec(S + "consistent_pair_matching", groups(2)),
            S + "take_best_candidates": B.spec(S + "take_best_candidates", take)}


def _members(B, r):
    n = 0
    for c in range(B.nc):
        n = n + B.ite(r.p[c] >= 0, 1, 0)
    return n


def _named(B, con, total):
    """The groups as functions of their number, with what is known about them (lemmas)."""
    g = lambda c, i: B.ufi(f"g{c}", i)
    for c in range(B.nc):
        B.req(B.forall(0, total, lambda i: con[i].p[c] == g(c, i)))
        B.lemma(f"camera {c}: existing detections", B.forall(0, total, lambda i: g(c, i) < B.num[c]))
        B.lemma(f"camera {c}: no detection twice", B.forall(0, total, lambda i: B.forall(0, i, lambda j: B.any_(
            [g(c, i) < 0, g(c, i) != g(c, j)]))))
    B.g = g


def _mark_loops(B):
    def inv(v, k):
        if getattr(B, "g", None) is None:
            _named(B, v.con, v.match_counts[3])
        out = []
        for c in range(B.nc):
            pnr = lambda i: B.crd[c][B.g(c, i)].pnr
            T = B.tgt[c]
            B.req(B.total(lambda: B.implies(B.all_([k >= 0, k < v.match_counts[3]]), B.g(c, k) == v.con[k].p[c])))
            out.append((f"camera {c}: marked", B.forall(0, k, lambda i: B.implies(B.g(c, i) >= 0, T[pnr(i)].tnr == i))))
            out.append((f"camera {c}: nothing else", B.forall(0, B.length(T), lambda x: B.any_(
                [T[x].tnr == B.tnr0[c][x].tnr, B.all_([T[x].tnr >= 0, T[x].tnr < k, B.g(c, T[x].tnr) >= 0,
                                                        pnr(T[x].tnr) == x])]))))
        return out
    return {"correspondences.correspondences": {n: B.loop(inv) for n in range(2)}}


def _frame(B, nc):
    F = B.mod("tracking_frame_buf")
    N = B.mod("constants").NMAX
    tt = {f: "i" for f in ("pnr", "n", "nx", "ny", "sumg", "tnr")}
    tt.update(x="f", y="f", __cls__=F.Target)
    B.nc = nc
    B.num = [B.int(f"num{c}", 0, N) for c in range(nc)]
    B.crd = [B.seq(f"crd{c}", {"pnr": "i", "x": "f", "y": "f"}, "recarray", n=B.num[c]) for c in range(nc)]
    B.tgt = [B.seq(f"pix{c}", tt, n=B.num[c]) for c in range(nc)]
    for c in range(nc):
        crd = B.crd[c]
        B.req(B.forall(0, B.num[c], lambda i: B.all_([crd[i].pnr >= 0, crd[i].pnr < B.num[c]])))
        B.req(B.forall(0, B.num[c], lambda i: B.forall(0, i, lambda j: crd[i].pnr != crd[j].pnr)))
    B.tnr0 = [t.copy() for t in B.tgt]


def _correspondences(B, nc):
    P, F = B.mod("parameters"), B.mod("tracking_frame_buf")
    _frame(B, nc)
    B.frm = F.Frame(nc, 1)
    B.frm.targets, B.frm.num_targets = B.tgt, B.num
    B.vpar, B.cpar = P.VolumePar(), P.ControlPar(num_cams=nc)
    B.vpar.corrmin = B.real("corrmin")
    B.cpar.all_cam_flag = B.choice("all_cam_flag", [0, 1])
    B.cals = [B.mod("calibration").Calibration() for _ in range(nc)]
    B.marks, B.called = None, []
    mc = [0, 0, 0, 0]
    B.g = None
    con = B.call("correspondences.correspondences", B.frm, B.crd, B.vpar, B.cpar, B.cals, mc)
    flag = B.cpar.all_cam_flag
    want = [w for w in (4, 3, 2) if w <= nc and (w == 4 or not flag or (w == 3 and nc == 3))]
    B.ens("sizes searched, largest first", [w for w, _ in B.called] == want)
    n = dict(B.called)
    for q, w in ((0, 4), (1, 3), (2, 2)):
        B.ens(f"count of groups of {w}", mc[q] == n.get(w, 0))
    B.ens("the counts add up", mc[3] == mc[0] + mc[1] + mc[2])
    total = mc[3]
    lo = 0
    for q, w in ((0, 4), (1, 3), (2, 2)):
        a, b = lo, lo + mc[q]
        B.ens_forall(f"groups of {w} have {w} members", a, b, lambda i: _members(B, con[i]) == w)
        B.ens_forall(f"groups of {w} by descending score", a, b, lambda i: B.forall(a, i, lambda j: con[j].corr >= con[i].corr))
        lo = b
    B.ens_forall("no detection twice, absent cameras negative", 0, total, lambda i: B.forall(0, i, lambda j: B.all_(
        [B.any_([con[i].p[c] < 0, con[i].p[c] != con[j].p[c]]) for c in range(nc)])))
    if B.g is None:
        _named(B, con, total)
    for c in range(nc):
        T, g = B.tgt[c], B.g
        pnr = lambda i: B.crd[c][g(c, i)].pnr
        B.ens_forall(f"camera {c}: existing detections", 0, total, lambda i: con[i].p[c] < B.num[c])
        B.ens_forall(f"camera {c}: every used detection carries the number of its correspondence", 0, total,
                     lambda i: B.implies(g(c, i) >= 0, T[pnr(i)].tnr == i))
        B.ens_forall(f"camera {c}: the others keep theirs", 0, B.num[c], lambda x: B.any_(
            [T[x].tnr == B.tnr0[c][x].tnr, B.all_([T[x].tnr >= 0, T[x].tnr < total, g(c, T[x].tnr) >= 0,
                                                    pnr(T[x].tnr) == x])]))


@contract("C10", ["correspondences.correspondences", "correspondences.safely_allocate_adjacency_lists",
                  "correspondences.safely_allocate_target_usage_marks"],
          loops=_mark_loops, contracts=_corr_contracts, conc=False, opts={"total_s": 300.0, "feas_ms": 20})
def correspondences_of_few_cameras(B):
    _correspondences(B, B.choice("num_cams", [2, 3]))


@contract("C10", ["correspondences.correspondences", "correspondences.safely_allocate_adjacency_lists",
                  "correspondences.safely_allocate_target_usage_marks"],
          loops=_mark_loops, contracts=_corr_contracts, conc=False, opts={"total_s": 300.0, "feas_ms": 20})
def correspondences_of_four_cameras(B):
    _correspondences(B, 4)


# ---------------------------------------------------------------- what the caller gets
def _q(B, w):
    return lambda c, i: B.ufi(f"q{w}", c, i)


def _py_contracts(B):
    def corr(frm, flat, vpar, cpar, cals, mc):
        B.ens("the cameras and criteria given", flat is B.crd and vpar is B.vpar and cpar is B.cpar and cals is B.cals)
        B.ens("four counts, from zero", len(mc) == 4 and all(x == 0 for x in mc))
        for c in range(B.nc):
            B.ens("the detections given", frm.targets[c] is B.tgt[c])
            B.ens("all of them", frm.num_targets[c] == B.num[c])
        B.con = con = B.seq("con", TUPLE, "recarray")
        lo = 0
        for w in (4, 3, 2):
            k = B.int(f"groups{w}", 0, None)
            if w > B.nc:
                B.req(k == 0)
            mc[4 - w] = B.n[w] = k
            for c in range(B.nc):
                B.req(B.tuples(1, lambda i: (_q(B, w)(c, i), _q(B, w)(c, i) == con[lo + i].p[c])))
                B.req(B.forall(0, k, lambda i: _q(B, w)(c, i) < B.num[c]))
            lo = lo + k
        mc[3] = lo
        B.req(lo <= B.length(con))
        return con

    def init(self, nc, n=1):
        self.num_cams, self.max_targets, self.num_parts = nc, n, 0
        self.targets = B.vlist([None] * nc)
        self.num_targets = B.vlist([0] * nc)
    return {"correspondences.correspondences": B.spec("correspondences.correspondences", corr),
            "tracking_frame_buf.Frame.__init__": B.spec("tracking_frame_buf.Frame.__init__", init)}


def _done(B, w, pos, ids, c, i):
    e = _q(B, w)(c, i)
    none = B.mod("constants").PT_UNUSED
    p = B.crd[c][e].pnr
    return B.ite(e < 0, B.all_([ids[c, i] == B.mod("constants").CORRES_NONE, pos[c, i, 0] == none, pos[c, i, 1] == none]),
                 B.all_([ids[c, i] == p, pos[c, i, 0] == B.tgt[c][p].x, pos[c, i, 1] == B.tgt[c][p].y]))


def _blank(B, pos, ids, c, i):
    none = B.mod("constants").PT_UNUSED
    return B.all_([ids[c, i] == B.mod("constants").CORRES_NONE, pos[c, i, 0] == none, pos[c, i, 1] == none])


def _py_loops(B):
    def inv(v, k):
        out = []
        w = B.nc - v.clique_type
        lo = sum([B.n[x] for x in (4, 3) if x > w], 0)
        B.req(B.total(lambda: _q(B, w)(v.cam, k) == B.con[lo + k].p[v.cam]))     # (names the group at hand)
        pos, ids = v.clique_targs, v.clique_ids
        out += [(f"groups of {w}, camera {v.cam}", B.forall(0, k, lambda i: _done(B, w, pos, ids, v.cam, i))),
                (f"groups of {w}, camera {v.cam}: not yet", B.forall(k, B.n[w], lambda i: _blank(B, pos, ids, v.cam, i)))]
        return out
    return {"correspondences.py_correspondences": {n: B.loop(inv) for n in range(4)}}


PY = dict(prop="C10", fns=["correspondences.py_correspondences"], loops=_py_loops, contracts=_py_contracts, conc=False,
          opts={"total_s": 400.0, "feas_ms": 20})


@contract(**PY)
def positions_and_numbers_of_the_groups_of_two_cameras(B):
    _py(B, 2)


@contract(**PY)
def positions_and_numbers_of_the_groups_of_three_cameras(B):
    _py(B, 3)


@contract(**PY)
def positions_and_numbers_of_the_groups_of_four_cameras(B):
    _py(B, 4)


def _py(B, nc):
    P = B.mod("parameters")
    _frame(B, nc)
    B.n = {}
    B.vpar, B.cpar = P.VolumePar(), P.ControlPar(num_cams=nc)
    B.cals = [B.mod("calibration").Calibration() for _ in range(nc)]
    pos, ids, total = B.call("correspondences.py_correspondences", B.vlist(B.tgt), B.crd, B.cals, B.vpar, B.cpar)
    B.ens("one entry per size", len(pos) == nc - 1 and len(ids) == nc - 1)
    B.ens("total", total == B.n[4] + B.n[3] + B.n[2])
    for t in range(nc - 1):
        w = nc - t
        B.ens(f"number of groups of {w}", B.all_([pos[t].shape[1] == B.n[w], ids[t].shape[1] == B.n[w],
                                                  pos[t].shape[0] == nc, ids[t].shape[0] == nc]))
        for c in range(nc):
            B.ens_forall(f"groups of {w}, camera {c}", 0, B.n[w], lambda i: _done(B, w, pos[t], ids[t], c, i))


def _single_loops(B):
    def inv(v, k):
        T = B.tgt[0]
        return [("done", B.forall(0, k, lambda i: _single(B, v.clique_targs, v.clique_ids, i))),
                ("targets", B.forall(0, B.num[0], lambda x: B.all_([T[x].x == B.tnr0[0][x].x, T[x].y == B.tnr0[0][x].y])))]
    return {"correspondences.single_cam_correspondences": {0: B.loop(inv)}}


def _single(B, pos, ids, i):
    p = B.crd[0][i].pnr
    T = B.tgt[0]
    return B.all_([ids[0, i] == p, pos[0, i, 0] == T[p].x, pos[0, i, 1] == T[p].y, T[p].tnr == i])


@contract("C10", ["correspondences.single_cam_correspondences", "correspondences.py_correspondences"], loops=_single_loops,
          contracts=_py_contracts, conc=False)
def one_camera_reports_every_detection(B):
    P = B.mod("parameters")
    _frame(B, 1)
    pos, ids, total = B.call("correspondences.py_correspondences", B.vlist(B.tgt), B.crd, [], P.VolumePar(), P.ControlPar(num_cams=1))
    B.ens("total", total == B.num[0])
    B.ens("one entry", len(pos) == 1 and len(ids) == 1)
    B.ens_forall("every detection with its position and number", 0, total, lambda i: _single(B, pos[0], ids[0], i))


# ---------------------------------------------------------------- the real code, whole
def _scene(B, nc, n):
    """Cameras around a volume, n particles, their detections."""
    P, K, T = B.mod("parameters"), B.mod("calibration"), B.mod("tracking_frame_buf")
    np = B.np
    mm = P.MultimediaPar(nlay=1, n1=1.0, n2=[1.0], d=[1.0], n3=1.0)
    cpar = P.ControlPar(num_cams=nc, imx=1280, imy=1024, pix_x=0.012, pix_y=0.0115, mm=mm)
    vpar = P.VolumePar(x_lay=[-50.0, 50.0], z_min_lay=[-20.0, -20.0], z_max_lay=[20.0, 20.0], cnx=0.0, cny=0.0, cn=0.0,
                       csumg=0.0, corrmin=0.0, eps0=0.02)
    cals = []
    for c in range(nc):
        k = K.Calibration()
        k.set_pos(np.array([(-1) ** c * 90.0, (1 if c < 2 else -1) * 60.0, 400.0 + 10 * c]))
        k.set_angles(np.array([-k.ext_par.y0 / 400.0, k.ext_par.x0 / 400.0, 0.0]))
        k.int_par.cc = 70.0
        k.glass_par = np.array([0.0, 0.0, 50.0])
        cals.append(k)
    pts = [[B.real(f"P{i}{d}", s=(-r, r)) for d, r in enumerate((25, 20, 15))] for i in range(n)]
    pix, flat = [], []
    for c in range(nc):
        xy = []
        for i in range(n):
            if B.real(f"miss{i}{c}", s=(0, 1)) > 0.85:
                continue
            u = B.mod("imgcoord").img_coord(np.array(pts[i]), cals[c], mm)
            noise = B.real(f"noise{i}{c}", s=(-0.8, 0.8))
            px, py = B.mod("trafo").metric_to_pixel(u[0], u[1], cpar)
            xy.append((px, py + noise, 10 + i % 3))
        order = sorted(range(len(xy)), key=lambda t: B.real(f"ord{c}{t}", s=(0, 1)))
        ts = [T.Target(pnr=t, x=xy[o][0], y=xy[o][1], n=9, nx=3, ny=3, sumg=xy[o][2], tnr=-1) for t, o in enumerate(order)]
        f = np.recarray((len(ts),), dtype=B.mod("epi").Coord2d_dtype)
        for t, g in enumerate(ts):
            mx, my = B.mod("trafo").pixel_to_metric(g.x, g.y, cpar)
            f[t].pnr = t
            f[t].x, f[t].y = B.mod("trafo").dist_to_flat(mx, my, cals[c], 1e-5)
        f.sort(order="x")
        pix.append(ts)
        flat.append(f)
    return cpar, vpar, cals, pix, flat


@contract("C10", ["correspondences.py_correspondences", "correspondences.correspondences"], sym=False, cases=30)
def correspondences_run(B):
    """Everything on real detections, against plain matching and greedy selection over the same candidate lists."""
    C, F = B.mod("correspondences"), B.mod("tracking_frame_buf")
    nc = B.choice("num_cams", [2, 3, 4, 4])
    n = B.int("particles", 1, 9)
    cpar, vpar, cals, pix, flat = _scene(B, nc, n)
    cpar.all_cam_flag = B.choice("all_cam_flag", [0, 0, 1])
    vpar.corrmin = B.choice("corrmin", [0.0, 0.0, 1e4, 1e9])
    B.req(all(len(p) for p in pix))
    frm = F.Frame(nc, 10)
    frm.targets, frm.num_targets = pix, [len(p) for p in pix]
    L = C.safely_allocate_adjacency_lists(nc, frm.num_targets)
    C.match_pairs(L, flat, frm, vpar, cpar, cals)
    cnt = frm.num_targets
    lk = lambda a, b, i: [(int(L[a][b][i].p2[j]), float(L[a][b][i].corr[j]), float(L[a][b][i].dist[j])) for j in range(int(L[a][b][i].n))]
    used, want, ties = set(), [], []

    def greedy(groups):
        groups = sorted(groups, key=lambda g: -g[0])
        ties.extend(abs(a[0] - b[0]) <= 1e-9 * abs(a[0]) for a, b in zip(groups, groups[1:]))
        out = []
        for s, g in groups:
            if all(x not in used for x in g):
                used.update(g)
                out.append(dict(g))
        want.append(out)
    if nc == 4:
        gs = []
        for i in range(cnt[0]):
            for p2, c1, d1 in lk(0, 1, i):
                for p3, c2, d2 in lk(0, 2, i):
                    for p4, c3, d3 in lk(0, 3, i):
                        for q3, c4, d4 in lk(1, 2, p2):
                            for q4, c5, d5 in lk(1, 3, p2):
                                for r4, c6, d6 in lk(2, 3, p3):
                                    if q3 == p3 and q4 == p4 and r4 == p4:
                                        s = (c1 + c2 + c3 + c4 + c5 + c6) / (d1 + d2 + d3 + d4 + d5 + d6)
                                        if s > vpar.corrmin:
                                            gs.append((s, ((0, i), (1, p2), (2, p3), (3, p4))))
        greedy(gs)
    if nc == 3 or (nc == 4 and not cpar.all_cam_flag):
        gs = []
        for a in range(nc):
            for b in range(a + 1, nc):
                for c in range(b + 1, nc):
                    for i in range(cnt[a]):
                        for p2, c1, d1 in lk(a, b, i):
                            for p3, c2, d2 in lk(a, c, i):
                                for q3, c3, d3 in lk(b, c, p2):
                                    s = (c1 + c2 + c3) / (d1 + d2 + d3)
                                    if q3 == p3 and s > vpar.corrmin:
                                        gs.append((s, ((a, i), (b, p2), (c, p3))))
        greedy([g for g in gs if all(x not in used for x in g[1])])
    elif nc == 4:
        want.append([])
    if not cpar.all_cam_flag:
        gs = []
        for a in range(nc):
            for b in range(a + 1, nc):
                for i in range(cnt[a]):
                    l = lk(a, b, i)
                    if len(l) == 1 and (B.req(l[0][2] > 1e-12) or True) and l[0][1] / l[0][2] > vpar.corrmin and (a, i) not in used and (b, l[0][0]) not in used:
                        gs.append((l[0][1] / l[0][2], ((a, i), (b, l[0][0]))))
        greedy(gs)
    else:
        want.append([])
    for p in pix:
        for t in p:
            t.tnr = -1
    pos, ids, total = B.call("correspondences.py_correspondences", pix, flat, cals, vpar, cpar)
    B.ens("one entry per size", len(pos) == nc - 1 and len(ids) == nc - 1)
    B.ens("counts add up", total == sum(x.shape[1] for x in ids))
    seen = set()
    for q in range(nc - 1):
        for k in range(ids[q].shape[1]):
            members = [c for c in range(nc) if ids[q][c][k] != -1]
            B.ens("members", len(members) == nc - q, f"{ids[q][:, k]}")
            for c in range(nc):
                t = int(ids[q][c][k])
                if c in members:
                    B.ens("used once", (c, t) not in seen)
                    seen.add((c, t))
                    B.ens("position", list(pos[q][c][k]) == [pix[c][t].x, pix[c][t].y])
                    B.ens("carries the number", pix[c][t].tnr == k + sum(x.shape[1] for x in ids[:q]))
                else:
                    B.ens("absent", list(pos[q][c][k]) == [-999.0, -999.0] and t == -1)
    for c in range(nc):
        for t in pix[c]:
            B.ens("the rest is unmarked", t.tnr == -1 or (c, t.pnr) in seen)
    B.req(not any(ties))
    for q in range(nc - 1):
        got = [{c: int(ids[q][c][k]) for c in range(nc) if ids[q][c][k] != -1} for k in range(ids[q].shape[1])]
        exp = [{c: int(flat[c][i].pnr) for c, i in g.items()} for g in want[q]]
        B.ens(f"groups of {nc - q}", got == exp, f"{got} {exp}")
