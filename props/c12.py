"""C12 -- the links made in one step are one-to-one, mutual, the best, and counted."""
from pyvc.api import contract

from .c14 import _frame

NONE, NEXT_NONE = -1, -2


# ---------------------------------------------------------------- candidates in order of quality
@contract("C12", ["track.sort"], cases=300)
def candidates_are_sorted_by_quality_with_their_partners(B):
    n = B.int("n", 1, None, s=(1, 9))
    L = B.int("L", 0, None, s=(0, 14))
    B.req(n <= L)
    a = B.seq("a", "f", n=L)
    b = B.seq("b", "i", n=L)
    a0, b0 = (x.copy() for x in (a, b))
    p, q = B.call("track.sort", n, a, b)
    B.ens("as many as before", B.all_([B.length(p) == L, B.length(q) == L]))
    frm, to = B.order()
    at = lambda f, i: f(i) if f is not None else None
    B.ens_forall("best first", 0, n, lambda j: B.forall(0, j, lambda i: p[i] <= p[j]))
    B.ens_forall("every quality still with its partner", 0, n, lambda j: B.exists(
        0, n, lambda i: B.all_([p[j] == a0[i], q[j] == b0[i]]), at=at(frm, j)))
    B.ens_forall("no candidate lost", 0, n, lambda i: B.exists(
        0, n, lambda j: B.all_([p[j] == a0[i], q[j] == b0[i]]), at=at(to, i)))
    B.ens("the rest untouched", B.forall(n, L, lambda j: B.all_([p[j] == a0[j], q[j] == b0[j]])))


@contract("C12", ["tracking_frame_buf.Pathinfo.register_link_candidate"], conc=False)
def a_candidate_is_appended(B):
    f = _frame(B, 1, B.int("n", 0, None), B.int("L", 0, None), [0])
    h = B.int("h", 0, None)
    B.req(h < f.path_info.sym.n)
    p = f.path_info[h]
    k = p.inlist
    B.req(B.all_([k >= 0, k < 80]))
    P0 = f.path_info.copy()
    r, c = B.real("r"), B.int("c", 0, None)
    B.call("tracking_frame_buf.Pathinfo.register_link_candidate", p, r, c)
    P = f.path_info
    B.ens_forall("number of candidates", 0, B.length(P), lambda j: P[j].inlist == P0[j].inlist + B.ite(j == h, 1, 0))
    B.ens("the candidates", B.forall(0, B.length(P), lambda j: B.forall(0, 80, lambda i: B.all_([
        P[j].decis[i] == B.ite(B.all_([j == h, i == k]), r, P0[j].decis[i]),
        P[j].linkdecis[i] == B.ite(B.all_([j == h, i == k]), c, P0[j].linkdecis[i])]))))
    B.ens_forall("nothing else", 0, B.length(P), lambda j: B.all_(
        [P[j].prev_frame == P0[j].prev_frame, P[j].next_frame == P0[j].next_frame, P[j].finaldecis == P0[j].finaldecis,
         P[j].prio == P0[j].prio] + [P[j].x[d] == P0[j].x[d] for d in range(3)]))


# ---------------------------------------------------------------- one forward step
def _limits(B, acc, angle):
    t = B.tp
    return B.any_([B.all_([acc < t["dacc"], angle < t["dangle"]]), acc < t["dacc"] / 10])


def _xyz(v):
    return [v[i] for i in range(3)]


def _same(B, a, b):
    return B.all_([x == y for x, y in zip(a, b)])


def _plus(a, b, s):
    return [x + s * y for x, y in zip(a, b)]


def _callees(B):
    """What the functions called are known to do (C05, C06, C07, C11, C13, C14)."""
    def fresh(nm):
        B.nw += 1
        return f"{nm}{B.nw}"

    def pixel(p, cal, cpar):
        return B.vec(fresh("pix"), 2)

    def cands(center, proj, frm, run):
        n = B.int(fresh("ncand"), 0, 8)
        w = B.seq(fresh("wlist"), {"ftnr": "i", "freq": "i"}, "recarray", n=n + 1)
        B.req(B.forall(0, n, lambda i: B.all_([w[i].ftnr >= 0, w[i].ftnr < frm.num_parts, w[i].freq >= 1])))
        B.req(B.total(lambda: w[n].ftnr) == NONE)
        if frm is B.fr[2]:
            B.lists.append((w, n))
        return w

    def assess(pos, frm, run):
        k = B.int(fresh("valid"), 0, B.nc)
        B.where.append((frm, k))
        return k, B.np.zeros((B.nc, 2)), B.np.array([[-1] * 4 for _ in range(B.nc)])

    def point(t, nc, mm, cal):
        d, p = B.real(fresh("dist")), B.vec(fresh("found"), 3)
        B.found.append(_xyz(p))
        return d, p

    def bounds(d, tp):
        B.ens("the velocity limits of the run", B.all_([getattr(tp, k) == B.tp[k] for k in B.tp if k.startswith("dv")]))
        r = B.bool(fresh("inb"))
        B.moves.append((_xyz(d), r))
        return r

    def angle(a, b, c):
        r = B.real(fresh("angle"), 0, 200), B.real(fresh("acc"), 0, None)
        B.turns.append(([_xyz(x) for x in (a, b, c)], r))
        return r

    def add(frm, pos, inds):
        B.ens("a particle is added only where two cameras see it", B.any_([k >= 2 for f, k in B.where if f is frm]))
        B.ens("particles are added to the frames ahead", frm in [B.fr[i] for i in B.ahead])
        n, P = frm.num_parts, frm.path_info
        if B.case(n == B.length(P)):
            P.append(B.mod("tracking_frame_buf").Pathinfo())
        q = P[n]
        q.x = pos
        q.prev_frame, q.next_frame, q.prio = NONE, NEXT_NONE, 2
        frm.num_parts = n + 1

    def register(self, fitness, cand):
        frm = B.fr[2]
        listed = B.any_([B.exists(0, n, lambda i: w[i].ftnr == cand) for w, n in B.lists])
        old = B.total(lambda: _xyz(frm.path_info[cand].x))
        here = B.found[-1] if B.found else old
        new = B.all_([cand == frm.num_parts, B.tp["add"] != 0, B.any_([k >= 2 for f, k in B.where if f is frm])])
        B.ens("a link goes to a candidate of the search, or to the particle about to be added", B.any_([listed, new]))
        cpos = [B.ite(listed, a, b) for a, b in zip(old, here)]
        by = lambda t: B.any_([_same(B, p, cpos) for p in t[0]])           # about the candidate
        ok = []
        for d, r in B.moves:
            of = lambda t: B.any_([B.all_([by(t), _same(B, _plus(cpos, d, s), q)]) for s in (1, -1) for q in t[0]])
            for i, t in enumerate(B.turns):
                ok.append(B.all_([r, of(t), _limits(B, t[1][1], t[1][0])]))
                for u in B.turns[:i]:
                    ok.append(B.all_([r, by(t), by(u), B.any_([of(t), of(u)]),
                                      _limits(B, (t[1][1] + u[1][1]) / 2, (t[1][0] + u[1][0]) / 2)]))
        B.ens("the motion to it is within the velocity, angle and acceleration limits", B.any_(ok))
        k = self.inlist
        self.decis[k] = fitness
        self.linkdecis[k] = cand
        self.inlist = k + 1

    def sort(n, a, b):
        h = a.index
        B.ens("the candidates of one particle", B.all_([b.index == h, n >= 1, n <= 80]))
        q = B.ufi("best", h)
        B.req(B.all_([q >= 0, q < n, B.forall(0, n, lambda i: a[q] <= a[i])]))
        x, y = B.total(lambda: (a[q], b[q]))
        B.havoc_row(a)
        B.havoc_row(b)
        a[0], b[0] = x, y
        return a, b

    fs = {"point_to_pixel": pixel, "sorted_candidates_in_volume": cands, "assess_new_position": assess, "point_position": point,
          "pos3d_in_bounds": bounds, "angle_acc": angle, "add_particle": add, "sort": sort}
    out = {f"track.{k}": B.spec(f"track.{k}", f) for k, f in fs.items()}
    out["orientation.point_position"] = out["track.point_position"]
    F = "tracking_frame_buf"
    out[F + ".Pathinfo.register_link_candidate"] = B.spec(F + ".Pathinfo.register_link_candidate", register)
    for k in ("FrameBufBase.fb_next", "FrameBufBase.fb_prev", "FrameBuf.write_frame_from_start", "FrameBuf.read_frame_at_end"):
        out[f"{F}.{k}"] = B.spec(f"{F}.{k}", (lambda k: lambda *a, **kw: B.disk(k, *a))(k))
    return out


def _run(B, nc):
    """An arbitrary run at the start of a step."""
    P, F, R = B.mod("parameters"), B.mod("tracking_frame_buf"), B.mod("tracking_run")
    B.nc, B.nw = nc, 0
    B.lists, B.where, B.found, B.moves, B.turns = [], [], [], [], []
    keys = [f"dv{a}{m}" for a in "xyz" for m in ("min", "max")] + ["dangle", "dacc", "dsumg", "dn", "dnx", "dny"]
    B.tp = {k: B.real("tp_" + k) for k in keys}
    B.tp["add"] = B.int("tp_add", 0, 1)
    tp = P.TrackPar()
    for k, v in B.tp.items():
        setattr(tp, k, v)
    B.req(B.tp["dacc"] > 0)
    B.req(B.tp["dangle"] > 0)
    B.n = [B.int(f"n{i}", 0, None) for i in range(4)]
    B.L = [B.int(f"L{i}", 0, None) for i in range(4)]
    B.fr = []
    for i in range(4):
        B.req(B.n[i] <= B.L[i])
        B.fr.append(_frame(B, nc, B.n[i], B.L[i], [B.int(f"m{i}{c}", 0, None) for c in range(nc)], f"f{i}"))
    fb = F.FrameBuf.__new__(F.FrameBuf)
    fb.buf, fb.buf_len, fb.num_cams, fb.size, fb.head = B.vlist(B.fr), 4, nc, 4, 0
    run = R.TrackingRun.__new__(R.TrackingRun)
    run.fb, run.tpar, run.flatten_tol = fb, tp, 0.1
    run.vpar = P.VolumePar(x_lay=[B.real("xl0"), B.real("xl1")], z_min_lay=[B.real("zl0"), B.real("zl1")],
                           z_max_lay=[B.real("zm0"), B.real("zm1")])
    run.cpar = P.ControlPar(num_cams=nc)
    run.cal = B.vlist([B.mod("calibration").Calibration() for _ in range(nc)])
    run.ymin, run.ymax, run.lmax = B.real("ymin"), B.real("ymax"), B.pos("lmax")
    run.npart, run.nlinks = B.int("npart", 0, None), B.int("nlinks", 0, None)
    run.seq_par = P.SequencePar(first=B.int("first"), last=B.int("last"))
    C = B.fr[1].correspond
    B.req(B.forall(0, B.n[1], lambda h: B.all_([B.all_([C[h].p[c] >= -1, C[h].p[c] < B.length(B.fr[1].targets[c])])
                                                for c in range(nc)])))
    return run


def _valid(B, j):
    q = B.fr[1].path_info[j]
    return B.all_([q.inlist >= 0, q.inlist <= 80, B.forall(0, q.inlist, lambda i: B.all_(
        [q.linkdecis[i] >= 0, q.linkdecis[i] < B.fr[2].num_parts]))])


def _kept(B):
    """What the search for candidates leaves alone."""
    P1, P2 = B.fr[1].path_info, B.fr[2].path_info
    return [("no successor yet", B.forall(0, B.n[1], lambda j: P1[j].next_frame == NEXT_NONE)),
            ("predecessors exist", B.forall(0, B.n[1], lambda j: B.all_([P1[j].prev_frame >= NONE, P1[j].prev_frame < B.n[0]]))),
            ("nobody has a predecessor yet", B.forall(0, B.length(P2), lambda j: P2[j].prev_frame == NONE)),
            ("room", B.all_([B.all_([B.fr[i].num_parts <= B.length(B.fr[i].path_info), B.fr[i].num_parts >= B.n[i]]) for i in (2, 3)]))]


def _forward_loops(B):
    P1 = lambda: B.fr[1].path_info

    def each(v, k):
        return B.total(lambda: _kept(B) + [("candidates", B.forall(0, k, lambda j: _valid(B, j)))])

    def cams(v, k):
        return []

    def first(v, k):
        n = B.length(v.w) - 1
        h = v.h
        return B.total(lambda: _kept(B) + [
            ("candidates", B.forall(0, h + 1, lambda j: _valid(B, j))), ("within the list", B.all_([v.mm >= 0, v.mm <= n])),
            ("room for more", P1()[h].inlist <= 9 * v.mm)])

    def second(v, k):
        n = B.length(v.wn) - 1
        h = v.h
        return B.total(lambda: _kept(B) + [
            ("candidates", B.forall(0, h + 1, lambda j: _valid(B, j))), ("within the list", B.all_([v.kk >= 0, v.kk <= n])),
            ("position", _same(B, _xyz(v.X[3]), _xyz(B.fr[2].path_info[v.w[v.mm].ftnr].x))),
            ("room for more", P1()[h].inlist <= 9 * v.mm + v.kk)])

    def best(v, k):
        B.c6 += 1
        if B.c6 == 1:
            B.S = P1().copy()          # after the search
        S = B.S

        def f():
            P = P1()
            return [("nobody has a predecessor yet", B.forall(0, B.length(B.fr[2].path_info), lambda j: B.fr[2].path_info[j].prev_frame == NONE)),
                    ("candidates", B.forall(0, B.n[1], lambda h: P[h].inlist == S[h].inlist)),
                    ("the best is chosen", B.forall(0, k, lambda h: B.implies(S[h].inlist > 0, B.all_([
                        _q(B, h) >= 0, _q(B, h) < S[h].inlist, P[h].next_frame == _nx(B, h), P[h].finaldecis == _fd(B, h),
                        B.forall(0, S[h].inlist, lambda i: _fd(B, h) <= S[h].decis[i])])))),
                    ("the others are unlinked", B.forall(0, B.n[1], lambda h: B.implies(
                        B.any_([h >= k, S[h].inlist <= 0]), P[h].next_frame == NEXT_NONE))),
                    ("not yet sorted", B.forall(k, B.n[1], lambda h: B.forall(0, 80, lambda i: B.all_([
                        P[h].decis[i] == S[h].decis[i], P[h].linkdecis[i] == S[h].linkdecis[i]]))))]
        return B.total(f)

    def links(v, k):
        B.c7 += 1
        P, P2, S = P1(), B.fr[2].path_info, B.S
        B.req(B.ufi("C", k, 0) == 0)
        B.req(B.forall(0, B.n[1], lambda m: B.ufi("C", k, m + 1) == B.ufi("C", k, m) + B.ite(P[m].next_frame != NEXT_NONE, 1, 0)))
        if B.c7 == 2:
            B.head = (k, P.copy(), P2.copy())
        if B.c7 == 3:
            k0, A, A2 = B.head
            q = B.total(lambda: A2[_nx(B, k0)].prev_frame)
            ind = lambda X, m: B.ite(X[m].next_frame != NEXT_NONE, 1, 0)
            B.induct("one step changes the number of links by what it does to two particles", 0, k0, lambda m: B.ufi("C", k, m) == B.ufi(
                "C", k0, m) + B.ite(B.all_([q >= 0, q < m]), ind(P, q) - ind(A, q), 0))
        return [(a, b) for a, b in B.total(lambda: _links(B, k))] + [("number of links so far", v.count1 == B.ufi("C", k, k))]
    B.c6 = B.c7 = 0
    return {"track.trackcorr_c_loop": {
        0: B.loop(each), 1: B.loop(cams, force=True), 2: B.loop(cams, force=True),
        3: B.loop(first, lambda v: B.length(v.w) - v.mm), 4: B.loop(cams, force=True),
        5: B.loop(second, lambda v: B.length(v.wn) - v.kk), 6: B.loop(best), 7: B.loop(links)}}


def _q(B, h):
    return B.ufi("best", h)


def _nx(B, h):
    return B.S[h].linkdecis[_q(B, h)]


def _fd(B, h):
    return B.S[h].decis[_q(B, h)]


def _links(B, k):
    P, P2, S = B.fr[1].path_info, B.fr[2].path_info, B.S
    n, n2 = B.n[1], B.fr[2].num_parts

    def won(h):
        c = _nx(B, h)
        q = P2[c].prev_frame
        return B.implies(S[h].inlist > 0, B.all_([q >= 0, q < k, S[q].inlist > 0, _nx(B, q) == c, _fd(B, q) <= _fd(B, h),
                                                  P[h].next_frame == B.ite(q == h, c, NEXT_NONE)]))
    return [("candidates", B.forall(0, n, lambda h: B.all_([P[h].inlist == S[h].inlist, B.implies(
                S[h].inlist > 0, B.all_([P[h].finaldecis == _fd(B, h), _nx(B, h) >= 0, _nx(B, h) < n2]))]))),
            ("not yet decided", B.forall(k, n, lambda h: P[h].next_frame == B.ite(S[h].inlist > 0, _nx(B, h), NEXT_NONE))),
            ("without candidates there is no link", B.forall(0, k, lambda h: B.implies(S[h].inlist <= 0, P[h].next_frame == NEXT_NONE))),
            ("the best competitor has the link", B.forall(0, k, won)),
            ("every predecessor chose this successor", B.forall(0, B.length(P2), lambda j: B.implies(P2[j].prev_frame != NONE, B.all_([
                P2[j].prev_frame >= 0, P2[j].prev_frame < k, S[P2[j].prev_frame].inlist > 0, _nx(B, P2[j].prev_frame) == j]))))]


@contract("C12", ["track.trackcorr_c_loop"], contracts=_callees, loops=_forward_loops, conc=False,
          opts={"feas_ms": 30, "total_s": 400.0, "merge": True})
def forward_links_are_mutual_best_and_counted(B):
    run = _run(B, 2)
    B.ahead = (2, 3)
    step = B.int("step")
    for nm, p in B.total(lambda: _kept(B)):
        B.req(p)
    B.calls = []
    def disk(k, *a):
        B.calls.append(k)
        if k == "FrameBuf.write_frame_from_start":
            B.ens("the frame is written under its own number", a[1] == step)
        if k == "FrameBuf.read_frame_at_end":
            B.ens("the next frame is read", a[1] == step + 3)
    B.disk = disk
    np0, nl0 = run.npart, run.nlinks
    B.call("track.trackcorr_c_loop", run, step)
    P, P2, n = B.fr[1].path_info, B.fr[2].path_info, B.n[1]
    B.ens_forall("a successor points back", 0, n, lambda h: B.implies(P[h].next_frame != NEXT_NONE, B.all_([
        P[h].next_frame >= 0, P[h].next_frame < B.fr[2].num_parts, P2[P[h].next_frame].prev_frame == h])))
    B.ens_forall("a predecessor points forward", 0, B.length(P2), lambda j: B.implies(P2[j].prev_frame != NONE, B.all_([
        P2[j].prev_frame >= 0, P2[j].prev_frame < n, P[P2[j].prev_frame].next_frame == j])))
    B.ens_forall("the link is the best of the particle's candidates", 0, n, lambda h: B.implies(P[h].next_frame != NEXT_NONE, B.all_([
        P[h].next_frame == _nx(B, h), B.forall(0, B.S[h].inlist, lambda i: _fd(B, h) <= B.S[h].decis[i])])))
    B.ens_forall("a particle without its best candidate lost it to a better one", 0, n, lambda h: B.implies(
        B.all_([B.S[h].inlist > 0, P[h].next_frame == NEXT_NONE]), B.all_([
            P2[_nx(B, h)].prev_frame >= 0, _fd(B, P2[_nx(B, h)].prev_frame) <= _fd(B, h)])))
    B.ens("links counted are the links made", run.nlinks == nl0 + B.ufi("C", n, n))
    B.ens("particles counted", run.npart == np0 + n)
    B.ens("the buffer moves on, then the frame is written", B.calls[:2] == ["FrameBufBase.fb_next", "FrameBuf.write_frame_from_start"])


# ---------------------------------------------------------------- one backward step
def _kept_back(B):
    """The buffer before a backward step: links read from the files are mutual."""
    P1, P2 = B.fr[1].path_info, B.fr[2].path_info
    return [("successors exist", B.forall(0, B.n[1], lambda j: B.all_([P1[j].next_frame < B.n[0]]))),
            ("predecessors of predecessors exist", B.forall(0, B.length(P2), lambda j: B.all_([
                P2[j].prev_frame >= NONE, P2[j].prev_frame < B.n[3]]))),
            ] + _mutual(B) + [("room", B.all_([B.fr[2].num_parts <= B.length(P2), B.fr[2].num_parts >= B.n[2]]))]


def _mutual(B):
    P1, P2, n, n2 = B.fr[1].path_info, B.fr[2].path_info, B.n[1], B.fr[2].num_parts
    return [("a predecessor points forward", B.forall(0, n, lambda h: B.any_([P1[h].prev_frame == NONE, B.all_([
                P1[h].prev_frame >= 0, P1[h].prev_frame < n2, P2[P1[h].prev_frame].next_frame == h])]))),
            ("a successor points back", B.forall(0, B.length(P2), lambda j: B.any_([P2[j].next_frame == NEXT_NONE, B.all_([
                P2[j].next_frame >= 0, P2[j].next_frame < n, P1[P2[j].next_frame].prev_frame == j])])))]


def _backward_loops(B):
    def steps(v, k):
        B.c1 += 1
        m = B.last - 1 - k
        B.req(B.ufi("NL", 0) == 0)
        B.started = True
        if B.c1 == 2:
            B.k1 = m
        return B.total(lambda: [("links so far", v.nlinks == B.ufi("NL", m))] + _kept_back(B) + [
            ("nothing proposed", B.forall(0, B.n[1], lambda j: B.fr[1].path_info[j].inlist == 0))])

    def each(v, k):
        P, P0 = B.fr[1].path_info, B.P0
        return B.total(lambda: _kept_back(B) + [
            ("links of the files", B.forall(0, B.n[1], lambda j: P[j].prev_frame == P0[j].prev_frame)),
            ("candidates", B.forall(0, k, lambda j: B.all_([
                _valid(B, j), B.implies(P[j].inlist > 0, B.all_([P[j].prev_frame == NONE, P[j].next_frame >= 0]))]))),
            ("nothing proposed", B.forall(k, B.n[1], lambda j: P[j].inlist == 0))])

    def outer(v, k):
        if B.c2 == 0:
            B.stepno = B.k1
            B.P0 = B.fr[1].path_info.copy()
        B.c2 += 1
        return each(v, k)

    def search(v, k):
        h, P, P0 = v.h, B.fr[1].path_info, B.P0
        return B.total(lambda: _kept_back(B) + [
            ("links of the files", B.forall(0, B.n[1], lambda j: P[j].prev_frame == P0[j].prev_frame)),
            ("candidates", B.forall(0, h + 1, lambda j: B.all_([
                _valid(B, j), B.implies(P[j].inlist > 0, B.all_([P[j].prev_frame == NONE, P[j].next_frame >= 0]))]))),
            ("linked ahead only", B.all_([P[h].prev_frame == NONE, P[h].next_frame >= 0, P[h].next_frame < B.n[0]])),
            ("nothing proposed", B.forall(h + 1, B.n[1], lambda j: P[j].inlist == 0)),
            ("within the list", B.all_([v.i >= 0, v.i <= B.length(v.w) - 1])), ("room for more", P[h].inlist <= v.i)])

    def best(v, k):
        B.c6 += 1
        if B.c6 == 1:
            B.S = B.fr[1].path_info.copy()
        S = B.S

        def f():
            P = B.fr[1].path_info
            return _kept_back(B) + [
                ("candidates", B.forall(0, B.n[1], lambda h: B.all_([
                    P[h].inlist == S[h].inlist, P[h].prev_frame == S[h].prev_frame, P[h].next_frame == S[h].next_frame]))),
                ("the best comes first", B.forall(0, k, lambda h: B.implies(S[h].inlist > 0, B.all_([
                    _q(B, h) >= 0, _q(B, h) < S[h].inlist, P[h].linkdecis[0] == _nx(B, h), P[h].decis[0] == _fd(B, h),
                    B.forall(0, S[h].inlist, lambda i: _fd(B, h) <= S[h].decis[i])])))),
                ("not yet sorted", B.forall(k, B.n[1], lambda h: B.forall(0, 80, lambda i: B.all_([
                    P[h].decis[i] == S[h].decis[i], P[h].linkdecis[i] == S[h].linkdecis[i]]))))]
        return B.total(f)

    def links(v, k):
        B.c7 += 1
        P, S = B.fr[1].path_info, B.S
        ind = lambda X, m: B.ite(X[m].prev_frame != NONE, 1, 0)
        B.req(B.ufi("C", k, 0) == 0)
        B.req(B.forall(0, B.n[1], lambda m: B.ufi("C", k, m + 1) == B.ufi("C", k, m) + ind(P, m)))
        if B.c7 == 2:
            B.head = (k, P.copy())
        if B.c7 == 3:
            k0, A = B.head
            B.induct("one step changes no earlier link", 0, k0, lambda m: B.ufi("C", k, m) == B.ufi("C", k0, m))
        B.counted = B.ufi("C", k, k)
        return B.total(lambda: _kept_back(B) + _linked(B, k)) + [("number of links so far", v.count1 == B.ufi("C", k, k))]
    B.c1 = B.c2 = B.c6 = B.c7 = 0
    B.counted = B.stepno = None
    B.started = False
    no = lambda v, k: []
    return {"track.trackback_c": {
        0: B.loop(no, force=True), 1: B.loop(steps, force=True), 2: B.loop(outer), 3: B.loop(no, force=True), 4: B.loop(no, force=True),
        5: B.loop(search, lambda v: B.length(v.w) - v.i), 6: B.loop(best), 7: B.loop(links), 8: B.loop(no, force=True)}}


def _linked(B, k):
    P, S = B.fr[1].path_info, B.S
    return [("candidates", B.forall(0, B.n[1], lambda h: B.all_([
                P[h].inlist == S[h].inlist, P[h].next_frame == S[h].next_frame, B.implies(S[h].inlist > 0, B.all_([
                    P[h].linkdecis[0] == _nx(B, h), P[h].decis[0] == _fd(B, h), S[h].prev_frame == NONE, P[h].next_frame >= 0,
                    _nx(B, h) >= 0, _nx(B, h) < B.fr[2].num_parts]))]))),
            ("links made before stay", B.forall(0, B.n[1], lambda h: B.implies(
                B.any_([S[h].prev_frame != NONE, S[h].inlist <= 0, h >= k]), P[h].prev_frame == S[h].prev_frame))),
            ("a new link is to the best candidate", B.forall(0, k, lambda h: B.implies(
                B.all_([S[h].prev_frame == NONE, P[h].prev_frame != NONE]), B.all_([
                    S[h].inlist > 0, P[h].prev_frame == _nx(B, h), P[h].finaldecis == _fd(B, h)]))))]


@contract("C12", ["track.trackback_c"], contracts=_callees, loops=_backward_loops, conc=False,
          opts={"feas_ms": 30, "total_s": 400.0, "merge": True})
def backward_links_are_mutual_best_and_counted(B):
    run = _run(B, 2)
    B.ahead = (2,)
    B.links_made = 0

    def disk(k, *a):
        if k == "FrameBuf.write_frame_from_start" and B.started:
            B.ens("a frame is written under its own number", a[1] == (first if B.stepno is None else last - 1 - B.stepno))
        if k != "FrameBufBase.fb_next" or B.counted is None:
            return
        P, P2, n = B.fr[1].path_info, B.fr[2].path_info, B.n[1]
        for nm, p in B.total(lambda: _mutual(B) + _linked(B, n)):
            B.ens(nm, p)
        # the buffer turns: other frames with mutual links, and nothing proposed yet
        B.req(B.ufi("NL", 1 + B.stepno) == B.ufi("NL", B.stepno) + B.counted)
        B.counted = None
        for f in B.fr:
            B.havoc_seq(f.path_info.sym)
        for nm, p in B.total(lambda: _kept_back(B)):
            B.req(p)
        B.req(B.total(lambda: B.forall(0, n, lambda j: P[j].inlist == 0)))
    B.disk = disk
    for nm, p in B.total(lambda: _kept_back(B)):
        B.req(p)
    P = B.fr[1].path_info
    B.req(B.total(lambda: B.forall(0, B.n[1], lambda j: P[j].inlist == 0)))
    first, last = run.seq_par.first, run.seq_par.last
    B.last = last
    B.req(last - first >= 2)
    r = B.call("track.trackback_c", run)
    B.ens("links reported are the links made, per step", r * (last - first - 1) == B.ufi("NL", last - first - 1))


# ---------------------------------------------------------------- whole runs on real cameras
def _memory(B, frames):
    F = B.mod("tracking_frame_buf")

    class MemBuf(F.FrameBuf):
        def read_frame_at_end(self, frame_num, read_links=False):
            f = self.buf[-1]
            g = B.snap(frames[frame_num])
            f.correspond, f.path_info, f.targets = g.correspond, g.path_info, g.targets
            f.num_parts, f.num_targets = g.num_parts, g.num_targets
            if not read_links:
                for q in f.path_info:
                    q.prev_frame, q.next_frame = NONE, NEXT_NONE
            for q in f.path_info:
                q.inlist, q.finaldecis, q.decis, q.linkdecis = 0, 1e6, [0] * 80, [-999] * 80

        def write_frame_from_start(self, frame_num):
            frames[frame_num] = B.snap(self.buf[0])
            return True
    return MemBuf


def _real_run(B, add):
    K, P, F, R = (B.mod(m) for m in ("calibration", "parameters", "tracking_frame_buf", "tracking_run"))
    np, T = B.np, B.mod("track")
    nc = B.choice("num_cams", [2, 3, 4])
    mm = P.MultimediaPar(nlay=1, n1=1.0, n2=[1.0], d=[1.0], n3=1.0)
    cpar = P.ControlPar(num_cams=nc, imx=1280, imy=1024, pix_x=0.012, pix_y=0.0115, mm=mm)
    cals = []
    for c in range(nc):
        k = K.Calibration()
        k.set_pos(np.array([(-1) ** c * 90.0, (1 if c < 2 else -1) * 60.0, 400.0 + 10 * c]))
        k.set_angles(np.array([-k.ext_par.y0 / 400.0, k.ext_par.x0 / 400.0, 0.0]))
        k.int_par.cc = 70.0
        k.glass_par = np.array([0.0, 0.0, 50.0])
        cals.append(k)
    rnd = np.random.RandomState(B.int("seed", 0, 10 ** 6))
    n, nf = B.int("n", 1, 7), B.choice("frames", [4, 5, 7])
    size = B.choice("crowd", [0.8, 1.5, 4.0])
    p = rnd.uniform(-size, size, (n, 3))
    v = np.array([0.5, 0.2, -0.1]) + rnd.uniform(-0.2, 0.2, (n, 3))
    frames = {}
    for t in range(10001, 10001 + nf):
        f = F.Frame(nc, 1)
        seen = [i for i in range(n) if rnd.rand() < 0.9]
        order = list(rnd.permutation(seen))
        here = p + rnd.uniform(-0.1, 0.1, p.shape)
        if order and rnd.rand() < 0.3:
            order.append(order[0])                 # a ghost beside a particle
        f.num_parts = m = len(order)
        pts = np.array([here[i] for i in order]).reshape(m, 3)
        if m > len(seen):
            pts[-1] += rnd.uniform(-0.2, 0.2, 3)
        f.path_info = [F.Pathinfo(x=q.copy(), prio=4) for q in pts]
        f.correspond = np.recarray(m, dtype=F.Corres_dtype)
        f.correspond.nr, f.correspond.p = np.arange(m) + 1, -1
        for c in range(nc):
            ts = []
            for i, q in enumerate(pts):
                if rnd.rand() < 0.9:
                    x, y = T.point_to_pixel(q, cals[c], cpar)
                    ts.append(F.Target(x=x, y=y, n=9, nx=3, ny=3, sumg=100, tnr=i))
            for i in range(n):
                if i not in order and rnd.rand() < 0.6:        # seen, but not matched
                    x, y = T.point_to_pixel(here[i], cals[c], cpar)
                    ts.append(F.Target(x=x, y=y, n=9, nx=3, ny=3, sumg=100, tnr=-1))
            ts.sort(key=lambda g: g.y)
            for j, g in enumerate(ts):
                g.pnr = j
                if g.tnr >= 0:
                    f.correspond.p[g.tnr][c] = j
            f.targets[c], f.num_targets[c] = ts, len(ts)
        frames[t] = f
        p = p + v
    tp = P.TrackPar(dvxmin=-1.0, dvxmax=1.5, dvymin=-1.0, dvymax=1.2, dvzmin=-1.2, dvzmax=1.0, dangle=B.choice("dangle", [20.0, 100.0]),
                    dacc=B.choice("dacc", [0.3, 1.0, 3.0]), add=add)
    vpar = P.VolumePar(x_lay=[-50.0, 50.0], z_min_lay=[-20.0, -20.0], z_max_lay=[20.0, 20.0], cnx=0.0, cny=0.0, cn=0.0, csumg=0.0,
                       corrmin=0.0, eps0=0.02)
    seq = P.SequencePar(img_base_name=["none"] * nc, first=10001, last=10000 + nf)
    run = R.TrackingRun(seq, tp, vpar, cpar, 4, 10, "none", "none", "none", cals, 1e-4)
    run.fb = _memory(B, frames)(4, nc, 10, "none", "none", "none", ["none"] * nc)
    B.call("track.track_forward_start", run)
    return run, frames


def _mutual_run(B, A, C, step):
    """The links between two frames are one-to-one and mutual."""
    na, ncc = A.num_parts, C.num_parts
    for h in range(na):
        s = A.path_info[h].next_frame
        if s != NEXT_NONE:
            B.ens("a successor points back", 0 <= s < ncc and C.path_info[s].prev_frame == h, f"step {step}: {h} -> {s}")
    for j in range(ncc):
        q = C.path_info[j].prev_frame
        if q != NONE:
            B.ens("a predecessor points forward", 0 <= q < na and A.path_info[q].next_frame == j, f"step {step}: {q} <- {j}")


def _rules(B, run, X0, X1, c3, f2, f3, snap_add, taken):
    """Is the motion X1 -> c3 within the limits, by one of the rules?"""
    T, np, tp = B.mod("track"), B.np, run.tpar
    ang = lambda a, b, c: T.angle_acc(np.array(a, float), np.array(b, float), np.array(c, float))
    lim = lambda acc, an: (acc < tp.dacc and an < tp.dangle) or acc < tp.dacc / 10
    inb = lambda d: tp.dvxmin < d[0] < tp.dvxmax and tp.dvymin < d[1] < tp.dvymax and tp.dvzmin < d[2] < tp.dvzmax
    X2 = 2 * X1 - X0 if X0 is not None else X1
    X5 = 0.5 * (5 * c3 - 4 * X1 + X0) if X0 is not None else 2 * c3 - X1
    for q in f3.path_info[:f3.num_parts]:
        d = q.x - c3
        if inb(d):
            a1 = ang(c3, q.x, X5)
            a0 = ang(X1, X2, c3) if X0 is not None else a1
            if lim((a0[1] + a1[1]) / 2, (a0[0] + a1[0]) / 2):
                return True
    k, v2, _ = T.assess_new_position(X5, f3, run)
    if k >= 2:
        _, X4 = T.point_position(v2, run.cpar.num_cams, run.cpar.mm, run.cal)
        if inb(c3 - X4):
            an, acc = ang(c3, X4, X5)
            if lim(acc, an):
                return True
    if X0 is not None and inb(c3 - X1):
        an, acc = ang(X1, X2, c3)
        if lim(acc, an):
            return True
    return False


@contract("C12", ["track.trackcorr_c_loop", "track.trackback_c", "track.sort", "track.trackcorr_c_finish"], sym=False, cases=60, jit=False)
def a_run_of_steps_run(B):
    add = B.choice("add", [0, 0, 1])
    run, frames = _real_run(B, add)
    np, fb = B.np, run.fb
    first, last = run.seq_par.first, run.seq_par.last
    nlinks = 0
    for step in range(first, last):
        before = B.snap(list(fb.buf))
        n1 = fb.buf[1].num_parts
        l0, p0 = run.nlinks, run.npart
        B.call("track.trackcorr_c_loop", run, step)
        P0, P, C = before[0], fb.buf[0], fb.buf[1]
        _mutual_run(B, P, C, step)
        made = sum(q.next_frame != NEXT_NONE for q in P.path_info[:n1])
        B.ens("links counted", run.nlinks - l0 == made, f"step {step}: {run.nlinks - l0} for {made}")
        B.ens("particles counted", run.npart - p0 == n1)
        B.ens("the frame written", len(frames[step].path_info) == len(P.path_info) and all(
            a.next_frame == b.next_frame and a.prev_frame == b.prev_frame for a, b in zip(frames[step].path_info, P.path_info)))
        for h in range(n1):
            q = P.path_info[h]
            k = q.inlist
            if k == 0:
                B.ens("no link without a candidate", q.next_frame == NEXT_NONE, f"step {step}: {h}")
                continue
            best = min(q.decis[:k])
            ok = [c for d, c in zip(q.decis[:k], q.linkdecis[:k]) if d == best]
            if q.next_frame != NEXT_NONE:
                B.ens("the best candidate", q.next_frame in ok, f"step {step}: {h} -> {q.next_frame}, {q.decis[:k]} {q.linkdecis[:k]}")
            elif len(ok) == 1:
                w = C.path_info[ok[0]].prev_frame
                B.ens("lost to a better one", w >= 0 and min(P.path_info[w].decis[:P.path_info[w].inlist]) <= best, f"step {step}: {h}, {w}")
            if not add:
                X0 = P0.path_info[q.prev_frame].x if q.prev_frame >= 0 else None
                for c in set(q.linkdecis[:k]):
                    B.ens("only candidates", 0 <= c < C.num_parts, f"step {step}: {h} {c}")
                    B.ens("within the limits", _rules(B, run, X0, q.x, C.path_info[c].x, C, fb.buf[2], None, None),
                          f"step {step}: {h} -> {c}")
    B.call("track.trackcorr_c_finish", run, last)
    for t in range(first, last):
        _mutual_run(B, frames[t], frames[t + 1], f"file {t}")
    old = B.snap(frames)
    r = B.call("track.trackback_c", run)
    made = 0
    for t in range(first, last):
        _mutual_run(B, frames[t], frames[t + 1], f"file {t}")
        for h in range(frames[t].num_parts):
            s = old[t].path_info[h].next_frame if h < old[t].num_parts else NEXT_NONE
            B.ens("no link is lost on the way back", s == NEXT_NONE or frames[t].path_info[h].next_frame == s, f"{t}: {h} -> {s}")
    for t in range(first + 1, last):
        made += sum(q.prev_frame != NONE for q in frames[t].path_info[:frames[t].num_parts])
    B.ens("links counted on the way back", abs(r * (last - first - 1) - made) < 1e-6, f"{r} {made}")
    B.count("links", made) if hasattr(B, "count") else None
