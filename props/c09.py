"""C09 -- cross-camera matching reports only mutually consistent groups, and all of them."""
from pyvc.api import contract

PAIRS = [(a, b) for a in range(4) for b in range(a + 1, 4)]


class Lists:
    """The candidate lists as the code indexes them: [a][b][i] or [a, b, i]."""

    def __init__(self, d, pre=()):
        self.d, self.pre = d, pre

    def __getitem__(self, ix):
        ix = self.pre + (ix if isinstance(ix, tuple) else (ix,))
        if len(ix) < 2:
            return Lists(self.d, ix)
        s = self.d[int(ix[0]), int(ix[1])]
        for i in ix[2:]:
            s = s[i]
        return s


def _entry(B):
    cap = B.mod("constants").MAXCAND
    return {"p1": "i", "n": "i", "p2": B.row(cap, "i"), "corr": B.row(cap, "f"), "dist": B.row(cap, "f")}


def _lists(B, nc):
    """Arbitrary candidate lists that refer to existing targets and have positive distances."""
    cap = B.mod("constants").MAXCAND
    cnt = [B.int(f"num{c}", 0, None) for c in range(nc)]
    d = {}
    for a in range(nc):
        for b in range(a + 1, nc):
            s = d[a, b] = B.seq(f"L{a}{b}", _entry(B), "recarray")
            B.req(B.length(s) >= cnt[a])
            B.req(B.forall(0, cnt[a], lambda i: B.all_([s[i].n >= 0, s[i].n <= cap, s[i].p1 == i])))
            B.req(B.forall(0, cnt[a], lambda i: B.forall(0, s[i].n, lambda j: B.all_(
                [s[i].p2[j] >= 0, s[i].p2[j] < cnt[b], s[i].dist[j] > 0]))))
    B.lists, B.cnts = d, cnt
    return Lists(d), cnt


def _scratch(B):
    s = B.seq("scratch", {"p": ("vec", 4, "i"), "corr": "f"}, "recarray")
    n = B.length(s)
    B.req(n > 0)
    return s, n


def _before(B, T, prefix, k):
    """Tuple T comes before (prefix, k, 0, 0, ...) in lexicographic order."""
    cur = list(prefix) + [k]
    r = False
    for x, y in reversed(list(zip(T, cur))):
        r = B.any_([x < y, B.all_([x == y, r])])
    return r


# ---------------------------------------------------------------- four cameras
def _four(B, i, j, k, l, m, n, o):
    """The conditions on the choice of six links, and the score."""
    L = B.lists
    e01, e02, e03 = L[0, 1][i], L[0, 2][i], L[0, 3][i]
    p2, p3, p4 = e01.p2[j], e02.p2[k], e03.p2[l]
    e12, e13, e23 = L[1, 2][p2], L[1, 3][p2], L[2, 3][p3]
    rng = [i >= 0, i < B.cnts[0], j >= 0, j < e01.n, k >= 0, k < e02.n, l >= 0, l < e03.n, m >= 0, m < e12.n, n >= 0,
           n < e13.n, o >= 0, o < e23.n]
    links = [e12.p2[m] == p3, e13.p2[n] == p4, e23.p2[o] == p4]
    es = [(e01, j), (e02, k), (e03, l), (e12, m), (e13, n), (e23, o)]

    def total(f):
        r = 0
        for e, x in es:
            r = r + getattr(e, f)[x]
        return r
    return rng, links, (i, p2, p3, p4), total("corr") / total("dist")


def _four_loops(B):
    def inv(v, k):
        pre = B.outer(v.L)
        if len(pre) == 6:
            cur = pre + [k]
            rng, links, g, score = B.total(lambda: _four(B, *cur))
            acc = B.ufb("acc", *cur)
            B.req(B.total(lambda: B.iff(acc, B.all_(rng + links + [score > B.accept]))))
            B.req(B.ufr("score", *cur) == score)
            B.req(B.ufi("slot", *cur) == v.matched)
            B.req(B.implies(acc, B.all_([B.ufi(f"w{t}", v.matched) == cur[t] for t in range(7)])))
        return [("room", B.all_([v.matched >= 0, v.matched < B.size])),
                ("nothing but acceptable groups", _four_sound(B, v.matched)),
                ("all acceptable groups so far", B.tuples(7, lambda *T: (B.ufb("acc", *T), B.implies(
                    B.all_([B.ufb("acc", *T), _before(B, T, pre, k)]),
                    B.all_([B.ufi("slot", *T) >= 0, B.ufi("slot", *T) < v.matched,
                            _four_is(B, B.ufi("slot", *T), T)])))))]
    return {"correspondences.four_camera_matching": {n: B.loop(inv) for n in range(7)}}


def _four_is(B, t, T):
    r = B.scr[t]
    rng, links, g, score = _four(B, *T)
    return B.all_([r.p[c] == g[c] for c in range(4)] + [r.corr == B.ufr("score", *T)])


def _four_sound(B, n):
    def f(t):
        W = [B.ufi(f"w{c}", t) for c in range(7)]
        return B.all_([B.ufb("acc", *W), _four_is(B, t, W)])
    return B.forall(0, n, f)


@contract("C09", ["correspondences.four_camera_matching"], loops=_four_loops, conc=False,
          opts={"total_s": 300.0, "feas_ms": 40}, note="any candidate lists, any number of targets")
def quadruplets_are_exactly_the_consistent_acceptable_ones(B):
    L, cnt = _lists(B, 4)
    B.scr, B.size = _scratch(B)
    B.accept = B.real("accept")
    # definition of acc (for every choice of links at once)
    B.req(B.tuples(7, lambda *T: (B.ufb("acc", *T), B.implies(
        B.ufb("acc", *T), B.all_(_four(B, *T)[0] + _four(B, *T)[1] + [B.ufr("score", *T) > B.accept])))))
    n = B.call("correspondences.four_camera_matching", L, cnt[0], B.accept, B.scr, B.size)
    B.ens("within the capacity", B.all_([n >= 0, n <= B.size]))
    B.ens("every reported group consists of six links of the lists, has their score, and is acceptable",
          _four_sound(B, n))
    T = [B.int(f"T{c}") for c in range(7)]
    B.ens("every acceptable group is reported, unless the capacity is used up", B.implies(
        B.all_([B.ufb("acc", *T), n < B.size]),
        B.all_([B.ufi("slot", *T) >= 0, B.ufi("slot", *T) < n, B.total(lambda: _four_is(B, B.ufi("slot", *T), T))])))


# ---------------------------------------------------------------- three cameras
class Marks:
    """tusage[cam][target] or tusage[cam, target]."""

    def __init__(self, rows):
        self.rows = rows

    def __getitem__(self, ix):
        if isinstance(ix, tuple):
            return self.rows[int(ix[0])][ix[1]]
        return self.rows[int(ix)]

    def __setitem__(self, ix, v):
        self.rows[int(ix[0])][ix[1]] = v

    def __vc_heap__(self):
        return [r.store for r in self.rows]


def _marks(B, nc, cnt):
    rows = [B.seq(f"used{c}", "i", "ndarray") for c in range(nc)]
    for c in range(nc):
        B.req(B.length(rows[c]) >= cnt[c])
        B.req(cnt[c] <= B.mod("constants").NMAX)
    B.marks = rows
    return Marks(rows)


def _three(B, i1, i2, i3, i, j, k):
    """Conditions on the choice of two links, except for the closing one; group and the link's place."""
    L, U = B.lists, B.marks
    a, b = L[i1, i2][i], L[i1, i3][i]
    p2, p3 = a.p2[j], b.p2[k]
    cl = L[i2, i3][p2]
    rng = [i >= 0, i < B.cnts[i1], j >= 0, j < a.n, k >= 0, k < b.n]
    free = [U[i1][i] <= 0, U[i2][p2] <= 0, U[i3][p3] <= 0]
    g = [-2] * 4
    g[i1], g[i2], g[i3] = i, p2, p3
    return rng, free, g, a, b, cl, p3


def _three_def(B, cams, cur):
    """acc, score, slot and w at one choice.  The closing link used is the first one that fits."""
    rng, free, g, a, b, cl, p3 = _three(B, *cams, *cur)
    m = B.ufi("m", *cams, *cur)
    acc = B.ufb("acc", *cams, *cur)
    score = B.ufr("score", *cams, *cur)
    linked = B.exists(0, cl.n, lambda x: cl.p2[x] == p3)
    B.req(B.implies(linked, B.all_([m >= 0, m < cl.n, cl.p2[m] == p3,
                                    B.forall(0, m, lambda x: cl.p2[x] != p3)])))
    val = (a.corr[cur[1]] + b.corr[cur[2]] + cl.corr[m]) / (a.dist[cur[1]] + b.dist[cur[2]] + cl.dist[m])
    B.req(B.implies(linked, score == val))
    B.req(B.iff(acc, B.all_(rng + free + [linked, score > B.accept])))
    return acc


def _three_is(B, t, cams, T):
    r = B.scr[t]
    g = _three(B, *cams, *T)[2]
    return B.all_([r.p[c] == g[c] for c in range(4)] + [r.corr == B.ufr("score", *cams, *T)])


def _triples(nc):
    return [(a, b, c) for a in range(nc) for b in range(a + 1, nc) for c in range(b + 1, nc)]


def _three_sound(B, n, nc):
    def f(t):
        W = [B.ufi(f"w{c}", t) for c in range(6)]
        out = []
        for cams in _triples(nc):
            here = B.all_([W[c] == cams[c] for c in range(3)])
            out.append(B.all_([here, B.ufb("acc", *cams, *W[3:]), _three_is(B, t, cams, W[3:])]))
        return B.any_(out)
    return B.forall(0, n, f)


def _three_loops(B):
    def inv(v, k):
        pre = B.outer(v.L)
        d = len(pre)
        # order of the loops: i1, i, i2, j, i3, k; the camera loops run over constants
        cur = [v.i1] + pre[:1] + ([v.i2] + pre[1:2] if d >= 1 else []) + ([v.i3] if d >= 2 else [])
        if d == 2:
            cams = (v.i1, v.i2, v.i3)
            at = [pre[0], pre[1], k]
            acc = B.total(lambda: _three_def(B, cams, at))
            B.req(B.ufi("slot", *cams, *at) == v.matched)
            B.req(B.implies(acc, B.all_([B.ufi(f"w{t}", v.matched) == x for t, x in enumerate(list(cams) + at)])))
        out = [("room", B.all_([v.matched >= 0, v.matched < B.size])),
               ("nothing but acceptable groups", _three_sound(B, v.matched, B.nc))]
        for c in _triples(B.nc):
            out.append((f"all acceptable groups of {c} so far", B.tuples(3, lambda i, j, m: (
                B.ufb("acc", *c, i, j, m), B.implies(
                    B.all_([B.ufb("acc", *c, i, j, m), _before(B, [c[0], i, c[1], j, c[2], m], cur, k)]),
                    B.all_([B.ufi("slot", *c, i, j, m) >= 0, B.ufi("slot", *c, i, j, m) < v.matched,
                            _three_is(B, B.ufi("slot", *c, i, j, m), c, (i, j, m))]))))))
        return out
    return {"correspondences.three_camera_matching": {n: B.loop(inv) for n in range(6)}}


def _triplets(B, nc):
    B.nc = nc
    L, cnt = _lists(B, nc)
    B.scr, B.size = _scratch(B)
    B.accept = B.real("accept")
    U = _marks(B, nc, cnt)
    for c in _triples(nc):
        B.req(B.tuples(3, lambda i, j, k: (B.ufb("acc", *c, i, j, k), B.implies(
            B.ufb("acc", *c, i, j, k), B.all_(_three(B, *c, i, j, k)[0] + _three(B, *c, i, j, k)[1])))))
    n = B.call("correspondences.three_camera_matching", L, nc, cnt, B.accept, B.scr, B.size, U)
    B.ens("within the capacity", B.all_([n >= 0, n <= B.size]))
    B.ens("every reported group consists of three links of the lists, of free targets, with their score",
          _three_sound(B, n, nc))
    for c in _triples(nc):
        nm = "".join(map(str, c))
        T = [B.int(f"T{nm}{x}") for x in range(3)]
        B.ens(f"every acceptable group of cameras {nm} is reported, unless the capacity is used up", B.implies(
            B.all_([B.ufb("acc", *c, *T), n < B.size]),
            B.all_([B.ufi("slot", *c, *T) >= 0, B.ufi("slot", *c, *T) < n,
                    B.total(lambda: _three_is(B, B.ufi("slot", *c, *T), c, T))])))


@contract("C09", ["correspondences.three_camera_matching"], loops=_three_loops, conc=False, opts={"total_s": 300.0, "feas_ms": 40})
def triplets_of_three_cameras(B):
    _triplets(B, 3)


@contract("C09", ["correspondences.three_camera_matching"], loops=_three_loops, conc=False, opts={"total_s": 500.0, "feas_ms": 40})
def triplets_of_four_cameras(B):
    _triplets(B, 4)


# ---------------------------------------------------------------- pairs
def _pair(B, a, b, i):
    e = B.lists[a, b][i]
    g = [-2] * B.nc
    g[a], g[b] = i, e.p2[0]
    return [i >= 0, i < B.cnts[a], B.marks[a][i] <= 0, e.n == 1, B.marks[b][e.p2[0]] <= 0], g, e.corr[0] / e.dist[0]


def _pair_is(B, t, a, b, i):
    r = B.scr[t]
    g = _pair(B, a, b, i)[1]
    return B.all_([r.p[c] == g[c] for c in range(B.nc)] + [r.corr == B.ufr("score", a, b, i)])


def _pairs(nc):
    return [(a, b) for a, b in PAIRS if b < nc]


def _pair_sound(B, n):
    def f(t):
        W = [B.ufi(f"w{c}", t) for c in range(3)]
        return B.any_([B.all_([W[0] == a, W[1] == b, B.ufb("acc", a, b, W[2]), _pair_is(B, t, a, b, W[2])])
                       for a, b in _pairs(B.nc)])
    return B.forall(0, n, f)


def _pair_loops(B):
    def inv(v, k):
        a, b = v.i1, v.i2

        def define():
            cond, g, score = _pair(B, a, b, k)
            B.req(B.implies(B.all_(cond), B.ufr("score", a, b, k) == score))
            B.req(B.iff(B.ufb("acc", a, b, k), B.all_(cond + [score > B.accept])))
        B.total(define)
        B.req(B.ufi("slot", a, b, k) == v.matched)
        B.req(B.implies(B.ufb("acc", a, b, k), B.all_(
            [B.ufi("w0", v.matched) == a, B.ufi("w1", v.matched) == b, B.ufi("w2", v.matched) == k])))
        out = [("room", B.all_([v.matched >= 0, v.matched < B.size])),
               ("nothing but acceptable pairs", _pair_sound(B, v.matched))]
        for c, d in _pairs(B.nc):
            out.append((f"all acceptable pairs of {c},{d} so far", B.tuples(1, lambda i: (
                B.ufb("acc", c, d, i), B.implies(
                    B.all_([B.ufb("acc", c, d, i), _before(B, [c, d, i], [a, b], k)]),
                    B.all_([B.ufi("slot", c, d, i) >= 0, B.ufi("slot", c, d, i) < v.matched,
                            _pair_is(B, B.ufi("slot", c, d, i), c, d, i)]))))))
        return out
    return {"correspondences.consistent_pair_matching": {n: B.loop(inv) for n in range(3)}}


def _pairs_exact(B, nc):
    B.nc = nc
    L, cnt = _lists(B, nc)
    B.scr, B.size = _scratch(B)
    B.accept = B.real("accept")
    U = _marks(B, nc, cnt)
    for c, d in _pairs(nc):
        B.req(B.tuples(1, lambda i: (B.ufb("acc", c, d, i), B.implies(
            B.ufb("acc", c, d, i), B.all_(_pair(B, c, d, i)[0])))))
    n = B.call("correspondences.consistent_pair_matching", L, nc, cnt, B.accept, B.scr, B.size, U)
    B.ens("within the capacity", B.all_([n >= 0, n <= B.size]))
    B.ens("every reported pair is the only link of a free target, with its score", _pair_sound(B, n))
    for c, d in _pairs(nc):
        T = B.int(f"T{c}{d}")
        B.ens(f"every acceptable pair of cameras {c},{d} is reported, unless the capacity is used up", B.implies(
            B.all_([B.ufb("acc", c, d, T), n < B.size]),
            B.all_([B.ufi("slot", c, d, T) >= 0, B.ufi("slot", c, d, T) < n,
                    B.total(lambda: _pair_is(B, B.ufi("slot", c, d, T), c, d, T))])))


@contract("C09", ["correspondences.consistent_pair_matching"], loops=_pair_loops, conc=False, opts={"total_s": 300.0, "feas_ms": 40})
def pairs_of_few_cameras_are_exactly_the_unambiguous_acceptable_ones(B):
    _pairs_exact(B, B.choice("num_cams", [2, 3]))


@contract("C09", ["correspondences.consistent_pair_matching"], loops=_pair_loops, conc=False, opts={"total_s": 300.0, "feas_ms": 40})
def pairs_of_four_cameras_are_exactly_the_unambiguous_acceptable_ones(B):
    _pairs_exact(B, 4)


# ---------------------------------------------------------------- the lists themselves
def _entry_ok(B, a, b, i, upto=None):
    e = B.lists[a, b][i]
    cap = B.mod("constants").MAXCAND
    nc = B.ufi("nc", a, b, i)
    n = B.ite(nc < cap, nc, cap) if upto is None else upto
    out = [e.p1 == i, B.forall(0, n, lambda j: B.all_(
        [e.p2[j] == B.ufi("cp", a, b, i, j), e.corr[j] == B.ufr("cc", a, b, i, j), e.dist[j] == B.ufr("ct", a, b, i, j)]))]
    return B.all_(out + ([e.n == n] if upto is None else []))


def _mp_loops(B):
    def inv(v, k):
        a, b = v.i1, v.i2
        pre = B.outer(v.L)
        at = pre[0] if pre else k
        out = []
        for c, d in _pairs(B.nc):
            if (c, d) < (a, b):
                out.append((f"list {c},{d}", B.forall(0, B.cnts[c], lambda i: _entry_ok(B, c, d, i))))
        out.append((f"list {a},{b}", B.forall(0, at, lambda i: _entry_ok(B, a, b, i))))
        if pre:
            out.append((f"entry of {a},{b}", B.total(lambda: _entry_ok(B, a, b, at, k))))
        return out
    return {"correspondences.match_pairs": {n: B.loop(inv) for n in range(4)}}


def _mp_contracts(B):
    def which(xs, x):
        for n, y in enumerate(xs):
            if x is y or getattr(x, "store", 0) is getattr(y, "store", 1):
                return n
        return -1

    def epi(x, y, c1, c2, mm, vpar):
        a, b = which(B.cals, c1), which(B.cals, c2)
        B.ens("the segment is of a first camera's point in a second camera", 0 <= a < b)
        B.at = (a, b, B.outer(None)[0])
        t = B.total(lambda: B.crd[a][B.at[2]])
        B.ens("the segment of this target", B.all_([x == t.x, y == t.y]))
        B.ens("the media and the volume given", mm is B.cpar.mm and vpar is B.vpar)
        return tuple(B.ufr(n, *B.at) for n in ("xa", "ya", "xb", "yb"))

    def find(crd, pix, num, xa, ya, xb, yb, n, nx, ny, sumg, vpar, cpar, cal):
        a, b, i = B.at
        B.ens("search among the second camera's targets",
              which(B.crd, crd) == b and which([p.sym for p in B.tgt], pix.sym) == b and which(B.cals, cal) == b)
        B.ens("all of them", num == B.cnts[b])
        B.ens("along the segment", B.all_([x == B.ufr(f, *B.at) for x, f in zip((xa, ya, xb, yb), ("xa", "ya", "xb", "yb"))]))
        p = B.total(lambda: B.tgt[a][B.crd[a][i].pnr])
        B.ens("with the size of the target", B.all_([n == p.n, nx == p.nx, ny == p.ny, sumg == p.sumg]))
        B.ens("with the criteria given", vpar is B.vpar and cpar is B.cpar)
        k = B.ufi("nc", a, b, i)
        B.req(k >= 0)
        r = B.seq(f"cand{a}{b}", {"pnr": "i", "tol": "f", "corr": "f"}, "recarray", n=k)
        B.req(B.forall(0, k, lambda t: B.all_([r[t].pnr == B.ufi("cp", a, b, i, t), r[t].corr == B.ufr("cc", a, b, i, t),
                                               r[t].tol == B.ufr("ct", a, b, i, t)])))
        return r
    return {"epi.epi_mm": B.spec("epi.epi_mm", epi), "find_candidate.find_candidate": B.spec("find_candidate.find_candidate", find)}


@contract("C09", ["correspondences.match_pairs"], loops=_mp_loops, contracts=_mp_contracts, conc=False, opts={"total_s": 300.0, "feas_ms": 40})
def lists_of_few_cameras_hold_the_first_candidates_of_every_target(B):
    _lists_hold(B, B.choice("num_cams", [2, 3]))


@contract("C09", ["correspondences.match_pairs"], loops=_mp_loops, contracts=_mp_contracts, conc=False, opts={"total_s": 300.0, "feas_ms": 40})
def lists_of_four_cameras_hold_the_first_candidates_of_every_target(B):
    _lists_hold(B, 4)


def _lists_hold(B, nc):
    B.nc = nc
    P, F = B.mod("parameters"), B.mod("tracking_frame_buf")
    B.cnts = cnt = [B.int(f"num{c}", 0, None) for c in range(nc)]
    B.lists = d = {}
    for a, b in _pairs(nc):
        d[a, b] = B.seq(f"L{a}{b}", _entry(B), "recarray")
        B.req(B.length(d[a, b]) >= cnt[a])
    B.cpar, B.vpar = P.ControlPar(num_cams=nc), P.VolumePar()
    B.cals = [B.mod("calibration").Calibration() for _ in range(nc)]
    tt = {f: "i" for f in ("pnr", "n", "nx", "ny", "sumg", "tnr")}
    tt.update(x="f", y="f", __cls__=F.Target)
    B.crd = [B.seq(f"crd{c}", {"pnr": "i", "x": "f", "y": "f"}, "recarray") for c in range(nc)]
    B.tgt = [B.seq(f"pix{c}", tt) for c in range(nc)]
    for c in range(nc):
        B.req(B.length(B.crd[c]) >= cnt[c])
        B.req(B.forall(0, cnt[c], lambda i: B.all_([B.crd[c][i].pnr >= 0, B.crd[c][i].pnr < B.length(B.tgt[c])])))
    frm = F.Frame(nc, 1)
    frm.targets, frm.num_targets = B.tgt, cnt
    B.call("correspondences.match_pairs", Lists(d), B.crd, frm, B.vpar, B.cpar, B.cals)
    for a, b in _pairs(nc):
        B.ens_forall(f"candidates of camera {a}'s targets in camera {b}", 0, cnt[a], lambda i: _entry_ok(B, a, b, i))


# ---------------------------------------------------------------- the real code
def _random_lists(B):
    """Small lists filled at random, as the recarray the code uses."""
    C = B.mod("correspondences")
    np = B.np
    nc = B.choice("num_cams", [2, 3, 4, 4])
    cnt = [B.int(f"num{c}", 0 if B.bool(f"few{c}") else 2, 5) for c in range(nc)]
    B.req(max(cnt) > 0)
    L = C.safely_allocate_adjacency_lists(nc, cnt)
    dup = B.bool("several")
    for a in range(nc):
        for b in range(a + 1, nc):
            for i in range(cnt[a]):
                L[a][b][i].p1 = i
                m = min(B.int(f"n{a}{b}{i}", 0, 3), cnt[b]) if dup else min(1, cnt[b])
                perm = sorted(range(cnt[b]), key=lambda t: B.real(f"o{a}{b}{i}{t}", s=(0, 1)) if dup else abs(t - i))
                for j in range(m):
                    L[a][b][i].p2[j] = perm[j]
                    L[a][b][i].corr[j] = B.real(f"c{a}{b}{i}{j}", s=(1, 100))
                    L[a][b][i].dist[j] = B.real(f"d{a}{b}{i}{j}", s=(0.01, 1))
                L[a][b][i].n = m
    return nc, cnt, L


def _scratch_c(B, n):
    s = B.np.recarray((n,), dtype=B.mod("tracking_frame_buf").n_tupel_dtype)
    s.p = 0
    s.corr = 0.0
    return s


def _compare(B, got, want, size, nc):
    B.ens("number of groups", len(got) == min(len(want), size), f"{len(got)} reported, {len(want)} acceptable")
    if len(want) <= size:
        a = sorted((tuple(int(x) for x in r.p[:nc]), float(r.corr)) for r in got)
        b = sorted(want)
        B.ens("groups", [x[0] for x in a] == [x[0] for x in b], f"{a} {b}")
        for x, y in zip(a, b):
            B.ens_eq("score", x[1], y[1], 1e-9)
    else:
        for r in got:
            g = tuple(int(x) for x in r.p[:nc])
            B.ens("from the lists", any(w[0] == g and abs(w[1] - r.corr) < 1e-6 * abs(w[1]) for w in want), f"{g}")


def _links(L, a, b, i):
    e = L[a][b][i]
    return [(int(e.p2[j]), float(e.corr[j]), float(e.dist[j])) for j in range(int(e.n))]


def _accept(B):
    return B.choice("accept", [0.0, 30.0, 100.0, 200.0, 400.0])


@contract("C09", ["correspondences.four_camera_matching"], sym=False, cases=150)
def quadruplets_run(B):
    nc, cnt, L = _random_lists(B)
    B.req(nc == 4)
    acc, size = _accept(B), B.choice("size", [3, 1000, 1000, 1000])
    want = []
    for i in range(cnt[0]):
        for p2, c1, d1 in _links(L, 0, 1, i):
            for p3, c2, d2 in _links(L, 0, 2, i):
                for p4, c3, d3 in _links(L, 0, 3, i):
                    for q3, c4, d4 in _links(L, 1, 2, p2):
                        for q4, c5, d5 in _links(L, 1, 3, p2):
                            for r4, c6, d6 in _links(L, 2, 3, p3):
                                s = (c1 + c2 + c3 + c4 + c5 + c6) / (d1 + d2 + d3 + d4 + d5 + d6)
                                if q3 == p3 and q4 == p4 and r4 == p4 and s > acc:
                                    want.append(((i, p2, p3, p4), s))
    scr = _scratch_c(B, size)
    n = B.call("correspondences.four_camera_matching", L, cnt[0], acc, scr, size)
    _compare(B, scr[:n], want, size, 4)


@contract("C09", ["correspondences.three_camera_matching"], sym=False, cases=250)
def triplets_run(B):
    nc, cnt, L = _random_lists(B)
    B.req(nc > 2)
    acc, size = _accept(B), B.choice("size", [3, 1000, 1000, 1000])
    use = B.np.zeros((nc, 20), dtype=B.np.int32)
    for c in range(nc):
        for i in range(cnt[c]):
            use[c][i] = int(B.real(f"u{c}{i}", s=(0, 1)) > 0.8)
    want = []
    for a, b, c in _triples(nc):
        for i in range(cnt[a]):
            for p2, c1, d1 in _links(L, a, b, i):
                for p3, c2, d2 in _links(L, a, c, i):
                    cl = [x for x in _links(L, b, c, p2) if x[0] == p3]
                    if cl and not (use[a][i] or use[b][p2] or use[c][p3]):
                        s = (c1 + c2 + cl[0][1]) / (d1 + d2 + cl[0][2])
                        g = [-2] * 4
                        g[a], g[b], g[c] = i, p2, p3
                        if s > acc:
                            want.append((tuple(g), s))
    scr = _scratch_c(B, size)
    n = B.call("correspondences.three_camera_matching", L, nc, cnt, acc, scr, size, use)
    _compare(B, scr[:n], want, size, 4)


@contract("C09", ["correspondences.consistent_pair_matching"], sym=False, cases=250)
def pairs_run(B):
    nc, cnt, L = _random_lists(B)
    acc, size = _accept(B), B.choice("size", [3, 1000, 1000, 1000])
    use = B.np.zeros((nc, 20), dtype=B.np.int32)
    for c in range(nc):
        for i in range(cnt[c]):
            use[c][i] = int(B.real(f"u{c}{i}", s=(0, 1)) > 0.8)
    want = []
    for a, b in _pairs(nc):
        for i in range(cnt[a]):
            l = _links(L, a, b, i)
            if len(l) == 1 and not use[a][i] and not use[b][l[0][0]] and l[0][1] / l[0][2] > acc:
                g = [-2] * nc
                g[a], g[b] = i, l[0][0]
                want.append((tuple(g), l[0][1] / l[0][2]))
    scr = _scratch_c(B, size)
    n = B.call("correspondences.consistent_pair_matching", L, nc, cnt, acc, scr, size, use)
    _compare(B, scr[:n], want, size, nc)
