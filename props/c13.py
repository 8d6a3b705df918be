"""C13 -- prediction, motion measures and the ranking of candidates."""
from pyvc.api import contract

D = range(3)
FOUND = {"ftnr": "i", "freq": "i", "whichcam": ("vec", 4, "i")}


@contract("C13", ["track.search_volume_center_moving", "track.predict"], cases=100, jit=True)
def prediction_is_the_linear_extrapolation(B):
    a, b = B.vec("a", 3), B.vec("b", 3)
    a0, b0 = B.snap(a), B.snap(b)
    r = B.call("track.search_volume_center_moving", a, b)
    for d in D:
        B.ens_eq(f"3D [{d}]", r[d], 2 * b0[d] - a0[d])
    p, q, out = B.vec("p", 2), B.vec("q", 2), B.vec("o", 2)
    p0, q0 = B.snap(p), B.snap(q)
    B.call("track.predict", p, q, out)
    for d in range(2):
        B.ens_eq(f"2D [{d}]", out[d], 2 * q0[d] - p0[d])
    B.ens_vec("positions left alone", B.np.concatenate([a, b, p, q]), B.np.concatenate([a0, b0, p0, q0]))


@contract("C13", ["vec_utils.vec_diff_norm", "vec_utils.vec_norm", "vec_utils.vec_subt", "vec_utils.vec_copy", "vec_utils.norm"],
          cases=100, jit=True)
def distances_are_euclidean(B):
    a, b = B.vec("a", 3), B.vec("b", 3)
    a0, b0 = B.snap(a), B.snap(b)
    want = sum([(a0[d] - b0[d]) ** 2 for d in D], 0)
    r = B.call("vec_utils.vec_diff_norm", a, b)
    B.ens("not negative", r >= 0)
    B.ens_eq("distance", r * r, want)
    n = B.call("vec_utils.vec_norm", a)
    B.ens("length not negative", n >= 0)
    B.ens_eq("length", n * n, sum([a0[d] ** 2 for d in D], 0))
    m = B.call("vec_utils.norm", a0[0], a0[1], a0[2])
    B.ens_eq("length of three numbers", m, n)
    s = B.call("vec_utils.vec_subt", a, b)
    for d in D:
        B.ens_eq(f"difference [{d}]", s[d], a0[d] - b0[d])
    c = B.call("vec_utils.vec_copy", a)
    B.ens_vec("copy", c, a0)
    c[0] = c[0] + 1
    B.ens_vec("a copy of its own", a, a0)


@contract("C13", ["track.pos3d_in_bounds"], cases=200)
def a_displacement_is_accepted_strictly_between_the_limits(B):
    tp = B.mod("parameters").TrackPar()
    lim = {}
    for i, a in enumerate("xyz"):
        for m in ("min", "max"):
            lim[a, m] = B.real(f"dv{a}{m}", s=((-5, 0) if m == "min" else (0, 5)))
            setattr(tp, f"dv{a}{m}", lim[a, m])
    p = B.vec("p", 3, s=(-6, 6))
    r = B.call("track.pos3d_in_bounds", p, B.mod("parameters").convert_track_par_to_tuple(tp))
    B.ens("strictly between", B.iff(r, B.all_([B.all_([lim[a, "min"] < p[i], p[i] < lim[a, "max"]]) for i, a in enumerate("xyz")])))


def _angle(B):
    S, P, C = B.vec("s", 3), B.vec("p", 3), B.vec("c", 3)
    kind = B.choice("kind", ["any", "uniform", "reversal", "along", "rest"]) if B.conc else "any"
    if kind == "uniform":
        C = B.snap(P)
    if kind == "reversal":
        C = 2 * S - P
    if kind == "along":
        C = S + B.real("f", s=(-3, 3)) * (P - S)
    if kind == "rest":
        C = B.snap(S)
        if B.bool("both"):
            P = B.snap(S)
    return S, P, C


@contract("C13", ["track.angle_acc"], cases=500)
def turning_angle_and_acceleration(B):
    S, P, C = _angle(B)
    old = [B.snap(x) for x in (S, P, C)]
    ang, acc = B.call("track.angle_acc", S, P, C)
    v0, v1 = [P[d] - S[d] for d in D], [C[d] - S[d] for d in D]
    if B.conc:
        B.ens("numbers", bool(B.np.isfinite(ang) and B.np.isfinite(acc)), f"{ang} {acc}")
    B.ens("acceleration is not negative", acc >= 0)
    B.ens_eq("acceleration is the deviation from the prediction", acc * acc, sum([(v0[d] - v1[d]) ** 2 for d in D], 0))
    B.ens("within range", B.all_([ang >= 0, ang <= 200]))
    same = B.all_([v0[d] == v1[d] for d in D])
    back = B.all_([v0[d] == -v1[d] for d in D])
    B.ens("uniform motion: no turn", B.implies(same, B.all_([ang == 0, acc == 0])))
    B.ens("reversal: half a turn", B.implies(B.all_([back, B.not_(same)]), ang == 200))
    for x, y in zip((S, P, C), old):
        B.ens_vec("positions left alone", x, y)


@contract("C13", ["track.angle_acc"], cases=300, opts={"sqrt_alias": True})
def the_turning_angle_is_the_angle_of_the_velocities(B):
    S, P, C = _angle(B)
    v0, v1 = [P[d] - S[d] for d in D], [C[d] - S[d] for d in D]
    ang, acc = B.call("track.angle_acc", S, P, C)
    # cos(angle) |v0| |v1| = v0.v1, for any two directions
    a, b = B.norm(*v0), B.norm(*v1)
    B.req(a > 0)
    B.req(b > 0)
    if B.conc:
        B.req(a > 1e-3 and b > 1e-3)
    dot = sum([v0[d] * v1[d] for d in D], 0)
    cross = [v0[i] * v1[j] - v0[j] * v1[i] for i, j in ((0, 1), (1, 2), (2, 0))]
    B.abs_le("Cauchy-Schwarz", dot, a * b, cross)
    B.lemma("directions", a * b > 0)
    B.lemma("cosine", B.eq(B.np.cos(ang / (200.0 / B.np.pi)), dot / (a * b), 1e-6))
    B.ens_eq("angle", B.np.cos(ang / (200.0 / B.np.pi)) * (a * b), dot, 1e-6)


# ---------------------------------------------------------------- ranking
def _block(B, ft, v, c):
    return B.any_([ft[4 * c + m] == v for m in range(4)])


def _votes(B, v):
    n = 0
    for c in range(B.nc):
        n = n + B.ite(_block(B, B.ft, v, c), 1, 0)
    return n


def _same_particles(B, F, counted):
    """Whatever particle V one looks at, its entries are those of the input, with its votes."""
    N, V = B.N, B.V
    return [("votes", B.forall(0, N, lambda i: B.implies(F[i].ftnr == V, F[i].freq == B.n))),
            ("no votes for nobody", B.forall(0, N, lambda i: B.implies(F[i].ftnr == -1, F[i].freq == 0))),
            ("no other particles", B.implies(B.any_([F[i].ftnr == V for i in range(N)]), B.n > 0)),
            ("not negative", B.forall(0, N, lambda i: F[i].freq >= 0))]


def _sort_inv(B, i, j, at):
    """The first i-1 are the largest, in order; from j on the one at j is the largest."""
    F, N = B.F, B.N
    out = [("front is sorted", B.forall(0, i - 1, lambda a: B.forall(0, N, lambda b: B.any_([b <= a, F[a].freq >= F[b].freq]))))]
    if at:
        out.append(("largest rises", B.forall(j, N, lambda b: F[j].freq >= F[b].freq)))
    return out


def _rank_loops(B):
    def total(f):
        return lambda v, k: B.total(lambda: f(v, k))

    def seen(v, k):
        F, N = B.F, B.N
        return [("particles", B.forall(0, N, lambda i: B.all_([F[i].ftnr == B.f0[i].ftnr, F[i].freq == 0]))),
                ("votes of each", B.forall(0, k, lambda i: B.all_([B.all_([B.any_([F[i].whichcam[c] == 1, F[i].whichcam[c] == 0]),
                    B.iff(F[i].whichcam[c] == 1, _block(B, B.ft, F[i].ftnr, c))]) for c in range(B.nc)]))),
                ("not yet", B.forall(k, N, lambda i: B.all_([B.any_([F[i].whichcam[c] == 1, F[i].whichcam[c] == 0]) for c in range(B.nc)] + [B.implies(F[i].whichcam[c] == 1, _block(B, B.ft, F[i].ftnr, c))
                                                              for c in range(B.nc)])))]

    def count(v, k):
        F, N = B.F, B.N
        return [("particles", B.forall(0, N, lambda i: F[i].ftnr == B.f0[i].ftnr)),
                ("marks", B.forall(0, N, lambda i: B.all_([B.iff(F[i].whichcam[c] == 1, _block(B, B.ft, F[i].ftnr, c)) for c in range(B.nc)]))),
                ("counted", B.forall(0, k, lambda i: B.all_([B.implies(F[i].ftnr == B.V, F[i].freq == B.n),
                                                              B.implies(F[i].ftnr == -1, F[i].freq == 0), F[i].freq >= 0]))),
                ("not yet", B.forall(k, N, lambda i: F[i].freq == 0))]

    def kept1(F):
        return _same_particles(B, F, True) + [("all still there", B.implies(B.n > 0, B.any_([F[i].ftnr == B.V for i in range(B.N)])))]

    def sort1(v, k):
        return _sort_inv(B, k, None, False) + kept1(B.F)

    def rise1(v, k):
        return _sort_inv(B, v.i, k, True) + kept1(B.F)

    def few(F):
        """What remains: particles with two votes, or a single one with one."""
        N = B.N
        return _same_particles(B, F, True) + [
            ("all that matter still there", B.implies(B.n >= 2, B.any_([F[i].ftnr == B.V for i in range(N)])))]

    def alone(F):
        N = B.N
        return [("a single vote only alone", B.forall(0, N, lambda a: B.forall(0, N, lambda b: B.any_(
            [a == b, F[a].freq != 1, F[b].freq == 0]))))]

    def each_once(F, k, j):
        N = B.N
        out = [("each once", B.forall(0, k, lambda a: B.forall(0, N, lambda b: B.any_(
            [b <= a, F[a].ftnr != F[b].ftnr, B.all_([F[b].ftnr == -1, F[b].freq == 0])]))))]
        if j is not None:
            out.append(("each once so far", B.forall(k + 1, j, lambda b: B.any_(
                [F[k].ftnr != F[b].ftnr, B.all_([F[b].ftnr == -1, F[b].freq == 0])]))))
        return out

    def weak(F, i, j):
        """The entries with few votes behind the first are dropped in the first round."""
        N = B.N
        hi = B.ite(i == 0, j if j is not None else 1, N)
        return [("the weak dropped", B.forall(1, hi, lambda b: B.any_([F[b].freq >= 2, B.all_([F[b].freq == 0, F[b].ftnr == -1])]))),
                ("the first has most votes", B.forall(0, N, lambda b: F[0].freq >= F[b].freq))]

    def prune(v, k):
        return few(B.F) + each_once(B.F, k, None) + weak(B.F, k, None)

    def drop(v, k):
        return few(B.F) + each_once(B.F, v.i, k) + weak(B.F, v.i, k)

    def distinct(F):
        N = B.N
        return [("each once", B.forall(0, N, lambda a: B.forall(0, N, lambda b: B.any_(
            [a == b, F[a].ftnr != F[b].ftnr, F[a].ftnr == -1]))))]

    def sort2(v, k):
        return _sort_inv(B, k, None, False) + few(B.F) + alone(B.F) + distinct(B.F)

    def rise2(v, k):
        return _sort_inv(B, v.i, k, True) + few(B.F) + alone(B.F) + distinct(B.F)
    return {"track.sort_candidates_by_freq": {i: B.loop(total(f), force=True) for i, f in (
        (0, seen), (3, count), (5, sort1), (6, rise1), (7, prune), (8, drop), (9, sort2), (10, rise2))}}


RANK = dict(prop="C13", fns=["track.sort_candidates_by_freq"], loops=_rank_loops, conc=False,
            opts={"merge": True, "feas_ms": 40, "total_s": 230})


def _rank(B, nc):
    B.nc, B.N = nc, 4 * nc
    B.F = F = B.seq("found", FOUND, "recarray", n=B.N)
    B.V = B.int("V", None, None)            # any particle
    B.req(B.V != -1)
    B.f0 = F.copy()
    B.ft = [B.f0[i].ftnr for i in range(B.N)]
    B.n = _votes(B, B.V)
    for i in range(B.N):
        B.req(F[i].freq == 0)
        for c in range(nc):
            w = F[i].whichcam[c]
            B.req(B.any_([w == 0, w == 1]))
            B.req(B.implies(w == 1, _block(B, B.ft, F[i].ftnr, c)))     # as the search left it
    k = B.call("track.sort_candidates_by_freq", F, nc)
    num = 0
    for i in range(B.N):
        num = num + B.ite(F[i].freq > 0, 1, 0)
        e = F[i].ftnr == B.V
        B.ens(f"entry {i}: the number of cameras that voted for it", B.implies(e, F[i].freq == B.n))
        B.ens(f"entry {i}: candidates of the input only", B.implies(e, B.n > 0))
        B.ens(f"entry {i}: empty ones are marked", B.all_([B.implies(F[i].freq == 0, F[i].ftnr != B.V), B.implies(F[i].ftnr == -1, F[i].freq == 0)]))
        if i:
            B.ens(f"entry {i}: descending", F[i - 1].freq >= F[i].freq)
        for j in range(i):
            B.ens(f"entries {i}, {j}: each once", B.any_([F[i].ftnr != F[j].ftnr, F[i].ftnr == -1]))
        if i:
            B.ens(f"entry {i}: single votes do not count beside others", F[i].freq != 1)
    B.ens("number of candidates", k == num)
    B.ens("nobody with two votes is left out", B.implies(B.n >= 2, B.any_([F[i].ftnr == B.V for i in range(B.N)])))


@contract(**RANK)
def ranking_of_one_camera(B):
    _rank(B, 1)


@contract(**RANK)
def ranking_of_two_cameras(B):
    _rank(B, 2)


@contract(**RANK)
def ranking_of_three_cameras(B):
    _rank(B, 3)


@contract(**RANK)
def ranking_of_four_cameras(B):
    _rank(B, 4)


@contract("C13", ["track.sort_candidates_by_freq", "track.reset_foundpix_array", "track.copy_foundpix_array"], sym=False, cases=300)
def ranking_run(B):
    R, np = B.mod("track"), B.np
    nc = B.choice("num_cams", [1, 2, 3, 4])
    N = 4 * nc
    src = np.zeros(N + 2, dtype=R.Foundpix_dtype).view(np.recarray)
    for i in range(N + 2):
        src[i].ftnr, src[i].freq, src[i].whichcam = 7, 3, [1, 1, 1, 1]
    R.reset_foundpix_array(src, N, nc)
    B.ens("reset", all(int(x.ftnr) == -1 and int(x.freq) == 0 and all(w == 0 for w in x.whichcam[:nc]) for x in src[:N]) and
          all(int(x.ftnr) == 7 and int(x.freq) == 3 for x in src[N:]))
    cams = []
    m = B.choice("particles", [1, 2, 4, 9])
    for c in range(nc):
        k = B.int(f"k{c}", 0, min(4, m))
        ps = sorted(range(m), key=lambda t: B.real(f"o{c}{t}", s=(0, 1)))[:k]
        cams.append(ps)
        for j, t in enumerate(ps):
            src[4 * c + j].ftnr = t
            src[4 * c + j].whichcam[c] = 1
    dst = np.zeros(N, dtype=R.Foundpix_dtype).view(np.recarray)
    R.copy_foundpix_array(dst, src, N, nc)
    B.ens("copy", all(dst[i].ftnr == src[i].ftnr and dst[i].freq == src[i].freq and (dst[i].whichcam[:nc] == src[i].whichcam[:nc]).all()
                      for i in range(N)))
    k = B.call("track.sort_candidates_by_freq", dst, nc)
    votes = {t: sum(t in ps for ps in cams) for ps in cams for t in ps}
    got = [(int(x.ftnr), int(x.freq)) for x in dst]
    B.ens("number", k == sum(f > 0 for _, f in got), f"{got}")
    B.ens("votes", all(votes.get(t) == f for t, f in got if f), f"{got} {votes}")
    B.ens("empty", all(t == -1 for t, f in got if not f))
    B.ens("descending", all(a[1] >= b[1] for a, b in zip(got, got[1:])))
    B.ens("once", len({t for t, f in got if f}) == k)
    B.ens("all with two votes", all((t, v) in got for t, v in votes.items() if v > 1), f"{got} {votes}")
    B.ens("somebody", k > 0 or not votes)
