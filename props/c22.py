"""C22 -- the dumbbell measure weighs how well rays meet against how well lengths are met."""
from pyvc.api import contract

O = "orientation."
V = "xyz"


def _contracts(B):
    def one(targ, num_cams, mm, cals):
        B.ens("all cameras and the media handed over", B.all_([num_cams == B.nc, mm is B.mm, cals is B.cals]))
        xs = [targ[c, m] for c in range(B.nc) for m in (0, 1)]
        return B.uf("gap", *xs), B.np.array([B.uf("pos_" + a, *xs) for a in V], dtype=B.np.float64)
    return {O + "point_position": B.spec(O + "point_position", one)}


def _point(B, j):
    xs = B.total(lambda: [B.T0[j, c, m] for c in range(B.nc) for m in (0, 1)])
    return B.uf("gap", *xs), [B.uf("pos_" + a, *xs) for a in V]


def _error(B, i, j):
    """How far the distance of points i and j is from the dumbbell's length: 1 - the smaller over the larger of the two."""
    p, q = _point(B, i)[1], _point(B, j)[1]
    d = B.norm(*[p[a] - q[a] for a in range(3)])
    return 1 - B.ite(d > B.L, B.L, d) / B.ite(d > B.L, d, B.L)


def _loops(B):
    def inv(v, k):
        # gaps(k), errors(k): the sums over the points (the dumbbells) before k
        k0, odd = k - 1, B.any_([k % 2 == 1])
        B.req(B.ufr("gaps", k + 1) == B.ufr("gaps", k) + _point(B, k)[0])
        B.req(B.ufr("errors", k + 1) == B.ufr("errors", k) + B.ite(odd, _error(B, k0, k), 0.0))
        last = _point(B, k0)[1]
        return [("ray distances so far", v.dtot == B.ufr("gaps", k)), ("length errors so far", v.len_err_tot == B.ufr("errors", k)),
                ("the first end", B.implies(odd, B.all_([v.res[0][a] == last[a] for a in range(3)])))]
    return {O + "weighted_dumbbell_precision": {0: B.loop(inv)}}


@contract("C22", [O + "weighted_dumbbell_precision", O + "dumbbell_target_func"], contracts=_contracts, loops=_loops, conc=False,
          opts={"feas_ms": 40, "length_uf": True}, note="any number of dumbbells; 1 to 4 cameras; sums defined by recursion over the points")
def any_number_of_dumbbells(B):
    B.nc = B.choice("cams", [1, 2, 3, 4])
    t = B.seq("t", ("vec", B.nc, ("vec", 2, "f")), "ndarray")
    B.T0 = t.copy()
    n = B.length(t)
    B.req(n >= 2)
    B.cals = [B.mod("calibration").Calibration() for _ in range(B.nc)]
    cpar = B.mod("parameters").ControlPar(num_cams=B.nc)
    B.mm = cpar.mm
    B.L, w = B.pos("L"), B.real("w")
    B.req(B.all_([B.ufr("gaps", 0) == 0, B.ufr("errors", 0) == 0]))
    if B.choice("call", [0, 1]):
        r = B.call(O + "weighted_dumbbell_precision", t, B.mm, B.cals, B.L, w)
    else:
        r = B.call(O + "dumbbell_target_func", t, cpar, B.cals, B.L, w)
    B.ens("mean ray distance, and the mean length error weighed", r == B.ufr("gaps", n) / n + w * B.ufr("errors", n) / (0.5 * n))
    B.ens_forall("detections left alone", 0, n, lambda j: B.all_([t[j, c, m] == B.T0[j, c, m] for c in range(B.nc) for m in (0, 1)]))


@contract("C22", [O + "weighted_dumbbell_precision"], contracts=_contracts, bounded="2 and 4 points, 2 cameras", conc=False)
def few_dumbbells(B):
    B.nc = 2
    n = B.choice("n", [2, 4])
    t = B.np.array([[[B.real(f"t{j}{c}{m}") for m in range(2)] for c in range(2)] for j in range(n)], dtype=B.np.float64)
    B.T0 = t.copy()
    B.cals = [B.mod("calibration").Calibration() for _ in range(2)]
    B.mm = B.mod("parameters").MultimediaPar()
    B.L, w = B.pos("L"), B.real("w")
    r = B.call(O + "weighted_dumbbell_precision", t, B.mm, B.cals, B.L, w)
    gaps, errs = 0.0, 0.0
    for j in range(n):
        gaps = gaps + _point(B, j)[0]
    for j in range(0, n, 2):
        errs = errs + _error(B, j, j + 1)
    B.ens("the measure", r == gaps / n + w * errs / (0.5 * n))


@contract("C22", [O + "weighted_dumbbell_precision", O + "dumbbell_target_func"], sym=False, cases=120)
def dumbbells_run(B):
    """Against points triangulated one by one."""
    from .c07 import _scene
    np = B.np
    q, c0, mm = _scene(B)
    nc, m = B.int("cams", 2, 4), B.int("dumbbells", 1, 5)
    cals = []
    for i in range(nc):
        c = B.mod("calibration").Calibration()
        c.set_pos(np.array([B.real(f"cx{i}", s=(-80, 80)), B.real(f"cy{i}", s=(-50, 50)), B.real(f"cz{i}", s=(80, 200))]))
        c.glass_par = np.array([0.0, 0.0, 40.0])
        c.int_par.cc = 80.0
        cals.append(c)
    un = B.mod("constants").COORD_UNUSED
    t = np.array([[B.vec(f"t{j},{i}", 2, s=(-5, 5)) for i in range(nc)] for j in range(2 * m)])
    if nc > 2:
        for j in range(2 * m):
            if B.bool(f"hidden{j}"):
                t[j, B.int(f"by{j}", 0, nc - 1)] = un
    L, w = B.real("L", s=(0.5, 60)), B.real("w", s=(0, 5))
    ds, ps = [], []
    for j in range(2 * m):
        d, p = B.call(O + "point_position", t[j], nc, mm, cals)
        ds.append(d)
        ps.append(p)
    if not np.isfinite(np.array(ps)).all():
        return
    err = 0.0
    for j in range(m):
        dist = float(np.sqrt(((ps[2 * j] - ps[2 * j + 1]) ** 2).sum()))
        err += 1 - min(L, dist) / max(L, dist)
    want = sum(ds) / (2 * m) + w * err / m
    t0 = t.copy()
    cpar = B.mod("parameters").ControlPar(num_cams=nc)
    cpar.mm = mm
    B.ens_eq("the measure", B.call(O + "weighted_dumbbell_precision", t, mm, cals, L, w), want, 1e-6)
    B.ens_eq("the target function", B.call(O + "dumbbell_target_func", t, cpar, cals, L, w), want, 1e-6)
    B.ens("detections left alone", bool((t == t0).all()))
