"""C24 -- reference points for calibration are read as the files have them."""
import numpy as np

from pyvc.api import contract

O, S = "orientation.", "sortgrid."


def _dir(B):
    P = B.mod("calibration").Path
    if not B.conc:
        return P("/d")
    import tempfile
    B.tmp = tempfile.TemporaryDirectory()
    return P(B.tmp.name)


def _block(B, d):
    """A block file with any number of points: number and coordinates in each line."""
    B.n = n = B.int("n", 0, None)
    B.text_rows(d / "block", [], n, lambda j: [(B.ufi("id", j), None)] + [(B.ufr(a, j), 3) for a in "xyz"])
    return n


def _near(B, a, b):
    return B.all_([a - b <= 0.00050001, b - a <= 0.00050001])


def _block_loops(B):
    return {O + "read_calblock": {0: B.loop(lambda v, k: [("room", B.length(v.fix) == B.n), ("points so far", B.forall(
        0, k, lambda j: B.all_([_near(B, v.fix[j, a], B.ufr("xyz"[a], j)) for a in range(3)])))])}}


@contract("C24", [O + "read_calblock"], loops=_block_loops, conc=False, opts={"feas_ms": 40})
def a_block_of_any_size(B):
    d = _dir(B)
    n = _block(B, d)
    fix, m = B.call(O + "read_calblock", d / "block")
    B.ens("as many points as lines", B.all_([m == n, B.length(fix) == n]))
    B.ens_forall("the coordinates of its line", 0, n, lambda j: B.all_([_near(B, fix[j, a], B.ufr("xyz"[a], j)) for a in range(3)]))


def _put(B, path, text):
    with (path.open("w") if not B.conc else open(path, "w")) as f:
        f.write(text)


def _sheet(B, d):
    """Four different numbers of points for each camera, on one line or one on each line."""
    B.cam = cam = B.choice("camera", [0, 1, 2, 3])
    sep = B.choice("layout", [" ", "\n"])
    nr = [[B.int(f"nr{c}_{i}", s=(-1, 9)) for i in range(4)] for c in range(4)]
    B.nr = nr[cam]
    for i in range(4):
        for k in range(i):
            B.req(B.nr[i] != B.nr[k])
    _put(B, d / "man_ori", "\n".join(sep.join(f"{x}" for x in row) for row in nr) + "\n")


def _found(B, i, k):
    return B.all_([1 <= B.nr[i], B.nr[i] <= k])


def _pick_loops(B):
    def inv(v, k):
        fs = [("counted", v.num_match == sum(B.ite(_found(B, i, k), 1, 0) for i in range(4)))]
        for i in range(4):
            at = B.ite(_found(B, i, k), B.nr[i] - 1, 0)
            fs.append((f"point {i}", B.all_([B.implies(_found(B, i, k), v.fix4[i, a] == B.fix[at, a]) for a in range(3)])))
        return fs
    return {O + "read_man_ori_fix": {0: B.loop(inv)}}


def _pick_contracts(B):
    def block(filename):
        B.ens("the block asked for", str(filename) == str(B.path))
        return B.fix, B.n
    return {O + "read_calblock": B.spec(O + "read_calblock", block)}


@contract("C24", [O + "read_man_ori_fix"], loops=_pick_loops, contracts=_pick_contracts, conc=False, opts={"merge": True})
def the_four_points_asked_for(B):
    d = _dir(B)
    _sheet(B, d)
    B.path = d / "block"
    B.n = n = B.int("n", 0, None)
    B.fix = fix = B.seq("fix", ("vec", 3, "f"), "ndarray", n=n)
    got = B.call(O + "read_man_ori_fix", B.path, d / "man_ori", B.cam)
    all4 = B.all_([_found(B, i, n) for i in range(4)] + [n >= 4])
    if got is None:
        B.ens("none only if a point is missing", B.not_(all4))
    else:
        B.ens("a missing point is told", all4)
        for i in range(4):
            B.ens(f"point {i}", B.all_([got[i, a] == fix[B.nr[i] - 1, a] for a in range(3)]))


@contract("C24", [O + "read_man_ori_fix", O + "read_calblock"], sym=False, cases=150, jit=False)
def picked_from_real_files(B):
    d = _dir(B)
    n = B.choice("n", [0, 3, 4, 5, 8])
    pts = [[B.int(f"id{j}", s=(0, 999))] + [B.real(f"{a}{j}", s=(-300, 300)) for a in "xyz"] for j in range(n)]
    _put(B, d / "block", "".join(f"{p[0]} {p[1]:.3f} {p[2]:.3f} {p[3]:.3f}\n" for p in pts))
    end = B.choice("ending", [0, 1])
    fix, m = B.call(O + "read_calblock", d / "block")
    B.ens("as many points as lines", m == n and len(fix) == n)
    B.ens("the coordinates of its line", all(abs(fix[j][a] - pts[j][a + 1]) <= 0.00050001 for j in range(n) for a in range(3)))
    _sheet(B, d)
    if end:
        with open(d / "man_ori", "a") as f:
            f.write("\n0 0 0 0\n")
    got = B.call(O + "read_man_ori_fix", d / "block", d / "man_ori", B.cam)
    all4 = n >= 4 and all(1 <= x <= n for x in B.nr)
    B.ens("none if and only if a point is missing", (got is None) == (not all4))
    if got is not None:
        B.ens("the points asked for, in their order", all(
            abs(got[i][a] - pts[B.nr[i] - 1][a + 1]) <= 0.00050001 for i in range(4) for a in range(3)))


@contract("C24", [S + "read_calblock"], sym=False, cases=150, jit=False)
def a_block_with_numbers(B):
    """The block of sortgrid keeps the numbers of the points; what cannot be read is an empty block."""
    d = _dir(B)
    n = B.choice("n", [0, 1, 2, 3, 7])
    pts = [[B.int(f"id{j}", s=(0, 999))] + [B.real(f"{a}{j}", s=(-300, 300)) for a in "xyz"] for j in range(n)]
    lines = [f"{p[0]} {p[1]:.3f}   {p[2]:.3f} {p[3]:.3f}" for p in pts]
    what = B.choice("file", ["good", "missing", "no number", "too short", "empty line"])
    bad = {"no number": "1 2.0 x 3.0", "too short": "1 2.0 3.0", "empty line": ""}.get(what)
    at = B.int("line", s=(0, 7)) % (n + 1)
    if bad is not None:
        lines.insert(at, bad)
    if what != "missing":
        _put(B, d / "block", "\n".join(lines) + ("\n" if lines else ""))
    got = B.call(S + "read_calblock", d / "block")
    want = pts if what == "good" else []
    B.ens("an array of points", isinstance(got, np.recarray) and set(got.dtype.names) == {"pnr", "x", "y", "z"})
    B.ens("as many points as lines, none from a bad file", got.size == len(want))
    flat = got.reshape(-1)
    for j, p in enumerate(want):
        B.ens(f"point {j}", int(flat["pnr"][j]) == p[0] and all(abs(flat[a][j] - p[i + 1]) <= 0.00050001 for i, a in enumerate("xyz")))


@contract("C24", [S + "read_sortgrid_par"])
def the_radius_for_sorting(B):
    d = _dir(B)
    there = B.choice("file", [0, 1])
    eps = B.int("eps", 0, 10 ** 6, s=(0, 500))
    if there:
        _put(B, d / "sortgrid.par", f"{eps}\n")
    got = B.call(S + "read_sortgrid_par", d / "sortgrid.par")
    B.ens("the number in the file, or the default", got == (eps if there else 25))
