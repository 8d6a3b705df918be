"""C06 -- the multimedia look-up table."""
from pyvc.api import contract
from .common import calstate, unchanged


def _table(B, nmax=9):
    nr, nz = B.int("nr", 0, None, s=(0, nmax)), B.int("nz", 0, None, s=(0, nmax))
    data = B.seq("data", "f", "ndarray", n=nr * nz, samp={"": (0.5, 2.0)})
    return nr, nz, data


def _cell(B, data, nz, i, j):
    return data[i * nz + j]


@contract("C06", ["multimed.fast_get_mmf_from_mmlut"], cases=600, opts={"prove_ms": 15000})
def inside_the_table_the_value_is_interpolated(B):
    nr, nz, data = _table(B)
    rw = B.int("rw", 1, None, s=(1, 4))
    o, pos = B.vec("o", 3, s=(-5, 5)), B.vec("pos", 3, s=(-6, 20))
    R = B.sqrt((pos[0] - o[0]) * (pos[0] - o[0]) + (pos[1] - o[1]) * (pos[1] - o[1]))
    if B.conc and B.bool("aim"):
        B.req(nr > 1 and nz > 1)
        t, R = B.real("dir", s=(0, 6.3)), rw * B.real("R", s=(0, nr - 1.001))
        pos = B.np.array([o[0] + R * B.np.cos(t), o[1] + R * B.np.sin(t), o[2] + rw * B.real("z", s=(0, nz - 1.001))])
    # the cell (i, j) and the place (a, b) in it
    x, y = R / rw, (pos[2] - o[2]) / rw
    B.lemma("radius", x >= 0)
    i, j = B.floor(x), B.floor(y)
    a, b = x - i, y - j
    B.req(B.all_([y >= 0, i < nr - 1, j < nz - 1]))
    r = B.call("multimed.fast_get_mmf_from_mmlut", rw, o, data, nz, nr, pos)
    want = ((1 - a) * (1 - b) * _cell(B, data, nz, i, j) + (1 - a) * b * _cell(B, data, nz, i, j + 1)
            + a * (1 - b) * _cell(B, data, nz, i + 1, j) + a * b * _cell(B, data, nz, i + 1, j + 1))
    B.ens_eq("bilinear interpolation of the four nodes of the cell", r, want, 1e-6)


@contract("C06", ["multimed.fast_get_mmf_from_mmlut"], cases=600, opts={"prove_ms": 15000})
def outside_the_table_there_is_no_value(B):
    """For every table size and query: no read outside the table (bounds obligations) and
    the no-value marker beyond each of the three borders."""
    nr, nz, data = _table(B)
    rw = B.int("rw", 1, None, s=(1, 4))
    o, pos = B.vec("o", 3, s=(-5, 5)), B.vec("pos", 3, s=(-25, 25))
    dz = pos[2] - o[2]
    R2 = (pos[0] - o[0]) * (pos[0] - o[0]) + (pos[1] - o[1]) * (pos[1] - o[1])
    R = B.sqrt(R2)
    side = B.choice("side", ["below", "above", "beyond"])
    if side == "below":
        B.req(dz < 0)
    elif side == "above":
        B.req(dz > (nz - 1) * rw)
    else:
        B.req(R > (nr - 1) * rw)
    r = B.call("multimed.fast_get_mmf_from_mmlut", rw, o, data, nz, nr, pos)
    B.ens("no-value marker", r == 0.0)


@contract("C06", ["multimed.fast_get_mmf_from_mmlut"], cases=600, opts={"prove_ms": 15000})
def no_query_reads_outside_the_table(B):
    nr, nz, data = _table(B)
    rw = B.int("rw", 1, None, s=(1, 4))
    o, pos = B.vec("o", 3, s=(-5, 5)), B.vec("pos", 3, s=(-25, 25))
    if B.conc and B.bool("node"):
        pos = B.np.array([o[0] + rw * B.int("ni", -1, 9), o[1], o[2] + rw * B.int("nj", -2, 9)])
    r = B.call("multimed.fast_get_mmf_from_mmlut", rw, o, data, nz, nr, pos)
    B.ens("a number", r == r)


@contract("C06", ["multimed.get_mmf_from_mmlut"], contracts=lambda B: {
    "multimed.fast_get_mmf_from_mmlut": B.pure("multimed.fast_get_mmf_from_mmlut", "f")}, cases=100)
def the_cameras_own_table_is_read(B):
    c = B.mod("calibration").Calibration()
    nr, nz = B.choice("nr", [2, 3, 4]), B.choice("nz", [2, 3, 5])
    c.mmlut.nr, c.mmlut.nz, c.mmlut.rw = nr, nz, 2
    c.mmlut.origin = B.vec("o", 3)
    rows = [[B.real(f"d{i},{j}", s=(0.5, 2)) for j in range(nz)] for i in range(nr)]
    c.mmlut_data = B.np.array(rows, dtype=B.np.float64)
    s0 = calstate(c)
    pos = B.vec("pos", 3, s=(-6, 12))
    r = B.call("multimed.get_mmf_from_mmlut", c, pos)
    flat = B.np.array([x for row in rows for x in row], dtype=B.np.float64)
    w = B.call("multimed.fast_get_mmf_from_mmlut", c.mmlut.rw, c.mmlut.origin, flat, c.mmlut.nz, c.mmlut.nr, pos)
    B.ens_eq("value", r, w)
    unchanged(B, "query", s0, calstate(c))
    for i in range(nr):
        for j in range(nz):
            B.ens("table left alone", c.mmlut_data[i, j] == rows[i][j])


def _setup(B, small=True):
    P = B.mod("parameters")
    c = B.mod("calibration").Calibration()
    c.set_pos(B.np.array([B.real("x0", s=(-20, 20)), B.real("y0", s=(-20, 20)), B.real("z0", s=(80, 120))]))
    c.set_angles(B.vec("ang", 3, s=(-0.3, 0.3)))
    c.int_par.xh, c.int_par.yh, c.int_par.cc = B.real("xh", s=(-1, 1)), B.real("yh", s=(-1, 1)), 60.0
    c.glass_par = B.np.array([B.real("g0", s=(-5, 5)), B.real("g1", s=(-5, 5)), B.real("g2", s=(20, 40))])
    mm = P.MultimediaPar(nlay=1, n1=1.0, n2=[B.real("n2", s=(1.2, 1.6))], n3=B.real("n3", s=(1.1, 1.5)), d=[B.real("d", s=(1, 8))])
    cpar = P.ControlPar(num_cams=1)
    cpar.imx, cpar.imy, cpar.pix_x, cpar.pix_y, cpar.mm = 200, 160, 0.02, 0.02, mm
    v = P.VolumePar()
    z = B.real("z", s=(-6, 0))
    v.z_min_lay, v.z_max_lay = [z, z], [z + 5, z + 5]
    return c, cpar, v


@contract("C06", ["multimed.init_mmlut", "multimed.get_mmf_from_mmlut"], sym=False, cases=12, jit=False)
def the_table_holds_the_directly_computed_factors(B):
    """Also when the table is made a second time for another volume, and when a camera with
    a table is used for projecting: the same image coordinates up to the interpolation."""
    np = B.np
    M = B.mod("multimed")
    C = B.mod("calibration")
    c, cpar, v = _setup(B)
    if B.bool("twice"):
        M.init_mmlut(v, cpar, c)
        dz = B.real("dz", s=(3, 9))
        v.z_min_lay = [a - dz for a in v.z_min_lay]
        v.z_max_lay = [a + dz for a in v.z_max_lay]
    c = B.call("multimed.init_mmlut", v, cpar, c)
    nr, nz, rw, o = int(c.mmlut.nr), int(c.mmlut.nz), int(c.mmlut.rw), np.array(c.mmlut.origin)
    B.ens("table size", c.mmlut_data.shape == (nr, nz))
    t = C.Calibration()
    q = np.array([0.0, 0.0, 0.0])
    _, _, _, t.ext_par.z0 = M.trans_cam_point(c.ext_par, cpar.mm, c.glass_par, q)
    for k in range(10):
        i, j = B.int(f"i{k}", 0, None, s=(0, nr - 1)), B.int(f"j{k}", 0, None, s=(0, nz - 1))
        if i > nr - 1 or j > nz - 1:
            raise_discard(B)
        p = o + np.array([i * rw, 0.0, j * rw])
        direct = M.multimed_r_nlay(t, cpar.mm, p)
        B.ens("node holds the directly computed factor", abs(c.mmlut_data[i, j] - direct) < 1e-9)
        if i < nr - 1 and j < nz - 1:
            B.ens("query at a node", abs(M.get_mmf_from_mmlut(c, p) - direct) < 1e-9)


def raise_discard(B):
    B.req(False)


@contract("C06", ["multimed.init_mmlut", "imgcoord.flat_image_coord"], sym=False, cases=12, jit=False)
def a_table_does_not_change_the_projection(B):
    np = B.np
    M = B.mod("multimed")
    c, cpar, v = _setup(B)
    pts = [B.vec(f"p{k}", 3, s=(-4, 4)) for k in range(6)]
    w = [B.mod("imgcoord").flat_image_coord(p, c, cpar.mm) for p in pts]
    M.init_mmlut(v, cpar, c)
    for k, p in enumerate(pts + [B.vec("far", 3, s=(-200, 200))]):
        r = B.call("imgcoord.flat_image_coord", p, c, cpar.mm)
        if k < len(w):
            B.ens_vec("same image", r, w[k], 1e-3)
