"""C01 -- pixel <-> metric conversion."""
from pyvc.api import contract


def cpar(B):
    c = B.mod("parameters").ControlPar(num_cams=1)
    c.imx, c.imy = B.int("imx", 1, 20000), B.int("imy", 1, 20000)
    c.pix_x, c.pix_y = B.pos("pix_x", (0.001, 2.0)), B.pos("pix_y", (0.001, 2.0))
    return c


@contract("C01", ["trafo.pixel_to_metric", "trafo.fast_pixel_to_metric"])
def p2m_is_affine(B):
    c = cpar(B)
    x, y = B.real("x", s=(-100, 3000)), B.real("y", s=(-100, 3000))
    mx, my = B.call("trafo.pixel_to_metric", x, y, c)
    B.ens_eq("x = (px - imx/2) * pix_x", mx, (x - c.imx / 2) * c.pix_x)
    B.ens_eq("y = (imy/2 - py) * pix_y", my, (c.imy / 2 - y) * c.pix_y)


@contract("C01", ["trafo.metric_to_pixel", "trafo.fast_metric_to_pixel"])
def m2p_is_affine(B):
    c = cpar(B)
    x, y = B.real("x"), B.real("y")
    px, py = B.call("trafo.metric_to_pixel", x, y, c)
    B.ens_eq("px * pix_x", (px - c.imx / 2) * c.pix_x, x)
    B.ens_eq("py * pix_y", (c.imy / 2 - py) * c.pix_y, y)


@contract("C01", ["trafo.pixel_to_metric", "trafo.metric_to_pixel"])
def round_trip(B):
    c = cpar(B)
    x, y = B.real("x", s=(-100, 3000)), B.real("y", s=(-100, 3000))
    px, py = B.call("trafo.metric_to_pixel", *B.call("trafo.pixel_to_metric", x, y, c), c)
    B.ens_eq("pixel -> metric -> pixel, x", px, x)
    B.ens_eq("pixel -> metric -> pixel, y", py, y)
    qx, qy = B.call("trafo.pixel_to_metric", *B.call("trafo.metric_to_pixel", x, y, c), c)
    B.ens_eq("metric -> pixel -> metric, x", qx, x)
    B.ens_eq("metric -> pixel -> metric, y", qy, y)


@contract("C01", ["trafo.arr_pixel_to_metric"])
def p2m_array_matches_point(B):
    c = cpar(B)
    px = B.seq("px", ("vec", 2, "i"), "ndarray", lo=0, nmax=6, samp={".0": (-5, 3000), ".1": (-5, 3000)})
    n = B.length(px)
    px = px.astype(B.np.int32)
    m = B.call("trafo.arr_pixel_to_metric", px, c.imx, c.imy, c.pix_x, c.pix_y)
    B.ens("one row per point", B.length(m) == n)

    def row(j):
        x, y = B.call("trafo.pixel_to_metric", px[j, 0], px[j, 1], c)
        return B.all_([B.eq(m[j, 0], x), B.eq(m[j, 1], y)])
    B.ens_forall("row j is the conversion of point j", 0, n, row)


@contract("C01", ["trafo.arr_metric_to_pixel", "trafo.fast_arr_metric_to_pixel"])
def m2p_array_matches_point(B):
    c = cpar(B)
    m = B.seq("m", ("vec", 2, "f"), "ndarray", lo=0, nmax=6)
    n = B.length(m)
    m0 = m.copy()
    px = B.call("trafo.arr_metric_to_pixel", m, c)
    B.ens("one row per point", B.length(px) == n)

    def row(j):
        x, y = B.call("trafo.metric_to_pixel", m0[j, 0], m0[j, 1], c)
        return B.all_([B.eq(px[j, 0], x), B.eq(px[j, 1], y), B.eq(m[j, 0], m0[j, 0]), B.eq(m[j, 1], m0[j, 1])])
    B.ens_forall("row j is the conversion of point j and the input is unchanged", 0, n, row)


@contract("C01", ["trafo.arr_metric_to_pixel"], sym=False, cases=40)
def m2p_of_one_point_given_as_a_pair(B):
    c = cpar(B)
    m = B.np.array([B.real("x", s=(-10, 10)), B.real("y", s=(-10, 10))])
    px = B.call("trafo.arr_metric_to_pixel", m, c)
    x, y = B.call("trafo.metric_to_pixel", m[0], m[1], c)
    B.ens("one row", px.shape == (1, 2))
    B.ens_eq("x", px[0, 0], x, 1e-9)
    B.ens_eq("y", px[0, 1], y, 1e-9)
