"""C04 -- ray tracing through the glass."""
from pyvc.api import contract


OPT = {"sqrt_alias": True, "prove_ms": 10000, "total_s": 200.0}


class Trace:
    """Start direction m*c in the camera frame, s = M c in the world, glass vector L*u,
    with unit c, s, u: every nonzero pair and every rotation M."""

    def __init__(self, B, straight=False):
        self.B = B
        self.m, self.L = B.pos("m", (5, 100)), B.pos("L", (1, 80))
        c = B.unit("c")                       # in the camera frame; the camera looks down its z axis
        B.req(c[2] < (0 if not B.conc else -0.1))
        self.dm, self.s = B.matrix_mapping(c, "s")
        self.u = -self.s if straight else B.unit("u")
        if B.conc and B.dot3(self.s, self.u) > 0:
            self.u = -self.u
        self.v, self.g = self.m * c, self.L * self.u
        B.sqrt_hint(self.m)
        B.sqrt_hint(self.L)
        self.p = B.vec("p", 3, s=(-100, 100))
        self.d = B.pos("d", (0.1, 30))

    def angles(self, k2, k3):
        """Incidence, not grazing or perpendicular, no total reflection; k = n1/n2, n1/n3."""
        B, s, u = self.B, self.s, self.u
        self.n = B.dot3(s, u)
        B.req(self.n < (0 if not B.conc else -0.01))   # the ray enters the glass against its normal
        self.t = [s[i] - self.n * u[i] for i in range(3)]
        self.st = 1 - self.n * self.n
        B.req(self.st > (0 if not B.conc else 1e-6))
        top = 1 if not B.conc else 0.99
        B.req(self.st * k2 * k2 < top)
        B.req(self.st * k3 * k3 < top)
        self.T = B.sqrt(self.st)
        B.lemma("oblique", self.T > 0)
        B.sqrt_hint(self.T * k2)
        if k3 is not k2:
            B.sqrt_hint(self.T * k3)
        self.c2, self.c3 = B.sqrt(1 - self.st * k2 * k2), B.sqrt(1 - self.st * k3 * k3)
        B.lemma("cosine in the glass", self.c2 > 0)
        B.lemma("cosine behind the glass", self.c3 > 0)
        B.sign_hint(self.n)
        B.lemma("scaled sine", self.T * k2 > 0)
        B.sign_hint(self.T * k2)


@contract("C04", ["ray_tracing.fast_ray_tracing", "vec_utils.unit_vector"], opts=OPT, cases=300)
def refraction_at_both_faces(B):
    q = Trace(B)
    n1, n2, n3 = B.pos("n1", (1, 1.6)), B.pos("n2", (1, 1.6)), B.pos("n3", (1, 1.6))
    k2, k3 = n1 / n2, n1 / n3
    q.angles(k2, k3)
    X, out = B.call("ray_tracing.fast_ray_tracing", q.v, q.dm, q.p, q.g, q.d, n1, n2, n3)
    for i in range(3):
        B.ens_eq(f"tangential direction scaled by n1/n3 in the plane of incidence, going on against the normal [{i}]",
                 out[i], q.t[i] * k3 - q.c3 * q.u[i], 1e-6)
    B.ens_eq("unit direction", B.dot3(out, out), 1.0)
    # the point: from the first face, along the refracted direction in the glass, down to the second face
    B.ens_eq("the point lies on the outer glass face", B.dot3(q.u, X), q.L, 1e-6)
    l1 = (q.L + q.d - B.dot3(q.u, q.p)) / q.n
    for i in range(3):
        a = q.t[i] * k2 - q.c2 * q.u[i]
        B.ens_eq(f"the point is reached through the glass along the refracted ray [{i}]", X[i],
                 q.p[i] + q.s[i] * l1 + a * q.d / q.c2, 1e-6)


@contract("C04", ["ray_tracing.fast_ray_tracing"], opts=OPT, cases=100)
def perpendicular_incidence_goes_straight(B):
    """Exact over the reals.  In floating point the tangential direction is rounding
    noise here, which the square roots of the code amplify: 1e-3 on real runs."""
    q = Trace(B, straight=True)
    n1, n2, n3 = B.pos("n1", (1, 1.6)), B.pos("n2", (1, 1.6)), B.pos("n3", (1, 1.6))
    X, out = B.call("ray_tracing.fast_ray_tracing", q.v, q.dm, q.p, q.g, q.d, n1, n2, n3)
    for i in range(3):
        B.ens_eq(f"direction kept [{i}]", out[i], q.s[i], 1e-3)
        B.ens_eq(f"point [{i}]", X[i], q.p[i] + q.s[i] * (B.dot3(q.u, q.p) - q.L), 1e-3)


@contract("C04", ["ray_tracing.fast_ray_tracing"], opts=OPT, cases=200)
def equal_indices_give_the_straight_line(B):
    q = Trace(B)
    n1 = B.pos("n1", (1, 1.6))
    q.angles(1.0, 1.0)
    X, out = B.call("ray_tracing.fast_ray_tracing", q.v, q.dm, q.p, q.g, q.d, n1, n1, n1)
    e = B.cross3([X[i] - q.p[i] for i in range(3)], q.s)
    for i in range(3):
        B.ens_eq(f"direction kept [{i}]", out[i], q.s[i], 1e-6)
        B.ens_eq(f"point on the ray [{i}]", e[i], 0.0, 1e-5)


@contract("C04", ["ray_tracing.ray_tracing"], contracts=lambda B: {
    "ray_tracing.fast_ray_tracing": B.pure("ray_tracing.fast_ray_tracing", [3, 3])}, cases=120)
def parameters_reach_the_tracer(B):
    """ray_tracing hands over the viewing direction (x, y, -cc), the camera's
    matrix, position and glass, the glass thickness and the three indices in order."""
    from .common import calstate, fullcal, unchanged
    c = fullcal(B)
    M = B.mod("parameters").MultimediaPar
    x, y = B.real("x", s=(-8, 8)), B.real("y", s=(-8, 8))
    n1, n2, n3, d = (B.real("n1", s=(1, 1.5)), B.real("n2", s=(1, 1.5)), B.real("n3", s=(1, 1.5)),
                     B.real("d", s=(0.1, 10)))
    if B.conc:
        c.set_angles(B.vec("ang", 3, s=(-1, 1)))
        B.req(abs(c.glass_par).sum() > 0.1)
    mm = M(nlay=1, n1=n1, n2=[n2], n3=n3, d=[d])
    s0 = calstate(c)
    X, out = B.call("ray_tracing.ray_tracing", x, y, c, mm)
    e = c.ext_par
    v = B.np.array([x, y, -c.int_par.cc], dtype=B.np.float64)
    pp = B.np.array([e["x0"] + 0.0, e["y0"] + 0.0, e["z0"] + 0.0], dtype=B.np.float64)
    X2, out2 = B.call("ray_tracing.fast_ray_tracing", v, e["dm"], pp, B.np.array(c.glass_par), d, n1, n2, n3)
    if B.conc and not (B.np.isfinite(X2).all() and B.np.isfinite(out2).all()):
        return                     # total reflection
    B.ens_vec("point", X, X2)
    B.ens_vec("direction", out, out2)
    unchanged(B, "ray_tracing", s0, calstate(c))
