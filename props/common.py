"""Shared builders for the contracts."""


def fullcal(B, n="c", k=1.0):
    """A camera in an arbitrary state (the matrix need not match the angles)."""
    c = B.mod("calibration").Calibration()
    e = c.ext_par
    for f in ("x0", "y0", "z0"):
        e[f] = B.real(n + f, s=(-100 * k, 100 * k))
    for f in ("omega", "phi", "kappa"):
        e[f] = B.real(n + f, s=(-3.0, 3.0))
    for i in range(3):
        for j in range(3):
            e["dm"][i, j] = B.real(f"{n}dm{i}{j}", s=(-1.0, 1.0))
    c.int_par.xh, c.int_par.yh = B.real(n + "xh"), B.real(n + "yh")
    c.int_par.cc = B.real(n + "cc", s=(1.0, 200.0))
    c.glass_par = B.vec(n + "gl", 3)
    c.added_par = B.vec(n + "ap", 7, s=(-0.01, 0.01))
    return c


EXT = ["x0", "y0", "z0", "omega", "phi", "kappa"]


def calstate(c):
    e = c.ext_par
    d = {f: e[f] + 0.0 for f in EXT}
    for i in range(3):
        for j in range(3):
            d[f"dm{i}{j}"] = e["dm"][i, j] + 0.0
    d.update(xh=c.int_par.xh + 0.0, yh=c.int_par.yh + 0.0, cc=c.int_par.cc + 0.0)
    for i in range(3):
        d[f"glass{i}"] = c.glass_par[i] + 0.0
    for i in range(7):
        d[f"ap{i}"] = c.added_par[i] + 0.0
    return d


def unchanged(B, name, s0, s1, but=()):
    """Exact equality (no tolerance on real runs) of every field not in but."""
    for f in s0:
        if f not in but:
            B.ens(f"{name}: {f} unchanged", s0[f] == s1[f])


ANG = ["omega", "phi", "kappa"]
DM = [f"dm{i}{j}" for i in range(3) for j in range(3)]


def angles_to_matrix(B, o, p, k):
    """R_x(omega) R_y(phi) R_z(kappa)."""
    co, so, cp, sp, ck, sk = (B.np.cos(o), B.np.sin(o), B.np.cos(p), B.np.sin(p), B.np.cos(k), B.np.sin(k))

    def mm(a, b):
        return [[sum(a[i][m] * b[m][j] for m in range(3)) for j in range(3)] for i in range(3)]
    rx = [[1, 0, 0], [0, co, -so], [0, so, co]]
    ry = [[cp, 0, sp], [0, 1, 0], [-sp, 0, cp]]
    rz = [[ck, -sk, 0], [sk, ck, 0], [0, 0, 1]]
    return mm(mm(rx, ry), rz)


def ens_matrix(B, name, dm, o, p, k):
    r = angles_to_matrix(B, o, p, k)
    for i in range(3):
        for j in range(3):
            B.ens_eq(f"{name}[{i},{j}]", dm[i, j], r[i][j])
