"""C15 -- target files and path files read back what was written."""
from pyvc.api import contract

M = "tracking_frame_buf."
SIZES = "up to 3 detections or particles, all values"
INTS = ("pnr", "n", "nx", "ny", "sumg", "tnr")


def _near(B, d, h):
    return B.all_([d <= h, d >= -h])


def _target(B, i, nm=""):
    F = B.mod("tracking_frame_buf")
    k = {a: B.int(f"{nm}{a}{i}", s=(-999, 99999)) for a in INTS}
    return F.Target(x=B.real(f"{nm}x{i}", s=(-2000, 5000)), y=B.real(f"{nm}y{i}", s=(-2000, 5000)), **k)


def _same_targets(B, got, want, who="detection"):
    B.ens(f"as many {who}s", len(got) == len(want))
    for i, (a, b) in enumerate(zip(got, want)):
        B.ens(f"{who} {i}: counts and numbers", B.all_([getattr(a, k) == getattr(b, k) for k in INTS]))
        B.ens(f"{who} {i}: position to four decimals", B.all_([_near(B, a.x - b.x, 0.50001e-4), _near(B, a.y - b.y, 0.50001e-4)]))


def _dir(B):
    """A directory for files that are really written."""
    if not B.conc:
        return ""
    import tempfile
    B.tmp = tempfile.TemporaryDirectory()
    return B.tmp.name + "/"


TARG = dict(pnr="i", x="f", y="f", n="i", nx="i", ny="i", sumg="i", tnr="i")


def _as_written(B, a, b):
    return B.all_([getattr(a, k) == getattr(b, k) for k in INTS] + [_near(B, a.x - b.x, 0.50001e-4), _near(B, a.y - b.y, 0.50001e-4)])


def _target_loops(B):
    def inv(v, k):
        return [("line", B.opened("_targets").pos == 1 + k), ("number", B.length(v.buffer) == k),
                ("as written", B.forall(0, k, lambda j: _as_written(B, v.buffer[j], B.want[j])))]
    return {M + "read_targets": {0: B.loop(inv, templates={"buffer": dict(TARG, __cls__=B.mod("tracking_frame_buf").Target)})}}


@contract("C15", [M + "write_targets", M + "read_targets"], loops=_target_loops, conc=False, opts={"feas_ms": 40})
def any_number_of_targets_reads_back(B):
    F = B.mod("tracking_frame_buf")
    n = B.int("n", 0, None)
    ts = B.seq("T", dict(TARG, __cls__=F.Target), n=n)
    B.want = want = ts.copy()
    base, num = B.choice("base", ["cam1.%d", "cam1.%04d", "cam1.#", "cam1_"]), B.choice("frame", [0, 1, 42, 10001])
    B.ens("written", B.call(M + "write_targets", ts, n, base, num))
    got = B.call(M + "read_targets", base, num)
    B.ens("as many detections", B.length(got) == n)
    B.ens_forall("every detection: counts and numbers, position to four decimals", 0, n, lambda j: _as_written(B, got[j], want[j]))
    B.ens_forall("the detections written are left as they were", 0, n, lambda j: B.all_(
        [getattr(ts[j], k) == getattr(want[j], k) for k in TARG]))


@contract("C15", [M + "write_targets", M + "read_targets"], bounded=SIZES, cases=150, jit=False)
def targets_read_back(B):
    d = _dir(B)
    n = B.choice("n", [0, 1, 2, 3])
    ts = [_target(B, i) for i in range(n)]
    want = B.snap(ts)
    base, num = B.choice("base", ["cam1.%d", "cam1.%04d", "cam1.#", "cam1_"]), B.choice("frame", [0, 1, 42, 10001])
    other = B.choice("before", [0, 1])
    if other:                               # over a longer file
        B.call(M + "write_targets", [_target(B, i, "old") for i in range(n + 1)], n + 1, d + base, num)
    ok = B.call(M + "write_targets", ts, n, d + base, num)
    B.ens("written", ok)
    got = B.call(M + "read_targets", d + base, num)
    _same_targets(B, got, want)
    B.ens("the detections written are left as they were", B.all_([getattr(a, k) == getattr(b, k) for a, b in zip(ts, want)
                                                                  for k in INTS + ("x", "y")]))


@contract("C15", [M + "write_targets", M + "read_targets"], bounded="two frames of two cameras", cases=60, jit=False)
def frames_and_cameras_have_files_of_their_own(B):
    d = _dir(B)
    F, W = [1, 2, 12], {}
    base = B.choice("base", ["cam%s.%%d", "cam%s.%%04d", "cam%s.#", "cam%s_"])
    for c in (1, 2):
        for t in F:
            W[c, t] = [_target(B, 0, f"c{c}t{t}")]
            B.ens("written", B.call(M + "write_targets", W[c, t], 1, d + base % c, t))
    for c in (1, 2):
        for t in F:
            _same_targets(B, B.call(M + "read_targets", d + base % c, t), W[c, t], f"camera {c} frame {t} detection")


def _particles(B, n, nm=""):
    F = B.mod("tracking_frame_buf")
    cor = B.np.recarray((n,), dtype=F.Corres_dtype)
    path = []
    for i in range(n):
        cor[i].nr = i + 1
        cor[i].p = B.np.array([B.int(f"{nm}p{i}{c}", s=(-1, 500)) for c in range(4)])
        path.append(F.Pathinfo(x=B.vec(f"{nm}pos{i}", 3, s=(-900, 900)), prev_frame=B.int(f"{nm}prev{i}", s=(-1, 500)),
                               next_frame=B.int(f"{nm}next{i}", s=(-2, 500)), prio=B.int(f"{nm}prio{i}", s=(0, 5))))
    return cor, path


def _same_particles(B, cor, path, wc, wp, links, prio):
    n = len(wp)
    B.ens("as many particles", len(path) == n and len(cor) == n)
    for i in range(n):
        B.ens(f"particle {i}: its number and its detections", B.all_([cor[i].nr == i + 1] + [cor[i].p[c] == wc[i][c] for c in range(4)]))
        B.ens(f"particle {i}: position to three decimals", B.all_([_near(B, path[i].x[k] - wp[i].x[k], 0.50001e-3) for k in range(3)]))
        if links:
            B.ens(f"particle {i}: links", B.all_([path[i].prev_frame == wp[i].prev_frame, path[i].next_frame == wp[i].next_frame]))
        else:
            B.ens(f"particle {i}: no links", B.all_([path[i].prev_frame == -1, path[i].next_frame == -2]))
        B.ens(f"particle {i}: priority", path[i].prio == (wp[i].prio if prio else 4))
        B.ens(f"particle {i}: no candidates yet", path[i].inlist == 0)


PATH = dict(x=("vec", 3, "f"), prev_frame="i", next_frame="i", prio="i", finaldecis="f", inlist="i")


def _path_loops(B):
    def files(k):
        x = lambda j: [(B.P0[j].x[d], 3) for d in range(3)]
        links = lambda j: [(B.P0[j].prev_frame, None), (B.P0[j].next_frame, None)] + x(j)
        out = [("detections", B.holds_rows(B.opened("rt_is.7"), [[B.n]], k, lambda j: [(j + 1, None)] + x(j) + [
            (B.C0[j].p[c], None) for c in range(4)])),
            ("links", B.holds_rows(B.opened("ptv_is.7"), [[B.n]], k, links))]
        if B.prio:
            out.append(("priorities", B.holds_rows(B.opened("added.7"), [[B.n]], k, lambda j: links(j) + [(B.P0[j].prio, None)])))
        return out

    def back(v, k):
        pos = [B.opened("rt_is.7").pos] + [B.opened(f).pos for f, on in (("ptv_is.7", B.links), ("added.7", B.links and B.prio)) if on]
        t, P, C = v.targets, v.path_buf, v.cor_buf
        return [("line", B.all_([p == 1 + t for p in pos] + [t >= 0, t <= B.n])),
                ("room", B.all_([B.length(P) == B.n, B.length(C) == B.n])),
                ("as written", B.forall(0, t, lambda j: _particle(B, j, C[j], P[j]))),
                ("not reached", B.forall(t, B.n, lambda j: B.all_([P[j].prev_frame == -1, P[j].next_frame == -2])))]
    return {M + "write_path_frame": {0: B.loop(lambda v, k: files(k))},
            M + "read_path_frame": {0: B.loop(back, lambda v: B.n - v.targets)}}


def _particle(B, j, c, p):
    c0, p0 = B.C0[j], B.P0[j]
    return B.all_([c.nr == j + 1] + [c.p[k] == c0.p[k] for k in range(4)] + [_near(B, p.x[k] - p0.x[k], 0.50001e-3) for k in range(3)] + [
        p.prev_frame == (p0.prev_frame if B.links else -1), p.next_frame == (p0.next_frame if B.links else -2),
        p.prio == (p0.prio if B.links and B.prio else 4), p.inlist == 0])


@contract("C15", [M + "write_path_frame", M + "read_path_frame"], loops=_path_loops, conc=False, opts={"feas_ms": 40})
def any_number_of_particles_reads_back(B):
    F = B.mod("tracking_frame_buf")
    B.n = n = B.int("n", 0, None)
    path = B.seq("P", dict(PATH, decis=B.row(80, "f"), linkdecis=B.row(80, "i"), __cls__=F.Pathinfo), n=n)
    cor = B.seq("C", None, "recarray", n=n, dtype=F.Corres_dtype)
    B.P0, B.C0 = path.copy(), cor.copy()
    B.prio, B.links = B.choice("prio", [0, 1]), B.choice("read", [1, 0])
    names = ["rt_is", "ptv_is", "added" if B.prio else B.choice("no_prio", ["", None])]
    B.ens("written", B.call(M + "write_path_frame", cor, path, n, *names, 7))
    if B.links:
        c, p = B.call(M + "read_path_frame", names[0], names[1], names[2] or "", 7)
    else:
        c, p = B.call(M + "read_path_frame", names[0], "", "", 7)
    B.ens("as many particles", B.all_([B.length(c) == n, B.length(p) == n]))
    B.ens_forall("every particle: number, detections, position to three decimals, links, priority", 0, n,
                 lambda j: _particle(B, j, c[j], p[j]))
    B.ens_forall("the particles written are left as they were", 0, n, lambda j: B.all_(
        [cor[j].p[k] == B.C0[j].p[k] for k in range(4)] + [path[j].x[k] == B.P0[j].x[k] for k in range(3)] +
        [getattr(path[j], a) == getattr(B.P0[j], a) for a in ("prev_frame", "next_frame", "prio")]))


@contract("C15", [M + "write_path_frame", M + "read_path_frame"], bounded=SIZES, cases=150, jit=False)
def particles_read_back(B):
    d = _dir(B)
    n, num = B.choice("n", [0, 1, 2, 3]), B.choice("frame", [0, 1, 10001])
    cor, path = _particles(B, n)
    wc, wp = [[cor[i].p[c] for c in range(4)] for i in range(n)], B.snap(path)
    prio = B.choice("prio", [0, 1])
    names = [d + "rt_is", d + "ptv_is", d + "added" if prio else B.choice("no_prio", ["", None])]
    if B.choice("before", [0, 1]):
        oc, op = _particles(B, n + 1, "old")
        B.call(M + "write_path_frame", oc, op, n + 1, *names, num)
    ok = B.call(M + "write_path_frame", cor, path, n, *names, num)
    B.ens("written", ok)
    how = B.choice("read", ["links", "plain"])
    if how == "links":
        c, p = B.call(M + "read_path_frame", names[0], names[1], names[2] or "", num)
    else:
        c, p = B.call(M + "read_path_frame", names[0], "", "", num)
    _same_particles(B, c, p, wc, wp, how == "links", how == "links" and prio)
    B.ens("the particles written are left as they were", B.all_(
        [cor[i].p[k] == wc[i][k] for i in range(n) for k in range(4)] + [path[i].x[k] == wp[i].x[k] for i in range(n) for k in range(3)] +
        [getattr(path[i], a) == getattr(wp[i], a) for i in range(n) for a in ("prev_frame", "next_frame", "prio")]))


# ---------------------------------------------------------------- a frame: its own lists to and from its own files
def _frame_callees(B):
    def wpath(cor, path, n, c, l, p, num):
        B.ens("the frame's particles", B.all_([B.same(cor, B.f.correspond), B.same(path, B.f.path_info), n == B.f.num_parts]))
        B.ens("the files given", (c, l, p, num) == ("rt_is", "ptv_is", "added", 3))
        B.log.append("path")
        return B.bad != "path"

    def wtarg(t, n, base, num):
        c = int(base[3])
        B.ens("the camera's detections", B.all_([B.same(t, B.f.targets[c]), n == B.f.num_targets[c], num == 3, base == f"cam{c}.%d"]))
        B.log.append(c)
        return B.bad != c

    def rpath(c, l, p, num):
        B.ens("the files given", (c, l, p, num) == ("rt_is", "ptv_is", "added", 3))
        return B.C, B.P

    def rtarg(base, num):
        B.ens("the camera's file", B.all_([num == 3, base in B.bases]))
        return B.T[B.bases.index(base)]
    return {M + k: B.spec(M + k, f) for k, f in (("write_path_frame", wpath), ("write_targets", wtarg),
                                                 ("read_path_frame", rpath), ("read_targets", rtarg))}


@contract("C15", [M + "Frame.write", M + "Frame.read"], contracts=_frame_callees, conc=False, opts={"feas_ms": 40})
def a_frame_goes_to_and_comes_from_its_own_files(B):
    F = B.mod("tracking_frame_buf")
    nc = B.choice("num_cams", [1, 2, 3, 4])
    B.f = f = F.Frame(nc, 1)
    B.n = f.num_parts = B.int("n", 0, None)
    path = dict(PATH, decis=B.row(80, "f"), linkdecis=B.row(80, "i"), __cls__=F.Pathinfo)
    f.path_info, f.correspond = B.seq("P", path, n=B.n), B.seq("C", None, "recarray", n=B.n, dtype=F.Corres_dtype)
    for c in range(nc):
        f.num_targets[c] = B.int(f"m{c}", 0, None)
        f.targets[c] = B.seq(f"T{c}", dict(TARG, __cls__=F.Target), n=f.num_targets[c])
    B.bases, B.log = [f"cam{c}.%d" for c in range(nc)], []
    B.bad = B.choice("cannot be written", [None, "path", 0, 3])
    ok = B.call(M + "Frame.write", f, "rt_is", "ptv_is", "added", B.bases, 3)
    if B.bad in ["path"] + list(range(nc)):
        B.ens("failure reported", not ok)
    else:
        B.ens("written", ok)
        B.ens("every file once", sorted(map(str, B.log)) == sorted(["path"] + [str(c) for c in range(nc)]))
    r, m = B.int("r", 0, None), [B.int(f"r{c}", 0, None) for c in range(nc)]
    B.P, B.C = B.seq("RP", path, n=r), B.seq("RC", None, "recarray", n=r, dtype=F.Corres_dtype)
    B.T = [B.seq(f"RT{c}", dict(TARG, __cls__=F.Target), n=m[c]) for c in range(nc)]
    B.ens("read", B.call(M + "Frame.read", f, "rt_is", "ptv_is", "added", B.bases, 3))
    B.ens("the particles read", B.all_([B.same(f.correspond, B.C), B.same(f.path_info, B.P), f.num_parts == r]))
    B.ens("the detections read", B.all_([B.same(f.targets[c], B.T[c]) for c in range(nc)] + [f.num_targets[c] == m[c] for c in range(nc)]))


@contract("C15", [M + "Frame.write", M + "Frame.read"], bounded="1 to 4 cameras, 0 to 2 particles, 0 to 2 detections per camera", cases=80, jit=False)
def a_frame_reads_back(B):
    F = B.mod("tracking_frame_buf")
    d = _dir(B)
    nc, n, num = B.choice("num_cams", [1, 2, 4]), B.choice("n", [0, 2]), 10002
    f = F.Frame(nc, 1)
    f.correspond, f.path_info = _particles(B, n)
    f.num_parts = n
    bases = [d + f"cam{c}.%d" for c in range(nc)]
    for c in range(nc):
        m = B.choice(f"m{c}", [0, 2]) if c < 2 else 1
        f.targets[c] = [_target(B, i, f"cam{c}") for i in range(m)]
        f.num_targets[c] = m
    names = d + "rt_is", d + "ptv_is", d + "added"
    B.ens("written", B.call(M + "Frame.write", f, *names, bases, num))
    g = F.Frame(nc, B.choice("max_targets", [0, 3]))
    B.ens("read", B.call(M + "Frame.read", g, *names, bases, num))
    B.ens("number of particles", g.num_parts == n)
    _same_particles(B, g.correspond, g.path_info, [[f.correspond[i].p[k] for k in range(4)] for i in range(n)], f.path_info, True, True)
    for c in range(nc):
        B.ens(f"camera {c}: number of detections", g.num_targets[c] == f.num_targets[c])
        _same_targets(B, g.targets[c], f.targets[c], f"camera {c} detection")


# ---------------------------------------------------------------- files that cannot be opened
@contract("C15", [M + "read_targets", M + "read_path_frame", M + "Frame.read"], cases=60, jit=False)
def a_missing_file_is_reported(B):
    F = B.mod("tracking_frame_buf")
    d = _dir(B)
    num = 7
    cor, path = _particles(B, 1)
    ts = [_target(B, 0)]
    gone = B.choice("missing", ["corres", "linkage", "prio", "targets", "none"])
    names = [d + k for k in ("corres", "linkage", "prio")]
    B.call(M + "write_path_frame", cor, path, 1, *names, num)
    B.call(M + "write_targets", ts, 1, d + "cam.%d", num)
    t = [d + "cam.%d"]
    if gone == "targets":
        t = [d + "elsewhere.%d"]
    elif gone != "none":
        names[["corres", "linkage", "prio"].index(gone)] = d + "elsewhere"
    f = F.Frame(1, 1)

    def read():
        r = B.call(M + "Frame.read", f, *names, t, num)
        if gone != "none" and not r:
            raise OSError("reported by the return value")
        return r
    if gone == "none":
        B.ens("read", read())
    else:
        B.raises(OSError, read)
    if gone == "targets":
        B.raises(OSError, lambda: B.call(M + "read_targets", t[0], num))
    elif gone != "none":
        B.raises(OSError, lambda: B.call(M + "read_path_frame", *names, num))


@contract("C15", [M + "write_targets", M + "write_path_frame", M + "Frame.write"], sym=False, cases=30, jit=False)
def a_file_that_cannot_be_written_is_reported_run(B):
    F = B.mod("tracking_frame_buf")
    d = _dir(B)
    cor, path = _particles(B, 1)
    ts = [_target(B, 0)]
    k = B.choice("missing", [0, 1, 2, 3])
    names = [d + x for x in ("corres", "linkage", "prio")]
    t = d + "cam.%d"
    if k == 3:
        t = d + "no/such/directory/cam.%d"
        B.ens("targets", not B.call(M + "write_targets", ts, 1, t, 5))
    else:
        names[k] = d + "no/such/directory/x"
        B.ens("particles", not B.call(M + "write_path_frame", cor, path, 1, *names, 5))
    f = F.Frame(1, 1)
    f.correspond, f.path_info, f.num_parts, f.targets, f.num_targets = cor, path, 1, [ts], [1]
    B.ens("frame", not B.call(M + "Frame.write", f, *names, [t], 5))


# ---------------------------------------------------------------- long lists
@contract("C15", [M + "Frame.write", M + "Frame.read"], sym=False, cases=40, jit=False)
def long_frames_run(B):
    F, np = B.mod("tracking_frame_buf"), B.np
    d = _dir(B)
    rnd = np.random.RandomState(B.int("seed", 0, 10 ** 6))
    nc, n = B.choice("num_cams", [1, 2, 3, 4]), B.choice("n", [0, 1, 10, 200])
    big = B.choice("size", [10.0, 1000.0, 99999.0])
    f = F.Frame(nc, 1)
    f.correspond = np.recarray(n, dtype=F.Corres_dtype)
    f.correspond.nr, f.correspond.p = np.arange(n) + 1, rnd.randint(-1, 500, (n, 4))
    f.path_info = [F.Pathinfo(x=rnd.uniform(-big, big, 3), prev_frame=int(rnd.randint(-1, 99999)), next_frame=int(rnd.randint(-2, 99999)),
                              prio=int(rnd.randint(0, 5))) for _ in range(n)]
    f.num_parts = n
    for c in range(nc):
        m = rnd.randint(0, 30)
        f.targets[c] = [F.Target(pnr=i, x=rnd.uniform(-big, big), y=rnd.uniform(-big, big), n=int(rnd.randint(1, 99999)), nx=int(rnd.randint(1, 999)),
                                 ny=int(rnd.randint(1, 999)), sumg=int(rnd.randint(1, 9999999)), tnr=int(rnd.randint(-1, 99999))) for i in range(m)]
        f.num_targets[c] = m
    names, bases = (d + "rt_is", d + "ptv_is", d + "added"), [d + f"cam{c}.%d" for c in range(nc)]
    B.ens("written", B.call(M + "Frame.write", f, *names, bases, 3))
    g = F.Frame(nc, 1)
    B.ens("read", B.call(M + "Frame.read", g, *names, bases, 3))
    _same_particles(B, g.correspond, g.path_info, [[f.correspond[i].p[k] for k in range(4)] for i in range(n)], f.path_info, True, True)
    for c in range(nc):
        _same_targets(B, g.targets[c], f.targets[c], f"camera {c} detection")
