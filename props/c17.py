"""C17 -- camera and parameter files read back what was written."""
from pyvc.api import contract
from .common import ANG, EXT, calstate, ens_matrix, fullcal, unchanged

K, P = "calibration.", "parameters."
CAMS = "1 to 4 cameras (the library's limit), all values"


def _dir(B):
    P_ = B.mod("calibration").Path
    if not B.conc:
        return P_("/d")
    import tempfile
    B.tmp = tempfile.TemporaryDirectory()
    return P_(B.tmp.name)


def _near(B, d, dec):
    h = 0.50001 * 10.0 ** -dec
    return B.all_([d <= h, d >= -h])


# ---------------------------------------------------------------- cameras
def _read_back(B, got, want, added):
    a, b = calstate(got), calstate(want)
    for f in EXT:
        B.ens(f"{f} to eight decimals", _near(B, a[f] - b[f], 8))
    for f in ("xh", "yh", "cc"):
        B.ens(f"{f} to four decimals", _near(B, a[f] - b[f], 4))
    for i in range(3):
        B.ens(f"glass {i} to fifteen decimals", _near(B, a[f"glass{i}"] - b[f"glass{i}"], 15) if not B.conc else
              abs(a[f"glass{i}"] - b[f"glass{i}"]) <= 1e-15 + 1e-14 * abs(b[f"glass{i}"]))
    B.ens("three glass components", len(got.glass_par) == 3)
    B.ens("seven distortion parameters", len(got.added_par) == 7)
    for i in range(7):
        if added:
            B.ens(f"distortion {i} to eight decimals", _near(B, a[f"ap{i}"] - b[f"ap{i}"], 8))
        else:
            B.ens(f"distortion {i} neutral", a[f"ap{i}"] == (1.0 if i == 5 else 0.0))
    ens_matrix(B, "matrix belongs to the angles read", got.ext_par["dm"], *[got.ext_par[f] for f in ANG])


@contract("C17", [K + "write_ori", K + "Calibration.from_file", K + "Calibration.write", K + "read_ori", K + "read_calibration",
                  K + "write_calibration"], cases=150, jit=False)
def a_camera_reads_back(B):
    d = _dir(B)
    c = fullcal(B, "c", k=10.0)
    s0 = calstate(c)
    if B.choice("before", [0, 1]):                       # over another camera's files
        B.call(K + "write_calibration", fullcal(B, "old"), d / "ori", d / "add")
    added = B.choice("distortion file", [True, False])
    add = d / "add" if added else None
    how = B.choice("written by", ["write", "write_calibration"])
    if how == "write":
        B.call(K + "Calibration.write", c, d / "ori", add)
    else:
        B.ens("written", B.call(K + "write_calibration", c, d / "ori", add))
    unchanged(B, "the camera written", s0, calstate(c))
    if B.conc:
        ls = [[float(x) for x in ln.split()] for ln in open(d / "ori") if ln.strip()]
        B.ens("the matrix in the file", all(abs(ls[2 + i][j] - s0[f"dm{i}{j}"]) <= 0.50001e-7 for i in range(3) for j in range(3)))
    how = B.choice("read by", ["from_file", "read_ori", "read_calibration"])
    if how == "from_file":
        got = B.mod("calibration").Calibration.from_file(d / "ori", add)
    else:
        got = B.call(K + how, d / "ori", add)
    _read_back(B, got, c, added)


@contract("C17", [K + "write_ori", K + "Calibration.from_file"], cases=60, jit=False)
def cameras_keep_to_their_own_files(B):
    d = _dir(B)
    cs = [fullcal(B, f"c{i}") for i in range(2)]
    for i, c in enumerate(cs):
        B.call(K + "write_calibration", c, d / f"ori{i}", d / f"add{i}")
    got = [B.call(K + "read_calibration", d / f"ori{i}", d / f"add{i}") for i in range(2)]
    for i in range(2):
        _read_back(B, got[i], cs[i], True)


@contract("C17", [K + "Calibration.from_file", K + "read_ori"], cases=10, jit=False)
def a_missing_camera_file_is_reported(B):
    d = _dir(B)
    B.raises(OSError, lambda: B.call(K + "read_ori", d / "ori", None))
    B.raises(OSError, lambda: B.call(K + "read_calibration", d / "ori", d / "add"))
    B.call(K + "write_calibration", fullcal(B), d / "ori", None)
    B.raises(OSError, lambda: B.call(K + "read_calibration", d / "ori", d / "add"))
    B.ens("the orientation alone is read", len(B.call(K + "read_calibration", d / "ori", None).added_par) == 7)


@contract("C17", [K + "compare_calibration", K + "compare_exterior", K + "compare_interior", K + "compare_glass", K + "compare_addpar"],
          cases=200, jit=False, opts={"merge": True})
def cameras_are_equal_exactly_when_all_fields_are(B):
    """The other camera has arbitrary values of its own, equal or not; on real
    runs it is a copy that differs in at most one field."""
    C = B.mod("calibration")
    a = fullcal(B, "a")
    if B.conc:
        b = a.copy(C.Calibration())
        k = B.int("differs in", 0, len(EXT) + 3 + 3 + 7)
        d = B.real("by", s=(0.01, 2.0)) * B.choice("scale", [1, 1e-7])
        if k < 6:
            b.ext_par[EXT[k]] += d
        elif k < 9:
            b.int_par[("xh", "yh", "cc")[k - 6]] += d
        elif k < 12:
            b.glass_par[k - 9] += d
        elif k < 19:
            b.added_par[k - 12] += d
    else:
        b = fullcal(B, "b")
        for i in range(3):
            for j in range(3):
                b.ext_par["dm"][i, j] = a.ext_par["dm"][i, j]
    s, t = calstate(a), calstate(b)
    same = {f: s[f] == t[f] for f in s}
    eq = B.call(K + "compare_calibration", a, b)
    B.ens("cameras", B.iff(eq, B.all_(list(same.values()))))
    B.ens("exterior", B.iff(B.call(K + "compare_exterior", a.ext_par, b.ext_par), B.all_([same[f] for f in EXT])))
    B.ens("interior", B.iff(B.call(K + "compare_interior", a.int_par, b.int_par), B.all_([same[f] for f in ("xh", "yh", "cc")])))
    B.ens("glass", B.iff(B.call(K + "compare_glass", a.glass_par, b.glass_par), B.all_([same[f"glass{i}"] for i in range(3)])))
    B.ens("distortion", B.iff(B.call(K + "compare_addpar", a.added_par, b.added_par), B.all_([same[f"ap{i}"] for i in range(7)])))
    unchanged(B, "first camera", s, calstate(a))
    unchanged(B, "second camera", t, calstate(b))


@contract("C17", [K + "compare_exterior"], cases=100, jit=False)
def different_matrices_are_different(B):
    C = B.mod("calibration")
    a = fullcal(B, "a")
    b = a.copy(C.Calibration())
    i, j = B.choice("i", [0, 1, 2]), B.choice("j", [0, 1, 2])
    v = B.real("v", s=(-1, 1))
    w = a.ext_par["dm"][i, j]
    B.req(B.all_([w >= -1, w <= 1, B.any_([v - w > 1e-4, w - v > 1e-4])]))
    b.ext_par["dm"][i, j] = v
    B.ens("different", B.not_(B.call(K + "compare_exterior", a.ext_par, b.ext_par)))


# ---------------------------------------------------------------- parameter sets: fields by name and kind
F, I, T = "float", "int", "flag"
SETS = {
    "TrackPar": dict(dvxmin=F, dvxmax=F, dvymin=F, dvymax=F, dvzmin=F, dvzmax=F, dangle=F, dacc=F, add=I, dsumg=F, dn=F, dnx=F, dny=F),
    "MultimediaPar": dict(nlay=I, n1=F, n2=[F], d=[F], n3=F),
    "SequencePar": dict(img_base_name=["name"], first=I, last=I),
    "VolumePar": dict(x_lay=[F, F], z_min_lay=[F, F], z_max_lay=[F, F], cn=F, cnx=F, cny=F, csumg=F, eps0=F, corrmin=F),
    "ControlPar": dict(num_cams=I, img_base_name=["name"], cal_img_base_name=["name"], hp_flag=I, all_cam_flag=I, tiff_flag=I, imx=I,
                       imy=I, pix_x=F, pix_y=F, chfield=I, mm="mm"),
    "TargetPar": dict(gvthresh=[I, I, I, I], discont=I, nnmin=I, nnmax=I, nxmin=I, nxmax=I, nymin=I, nymax=I, sumg_min=I, cr_sz=I),
    "OrientPar": dict(useflag=I, ccflag=I, xhflag=I, yhflag=I, k1flag=I, k2flag=I, k3flag=I, p1flag=I, p2flag=I, scxflag=I, sheflag=I,
                      interfflag=I),
    "CalibrationPar": dict(fixp_name="name", img_name=["name"], img_ori0=["name"], tiff_flag=I, pair_flag=I, chfield=I),
    "MultiPlanesPar": dict(num_planes=I, filename=["name"]),
    "ExaminePar": dict(examine_flag=T, combine_flag=T),
    "PftVersionPar": dict(existing_target_flag=T),
}


def _value(B, nm, kind, n, sub=""):
    if kind == F:
        return B.real(nm, s=(-50, 50))
    if kind == I:
        return B.int(nm, s=(-3, 300))
    if kind == T:
        return B.choice(nm, [False, True])
    if kind == "name":
        return f"img/{nm}.tif"
    if kind == "mm":
        return _build(B, "MultimediaPar", B.choice(nm + "layers", [1, 2]), nm)
    if isinstance(kind, list):
        m = n if len(kind) == 1 else len(kind)
        return [_value(B, f"{nm}{i}", kind[0], n) for i in range(m)]
    raise ValueError(kind)


def _build(B, cls, n, nm="", **but):
    kw = {f: but[f] if f in but else _value(B, f"{nm}{f}", k, n) for f, k in SETS[cls].items()}
    return getattr(B.mod("parameters"), cls)(**kw)


def _same(B, got, want, cls, who="", only=None):
    B.ens(f"{who}{cls}: kind", type(got).__name__ == cls)
    for f, k in SETS[cls].items():
        if only is not None and f not in only:
            continue
        g, w = getattr(got, f), getattr(want, f)
        if k == "mm":
            _same(B, g, w, "MultimediaPar", who)
        elif isinstance(k, list):
            B.ens(f"{who}{f}: length", len(g) == len(w))
            B.ens(f"{who}{f}", B.all_([a == b for a, b in zip(g, w)]))
        else:
            B.ens(f"{who}{f}", g == w)


def _line(v):
    return f"{int(v)}" if isinstance(v, bool) else f"{v}"


def _text(ls):
    return "".join(_line(x) + "\n" for x in ls)


def _put(path, text):
    with path.open("w") as f:
        f.write(text)


YAMLS = [(c, n) for c in SETS for n in ((1, 2, 4) if any(isinstance(k, list) and len(k) == 1 for k in SETS[c].values()) else (1,))]


@contract("C17", [P + "Parameters.to_yaml", P + "Parameters.from_yaml", P + "Parameters.to_dict", P + "Parameters.from_dict",
                  P + "ControlPar.from_dict", P + "ControlPar.to_dict"], cases=200, jit=False, bounded="lists of 1, 2 and 4 entries, all values")
def structured_files_read_back(B):
    d = _dir(B)
    cls, n = B.choice("set", YAMLS)
    C = getattr(B.mod("parameters"), cls)
    p = _build(B, cls, n)
    want = B.snap(p)
    if B.choice("through", ["file", "dict"]) == "file":
        p.to_yaml(d / "p.yaml")
        got = C.from_yaml(d / "p.yaml")
    else:
        data = C.to_dict(p)
        keep = B.snap(data)
        got = C.from_dict(data)
        B.ens("the dictionary is left as it was", sorted(data) == sorted(keep) and
              all(type(data[k]).__name__ == type(keep[k]).__name__ for k in data))
        if cls == "ControlPar":
            got2 = C.from_dict(data)
            _same(B, got2, want, cls, "again ")
    _same(B, got, want, cls)
    _same(B, p, want, cls, "written ")


# ---------------------------------------------------------------- text files: every field from its own line
def _lines(p, cls):
    g = lambda *fs: [getattr(p, f) for f in fs]
    if cls == "TrackPar":
        return g("dvxmin", "dvxmax", "dvymin", "dvymax", "dvzmin", "dvzmax", "dangle", "dacc", "add")
    if cls == "SequencePar":
        return p.img_base_name + g("first", "last")
    if cls == "VolumePar":
        return [p.x_lay[0], p.z_min_lay[0], p.z_max_lay[0], p.x_lay[1], p.z_min_lay[1], p.z_max_lay[1]] + \
            g("cnx", "cny", "cn", "csumg", "corrmin", "eps0")
    if cls == "ControlPar":
        names = [x for ab in zip(p.img_base_name, p.cal_img_base_name) for x in ab]
        return [p.num_cams] + names + g("hp_flag", "all_cam_flag", "tiff_flag", "imx", "imy", "pix_x", "pix_y", "chfield") + \
            [p.mm.n1, p.mm.n2[0], p.mm.n3, p.mm.d[0]]
    if cls == "TargetPar":
        return p.gvthresh + g("discont", "nnmin", "nnmax", "nxmin", "nxmax", "nymin", "nymax", "sumg_min", "cr_sz")
    if cls == "CalibrationPar":
        return [p.fixp_name] + [x for ab in zip(p.img_name, p.img_ori0) for x in ab] + g("tiff_flag", "pair_flag", "chfield")
    if cls == "MultiPlanesPar":
        return [p.num_planes] + p.filename
    return g(*SETS[cls])


TEXTS = [(c, n) for c in SETS if c != "MultimediaPar" for n in
         ((1, 2, 3, 4) if c in ("SequencePar", "ControlPar", "CalibrationPar", "MultiPlanesPar") else (1,))]
BY_FUNC = dict(TrackPar="read_track_par", SequencePar="read_sequence_par", VolumePar="read_volume_par", ControlPar="read_control_par",
               TargetPar="read_target_par", CalibrationPar="read_cal_ori_parameters", ExaminePar="read_examine_par")
ONLY = {"TrackPar": [f for f in SETS["TrackPar"] if f not in ("dsumg", "dn", "dnx", "dny")]}


@contract("C17", [P + c + ".from_file" for c, n in TEXTS if n == 1] + [P + f for f in BY_FUNC.values()], cases=250, jit=False, bounded=CAMS)
def every_field_comes_from_its_own_line(B):
    d = _dir(B)
    M = B.mod("parameters")
    cls, n = B.choice("set", TEXTS)
    but = {}
    if cls == "ControlPar":
        but = dict(num_cams=n, mm=_build(B, "MultimediaPar", 1, "mm", nlay=1))
    if cls == "MultiPlanesPar":
        but = dict(num_planes=n)
    p = _build(B, cls, n, **but)
    _put(d / "par", _text(_lines(p, cls)))
    a = (n,) if cls in ("SequencePar", "CalibrationPar") else ()
    how = B.choice("by", ["class", "function"]) if cls in BY_FUNC else "class"
    if how == "class":
        got = getattr(M, cls).from_file(d / "par", *a)
    else:
        got = B.call(P + BY_FUNC[cls], d / "par", *a)
    _same(B, got, p, cls, only=ONLY.get(cls))
    # a second set is not affected by the first
    other = getattr(M, cls)()
    fresh = {f: v for f, v in vars(other).items() if isinstance(v, list)}
    B.ens("defaults of new sets are left alone", all(len(v) == 0 for v in fresh.values()))


@contract("C17", [P + "write_target_par", P + "TargetPar.from_file", P + "PftVersionPar.write", P + "PftVersionPar.from_file"], cases=60, jit=False)
def text_files_read_back(B):
    d = _dir(B)
    M = B.mod("parameters")
    p = _build(B, "TargetPar", 4)
    want = B.snap(p)
    B.call(P + "write_target_par", p, d / "targ")
    _same(B, B.call(P + "read_target_par", d / "targ"), want, "TargetPar")
    _same(B, p, want, "TargetPar", "written ")
    f = _build(B, "PftVersionPar", 1)
    f.write(d / "pft")
    _same(B, M.PftVersionPar.from_file(d / "pft"), f, "PftVersionPar")


@contract("C17", [P + "TrackPar.from_file", P + "SequencePar.from_file", P + "ControlPar.from_file", P + "VolumePar.from_file"], cases=5, jit=False)
def a_missing_parameter_file_is_reported(B):
    d = _dir(B)
    B.raises(OSError, lambda: B.call(P + "read_track_par", d / "no"))
    B.raises(OSError, lambda: B.call(P + "read_sequence_par", d / "no", 4))
    B.raises(OSError, lambda: B.call(P + "read_control_par", d / "no"))
    B.raises(OSError, lambda: B.call(P + "read_volume_par", d / "no"))
    _put(d / "no", _text(range(4)))
    B.ens("a file that is there is read", B.call(P + "read_sequence_par", d / "no", 2).last == 3)


@contract("C17", [P + "convert_track_par_to_tuple"], cases=40, jit=False)
def the_tuple_form_has_the_same_fields(B):
    p = _build(B, "TrackPar", 1)
    t = B.call(P + "convert_track_par_to_tuple", p)
    B.ens("number of fields", len(t) == len(SETS["TrackPar"]))
    for f in SETS["TrackPar"]:
        B.ens(f, getattr(t, f) == getattr(p, f))


# ---------------------------------------------------------------- comparisons
CMP = dict(TrackPar="compare_track_par", SequencePar="compare_sequence_par", VolumePar="compare_volume_par", ControlPar="compare_control_par",
           TargetPar="compare_target_par", MultimediaPar="compare_mm_np")


def _equal(B, a, b, cls):
    out = []
    for f, k in SETS[cls].items():
        x, y = getattr(a, f), getattr(b, f)
        if k == "mm":
            out.append(_equal(B, x, y, "MultimediaPar"))
        elif isinstance(k, list):
            out.append(len(x) == len(y))
            out += [p == q for p, q in zip(x, y)]
        else:
            out.append(x == y)
    return B.all_(out)


@contract("C17", [P + f for f in CMP.values()], cases=400, jit=False, bounded="lists of 1 to 3 entries, all values", opts={"merge": True})
def sets_are_equal_exactly_when_all_fields_are(B):
    cls = B.choice("set", list(CMP))
    n = B.choice("n", [1, 2, 3]) if cls in ("SequencePar", "ControlPar", "MultimediaPar") else 1
    a = _build(B, cls, n, "a")
    fields = list(SETS[cls])
    if B.conc:
        import copy
        b = copy.deepcopy(a)
        f = B.choice("differs", ["no"] + fields)
        by = B.choice("by", [1, 1, 1e-7])
        more = lambda q: q + (by if isinstance(q, float) else 1)
        if f != "no":
            v = getattr(b, f)
            if isinstance(v, list):
                i = B.int("at", 0, 9) % len(v)
                v[i] = v[i] + "x" if isinstance(v[i], str) else more(v[i])
            elif SETS[cls][f] == "mm":
                v.d[-1] = more(v.d[-1])
            else:
                setattr(b, f, more(v))
    else:
        m = B.choice("other length", [n, n + 1]) if cls in ("SequencePar", "ControlPar", "MultimediaPar") else 1
        b = _build(B, cls, m, "b")
        for f, k in SETS[cls].items():
            if k == ["name"] and B.choice("names of " + f, ["same", "other"]) == "same":
                setattr(b, f, list(getattr(a, f)))
    B.ens(cls, B.iff(B.call(P + CMP[cls], a, b), _equal(B, a, b, cls)))
