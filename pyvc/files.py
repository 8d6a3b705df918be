"""pyvc.files -- virtual files: text whose numbers may be symbolic.

A formatted symbolic value leaves a token ⟦n⟧ in the text; parsing the token
gives the value back, up to the rounding of its format (assumed contract of
CPython's / numpy's number formatting: a value printed with k decimals parses
back to within half a unit of the last place; repr of a float is exact).
"""
import builtins
import copy
import io
import re
import types
from fractions import Fraction
from pathlib import PurePosixPath

import numpy as np
import z3

from . import core
from .arr import note_write
from .core import SBool, SInt, SNum, SReal, Unsupported, conv, ctx

TOK = re.compile("\u27e6\\d+\u27e7")


class VPath(PurePosixPath):
    def exists(self):
        return str(self) in ctx().files

    is_file = exists

    def open(self, mode="r", **k):
        return vopen(self, mode, **k)

    def unlink(self, missing_ok=False):
        f = ctx().files
        if str(self) not in f and not missing_ok:
            raise FileNotFoundError(str(self))
        f.pop(str(self), None)

    def read_text(self, **k):
        return vopen(self, "r").read()

    def write_text(self, s, **k):
        with vopen(self, "w") as f:
            f.write(s)

    @classmethod
    def cwd(cls):
        return cls("/cwd")

    def resolve(self):
        return self


PATHLIB = types.ModuleType("pathlib")
PATHLIB.Path = VPath
PATHLIB.PurePath = PurePosixPath


class Rows:
    """Text of any length: the lines head, then n lines with one number for each column (term over
    the line number, kind, decimals; None: an integer), then the lines tail."""

    def __init__(self, head, n, cols, j, tail=()):
        self.head, self.n, self.cols, self.j, self.tail = list(head), n, cols, j, list(tail)

    @classmethod
    def of(cls, head, n, fields, tail=()):
        c = ctx()
        j = c.fresh_int("j")
        c.spec += 1
        try:
            fs = fields(j)
        finally:
            c.spec -= 1
        cols = []
        for v, d in fs:
            v = conv(v, "i" if d is None else "f")
            cols.append((z3.simplify(core.term(v, d is not None)), d))
        return cls(head, n, cols, j.t, tail)

    def field(self, k, j):
        t, d = self.cols[k]
        return core.lift(z3.simplify(z3.substitute(t, (self.j, core.term(j)))))

    def line(self, j):
        return " ".join(core.ctx_hole(self.field(k, j), "d" if d is None else f".{d}f")
                        for k, (_, d) in enumerate(self.cols)) + "\n"


UNKNOWN = object()


def field_is(tok, v, d):
    """The text tok is the number v, to d decimals at least (None: an integer)."""
    if not TOK.search(tok):
        w = conv(v, "f" if d is not None else "i")
        return SBool(core.term(w, d is not None) == core.term(conv(float(tok), "f") if d is not None else int(tok), d is not None))
    if not TOK.fullmatch(tok):
        raise Unsupported("text of more than one number")
    hv, spec = ctx().holes[tok]
    if isinstance(hv, SBool):
        raise Unsupported("text of a truth value")
    if d is None:
        if not isinstance(hv, SInt) and spec != "%d":
            return SBool(z3.BoolVal(False))
        return conv(hv, "i") == conv(v, "i")
    if not isinstance(hv, SInt) and spec not in ("", "r"):
        k = decimals(spec) if spec != "%d" else 0
        if k is None:
            raise Unsupported(f"number format {spec!r}")
        if k < d:
            return SBool(z3.BoolVal(False))
    return conv(hv, "f") == conv(v, "f")


def holds_rows(f, head, n, fields):
    """The file written holds the lines head and then n lines fields(0), fields(1), ...  (After a
    symbolic loop has been cut the invariant that says so defines what the file holds.)"""
    c = ctx()
    new = Rows.of([], n, fields)
    if f.unknown:
        f.unknown = False
        f.rows = Rows([" ".join(core.ctx_hole(v, "d") if isinstance(v, SNum) else str(v) for v in h) + "\n" for h in head],
                      n, new.cols, new.j)
        f.io = io.StringIO()
        f._sync()
        return SBool(z3.BoolVal(True))
    text = f.io.getvalue()
    if text and not text.endswith("\n"):
        raise Unsupported("an unfinished line")
    lines = text.splitlines()
    ps = []
    if f.rows is None:
        heads, lines, m = lines[:len(head)], lines[len(head):], 0
    else:
        heads, m = f.rows.head, f.rows.n
        if f.rows.tail or len(f.rows.cols) != len(new.cols):
            raise Unsupported("another layout")
        i = z3.Int(c.fresh_name("i"))
        for k, (_, d) in enumerate(new.cols):
            d0 = f.rows.cols[k][1]
            if (d is None) != (d0 is None) or (d is not None and d0 < d):
                return SBool(z3.BoolVal(False))
            a, b = core.term(f.rows.field(k, SInt(i))), core.term(new.field(k, SInt(i)))
            if not z3.simplify(a == b).eq(z3.BoolVal(True)):
                ps.append(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < core.term(m)), a == b)))
    if len(heads) != len(head):
        raise Unsupported("another number of lines before the rows")
    for h, w in zip(heads, head):
        h = h.split()
        if len(h) != len(w):
            raise Unsupported("another layout of the first lines")
        ps += [core.term_b(field_is(t, v, None)) for t, v in zip(h, w)]
    for q, ln in enumerate(lines):
        ts = ln.split()
        if len(ts) != len(new.cols):
            raise Unsupported("another layout of the lines")
        ps += [core.term_b(field_is(t, new.field(k, m + q), d)) for k, (t, (_, d)) in enumerate(zip(ts, new.cols))]
    ps.append(core.term(m + len(lines)) == core.term(n))
    return SBool(z3.And(*ps))


class Lines:
    """The lines of a text of any length, from one of the first lines on."""
    __vc_seq__ = True

    def __init__(self, rows, start):
        self.rows, self.start = rows, start

    def __vc_symbolic__(self):
        return True

    def __vc_len__(self):
        r = self.rows
        return len(r.head) - self.start + r.n + len(r.tail)

    def __iter__(self):
        raise Unsupported("the lines of a file of any length outside a for statement")

    def __getitem__(self, i):
        c, r = ctx(), self.rows
        h = len(r.head) - self.start
        if isinstance(i, slice):
            if i.stop is not None or i.step is not None or not isinstance(i.start, int) or not 0 <= i.start <= h:
                raise Unsupported("some lines of a file of any length")
            return Lines(r, self.start + i.start)
        if isinstance(i, int) and i < 0:
            raise Unsupported("the last lines of a file of any length")
        c.safe("index in bounds", SBool(z3.And(core.term(i) >= 0, core.term(i) < core.term(self.__vc_len__()))))
        for k in range(h):
            if _is(c, i, k):
                return r.head[self.start + k]
        q = i - h
        for k, t in enumerate(r.tail):
            if _is(c, q - r.n, k):
                return t
        return r.line(q)


class VFile:
    rows, unknown, pos, lost = None, False, 0, False

    def __init__(self, path, mode):
        self.path, self.mode = path, mode
        self.closed = False
        self.serial = next(ctx().serial)
        self.base = self
        ctx().opened.append(self)
        f = ctx().files
        if "r" in mode:
            if path not in f:
                raise FileNotFoundError(2, "No such file or directory", path)
            if f[path] is UNKNOWN:
                raise Unsupported("a file a loop has written")
            self.io = io.StringIO(f[path] if isinstance(f[path], str) else "")
            self.obj = f[path] if not isinstance(f[path], (str, Rows)) else None
            self.rows = f[path] if isinstance(f[path], Rows) else None
        else:
            if any(L.sym for L in ctx().loop_stack) or ("a" in mode and not isinstance(f.get(path, ""), str)):
                raise Unsupported("a file opened for writing in a symbolic loop")
            self.io = io.StringIO()
            if "a" in mode:
                self.io.write(f.get(path, ""))
            f[path] = self.io.getvalue()
            self.obj = None

    def _sync(self):
        if "r" not in self.mode:
            ctx().files[self.path] = self.obj if self.obj is not None else self.content()

    def content(self):
        if self.unknown:
            return UNKNOWN
        t = self.io.getvalue()
        if self.rows is None:
            return t
        if t and not t.endswith("\n"):
            raise Unsupported("an unfinished line")
        r = self.rows
        return Rows(r.head, r.n, r.cols, r.j, r.tail + t.splitlines(keepends=True))

    def __vc_heap__(self):
        return [self]

    def __vc_havoc__(self, template=None):
        if "r" not in self.mode:
            self.unknown, self.rows, self.io = True, None, io.StringIO()
            ctx().files[self.path] = UNKNOWN
            return
        self.lost = self.rows is None
        self.pos = ctx().fresh_int("pos")
        ctx().assume(self.pos >= 0)

    def write(self, s):
        if self.closed:
            raise ValueError("I/O operation on closed file.")
        if "r" in self.mode:
            raise io.UnsupportedOperation("not writable")
        if not isinstance(s, str):
            raise TypeError("write() argument must be str")
        note_write(ctx(), self)
        if self.unknown:
            raise Unsupported("the loop invariant does not say what the file holds")
        self.io.write(s)
        self._sync()
        return len(s)

    def writelines(self, ls):
        for s in ls:
            self.write(s)

    def _short(self):
        note_write(ctx(), self)
        if self.rows is not None or self.lost:
            raise Unsupported("a file of any length read as a whole")

    def read(self, *a):
        self._short()
        return self.io.read(*a)

    def readline(self, *a):
        if self.closed:
            raise ValueError("I/O operation on closed file.")
        c = ctx()
        note_write(c, self)
        if self.lost:
            raise Unsupported("a short file read in a symbolic loop")
        if self.rows is None:
            t = self.io.readline(*a)
            self.pos += bool(t)
            return t
        r, p = self.rows, self.pos
        h = len(r.head)
        self.pos = p + 1
        for i in range(h):
            if _is(c, p, i):
                self.pos = i + 1
                return r.head[i]
        q = p - h
        if c.fork(SBool(core.term(q) < core.term(r.n))):
            return r.line(q)
        for i, t in enumerate(r.tail):
            if _is(c, q - r.n, i):
                return t
        self.pos = p
        return ""

    def __vc_lines__(self):
        return self.readlines() if self.rows is not None else self

    def readlines(self):
        if self.rows is not None and isinstance(self.pos, int) and self.pos <= len(self.rows.head):
            r, p = self.rows, self.pos
            note_write(ctx(), self)
            self.pos = len(r.head) + r.n + len(r.tail)
            return Lines(r, p)
        self._short()
        return self.io.readlines()

    def __iter__(self):
        self._short()
        return iter(self.io)

    def flush(self):
        self._sync()

    def close(self):
        note_write(ctx(), self)
        self._sync()
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False


def _is(c, p, i):
    if isinstance(p, int):
        return p == i
    return c.fork(SBool(core.term(p) == i))


def vopen(path, mode="r", *a, **k):
    if core.Ctx.cur is None:
        raise Unsupported("file access outside an exploration")
    if not isinstance(path, (str, PurePosixPath)):
        raise TypeError(f"expected str, bytes or os.PathLike object, not {type(path).__name__}")
    if str(path) == "":
        raise FileNotFoundError(2, "No such file or directory", "")
    if "b" in mode:
        raise Unsupported("binary file")
    core.ctx().stats.trusted.add("file system: a file reads back the text written to it")
    return VFile(str(path), mode)


def decimals(spec):
    m = re.fullmatch(r"[<>=^]?[-+ ]?0?\d*(?:\.(\d+))?f", spec)
    if not m:
        return None
    return int(m.group(1)) if m.group(1) is not None else 6


def parse_num(s, kind):
    """int()/float() of text."""
    s = s.strip()
    c = core.Ctx.cur
    if c is not None and "\u27e6" in s:
        if not TOK.fullmatch(s):
            raise ValueError(f"could not convert string to number: {s!r}")
        v, spec = c.holes[s]
        key = ("parse", s, kind)
        if key in c.memo:
            return c.memo[key]
        r = _parse_hole(c, v, spec, kind)
        c.memo[key] = r
        return r
    return float(s) if kind == "f" else int(s)


def _parse_hole(c, v, spec, kind):
    if isinstance(v, SBool):
        raise ValueError("could not convert a truth value's text to a number")
    if re.fullmatch(r"[<>=^]?[-+ ]?0?\d*[di]", spec) or (spec == "" and isinstance(v, SInt)) or (
            isinstance(v, SInt) and re.fullmatch(r"[<>=^]?0?\d*", spec)):
        i = v if isinstance(v, SInt) else None
        if i is None:
            raise ValueError("Unknown format code 'd' for object of type 'float'")
        return i if kind == "i" else conv(i, "f")
    if kind == "i":
        if spec == "%d":
            return conv(v, "i")
        raise ValueError("invalid literal for int()")
    if spec == "%d":
        return conv(conv(v, "i"), "f")
    if spec == "" or spec == "r":
        return conv(v, "f")
    d = decimals(spec)
    if d is None:
        raise Unsupported(f"number format {spec!r}")
    c.stats.trusted.add("number formatting: a value printed with k decimals parses back within half a unit of the "
                        "last place; repr/str of a float parses back exactly")
    t = core.term(v, True)
    r = c.fresh_real("rnd")
    h = Fraction(1, 2 * 10 ** d)
    c.defs.append((r.t, t, lambda x: round(x, d)))
    c.assume(r.t - t <= z3.RealVal(str(h)))
    c.assume(t - r.t <= z3.RealVal(str(h)))
    return r


def savetxt(fname, x, fmt, header, comments):
    from .arr import SArr
    from .shim import as_arr
    from .symseq import SymSeq
    if isinstance(x, SymSeq):
        if ctx().fork(SBool(core.term(x.n) == 0)):
            k = x.t[1] if isinstance(x.t, tuple) else 1
            x = SArr(np.empty((0, k) if not getattr(x, "listed", False) else (0,), dtype=object), "f")
        else:
            return save_rows(fname, x, fmt, header, comments)
    if not isinstance(x, SArr):
        x = as_arr(x)
    a = x.a
    if a.ndim == 0 or a.ndim > 2:
        raise ValueError("Expected 1D or 2D array")
    if a.ndim == 1:
        a = a.reshape(-1, 1) if a.size else a.reshape(0, 1)
    fmts = re.findall(r"%[^%a-zA-Z]*[a-zA-Z]", fmt)
    if len(fmts) == 1:
        row = [fmt] * a.shape[1]
        seps = " ".join(row)
    elif len(fmts) == a.shape[1]:
        seps = fmt
    else:
        raise ValueError(f"fmt has wrong number of % formats:  {fmt}")
    pieces = re.split(r"(%[^%a-zA-Z]*[a-zA-Z])", seps)
    with vopen(fname if isinstance(fname, str) else str(fname), "w") as f:
        if header:
            f.write(comments + header + "\n")
        for r in range(a.shape[0]):
            out, j = [], 0
            for p in pieces:
                if p.startswith("%") and len(p) > 1:
                    out.append(pct(p, a[r, j]))
                    j += 1
                else:
                    out.append(p)
            f.write("".join(out) + "\n")


def save_rows(fname, x, fmt, header, comments):
    """np.savetxt of an array with any number of rows."""
    if not isinstance(x.t, tuple) or not isinstance(x.t[2], str):
        raise Unsupported("savetxt of this array")
    x, m = x.copy(), x.t[1]
    pieces = re.split(r"(%[^%a-zA-Z]*[a-zA-Z])", fmt)
    fmts = pieces[1::2]
    if len(fmts) == 1:
        fmts, seps = fmts * m, [" "] * (m - 1)
    else:
        seps = pieces[2:-1:2]
    if len(fmts) != m:
        raise ValueError(f"fmt has wrong number of % formats:  {fmt}")
    if any(not q or q.strip() for q in seps) or pieces[0].strip() or pieces[-1].strip():
        raise Unsupported("numbers not separated by blanks")
    for p in fmts:
        if p[-1] not in "dif" or (p[-1] == "f" and decimals(p[1:]) is None):
            raise Unsupported(f"format {p}")
    with vopen(fname if isinstance(fname, str) else str(fname), "w") as f:
        if header:
            f.write(comments + header + "\n")
        r = Rows.of(f.io.getvalue().splitlines(keepends=True), x.n, lambda j: [
            (x.at(j, f".{k}"), None if p[-1] in "di" else decimals(p[1:])) for k, p in enumerate(fmts)])
        f.rows, f.io = r, io.StringIO()
        f._sync()


def pct(p, v):
    """'%9.4f' % v"""
    if not isinstance(v, (SNum, SBool)):
        return p % v
    if p[-1] in "di":
        if isinstance(v, SInt):
            return core.ctx_hole(v, "d")
        return core.ctx_hole(v, "%d")
    if p[-1] == "f":
        return core.ctx_hole(v, p[1:])
    raise Unsupported(f"format {p}")


# ---------------------------------------------------------------- yaml
YAML = types.ModuleType("yaml")


def _dump(data, stream=None, **k):
    if stream is None or not isinstance(stream, VFile):
        raise Unsupported("yaml.dump without a file")
    ctx().stats.trusted.add("yaml: safe_load(dump(d)) == d for plain data")
    stream.obj = ("yaml", _plain(data))
    stream._sync()


def _plain(d):
    from .loops import VList
    if isinstance(d, dict):
        return {k: _plain(v) for k, v in d.items()}
    if isinstance(d, VList):
        return VList([_plain(v) for v in d])
    if isinstance(d, list):
        return [_plain(v) for v in d]
    if isinstance(d, (int, float, str, bool, SNum, SBool, type(None))):
        return d
    raise Unsupported(f"yaml of {type(d).__name__}")


def _load(stream, *a, **k):
    if not isinstance(stream, VFile) or stream.obj is None:
        raise Unsupported("yaml.safe_load of text")
    return copy.deepcopy(stream.obj[1])


YAML.dump = YAML.safe_dump = _dump
YAML.safe_load = YAML.load = _load
YAML.YAMLError = type("YAMLError", (Exception,), {})
