"""Trusted models: text built from formatted values, text files in the ghost directory, yaml, tables read back from files."""
from __future__ import annotations

import contextlib
import datetime as _dt
import io
import pathlib
import shutil

import z3

from . import h5m, loops, textm
from .core import *  # noqa: F403
from .core import Cat, Fmt, Rep, _is_num
from .h5m import FS, Entry, PathM
from .interp import Model
from . import intrinsics
from .intrinsics import BY_NAME, CTORS, TABLE, reg

# ------------------------------------------------------------------ text as a list of parts


def parts(v):
    if isinstance(v, str):
        return (v,) if v else ()
    if isinstance(v, Cat):
        return v.ps
    if isinstance(v, SStr):
        return tuple(textm.pieces(v))
    if isinstance(v, Opaque):
        return (v,)
    raise Unsupported(f"text of {type(v).__name__}")


def text(*vs):
    out = []
    for v in vs:
        for p in parts(v):
            if isinstance(p, str) and out and isinstance(out[-1], str):
                out[-1] += p
            elif not isinstance(p, str) or p:
                out.append(p)
    if all(isinstance(p, str) for p in out):
        return "".join(out)
    return Cat(tuple(out))


def as_sstr(ip, v):
    """The same text as a term (formatted numbers by uninterpreted functions)."""
    if isinstance(v, (str, SStr)):
        return v
    ts = []
    for p in parts(v):
        if isinstance(p, (str, SStr)):
            ts.append(strterm(p))
        elif isinstance(p, Fmt) and _is_num(p.v):
            f = z3.Function("fmt!" + repr((p.spec, p.post)), z3.RealSort(), z3.StringSort())
            t = f(rterm(p.v))
            textm.note_plain(ip, t)
            ts.append(t)
        else:
            raise Unsupported("text of unknown content")
    return SStr(ts[0] if len(ts) == 1 else z3.Concat(*ts))


def cat_method(ip, o, name, args, kw):
    if name == "replace" and len(args) == 2 and all(isinstance(a, str) for a in args):
        out = []
        for p in o.ps:
            if isinstance(p, str):
                out.append(p.replace(*args))
            elif isinstance(p, Fmt):
                out.append(Cat((Fmt(p.v, p.spec, (*p.post, tuple(args))),)))
            else:
                raise Unsupported("replace in unknown text")
        return text(*out)
    if name == "encode":
        return Opaque(bytes, "encoded string")
    if name == "format":
        return Opaque(str, "format")
    raise Unsupported(f"str.{name} of formatted text")


# ------------------------------------------------------------------ files


class TextFileM(Model):
    m_type = io.TextIOWrapper

    def __init__(self, fs, entry, mode, enc=None):
        self.fs, self.e, self.mode, self.enc = fs, entry, mode, enc
        self.closed = False

    def _put(self, v):
        if "b" in self.mode:
            raise Unsupported("binary write")
        if not any(m in self.mode for m in "wax+"):
            raise PyExc(io.UnsupportedOperation("not writable"))
        if self.closed:
            raise PyExc(ValueError("I/O operation on closed file."))
        if isinstance(v, YamlText) and isinstance(self.e.content, str) and not self.e.content:
            self.e.content = v
            return
        self.e.content = text(self.e.content, v)

    def c_write(self, ip, v):
        if "b" in self.mode:
            if not isinstance(v, SBytes) and not isinstance(v, (bytes, bytearray)):
                raise Unsupported("binary write")
            if not any(m in self.mode for m in "wax+"):
                raise PyExc(io.UnsupportedOperation("write"))
            if self.mode[0] == "a" or not isinstance(self.e.content, (str, bytes)) or self.e.content:
                raise Unsupported("several binary writes")
            self.e.content = v
            return ip.c.fresh_int("written")
        if not isinstance(v, (str, SStr, Opaque)):
            raise PyExc(TypeError("write() argument must be str"))
        self._put(v)
        return ip.c.fresh_int("written")

    def c_writelines(self, ip, vs):
        for v in ip.concrete_iter(vs):
            self._put(v)

    def c_read(self, ip, *a):
        if a or not ("r" in self.mode or "+" in self.mode):
            raise Unsupported("partial read")
        if "b" not in self.mode and not isinstance(self.e.content, (str, SStr, Cat, YamlText)):
            raise Unsupported("text of a binary file")
        return self.e.content

    def c_flush(self, ip):
        return None

    def c_close(self, ip):
        self.closed = True

    def a_closed(self, ip):
        return self.closed

    def m_enter(self, ip):
        return self

    def m_exit(self, ip, e):
        self.closed = True
        return False

    def c___enter__(self, ip):
        return self

    def c___exit__(self, ip, *a):
        self.closed = True

    def m_iter(self, ip):
        s = self.c_read(ip)
        if isinstance(s, str):
            return s.splitlines(keepends=True)
        raise Unsupported("lines of symbolic text")


def open_path(ip, p, mode="r", buffering=-1, encoding=None, errors=None, newline=None):
    if not isinstance(p, PathM):
        raise Unsupported("open outside the ghost directory")
    fs = p.fs
    ip.trusted.add("open")
    ex = ip.truth(fs.exists(ip, p.nm))
    e = fs.lookup(ip, p.nm) if ex else None
    kind_ = mode.replace("b", "").replace("t", "").replace("U", "") or "r"
    fs.log.append((kind_, p.nm))
    if e is not None and e.kind == "dir":
        raise PyExc(IsADirectoryError(str(p.nm)))
    if kind_[0] == "r":
        if not ex:
            raise PyExc(FileNotFoundError("No such file"))
        if e is None or e.content is None:
            raise Unsupported("content of an unknown file")
        if "+" in kind_:
            e.touched = True
        return TextFileM(fs, e, mode, encoding)
    if kind_[0] == "x" and ex:
        raise PyExc(FileExistsError("File exists"))
    if kind_[0] not in "wxa":
        raise PyExc(ValueError("invalid mode"))
    if ex and kind_[0] == "a":
        if e is None:
            raise Unsupported("append to an unknown file")
        e.touched = True
        return TextFileM(fs, e, mode, encoding)
    if e is not None:
        e.touched = True
    new = fs.add(p.nm, Entry("file"))
    new.created = True
    new.content = ""
    return TextFileM(fs, new, mode, encoding)


def _c_open(self, ip, *a, **kw):
    return open_path(ip, self, *a, **kw)


def _c_write_text(self, ip, data, encoding=None, **kw):
    f = open_path(ip, self, "w")
    f._put(data)
    return None


def _c_read_text(self, ip, encoding=None, **kw):
    return open_path(ip, self, "r").c_read(ip)


def _c_write_bytes(self, ip, data):
    open_path(ip, self, "wb").c_write(ip, data)


def _c_read_bytes(self, ip):
    return open_path(ip, self, "rb").c_read(ip)


for _n, _f in (("open", _c_open), ("write_text", _c_write_text), ("read_text", _c_read_text), ("write_bytes", _c_write_bytes),
               ("read_bytes", _c_read_bytes)):
    setattr(PathM, "c_" + _n, _f)


@reg(open)
def b_open(ip, p, *a, **kw):
    return open_path(ip, p, *a, **kw)


class SBytes(Model):
    """Bytes of arbitrary content (a term)."""

    m_type = bytes

    def __init__(self, t):
        self.t = t

    def m_eq(self, ip, o):
        if isinstance(o, SBytes):
            return mkbool(self.t == o.t)
        if isinstance(o, (bytes, bytearray)):
            from .codecm import const
            return mkbool(self.t == const(ip, bytes(o)))
        if isinstance(o, Model) and o.m_type is bytes:
            raise Unsupported("bytes compared")
        return False

    def _len(self, ip):
        from .codecm import LEN
        n = SNum(LEN(self.t), "int")
        ip.c.axiom(("blen", self.t.get_id()), LEN(self.t) >= 0)
        return n

    def m_truth(self, ip):
        return compare(">", self._len(ip), 0)


def copy_file(ip, src, dst, **kw):
    if isinstance(src, str) and isinstance(dst, PathM):  # text of a path in the ghost directory
        pre = dst.dir + "/"
        if not src.startswith(pre):
            raise Unsupported("copy of unknown file")
        src = PathM(dst.fs, src[len(pre):], dst.dir)
    if not isinstance(src, PathM) or not isinstance(dst, PathM):
        raise Unsupported("copy of unknown file")
    ip.trusted.add("shutil.copy")
    data = open_path(ip, src, "rb").c_read(ip)
    if ip.truth(ip.truth_term(src.m_eq(ip, dst))):
        raise PyExc(shutil.SameFileError("same file"))
    if ip.truth(dst.c_is_dir(ip)):
        dst = dst.m_binop(ip, "/", src.nm)
    f = open_path(ip, dst, "wb")
    f.e.content = data
    return dst


for _f in (shutil.copy, shutil.copyfile, shutil.copy2):
    reg(_f)(copy_file)


# ------------------------------------------------------------------ yaml

class YamlText(Opaque):
    """Text of a data tree (read back by yaml as a copy of the tree)."""

    __slots__ = ("tree", "norm")

    def __init__(self, tree):
        super().__init__(str, "yaml")
        self.tree = tree


# ------------------------------------------------------------------ time

def fromtimestamp(ip, ts, tz=None):
    if not _is_num(ts):
        raise Unsupported("fromtimestamp")
    return textm.DtM(arith("*", ts, Fraction(1)), tz is not None)


BY_NAME[(_dt.datetime, "fromtimestamp")] = fromtimestamp


# ------------------------------------------------------------------ tables

STAMP = "%Y-%m-%d %H:%M:%S.%f"


def split_lines(ps):
    """[("line", parts) | ("rep", n, f: i -> parts of the one line of iteration i)]"""
    out, cur = [], []
    for p in ps:
        if isinstance(p, str):
            bits = p.split("\n")
            for b in bits[:-1]:
                out.append(("line", [*cur, b] if b else cur))
                cur = []
            if bits[-1]:
                cur.append(bits[-1])
        elif isinstance(p, Rep):
            if cur:
                raise Unsupported("repeated part within a line")
            probe = split_lines(p.f(SNum(z3.Int("row!probe"), "int")))
            if len(probe) != 1 or probe[0][0] != "line":
                raise Unsupported("not one line per iteration")
            out.append(("rep", p.n, lambda i, f=p.f: split_lines(f(i))[0][1]))
        else:
            cur.append(p)
    if cur:
        out.append(("open", cur))
    return out


class SymTable:
    def __init__(self, t, path, sep, head):
        self.t = t
        fs = path.fs
        e = fs.lookup(t.ip, path.nm)
        if e is None or e.content is None:
            raise Unsupported("no such file")
        ls = split_lines(parts(e.content))
        if any(x[0] == "open" for x in ls):
            raise Unsupported("last line is not terminated")
        self.sep = sep
        self.heads = []
        for _ in range(head):
            if not ls or ls[0][0] != "line":
                raise Unsupported("no header")
            self.heads.append(self.cells(ls.pop(0)[1]))
        self.ls = ls
        self.n = 0
        for x in ls:
            self.n = arith("+", self.n, 1 if x[0] == "line" else x[1])

    def cells(self, ps):
        out = [[]]
        for p in ps:
            if isinstance(p, str):
                bits = p.split(self.sep)
                for k, b in enumerate(bits):
                    if k:
                        out.append([])
                    if b.strip():
                        out[-1].append(b.strip())
            else:
                out[-1].append(p)
        return out

    def head(self):
        r = []
        for c in self.heads[0]:
            r.append(c[0] if len(c) == 1 and isinstance(c[0], (str, SStr)) else "" if not c else text(*[Cat((x,)) if isinstance(x, Fmt) else x for x in c]))
        return r

    def row(self, i):
        k = 0
        for x in self.ls:
            if x[0] == "line":
                if isinstance(i, int) and isinstance(k, int) and i == k:
                    return self.cells(x[1])
                k = arith("+", k, 1)
            else:
                if len(self.ls) == 1:
                    return self.cells(x[2](i))
                raise Unsupported("table of several parts")
        raise Unsupported("row")

    def width(self, i):
        return len(self.row(i))

    def _tok(self, i, j):
        r = self.row(i)
        if j >= len(r) or len(r[j]) != 1:
            return None
        return r[j][0]

    def num(self, i, j):
        p = self._tok(i, j)
        if isinstance(p, Fmt) and not p.spec and not p.post and _is_num(p.v):
            return p.v
        if isinstance(p, SStr):
            v = int_of(p.t)
            if v is not None:
                return v
        if isinstance(p, str):
            try:
                return lift(float(p))
            except ValueError:
                pass
        if p is None:
            self.t.ensure("a number in the cell", False)
        raise Unsupported("cell is no plain number")

    def time(self, i, j, rest=""):
        r = self.row(i)
        c = r[j] if j < len(r) else []
        if len(c) != (2 if rest else 1) or (rest and c[1] != rest):
            raise Unsupported("time cell")
        p = c[0]
        if isinstance(p, Fmt) and isinstance(p.v, textm.DtM) and p.spec == STAMP:
            return p.v.s
        raise Unsupported("cell is no time stamp")

    def text(self, i, j):
        p = self._tok(i, j)
        if p is None:
            return ""
        return Cat((p,)) if isinstance(p, Fmt) else p


def int_of(t):
    """The integer a text term renders (see intrinsics.to_str)."""
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        a = t.arg(1)
        if a.decl().name() == "int.to.str" or a.decl().kind() == z3.Z3_OP_INT_TO_STR:
            return SNum(a.arg(0), "int")
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_INT_TO_STR:
        return SNum(t.arg(0), "int")
    return None


class NatTable:
    def __init__(self, t, path, sep, head):
        data = pathlib.Path(path).read_text(encoding="utf-8-sig")
        ls = data.split("\n")
        t.ensure("last line is terminated", ls[-1] == "")
        ls = ls[:-1]
        self.t = t
        self.heads = [[c.strip() for c in x.split(sep)] for x in ls[:head]]
        self.ls = [[c.strip() for c in x.split(sep)] for x in ls[head:]]
        self.n = len(self.ls)

    def head(self):
        return self.heads[0]

    def width(self, i):
        return len(self.ls[i])

    def _cell(self, i, j):
        r = self.ls[i]
        self.t.ensure("enough cells in the row", j < len(r))
        return r[j]

    def num(self, i, j):
        c = self._cell(i, j)
        try:
            return float(c)
        except ValueError:
            self.t.ensure(f"a number in the cell ({c[:40]!r})", False)

    def time(self, i, j, rest=""):
        from shepherd_core.data_models.base.timezone import local_tz
        c = self._cell(i, j)
        try:
            return _dt.datetime.strptime(c, STAMP + rest).replace(tzinfo=local_tz()).timestamp()
        except ValueError:
            self.t.ensure(f"a time stamp in the cell ({c[:40]!r})", False)

    def text(self, i, j):
        return self._cell(i, j)


# ------------------------------------------------------------------ exit stacks

class ExitStackM(Model):
    m_type = contextlib.ExitStack

    def __init__(self):
        self.stack = []

    def c_enter_context(self, ip, cm):
        v, ex = intrinsics.enter_cm(ip, cm)
        self.stack.append(ex)
        return v

    def c_close(self, ip):
        todo, self.stack = self.stack[::-1], []
        for x in todo:
            x(ip, None)

    def c___enter__(self, ip):
        return self

    def m_truth(self, ip):
        return True


CTORS[contextlib.ExitStack] = lambda ip, cls: ExitStackM()
