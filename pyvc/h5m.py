"""Trusted models of h5py (in-memory tree) and of the part of the file system that recordings live in.

The same calls build real files in a scratch directory when a contract is evaluated on the running code."""
from __future__ import annotations

import pathlib
from pathlib import Path

import h5py
import numpy as np
import z3

from .arrays import SArr, as_arr, cast, dt_of, ilen, norm_slice, seq_getitem, strip, tag, _NPD
from .core import *  # noqa: F403
from .core import _is_num
from .interp import Model, ModelMethod
from .intrinsics import CTORS, DTypeM, np_dt


def maybe(cond, v):
    """Entry that is present only under a condition."""
    return Maybe(cond, v)


class Maybe:
    def __init__(self, cond, v):
        self.cond = cond
        self.v = v


def attr_value(ip, v):
    """What h5py hands back for a stored attribute."""
    if isinstance(v, (str, SStr)):
        return v
    if isinstance(v, (bool, SBool)):
        return SBool(bterm(v), "bool") if isinstance(v, SBool) else v
    if isinstance(v, SNum) and v.np:
        return v
    if _is_num(v):
        return tag(v, "i8" if kind(v) == "int" else "f8")
    if isinstance(v, bytes):
        return v
    if type(v).__name__ == "YamlText":
        return v
    raise Unsupported(f"h5 attribute of type {type(v).__name__}")


class H5Attrs(Model):
    m_type = h5py.AttributeManager

    def __init__(self, d=None):
        self.d = dict(d or {})  # name -> [present, value]

    def has(self, k):
        e = self.d.get(k)
        return False if e is None else e[0]

    def _key(self, ip, k):
        if isinstance(k, str):
            return k
        raise Unsupported("symbolic attribute name")

    def m_contains(self, ip, k):
        return self.has(self._key(ip, k))

    def m_getitem(self, ip, k):
        k = self._key(ip, k)
        if not ip.truth(self.has(k)):
            raise PyExc(KeyError(f"Unable to open attribute '{k}'"))
        return self.d[k][1]

    def m_setitem(self, ip, k, v):
        k = self._key(ip, k)
        self.d = {**self.d, k: [True, attr_value(ip, v)]}

    def m_delitem(self, ip, k):
        self.m_getitem(ip, k)
        self.d = {x: y for x, y in self.d.items() if x != k}

    def m_iter(self, ip):
        return [k for k, e in self.d.items() if ip.truth(e[0])]

    def c_get(self, ip, k, d=None):
        return self.m_getitem(ip, k) if ip.truth(self.has(k)) else d

    def c_keys(self, ip):
        return self.m_iter(ip)

    def c_items(self, ip):
        return [(k, self.d[k][1]) for k in self.m_iter(ip)]

    def c_values(self, ip):
        return [self.d[k][1] for k in self.m_iter(ip)]

    def c___contains__(self, ip, k):
        return self.m_contains(ip, k)

    def c___getitem__(self, ip, k):
        return self.m_getitem(ip, k)

    def c___setitem__(self, ip, k, v):
        self.m_setitem(ip, k, v)

    def c_create(self, ip, name, data, **kw):
        self.m_setitem(ip, name, data)


class H5Node(Model):
    def m_eq(self, ip, o):
        return self is o


class H5Group(H5Node):
    m_type = h5py.Group

    def __init__(self, name="/", file=None):
        self.name = name
        self.items = {}  # name -> [present, node]
        self.attrs = H5Attrs()
        self.file = file or self

    # -- access
    def _walk(self, ip, path):
        if not isinstance(path, str):
            raise Unsupported("symbolic object name")
        o = self.file if path.startswith("/") else self
        for p in [x for x in path.split("/") if x]:
            e = o.items.get(p) if isinstance(o, H5Group) else None
            if e is None or not ip.truth(e[0]):
                return None
            o = e[1]
        return o

    def m_getitem(self, ip, k):
        o = self._walk(ip, k)
        if o is None:
            raise PyExc(KeyError(f"Unable to open object '{k}'"))
        return o

    def m_contains(self, ip, k):
        if isinstance(k, str) and k.strip("/").count("/") == 0:
            e = self.items.get(k.strip("/"))
            return False if e is None else e[0]
        return self._walk(ip, k) is not None

    def m_iter(self, ip):
        return [k for k, e in sorted(self.items.items()) if ip.truth(e[0])]

    def m_len(self, ip):
        return len(self.m_iter(ip))

    def m_delitem(self, ip, k):
        self.m_getitem(ip, k)
        self.items = {x: y for x, y in self.items.items() if x != k}

    def a_attrs(self, ip):
        return self.attrs

    def a_name(self, ip):
        return self.name

    def a_file(self, ip):
        return self.file

    def c_keys(self, ip):
        return self.m_iter(ip)

    def c_values(self, ip):
        return [self.items[k][1] for k in self.m_iter(ip)]

    def c_items(self, ip):
        return [(k, self.items[k][1]) for k in self.m_iter(ip)]

    def c_get(self, ip, k, d=None):
        o = self._walk(ip, k)
        return d if o is None else o

    def c___getitem__(self, ip, k):
        return self.m_getitem(ip, k)

    def c___contains__(self, ip, k):
        return self.m_contains(ip, k)

    def put(self, k, node):
        self.items = {**self.items, k: [True, node]}
        return node

    def c_create_group(self, ip, name):
        if self.m_contains(ip, name) is not False:
            if ip.truth(self.m_contains(ip, name)):
                raise PyExc(ValueError("Unable to create group (name already exists)"))
        return self.put(name, H5Group(self.name.rstrip("/") + "/" + name, self.file))

    def c_require_group(self, ip, name):
        o = self._walk(ip, name)
        return o if o is not None else self.c_create_group(ip, name)

    def c_create_dataset(self, ip, name, shape=None, dtype=None, data=None, maxshape=None, chunks=None,
                         compression=None, compression_opts=None, **kw):
        if ip.truth(self.m_contains(ip, name)):
            raise PyExc(ValueError("Unable to create dataset (name already exists)"))
        if data is not None:
            a = as_arr(ip, data) if not isinstance(data, SArr) else data
            dt = np_dt(dtype) if dtype is not None else a.dt
            g = a.snapshot()
            arr = SArr(a.n, lambda i: h5_cast(strip(g(i)), dt), dt)
        else:
            if isinstance(shape, tuple):
                if len(shape) != 1:
                    raise Unsupported("n-d dataset")
                shape = shape[0]
            dt = np_dt(dtype) if dtype is not None else "f4"
            z = Fraction(0) if dt[0] == "f" else 0
            arr = SArr(shape, lambda i: z, dt)
        if isinstance(compression, int) and not isinstance(compression, bool):
            compression, compression_opts = "gzip", compression
        if compression == "gzip" and compression_opts is None:
            compression_opts = 4
        if compression not in (None, "gzip", "lzf"):
            raise PyExc(ValueError(f'Compression filter "{compression}" is unavailable'))
        d = H5Dataset(arr, self.name.rstrip("/") + "/" + name, chunks=chunks, compression=compression,
                      opts=compression_opts, resizable=maxshape is not None)
        return self.put(name, d)


class H5File(H5Group):
    m_type = h5py.File

    def __init__(self):
        super().__init__("/")
        self.closed = False
        self.filename = "recording.h5"
        self.mode = "r+"

    def m_truth(self, ip):
        return not self.closed

    def m_getitem(self, ip, k):
        if self.closed:
            raise PyExc(ValueError("Invalid location identifier"))
        return super().m_getitem(ip, k)

    def c_flush(self, ip):
        return None

    def c_close(self, ip):
        self.closed = True

    def a_filename(self, ip):
        return self.filename

    def a_id(self, ip):
        return _H5Id()

    def c___enter__(self, ip):
        return self

    def c___exit__(self, ip, *a):
        self.closed = True


class _H5Id(Model):
    def c_get_access_plist(self, ip):
        return self

    def c_get_cache(self, ip):
        return (0, 521, 1048576, Fraction(3, 4))


def h5_cast(v, dt):
    """HDF5 conversion of a stored value: numbers are clipped to the target range, floats truncated."""
    if not _is_num(v) or dt == "bool":
        return v
    if dt[0] == "f":
        return mknum(rterm(v), "float")
    if kind(v) == "float":
        v = num_trunc(v)
    info = np.iinfo(_NPD[dt])
    c = ctx()
    lo, hi = int(info.min), int(info.max)
    if isinstance(v, int):
        return min(max(v, lo), hi)
    if not (c is not None and c.quick_valid(compare(">=", v, lo))):
        v = smax(v, lo)
    if not (c is not None and c.quick_valid(compare("<=", v, hi))):
        v = smin(v, hi)
    return mknum(nterm(v), "int")


class H5Dataset(H5Node):
    m_type = h5py.Dataset

    def __init__(self, arr, name, attrs=None, chunks=None, compression=None, opts=None, resizable=True):
        self.arr = arr.copy()  # stores must not reach the array it was made from
        self.name = name
        self.attrs = H5Attrs(attrs)
        self.chunks = chunks
        self.compression = compression
        self.opts = opts
        self.resizable = resizable

    def snapshot(self):
        return SArr(self.arr.n, self.arr.snapshot(), self.arr.dt)

    def a_attrs(self, ip):
        return self.attrs

    def a_shape(self, ip):
        return (self.arr.n,)

    def a_size(self, ip):
        return self.arr.n

    def a_ndim(self, ip):
        return 1

    def a_maxshape(self, ip):
        return (None,) if self.resizable else (self.arr.n,)

    def a_dtype(self, ip):
        return DTypeM(self.arr.dt)

    def a_name(self, ip):
        return self.name

    def a_compression(self, ip):
        return self.compression

    def a_compression_opts(self, ip):
        return self.opts

    def a_chunks(self, ip):
        return self.chunks

    def m_len(self, ip):
        return self.arr.n

    def m_iter(self, ip):
        from .arrays import items_of
        return items_of(ip, self.snapshot())

    def m_getitem(self, ip, k):
        if k is Ellipsis or (isinstance(k, tuple) and k == ()):
            return self.snapshot()
        if isinstance(k, tuple) and len(k) == 1:
            k = k[0]
        if isinstance(k, slice):
            if isinstance(k.step, int) and k.step < 1:
                raise PyExc(ValueError("Step must be >= 1"))
            a, ln, step = norm_slice(ip, self.arr.n, k)
            g = self.arr.snapshot()
            if isinstance(step, int) and step == 1:
                return SArr(ln, lambda i: g(arith("+", a, i)), self.arr.dt, org=(g, a))
            return SArr(ln, lambda i: g(arith("+", a, arith("*", i, step))), self.arr.dt)
        return seq_getitem(ip, self.snapshot(), k)

    def m_setitem(self, ip, k, v):
        n = self.arr.n
        if k is Ellipsis:
            k = slice(None, None, None)
        if not isinstance(k, slice):
            if isinstance(k, (int, SNum)):
                if not ip.truth(And(compare("<", k, n), compare(">=", k, arith("-", 0, n)))):
                    raise PyExc(IndexError("Index out of range"))
                if not ip.truth(compare(">=", k, 0)):
                    k = arith("+", k, n)
                val = h5_cast(strip(v), self.arr.dt)
                self._write(k, 1, lambda i: val)
                return
            raise Unsupported("dataset store")
        s, ln, step = norm_slice(ip, n, k)
        if not (isinstance(step, int) and step == 1):
            raise Unsupported("strided dataset store")
        dt = self.arr.dt
        if isinstance(v, H5Dataset):
            v = v.snapshot()
        if _is_num(v):
            val = h5_cast(strip(v), dt)
            self._write(s, ln, lambda i: val)
            return
        if not isinstance(v, SArr):
            v = as_arr(ip, v)
        if ip.truth(compare("!=", v.n, ln)):
            if ip.truth(compare("==", v.n, 1)):
                val = h5_cast(v.at(0), dt)
                self._write(s, ln, lambda i: val)
                return
            raise PyExc(TypeError("Can't broadcast (m,) -> (n,)"))
        g = v.snapshot()
        self._write(s, ln, lambda i: h5_cast(strip(g(i)), dt))

    def _write(self, s, n, fn):
        self.arr.write(s, n, fn)  # handed out snapshots keep their own element function

    def c_resize(self, ip, size, axis=None):
        if not self.resizable:
            raise PyExc(TypeError("Only chunked datasets can be resized"))
        if isinstance(size, tuple):
            if len(size) != 1:
                raise PyExc(TypeError("rank mismatch"))
            size = size[0]
        size = strip(size)
        if not _is_num(size) or kind(size) == "float":
            raise PyExc(TypeError("size"))
        if ip.truth(compare("<", size, 0)):
            raise PyExc(ValueError("negative size"))
        old, n0, dt = self.arr.snapshot(), self.arr.n, self.arr.dt
        z = Fraction(0) if dt[0] == "f" else 0

        def get(i):
            ins = compare("<", i, n0)
            if ins is True or (ins is not False and ctx() is not None and ctx().quick_valid(ins)):
                return old(i)
            if ins is False or (ctx() is not None and ctx().quick_valid(Not(ins))):
                return z
            return ite(ins, old(i), z)
        self.arr = SArr(size, get, dt)

    def c_astype(self, ip, dtype):
        return ip.call(ip.getattr(self.snapshot(), "astype"), [dtype], {})

    def c_len(self, ip):
        return self.arr.n


# ----------------------------------------------------------------- file system

_EXISTS = z3.Function("fs_exists", z3.StringSort(), z3.BoolSort())


class Entry(Model):
    def __init__(self, kind, node=None, exists=True):
        self.kind = kind      # "h5" | "file" | "dir"
        self.node = node
        self.exists = exists
        self.touched = False
        self.created = False
        self.content = None


class FS(Model):
    """Ghost directory: named entries, an unknown set of further files, and a log of writes."""

    def __init__(self, others=False):
        self.entries = []    # (name: str|SStr, Entry), latest first
        self.others = others  # unknown further files may exist
        self.log = []

    def lookup(self, ip, name):
        for nm, e in self.entries:
            t = ip.truth_term(ip.eq_term(nm, name))
            if ip.truth(t):
                return e
        return None

    def exists(self, ip, name):
        """bool term"""
        r = mkbool(_EXISTS(strterm(name))) if self.others else False
        for nm, e in reversed(self.entries):
            t = ip.truth_term(ip.eq_term(nm, name))
            r = ite(t, e.exists, r) if not isinstance(t, bool) else (e.exists if t else r)
        return r

    def add(self, name, entry):
        self.entries = [(name, entry), *self.entries]
        return entry


class PathM(Model):
    """Path inside the ghost directory (its parent is a fresh scratch directory)."""

    m_type = pathlib.PosixPath

    def __init__(self, fs, name, parent="/scratch"):
        self.fs = fs
        self.nm = name
        self.dir = parent

    def _p(self):
        if not isinstance(self.nm, str):
            raise Unsupported("name of symbolic path")
        return pathlib.PurePosixPath(self.dir) / self.nm

    def m_eq(self, ip, o):
        return isinstance(o, PathM) and o.dir == self.dir and ip.truth_term(ip.eq_term(self.nm, o.nm))

    def m_str(self, ip):
        if isinstance(self.nm, str):
            return f"{self.dir}/{self.nm}"
        return SStr(z3.Concat(z3.StringVal(self.dir + "/"), self.nm.t))

    def c_as_posix(self, ip):
        return self.m_str(ip)

    def a_name(self, ip):
        return self._p().name if isinstance(self.nm, str) else self.nm

    def a_stem(self, ip):
        return self._p().stem

    def a_suffix(self, ip):
        return self._p().suffix

    def a_parent(self, ip):
        if isinstance(self.nm, str) and "/" in self.nm:
            return PathM(self.fs, self.nm.rsplit("/", 1)[0], self.dir)
        return DirM(self.fs, self.dir)

    def a_parents(self, ip):
        return [DirM(self.fs, self.dir)]

    def c_resolve(self, ip, strict=False):
        return self

    def c_absolute(self, ip):
        return self

    def c_expanduser(self, ip):
        return self

    def c_exists(self, ip):
        return self.fs.exists(ip, self.nm)

    def _entry(self, ip):
        if not ip.truth(self.c_exists(ip)):
            return None
        e = self.fs.lookup(ip, self.nm)
        if e is None:
            e = Entry("?")
        return e

    def c_is_file(self, ip):
        if not ip.truth(self.c_exists(ip)):
            return False
        e = self._entry(ip)
        if e.kind == "?":
            return ip.c.fresh_bool("is_file")
        return e.kind != "dir"

    def c_is_dir(self, ip):
        if not ip.truth(self.c_exists(ip)):
            return False
        e = self._entry(ip)
        if e.kind == "?":
            return ip.c.fresh_bool("is_dir")
        return e.kind == "dir"

    def c_stat(self, ip):
        if not ip.truth(self.c_exists(ip)):
            raise PyExc(FileNotFoundError("stat"))
        n = ip.c.fresh_int("st_size")
        ip.c.assume(compare(">=", n, 0))
        return StatM(n)

    def c_with_suffix(self, ip, suffix):
        if isinstance(self.nm, str):
            base = str(pathlib.PurePosixPath(self.nm).with_suffix("")) if pathlib.PurePosixPath(self.nm).suffix else self.nm
            nm = ip.intr.str_concat(ip, [base, suffix])
            if isinstance(nm, Opaque):
                from .filem import as_sstr
                nm = as_sstr(ip, nm)
            return PathM(self.fs, nm, self.dir)
        raise Unsupported("with_suffix of symbolic name")

    def c_with_name(self, ip, nm):
        if isinstance(self.nm, str) and "/" in self.nm:
            nm = ip.intr.str_concat(ip, [self.nm.rsplit("/", 1)[0] + "/", nm])
        return PathM(self.fs, nm, self.dir)

    def c_with_stem(self, ip, nm):
        return PathM(self.fs, ip.intr.str_concat(ip, [nm, self._p().suffix]), self.dir)

    def c_unlink(self, ip, missing_ok=False):
        e = self._entry(ip)
        if e is None:
            if missing_ok:
                return
            raise PyExc(FileNotFoundError("unlink"))
        e.touched = True
        e.exists = False
        self.fs.log.append(("unlink", self.nm))

    def c_mkdir(self, ip, parents=False, exist_ok=False):
        self.fs.add(self.nm, Entry("dir"))

    def as_path(self, ip):
        return self

    def m_binop(self, ip, op, o):
        if op != "/":
            raise Unsupported("path operator")
        if isinstance(o, (PathM, DirM)):
            return o
        return PathM(self.fs, ip.intr.str_concat(ip, [self.nm, "/", o]), self.dir)

    def c_joinpath(self, ip, o):
        return self.m_binop(ip, "/", o)


class DirM(Model):
    m_type = pathlib.PosixPath

    def __init__(self, fs, d):
        self.fs = fs
        self.dir = d

    def m_binop(self, ip, op, o):
        if op != "/":
            raise Unsupported("path operator")
        if isinstance(o, PathM):
            return o
        return PathM(self.fs, o, self.dir)

    def c_exists(self, ip):
        return True

    def c_is_dir(self, ip):
        return True

    def c_is_file(self, ip):
        return False

    def c_mkdir(self, ip, *a, **k):
        return None

    def c_joinpath(self, ip, o):
        return PathM(self.fs, o, self.dir)

    def m_str(self, ip):
        return self.dir

    def c_resolve(self, ip):
        return self

    def m_eq(self, ip, o):
        return isinstance(o, DirM) and o.dir == self.dir


class StatM(Model):
    def __init__(self, n):
        self.n = n

    def a_st_size(self, ip):
        return self.n


def _path_ctor(ip, cls, *a):
    if len(a) == 1 and isinstance(a[0], (PathM, DirM)):
        return a[0]
    if is_concrete(a):
        return cls(*[lower(x) for x in a])
    raise Unsupported("Path of symbolic text")


CTORS[pathlib.Path] = CTORS[pathlib.PosixPath] = _path_ctor


def _h5_open(ip, cls, path, mode="r", **kw):
    if not isinstance(path, PathM):
        raise Unsupported("h5py.File outside the ghost directory")
    fs = path.fs
    ip.trusted.add("h5py.File")
    ex = ip.truth(fs.exists(ip, path.nm))
    e = fs.lookup(ip, path.nm) if ex else None
    fs.log.append((mode, path.nm))
    if mode in ("r", "r+") or (mode == "a" and ex):
        if not ex:
            raise PyExc(FileNotFoundError("Unable to open file"))
        if e is None or e.kind != "h5":
            raise PyExc(OSError("Unable to open file (file signature not found)"))
        e.node.closed = False
        return e.node
    if mode in ("w-", "x") and ex:
        raise PyExc(FileExistsError("Unable to create file"))
    if mode not in ("w", "w-", "x", "a"):
        raise PyExc(ValueError("Invalid mode"))
    if e is not None:
        if e.kind == "dir":
            raise PyExc(OSError("is a directory"))
        e.touched = True
    f = H5File()
    new = fs.add(path.nm, Entry("h5", f))
    new.created = True
    return f


CTORS[h5py.File] = _h5_open


# ------------------------------------------------- builders used by contracts (symbolic / on disk)

class SymFS:
    def __init__(self, t, others=False):
        self.t = t
        self.fs = FS(others)
        t.ip.world.setdefault("fs", []).append(self.fs)

    def path(self, name):
        return PathM(self.fs, name)

    def free(self, name):
        """A name no file has."""
        p = self.path(name)
        self.t.assume(Not(self.fs.exists(self.t.ip, name)))
        return p

    def directory(self, name):
        self.fs.add(name, Entry("dir"))
        return self.path(name)

    def other(self, name):
        self.fs.add(name, Entry("file"))
        return self.path(name)

    def file(self, name, content):
        """A file of the given content (text or bytes)."""
        e = Entry("file")
        e.content = content
        self.fs.add(name, e)
        return self.path(name)

    def content(self, path):
        e = self.fs.lookup(self.t.ip, path.nm)
        return None if e is None else e.content

    def h5(self, name, tree):
        """tree: {"attrs": {...}, "groups"|name: subtree, ...}; leaf: ("dset", array, attrs, **options)"""
        f = H5File()
        self._fill(f, tree)
        self.fs.add(name, Entry("h5", f))
        return self.path(name)

    def _attrs(self, a, d):
        for k, v in d.items():
            pres = True
            if isinstance(v, Maybe):
                pres, v = v.cond, v.v
            a.d[k] = [pres, attr_value(self.t.ip, v)]

    def _fill(self, g, tree):
        for k, v in tree.items():
            if k == "attrs":
                self._attrs(g.attrs, v)
                continue
            pres = True
            if isinstance(v, Maybe):
                pres, v = v.cond, v.v
            if isinstance(v, DS):
                node = H5Dataset(v.data, g.name.rstrip("/") + "/" + k, compression=v.compression, opts=v.opts)
                self._attrs(node.attrs, v.attrs)
            else:
                node = H5Group(g.name.rstrip("/") + "/" + k, g.file)
                self._fill(node, v)
            g.items[k] = [pres, node]

    def exists(self, path):
        return self.fs.exists(self.t.ip, path.nm)

    def fresh(self, path):
        """No file of that name existed in the beginning."""
        r = Not(mkbool(_EXISTS(strterm(path.nm)))) if self.fs.others else True
        for nm, e in self.fs.entries:
            if not e.created:
                r = And(r, Not(self.t.ip.truth_term(self.t.ip.eq_term(nm, path.nm))))
        return r

    def all_untouched(self, *but):
        """Every file that existed in the beginning (except those given) is as it was."""
        ip = self.t.ip
        r = True
        for mode, nm in self.fs.log:
            if mode == "r":
                continue
            ok = self.fresh(PathM(self.fs, nm))
            for b in but:
                ok = Or(ok, ip.truth_term(ip.eq_term(nm, b.nm)))
            r = And(r, ok)
        return r

    def untouched(self, path, snap=None):
        e = [x for nm, x in self.fs.entries if not x.created and ip_same(self.t.ip, nm, path.nm)]
        return And(*[not x.touched for x in e]) if e else True

    def open(self, path):
        e = self.fs.lookup(self.t.ip, path.nm)
        e.node.closed = False
        return Tree(self.t, e.node)


def ip_same(ip, a, b):
    return isinstance(a, str) and isinstance(b, str) and a == b


class DS:
    """Dataset of a file under construction."""

    def __init__(self, data, attrs=None, compression=None, opts=None):
        self.data = data
        self.attrs = attrs or {}
        self.compression = compression
        self.opts = opts


class Tree:
    """Uniform read access to an open file (model or real)."""

    def __init__(self, t, f):
        self.t = t
        self.f = f

    def data(self, path):
        if self.t.sym:
            return self.f.m_getitem(self.t.ip, path).snapshot()
        return self.f[path][:]

    def attr(self, path, key):
        if self.t.sym:
            o = self.f if path in ("", "/") else self.f.m_getitem(self.t.ip, path)
            return strip(o.attrs.m_getitem(self.t.ip, key))
        v = (self.f if path in ("", "/") else self.f[path]).attrs[key]
        return v.item() if isinstance(v, np.generic) else v

    def has_attr(self, path, key):
        if self.t.sym:
            o = self.f if path in ("", "/") else self.f.m_getitem(self.t.ip, path)
            return o.attrs.has(key)
        return key in (self.f if path in ("", "/") else self.f[path]).attrs

    def closed(self):
        return self.f.closed if self.t.sym else not bool(self.f)


class NatFS:
    """The same directory on disk."""

    def __init__(self, t, others=False):
        self.t = t
        base = t.tmp() / f"d{len(t.names)}_{t.names.setdefault('.dirs', 0)}"
        t.names[".dirs"] += 1
        base.mkdir()
        self.base = base.resolve()
        self.marks = {}
        self.isnew = others

    def path(self, name):
        return self.base / name

    def free(self, name):
        return self.base / name

    def directory(self, name):
        p = self.base / name
        p.mkdir()
        return p

    def other(self, name):
        p = self.base / name
        p.write_bytes(self.t.choice(f"content of {name}", [b"not a recording", b""]))
        self._mark(p)
        return p

    def file(self, name, content):
        p = self.base / name
        if isinstance(content, str):
            p.write_text(content)
        else:
            p.write_bytes(content)
        self._mark(p)
        return p

    def content(self, path):
        return path.read_bytes() if path.is_file() else None

    def _mark(self, p):
        self.marks[p] = p.read_bytes()

    def h5(self, name, tree):
        p = self.base / name
        with h5py.File(p, "w") as f:
            self._fill(f, tree)
        self._mark(p)
        return p

    def _attrs(self, a, d):
        for k, v in d.items():
            if isinstance(v, Maybe):
                if not v.cond:
                    continue
                v = v.v
            a[k] = v

    def _fill(self, g, tree):
        for k, v in tree.items():
            if k == "attrs":
                self._attrs(g.attrs, v)
                continue
            if isinstance(v, Maybe):
                if not v.cond:
                    continue
                v = v.v
            if isinstance(v, DS):
                kw = {"compression": v.compression} if v.compression else {}
                if v.opts is not None:
                    kw["compression_opts"] = v.opts
                d = g.create_dataset(k, data=v.data, maxshape=(None,), chunks=(10000,), **kw)
                self._attrs(d.attrs, v.attrs)
            else:
                self._fill(g.create_group(k), v)

    def exists(self, path):
        return path.exists()

    def fresh(self, path):
        return path not in self.marks

    def all_untouched(self, *but):
        return all(self.untouched(p) for p in self.marks if p not in but)

    def untouched(self, path):
        return path.exists() and path.read_bytes() == self.marks[path]

    def open(self, path):
        f = h5py.File(path, "r")
        self.t.closers.append(f)
        return Tree(self.t, f)


class FSBox:
    pass
