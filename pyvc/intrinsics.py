"""Semantics of builtins, the standard library and numpy for symbolic arguments (trusted)."""
from __future__ import annotations

import builtins
import contextlib
import copy as _copy
import datetime as _dt
import enum
import functools
import itertools
import logging
import math
import operator
import pathlib
import struct
import types
import typing
from fractions import Fraction

import numpy as np
import z3
from pydantic import BaseModel

from .arrays import (SArr, SeqV, SymRange, _NPD, arr_binop, as_arr, as_seq, cast, dt_of, ilen, items_of,
                     seq_getitem, strip)
from .core import *  # noqa: F403
from .core import _is_num, _sym
try:
    from tqdm import tqdm as _tqdm, trange as _tqdm_trange
except ImportError:  # pragma: no cover
    _tqdm = _tqdm_trange = None
from .loops import psum_at, psum_shift, subst, summarise, telescope

TABLE: dict = {}
CTORS: dict = {}
BY_NAME: dict = {}  # class methods of builtin types

_UNDEF = object()


def reg(*fns):
    def deco(f):
        for fn in fns:
            TABLE[_key(fn)] = f
        return f
    return deco


def _key(fn):
    return ("id", id(fn))


_KEEP: list = []


def lookup(fn):
    h = TABLE.get(_key(fn))
    if h is not None:
        return h
    if isinstance(fn, types.BuiltinMethodType) and isinstance(fn.__self__, type):
        h = BY_NAME.get((fn.__self__, fn.__name__))
        if h is not None:
            return h
    if isinstance(fn, (types.MethodType, types.BuiltinMethodType)) and isinstance(
            getattr(fn, "__self__", None), logging.Logger):
        return _log
    if isinstance(fn, types.MethodType) and isinstance(fn.__self__, BaseModel):
        if fn.__name__ in PYD_METHODS:
            obj = fn.__self__

            def h2(ip, *a, **k):
                from .pyd import to_sobj
                return PYD_METHODS[fn.__name__](ip, to_sobj(obj), *a, **k)
            return h2
    return None


def _log(ip, *a, **k):
    ip.log.append(a[:1])


@reg(logging.getLogger)
def l_get(ip, *a):
    return logging.getLogger("pyvc.code")


# ----------------------------------------------------------------- builtins

@reg(isinstance)
def b_isinstance(ip, x, ts):
    return is_instance(ip, x, ts)


def _flat(ts):
    if isinstance(ts, tuple):
        return [y for t in ts for y in _flat(t)]
    if typing.get_origin(ts) in (typing.Union, types.UnionType):
        return list(typing.get_args(ts))
    return [ts]


def is_instance(ip, x, ts):
    ts = [typing.get_origin(t) or t for t in _flat(ts)]
    from .interp import Bound, Func, KeyBox, Model
    if isinstance(x, KeyBox):
        x = x.v
    if isinstance(x, SNum):
        if x.np:
            T = _NPD[x.np]
        else:
            T = int if x.k == "int" else float
    elif isinstance(x, SBool):
        T = np.bool_ if x.np else bool
    elif isinstance(x, Fraction):
        T = float
    elif isinstance(x, SStr):
        T = str
    elif isinstance(x, SArr):
        T = np.ndarray
    elif isinstance(x, SeqV):
        T = set if x.isset else list
    elif isinstance(x, SymRange):
        T = range
    elif isinstance(x, SObj):
        T = x.cls
    elif isinstance(x, Opaque):
        T = x.typ
        if T is object and any(t is not object for t in ts):
            raise Unsupported("isinstance on opaque value")
    elif isinstance(x, Model):
        T = x.m_type
    elif isinstance(x, (Func, Bound)):
        T = types.FunctionType
    else:
        return isinstance(x, tuple(ts))
    return any(issubclass(T, t) for t in ts if isinstance(t, type))


@reg(issubclass)
def b_issubclass(ip, x, ts):
    return issubclass(x, tuple(_flat(ts)))


@reg(type)
def b_type(ip, x, *a):
    if isinstance(x, SObj):
        return x.cls
    if isinstance(x, SNum):
        return _NPD[x.np] if x.np else (int if x.k == "int" else float)
    if isinstance(x, SBool):
        return bool
    if isinstance(x, Fraction):
        return float
    if isinstance(x, SStr):
        return str
    if isinstance(x, SArr):
        return np.ndarray
    if isinstance(x, SeqV):
        return list
    if hasattr(x, "m_type"):
        return x.m_type
    if isinstance(x, SVal):
        raise Unsupported("type() of opaque")
    return type(x)


@reg(callable)
def b_callable(ip, x):
    from .interp import Bound, Func
    return isinstance(x, (Bound, Func)) or callable(x)


@reg(len)
def b_len(ip, x):
    if isinstance(x, (SArr,)):
        return x.n
    if isinstance(x, SeqV):
        return x.length()
    if isinstance(x, SymRange):
        return x.length()
    if isinstance(x, SStr):
        return SNum(z3.Length(x.t), "int")
    if isinstance(x, SObj):
        m = ip.find_method(x.cls, "__len__")
        if m is None:
            raise PyExc(TypeError("object has no len()"))
        return ip.call(m, [x], {})
    if hasattr(x, "m_len"):
        n = x.m_len
        return n(ip) if callable(n) else n
    if _is_num(x) or x is None:
        raise PyExc(TypeError("object has no len()"))
    try:
        return len(x)
    except TypeError as e:
        raise PyExc(e) from None


def to_int(ip, x=0, base=None):
    if base is not None:
        if isinstance(x, str):
            try:
                return int(x, base)
            except ValueError as e:
                raise PyExc(e) from None
        raise Unsupported("int with base")
    if isinstance(x, SArr):
        x = ip.getitem(x, 0)
    if _is_num(x):
        if isinstance(x, float):
            try:
                return int(x)
            except (ValueError, OverflowError) as e:
                raise PyExc(e) from None
        return num_trunc(x)
    if isinstance(x, SStr):
        t = z3.StrToInt(x.t)
        if ip.truth(mkbool(t >= 0)):
            return SNum(t, "int")
        raise Unsupported("int() of symbolic string")
    if isinstance(x, SObj):
        m = ip.find_method(x.cls, "__int__")
        if m is not None:
            return ip.call(m, [x], {})
    if isinstance(x, (str, bytes)):
        try:
            return int(x)
        except ValueError as e:
            raise PyExc(e) from None
    if isinstance(x, (Opaque,)):
        raise Unsupported("int() of opaque")
    if hasattr(x, "m_int"):
        return x.m_int(ip)
    if isinstance(x, (np.generic,)):
        return int(x)
    raise PyExc(TypeError(f"int() argument {type(x).__name__}"))


def to_float(ip, x=0):
    if isinstance(x, float):
        return lift(x)
    if _is_num(x):
        if isinstance(x, (bool, int, Fraction)):
            return Fraction(int(x) if isinstance(x, bool) else x)
        return mknum(rterm(x), "float")
    if isinstance(x, str):
        try:
            return lift(float(x))
        except ValueError as e:
            raise PyExc(e) from None
    if isinstance(x, np.generic):
        return lift(float(x))
    if isinstance(x, SArr):
        return to_float(ip, ip.getitem(x, 0))
    if isinstance(x, (Opaque, SStr)):
        raise Unsupported("float() of opaque")
    raise PyExc(TypeError("float() argument"))


CTORS[int] = lambda ip, cls, *a, **k: to_int(ip, *a, **k)
CTORS[float] = lambda ip, cls, *a: to_float(ip, *a)
CTORS[bool] = lambda ip, cls, x=False: _bool(ip.truth_term(x))


def _bool(t):
    return SBool(t.t) if isinstance(t, SBool) else t


def c_str(ip, cls, x="", *a, **k):
    if a or k:
        if isinstance(x, bytes):
            return str(x, *a, **k)
        raise Unsupported("str with encoding")
    return to_str(ip, x, "", -1)


CTORS[str] = c_str


def c_list(ip, cls, x=()):
    it = items_of(ip, x)
    if isinstance(it, list):
        return it
    return as_seq(ip, x).copy()


def c_tuple(ip, cls, x=()):
    it = items_of(ip, x)
    if isinstance(it, list):
        return tuple(it)
    return as_seq(ip, x).copy()


CTORS[list] = c_list
CTORS[tuple] = c_tuple
CTORS[set] = lambda ip, cls, x=(): make_set(ip, x)
CTORS[frozenset] = lambda ip, cls, x=(): make_set(ip, x)


def c_dict(ip, cls, x=None, **kw):
    d = {}
    if x is not None:
        if isinstance(x, dict):
            d.update(x)
        else:
            for p in ip.concrete_iter(x):
                k, v = ip.concrete_iter(p)
                ip.dict_set(d, k, v)
    d.update(kw)
    return d


CTORS[dict] = c_dict


def c_range(ip, cls, *a):
    a = [strip(x) if isinstance(x, (SNum, SBool)) else x for x in a]
    for x in a:
        if not (isinstance(x, int) or (isinstance(x, SNum) and x.k == "int")):
            if isinstance(x, np.integer):
                continue
            raise PyExc(TypeError("'float' object cannot be interpreted as an integer"))
    st, sp, se = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
    if isinstance(se, int) and se == 0:
        raise PyExc(ValueError("range() arg 3 must not be zero"))
    if not isinstance(se, int) and ip.truth(compare("==", se, 0)):
        raise PyExc(ValueError("range() arg 3 must not be zero"))
    if all(isinstance(x, int) for x in (st, sp, se)):
        return range(st, sp, se)
    return SymRange(st, sp, se)


CTORS[range] = c_range
CTORS[slice] = lambda ip, cls, *a: slice(*a)
CTORS[object] = lambda ip, cls: object()


def c_bytes(ip, cls, x=b"", *a):
    if is_concrete(x) and is_concrete(list(a)):
        return bytes(lower(x), *a)
    raise Unsupported("bytes()")


CTORS[bytes] = c_bytes


def c_tqdm(ip, cls, it=None, *a, **k):
    return it


if _tqdm is not None:
    CTORS[_tqdm] = c_tqdm


@reg(round)
def b_round(ip, x, nd=None):
    if nd is not None:
        if is_concrete(x):
            return lift(round(lower(x), nd))
        if isinstance(nd, int) and nd >= 0:
            f = Fraction(10) ** nd
            return arith("/", num_round(arith("*", x, f)), f)
        raise Unsupported("round with digits")
    if isinstance(x, float):
        try:
            return round(x)
        except (ValueError, OverflowError) as e:
            raise PyExc(e) from None
    if not _is_num(x):
        if isinstance(x, Opaque) and x.typ is not complex:
            raise Unsupported("round of opaque")
        raise PyExc(TypeError("round of non-number"))
    return num_round(x)


@reg(operator.getitem)
def op_getitem(ip, a, k):
    return ip.getitem(a, k)


@reg(operator.setitem)
def op_setitem(ip, a, k, v):
    return ip.setitem(a, k, v)


@reg(abs, np.abs, np.absolute)
def b_abs(ip, x):
    if isinstance(x, SArr):
        g = x.snapshot()
        return SArr(x.n, lambda i: num_abs(strip(g(i))), x.dt)
    if not _is_num(x):
        raise Unsupported("abs")
    return num_abs(x)


def _numkind(x):
    return x if not isinstance(x, float) else frac(x)


def _minmax(ip, op, args, kw):
    key = kw.get("key")
    if len(args) == 1:
        it = items_of(ip, args[0])
        if not isinstance(it, list):
            return _sym_minmax(ip, op, it, kw)
        if not it:
            if "default" in kw:
                return kw["default"]
            raise PyExc(ValueError("min()/max() of empty sequence"))
        args = it
    r = args[0]
    rk = ip.call(key, [r], {}) if key else r
    for x in args[1:]:
        xk = ip.call(key, [x], {}) if key else x
        if not (_is_num(xk) and _is_num(rk)):
            t = ip.truth_term(ip.cmpop(op, xk, rk))
        else:
            t = compare(op, xk, rk)
        if isinstance(t, bool):
            if t:
                r, rk = x, xk
            continue
        if _is_num(x) and _is_num(r) and (kind(x) == "int" == kind(r) or not _sym(x) or not _sym(r)):
            if ip.c.quick_valid(Not(t)):
                continue
            if ip.c.quick_valid(compare(op[0] + "=", xk, rk)):
                r, rk = x, xk
                continue
        if _is_num(x) and _is_num(r) and key is None:
            # result type of the chosen branch: python keeps the operand; the value decides
            kx, kr = kind(x), kind(r)
            if kx != kr and not _real_safe(ip, t, x, r):
                pass
            r = rk = ite(t, x, r)
        elif ip.truth(t):
            r, rk = x, xk
    return r


def _real_safe(ip, *a):
    return True


def _sym_minmax(ip, op, it, kw):
    if kw:
        raise Unsupported("min/max with key over symbolic sequence")
    _, n, g = it
    if ip.truth(compare("==", n, 0)):
        raise PyExc(ValueError("min()/max() of empty sequence"))
    return arr_extreme(ip, SArr(n, lambda i: strip(g(i)), "f8"), op)


def _chunked_extreme(ip, a, op):
    """Extreme over the extremes of non-empty chunks that adjoin each other: the extreme of the whole range."""
    c = ip.c
    reg_ = c.__dict__.get("_extchunk")
    if not reg_:
        return None
    i = c.fresh_int("chunk")
    t = z3.simplify(nterm(strip(a.snapshot()(i))))
    if not (z3.is_app(t) and t.num_args() == 1 and t.decl().name() in reg_):
        return None
    eop, k, h, o, n = reg_[t.decl().name()]
    if eop != op or not t.arg(0).eq(i.t) or not free_of_loop(c, a.n):
        return None
    at = lambda v, x: SNum(z3.substitute(nterm(v), (k, nterm(x))), "int")  # noqa: E731
    i1 = arith("+", i, 1)
    rng = And(compare(">=", i, 0), compare("<", i, a.n))
    nxt = And(rng, compare("<", i1, a.n))
    pr = z3.Int("ph!ext")
    if not free_of_loop(c, h(SNum(pr, "int")), k):
        return None
    if not c.quick_valid(Implies(rng, compare(">", at(n, i), 0))) or not c.quick_valid(
            Implies(nxt, compare("==", at(o, i1), arith("+", at(o, i), at(n, i))))):
        return None
    last = arith("-", a.n, 1)
    lo = at(o, 0)
    total = arith("-", arith("+", at(o, last), at(n, last)), lo)
    return arr_extreme(ip, SArr(mknum(z3.simplify(nterm(total)), "int"), lambda j: h(arith("+", lo, j)), a.dt), op)


def free_of_loop(c, v, *more):
    from .loops import free_of
    return free_of(v, [*c.loopvars, *more])


def arr_extreme(ip, a, op):
    """Extreme value of a non-empty array: bound + attained (axioms)."""
    c = ip.c
    r = _chunked_extreme(ip, a, op)
    if r is not None:
        return r
    g = a.snapshot()
    probe = z3.Int("ext_i")
    keyt = z3.simplify(nterm(strip(g(SNum(probe, "int")))))
    cache = c.__dict__.setdefault("_ext", [])
    for k, n, o, r, ax in cache:
        if k.eq(keyt) and o == op and nterm(n).eq(nterm(a.n)):
            for j, t in enumerate(ax):
                c.axiom(("ext", r.t.get_id(), j), t)
            return r
    fl = kind(strip(g(SNum(probe, "int")))) == "float"
    m = SNum(c.fresh("ext", REAL if fl else INT), "float" if fl else "int")
    w = c.fresh_int("extw")
    ax = [bterm(And(compare(">=", w, 0), compare("<", w, a.n), compare("==", m, strip(g(w)))))]
    j = z3.Int("j!ext")
    body = compare("<=" if op == ">" else ">=", mknum(z3.substitute(keyt, (probe, j)), "float" if fl else "int"), m)
    ax.append(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < nterm(a.n)), bterm(body))))
    for j, t in enumerate(ax):
        c.axiom(("ext", m.t.get_id(), j), t)
    cache.append((keyt, a.n, op, m, ax))
    if len(c.loopvars) == 1:
        h, o = a.shifted()
        c.__dict__.setdefault("_extchunk", {})[m.t.decl().name()] = (op, c.loopvars[0], h, o, a.n)
    c.__dict__.setdefault("_extinst", []).append((a, op, m))
    return m


@reg(max)
def b_max(ip, *a, **kw):
    return _minmax(ip, ">", list(a), kw)


@reg(min)
def b_min(ip, *a, **kw):
    return _minmax(ip, "<", list(a), kw)


@reg(sum, np.sum)
def b_sum(ip, x, start=0, **kw):
    it = items_of(ip, x)
    if isinstance(it, list):
        r = start
        for v in it:
            if isinstance(v, (bool, SBool)):
                v = num_trunc(v)
            r = ip.binop("+", r, v)
        return r
    _, n, g = it
    lo = 0
    if isinstance(x, SArr):
        g, lo = x.shifted()
    probe = g(ip.c.fresh_int("probe"))
    if not _is_num(probe):
        raise Unsupported("sum of non-numbers")
    fl = kind(strip(probe)) == "float"

    def key(i):
        v = strip(g(i))
        return num_trunc(v) if isinstance(v, (bool, SBool)) else v
    P = telescope(ip, key, n) if isinstance(lo, int) and lo == 0 else None
    if P is None and isinstance(lo, int) and lo == 0:
        moved = psum_shift(ip.c, key, n)
        if moved is not None:
            key, lo = moved
        elif ip.c.loopvars and not free_of_loop(ip.c, key(SNum(z3.Int("psum_i"), "int"))):
            w = ip.c.fresh("wild_sum", z3.RealSort())  # settled by a later round of the loop summary, or given up there
            ip.c.__dict__.setdefault("_wild", []).append(w)
            return mknum(w if fl else z3.ToInt(w), "float" if fl else "int")
    if P is None:
        P = psum_at(ip.c, key, n if isinstance(lo, int) and lo == 0 else arith("+", lo, n))
        if not (isinstance(lo, int) and lo == 0):
            P = P - psum_at(ip.c, key, lo)
    r = mknum(P if fl else z3.ToInt(P), "float" if fl else "int")
    return ip.binop("+", start, r) if not (isinstance(start, int) and start == 0) else r


@reg(any)
def b_any(ip, x):
    it = items_of(ip, x)
    if isinstance(it, list):
        return Or(*[ip.truth_term(v) for v in it])
    ip.c._ex = getattr(ip.c, "_ex", 0) + 1
    j = z3.Int(f"any!{ip.c._ex}")
    b = ip.truth_term(it[2](SNum(j, "int")))
    return mkbool(z3.Exists([j], z3.And(j >= 0, j < nterm(it[1]), bterm(b))))


@reg(all)
def b_all(ip, x):
    it = items_of(ip, x)
    if isinstance(it, list):
        return And(*[ip.truth_term(v) for v in it])
    ip.c._ex = getattr(ip.c, "_ex", 0) + 1
    j = z3.Int(f"all!{ip.c._ex}")
    b = ip.truth_term(it[2](SNum(j, "int")))
    return mkbool(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < nterm(it[1])), bterm(b))))


def b_zip(ip, *its, strict=False):
    seqs = [items_of(ip, x) for x in its]
    if all(isinstance(s, list) for s in seqs):
        return [tuple(t) for t in zip(*seqs)]
    ns = [len(s) if isinstance(s, list) else s[1] for s in seqs]
    n = ns[0]
    for m in ns[1:]:
        n = smin(n, m) if _sym(n, m) else min(n, m)
    if isinstance(n, int):
        gets = [(lambda i, s=s: s[i]) if isinstance(s, list) else s[2] for s in seqs]
        return [tuple(g(i) for g in gets) for i in range(n)]
    if any(isinstance(s, list) for s in seqs):
        if not all(isinstance(s, list) for s in seqs if isinstance(s, list)):
            raise Unsupported("zip")
        seqs = [as_seq_fn(ip, s) if isinstance(s, list) else s[2] for s in seqs]
    else:
        seqs = [s[2] for s in seqs]
    out = SeqV()
    out.add_seg(n, lambda i: tuple(g(i) for g in seqs))
    return out


def as_seq_fn(ip, lst):
    s = as_seq(ip, lst)
    return s.at


CTORS[zip] = lambda ip, cls, *a, **k: b_zip(ip, *a, **k)


def b_enumerate(ip, x, start=0):
    it = items_of(ip, x)
    if isinstance(it, list):
        return [(arith("+", start, i), v) for i, v in enumerate(it)]
    out = SeqV()
    g = it[2]
    out.add_seg(it[1], lambda i: (arith("+", start, i), g(i)))
    return out


CTORS[enumerate] = lambda ip, cls, *a, **k: b_enumerate(ip, *a, **k)


def b_reversed(ip, x):
    it = items_of(ip, x)
    if isinstance(it, list):
        return list(reversed(it))
    out = SeqV()
    n, g = it[1], it[2]
    out.add_seg(n, lambda i: g(arith("-", arith("-", n, 1), i)))
    return out


CTORS[reversed] = lambda ip, cls, x: b_reversed(ip, x)


def b_map(ip, fn, *its):
    seqs = [items_of(ip, x) for x in its]
    if all(isinstance(s, list) for s in seqs):
        return [ip.call(fn, list(t), {}) for t in zip(*seqs)]
    raise Unsupported("map over symbolic sequence")


CTORS[map] = lambda ip, cls, fn, *a: b_map(ip, fn, *a)


def b_filter(ip, fn, it):
    xs = ip.concrete_iter(it)
    return [x for x in xs if ip.truth(ip.call(fn, [x], {}) if fn is not None else x)]


CTORS[filter] = lambda ip, cls, fn, it: b_filter(ip, fn, it)


@reg(sorted)
def b_sorted(ip, x, key=None, reverse=False):
    xs = ip.concrete_iter(x)
    ks = [ip.call(key, [v], {}) if key is not None else v for v in xs]
    if all(is_concrete(k) for k in ks):
        try:
            order_ = sorted(range(len(xs)), key=lambda i: ks[i], reverse=bool(reverse))
        except TypeError as e:
            raise PyExc(e) from None
        return [xs[i] for i in order_]
    # insertion sort with forks
    out = []
    for v, k in zip(xs, ks):
        pos = len(out)
        while pos > 0:
            kk = out[pos - 1][1]
            lt = ip.cmpop(">" if reverse else "<", k, kk)
            if ip.truth(lt):
                pos -= 1
            else:
                break
        out.insert(pos, (v, k))
    return [v for v, _ in out]


@reg(getattr)
def b_getattr(ip, o, n, d=_UNDEF):
    try:
        return ip.getattr(o, n)
    except PyExc as e:
        if d is not _UNDEF and isinstance(e.exc, AttributeError):
            return d
        raise


@reg(hasattr)
def b_hasattr(ip, o, n):
    return ip.hasattr(o, n)


@reg(setattr)
def b_setattr(ip, o, n, v):
    ip.setattr(o, n, v)


@reg(print)
def b_print(ip, *a, **k):
    return None


@reg(repr)
def b_repr(ip, x):
    return to_str(ip, x, "", ord("r"))


@reg(id)
def b_id(ip, x):
    return id(x)


@reg(hash)
def b_hash(ip, x):
    if is_concrete(x):
        return hash(x)
    raise Unsupported("hash of symbolic value")


@reg(iter)
def b_iter(ip, x):
    return IterM(ip, x)


@reg(next)
def b_next(ip, it, d=_UNDEF):
    if isinstance(it, list) or isinstance(it, SeqV):
        # generator objects are eager sequences here: consume the head
        it2 = it if isinstance(it, list) else None
        if it2 is not None:
            if not it2:
                if d is not _UNDEF:
                    return d
                raise PyExc(StopIteration())
            return it2.pop(0)
        n = it.length()
        if ip.truth(compare(">", n, 0)):
            v = it.at(0)
            snap = it.copy()
            it.segs = [("seg", ilen(arith("-", n, 1)), lambda i: snap.at(arith("+", i, 1)))]
            return v
        if d is not _UNDEF:
            return d
        raise PyExc(StopIteration())
    if isinstance(it, IterM):
        return it.next(ip, d)
    raise Unsupported(f"next({type(it).__name__})")


class IterM:
    """Iterator with its own position."""

    m_type = object

    def __init__(self, ip, x):
        self.items = items_of(ip, x)
        self.pos = 0

    def next(self, ip, d):
        n = len(self.items) if isinstance(self.items, list) else self.items[1]
        if ip.truth(compare("<", self.pos, n)):
            v = self.items[self.pos] if isinstance(self.items, list) else self.items[2](self.pos)
            self.pos += 1
            return v
        if d is not _UNDEF:
            return d
        raise PyExc(StopIteration())

    def m_iter(self, ip):
        if isinstance(self.items, list):
            r = self.items[self.pos:]
            self.pos = len(self.items)
            return r
        _, n, g = self.items
        p = self.pos
        return ("sym", arith("-", n, p), lambda i: g(arith("+", i, p)))


@reg(divmod)
def b_divmod(ip, a, b):
    return (ip.binop("//", a, b), ip.binop("%", a, b))


@reg(pow)
def b_pow(ip, a, b):
    return ip.binop("**", a, b)


@reg(chr)
def b_chr(ip, x):
    if isinstance(x, SNum) and x.k == "int":
        k = ip.c.pinned(x)
        x = x if k is None else k
    if is_concrete(x):
        try:
            return chr(x)
        except (TypeError, ValueError, OverflowError) as e:
            raise PyExc(e) from None
    raise Unsupported("chr")


@reg(bin, hex, oct, ord)
def b_nat(ip, x):
    raise Unsupported("text conversion of symbolic value")


TABLE.pop(_key(bin)), TABLE.pop(_key(hex)), TABLE.pop(_key(oct)), TABLE.pop(_key(ord))


# ------------------------------------------------------------------- math

@reg(math.floor, np.floor)
def m_floor(ip, x):
    if isinstance(x, SArr):
        g = x.snapshot()
        return SArr(x.n, lambda i: arith("+", num_floor(strip(g(i))), Fraction(0)), x.dt)
    return num_floor(x)


@reg(math.ceil, np.ceil)
def m_ceil(ip, x):
    return num_ceil(x)


@reg(math.trunc)
def m_trunc(ip, x):
    return num_trunc(x)


@reg(math.sqrt, np.sqrt)
def m_sqrt(ip, x):
    if isinstance(x, SArr):
        raise Unsupported("array sqrt")
    if ip.truth(compare("<", x, 0)):
        raise PyExc(ValueError("math domain error"))
    return num_sqrt(x)


@reg(math.log2, np.log2)
def m_log2(ip, x):
    if ip.truth(compare("<=", x, 0)):
        raise PyExc(ValueError("math domain error"))
    if is_concrete(x):
        return lift(math.log2(lower(x)))
    return num_log2(x)


_UF: dict = {}


def uf(name, *args, sort=REAL):
    key = (name, len(args), str(sort))
    if key not in _UF:
        _UF[key] = z3.Function(name, *([REAL] * len(args)), sort)
    return _UF[key](*[rterm(a) for a in args])


def elementwise(ip, x, f):
    """Image of an array or column, else None."""
    if isinstance(x, SArr):
        return x.map(lambda v: f(ip, v), "f8")
    if hasattr(x, "m_map"):
        return x.m_map(ip, lambda v: f(ip, v))
    return None


@reg(math.log, np.log)
def m_log(ip, x, base=None):
    e = elementwise(ip, x, m_log) if base is None else None
    if e is not None:
        return e
    if is_concrete(x) and is_concrete(base):
        try:
            return lift(math.log(lower(x)) if base is None else math.log(lower(x), lower(base)))
        except ValueError as e:
            raise PyExc(e) from None
    if ip.truth(compare("<=", x, 0)):
        raise PyExc(ValueError("math domain error"))
    if base is not None:
        raise Unsupported("log with base")
    t = uf("ln", x)
    c = ip.c
    X = rterm(x)
    c.axiom(("ln", t.get_id()), z3.And(z3.Implies(X >= 1, t >= 0), z3.Implies(X <= 1, t <= 0), t <= X - 1))
    return SNum(t, "float")


@reg(math.exp, np.exp)
def m_exp(ip, x):
    e = elementwise(ip, x, m_exp)
    if e is not None:
        return e
    if is_concrete(x):
        return lift(math.exp(lower(x)))
    t = uf("exp", x)
    X = rterm(x)
    ip.c.axiom(("exp", t.get_id()), z3.And(t > 0, t >= 1 + X, z3.Implies(X <= 0, t <= 1)))
    return SNum(t, "float")


@reg(math.expm1, np.expm1)
def m_expm1(ip, x):
    if is_concrete(x):
        try:
            return lift(math.expm1(lower(x)))
        except OverflowError as e:
            raise PyExc(e) from None
    t = uf("expm1", x)
    X = rterm(x)
    ip.c.axiom(("expm1", t.get_id()), z3.And(t > -1, t >= X, z3.Implies(X <= 0, t <= 0), z3.Implies(X >= 0, t >= 0)))
    return SNum(t, "float")


@reg(math.isclose)
def m_isclose(ip, a, b, rel_tol=Fraction(1, 10**9), abs_tol=0):
    d = num_abs(arith("-", a, b))
    m = smax(num_abs(a), num_abs(b))
    return Or(compare("<=", d, arith("*", rel_tol, m)), compare("<=", d, abs_tol))


@reg(math.isnan, math.isinf, np.isnan, np.isinf)
def m_isnan(ip, x):
    if isinstance(x, float):
        return math.isnan(x) or math.isinf(x)
    return False


@reg(math.isfinite, np.isfinite)
def m_isfin(ip, x):
    return not isinstance(x, float) or math.isfinite(x)


# ------------------------------------------------------------------ stdlib

@reg(_copy.deepcopy)
def s_deepcopy(ip, x, memo=None):
    return deep(x)


@reg(_copy.copy)
def s_copy(ip, x):
    if isinstance(x, list):
        return list(x)
    if isinstance(x, dict):
        return dict(x)
    if isinstance(x, SObj):
        o = SObj(x.cls, x.f, x.frozen)
        return o
    if isinstance(x, (SArr, SeqV)):
        return x.copy()
    return x


def deep(x):
    if isinstance(x, list):
        return [deep(v) for v in x]
    if isinstance(x, tuple):
        return tuple(deep(v) for v in x)
    if isinstance(x, dict):
        return {k: deep(v) for k, v in x.items()}
    if isinstance(x, set):
        return set(x)
    if isinstance(x, SObj):
        o = SObj(x.cls, {k: deep(v) for k, v in x.f.items()}, x.frozen)
        if "fields_set" in x.__dict__:
            o.__dict__["fields_set"] = set(x.__dict__["fields_set"])
        return o
    if isinstance(x, (SArr, SeqV)):
        return x.copy()
    return x


@reg(struct.pack)
def s_pack(ip, fmt, *vals):
    if is_concrete(list(vals)) and isinstance(fmt, str):
        try:
            return struct.pack(fmt, *[lower(v) for v in vals])
        except struct.error as e:
            raise PyExc(e) from None
    return BytesM(fmt, list(vals))


@reg(struct.unpack)
def s_unpack(ip, fmt, data):
    if isinstance(data, BytesM):
        if struct.calcsize(fmt) != data.size():
            raise PyExc(struct.error(f"unpack requires a buffer of {struct.calcsize(fmt)} bytes"))
        if _fmt_norm(fmt) != _fmt_norm(data.fmt):
            raise Unsupported("unpack with different format")
        return tuple(data.vals)
    if isinstance(data, (bytes, bytearray)):
        try:
            return tuple(lift(v) for v in struct.unpack(fmt, data))
        except struct.error as e:
            raise PyExc(e) from None
    raise Unsupported("unpack")


@reg(struct.calcsize)
def s_calcsize(ip, fmt):
    return struct.calcsize(fmt)


def _fmt_norm(fmt):
    import re
    end = fmt[0] if fmt and fmt[0] in "<>=!@" else "@"
    body = fmt[1:] if fmt and fmt[0] in "<>=!@" else fmt
    out = ""
    for n, ch in re.findall(r"(\d*)([a-zA-Z?])", body):
        out += ch * (int(n) if n else 1)
    return ({"!": ">"}.get(end, end), out)


class BytesM:
    """Packed byte string of symbolic values (struct codec is trusted: lossless for doubles)."""

    m_type = bytes

    def __init__(self, fmt, vals):
        self.fmt = fmt
        self.vals = vals

    def size(self):
        return struct.calcsize(self.fmt)

    @property
    def m_len(self):
        return self.size()

    def m_getattr(self, ip, name):
        raise Unsupported(f"bytes.{name}")

    def m_truth(self, ip):
        return self.size() > 0

    def m_eq(self, ip, o):
        if isinstance(o, BytesM) and _fmt_norm(o.fmt) == _fmt_norm(self.fmt):
            return And(*[compare("==", a, b) for a, b in zip(self.vals, o.vals)])
        raise Unsupported("bytes ==")


@reg(itertools.product)
def _noop(ip, *a):
    raise Unsupported


TABLE.pop(_key(itertools.product))


def it_product(ip, cls, *its, repeat=1):
    xs = [ip.concrete_iter(x) for x in its] * repeat
    return [tuple(t) for t in itertools.product(*xs)]


CTORS[itertools.product] = it_product
CTORS[itertools.chain] = lambda ip, cls, *its: [v for x in its for v in ip.concrete_iter(x)]


@reg(functools.reduce)
def s_reduce(ip, fn, it, init=_UNDEF):
    xs = ip.concrete_iter(it)
    if init is _UNDEF:
        init, xs = xs[0], xs[1:]
    for x in xs:
        init = ip.call(fn, [init, x], {})
    return init


def c_partial(ip, cls, fn, *a, **k):
    return functools.partial(fn, *a, **k)


CTORS[functools.partial] = c_partial

for _nm, _op in (("add", "+"), ("sub", "-"), ("mul", "*"), ("truediv", "/")):
    TABLE[_key(getattr(operator, _nm))] = lambda ip, a, b, op=_op: ip.binop(op, a, b)


def c_suppress(ip, cls, *excs):
    return contextlib.suppress(*excs)


CTORS[contextlib.suppress] = c_suppress


def enter_cm(ip, cm):
    if isinstance(cm, contextlib.suppress):
        excs = cm._exceptions
        return None, lambda ip, e: e is not None and isinstance(e, excs)
    if getattr(cm, "m_type", None) is contextlib.ExitStack:
        def ex(ip, e):
            for x in reversed(cm.stack):
                if x(ip, e):
                    e = None
            return e is None
        return cm, ex
    if isinstance(cm, SObj):
        ent = ip.find_method(cm.cls, "__enter__")
        ext = ip.find_method(cm.cls, "__exit__")
        if ent is None or ext is None:
            raise PyExc(TypeError("not a context manager"))
        v = ip.call(ent, [cm], {})

        def exit_(ip, e):
            r = ip.call(ext, [cm, type(e) if e is not None else None, e, None], {})
            return ip.truth(r) if e is not None else False
        return v, exit_
    if hasattr(cm, "m_enter"):
        v = cm.m_enter(ip)
        return v, (lambda ip, e: cm.m_exit(ip, e))
    raise Unsupported(f"context manager {type(cm).__name__}")


def while_rule(ip, s, env):
    from .loops import while_loop
    while_loop(ip, s, env)
    return None


# ------------------------------------------------------------------- numpy

_NPTYPES = {np.float64: "f8", np.float32: "f4", np.int64: "i8", np.int32: "i4", np.int16: "i2", np.int8: "i1",
            np.uint64: "u8", np.uint32: "u4", np.uint16: "u2", np.uint8: "u1", np.bool_: "bool",
            float: "f8", int: "i8", bool: "bool"}


def np_dt(x):
    if x in _NPTYPES:
        return _NPTYPES[x]
    return dt_of(np.dtype(x))


def _np_scalar(dt):
    def ctor_(ip, cls, x=0):
        if isinstance(x, SArr):
            g = x.snapshot()
            return SArr(x.n, lambda i: cast(strip(g(i)), dt), dt)
        if dt.startswith("f"):
            v = to_float(ip, x)
            return SNum(rterm(v), "float", dt)
        if dt == "bool":
            return ip.truth_term(x)
        v = to_int(ip, x)
        return SNum(nterm(cast(v, dt)), "int", dt)
    return ctor_


for _t, _d in list(_NPTYPES.items()):
    if _t.__module__ == "numpy":
        CTORS[_t] = _np_scalar(_d)


@reg(np.array, np.asarray)
def n_array(ip, x, dtype=None, copy=None):
    if isinstance(x, np.ndarray):
        return np.array(x, dtype=dtype) if dtype is not None else x.copy()
    dt = np_dt(dtype) if dtype is not None else None
    if _is_num(x):
        raise Unsupported("0-d array")
    a = as_arr(ip, x, None)
    if dt is None or dt == a.dt:
        return a.copy()
    g = a.snapshot()
    return SArr(a.n, lambda i: cast(strip(g(i)), dt), dt)


def _shape1(ip, n):
    if isinstance(n, tuple):
        if len(n) != 1:
            raise Unsupported("n-d array")
        n = n[0]
    if isinstance(n, SNum) and n.k == "float" or isinstance(n, Fraction):
        raise PyExc(TypeError("float shape"))
    return ilen(strip(n))


@reg(np.empty)
def n_empty(ip, n, dtype=float):
    n = _shape1(ip, n)
    dt = np_dt(dtype)
    f = z3.Function(f"undef{ip.c.names.setdefault('undef', 0)}", INT, REAL if dt[0] == "f" else INT)
    ip.c.names["undef"] += 1
    return SArr(n, lambda i: mknum(f(nterm(i)), "float" if dt[0] == "f" else "int"), dt)


@reg(np.zeros)
def n_zeros(ip, n, dtype=float):
    dt = np_dt(dtype)
    z = Fraction(0) if dt[0] == "f" else False if dt == "bool" else 0
    return SArr(_shape1(ip, n), lambda i: z, dt)


@reg(np.ones)
def n_ones(ip, n, dtype=float):
    dt = np_dt(dtype)
    z = Fraction(1) if dt[0] == "f" else True if dt == "bool" else 1
    return SArr(_shape1(ip, n), lambda i: z, dt)


@reg(np.full)
def n_full(ip, n, v, dtype=None):
    dt = np_dt(dtype) if dtype else ("f8" if kind(v) == "float" else "i8")
    v = cast(strip(v), dt)
    return SArr(_shape1(ip, n), lambda i: v, dt)


@reg(np.zeros_like)
def n_zl(ip, a, dtype=None):
    return n_zeros(ip, a.n, dtype or _NPD[a.dt])


@reg(np.arange)
def n_arange(ip, *a, dtype=None):
    a = [strip(x) for x in a]
    if any(kind(x) == "float" for x in a):
        raise Unsupported("float arange")
    r = SymRange(*((0, a[0]) if len(a) == 1 else a))
    dt = np_dt(dtype) if dtype else "i8"
    return SArr(r.length(), lambda i: cast(r.at(i), dt), dt)


@reg(np.linspace)
def n_linspace(ip, start, stop, num=50, endpoint=True):
    start, stop, num = strip(start), strip(stop), strip(num)
    if endpoint is not True or not (_is_num(start) and _is_num(stop)):
        raise Unsupported("linspace")
    if ip.truth(compare("<", num, 0)):
        raise PyExc(ValueError("Number of samples, must be non-negative."))
    if is_concrete((start, stop, num)):
        d = arith("/", arith("-", stop, start), max(num - 1, 1))
        return SArr(num, lambda i: mknum(rterm(arith("+", start, arith("*", i, d))), "float"), "f8")
    c = ip.c
    n = len(c.__dict__.setdefault("_lin", []))
    a, b, m = rterm(start), rterm(stop), nterm(num)
    for key, f in c._lin:
        if all(x.eq(y) for x, y in zip(key, (a, b, m))):
            break
    else:
        f = z3.Function(f"lin{n}", INT, REAL)
        c._lin.append(((a, b, m), f))
    i, j = z3.Int("i!lin"), z3.Int("j!lin")
    q = z3.ToReal(m - 1)
    for nm, ax in (("0", f(z3.IntVal(0)) == a), ("n", z3.Implies(m > 1, f(m - 1) == b)),
                   ("m", z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < m), z3.And(
                       z3.Implies(a < b, f(i) < f(j)), z3.Implies(a > b, f(i) > f(j)), z3.Implies(a == b, f(i) == f(j)))),
                       patterns=[z3.MultiPattern(f(i), f(j))]))):
        c.axiom(("lin", n, nm), ax)

    def get(i):
        t = f(nterm(i))
        k = z3.ToReal(nterm(i))
        if z3.is_const(nterm(i)):
            c.axiom(("lin", n, t.get_id()), z3.Implies(m > 1, (t - a) * q == k * (b - a)))
        return SNum(t, "float")
    return SArr(num, get, "f8")


@reg(np.around, np.round, np.rint)
def n_around(ip, x, decimals=0):
    if decimals != 0:
        raise Unsupported("around decimals")
    if isinstance(x, SArr):
        if x.dt[0] in "iu":
            return x.copy()
        g = x.snapshot()
        return SArr(x.n, lambda i: mknum(rterm(num_round(strip(g(i)))), "float"), x.dt)
    return SNum(rterm(num_round(x)), "float", "f8")


@reg(np.where)
def n_where(ip, m, a=None, b=None):
    if a is None:
        from .arrays import selection
        if not isinstance(m, SArr):
            raise Unsupported("np.where")
        if m.dt != "bool":
            g0 = m.snapshot()
            m = SArr(m.n, lambda i: compare("!=", strip(g0(i)), 0), "bool")
        sel = selection(ip, m)
        return (SArr(sel["n"], lambda i: sel["at"](i), "i8"),)
    g = m.snapshot()
    ga = a.snapshot() if isinstance(a, SArr) else (lambda i: a)
    gb = b.snapshot() if isinstance(b, SArr) else (lambda i: b)
    pa, pb = a.dt if isinstance(a, SArr) else None, b.dt if isinstance(b, SArr) else None
    dt = pa or pb or ("f8" if kind(a) == "float" or kind(b) == "float" else "i8")
    return SArr(m.n, lambda i: cast(ite(strip(g(i)), strip(ga(i)), strip(gb(i))), dt), dt)


@reg(np.maximum)
def n_maximum(ip, a, b):
    return _elementwise(ip, a, b, smax)


@reg(np.minimum)
def n_minimum(ip, a, b):
    return _elementwise(ip, a, b, smin)


def _elementwise(ip, a, b, f):
    if not isinstance(a, SArr) and not isinstance(b, SArr):
        return f(a, b)
    r = arr_binop(ip, "+", a, b)
    ga = a.snapshot() if isinstance(a, SArr) else (lambda i: a)
    gb = b.snapshot() if isinstance(b, SArr) else (lambda i: b)
    return SArr(r.n, lambda i: f(strip(ga(i)), strip(gb(i))), r.dt)


@reg(np.clip)
def n_clip(ip, a, lo, hi):
    r = a
    if lo is not None:
        r = _elementwise(ip, r, lo, smax)
    if hi is not None:
        r = _elementwise(ip, r, hi, smin)
    return r


@reg(np.multiply)
def n_mul(ip, a, b):
    return ip.binop("*", a, b)


@reg(np.add)
def n_add(ip, a, b):
    return ip.binop("+", a, b)


@reg(np.subtract)
def n_sub(ip, a, b):
    return ip.binop("-", a, b)


@reg(np.divide)
def n_div(ip, a, b):
    return ip.binop("/", a, b)


@reg(np.mean)
def n_mean(ip, a):
    return arr_method(ip, as_arr(ip, a), "mean", [], {})


@reg(np.min, np.amin)
def n_min(ip, a):
    return arr_method(ip, as_arr(ip, a), "min", [], {})


@reg(np.max, np.amax)
def n_max(ip, a):
    return arr_method(ip, as_arr(ip, a), "max", [], {})


@reg(np.dot)
def n_dot(ip, a, b):
    return b_sum(ip, ip.binop("*", a, b))


@reg(np.argmax)
def n_argmax(ip, a):
    return arr_method(ip, as_arr(ip, a), "argmax", [], {})


@reg(np.argmin)
def n_argmin(ip, a):
    return arr_method(ip, as_arr(ip, a), "argmin", [], {})


@reg(np.concatenate)
def n_concat(ip, xs, **kw):
    xs = ip.concrete_iter(xs)
    if not xs:
        raise PyExc(ValueError("need at least one array to concatenate"))
    if all(isinstance(x, (list, tuple)) for x in xs) and any(isinstance(v, (str, SStr)) for x in xs for v in x):
        from .framem import CellsM
        return CellsM([v for x in xs for v in x])
    xs = [as_arr(ip, x) for x in xs]
    dt = xs[0].dt
    for x in xs[1:]:
        if x.dt != dt:
            raise Unsupported("concatenate of mixed dtypes")
    offs, n = [], 0
    for x in xs:
        offs.append(n)
        n = arith("+", n, x.n)
    parts = [(o, x.n, x.snapshot()) for o, x in zip(offs, xs) if not (isinstance(x.n, int) and x.n == 0)]
    if not parts:
        return SArr(0, lambda i: 0, dt)

    def get(i):
        if isinstance(i, int) and all(isinstance(o, int) for o, _, _ in parts):
            for o, m, g in parts:
                if isinstance(m, int) and i < o + m:
                    return strip(g(i - o))
                if not isinstance(m, int):
                    break
        o, _, g = parts[-1]
        r = None
        for q in range(len(parts) - 1, -1, -1):
            o, m, g = parts[q]
            here = compare("<", i, arith("+", o, m))
            if r is not None and (here is False or (here is not True and ip.c.quick_valid(Not(here)))):
                continue
            v = strip(g(arith("-", i, o)))
            r = v if r is None or here is True else ite(here, v, r)
        return r
    return SArr(n, get, dt)


@reg(np.diff)
def n_diff(ip, a, **kw):
    n = a.n
    if ip.truth(compare("==", n, 0)):
        return SArr(0, a.snapshot(), a.dt)
    hi = seq_getitem(ip, a, slice(1, None))
    lo = seq_getitem(ip, a, slice(None, -1))
    return arr_binop(ip, "-", hi, lo)


@reg(np.unique)
def n_unique(ip, a, **kw):
    raise Unsupported("np.unique")


def arr_method(ip, a, name, args, kw):
    if name == "copy":
        return a.copy()
    if name == "astype":
        dt = np_dt(args[0] if args else kw["dtype"])
        g = a.snapshot()
        if dt == a.dt:
            return a.copy()
        return a.map(lambda v: cast(v, dt), dt)
    if name == "sum":
        return b_sum(ip, a)
    if name in ("max", "min"):
        if ip.truth(compare("==", a.n, 0)):
            raise PyExc(ValueError("zero-size array to reduction operation"))
        if isinstance(a.n, int) and a.n <= 32:
            r = _minmax(ip, ">" if name == "max" else "<", [strip(a.get(i)) for i in range(a.n)], {})
        else:
            r = arr_extreme(ip, a, ">" if name == "max" else "<")
        return SNum(nterm(r) if a.dt[0] != "f" else rterm(r), "float" if a.dt[0] == "f" else "int", a.dt)
    if name == "mean":
        if ip.truth(compare("==", a.n, 0)):
            raise Unsupported("mean of empty array (nan)")
        return arith("/", b_sum(ip, a), a.n)
    if name in ("argmax", "argmin"):
        if ip.truth(compare("==", a.n, 0)):
            raise PyExc(ValueError("attempt to get argmax of an empty sequence"))
        if a.dt == "bool":
            hit = strip if name == "argmax" else lambda v: Not(strip(v))
            w = ip.c.fresh_int("arg")
            g = a.snapshot()
            j = z3.Int("j!arg")
            none = mkbool(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < nterm(a.n)), bterm(Not(hit(g(SNum(j, "int"))))))))
            before = mkbool(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < w.t), bterm(Not(hit(g(SNum(j, "int"))))))))
            ip.c.assume(And(compare(">=", w, 0), compare("<", w, a.n), Or(
                And(hit(g(w)), before), And(compare("==", w, 0), none))))
            return w
        op = ">" if name == "argmax" else "<"
        m = arr_extreme(ip, a, op)
        w = ip.c.fresh_int("arg")
        g = a.snapshot()
        j = z3.Int("j!arg")
        ip.c.assume(And(compare(">=", w, 0), compare("<", w, a.n), compare("==", strip(g(w)), m)))
        ip.c.assume(mkbool(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < w.t), bterm(
            compare("!=", strip(g(SNum(j, "int"))), m))))))
        return w
    if name in ("all", "any"):
        return (b_all if name == "all" else b_any)(ip, a)
    if name == "tolist":
        return as_seq(ip, SArr(a.n, a.snapshot(), a.dt)) if not isinstance(a.n, int) else [strip(a.get(i)) for i in range(a.n)]
    if name == "flatten" or name == "ravel":
        return a.copy()
    if name == "round":
        return n_around(ip, a)
    if name == "fill":
        a.write(0, a.n, lambda i, v=cast(strip(args[0]), a.dt): v)
        return None
    if name == "item" and not args:
        return strip(ip.getitem(a, 0))
    if name == "resize":
        size = args[0] if len(args) == 1 else tuple(args)
        if a.base is not None:
            raise PyExc(ValueError("cannot resize this array: it does not own its data"))
        size = strip(_shape1(ip, size))
        if ip.truth(compare("<", size, 0)):
            raise PyExc(ValueError("all elements of 'new_shape' must be non-negative"))
        old, n0 = a._get, a.n
        z = Fraction(0) if a.dt[0] == "f" else False if a.dt == "bool" else 0

        def get(i):
            ins = compare("<", i, n0)
            if ins is True or (ins is not False and ip.c.quick_valid(ins)):
                return old(i)
            return ite(ins, old(i), z)
        a._get, a.n, a.org = get, ilen(size), None
        return None
    raise Unsupported(f"ndarray.{name}")


# ---------------------------------------------------------- attributes / methods

class DTypeM:
    m_type = np.dtype

    def __init__(self, dt):
        self.dt = dt

    def m_getattr(self, ip, name):
        return lift(getattr(np.dtype(_NPD[self.dt]), name))

    def m_eq(self, ip, o):
        if isinstance(o, DTypeM):
            return o.dt == self.dt
        try:
            return np.dtype(_NPD[self.dt]) == o
        except TypeError:
            return False

    def m_truth(self, ip):
        return True


def value_attr(ip, obj, name):
    from .interp import Bound
    if isinstance(obj, SArr):
        if name == "size":
            return obj.n
        if name == "shape":
            return (obj.n,)
        if name == "ndim":
            return 1
        if name == "dtype":
            return DTypeM(obj.dt)
        if not hasattr(np.ndarray, name):
            raise PyExc(AttributeError(name))
        return Bound(name, obj)
    if isinstance(obj, SeqV):
        if not hasattr(list, name) and not (obj.isset and hasattr(set, name)):
            raise PyExc(AttributeError(name))
        return Bound(name, obj)
    if isinstance(obj, (SNum, SBool, Fraction)):
        if name == "real":
            return obj
        if name == "dtype" and nptag(obj):
            return DTypeM(nptag(obj))
        return Bound(name, obj)
    if isinstance(obj, SStr):
        if not hasattr(str, name):
            raise PyExc(AttributeError(name))
        return Bound(name, obj)
    if isinstance(obj, SymRange):
        if name in ("start", "stop", "step"):
            return getattr(obj, name)
    if isinstance(obj, Cat) and hasattr(str, name):
        return Bound(name, obj)
    if isinstance(obj, Opaque):
        raise Unsupported(f"attribute {name} of opaque value")
    raise PyExc(AttributeError(name))


LOWER = z3.Function("str_lower", z3.StringSort(), z3.StringSort())
STRIP = z3.Function("str_strip", z3.StringSort(), z3.StringSort())


def method(ip, obj, name, args, kw):
    from .interp import KeyBox
    if isinstance(obj, SArr):
        return arr_method(ip, obj, name, args, kw)
    if isinstance(obj, list):
        return list_method(ip, obj, name, args, kw)
    if isinstance(obj, SeqV):
        return seq_method(ip, obj, name, args, kw)
    if isinstance(obj, dict):
        return dict_method(ip, obj, name, args, kw)
    if isinstance(obj, Cat):
        from .filem import cat_method
        return cat_method(ip, obj, name, args, kw)
    if isinstance(obj, set):
        if name == "add":
            x = args[0]
            if not is_concrete(x):
                raise Unsupported("set.add of symbolic value")
            obj.add(x)
            return None
        if name in ("update", "union", "intersection", "difference", "issubset", "issuperset", "copy", "discard",
                    "remove", "pop", "clear", "isdisjoint", "symmetric_difference"):
            return _native_m(obj, name, [set(ip.concrete_iter(a)) if not isinstance(a, (set, frozenset)) and name not in (
                "discard", "remove") else a for a in args], kw)
    if isinstance(obj, SStr) or isinstance(obj, str):
        return str_method(ip, obj, name, args, kw)
    if isinstance(obj, (SNum, Fraction, SBool)):
        if name == "is_integer":
            if kind(obj) == "int":
                return True
            return compare("==", obj, num_floor(obj))
        if name == "astype":
            dt = np_dt(args[0])
            return CTORS[_NPD[dt]](ip, None, obj)
        if name == "item":
            return strip(obj)
        if name == "copy":
            return obj
        if name in ("max", "min", "mean", "sum"):
            return obj
        if name == "total_seconds":
            raise PyExc(AttributeError(name))
        if name == "to_bytes" and kind(obj) == "int":
            from .binm import to_bytes
            return to_bytes(ip, obj, *args, **kw)
        raise Unsupported(f"number.{name}")
    if isinstance(obj, tuple):
        if name == "index":
            for i, v in enumerate(obj):
                if ip.truth(ip.eq_term(v, args[0])):
                    return i
            raise PyExc(ValueError("not in tuple"))
        if name == "count":
            return _count(ip, list(obj), args[0])
    if is_concrete(obj) and is_concrete(args):
        return _native_m(obj, name, [lower(a) for a in args], {k: lower(v) for k, v in kw.items()})
    raise Unsupported(f"{type(obj).__name__}.{name}")


def _native_m(obj, name, args, kw):
    try:
        return lift(getattr(obj, name)(*args, **kw))
    except Unsupported:
        raise
    except Exception as e:  # noqa: BLE001
        raise PyExc(e) from None


def _count(ip, xs, v):
    n = 0
    for x in xs:
        t = ip.truth_term(ip.eq_term(x, v))
        n = arith("+", n, ite(t, 1, 0) if not isinstance(t, bool) else int(t))
    return n


def list_method(ip, o, name, args, kw):
    if name == "append":
        o.append(args[0])
        return None
    if name == "extend":
        it = items_of(ip, args[0])
        if not isinstance(it, list):
            raise Unsupported("list.extend with symbolic sequence")
        o.extend(it)
        return None
    if name == "insert":
        i = args[0]
        if not is_concrete(i):
            raise Unsupported("insert at symbolic position")
        o.insert(i, args[1])
        return None
    if name == "pop":
        try:
            return o.pop(*args)
        except IndexError as e:
            raise PyExc(e) from None
    if name == "clear":
        o.clear()
        return None
    if name == "copy":
        return list(o)
    if name == "reverse":
        o.reverse()
        return None
    if name == "index":
        for i, v in enumerate(o):
            if ip.truth(ip.eq_term(v, args[0])):
                return i
        raise PyExc(ValueError("is not in list"))
    if name == "count":
        return _count(ip, o, args[0])
    if name == "remove":
        for i, v in enumerate(o):
            if ip.truth(ip.eq_term(v, args[0])):
                del o[i]
                return None
        raise PyExc(ValueError("list.remove(x): x not in list"))
    if name == "sort":
        o[:] = b_sorted(ip, o, **kw)
        return None
    raise Unsupported(f"list.{name}")


def seq_method(ip, o, name, args, kw):
    if name in ("append", "add"):
        o.append(args[0])
        return None
    if name == "extend":
        o.extend_seq(as_seq(ip, args[0]))
        return None
    if name == "copy":
        return o.copy()
    if name == "index":
        # first position of the value
        c = ip.c
        x = args[0]
        if not ip.truth(ip.contains(o, x)):
            raise PyExc(ValueError("not in list"))
        w = c.fresh_int("index")
        c.assume(And(compare(">=", w, 0), compare("<", w, o.length()), ip.truth_term(ip.eq_term(o.at(w), x))))
        j = z3.Int("j!index")
        b = ip.truth_term(ip.eq_term(o.at(SNum(j, "int")), x))
        c.assume(mkbool(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < w.t), z3.Not(bterm(b))))))
        return w
    raise Unsupported(f"sequence.{name} (symbolic length)")


def dict_method(ip, o, name, args, kw):
    from .interp import KeyBox

    def unbox(k):
        return k.v if isinstance(k, KeyBox) else lift(k)
    if name == "items":
        return [(unbox(k), v) for k, v in o.items()]
    if name == "keys":
        return [unbox(k) for k in o]
    if name == "values":
        return list(o.values())
    if name == "get":
        k = args[0]
        d = args[1] if len(args) > 1 else kw.get("default")
        if isinstance(k, (SVal, SObj)) or any(isinstance(x, KeyBox) for x in o):
            kk = ip.resolve_key(o, k)
            return o[kk] if kk is not None else d
        try:
            return o.get(k, d)
        except TypeError as e:
            raise PyExc(e) from None
    if name == "pop":
        k = args[0]
        if isinstance(k, (SVal, SObj)):
            k = ip.resolve_key(o, k)
        if k in o:
            return o.pop(k)
        if len(args) > 1:
            return args[1]
        raise PyExc(KeyError(k))
    if name == "update":
        if args:
            src = args[0]
            if isinstance(src, dict):
                o.update(src)
            else:
                for p in ip.concrete_iter(src):
                    k, v = ip.concrete_iter(p)
                    ip.dict_set(o, k, v)
        o.update(kw)
        return None
    if name == "copy":
        return dict(o)
    if name == "setdefault":
        k = args[0]
        if k not in o:
            o[k] = args[1] if len(args) > 1 else None
        return o[k]
    if name == "clear":
        o.clear()
        return None
    raise Unsupported(f"dict.{name}")


def str_method(ip, o, name, args, kw):
    if isinstance(o, str) and all(is_concrete(a) for a in args) and is_concrete(list(kw.values())):
        if name == "join":
            it = ip.concrete_iter(args[0])
            if all(isinstance(x, str) for x in it):
                return o.join(it)
            if any(isinstance(x, SStr) for x in it):
                parts = []
                for i, x in enumerate(it):
                    if i:
                        parts.append(o)
                    parts.append(x)
                return str_concat(ip, parts)
            raise PyExc(TypeError("sequence item: expected str instance"))
        return _native_m(o, name, [lower(a) for a in args], {k: lower(v) for k, v in kw.items()})
    if name == "join":
        it = ip.concrete_iter(args[0])
        parts = []
        for i, x in enumerate(it):
            if i:
                parts.append(o)
            parts.append(x)
        return str_concat(ip, parts) if parts else ""
    if isinstance(o, Cat):
        from .filem import cat_method
        return cat_method(ip, o, name, args, kw)
    if name == "format":
        return Opaque(str, "format")
    t = strterm(o)
    if name == "lower" or name == "casefold":
        r = LOWER(t)
        ip.c.axiom(("lower", r.get_id()), LOWER(r) == r)
        return SStr(r)
    if name in ("startswith", "endswith") and len(args) == 1:
        a = args[0]
        alts = a if isinstance(a, tuple) else (a,)
        f = z3.PrefixOf if name == "startswith" else z3.SuffixOf
        return Or(*[mkbool(f(strterm(x), t)) for x in alts])
    if name == "strip" and not args:
        r = STRIP(t)
        ip.c.axiom(("strip", r.get_id()), STRIP(r) == r)
        return SStr(r)
    if name == "encode":
        return Opaque(bytes, "encoded string")
    if name == "replace" and len(args) == 2:
        raise Unsupported("str.replace (symbolic)")
    raise Unsupported(f"str.{name} (symbolic)")


def to_str(ip, x, spec, conv):
    from .interp import KeyBox
    if isinstance(x, KeyBox):
        x = x.v
    if isinstance(x, str) and conv in (-1, None):
        return format(x, spec) if spec else x
    if isinstance(x, SStr) and not spec and conv in (-1, None, ord("s")):
        return x
    if isinstance(x, SNum) and x.k == "int" and not spec:
        t = x.t
        return SStr(z3.If(t >= 0, z3.IntToStr(t), z3.Concat(z3.StringVal("-"), z3.IntToStr(-t))))
    if isinstance(x, SObj) and conv in (-1, None, ord("s")):
        m = ip.find_method(x.cls, "__str__")
        if m is not None and m is not object.__str__ and getattr(m, "__module__", "").split(".")[0] in (
                "shepherd_core", "shepherd_data"):
            try:
                return ip.call(m, [x], {})
            except Unsupported:
                return Opaque(str, "str(obj)")
        return Opaque(str, "str(obj)")
    if is_concrete(x):
        v = lower(x)
        if conv == ord("r"):
            v = repr(v)
        elif conv == ord("s"):
            v = str(v)
        try:
            return format(v, spec) if spec else str(v)
        except (ValueError, TypeError) as e:
            raise PyExc(e) from None
    if hasattr(x, "m_str"):
        return x.m_str(ip)
    if isinstance(x, Cat) and not spec and conv in (-1, None, ord("s")):
        return x
    if _is_num(x) and conv in (-1, None, ord("s"), ord("r")):
        return Cat((Fmt(x, spec),))
    return Opaque(str, "text")


def str_concat(ip, parts):
    if all(isinstance(p, str) for p in parts):
        return "".join(parts)
    if any(isinstance(p, Opaque) for p in parts):
        from .filem import text
        return text(*parts)
    ts = [strterm(p) for p in parts if not (isinstance(p, str) and p == "")]
    if len(ts) == 1:
        return SStr(ts[0])
    return SStr(z3.Concat(*ts))


def distinct(ip, s):
    """No two positions of the sequence hold equal values."""
    gens = [seg_gen(ip, g, "a") for g in s.segs]
    gens2 = [seg_gen(ip, g, "b") for g in s.segs]
    cs = []
    for i, (v1, r1, e1) in enumerate(gens):
        for j, (v2, r2, e2) in enumerate(gens2):
            if j < i or (i == j and not v1):
                continue
            eq = bterm(ip.truth_term(ip.eq_term(e1, e2)))
            other = [z3.Or(*[x != y for x, y in zip(v1, v2)])] if i == j else []
            body = z3.Implies(z3.And(*r1, *r2, *other), z3.Not(eq))
            cs.append(z3.ForAll([*v1, *v2], body) if v1 or v2 else body)
    return mkbool(z3.And(*cs)) if cs else True


def seg_gen(ip, g, tag):
    """(bound variables, range, element) of an arbitrary element of a sequence segment."""
    if g[0] == "item":
        return [], [], g[1]
    c = ip.c
    c._ex = getattr(c, "_ex", 0) + 1
    if len(g) > 3:
        n, L, el = g[3]
        k, j = z3.Int(f"gk{tag}!{c._ex}"), z3.Int(f"gj{tag}!{c._ex}")
        kk, jj = SNum(k, "int"), SNum(j, "int")
        return [k, j], [k >= 0, k < nterm(n), j >= 0, j < nterm(L(kk))], el(kk, jj)
    j = z3.Int(f"gi{tag}!{c._ex}")
    return [j], [j >= 0, j < nterm(g[1])], g[2](SNum(j, "int"))


def make_set(ip, v):
    if isinstance(v, SeqV) and v.isset:
        return v
    it = items_of(ip, v)
    if not isinstance(it, list):
        s = as_seq(ip, v).copy()
        c = ip.c
        n = s.length()
        m = c.fresh_int("card")
        c.assume(And(compare(">=", m, 0), compare("<=", m, n), Implies(compare(">", n, 0), compare(">", m, 0))))
        c.assume(Iff(compare("==", m, n), distinct(ip, s)))
        s.isset = True
        s.card = m
        return s
    v = it
    if isinstance(v, list) and all(is_concrete(x) for x in v):
        try:
            return set(v)
        except TypeError as e:
            raise PyExc(e) from None
    if isinstance(v, list):
        out = []
        for x in v:
            if not any(ip.truth(ip.eq_term(x, y)) for y in out):
                out.append(x)
        s = SeqV([("item", x) for x in out])
        s.isset = True
        return s
    raise Unsupported("set of symbolic length")


@reg(_tqdm_trange)
def q_trange(ip, *a, **kw):
    return c_range(ip, range, *a)


def binop(ip, op, a, b):
    from .interp import Model
    if isinstance(a, Model) and hasattr(a, "m_binop"):
        return a.m_binop(ip, op, b)
    if op == "+" and isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
        return str_concat(ip, [a, b])
    if op == "/" and isinstance(a, pathlib.PurePath) and isinstance(b, SStr):
        from .textm import path_binop
        return path_binop(ip, a, b)
    if op == "+" and isinstance(a, list) and isinstance(b, list):
        return a + b
    if op == "+" and isinstance(a, tuple) and isinstance(b, tuple):
        return a + b
    if op == "+" and isinstance(a, (list, SeqV)) and isinstance(b, (list, SeqV)):
        s = as_seq(ip, a).copy()
        s.extend_seq(as_seq(ip, b))
        return s
    if op == "*" and isinstance(b, (list, str, tuple, bytes)) and isinstance(a, int):
        a, b = b, a
    if op == "*" and isinstance(a, (list, str, tuple, bytes)) and isinstance(b, int):
        return a * b
    if op == "*" and isinstance(a, list) and isinstance(b, SNum) and b.k == "int":
        s = SeqV()
        if len(a) == 1:
            v = a[0]
            s.add_seg(smax(b, 0), lambda i: v)
            return s
    if op == "%" and isinstance(a, str):
        return to_str_percent(ip, a, b)
    if op in ("|", "&", "-", "^") and isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
        return {"|": a | b, "&": a & b, "-": a - b, "^": a ^ b}[op]
    if op == "|" and isinstance(a, dict) and isinstance(b, dict):
        return {**a, **b}
    for x, y, r in ((a, b, False), (b, a, True)):
        if hasattr(x, "m_binop"):
            return x.m_binop(ip, op, y, r)
    if isinstance(a, SObj) or isinstance(b, SObj):
        nm = {"+": "add", "-": "sub", "*": "mul", "/": "truediv", "//": "floordiv"}.get(op)
        if nm and isinstance(a, SObj):
            m = ip.find_method(a.cls, f"__{nm}__")
            if m is not None:
                return ip.call(m, [a, b], {})
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        if all(_is_num(x) or (isinstance(x, Opaque) and x.typ is complex) for x in (a, b)) and op in "+-*/":
            return Opaque(complex, "complex")
        if op == "+" and all(isinstance(x, (str, SStr)) or (isinstance(x, Opaque) and x.typ is str) for x in (a, b)):
            from .filem import text
            return text(a, b)
        if (isinstance(a, Opaque) and a.typ is str) or (isinstance(b, Opaque) and b.typ is str):
            return Opaque(str, "text")
        raise Unsupported("arithmetic on opaque value")
    if is_concrete(a) and is_concrete(b):
        f = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv, "//": operator.floordiv,
             "%": operator.mod, "&": operator.and_, "|": operator.or_, "^": operator.xor, "<<": operator.lshift,
             ">>": operator.rshift, "**": operator.pow, "@": operator.matmul}[op]
        try:
            return lift(f(lower(a), lower(b)))
        except Exception as e:  # noqa: BLE001
            raise PyExc(e) from None
    from .interp import Model as M
    if not isinstance(a, M) and not isinstance(b, M):
        tn = (None, type(None))
        if a is None or b is None or isinstance(a, (str, SStr)) or isinstance(b, (str, SStr)):
            raise PyExc(TypeError(f"unsupported operand type(s) for {op}"))
    return NotImplemented


def to_str_percent(ip, a, b):
    if is_concrete(b):
        try:
            return a % (lower(b))
        except (TypeError, ValueError) as e:
            raise PyExc(e) from None
    return Opaque(str, "text")


def order(ip, o, a, b):
    from .interp import Model
    for x, y, oo in ((a, b, o), (b, a, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}[o])):
        if hasattr(x, "m_order"):
            return x.m_order(ip, oo, y)
    if isinstance(a, SObj):
        nm = {"<": "__lt__", "<=": "__le__", ">": "__gt__", ">=": "__ge__"}[o]
        m = ip.find_method(a.cls, nm)
        if m is not None and m is not getattr(object, nm):
            return ip.call(m, [a, b], {})
    if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)) and (isinstance(a, SStr) or isinstance(b, SStr)):
        x, y = strterm(a), strterm(b)
        return mkbool({"<": x < y, "<=": x <= y, ">": y < x, ">=": y <= x}[o])
    if isinstance(a, Opaque) and a.typ is complex or isinstance(b, Opaque) and b.typ is complex:
        raise PyExc(TypeError("'<' not supported between complex"))
    if (_is_num(a) and isinstance(b, (str, SStr, list, dict, tuple))) or (
            _is_num(b) and isinstance(a, (str, SStr, list, dict, tuple))):
        raise PyExc(TypeError(f"'{o}' not supported"))
    return NotImplemented


def eq(ip, a, b):
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        if a is None or b is None:
            return False
        return NotImplemented
    if isinstance(a, enum.Enum) or isinstance(b, enum.Enum):
        x, y = (a, b) if isinstance(a, enum.Enum) else (b, a)
        if isinstance(y, enum.Enum):
            return a is b or (isinstance(a, (str, int)) and bool(a == b))
        if isinstance(x, (str, int)):
            if isinstance(y, (SStr, str)):
                if not isinstance(x, str):
                    return False
                return mkbool(strterm(x.value) == strterm(y)) if isinstance(y, SStr) else x.value == y
            if _is_num(y) and isinstance(x, int):
                return compare("==", x.value, y)
        return False
    if isinstance(a, BaseModel) or isinstance(b, BaseModel):
        from .pyd import to_sobj
        if isinstance(a, BaseModel) and isinstance(b, BaseModel):
            return bool(a == b)
        if isinstance(a, BaseModel):
            a = to_sobj(a)
        if isinstance(b, BaseModel):
            b = to_sobj(b)
        if isinstance(a, SObj) and isinstance(b, SObj):
            return ip.eq_term(a, b)
        return False
    if isinstance(a, (SeqV, list, tuple)) and isinstance(b, (SeqV, list, tuple)):
        sa, sb = as_seq(ip, a), as_seq(ip, b)
        if sa.concrete() and sb.concrete():
            if sa.isset or sb.isset:
                raise Unsupported("set == symbolic")
            return ip.eq_term(sa.items(), sb.items())
        raise Unsupported("== on symbolic-length sequences")
    return NotImplemented


# ---------------------------------------------------------------- enums, ctor, native

def ctor(cls):
    h = CTORS.get(cls)
    if h is not None:
        return h
    return None


def enum_ctor(ip, cls, x=None, *a):
    if isinstance(x, cls):
        return x
    if is_concrete(x):
        try:
            return cls(lower(x))
        except ValueError as e:
            raise PyExc(e) from None
    ms = list(cls)
    for m in ms:
        if ip.truth(ip.eq_term(lift(m.value), x)):
            return m
    raise PyExc(ValueError(f"not a valid {cls.__name__}"))


def enum_item(ip, cls, k):
    if is_concrete(k):
        try:
            return cls[k]
        except KeyError as e:
            raise PyExc(e) from None
    for nm in cls.__members__:
        if ip.truth(ip.eq_term(nm, k)):
            return cls.__members__[nm]
    raise PyExc(KeyError("enum key"))


PURE_MODULES = {"math", "cmath", "builtins", "_operator", "operator", "struct", "_struct", "itertools", "functools",
                "datetime", "_datetime", "string", "re", "decimal", "numbers", "collections", "typing",
                "typing_extensions", "numpy", "hashlib", "_hashlib", "_sha3", "base64", "binascii", "uuid",
                "ipaddress", "enum", "types", "pathlib", "pathlib._local", "annotated_types", "contextlib",
                "zoneinfo", "time", "copy", "statistics", "fractions", "posixpath", "_io_no", "zoneinfo._zoneinfo"}

PURE_DENY = {"open", "exec", "eval", "compile", "input", "__import__", "mkdir", "unlink", "rename", "replace", "touch",
             "rmdir", "write_text", "write_bytes", "chmod", "symlink_to", "sleep", "exists", "is_file", "is_dir",
             "resolve", "absolute", "iterdir", "glob", "rglob", "stat", "read_text", "read_bytes", "cwd", "home",
             "now", "today", "utcnow", "time", "monotonic", "perf_counter", "uuid4", "uuid1"}


def native_call(ip, fn, args, kw):
    """Pure library function on concrete values: evaluated natively."""
    self_ = getattr(fn, "__self__", None)
    mod = getattr(fn, "__module__", None)
    if self_ is not None and not isinstance(self_, types.ModuleType):
        T = self_ if isinstance(self_, type) else type(self_)
        mod = T.__module__
    name = getattr(fn, "__name__", "")
    if mod is None or mod not in PURE_MODULES and mod.split(".")[0] not in ("numpy",):
        return NotImplemented
    if name in PURE_DENY:
        return NotImplemented
    if not (is_concrete(args) and is_concrete(kw)):
        return NotImplemented
    from .interp import Bound, Func
    if any(isinstance(a, (Func, Bound)) for a in [*args, *kw.values()]):
        return NotImplemented
    try:
        r = fn(*[lower(a) for a in args], **{k: lower(v) for k, v in kw.items()})
    except Exception as e:  # noqa: BLE001
        raise PyExc(e) from None
    if isinstance(r, np.generic):
        if isinstance(r, (np.floating, np.integer, np.bool_)):
            dt = dt_of(r.dtype)
            v = r.item()
            if dt == "bool":
                return bool(v)
            return SNum(rterm(frac(v)) if dt[0] == "f" else z3.IntVal(v), "float" if dt[0] == "f" else "int", dt)
    if isinstance(r, (filter, map, zip)) or type(r).__name__ in ("generator",):
        r = list(r)
    return lift(r)


# pydantic instance methods on SObj ------------------------------------------------

def sobj_attr(ip, obj, name):
    if issubclass(obj.cls, BaseModel):
        from .interp import ModelMethod
        if name in PYD_METHODS:
            f = PYD_METHODS[name]
            return ModelMethod(lambda ip, *a, **k: f(ip, obj, *a, **k), name)
        if name in ("__fields_set__", "model_fields_set"):
            return obj.__dict__.get("fields_set", set(obj.f))
        if name == "__getattribute__":
            return ModelMethod(lambda ip, n: ip.getattr(obj, n), name)
    elif name == "__getattribute__":
        from .interp import ModelMethod
        return ModelMethod(lambda ip, n: ip.getattr(obj, n), name)
    return NotImplemented


def _p_dump(ip, o, **kw):
    from .pyd import model_dump
    return model_dump(ip, o, **kw)


def _p_copy(ip, o, update=None, deep=False):
    r = SObj(o.cls, o.f if not deep else globals()["deep"](o.f))
    r.__dict__["fields_set"] = set(o.__dict__.get("fields_set", o.f))
    if update:
        r.f.update(update)
        r.__dict__["fields_set"] |= set(update)
    return r


PYD_METHODS = {"model_dump": _p_dump, "dict": _p_dump, "model_copy": _p_copy, "copy": _p_copy}

_KEEP.extend(TABLE)


CTORS[type] = lambda ip, cls, x: b_type(ip, x)
