"""Contracts: one text, decided symbolically on the source and evaluated on the running code."""
from __future__ import annotations

import copy
import datetime
import enum
import importlib
import math
import random
import re
import sys
import tempfile
import time
import traceback
import typing
from fractions import Fraction
from pathlib import Path

import numpy as np
import z3
from pydantic import BaseModel, ValidationError

from .arrays import SArr, SeqV, as_seq, strip, _NPD
from .core import *  # noqa: F403
from .core import _is_num, _sym
from . import filem as _filem  # noqa: F401
from . import textm as _textm
from . import datam as _datam
from . import codecm as _codecm
from . import matm as _matm  # noqa: F401  (registers the 2-d array models)

CONTRACTS: list = []
SPECS: list = []


class Reject(Exception):
    """Input outside the precondition."""


class Skip(Exception):
    """Target does not exist (any more) under this name."""


class Violated(Exception):
    def __init__(self, name, detail=""):
        super().__init__(name)
        self.name = name
        self.detail = detail


class Contract:
    modular = False

    def __init__(self, prop, name, fn, on=(), samples=150, seconds=6.0, bounded=False, opts=None, note="", max_paths=3000,
                 symbolic=True, assumptions=()):
        self.prop = prop
        self.name = name
        self.fn = fn
        self.on = list(on)
        self.samples = samples
        self.seconds = seconds
        self.bounded = bounded
        self.opts = opts or {}
        self.note = note
        self.max_paths = max_paths
        self.symbolic = symbolic
        self.assumptions = list(assumptions)

    @property
    def id(self):
        return f"{self.prop}:{self.name}"


def contract(prop, name, **kw):
    def deco(fn):
        CONTRACTS.append(Contract(prop, name, fn, **kw))
        return fn
    return deco


def resolve(path):
    """'module:Class.attr' -> raw function object (or Skip)."""
    mod, _, q = path.partition(":")
    try:
        o = importlib.import_module(mod)
        for p in q.split("."):
            o = o.__dict__[p] if isinstance(o, type) and p in o.__dict__ else getattr(o, p)
    except (ImportError, AttributeError, KeyError) as e:
        raise Skip(f"{path}: {e}") from None
    if isinstance(o, (staticmethod, classmethod)):
        o = o.__func__
    return o


class FnSpec(Contract):
    """Contract of one function: requires / modifies / ensures, used at its call sites instead of its body."""

    modular = True

    def __init__(self, prop, path, body, **kw):
        super().__init__(prop, "spec " + path.split(":")[1], self._check, on=[path], **kw)
        self.path = path
        self.body = body
        self._code = None

    def matches(self, fn):
        if self._code is None:
            try:
                from .interp import unwrap
                self._code = unwrap(resolve(self.path)).__code__
            except (Skip, AttributeError):
                self._code = False
        return self._code is not False and getattr(fn, "__code__", None) is self._code

    def _check(self, t):
        f = resolve(self.path)
        a = NS(self.body.args(t))
        if hasattr(self.body, "requires"):
            t.assume(self.body.requires(t, a))
        old = t.old(a)
        ret = t.call(f, **a.__dict__)
        for name, cond in self.body.ensures(t, a, old, ret):
            t.ensure(name, cond)
        mods = getattr(self.body, "modifies", ())
        t.frame("frame", a, old, mods)

    def apply(self, ip, bound):
        t = SymT(ip.c, ip)
        a = NS(bound)
        if hasattr(self.body, "requires"):
            ip.c.prove(f"call {self.path.split(':')[1]}: precondition", self.body.requires(t, a))
        old = t.old(a)
        for m in getattr(self.body, "modifies", ()):
            on, fld = m.split(".")
            o = getattr(a, on)
            v = o.f.get(fld)
            o.f[fld] = self.body.havoc(t, fld, v) if hasattr(self.body, "havoc") else t.fresh_like(fld, v)
        ret = self.body.result(t, a) if hasattr(self.body, "result") else None
        if callable(getattr(self.body, "returns", None)):
            ret = self.body.returns(t, a)
        for _, cond in self.body.ensures(t, a, old, ret):
            ip.c.assume(cond if isinstance(cond, (bool, SBool)) else ip.truth_term(cond))
        return ret


def spec(prop, path, **kw):
    def deco(cls):
        s = FnSpec(prop, path, cls, **kw)
        CONTRACTS.append(s)
        SPECS.append(s)
        return cls
    return deco


class Registry:
    def __init__(self, specs):
        self.specs = specs
        self.cache = {}

    def for_function(self, fn):
        c = getattr(fn, "__code__", None)
        if c is None:
            return None
        if c not in self.cache:
            self.cache[c] = next((s for s in self.specs if s.matches(fn)), None)
        return self.cache[c]


class NS:
    def __init__(self, d):
        self.__dict__.update(d)


class Outcome:
    def __init__(self, value=None, exc=None):
        self.value = value
        self.exc = exc

    @property
    def ok(self):
        return self.exc is None

    def raised(self, *types):
        return self.exc is not None and isinstance(self.exc, types)


# ----------------------------------------------------------------- symbolic

class SymT:
    sym = True

    def __init__(self, c, ip):
        self.c = c
        self.ip = ip

    # inputs ---------------------------------------------------------------
    def _inp(self, name, t, sort, read):
        self.c.inputs[name] = {"t": t, "sort": sort, "read": read}

    def real(self, name, lo=None, hi=None, gt=None, lt=None, gen=None):
        t = self.c.fresh(name, REAL)
        self._inp(name, t, "real", lambda m: model_num(m, t))
        v = SNum(t, "float")
        self._range(v, lo, hi, gt, lt)
        return v

    def int(self, name, lo=None, hi=None, gen=None):
        t = self.c.fresh(name, INT)
        self._inp(name, t, "int", lambda m: model_num(m, t))
        v = SNum(t, "int")
        self._range(v, lo, hi)
        return v

    def _range(self, v, lo=None, hi=None, gt=None, lt=None):
        for b, o in ((lo, ">="), (hi, "<="), (gt, ">"), (lt, "<")):
            if b is not None:
                self.c.assume(compare(o, v, b))

    def anymap(self, name, kt, entry, keys=()):
        """A dictionary of any size with texts or integers as keys; entry(key) is what it holds."""
        from .anymap import AnyMap
        return AnyMap(name, kt, entry)

    def mapcopy(self, m):
        return m.copy()

    def has(self, m, k):
        return self.ip.truth(self.ip.contains(m, k))

    def bool(self, name):
        t = self.c.fresh(name, BOOL)
        self._inp(name, t, "bool", lambda m: z3.is_true(m.eval(t, model_completion=True)))
        return SBool(t)

    def choice(self, name, xs):
        i = self.c.choose(len(xs))
        self._inp(name, z3.IntVal(i), "const", lambda m: i)
        return self.lift(xs[i])

    def text(self, name, maxlen=20, gen=None):
        t = self.c.fresh(name, z3.StringSort())
        self._inp(name, t, "str", lambda m: m.eval(t, model_completion=True).as_string())
        self.c.assume(mkbool(z3.Length(t) >= 1))
        self.c.assume(mkbool(z3.Length(t) <= maxlen))
        return SStr(t)

    def matches(self, pattern, s):
        return _textm.matches(self.ip, pattern, s)

    def holds_word(self, s, x):
        """The text holds the word, whatever the case."""
        return x in s.lower() if isinstance(s, str) else _textm.letters_any_case(x, s.t)

    def time(self, name, aware=True, gen=None):
        """A point in time, given as seconds from now."""
        off = self.real(name)
        n0 = _textm.now(self.ip)
        return _textm.DtM(self.ip.binop("+", n0.s, off), aware, self.int(name + ".zone") if aware else None)

    def zoned(self, v, name):
        """The same instant, expressed in some other zone."""
        return _textm.DtM(v.s, v.aware, self.int(name)) if v.aware else v

    def past(self, v):
        return compare("<=", v.s, self.ip.__dict__.get("clock", v.s))

    def span(self, name, lo=0, hi=None, gen=None):
        """A duration (given in microseconds)."""
        return _datam.TdM(self.int(name, lo=lo, hi=hi))

    def path(self, *parts):
        p = Path(parts[0]) if isinstance(parts[0], str) else parts[0]
        for x in parts[1:]:
            p = self.ip.binop("/", p, x)
        return p

    def add(self, *xs):
        """Texts put together."""
        return _textm.joined([p for x in xs for p in _textm.pieces(x)])

    def arr(self, name, dt="f8", n=None, nmin=0, nmax=None, lo=None, hi=None, gen=None, ngen=None):
        if n is None:
            n = self.int(name + ".n", lo=nmin, hi=nmax)
        srt = REAL if dt[0] == "f" else BOOL if dt == "bool" else INT
        f = z3.Function(name, INT, srt)
        if dt[0] == "u":
            lo = 0 if lo is None else lo
            hi = 2 ** (8 * int(dt[1:])) - 1 if hi is None else hi
        elif dt[0] == "i":
            lo = -(2 ** (8 * int(dt[1:]) - 1)) if lo is None else lo
            hi = 2 ** (8 * int(dt[1:]) - 1) - 1 if hi is None else hi
        c = self.c

        def ax(term):
            cs = []
            if lo is not None:
                cs.append(term >= z3num(lift(lo)))
            if hi is not None:
                cs.append(term <= z3num(lift(hi)))
            if cs:
                c.axiom(("arr", term.get_id()), z3.And(*cs))
        c.__dict__.setdefault("uf_axioms", {})[name] = ax

        def get(i):
            term = f(nterm(i))
            if srt != BOOL:
                ax(term)
                return SNum(term, "float" if srt == REAL else "int")
            return SBool(term)

        nt = nterm(n)

        def read(m):
            k = model_num(m, nt)
            if k > 100000:
                raise ValueError("array too long to write out")
            out = []
            for i in range(k):
                v = m.eval(f(i), model_completion=True)
                out.append(z3.is_true(v) if srt == BOOL else model_num(m, f(i)))
            return out
        self._inp(name, f(z3.IntVal(0)) if srt != BOOL else z3.IntVal(0), "array", read)
        return SArr(n, get, dt)

    def stub(self, fn, ghost, by, after=0):
        """Calls of fn are replaced by its contract, the ghost function (proved by the contract named `by`).

        after=1: the first call runs the function itself, its recursive calls are represented by the contract."""
        from .interp import unwrap
        if not isinstance(fn, type):
            fn = unwrap(getattr(unwrap(fn), "__func__", unwrap(fn)))
        self.ip.stubs[fn] = (ghost, by, [after])

    def raise_(self, exc):
        raise PyExc(exc)

    def uf(self, name, dt="int", args=1):
        """Uninterpreted function of integers or strings."""
        srt = {"int": INT, "real": REAL, "bool": BOOL, "str": z3.StringSort()}[dt]
        W = {"int": lambda x: SNum(x, "int"), "real": lambda x: SNum(x, "float"), "bool": SBool, "str": SStr}[dt]

        def call(*a):
            ts = [x.t if isinstance(x, SStr) else z3.StringVal(x) if isinstance(x, str) else nterm(x) for x in a]
            return W(z3.Function(name, *[x.sort() for x in ts], srt)(*ts))
        return call

    def seq(self, n, f):
        """List of n elements f(i)."""
        return SeqV([("seg", n if isinstance(n, int) else n, f)]) if not (isinstance(n, int) and n <= 8) else [f(i) for i in range(n)]

    def optional(self, present, v):
        """v, or None where the condition does not hold."""
        from .core import mkopt
        return mkopt(Not(present), v)

    def build(self, n, dt, fn):
        """Array of n given elements."""
        from .arrays import SArr, cast, strip
        return self._ghost(SArr(n, lambda i: cast(strip(fn(i)), dt), dt))

    def _ghost(self, x):
        """x may be written by stubs: part of the state that loop summaries track."""
        if not self.c.loopvars:
            self.ip.world.setdefault("ghosts", []).append(x)
        return x

    def col(self, name, n, dt="int", lo=None, hi=None, gen=None, maxlen=20):
        """n scalars as a function of the index."""
        c = self.c
        srt = {"int": INT, "real": REAL, "bool": BOOL, "str": z3.StringSort()}[dt]
        f = z3.Function(name, INT, srt)

        def ax(term):
            if srt == BOOL:
                return
            cs = []
            if dt == "str":
                cs = [z3.Length(term) >= 1, z3.Length(term) <= maxlen]
            else:
                if lo is not None:
                    cs.append(term >= z3num(lift(lo)))
                if hi is not None:
                    cs.append(term <= z3num(lift(hi)))
            if cs:
                c.axiom(("col", term.get_id()), z3.And(*cs))
        c.__dict__.setdefault("uf_axioms", {})[name] = ax

        def at(i):
            term = f(nterm(i))
            ax(term)
            return SBool(term) if dt == "bool" else SStr(term) if dt == "str" else SNum(term, "float" if dt == "real" else "int")

        def read(m):
            k = model_num(m, nterm(n))
            if k > 1000:
                raise ValueError("too long to write out")
            vs = [m.eval(f(i), model_completion=True) for i in range(k)]
            return [z3.is_true(v) if dt == "bool" else v.as_string() if dt == "str" else model_num(m, v) for v in vs]
        self._inp(name, z3.IntVal(0), "array", read)
        return at

    def dataframe(self, row):
        """A pandas frame whose k-th row is row(k); k is the suffix of names."""
        from .framem import FrameM
        return FrameM(row(""))

    def rows_of(self, a):
        """The rows of a two-dimensional array of texts."""
        return a.rows()

    def column(self, col):
        """The values of a column, row by row as in cells()."""
        return [col.v]

    def cells(self, df):
        """Its rows (symbolically: an arbitrary one)."""
        return [df.cols]

    def rows(self, name, n, dt="int", lo=None, hi=None, nmin=0, nmax=None, lens=None, gen=None, ngen=None):
        """n lists of scalars: .row(i) (a list), .len(i), .at(i, j)."""
        c = self.c
        if lens is None:
            lens = self.col(name + ".len", n, lo=nmin, hi=nmax)
        srt = {"int": INT, "real": REAL, "bool": BOOL}[dt]
        f = z3.Function(name, INT, INT, srt)

        def ax(term):
            cs = []
            if lo is not None:
                cs.append(term >= z3num(lift(lo)))
            if hi is not None:
                cs.append(term <= z3num(lift(hi)))
            if cs:
                c.axiom(("rows", term.get_id()), z3.And(*cs))
        c.__dict__.setdefault("uf_axioms", {})[name] = ax

        def at(i, j):
            term = f(nterm(i), nterm(j))
            if srt == BOOL:
                return SBool(term)
            ax(term)
            return SNum(term, "float" if srt == REAL else "int")

        def read(m):
            k = model_num(m, nterm(n))
            if k > 1000:
                raise ValueError("too long to write out")
            out = []
            for i in range(k):
                L = model_num(m, nterm(lens(SNum(z3.IntVal(i), "int") if not isinstance(n, int) else i)))
                if L > 5000:
                    raise ValueError("too long to write out")
                row = [m.eval(f(i, j), model_completion=True) for j in range(L)]
                out.append([z3.is_true(v) if srt == BOOL else model_num(m, v) for v in row])
            return out
        self._inp(name, z3.IntVal(0), "array", read)
        return NS({"len": lens, "at": at, "row": lambda i: SeqV([("seg", lens(i), lambda j: at(i, j))])})

    def lift(self, v):
        from .pyd import to_sobj
        return to_sobj(v)

    # files -----------------------------------------------------------------
    def fs(self, others=False):
        from .h5m import SymFS
        return SymFS(self, others)

    def bytes(self, name):
        """Bytes of arbitrary content."""
        from . import codecm, filem
        return filem.SBytes(z3.Const(name, codecm.BYTES))

    def elf(self, fs, name, symbol):
        from .binm import SymElf
        return SymElf(self, fs, name, symbol)

    def tree(self, h5file):
        from .h5m import Tree
        return Tree(self, h5file)

    def table(self, path, sep, head=0):
        """The lines of a written text file as cells."""
        from .filem import SymTable
        return SymTable(self, path, sep, head)

    # models ----------------------------------------------------------------
    def obj(self, cls, **fields):
        """Instance with the given attributes (constructor not run)."""
        return self._ghost(SObj(cls, fields))

    def host(self, f):
        """Concrete object computed by the running code."""
        try:
            return self.lift(f())
        except Exception as e:  # noqa: BLE001
            raise Skip(f"set-up failed: {type(e).__name__}: {e}") from None

    def model(self, cls, **fields):
        """Valid instance of a pydantic model (its own validation is the precondition)."""
        from .pyd import construct_model
        old = self.ip.__dict__.get("assume_valid")
        self.ip.__dict__["assume_valid"] = True
        try:
            return construct_model(self.ip, cls, fields)
        except PyExc as e:
            if isinstance(e.exc, ValueError):
                raise Infeasible from None
            raise
        finally:
            self.ip.__dict__["assume_valid"] = old

    def new(self, cls, /, *a, **kw):
        return self.call(cls, *a, **kw)

    # running ----------------------------------------------------------------
    def call(self, fn, /, *a, **kw):
        try:
            return self.ip.call(fn, list(a), dict(kw))
        except PyExc as e:
            self.c.prove(f"no exception from {_nm(fn)} ({type(e.exc).__name__})", False, str(e))
            raise Infeasible from None

    def attempt(self, fn, /, *a, **kw):
        try:
            return Outcome(self.ip.call(fn, list(a), dict(kw)))
        except PyExc as e:
            return Outcome(exc=e.exc)

    def m(self, o, name, /, *a, **kw):
        try:
            f = self.ip.getattr(o, name)
        except PyExc:
            raise Skip(f"{name} missing") from None
        return self.call(f, *a, **kw)

    def attempt_m(self, o, name, /, *a, **kw):
        try:
            f = self.ip.getattr(o, name)
        except PyExc:
            raise Skip(f"{name} missing") from None
        return self.attempt(f, *a, **kw)

    def get(self, o, name):
        try:
            return self.ip.force(self.ip.getattr(o, name))
        except PyExc as e:
            raise Unsupported(f"attribute {name}: {e}") from None

    def set(self, o, name, v):
        if isinstance(o, SObj):
            o.f[name] = v
        else:
            self.ip.setattr(o, name, v)

    def assume(self, cond):
        cond = cond if isinstance(cond, (bool, SBool)) else self.ip.truth_term(cond)
        self.c.assume(cond)
        if isinstance(cond, SBool) and not self.c.dec.replaying and self.c.check() == z3.unsat:
            raise Infeasible

    def branch(self, cond):
        """Case split of the argument."""
        return self.ip.truth(cond)

    def ensure(self, name, cond):
        cond = cond if isinstance(cond, (bool, SBool)) else self.ip.truth_term(cond)
        self.c.prove(name, cond)

    def forall(self, n, f, start=0):
        """for all start <= i < n: f(i)  (as a goal)."""
        if isinstance(n, int) and isinstance(start, int) and n - start <= 40:
            return And(*[f(i) for i in range(start, n)])
        i = self.c.fresh_int("i")
        rng = And(compare(">=", i, start), compare("<", i, n))
        self.c.assume(Or(rng, compare("==", i, arith("-", start, 1))))
        with self.c.under(rng):
            r = f(i)
        return Implies(rng, r)

    def each(self, n, f):
        """for all 0 <= i < n: f(i)  (as a hypothesis)."""
        self.c._ex = getattr(self.c, "_ex", 0) + 1
        j = z3.Int(f"each!{self.c._ex}")
        rng = z3.And(j >= 0, j < nterm(n))
        with self.c.under(mkbool(rng)):
            b = bterm(f(SNum(j, "int")))
        return mkbool(z3.ForAll([j], z3.Implies(rng, b)))

    def exists(self, n, f):
        """some 0 <= i < n with f(i)  (as a goal)."""
        if isinstance(n, int) and n <= 40:
            return Or(*[f(i) for i in range(n)])
        self.c._ex = getattr(self.c, "_ex", 0) + 1
        j = z3.Int(f"some!{self.c._ex}")
        rng = z3.And(j >= 0, j < nterm(n))
        if self.c.check(rng) == z3.unsat:
            return False
        with self.c.under(mkbool(rng)):
            b = bterm(f(SNum(j, "int")))
        return mkbool(z3.Exists([j], z3.And(rng, b)))

    def sum(self, n, f):
        from .intrinsics import b_sum
        return b_sum(self.ip, SArr(n, f, "f8"))

    def select(self, n, f):
        """The indices below n for which f holds, ascending: .n and .at(k)."""
        from .arrays import selection
        return NS(selection(self.ip, SArr(n, f, "bool")))

    def old(self, a):
        return NS({k: _snap(v) for k, v in a.__dict__.items()})

    def snap(self, v):
        return _snap(v)

    def frame(self, name, a, old, mods):
        from .loops import same_val
        for k, v in a.__dict__.items():
            if not isinstance(v, SObj):
                if isinstance(v, SArr):
                    self.ensure(f"{name}: {k} not written", v._get is getattr(old, k)._get)
                continue
            o = getattr(old, k)
            for fld in sorted(set(v.f) | set(o.f)):
                if f"{k}.{fld}" in mods:
                    continue
                x, y = v.f.get(fld, None), o.f.get(fld, None)
                if x is y or same_val(x, y):
                    continue
                try:
                    t = self.ip.truth_term(self.ip.eq_term(x, y))
                except Unsupported:
                    t = False
                self.ensure(f"{name}: {k}.{fld} unchanged", t)

    def fresh_like(self, name, v):
        if isinstance(v, (bool, SBool)):
            return SBool(self.c.fresh(name, BOOL))
        if _is_num(v):
            return SNum(self.c.fresh(name, REAL if kind(v) == "float" else INT), kind(v))
        raise Unsupported(f"havoc of {name}")

    def fresh_real(self, name):
        return SNum(self.c.fresh(name, REAL), "float")

    def fresh_int(self, name):
        return SNum(self.c.fresh(name, INT), "int")

    def fresh_bool(self, name):
        return SBool(self.c.fresh(name, BOOL))

    # uniform accessors
    def len(self, a):
        return self.ip.intr.b_len(self.ip, a)

    def at(self, a, i):
        if isinstance(a, SeqV) and isinstance(i, SNum):
            return strip(a.at(i))
        return strip(self.ip.getitem(a, i)) if not isinstance(a, SArr) else a.at(i)

    def put(self, a, i, v):
        """Ghost recording a[i] = v, or the elements of v from there on (no bounds check)."""
        from .arrays import cast
        if isinstance(v, SArr):
            g = v.snapshot()
            a.write(i, v.n, lambda j: cast(strip(g(j)), a.dt))
            return
        v = cast(strip(v), a.dt)
        a.write(i, 1, lambda _: v)

    def scalar(self, v):
        return strip(v) if isinstance(v, (SNum, SBool)) else v

    def eq(self, a, b):
        """Structural equality of engine values."""
        return self.ip.truth_term(self.ip.eq_term(a, b))

    def isinstance(self, v, t):
        return self.ip.intr.is_instance(self.ip, v, t)

    def is_array(self, v):
        return isinstance(v, SArr)

    def lookup(self, path):
        return resolve(path)


def _snap(v):
    if isinstance(v, SObj):
        o = SObj(v.cls, {k: _snap(x) if isinstance(x, SObj) and k != "_cfg" and k != "cfg" else (x.copy() if isinstance(x, (SArr, SeqV)) else _snap(x) if isinstance(x, (list, dict)) and k not in ('_cfg', 'cfg') else x) for k, x in v.f.items()})
        return o
    if isinstance(v, (SArr, SeqV)):
        return v.copy()
    if isinstance(v, list):
        return [_snap(x) for x in v]
    if isinstance(v, dict):
        return {k: _snap(x) for k, x in v.items()}
    return v


def _deep(x):
    if isinstance(x, dict):
        return {k: _deep(v) for k, v in x.items()}
    return [_deep(v) for v in x] if isinstance(x, list) else x.copy() if isinstance(x, np.ndarray) else x


def _nm(fn):
    return getattr(fn, "__qualname__", None) or getattr(getattr(fn, "fn", None), "__qualname__", None) or str(fn)[:60]


# ------------------------------------------------------------------ concrete

_UNSET = object()


class NatT:
    """The same contract text on the running code."""

    sym = False

    def __init__(self, rng, values=None, perturb=False):
        self.rng = rng
        self.values = values if values is not None else {}
        self.from_model = values is not None
        self.perturb = perturb
        self.drawn = {}
        self.names = {}
        self.checked = 0
        self.failed = []
        self._tmp = None
        self.missing = False
        self.closers = []

    def _name(self, name):
        n = self.names.get(name, 0)
        self.names[name] = n + 1
        return name if n == 0 else f"{name}!{n}"

    def _val(self, name, rnd):
        nm = self._name(name)
        if nm in self.values:
            v = self.values[nm]
            if isinstance(v, str) and v.startswith("?"):
                self.missing = True
                v = rnd()
            elif self.perturb and self.rng.random() < 0.3:
                v = rnd()
            elif self.perturb and isinstance(v, (int, float, Fraction)) and not isinstance(v, bool) and self.rng.random() < 0.4:
                v = v + self.rng.choice([-1, 1]) if isinstance(v, int) else float(v) * self.rng.choice([0.5, 0.999, 1.001, 2])
        else:
            v = rnd()
        self.drawn[nm] = v
        return v

    def real(self, name, lo=None, hi=None, gt=None, lt=None, gen=None):
        r = self.rng

        def rnd():
            if gen is not None and r.random() < 0.8:
                return gen(r)
            a = lo if lo is not None else gt
            b = hi if hi is not None else lt
            a = float(a) if a is not None else None
            b = float(b) if b is not None else None
            m = r.random()
            if m < 0.25:
                v = r.choice([0.0, 1.0, 0.5, 2.0, -1.0, 1e-3, 1e3, 1e6, 1e-6, a or 0.0, b or 0.0, 1e-9, 10.0])
            elif m < 0.6 and a is not None and b is not None:
                v = r.uniform(a, b)
            elif m < 0.8:
                v = float(r.randint(-5, 5000))
            else:
                v = r.choice([-1, 1]) * 10 ** r.uniform(-9, 7)
            if a is not None and v < a:
                v = a + abs(v - a) if b is None else r.uniform(a, b)
            if b is not None and v > b:
                v = b - abs(v - b) if a is None else r.uniform(a, b)
            return v
        v = self._val(name, rnd)
        v = float(v)
        self._rng_ok(v, lo, hi, gt, lt)
        return v

    def int(self, name, lo=None, hi=None, gen=None):
        r = self.rng

        def rnd():
            if gen is not None and r.random() < 0.8:
                return gen(r)
            m = r.random()
            if m < 0.3:
                v = r.choice([0, 1, 2, 3, lo or 0, hi or 0, (hi or 1) - 1, (lo or 0) + 1, 10, 255, 256])
            elif m < 0.6 and lo is not None and hi is not None:
                v = r.randint(lo, hi)
            elif m < 0.8:
                v = r.randint(-10, 200)
            else:
                v = int(10 ** r.uniform(0, 9))
            if lo is not None and v < lo:
                v = lo + (lo - v) % 7 if hi is None else r.randint(lo, hi)
            if hi is not None and v > hi:
                v = r.randint(lo if lo is not None else min(hi, 0), hi)
            return v
        v = int(self._val(name, rnd))
        self._rng_ok(v, lo, hi)
        return v

    def _rng_ok(self, v, lo=None, hi=None, gt=None, lt=None):
        if (lo is not None and v < lo) or (hi is not None and v > hi) or (gt is not None and v <= gt) or (
                lt is not None and v >= lt):
            raise Reject

    def bool(self, name):
        return bool(self._val(name, lambda: self.rng.random() < 0.5))

    def choice(self, name, xs):
        i = int(self._val(name, lambda: self.rng.randrange(len(xs))))
        return xs[i % len(xs)]

    def text(self, name, maxlen=20, gen=None):
        r = self.rng

        def rnd():
            if gen is not None:
                return gen(r)
            return "".join(r.choice("abcXYZ_019") for _ in range(r.randint(1, min(maxlen, 8))))
        v = str(self._val(name, rnd))
        if not 1 <= len(v) <= maxlen:
            raise Reject
        return v

    def matches(self, pattern, s):
        return re.search(pattern, s) is not None

    def holds_word(self, s, x):
        return x in s.lower()

    def time(self, name, aware=True, gen=None):
        off = self.real(name, gen=gen or (lambda r: r.choice([-3600.0, 3600.0, 7200.0])))
        if abs(off) < 60 or abs(off) > 1e9:
            raise Reject
        d = datetime.datetime.now().astimezone() + datetime.timedelta(seconds=off)
        if not aware:
            return d.replace(tzinfo=None)
        return self.zoned(d, name + ".zone")

    def zoned(self, v, name):
        z = self.int(name, gen=lambda r: r.randint(-12, 14))
        return v.astimezone(datetime.timezone(datetime.timedelta(hours=z % 24 - 12))) if v.tzinfo is not None else v

    def past(self, v):
        return v <= datetime.datetime.now().astimezone()

    def span(self, name, lo=0, hi=None, gen=None):
        us = self.int(name, lo=lo, hi=hi, gen=gen or (lambda r: min(max(lo, r.choice([0, 10**6, 1500000, r.randrange(10**6), 10**6 * r.randrange(10**5), r.randrange(10**12)])), hi if hi is not None else 10**14)))
        if abs(us) > 10**14:
            raise Reject
        return datetime.timedelta(microseconds=us)

    def path(self, *parts):
        return Path(*parts)

    def add(self, *xs):
        return "".join(xs)

    def arr(self, name, dt="f8", n=None, nmin=0, nmax=None, lo=None, hi=None, gen=None, ngen=None):
        r = self.rng
        if n is None:
            n = self.int(name + ".n", lo=nmin, hi=nmax, gen=ngen or (lambda r: max(nmin, min(r.choice([0, 1, 2, 3, 5, 8, 13, 20]), nmax if nmax is not None else 99))))
        n = int(n)
        if n > 2_000_000:
            raise Reject
        info = None
        if dt[0] in "iu":
            info = np.iinfo(_NPD[dt])
            lo_, hi_ = (int(info.min) if lo is None else lo), (int(info.max) if hi is None else hi)
        else:
            lo_, hi_ = (lo if lo is not None else -10.0), (hi if hi is not None else 10.0)

        def rnd():
            if n > 3000:
                seed = r.randrange(2**31)
                g = np.random.default_rng(seed)
                if gen is not None:
                    base = [gen(r) for _ in range(50)]
                    return [base[k] for k in g.integers(0, 50, n)]
                if dt == "bool":
                    return (g.random(n) < 0.5).tolist()
                if dt[0] in "iu":
                    return g.integers(lo_, min(hi_, 2**62), n, endpoint=True).tolist()
                return g.uniform(lo_, hi_, n).tolist()
            out = []
            small = r.random() < 0.4
            for _ in range(n):
                if gen is not None:
                    out.append(gen(r))
                elif dt == "bool":
                    out.append(r.random() < 0.5)
                elif dt[0] in "iu":
                    if small:
                        out.append(min(max(r.randint(-2, 6), lo_), hi_))
                    else:
                        out.append(r.choice([lo_, hi_, r.randint(lo_, hi_), r.randint(lo_, min(hi_, lo_ + 5000))]))
                else:
                    out.append(r.choice([lo_, hi_, 0.0 if lo_ <= 0 <= hi_ else lo_, r.uniform(lo_, hi_)]))
            return out
        v = self._val(name, rnd)
        v = list(v)
        while len(v) < n:
            v.append(v[-1] if v else (lo_ if dt[0] != "f" else 0.0))
        v = v[:n]
        try:
            return np.array([float(x) if dt[0] == "f" else x for x in v], dtype=_NPD[dt])
        except OverflowError:
            raise Reject from None

    def lift(self, v):
        return v

    def stub(self, fn, ghost, by, after=0):
        pass

    def uf(self, name, dt="int", args=1):
        return None

    def seq(self, n, f):
        return [f(i) for i in range(int(n))]

    def optional(self, present, v):
        return v if present else None

    def build(self, n, dt, fn):
        if n > 2_000_000:
            raise Reject
        return np.array([fn(i) for i in range(int(n))], dtype=_NPD[dt])

    def col(self, name, n, dt="int", lo=None, hi=None, gen=None, maxlen=20):
        n, r = int(n), self.rng

        def one():
            if gen is not None:
                return gen(r)
            if dt == "bool":
                return r.random() < 0.5
            if dt == "str":
                return "".join(r.choice("abcxyz_09") for _ in range(r.randint(1, min(maxlen, 6))))
            a, b = (lo if lo is not None else -5), (hi if hi is not None else 20)
            return r.randint(a, b) if dt == "int" else r.uniform(a, b)
        v = list(self._val(name, lambda: [one() for _ in range(n)]))
        while len(v) < n:
            v.append(one())
        v = [{"int": int, "real": float, "bool": bool, "str": str}[dt](x) for x in v[:n]]
        return lambda i: v[int(i)]

    def dataframe(self, row):
        """A pandas frame whose k-th row is row(k); k is the suffix of names."""
        import pandas as pd
        n = int(self._val("frame.rows", lambda: self.rng.choice([1, 2, 2, 3, 5])))
        return pd.DataFrame([row(k or "") for k in range(max(n, 1))])

    def rows_of(self, a):
        """The rows of a two-dimensional array of texts."""
        return list(a)

    def column(self, col):
        """The values of a column, row by row as in cells()."""
        return list(col)

    def cells(self, df):
        """Its rows (symbolically: an arbitrary one)."""
        return [df.iloc[k] for k in range(len(df))]

    def rows(self, name, n, dt="int", lo=None, hi=None, nmin=0, nmax=None, lens=None, gen=None, ngen=None):
        n = int(n)
        if lens is None:
            lens = self.col(name + ".len", n, lo=nmin, hi=nmax, gen=ngen or (
                lambda r: min(max(nmin, r.choice([0, 1, 1, 2, 3])), nmax if nmax is not None else 9)))
        r = self.rng

        def one():
            if gen is not None:
                return gen(r)
            if dt == "bool":
                return r.random() < 0.5
            a, b = (lo if lo is not None else -5), (hi if hi is not None else 20)
            return r.randint(a, b) if dt == "int" else r.uniform(a, b)

        def rnd():
            return [[one() for _ in range(lens(i))] for i in range(n)]
        v = self._val(name, rnd)
        v = [list(x) for x in v]
        while len(v) < n:
            v.append([])
        for i in range(n):
            while len(v[i]) < lens(i):
                v[i].append(one())
            v[i] = v[i][:lens(i)]
        cast = {"int": int, "real": float, "bool": bool}[dt]
        v = [[cast(x) for x in row] for row in v]
        return NS({"len": lens, "at": lambda i, j: v[int(i)][int(j)], "row": lambda i: list(v[int(i)])})

    def obj(self, cls, **fields):
        if issubclass(cls, BaseModel):
            return cls.model_construct(**fields)
        o = cls.__new__(cls)
        for k, v in fields.items():
            object.__setattr__(o, k, v)
        return o

    def host(self, f):
        return self.call(f)

    def model(self, cls, **fields):
        try:
            return cls(**fields)
        except (ValueError, NotImplementedError, TypeError, KeyError):
            raise Reject from None

    def new(self, cls, /, *a, **kw):
        return self.call(cls, *a, **kw)

    def call(self, fn, /, *a, **kw):
        try:
            r = fn(*a, **kw)
            if type(r).__name__ == "generator":
                r = list(r)
            return r
        except (Reject, Skip, Violated):
            raise
        except Exception as e:  # noqa: BLE001
            raise Violated(f"no exception from {_nm(fn)}", f"{type(e).__name__}: {e}") from None

    def attempt(self, fn, /, *a, **kw):
        try:
            r = fn(*a, **kw)
            if type(r).__name__ == "generator":
                r = list(r)
            return Outcome(r)
        except (Reject, Skip, Violated):
            raise
        except Exception as e:  # noqa: BLE001
            return Outcome(exc=e)

    def m(self, o, name, /, *a, **kw):
        if not hasattr(o, name):
            raise Skip(name)
        return self.call(getattr(o, name), *a, **kw)

    def attempt_m(self, o, name, /, *a, **kw):
        if not hasattr(o, name):
            raise Skip(name)
        return self.attempt(getattr(o, name), *a, **kw)

    def get(self, o, name):
        return getattr(o, name)

    def set(self, o, name, v):
        object.__setattr__(o, name, v)

    def assume(self, cond):
        if not bool(cond):
            raise Reject

    def branch(self, cond):
        return bool(cond)

    def ensure(self, name, cond):
        self.checked += 1
        if not bool(cond):
            self.failed.append(name)
            raise Violated(name)

    def forall(self, n, f, start=0):
        return all(bool(f(i)) for i in range(int(start), int(n)))

    def each(self, n, f):
        return all(bool(f(i)) for i in range(int(n)))

    def exists(self, n, f):
        return any(bool(f(i)) for i in range(int(n)))

    def sum(self, n, f):
        return math.fsum(float(f(i)) for i in range(int(n)))

    def select(self, n, f):
        idx = [i for i in range(int(n)) if f(i)]
        return NS({"n": len(idx), "at": lambda k: idx[k]})

    def old(self, a):
        return NS({k: self.snap(v) for k, v in a.__dict__.items()})

    def snap(self, v):
        if isinstance(v, np.ndarray):
            return v.copy()
        if isinstance(v, (int, float, str, bool, type(None), BaseModel, type)):
            return v
        try:
            o = copy.copy(v)
            if hasattr(o, "__dict__"):
                for k, x in list(o.__dict__.items()):
                    if isinstance(x, np.ndarray):
                        o.__dict__[k] = x.copy()
                    elif isinstance(x, (list, dict)):
                        o.__dict__[k] = _deep(x)
            return o
        except Exception:  # noqa: BLE001
            return v

    def frame(self, name, a, old, mods):
        for k, v in a.__dict__.items():
            o = getattr(old, k)
            if isinstance(v, np.ndarray):
                self.ensure(f"{name}: {k} not written", np.array_equal(v, o))
            elif hasattr(v, "__dict__") and not isinstance(v, type):
                for fld in set(v.__dict__) | set(o.__dict__):
                    if f"{k}.{fld}" in mods:
                        continue
                    x, y = v.__dict__.get(fld), o.__dict__.get(fld)
                    if x is y:
                        continue
                    try:
                        same = bool(x == y)
                    except Exception:  # noqa: BLE001
                        continue
                    self.ensure(f"{name}: {k}.{fld} unchanged", same)

    def len(self, a):
        return len(a)

    def anymap(self, name, kt, entry, keys=()):
        return {k: entry(k) for k in keys if self.rng.random() < 0.5}

    def mapcopy(self, m):
        return dict(m)

    def has(self, m, k):
        return k in m

    def at(self, a, i):
        try:
            v = a[i]
        except (IndexError, KeyError) as e:
            raise Violated(f"results can be inspected ({type(e).__name__})", str(e)) from None
        return v.item() if isinstance(v, np.generic) else v

    def put(self, a, i, v):
        if 0 <= i < len(a):
            a[i] = v

    def scalar(self, v):
        return v.item() if isinstance(v, np.generic) else v

    def eq(self, a, b):
        try:
            if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
                return bool(np.array_equal(a, b))
            return bool(a == b)
        except Exception:  # noqa: BLE001
            return False

    def isinstance(self, v, t):
        return isinstance(v, t)

    def is_array(self, v):
        return isinstance(v, np.ndarray)

    def lookup(self, path):
        return resolve(path)

    def fs(self, others=False):
        from .h5m import NatFS
        return NatFS(self, others)

    def bytes(self, name):
        r = self.rng
        n = r.choice([0, 1, 2, 3, 17, 64, 1000, 70000])
        return r.choice([r.randbytes(n), bytes(n), b"\r\n\n\x1a\xff" * (n % 50)])

    def elf(self, fs, name, symbol):
        from .binm import NatElf
        return NatElf(self, fs, name, symbol)

    def table(self, path, sep, head=0):
        from .filem import NatTable
        return NatTable(self, path, sep, head)

    def tree(self, h5file):
        from .h5m import Tree
        return Tree(self, h5file)

    def tmp(self):
        if self._tmp is None:
            self._tmp = tempfile.TemporaryDirectory(prefix="pyvc_")
        return Path(self._tmp.name)

    def cleanup(self):
        for f in self.closers:
            try:
                f.close()
            except Exception:  # noqa: BLE001
                pass
        if self._tmp is not None:
            self._tmp.cleanup()


# ------------------------------------------------------------------ execution

def run_symbolic(con, deadline, opts=None):
    """All paths of the contract; returns result dict."""
    from .interp import Interp
    reg = Registry(SPECS)
    info = {"inlined": set(), "used": set(), "trusted": set(), "covered": 0}
    o = {**con.opts, **(opts or {}), "deadline": deadline}

    def run(c):
        ip = Interp(c, reg, con)
        t = SymT(c, ip)
        try:
            con.fn(t)
        except PyExc as e:  # the contract looks at something that is not there
            c.prove(f"results can be inspected ({type(e.exc).__name__})", False, str(e))
        finally:
            info["inlined"] |= ip.inlined
            info["used"] |= ip.used
            info["trusted"] |= ip.trusted
        if info["covered"] < 3 and c.satisfiable():
            info["covered"] += 1

    res = {"status": None, "obls": [], "paths": 0, "reason": ""}
    t0 = time.time()
    try:
        paths, obls = explore(run, o, con.max_paths)
        res["obls"] = obls
        res["paths"] = len(paths)
        st = {x["status"] for x in obls}
        if not obls:
            res["status"], res["reason"] = "vacuous", "no obligation generated"
        elif "refuted" in st:
            res["status"] = "refuted"
        elif "unknown" in st:
            res["status"], res["reason"] = "unknown", "solver gave up on: " + next(x["name"] for x in obls if x["status"] == "unknown")
        elif not info["covered"]:  # settled by an evaluation on the running code
            res["status"], res["reason"], res["reach"] = "proved", "", False
        else:
            res["status"] = "proved"
    except (Unsupported, Budget, Skip) as e:
        res["status"], res["reason"] = "undecided", f"{type(e).__name__}: {e}"
    except RecursionError:
        res["status"], res["reason"] = "undecided", "recursion"
    except (z3.Z3Exception, TypeError, AttributeError, KeyError, IndexError, ValueError, AssertionError) as e:
        res["status"], res["reason"] = "undecided", f"engine: {type(e).__name__}: {e}"
        res["tb"] = traceback.format_exc()
    res["time"] = time.time() - t0
    for k in ("inlined", "used", "trusted"):
        res[k] = sorted(info[k])
    return res


def run_native(con, rng, values=None, perturb=False):
    """-> ('ok'|'reject'|'skip'|'violated', NatT, Violated|None)"""
    t = NatT(rng, values, perturb)
    try:
        con.fn(t)
        return "ok", t, None
    except (Reject, MemoryError):
        return "reject", t, None
    except Skip as e:
        return "skip", t, e
    except Violated as v:
        return "violated", t, v
    except Unsupported as e:
        return "skip", t, e
    finally:
        t.cleanup()


def search(con, rng, samples, seconds, models=()):
    """Evaluate the contract on the running code: counter-models first, then their neighbourhood, then at random."""
    t0 = time.time()
    stat = {"evaluations": 0, "nontrivial": 0, "rejected": 0, "replayed_clean": 0}
    seen = set()
    sample = None

    def one(values=None, perturb=False):
        nonlocal sample
        r, t, v = run_native(con, rng, values, perturb)
        stat["evaluations"] += 1
        if r == "reject":
            stat["rejected"] += 1
        if r == "ok" and t.checked:
            key = repr(t.drawn)[:2000]
            if key not in seen:
                seen.add(key)
                stat["nontrivial"] += 1
            if sample is None:
                sample = repr(t.drawn)[:400]
        if r == "skip":
            raise Skip(str(v))
        return r, t, v

    try:
        for m in models:
            r, t, v = one(m)
            if r == "violated":
                return ("violated", t.drawn, v, "counter-model replayed", stat, sample)
            if r == "ok" and not t.missing:
                stat["replayed_clean"] += 1
        k = 0
        while models and k < 40 * len(models) and time.time() - t0 < seconds / 2:
            k += 1
            r, t, v = one(rng.choice(list(models)), True)
            if r == "violated":
                return ("violated", t.drawn, v, "near the counter-model", stat, sample)
        k = 0
        while k < samples and time.time() - t0 < seconds:
            k += 1
            r, t, v = one()
            if r == "violated":
                return ("violated", t.drawn, v, "contract search", stat, sample)
    except Skip as e:
        return ("skip", None, e, "", stat, sample)
    return ("ok", None, None, "", stat, sample)
