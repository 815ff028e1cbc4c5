"""Symbolic values, path exploration and obligations."""
from __future__ import annotations

import contextlib
import os
import time
from fractions import Fraction

import z3

REAL = z3.RealSort()
INT = z3.IntSort()
BOOL = z3.BoolSort()


class Unsupported(Exception):
    """Construct outside the engine's subset (never a verdict on the property)."""


class Infeasible(Exception):
    """Current path contradicts its assumptions."""


class Budget(Exception):
    """Path or time budget exhausted."""


class PyExc(Exception):
    """An exception raised by the interpreted program."""

    def __init__(self, exc, where=""):
        super().__init__(f"{type(exc).__name__}: {exc} {where}")
        self.exc = exc


# ---------------------------------------------------------------- values


def z3num(x):
    """Exact z3 numeral of a python number."""
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, Fraction):
        return z3.RealVal(f"{x.numerator}/{x.denominator}")
    raise TypeError(type(x))


class SVal:
    __slots__ = ()

    def __bool__(self):
        raise TypeError("symbolic value used as a concrete bool (use And/Or/Not/Implies/ite)")

    __hash__ = None


def _is_num(x):
    return isinstance(x, (int, float, Fraction, SNum, SBool))


class SNum(SVal):
    """Number: k is 'int' or 'float'; np is the numpy dtype tag or None."""

    __slots__ = ("t", "k", "np")

    def __init__(self, t, k, np=None):
        self.t = t
        self.k = k
        self.np = np

    def __repr__(self):
        return f"<{self.k} {self.t}>"

    def __add__(self, o):
        return arith("+", self, o) if _is_num(o) else NotImplemented

    def __radd__(self, o):
        return arith("+", o, self) if _is_num(o) else NotImplemented

    def __sub__(self, o):
        return arith("-", self, o)

    def __rsub__(self, o):
        return arith("-", o, self)

    def __mul__(self, o):
        return arith("*", self, o) if _is_num(o) else NotImplemented

    def __rmul__(self, o):
        return arith("*", o, self) if _is_num(o) else NotImplemented

    def __truediv__(self, o):
        return arith("/", self, o)

    def __rtruediv__(self, o):
        return arith("/", o, self)

    def __floordiv__(self, o):
        return arith("//", self, o)

    def __rfloordiv__(self, o):
        return arith("//", o, self)

    def __mod__(self, o):
        return arith("%", self, o)

    def __rpow__(self, o):
        if o == 2 and self.k == "int":
            return num_pow2(self)
        raise Unsupported("symbolic exponent")

    def __pow__(self, n):
        r = 1
        for _ in range(n):
            r = arith("*", self, r)
        return r

    def __neg__(self):
        return arith("-", 0, self)

    def __abs__(self):
        return num_abs(self)

    def __lt__(self, o):
        return compare("<", self, o)

    def __le__(self, o):
        return compare("<=", self, o)

    def __gt__(self, o):
        return compare(">", self, o)

    def __ge__(self, o):
        return compare(">=", self, o)

    def __eq__(self, o):
        return compare("==", self, o)

    def __ne__(self, o):
        return compare("!=", self, o)

    __hash__ = None


class SBool(SVal):
    __slots__ = ("t", "np")

    def __init__(self, t, np=None):
        self.t = t
        self.np = np

    def __repr__(self):
        return f"<bool {self.t}>"

    def __eq__(self, o):
        if isinstance(o, (bool, SBool)):
            return mkbool(bterm(self) == bterm(o))
        return compare("==", self, o)

    def __ne__(self, o):
        if isinstance(o, (bool, SBool)):
            return mkbool(bterm(self) != bterm(o))
        return compare("!=", self, o)

    def __add__(self, o):
        return arith("+", self, o)

    __radd__ = __add__

    def __mul__(self, o):
        return arith("*", self, o)

    __rmul__ = __mul__
    __hash__ = None


class SOpt(SVal):
    """A value that is None under a symbolic condition."""

    __slots__ = ("none", "v")

    def __init__(self, none, v):
        self.none, self.v = none, v

    def m_subst(self, f):
        n = f(self.none)
        return None if n is True else f(self.v) if n is False else SOpt(n, f(self.v))


def mkopt(none, v):
    return None if none is True else v if none is False else SOpt(none, v)


class SStr(SVal):
    """Symbolic string (z3 string term)."""

    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __eq__(self, o):
        if isinstance(o, (str, SStr)):
            return mkbool(strterm(self) == strterm(o))
        return False

    def __ne__(self, o):
        r = self == o
        return Not(r)

    def __repr__(self):
        return f"<str {self.t}>"

    __hash__ = None


class Opaque(SVal):
    """A value about which nothing is known (only its python type)."""

    __slots__ = ("typ", "note")

    def __init__(self, typ=object, note=""):
        self.typ = typ
        self.note = note

    def __repr__(self):
        return f"<opaque {self.note or self.typ.__name__}>"


class Fmt:
    """A formatted value within a text (spec as in format(); post: later replacements)."""

    __slots__ = ("v", "spec", "post")

    def __init__(self, v, spec="", post=()):
        self.v, self.spec, self.post = v, spec, post

    def same(self, o, same):
        return isinstance(o, Fmt) and self.spec == o.spec and self.post == o.post and same(self.v, o.v)


class Rep:
    """f(0) + f(1) + ... + f(n-1) within a text; f gives parts."""

    __slots__ = ("n", "f")

    def __init__(self, n, f):
        self.n, self.f = n, f


class HoleP:
    """The unknown text in front of what a loop appends."""


class Cat(Opaque):
    """Text as a sequence of parts: literals, symbolic texts, formatted values, repetitions."""

    __slots__ = ("ps",)

    def __init__(self, ps):
        super().__init__(str, "text")
        self.ps = tuple(ps)

    def __repr__(self):
        return f"<text of {len(self.ps)} parts>"

    def m_subst(self, f):
        return Cat(tuple(Fmt(f(p.v), p.spec, p.post) if isinstance(p, Fmt) else Rep(f(p.n), lambda i, p=p: f(Cat(p.f(i))).ps)
                         if isinstance(p, Rep) else p if isinstance(p, (str, HoleP)) else f(p) for p in self.ps))


class SObj:
    """Instance of a real class with (possibly symbolic) fields."""

    def __init__(self, cls, fields=None, frozen=False):
        self.cls = cls
        self.f = dict(fields or {})
        self.frozen = frozen

    def __repr__(self):
        return f"<{self.cls.__name__} {self.f}>"

    # attribute sugar for contracts
    def __getattr__(self, name):
        if name in ("cls", "f", "frozen") or name.startswith("__"):
            raise AttributeError(name)
        f = self.__dict__.get("f", {})
        if name in f:
            return f[name]
        cls = self.__dict__["cls"]
        if hasattr(cls, name):
            v = getattr(cls, name)
            if not callable(v) and not isinstance(v, property):
                return lift(v)
        raise AttributeError(name)

    def __getitem__(self, name):
        return self.f[name]


def strterm(x):
    return z3.StringVal(x) if isinstance(x, str) else x.t


def bterm(x):
    """z3 Bool of a bool-like."""
    if isinstance(x, SBool):
        return x.t
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if z3.is_expr(x):
        return x
    raise TypeError(f"not a bool: {x!r}")


def mkbool(t, np=None):
    if isinstance(t, bool):
        return t
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SBool(t, np)


def mknum(t, k, np=None):
    """Wrap; collapse numerals to python numbers (keeps dtype tagged values symbolic-typed)."""
    if np is None:
        if z3.is_int_value(t):
            v = t.as_long()
            return v if k == "int" else Fraction(v)
        if z3.is_rational_value(t):
            return Fraction(t.numerator_as_long(), t.denominator_as_long())
    if k == "float" and t.sort() == INT:
        t = z3.ToReal(t)
    return SNum(t, k, np)


def kind(x):
    if isinstance(x, (bool, SBool, int)):
        return "int"
    if isinstance(x, (Fraction, float)):
        return "float"
    if isinstance(x, SNum):
        return x.k
    raise TypeError(f"not a number: {x!r}")


def nptag(x):
    return getattr(x, "np", None) if isinstance(x, (SNum, SBool)) else None


def nterm(x):
    """z3 term (Int or Real sort) of a number-like."""
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, float):
        x = frac(x)
    if isinstance(x, (int, Fraction)):
        return z3num(x)
    if isinstance(x, SNum):
        return x.t
    if isinstance(x, SBool):
        return z3.If(x.t, z3.IntVal(1), z3.IntVal(0))
    raise TypeError(f"not a number: {x!r}")


def rterm(x):
    t = nterm(x)
    if t.sort() == INT:
        if z3.is_int_value(t):
            return z3.RealVal(t.as_long())
        return z3.ToReal(t)
    return t


def iterm(x):
    t = nterm(x)
    if t.sort() != INT:
        raise TypeError("int expected")
    return t


def frac(x: float) -> Fraction:
    """Floats enter as the decimal their shortest repr denotes (floats are reals here)."""
    if x != x or x in (float("inf"), float("-inf")):
        raise Unsupported("inf/nan")
    return Fraction(repr(float(x)))


def lift(v):
    """Bring a native value into the engine (floats -> exact rationals), recursively for builtin containers."""
    if isinstance(v, bool) or v is None:
        return v
    if isinstance(v, float):
        try:
            return frac(v)
        except Unsupported:
            return v
    if type(v) is list:
        return [lift(x) for x in v]
    if type(v) is tuple:
        return tuple(lift(x) for x in v)
    if type(v) is dict:
        return {k: lift(x) for k, x in v.items()}
    return v


def lower(v):
    """Engine -> native; raises Unsupported when symbolic."""
    if isinstance(v, Fraction):
        return float(v)
    if isinstance(v, SVal) or isinstance(v, SObj):
        raise Unsupported(f"symbolic value in native call: {v!r}")
    if type(v) is list:
        return [lower(x) for x in v]
    if type(v) is tuple:
        return tuple(lower(x) for x in v)
    if type(v) is dict:
        return {k: lower(x) for k, x in v.items()}
    return v


def is_concrete(v):
    if isinstance(v, (SVal, SObj)):
        return False
    if type(v) in (list, tuple, set):
        return all(is_concrete(x) for x in v)
    if type(v) is dict:
        return all(is_concrete(x) for x in v.values())
    if hasattr(v, "m_type"):
        return False
    return True


# ------------------------------------------------------- polynomial helper


def _poly(e, depth=0):
    """Expr -> {monomial: Fraction}; monomial = sorted tuple of (atom id); atoms registered in _ATOMS."""
    if z3.is_int_value(e):
        return {(): Fraction(e.as_long())}
    if z3.is_rational_value(e):
        return {(): Fraction(e.numerator_as_long(), e.denominator_as_long())}
    k = e.decl().kind() if z3.is_app(e) else None
    if k == z3.Z3_OP_ADD:
        out = {}
        for c in e.children():
            for m, v in _poly(c, depth + 1).items():
                out[m] = out.get(m, 0) + v
        return {m: v for m, v in out.items() if v}
    if k == z3.Z3_OP_SUB:
        ch = e.children()
        out = dict(_poly(ch[0], depth + 1))
        for c in ch[1:]:
            for m, v in _poly(c, depth + 1).items():
                out[m] = out.get(m, 0) - v
        return {m: v for m, v in out.items() if v}
    if k == z3.Z3_OP_UMINUS:
        return {m: -v for m, v in _poly(e.arg(0), depth + 1).items()}
    if k == z3.Z3_OP_MUL:
        out = {(): Fraction(1)}
        for c in e.children():
            p = _poly(c, depth + 1)
            new = {}
            for m1, v1 in out.items():
                for m2, v2 in p.items():
                    m = tuple(sorted(m1 + m2))
                    new[m] = new.get(m, 0) + v1 * v2
            out = {m: v for m, v in new.items() if v}
            if len(out) > 64:
                raise OverflowError
        return out
    if k == z3.Z3_OP_DIV:
        d = _poly(e.arg(1), depth + 1)
        if list(d) == [()]:
            return {m: v / d[()] for m, v in _poly(e.arg(0), depth + 1).items()}
    if k == z3.Z3_OP_TO_REAL:
        return _poly(e.arg(0), depth + 1)
    _ATOMS[e.get_id()] = e
    return {(e.get_id(),): Fraction(1)}


_ATOMS: dict = {}


def _unpoly(p):
    terms = []
    for m, v in sorted(p.items()):
        fs = []
        if v != 1 or not m:
            fs.append(z3num(Fraction(v)))
        for a in m:
            x = _ATOMS[a]
            fs.append(z3.ToReal(x) if x.sort() == INT else x)
        t = fs[0]
        for f in fs[1:]:
            t = t * f
        terms.append(t)
    if not terms:
        return z3.RealVal(0)
    return terms[0] if len(terms) == 1 else z3.Sum(terms)


def poly_div(a, b):
    """a / b with b != 0; cancels when b is a monomial dividing every monomial of a (or a == c*b)."""
    try:
        pa, pb = _poly(a), _poly(b)
    except OverflowError:
        return a / b
    if len(pa) > 40 or len(pb) > 10:
        return a / b
    if not pa:
        return z3.RealVal(0)
    if len(pb) == 1:
        (mb, vb), = pb.items()
        out = {}
        for m, v in pa.items():
            rest = list(m)
            for x in mb:
                if x in rest:
                    rest.remove(x)
                else:
                    return a / b
            out[tuple(rest)] = v / vb
        return _unpoly(out)
    if set(pa) == set(pb):
        r = {pa[m] / pb[m] for m in pa}
        if len(r) == 1:
            return z3num(r.pop())
    return a / b


def poly_norm(a):
    try:
        p = _poly(a)
    except OverflowError:
        return a
    if len(p) > 40:
        return a
    return _unpoly(p)


# ------------------------------------------------------------ arithmetic

ROUND = z3.Function("py_round", REAL, INT)
SQRT = z3.Function("sqrt", REAL, REAL)
LOG2 = z3.Function("log2", REAL, REAL)


def _np_join(a, b):
    return a if a is not None else b


_UBITS = {"u1": 8, "u2": 16, "u4": 32, "u8": 64}


def np_wrap(t, np):
    """Unsigned machine integers of numpy wrap; keep the plain term when it provably fits."""
    bits = _UBITS.get(np)
    if bits is None or t.sort() != INT:
        return t
    lim = z3.IntVal(2**bits)
    c = ctx()
    if c is not None and c.quick_valid(z3.And(t >= 0, t < lim)):
        return t
    return t % lim


def arith(op, a, b):
    """Total arithmetic (no exceptions): used by contracts and, after the guards, by the interpreter."""
    if isinstance(a, float):
        a = frac(a)
    if isinstance(b, float):
        b = frac(b)
    ca, cb = isinstance(a, (int, Fraction)), isinstance(b, (int, Fraction))
    fl = kind(a) == "float" or kind(b) == "float"
    np = _np_join(nptag(a), nptag(b))
    if ca and cb:
        if op == "+":
            r = a + b
        elif op == "-":
            r = a - b
        elif op == "*":
            r = a * b
        elif op == "/":
            return Fraction(a) / Fraction(b)
        elif op == "//":
            r = Fraction(a // b) if fl else a // b
        elif op == "%":
            r = a % b
        else:
            raise Unsupported(op)
        return Fraction(r) if fl else r
    if op in ("+", "-", "*"):
        if fl:
            x, y = rterm(a), rterm(b)
        else:
            x, y = nterm(a), nterm(b)
        if op == "+":
            if isinstance(a, (int, Fraction)) and a == 0:
                t = y
            elif isinstance(b, (int, Fraction)) and b == 0:
                t = x
            else:
                t = x + y
        elif op == "-":
            t = x if isinstance(b, (int, Fraction)) and b == 0 else x - y
        else:
            if (ca and a == 0) or (cb and b == 0):
                t = z3.RealVal(0) if fl else z3.IntVal(0)
            elif ca and a == 1:
                t = y
            elif cb and b == 1:
                t = x
            else:
                t = x * y
        if not fl and np:
            t = np_wrap(t, np)
        return mknum(z3.simplify(t) if _small(t) else t, "float" if fl else "int", _np_kind(np, fl))
    if op == "/":
        x, y = rterm(a), rterm(b)
        if cb and b == 1:
            return mknum(x, "float", _np_kind(np, True))
        if not cb and z3.simplify(x).eq(z3.simplify(y)) and ctx() is not None and ctx().quick_valid(mkbool(y != 0)):
            return mknum(z3.RealVal(1), "float", _np_kind(np, True))
        if cb:
            t = x * z3num(Fraction(1) / Fraction(b)) if b != 0 else x / y
        else:
            t = poly_div(x, y)
        return mknum(t, "float", _np_kind(np, True))
    if op == "//":
        if fl:
            q = floor_term(rterm(arith("/", a, b)))
            return mknum(z3.ToReal(q), "float", _np_kind(np, True))
        return mknum(_idiv(nterm(a), nterm(b), cb), "int", np)
    if op == "%":
        if fl:
            return arith("-", a, arith("*", b, arith("//", a, b)))
        x, y = nterm(a), nterm(b)
        if cb and b > 0:
            return mknum(x % y, "int", np)
        return mknum(x - y * _idiv(x, y, False), "int", np)
    raise Unsupported(f"arith {op}")


WEAK = ("fmt!", "sosfilt")

IDIV = z3.Function("floordiv", INT, INT, INT)


def _idiv(x, y, const):
    if const:
        return x / y  # z3 Int division: floor for positive divisors
    q = IDIV(x, y)
    c = ctx()
    if c is not None:
        c.axiom(("idiv", q.get_id()), z3.Implies(y > 0, z3.And(q * y <= x, x < q * y + y)))
        c.axiom(("idivn", q.get_id()), z3.Implies(y < 0, z3.And(q * y >= x, x > q * y + y)))
        c.axiom(("idivs", q.get_id()), z3.Implies(z3.And(y > 0, x >= 0), q >= 0))
    return q


def _np_kind(np, fl):
    if np is None:
        return None
    if fl:
        return np if np in ("f4", "f8") else "f8"
    return np


def _small(t, lim=60):
    n = 0
    st = [t]
    while st:
        e = st.pop()
        n += 1
        if n > lim:
            return False
        st.extend(e.children())
    return True


def floor_term(t):
    """floor of a real term as Int; pushes constants."""
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_TO_REAL:
        return t.arg(0)
    if z3.is_rational_value(t):
        f = Fraction(t.numerator_as_long(), t.denominator_as_long())
        return z3.IntVal(f.numerator // f.denominator)
    return z3.ToInt(t)


def num_floor(a):
    if isinstance(a, float):
        a = frac(a)
    if isinstance(a, (int, Fraction)):
        return int(a // 1)
    if kind(a) == "int":
        return a
    return mknum(floor_term(a.t), "int")


def num_ceil(a):
    if isinstance(a, float):
        a = frac(a)
    if isinstance(a, (int, Fraction)):
        return int(-((-a) // 1))
    if kind(a) == "int":
        return a
    return mknum(-floor_term(z3.simplify(-a.t)), "int")


def num_trunc(a):
    """int(x)."""
    if isinstance(a, float):
        a = frac(a)
    if isinstance(a, (bool, int)):
        return int(a)
    if isinstance(a, Fraction):
        return int(a)
    if isinstance(a, SBool):
        return SNum(nterm(a), "int")
    if a.k == "int":
        return SNum(a.t, "int")
    t = a.t
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_TO_REAL:
        return mknum(t.arg(0), "int")
    c = ctx()
    if c is not None and c.quick_valid(t >= 0):
        return mknum(floor_term(t), "int")
    return mknum(z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t)), "int")


def num_round(a):
    """round(x): nearest integer, ties to even."""
    if isinstance(a, float):
        a = frac(a)
    if isinstance(a, (bool, int)):
        return int(a)
    if isinstance(a, Fraction):
        return round(a)
    if isinstance(a, SBool):
        return SNum(nterm(a), "int")
    if a.k == "int":
        return SNum(a.t, "int", a.np)
    t = a.t
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_TO_REAL:
        return mknum(t.arg(0), "int")
    t = poly_norm(t)
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_TO_REAL:
        return mknum(t.arg(0), "int")
    n = ROUND(t)
    round_axioms(n, t)
    return SNum(n, "int")


def round_axioms(n, t):
    c = ctx()
    if c is not None:
        h = z3.RealVal("1/2")
        r = z3.ToReal(n)
        c.axiom(("round", n.get_id()), z3.And(r - t <= h, t - r <= h))
        c.axiom(
            ("roundeven", n.get_id()),
            z3.Implies(z3.Or(r - t == h, t - r == h), n % 2 == 0),
        )


def num_pow2(b):
    """2**b for a bounded symbolic int b (case table)."""
    if isinstance(b, int):
        return 2**b if b >= 0 else Fraction(1, 2**-b)
    lim = 64
    c = ctx()
    if not c.quick_valid(z3.And(b.t >= 0, b.t <= lim)):
        raise Unsupported("2**n with unbounded n")
    # smallest feasible range, by bisection
    lo, hi = 0, lim
    a, z = 0, lim
    while a < z:
        m = (a + z + 1) // 2
        if c.quick_valid(b.t >= m):
            a = m
        else:
            z = m - 1
    lo = a
    a, z = lo, lim
    while a < z:
        m = (a + z) // 2
        if c.quick_valid(b.t <= m):
            z = m
        else:
            a = m + 1
    hi = a
    t = z3.IntVal(2**hi)
    for i in range(hi - 1, lo - 1, -1):
        t = z3.If(b.t == i, z3.IntVal(2**i), t)
    return mknum(t, "int")


def num_abs(a):
    if isinstance(a, (int, float, Fraction)):
        return abs(a)
    t = nterm(a)
    return mknum(z3.If(t >= 0, t, -t), kind(a), nptag(a))


def num_sqrt(a):
    if isinstance(a, float):
        a = frac(a)
    if isinstance(a, (int, Fraction)):
        f = Fraction(a)
        import math
        n, d = math.isqrt(f.numerator), math.isqrt(f.denominator)
        if n * n == f.numerator and d * d == f.denominator:
            return Fraction(n, d)
    t = poly_norm(rterm(a))
    r = SQRT(t)
    c = ctx()
    if c is not None:
        c.axiom(("sqrt", r.get_id()), z3.Implies(t >= 0, z3.And(r >= 0, r * r == t)))
    return SNum(r, "float")


def num_log2(a):
    t = rterm(a)
    r = LOG2(t)
    c = ctx()
    if c is not None:
        ax = []
        for e in range(0, 41):
            ax.append((t >= 2**e) == (r >= e))
        c.axiom(("log2", r.get_id()), z3.Implies(t > 0, z3.And(*ax)))
    return SNum(r, "float")


def compare(op, a, b):
    if isinstance(a, float):
        a = frac(a)
    if isinstance(b, float):
        b = frac(b)
    if isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)):
        return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "==": a == b, "!=": a != b}[op]
    if not (_is_num(a) and _is_num(b)):
        if op == "==":
            return False
        if op == "!=":
            return True
        raise Unsupported(f"compare {a!r} {op} {b!r}")
    if kind(a) == "float" or kind(b) == "float":
        x, y = rterm(a), rterm(b)
    else:
        x, y = nterm(a), nterm(b)
    if op == "==":
        t = x == y
    elif op == "!=":
        t = x != y
    elif op == "<":
        t = x < y
    elif op == "<=":
        t = x <= y
    elif op == ">":
        t = x > y
    else:
        t = x >= y
    if x.eq(y):
        return op in ("==", "<=", ">=")
    np = _np_join(nptag(a), nptag(b))
    return mkbool(t, np)


# ------------------------------------------------- polymorphic contract DSL


def _sym(*xs):
    return any(isinstance(x, SVal) or z3.is_expr(x) for x in xs)


def And(*xs):
    if len(xs) == 1 and isinstance(xs[0], (list, tuple)):
        xs = xs[0]
    out = []
    for x in xs:
        if isinstance(x, SBool):
            out.append(x.t)
        elif z3.is_expr(x):
            out.append(x)
        elif not bool(x):
            return False
    return mkbool(z3.And(*out)) if out else True


def Or(*xs):
    if len(xs) == 1 and isinstance(xs[0], (list, tuple)):
        xs = xs[0]
    out = []
    for x in xs:
        if isinstance(x, SBool):
            out.append(x.t)
        elif z3.is_expr(x):
            out.append(x)
        elif bool(x):
            return True
    return mkbool(z3.Or(*out)) if out else False


def Not(x):
    if isinstance(x, SBool):
        return mkbool(z3.Not(x.t))
    if z3.is_expr(x):
        return mkbool(z3.Not(x))
    return not x


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    if _sym(a, b):
        return mkbool(bterm(a if _sym(a) else bool(a)) == bterm(b if _sym(b) else bool(b)))
    return bool(a) == bool(b)


def ite(c, a, b):
    if isinstance(c, SBool):
        if _is_num(a) and _is_num(b) and not (isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool))):
            fl = kind(a) == "float" or kind(b) == "float"
            if fl:
                return mknum(z3.If(c.t, rterm(a), rterm(b)), "float", _np_join(nptag(a), nptag(b)))
            return mknum(z3.If(c.t, nterm(a), nterm(b)), "int", _np_join(nptag(a), nptag(b)))
        if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
            return mkbool(z3.If(c.t, bterm(a), bterm(b)))
        if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
            return SStr(z3.If(c.t, strterm(a), strterm(b)))
        if a is b:
            return a
        raise Unsupported(f"ite over {a!r} / {b!r}")
    return a if c else b


def smax(*xs):
    r = xs[0]
    for x in xs[1:]:
        r = ite(compare(">", x, r), x, r) if _sym(r, x) else (x if x > r else r)
    return r


def smin(*xs):
    r = xs[0]
    for x in xs[1:]:
        r = ite(compare("<", x, r), x, r) if _sym(r, x) else (x if x < r else r)
    return r


TOL = 1e-9


def eq(a, b, scale=None):
    """Equality; concrete floats are compared with relative tolerance (of the given scale)."""
    if _sym(a, b):
        if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)):
            return Iff(a, b)
        return a == b if isinstance(a, SVal) else b == a
    if isinstance(a, (float, Fraction)) or isinstance(b, (float, Fraction)):
        try:
            a, b = float(a), float(b)
        except (TypeError, ValueError):
            return False
        s = max(abs(a), abs(b), abs(float(scale)) if scale is not None else 0.0)
        return abs(a - b) <= TOL * s + 1e-300
    return bool(a == b)


def le(a, b, scale=None):
    if _sym(a, b):
        return compare("<=", a, b)
    a, b = float(a), float(b)
    s = max(abs(a), abs(b), abs(float(scale)) if scale is not None else 0.0)
    return a <= b + TOL * s + 1e-300


def ge(a, b, scale=None):
    return le(b, a, scale)


def between(lo, x, hi):
    return And(le(lo, x), le(x, hi))


def is_round(n, x):
    """n is an integer nearest to x (ties: to even where exact)."""
    if _sym(n, x):
        r = num_round(x)
        return compare("==", n, r)
    return float(n) == round(float(n)) and abs(float(n) - float(x)) <= 0.5 + TOL * max(1.0, abs(float(x)))


def is_trunc(n, x):
    if _sym(n, x):
        return compare("==", n, num_trunc(x))
    x = float(x)
    eps = TOL * max(1.0, abs(x))
    return any(int(n) == int(v) for v in (x, x - eps, x + eps))


def is_floor(n, x):
    if _sym(n, x):
        return compare("==", n, num_floor(x))
    import math
    x = float(x)
    eps = TOL * max(1.0, abs(x))
    return any(int(n) == math.floor(v) for v in (x, x - eps, x + eps))


# ------------------------------------------------------------------ context

_SYMS: dict = {}
_SLICES: dict = {}


def symbols(t):
    """Names of the uninterpreted constants of a term (cached per term)."""
    hit = _SYMS.get(t.get_id())
    if hit is not None:
        return hit[0]
    out, seen, todo = set(), set(), [t]
    while todo:
        x = todo.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            todo.append(x.body())
            continue
        if z3.is_app(x):
            d = x.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() == 0:
                out.add(d.name())
            todo.extend(x.children())
    _SYMS[t.get_id()] = (frozenset(out), t)
    return _SYMS[t.get_id()][0]


_STACK: list = []


def ctx():
    return _STACK[-1] if _STACK else None


class MergeAbort(Exception):
    """Speculative evaluation of both sides of a condition is not possible."""


class Decisions:
    def __init__(self, prefix):
        self.prefix = list(prefix)
        self.trace = []
        self.pending = []

    @property
    def replaying(self):
        return len(self.trace) < len(self.prefix)


_HASQ: dict = {}


def has_quant(t):
    k = t.get_id()
    if k not in _HASQ:
        st, seen, q = [t], set(), False
        while st:
            e = st.pop()
            if e.get_id() in seen:
                continue
            seen.add(e.get_id())
            if z3.is_quantifier(e):
                q = True
                break
            st.extend(e.children())
        _HASQ[k] = (q, t)  # keeps the term alive: identifiers are not reused
    return _HASQ[k][0]


class Ctx:
    """One execution of the function under one decision prefix."""

    def __init__(self, prefix, opts=None):
        self.opts = {"feas_ms": 1500, "prove_ms": 8000, **(opts or {})}
        self.dec = Decisions(prefix)
        self.solver = z3.Solver()
        self.solver.set("timeout", self.opts["feas_ms"])
        self.pc = []
        self.names = {}
        self.axset = set()
        self.axids = set()
        self.spec = 0
        self.obls = []
        self.inputs = {}
        self.deadline = self.opts.get("deadline")
        self.loopvars = []
        self.keep = []
        self.version = 0
        self._vc = 0

    # -- symbols
    def fresh(self, name, sort):
        n = self.names.get(name, 0)
        self.names[name] = n + 1
        nm = name if n == 0 else f"{name}!{n}"
        if self.loopvars:  # inside an arbitrary loop iteration: skolem function of the loop indices
            return z3.Function(nm, *([INT] * len(self.loopvars)), sort)(*self.loopvars)
        return z3.Const(nm, sort)

    def tick(self):
        self._vc += 1
        self.version = self._vc

    def add_pc(self, t):
        self.solver.add(t)
        self.pc.append(t)
        self.tick()

    def fresh_int(self, name="i"):
        return SNum(self.fresh(name, INT), "int")

    def fresh_real(self, name="x"):
        return SNum(self.fresh(name, REAL), "float")

    def fresh_bool(self, name="b"):
        return SBool(self.fresh(name, BOOL))

    # -- assumptions
    def axiom(self, key, t):
        if key in self.axset:
            return
        self.axset.add(key)
        self.keep.append(t)
        self.axids.add(t.get_id())
        self.add_pc(t)

    @contextlib.contextmanager
    def under(self, cond, spec=False):
        """Evaluate under a temporary hypothesis; what was learned inside is kept conditionally (axioms: as they are)."""
        cond = bterm(cond)
        self.solver.push()
        n0 = len(self.pc)
        self.add_pc(cond)
        self.spec += bool(spec)
        try:
            yield
        finally:
            self.spec -= bool(spec)
            new = self.pc[n0 + 1:]
            del self.pc[n0:]
            self.solver.pop()
            self.tick()
            for x in new:
                self.add_pc(x if x.get_id() in self.axids else z3.Implies(cond, x))

    def assume(self, b):
        if isinstance(b, bool):
            if not b:
                raise Infeasible
            return
        self.add_pc(bterm(b))

    def check(self, *ts, ms=None, branch=False):
        if self.deadline and time.time() > self.deadline:
            raise Budget("time")
        if branch or len(self.pc) > 40:
            r = self.check_slice(ts, ms or self.opts["feas_ms"])
            if r == z3.unsat or (branch and r is not None):
                return r
        self.solver.set("timeout", ms or self.opts["feas_ms"])
        try:
            r = self.solver.check(*ts)
        except z3.Z3Exception:
            r = z3.unknown
        if r == z3.unknown:
            qf = [t for t in self.pc if not has_quant(t)]
            if len(qf) < len(self.pc):  # the quantified facts may be what is in the way
                s = z3.Solver()
                s.set("timeout", ms or self.opts["feas_ms"])
                s.add(*qf)
                s.add(*ts)
                try:
                    if s.check() == z3.unsat:
                        return z3.unsat
                except z3.Z3Exception:
                    pass
        return r

    def check_slice(self, ts, ms, radius=None):
        """Satisfiability with those facts only that are (transitively) connected to ts by a common symbol.
        unsat carries over to all facts; None: the slice is not much smaller than the whole."""
        if not ts:
            return None
        want = set().union(*(symbols(t) for t in ts))
        rest = [(t, symbols(t)) for t in self.pc]
        take = [t for t, y in rest if not y]
        rest = [x for x in rest if x[1]]
        n = 0
        while radius is None or n < radius:
            n += 1
            hit = [x for x in rest if not want.isdisjoint(x[1])]
            if not hit:
                break
            take += [t for t, _ in hit]
            rest = [x for x in rest if want.isdisjoint(x[1])]
            if len(take) > 0.7 * len(self.pc) and radius is None:
                return None
            want = want.union(*(y for _, y in hit))
        # the same question comes up on many paths; _SYMS keeps all the terms alive, so identifiers are not reused
        key = (frozenset(t.get_id() for t in take), frozenset(t.get_id() for t in ts))
        if key in _SLICES:
            return _SLICES[key]
        if _SLICES.get((key, ms)):
            return z3.unknown
        s = z3.Solver()
        s.set("timeout", ms)
        s.add(*take)
        s.add(*ts)
        try:
            r = s.check()
        except z3.Z3Exception:
            return z3.unknown
        _SLICES[key if r != z3.unknown else (key, ms)] = r
        return r

    def satisfiable(self, ms=2000):
        """Every connected component of the path condition has a model."""
        if len(self.pc) <= 40:
            return self.check(ms=ms) == z3.sat
        rest = [(t, symbols(t)) for t in self.pc]
        while rest:
            want, take = set(rest[0][1]), [rest.pop(0)[0]]
            while True:
                hit = [x for x in rest if not want.isdisjoint(x[1])]
                if not hit:
                    break
                take += [t for t, _ in hit]
                want = want.union(*(y for _, y in hit))
                rest = [x for x in rest if want.isdisjoint(x[1])]
            s = z3.Solver()
            s.set("timeout", ms)
            s.add(*take)
            if s.check() != z3.sat:
                return False
        return True

    def quick_valid(self, t):
        """Cheap, sound test (False means: not shown)."""
        t = bterm(t)
        s = z3.simplify(t)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        key = (t.get_id(), self.version)
        hit = self.__dict__.setdefault("_qv", {})
        if key in hit:
            return hit[key][0]
        r = self.check(z3.Not(t), ms=400) == z3.unsat
        hit[key] = (r, t)
        return r

    def pinned(self, v):
        """The value of an integer term where the facts leave only one, else None."""
        t = z3.simplify(nterm(v))
        if z3.is_int_value(t):
            return t.as_long()
        self.solver.set("timeout", 400)
        try:
            if self.solver.check() != z3.sat:
                return None
            k = self.solver.model().eval(t, model_completion=True)
        except z3.Z3Exception:
            return None
        if not z3.is_int_value(k):
            return None
        return k.as_long() if self.quick_valid(mkbool(t == k)) else None

    # -- decisions
    def branch(self, b) -> bool:
        if isinstance(b, bool):
            return b
        t = z3.simplify(bterm(b))
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        t0 = bterm(b)
        d = self.dec
        if self.spec:
            if self.check(t0, branch=True) == z3.unsat:
                return False
            if self.check(z3.Not(t0), branch=True) == z3.unsat:
                return True
            raise MergeAbort
        neg = z3.Not(t0)
        for x in self.pc:  # already decided on this path
            if x.eq(t0) or x.eq(t):
                return True
            if x.eq(neg):
                return False
        if d.replaying:
            c = d.prefix[len(d.trace)]
            d.trace.append(c)
            self.assume(mkbool(t0 if c else z3.Not(t0)))
            return c
        if self.check(z3.Not(t0), branch=True) != z3.unsat:
            if self.check(t0, branch=True) == z3.unsat:
                d.trace.append(False)
                self.add_pc(z3.Not(t0))
                return False
            d.pending.append([*d.trace, False])
        d.trace.append(True)
        self.add_pc(t0)
        return True

    def choose(self, n: int) -> int:
        """Demonic n-ary choice (case split)."""
        if n == 1:
            return 0
        if self.spec:
            raise MergeAbort
        d = self.dec
        if d.replaying:
            c = d.prefix[len(d.trace)]
            d.trace.append(c)
            return c
        for i in range(1, n):
            d.pending.append([*d.trace, i])
        d.trace.append(0)
        return 0

    # -- obligations
    def prove(self, name, goal, detail=""):
        """Discharge pc => goal now; afterwards assume it."""
        if self.spec:
            raise MergeAbort
        if self.dec.replaying:
            self.assume_soft(goal)
            return
        t0 = time.time()
        rec = {"name": name, "path": list(self.dec.trace), "status": None, "backend": "z3", "detail": detail}
        if isinstance(goal, bool):
            if goal:
                rec["status"] = "discharged"
                rec["backend"] = "evaluation"
            else:
                r = self.check(ms=self.opts["prove_ms"])
                rec["status"] = "discharged" if r == z3.unsat else "refuted"
                if r == z3.sat:
                    rec["model"] = self.capture(self.solver.model())
        else:
            g = z3.simplify(bterm(goal))
            if z3.is_true(g):
                rec["status"] = "discharged"
                rec["backend"] = "z3-simplify"
            else:
                self._prove(bterm(goal), rec)
        rec["time"] = time.time() - t0
        self.obls.append(rec)
        self.assume_soft(goal)

    def assume_soft(self, goal):
        if isinstance(goal, bool):
            return
        self.add_pc(bterm(goal))

    def _prove(self, g, rec):
        neg = z3.Not(g)
        r = self.check(neg, ms=self.opts["prove_ms"])
        if r == z3.unsat:
            rec["status"] = "discharged"
            return
        if r == z3.sat:
            rec["status"] = "refuted"
            rec["model"] = self.capture(self.solver.model())
            rec["goal"] = g.sexpr()[:2000]
            rec["weak"] = self.weak(g)
            self.nice_models(neg, rec)
            return
        for radius in (1, 2, 3) if len(self.pc) > 20 else ():
            if self.check_slice((neg,), self.opts["prove_ms"] // 2, radius) == z3.unsat:
                rec["status"] = "discharged"
                rec["backend"] = "z3/slice"
                return
        # second attempt: fresh solver, other tactic
        for mk, nm in ((lambda: z3.Solver(), "z3/fresh"), (lambda: z3.Tactic("qfnra-nlsat").solver(), "z3/nlsat")):
            s = mk()
            s.set("timeout", self.opts["prove_ms"])
            s.add(*self.pc)
            s.add(neg)
            try:
                r = s.check()
            except z3.Z3Exception:
                continue
            if r == z3.unsat:
                rec["status"] = "discharged"
                rec["backend"] = nm
                return
            if r == z3.sat:
                rec["status"] = "refuted"
                rec["backend"] = nm
                rec["model"] = self.capture(s.model())
                rec["goal"] = g.sexpr()[:2000]
                rec["weak"] = self.weak(g)
                return
        r = cvc5_check([*self.pc, neg], self.opts["prove_ms"])
        rec["backend"] = "cvc5"
        if r == "unsat":
            rec["status"] = "discharged"
            return
        rec["status"] = "unknown"
        rec["goal"] = g.sexpr()[:2000]

    def weak(self, g):
        """The counter-model rests on an external function the theory only knows by name: it refutes nothing by itself."""
        seen, st = set(), [g, *self.pc]
        while st:
            e = st.pop()
            if e.get_id() in seen:
                continue
            seen.add(e.get_id())
            if z3.is_quantifier(e):
                st.append(e.body())
                continue
            if z3.is_app(e) and e.num_args() and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.decl().name().startswith(WEAK):
                return True
            st.extend(e.children())
        return False

    def nice_models(self, neg, rec):
        """Further, differently biased counter-models for the replay."""
        out = []
        t0 = time.time()
        s = z3.Solver()
        s.set("timeout", 1000)
        s.add(*self.pc)
        s.add(neg)
        ins = [(n, m) for n, m in self.inputs.items()]
        soft_sets = []
        half = [z3.And(m["t"] >= 1, m["t"] <= 1000) for _, m in ins if m["sort"] in ("int", "real")]
        soft_sets.append(half)
        scal = [m["t"] for _, m in ins if m["sort"] == "real"]
        soft_sets.append([t == z3.ToReal(z3.Int(f"nice!{i}")) for i, t in enumerate(scal)])
        soft_sets.append([z3.Or(t <= -1, t >= 1) for t in scal])
        for soft in soft_sets:
            if not soft:
                continue
            s.push()
            n = 0
            for x in soft[:40]:
                if time.time() - t0 > 5:
                    break
                s.push()
                s.add(x)
                if s.check() == z3.sat:
                    n += 1
                    continue  # keep level
                s.pop()
            if time.time() - t0 < 8 and s.check() == z3.sat:
                out.append(self.capture(s.model()))
            # unwind everything
            s = z3.Solver()
            s.set("timeout", 1000)
            s.add(*self.pc)
            s.add(neg)
        rec["models"] = out

    def capture(self, model):
        """Model -> concrete input assignment (python values), for replay."""
        vals = {}
        for name, m in self.inputs.items():
            try:
                vals[name] = m["read"](model)
            except Exception as e:  # noqa: BLE001
                vals[name] = f"?{e}"
        return vals


def model_num(model, t):
    v = model.eval(t, model_completion=True)
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    raise ValueError(str(v))


def cvc5_check(ts, ms):
    try:
        import cvc5
    except ImportError:
        return "unknown"
    s = z3.Solver()
    s.add(*ts)
    txt = s.to_smt2()
    try:
        slv = cvc5.Solver()
        slv.setOption("tlimit-per", str(ms))
        slv.setLogic("ALL")
        ip = cvc5.InputParser(slv)
        ip.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, "x")
        sm = ip.getSymbolManager()
        res = "unknown"
        while True:
            cmd = ip.nextCommand()
            if cmd.isNull():
                break
            o = cmd.invoke(slv, sm)
            if "unsat" in str(o):
                res = "unsat"
            elif str(o).strip() == "sat":
                res = "sat"
        return res
    except Exception:  # noqa: BLE001
        return "unknown"


def explore(run, opts=None, max_paths=2000):
    """Run `run(ctx)` over all paths. Returns (paths, obligations, problems)."""
    work = [[]]
    paths = []
    obls = []
    while work:
        if len(paths) >= max_paths:
            raise Budget(f"more than {max_paths} paths")
        prefix = work.pop()
        c = Ctx(prefix, opts)
        _STACK.append(c)
        status = "ok"
        try:
            run(c)
        except Infeasible:
            status = "infeasible"
        finally:
            _STACK.pop()
        paths.append({"trace": list(c.dec.trace), "status": status})
        obls.extend(c.obls)
        work.extend(c.dec.pending)
    return paths, obls
