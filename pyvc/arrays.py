"""Sequences of symbolic length: numpy arrays (SArr), python sequences (SeqV), ranges."""
from __future__ import annotations

from fractions import Fraction

import numpy as np
import z3

from .core import *  # noqa: F403
from .core import _is_num, _sym


def ilen(n):
    return n if isinstance(n, int) else SNum(nterm(n), "int")


def strip(v):
    """Drop the numpy tag."""
    if isinstance(v, SNum):
        return mknum(v.t, v.k)
    if isinstance(v, SBool):
        return mkbool(v.t)
    return v


def tag(v, dt):
    """Attach a numpy dtype tag to an element value."""
    if dt == "obj" or not _is_num(v):
        return v
    if dt == "bool":
        if isinstance(v, (bool, SBool)):
            return SBool(bterm(v), "bool")
        return SBool(nterm(v) != 0, "bool")
    if dt.startswith("f"):
        return SNum(rterm(v), "float", dt)
    t = nterm(v)
    return SNum(t, "int", dt)


class SArr(SVal):
    """1-d numpy array of symbolic length; elements by index function. Views write through."""

    __slots__ = ("n", "_get", "dt", "base", "off", "ident", "org")

    def __init__(self, n, get, dt, base=None, off=0, org=None):
        self.n = ilen(n)
        self._get = get
        self.dt = dt
        self.base = base
        self.off = off
        self.org = org  # (h, o): element i is h(o + i); only a hint for sums

    def shifted(self):
        if self.org is not None:
            return self.org
        if self.base is not None:
            h, o = self.base.shifted()
            return h, arith("+", o, self.off)
        return self._get, 0

    def __repr__(self):
        return f"<array[{self.dt}] n={self.n}>"

    def snapshot(self):
        if self.base is not None:
            g = self.base.snapshot()
            off = self.off
            return lambda i: g(arith("+", off, i))
        return self._get

    def get(self, i):
        return tag(strip(self.snapshot()(i)), self.dt)

    def at(self, i):
        return strip(self.snapshot()(i))

    def write(self, start, n, fn):
        """self[start:start+n] = fn(0..n-1)."""
        if self.base is not None:
            self.base.write(arith("+", self.off, start), n, fn)
            return
        self.org = None
        self._get = Written(self._get, start, n, fn)

    def assign_all(self, v):
        g = v.snapshot() if isinstance(v, SArr) else (lambda i: v)
        dt = self.dt
        self.write(0, self.n, lambda i: cast(strip(g(i)), dt))

    def copy(self):
        return SArr(self.n, self.snapshot(), self.dt, org=self.shifted())

    def map(self, f, dt):
        """Elementwise image."""
        g = self.snapshot()
        h, o = self.shifted()
        return SArr(self.n, lambda i: f(strip(g(i))), dt, org=(lambda i: f(strip(h(i))), o))

    m_len = property(lambda self: self.n)


class Written:
    """Element function of an array after one block store."""

    __slots__ = ("old", "start", "n", "fn")

    def __init__(self, old, start, n, fn):
        self.old, self.start, self.n, self.fn = old, start, n, fn

    def __call__(self, i):
        start, n, fn, old = self.start, self.n, self.fn, self.old
        inside = And(compare(">=", i, start), compare("<", i, arith("+", start, n)))
        if inside is True:
            return fn(arith("-", i, start))
        if inside is False:
            return old(i)
        c = ctx()
        if c is not None and c.quick_valid(inside):
            return fn(arith("-", i, start))
        if c is not None and c.quick_valid(Not(inside)):
            return old(i)
        return ite(inside, fn(arith("-", i, start)), old(i))


class Blocks:
    """Element function of an array after `cnt` block stores: store j wrote w(j) <= width elements from c0 + j * width."""

    __slots__ = ("old", "c0", "width", "cnt", "w", "fn")

    def __init__(self, old, c0, width, cnt, w, fn):
        self.old, self.c0, self.width, self.cnt, self.w, self.fn = old, c0, width, cnt, w, fn

    def __call__(self, i):
        d = arith("-", i, self.c0)
        q = arith("//", d, self.width)
        r = arith("-", d, arith("*", q, self.width))
        c = ctx()
        if c is not None and isinstance(q, SNum):
            c.axiom(("blk", q.t.get_id()), bterm(And(
                compare("<=", arith("*", q, self.width), d), compare("<", d, arith("*", arith("+", q, 1), self.width)))))
        inside = And(compare(">=", d, 0), compare("<", q, self.cnt))
        if inside is False:
            return self.old(i)
        inside = And(inside, compare("<", r, self.w(q)))
        if inside is True or (inside is not False and c is not None and c.quick_valid(inside)):
            return self.fn(q, r)
        if inside is False or (c is not None and c.quick_valid(Not(inside))):
            return self.old(i)
        return ite(inside, self.fn(q, r), self.old(i))


def cast(v, dt):
    """Value conversion on store into an array of dtype dt."""
    if not _is_num(v):
        return v
    if dt == "bool":
        return v if isinstance(v, (bool, SBool)) else compare("!=", v, 0)
    if dt.startswith("f"):
        return mknum(rterm(v), "float") if kind(v) == "int" else v
    if kind(v) == "float":
        v = num_trunc(v)
    return mknum(np_wrap(nterm(v), dt), "int")


class SymRange(SVal):
    __slots__ = ("start", "stop", "step")

    def __init__(self, start, stop, step=1):
        self.start, self.stop, self.step = start, stop, step

    def length(self):
        c = ctx()
        d = arith("-", self.stop, self.start)
        if isinstance(self.step, int):
            if self.step == 1:
                n = d
            elif self.step > 0:
                n = arith("//", arith("+", d, self.step - 1), self.step)
            else:
                n = arith("//", arith("+", arith("-", 0, d), -self.step - 1), -self.step)
        else:
            if not c.quick_valid(compare(">", self.step, 0)):
                raise Unsupported("range with symbolic step of unknown sign")
            n = arith("//", arith("-", arith("+", d, self.step), 1), self.step)
        if isinstance(n, int):
            return max(n, 0)
        if c is not None and c.quick_valid(compare(">=", n, 0)):
            return n
        return smax(n, 0)

    def at(self, i):
        return arith("+", self.start, arith("*", i, self.step))


class SeqV(SVal):
    """Python sequence assembled from items and symbolic segments."""

    __slots__ = ("segs", "isset", "card")

    def __init__(self, segs=None):
        self.segs = list(segs or [])
        self.isset = False
        self.card = None

    def append(self, v):
        self.segs.append(("item", v))

    def add_seg(self, n, fn):
        self.segs.append(("seg", ilen(n), fn))

    def extend_seq(self, o):
        self.segs.extend(o.segs)

    def concrete(self):
        return all(s[0] == "item" or isinstance(s[1], int) for s in self.segs)

    def items(self):
        out = []
        for s in self.segs:
            if s[0] == "item":
                out.append(s[1])
            else:
                out.extend(s[2](i) for i in range(s[1]))
        return out

    def length(self):
        if self.card is not None:
            return self.card
        n = 0
        for s in self.segs:
            n = arith("+", n, 1 if s[0] == "item" else s[1])
        return n

    def at(self, i):
        if self.card is not None:
            raise Unsupported("elements of a set of symbolic size")
        segs = [s for s in self.segs if not (s[0] == "seg" and isinstance(s[1], int) and s[1] == 0)]
        if len(segs) == 1 and segs[0][0] == "seg":
            return segs[0][2](i)
        if self.concrete() and isinstance(i, int):
            return self.items()[i]
        c = ctx()
        off = 0
        for s in segs:
            n = 1 if s[0] == "item" else s[1]
            end = arith("+", off, n)
            cond = compare("<", i, end)
            if cond is True or (cond is not False and (c.quick_valid(cond) or c.branch(cond))):
                return s[1] if s[0] == "item" else s[2](arith("-", i, off))
            off = end
        raise Infeasible

    def copy(self):
        return SeqV(self.segs)

    @property
    def n(self):
        return self.length()

    def __repr__(self):
        return f"<seq {[s[1] if s[0] == 'item' else ('seg', s[1]) for s in self.segs]}>"


def flat_seg(ip, n, L, el):
    """The segments el(k, 0..L(k)-1) for k < n, one after the other."""
    c = ip.c
    from .loops import free_of
    probe = z3.Int("flat_k")
    key = z3.simplify(nterm(L(SNum(probe, "int"))))
    nt = z3.simplify(nterm(n))
    if not free_of(key, c.loopvars) or not free_of(nt, c.loopvars):
        raise Unsupported("nested sequence inside a loop of symbolic length")
    cache = c.__dict__.setdefault("_flat", [])
    hit = None
    for e in cache:
        if e["n"].eq(nt) and e["key"].eq(key):
            hit = e
            break
    if hit is None:
        for e in cache:
            if c.quick_valid(mkbool(z3.And(e["n"] == nt, z3.Implies(z3.And(probe >= 0, probe < nt), e["key"] == key)))):
                hit = e
                break
    if hit is None:
        i = len(cache)
        N = SNum(c.fresh(f"flatlen{i}", INT), "int")
        pos = z3.Function(f"flatpos{i}", INT, INT, INT)
        fk, fj = z3.Function(f"flatk{i}", INT, INT), z3.Function(f"flatj{i}", INT, INT)
        hit = {"n": nt, "key": key, "probe": probe, "N": N, "pos": pos, "k": fk, "j": fj, "id": i, "el": []}
        cache.append(hit)
        k, j, q = z3.Int("fl_k"), z3.Int("fl_j"), z3.Int("fl_q")
        Lk = lambda x: z3.substitute(key, (probe, x))  # noqa: E731
        p = pos(k, j)
        hit["A1"] = (k, j, z3.Implies(z3.And(k >= 0, k < nt, j >= 0, j < Lk(k)),
                                      z3.And(p >= 0, p < N.t, fk(p) == k, fj(p) == j)))
        hit["ax"] = [N.t >= 0, z3.ForAll([k, j], hit["A1"][2], patterns=[p]),
                     z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < N.t), z3.And(
                         fk(q) >= 0, fk(q) < nt, fj(q) >= 0, fj(q) < Lk(fk(q)), pos(fk(q), fj(q)) == q)),
                               patterns=[fk(q)]),
                     z3.Implies(N.t > 0, nt > 0),
                     z3.Implies(z3.And(nt > 0, Lk(z3.IntVal(0)) > 0), z3.And(N.t > 0, pos(0, 0) == 0))]
    for j_, ax in enumerate(hit["ax"]):
        c.axiom(("flat", hit["id"], j_), ax)
    fk, fj, pos = hit["k"], hit["j"], hit["pos"]
    # positions of the elements follow from the elements themselves
    k, j, a1 = hit["A1"]
    e = el(SNum(k, "int"), SNum(j, "int"))
    if isinstance(e, (SNum, SBool, SStr)):
        for pt in _pattern_terms(e.t, k, j):
            nm = ("flatel", hit["id"], pt.decl().name())
            if nm not in c.axset:
                c.axiom(nm, z3.ForAll([k, j], a1, patterns=[pt]))
    return ("seg", hit["N"], lambda q: el(SNum(fk(nterm(q)), "int"), SNum(fj(nterm(q)), "int")), (n, L, el))


def _pattern_terms(t, k, j):
    st, seen, out = [t], set(), []
    while st:
        e = st.pop()
        if e.get_id() in seen or not z3.is_app(e):
            continue
        seen.add(e.get_id())
        if e.num_args() == 2 and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and {e.arg(0).get_id(), e.arg(1).get_id()} == {
                k.get_id(), j.get_id()}:
            out.append(e)
        st.extend(e.children())
    return out


def as_seq(ip, v):
    if isinstance(v, SeqV):
        return v
    if isinstance(v, (list, tuple)):
        return SeqV([("item", x) for x in v])
    if isinstance(v, SArr):
        s = SeqV()
        g = v.snapshot()
        dt = v.dt
        s.add_seg(v.n, lambda i: tag(strip(g(i)), dt))
        return s
    if isinstance(v, SymRange):
        s = SeqV()
        s.add_seg(v.length(), v.at)
        return s
    it = items_of(ip, v)
    if isinstance(it, list):
        return SeqV([("item", x) for x in it])
    s = SeqV()
    s.add_seg(it[1], it[2])
    return s


def items_of(ip, v):
    """list of items, or ('sym', n, get)."""
    if isinstance(v, (list, tuple)):
        return list(v)
    if isinstance(v, dict):
        from .interp import KeyBox
        return [k.v if isinstance(k, KeyBox) else k for k in v]
    if isinstance(v, (str, bytes, range, set, frozenset)):
        return [lift(x) for x in v]
    if isinstance(v, SArr):
        if isinstance(v.n, int) and v.n <= 64:
            return [v.get(i) for i in range(v.n)]
        g, dt = v.snapshot(), v.dt
        return ("sym", v.n, lambda i: tag(strip(g(i)), dt))
    if isinstance(v, SymRange):
        n = v.length()
        if isinstance(n, int) and n <= 64:
            return [v.at(i) for i in range(n)]
        return ("sym", n, v.at)
    if isinstance(v, SeqV):
        if v.concrete():
            return v.items()
        if v.card is not None:
            raise Unsupported("iteration over a set of symbolic size")
        return ("sym", v.length(), v.at)
    if hasattr(v, "m_iter"):
        return v.m_iter(ip)
    if isinstance(v, type) and hasattr(v, "__members__"):
        return list(v)
    if isinstance(v, np.ndarray) and v.ndim == 1:
        return [lift(x.item()) for x in v]
    if isinstance(v, SObj):
        m = ip.find_method(v.cls, "__iter__")
        if m is not None and v.cls.__module__.split(".")[0] in ("shepherd_core", "shepherd_data") and not hasattr(v.cls, "model_fields"):
            return items_of(ip, ip.call(m, [v], {}))
    if v is None:
        from .core import PyExc
        raise PyExc(TypeError("'NoneType' object is not iterable"))
    if isinstance(v, (int, Fraction, SNum, bool)):
        raise PyExc(TypeError("not iterable"))
    from .core import is_concrete
    if is_concrete(v):
        try:
            return [lift(x) for x in v]
        except TypeError as e:
            raise PyExc(e) from None
    raise Unsupported(f"iterate {type(v).__name__}")


def norm_slice(ip, n, k):
    """python slice semantics -> (start, length, step)."""
    step = k.step if k.step is not None else 1
    if isinstance(step, int) and step <= 0:
        raise Unsupported("negative slice step")
    c = ip.c

    def norm(x, dflt):
        if x is None:
            return dflt
        if isinstance(x, Fraction) or (isinstance(x, SNum) and x.k == "float"):
            raise PyExc(TypeError("slice indices must be integers"))
        x = strip(x)
        if isinstance(x, int) and isinstance(n, int):
            return min(max(x if x >= 0 else n + x, 0), n)
        if isinstance(x, int) and x < 0:
            y = arith("+", n, x)
            return y if c.quick_valid(compare(">=", y, 0)) else smax(y, 0)
        if not (isinstance(x, int) or c.quick_valid(compare(">=", x, 0))):
            x = ite(compare("<", x, 0), smax(arith("+", n, x), 0), x)
        if x is n or c.quick_valid(compare("<=", x, n)):
            return x
        return smin(x, n)

    a = norm(k.start, 0)
    b = norm(k.stop, n)
    d = arith("-", b, a)
    if not (isinstance(d, int) and d >= 0) and not c.quick_valid(compare(">=", d, 0)):
        d = smax(d, 0)
    if isinstance(step, int) and step == 1:
        return a, d, 1
    ln = SymRange(0, d, step).length()
    return a, ln, step


def seq_getitem(ip, o, k):
    n = o.n if isinstance(o, (SArr, SeqV)) else o.length()
    if isinstance(k, slice):
        a, ln, step = norm_slice(ip, n, k)
        if isinstance(o, SArr):
            if isinstance(step, int) and step == 1:
                return SArr(ln, None, o.dt, base=o, off=a)
            g = o.snapshot()
            return SArr(ln, lambda i: g(arith("+", a, arith("*", i, step))), o.dt)
        if isinstance(o, SymRange):
            return SymRange(o.at(a), o.at(arith("+", a, arith("*", ln, step))), arith("*", o.step, step))
        if o.concrete() and all(isinstance(x, int) for x in (a, ln, step)):
            return [o.items()[a + j * step] for j in range(ln)]
        s = SeqV()
        snap = o.copy()
        s.add_seg(ln, lambda i: snap.at(arith("+", a, arith("*", i, step))))
        return s
    if isinstance(o, SArr) and isinstance(k, SArr):
        if k.dt == "bool":
            return compress(ip, o, k)
        gk, go = k.snapshot(), o.snapshot()
        return SArr(k.n, lambda i: go(gk(i)), o.dt)
    if isinstance(o, SArr) and isinstance(k, tuple):
        raise Unsupported("n-d index")
    if not isinstance(k, (int, SNum, bool, SBool)) or (isinstance(k, SNum) and k.k != "int"):
        raise PyExc(TypeError("indices must be integers") if not isinstance(o, SArr) else IndexError("only integers"))
    k = strip(k)
    ok = And(compare("<", k, n), compare(">=", k, arith("-", 0, n)))
    if not ip.truth(ok):
        raise PyExc(IndexError("index out of range"))
    neg = compare("<", k, 0)
    if neg is True or (neg is not False and not ip.c.quick_valid(Not(neg))):
        k = ite(neg, arith("+", k, n), k)
    return o.get(k) if isinstance(o, SArr) else o.at(k)


def arr_setitem(ip, a, k, v):
    if isinstance(k, slice):
        s, ln, step = norm_slice(ip, a.n, k)
        if not (isinstance(step, int) and step == 1):
            raise Unsupported("strided store")
        if isinstance(v, (SArr, SeqV, list, tuple)):
            if not isinstance(v, SArr):
                v = as_arr(ip, v)
            bad = compare("!=", v.n, ln)
            if ip.truth(bad):
                if ip.truth(compare("!=", v.n, 1)):
                    raise PyExc(ValueError("could not broadcast"))
                raise Unsupported("broadcast store")
            g = v.snapshot()
        else:
            g = lambda i: v  # noqa: E731
        dt = a.dt
        a.write(s, ln, lambda i: cast(strip(g(i)), dt))
        return
    if isinstance(k, SArr) and k.dt == "bool":
        m = k.snapshot()
        old = a.snapshot()
        dt = a.dt
        if isinstance(v, SArr):
            raise Unsupported("mask store of array")
        val = cast(strip(v), dt)
        org = _org2(ip, a, k, lambda x, y: ite(y, val, x))
        a.write(0, a.n, lambda i: ite(strip(m(i)), val, strip(old(i))))
        if a.base is None:
            a.org = org
        return
    if isinstance(k, (int, SNum)):
        k = strip(k)
        if not ip.truth(And(compare("<", k, a.n), compare(">=", k, arith("-", 0, a.n)))):
            raise PyExc(IndexError("index out of bounds"))
        if not (isinstance(k, int) and k >= 0) and not ip.c.quick_valid(compare(">=", k, 0)):
            k = ite(compare("<", k, 0), arith("+", k, a.n), k)
        val = cast(strip(v), a.dt)
        a.write(k, 1, lambda i: val)
        return
    raise Unsupported("array store")


def as_arr(ip, v, dt=None):
    if isinstance(v, SArr):
        return v
    if isinstance(v, np.ndarray):
        v = v.tolist()
    it = items_of(ip, v)
    if isinstance(it, list):
        if dt is None:
            if all(isinstance(strip(x), (bool, SBool)) for x in it) and it:
                dt = "bool"
            elif any(_is_num(x) and kind(x) == "float" for x in it) or not it:
                dt = "f8"
            elif all(_is_num(x) for x in it):
                dt = next((x.np for x in it if isinstance(x, SNum) and x.np), "i8")
            else:
                dt = "obj"
        vals = [strip(x) for x in it]

        def get(i):
            if isinstance(i, int):
                return vals[i]
            r = vals[-1]
            for j in range(len(vals) - 2, -1, -1):
                r = ite(compare("==", i, j), vals[j], r)
            return r

        return SArr(len(it), get, dt)
    n, g = it[1], it[2]
    if dt is None:
        probe = g(ctx().fresh_int("probe"))
        dt = ("bool" if isinstance(probe, (bool, SBool)) else
              "obj" if not _is_num(probe) else
              "f8" if kind(probe) == "float" else (probe.np or "i8") if isinstance(probe, SNum) else "i8")
    return SArr(n, lambda i: strip(g(i)), dt)


_NPD = {"f8": np.float64, "f4": np.float32, "i8": np.int64, "i4": np.int32, "i2": np.int16, "i1": np.int8,
        "u8": np.uint64, "u4": np.uint32, "u2": np.uint16, "u1": np.uint8, "bool": np.bool_}


def dt_of(x):
    return np.dtype(x).kind.replace("b", "bool") + ("" if np.dtype(x).kind == "b" else str(np.dtype(x).itemsize))


def result_dt(op, a, b):
    def s(x):
        if isinstance(x, SArr):
            return np.empty(1, _NPD[x.dt]) + (0 if x.dt != "bool" else False)
        t = nptag(x)
        if t:
            return _NPD[t](1)
        if isinstance(x, (bool, SBool)):
            return True
        return 1.0 if kind(x) == "float" else 1
    import operator
    x, y = s(a), s(b)
    if isinstance(x, np.ndarray):
        x[...] = 1
    if isinstance(y, np.ndarray):
        y[...] = 1
    f = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv, "//": operator.floordiv,
         "%": operator.mod, "&": operator.and_, "|": operator.or_, "^": operator.xor, "<<": operator.lshift,
         ">>": operator.rshift, "**": operator.pow}[op]
    return dt_of(f(x, y).dtype)


def same_len(ip, a, b):
    if a.n is b.n or (isinstance(a.n, int) and isinstance(b.n, int) and a.n == b.n):
        return a.n
    eq_ = compare("==", a.n, b.n)
    if ip.truth(eq_):
        return a.n
    one = Or(compare("==", a.n, 1), compare("==", b.n, 1))
    if ip.truth(one):
        raise Unsupported("broadcasting of length-1 arrays")
    raise PyExc(ValueError("operands could not be broadcast together"))


def arr_binop(ip, op, a, b):
    if isinstance(a, (list, tuple)):
        a = as_arr(ip, a)
    if isinstance(b, (list, tuple)):
        b = as_arr(ip, b)
    for x in (a, b):
        if not (isinstance(x, SArr) or _is_num(x)):
            raise PyExc(TypeError(f"unsupported operand {type(x).__name__} for array"))
    if isinstance(a, SArr) and isinstance(b, SArr):
        n = same_len(ip, a, b)
    else:
        n = a.n if isinstance(a, SArr) else b.n
    if "obj" in (getattr(a, "dt", ""), getattr(b, "dt", "")):
        raise Unsupported("object arrays")
    dt = result_dt(op, a, b)
    ga = a.snapshot() if isinstance(a, SArr) else (lambda i, v=a: v)
    gb = b.snapshot() if isinstance(b, SArr) else (lambda i, v=b: v)
    if op in ("/", "//", "%"):
        if isinstance(b, SArr):
            raise Unsupported("division by array")
        if not (isinstance(b, (int, Fraction)) and b != 0) and not ip.c.quick_valid(compare("!=", b, 0)):
            raise Unsupported("array division by possibly zero")

    def get(i):
        x, y = strip(ga(i)), strip(gb(i))
        if op in ("&", "|", "^", "<<", ">>"):
            r = ip.num_binop(op, x, y)
        elif op == "**":
            r = ip.power(x, y)
        else:
            r = arith(op, x, y)
        return cast(r, dt)

    return SArr(n, get, dt, org=_org2(ip, a, b, lambda x, y: cast(arith(op, x, y), dt)) if op in "+-*/" else None)


def _org2(ip, a, b, f):
    """Shift information of an elementwise combination."""
    sa = a.shifted() if isinstance(a, SArr) else None
    sb = b.shifted() if isinstance(b, SArr) else None
    if sa and sb:
        if not (sa[1] is sb[1] or same_term(sa[1], sb[1]) or ip.c.quick_valid(compare("==", sa[1], sb[1]))):
            return None
    o = (sa or sb)[1]
    ha = sa[0] if sa else (lambda i: a)
    hb = sb[0] if sb else (lambda i: b)
    return (lambda i: f(strip(ha(i)), strip(hb(i))), o)


def same_term(x, y):
    return nterm(x).eq(nterm(y))


def arr_compare(ip, op, a, b):
    if isinstance(a, (list, tuple)):
        a = as_arr(ip, a)
    if isinstance(b, (list, tuple)):
        b = as_arr(ip, b)
    if isinstance(a, SArr) and isinstance(b, SArr):
        n = same_len(ip, a, b)
    else:
        n = a.n if isinstance(a, SArr) else b.n
    ga = a.snapshot() if isinstance(a, SArr) else (lambda i, v=a: v)
    gb = b.snapshot() if isinstance(b, SArr) else (lambda i, v=b: v)

    def get(i):
        x, y = strip(ga(i)), strip(gb(i))
        if isinstance(x, (bool, SBool)) and isinstance(y, (bool, SBool)):
            r = Iff(x, y)
            return r if op == "==" else Not(r)
        return compare(op, x, y)

    return SArr(n, get, "bool", org=_org2(ip, a, b, lambda x, y: compare(op, x, y)))


def arr_unary(ip, op, a):
    g = a.snapshot()
    if op == "Invert" and a.dt == "bool":
        return SArr(a.n, lambda i: Not(strip(g(i))), "bool")
    if op == "USub":
        dt = a.dt
        return SArr(a.n, lambda i: cast(arith("-", 0, strip(g(i))), dt), dt)
    raise Unsupported(f"array {op}")


# ---- boolean compression a[mask]: order-preserving selection, axiomatised

def compress(ip, o, m):
    if ip.truth(compare("!=", o.n, m.n)):
        raise PyExc(IndexError("boolean index did not match"))
    go = o.snapshot()
    sel = selection(ip, m)
    return SArr(sel["n"], lambda i: go(sel["at"](i)), o.dt)


def selection(ip, m):
    """Positions where mask m holds, ascending: count n, at(k), rank(i)."""
    c = ip.c
    g = m.snapshot()
    probe = z3.Int("sel_i")
    key = z3.simplify(z3.And(probe >= 0, probe < nterm(m.n), bterm(strip(g(SNum(probe, "int"))))))
    cache = c.__dict__.setdefault("_sel", {})
    from .loops import free_of
    if not free_of(key, c.loopvars):
        raise Unsupported("boolean selection inside a loop of symbolic length")
    for k, v in cache.values():
        if k.eq(key):
            for j, ax in enumerate(v["ax"]):
                c.axiom(("sel", v["id"], j), ax)
            return v
    for k, v in cache.values():  # the same elements, found differently
        if c.quick_valid(mkbool(k == key)):
            for j, ax in enumerate(v["ax"]):
                c.axiom(("sel", v["id"], j), ax)
            return v
    idx = len(cache)
    at = z3.Function(f"sel{idx}", INT, INT)
    rank = z3.Function(f"rank{idx}", INT, INT)
    n = SNum(c.fresh(f"selcount{idx}", INT), "int")
    axs = [bterm(And(compare(">=", n, 0), compare("<=", n, m.n)))]
    i = z3.Int("i!sel")
    k = z3.Int("k!sel")
    mi = z3.substitute(key, (probe, i))
    axs.append((z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n.t), z3.And(
        z3.substitute(key, (probe, at(k))), rank(at(k)) == k)), patterns=[at(k)])))
    axs.append((z3.ForAll([i], z3.Implies(mi, z3.And(rank(i) >= 0, rank(i) < n.t, at(rank(i)) == i)),
                              patterns=[rank(i)])))
    k2 = z3.Int("k2!sel")
    axs.append((z3.ForAll([k, k2], z3.Implies(z3.And(k >= 0, k < k2, k2 < n.t), at(k) < at(k2)),
                              patterns=[z3.MultiPattern(at(k), at(k2))])))
    low = z3.Int("i2!sel")
    closed = z3.ForAll([low, i], z3.Implies(z3.And(low >= 0, low < i, mi), z3.substitute(key, (probe, low))))
    if c.quick_valid(mkbool(closed)):  # the first ones
        axs.append(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n.t), at(k) == k), patterns=[at(k)]))
    for j, ax in enumerate(axs):
        c.axiom(("sel", idx, j), ax)
    v = {"n": n, "at": lambda x: SNum(at(nterm(x)), "int"), "rank": lambda x: SNum(rank(nterm(x)), "int"),
         "key": key, "probe": probe, "ax": axs, "id": idx}
    cache[idx] = (key, v)
    return v
