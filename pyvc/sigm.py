"""Trusted model of the linear filters of scipy.signal: a causal function of everything fed in since the start."""
from __future__ import annotations

from fractions import Fraction

import numpy as np
import z3
from scipy import signal

from .arrays import SArr, strip
from .core import *  # noqa: F403
from .core import _is_num
from .interp import Model
from .intrinsics import n_zeros, reg

INT, REAL = z3.IntSort(), z3.RealSort()
FILT = z3.Function("sosfilt", INT, INT, INT, INT, REAL)        # filter, source, first fed position, position
GARB = z3.Function("sosfilt_gap", INT, INT, INT, INT, INT, INT, REAL)
LOST = z3.Function("sosfilt_lost", INT, INT, INT, INT, INT)


class SosM(Model):
    """Coefficients of a filter, identified by the arguments of its design."""

    def __init__(self, key, sections):
        self.key, self.sections = key, sections

    def a_shape(self, ip):
        return (self.sections, 6)


class ZeroState(Model):
    def __init__(self, shape):
        self.shape = shape

    def a_shape(self, ip):
        return self.shape


class FState(Model):
    """Everything from position s0 of src up to (not including) pos was fed in."""

    def __init__(self, flt, src, s0, pos):
        self.flt, self.src, self.s0, self.pos = flt, src, s0, pos

    def m_parts(self):
        return [self.s0, self.pos]

    def m_subst(self, f):
        return FState(self.flt, self.src, f(self.s0), f(self.pos))

    def m_carry(self, ip, old, k):
        from .loops import subst
        if isinstance(old, FState):
            if old.flt != self.flt or old.src is not self.src:
                return None
            s0, init = old.s0, old.pos
        elif isinstance(old, ZeroState):
            s0 = init = subst(self.s0, [(k, z3.IntVal(0))])  # nothing fed in yet: starts wherever the first slice does
        else:
            return None
        flt, src = self.flt, self.src

        def unwrap(v):
            ok = isinstance(v, FState) and v.flt == flt and v.src is src
            return v.pos if ok and eqv(v.s0, s0) else None
        return init, (lambda x: FState(flt, src, s0, x)), unwrap


def eqv(a, b):
    r = compare("==", a, b)
    return r is True or (r is not False and ctx().quick_valid(r))


def ident(ip, o):
    return ip.c.__dict__.setdefault("_sig", {}).setdefault(id(o), (len(ip.c.__dict__["_sig"]), o))[0]


@reg(np.zeros)
def zeros2(ip, shape, dtype=float):
    if isinstance(shape, tuple) and len(shape) == 2:
        return ZeroState(shape)
    return n_zeros(ip, shape, dtype)


@reg(signal.iirfilter)
def iirfilter(ip, N, Wn, rp=None, rs=None, btype="band", analog=False, ftype="butter", output="ba", fs=None):
    if output != "sos" or analog or not isinstance(N, int):
        raise Unsupported("filter design")
    if not _is_num(Wn) or not ip.truth(And(compare(">", Wn, 0), compare("<", Wn, 1))):
        raise PyExc(ValueError("Digital filter critical frequencies must be 0 < Wn < 1"))
    t = Wn if isinstance(Wn, (int, Fraction)) else z3.simplify(rterm(Wn)).sexpr()
    return SosM((N, t, rp, rs, btype, ftype, fs), N if btype in ("band", "bandpass", "bandstop") else (N + 1) // 2)


@reg(signal.sosfilt)
def sosfilt(ip, sos, x, axis=-1, zi=None):
    if not (isinstance(sos, SosM) and isinstance(x, SArr) and axis == -1):
        raise Unsupported("sosfilt")
    h, a = x.shifted()
    n = x.n
    F = ident(ip, _key(ip, sos.key))
    if zi is None or isinstance(zi, ZeroState):
        if zi is not None and ip.truth(compare("!=", zi.shape[0], sos.sections)):
            raise PyExc(ValueError("Invalid zi shape"))
        s0, pos, cont = a, a, True
    elif isinstance(zi, FState):
        if zi.flt != sos.key or zi.src is not h:
            raise Unsupported("filter state of another signal")
        s0, pos = zi.s0, zi.pos
        cont = compare("==", pos, a)
        if cont is not True and ip.c.quick_valid(cont):
            cont = True
    else:
        raise Unsupported("filter state")
    S = ident(ip, h)

    def get(i):
        good = mknum(FILT(z3.IntVal(F), z3.IntVal(S), nterm(s0), nterm(arith("+", a, i))), "float")
        if cont is True:
            return good
        return ite(cont, good, mknum(GARB(z3.IntVal(F), z3.IntVal(S), nterm(s0), nterm(pos), nterm(a), nterm(i)), "float"))

    y = SArr(n, get, "f8")
    if zi is None:
        return y
    nxt = arith("+", a, n)
    if cont is not True:
        nxt = ite(cont, nxt, mknum(LOST(nterm(s0), nterm(pos), nterm(a), nterm(n)), "int"))
    return (y, FState(sos.key, h, s0, nxt))


_KEYS: dict = {}


def _key(ip, key):
    return _KEYS.setdefault(key, ("filter", key))
