"""Model of 2-d numpy arrays with a fixed (concrete) number of columns."""
from __future__ import annotations

import numpy as np

from .arrays import SArr, SeqV, as_arr, cast, dt_of, items_of, norm_slice, seq_getitem, strip
from .core import *  # noqa: F403
from .interp import Model
from .intrinsics import np_dt, reg


def join_dt(dts):
    from .arrays import _NPD
    r = np.result_type(*[np.dtype(_NPD[d]) for d in dts])
    return next(k for k, v in _NPD.items() if np.dtype(v) == r)


class Mat(Model):
    m_type = np.ndarray

    def __init__(self, n, cols, dt):
        self.n, self.cols, self.dt = n, cols, dt

    def a_shape(self, ip):
        return (self.n, len(self.cols))

    def a_ndim(self, ip):
        return 2

    def a_size(self, ip):
        return arith("*", self.n, len(self.cols))

    def a_dtype(self, ip):
        from .intrinsics import DTypeM
        return DTypeM(self.dt)

    @property
    def m_len(self):
        return self.n

    def row(self, i):
        cols, dt = self.cols, self.dt
        vals = [c.at(i) for c in cols]

        def get(j):
            if isinstance(j, int):
                return vals[j]
            r = vals[-1]
            for q in range(len(vals) - 2, -1, -1):
                r = ite(compare("==", j, q), vals[q], r)
            return r
        return SArr(len(vals), get, dt)

    def m_iter(self, ip):
        if isinstance(self.n, int) and self.n <= 64:
            return [self.row(i) for i in range(self.n)]
        return ("sym", self.n, self.row)

    def m_getitem(self, ip, k):
        if isinstance(k, tuple):
            if len(k) != 2:
                raise PyExc(IndexError("too many indices for array"))
            r, c = k
            if isinstance(c, int) and not isinstance(c, bool):
                if not -len(self.cols) <= c < len(self.cols):
                    raise PyExc(IndexError("index out of bounds"))
                return seq_getitem(ip, self.cols[c].copy(), r)
            if isinstance(c, slice) and c == slice(None):
                return self.m_getitem(ip, r)
            raise Unsupported("matrix index")
        if isinstance(k, (slice, SArr)):
            cols = [seq_getitem(ip, c.copy(), k) for c in self.cols]
            return Mat(cols[0].n, cols, self.dt)
        v = [seq_getitem(ip, c, k) for c in self.cols]
        return as_arr(ip, [strip(x) for x in v], self.dt)

    def m_setitem(self, ip, k, v):
        if isinstance(k, tuple) and len(k) == 2 and isinstance(k[1], int) and 0 <= k[1] < len(self.cols):
            self.cols = [c.copy() for c in self.cols]
            from .arrays import arr_setitem
            arr_setitem(ip, self.cols[k[1]], k[0], v)
            return
        raise Unsupported("matrix store")

    def c_astype(self, ip, t, **kw):
        dt = np_dt(t)
        return Mat(self.n, [c.map(lambda v: cast(v, dt), dt) for c in self.cols], dt)

    def c_copy(self, ip):
        return Mat(self.n, [c.copy() for c in self.cols], self.dt)

    def c_flatten(self, ip):
        m, cols = len(self.cols), self.cols

        def get(i):
            q, r = arith("//", i, m), arith("%", i, m)
            v = cols[-1].at(q)
            for j in range(m - 2, -1, -1):
                v = ite(compare("==", r, j), cols[j].at(q), v)
            return v
        return SArr(arith("*", self.n, m), get, self.dt)


def from_rows(ip, x):
    """Rows given as a (possibly symbolic-length) sequence of equally long short sequences."""
    it = items_of(ip, x)
    if isinstance(it, list):
        if not it:
            raise PyExc(ValueError("need at least one array to stack"))
        rows = [as_arr(ip, r) for r in it]
        m = rows[0].n
        if not isinstance(m, int) or any(not isinstance(r.n, int) for r in rows):
            raise Unsupported("matrix with rows of symbolic length")
        if any(r.n != m for r in rows):
            raise PyExc(ValueError("all input arrays must have the same shape"))
        dt = join_dt([r.dt for r in rows])
        cols = [as_arr(ip, [strip(r.at(j)) for r in rows], dt) for j in range(m)]
        return Mat(len(rows), cols, dt)
    _, n, get = it
    if ip.truth(compare("==", n, 0)):
        raise PyExc(ValueError("need at least one array to stack"))
    probe = as_arr(ip, get(ip.c.fresh_int("row")))
    if not isinstance(probe.n, int):
        raise Unsupported("matrix with rows of symbolic length")
    dt, m = probe.dt, probe.n

    def col(j):
        return SArr(n, lambda i: strip(as_arr(ip, get(i)).at(j)), dt)
    return Mat(n, [col(j) for j in range(m)], dt)


@reg(np.stack, np.vstack)
def n_stack(ip, x, **kw):
    if kw:
        raise Unsupported("np.stack with options")
    return from_rows(ip, x)


@reg(np.column_stack)
def n_column_stack(ip, x):
    cols = [as_arr(ip, c) for c in ip.concrete_iter(x)]
    n = cols[0].n
    for c in cols[1:]:
        if ip.truth(compare("!=", n, c.n)):
            raise PyExc(ValueError("all the input array dimensions except for the concatenation axis must match exactly"))
    dt = join_dt([c.dt for c in cols])
    return Mat(n, [c.map(lambda v, dt=dt: cast(v, dt), dt) for c in cols], dt)


@reg(np.std)
def n_std(ip, a):
    """Standard deviation: an unspecified non-negative number (no property here depends on its value)."""
    a = as_arr(ip, a)
    if ip.truth(compare("==", a.n, 0)):
        raise Unsupported("std of empty array (nan)")
    v = ip.c.fresh_real("std")
    ip.c.assume(compare(">=", v, 0))
    return v
