"""Trusted models: pandas frames (operations on whole columns, functions applied row by row, seen at one arbitrary row), arrays of texts."""
from __future__ import annotations

import numpy as np
import pandas as pd

from .core import *  # noqa: F403
from .core import _is_num
from .interp import Model


class FrameM(Model):
    """A frame of some number of rows; cols holds the values of an arbitrary row."""

    m_type = pd.DataFrame

    def __init__(self, cols):
        self.cols = dict(cols)

    def a_columns(self, ip):
        return list(self.cols)

    def a_loc(self, ip):
        return LocM(self)

    def c_copy(self, ip, deep=True):
        return FrameM(self.cols)

    def c_apply(self, ip, fn, axis=0):
        if axis not in (1, "columns"):
            raise Unsupported("apply by columns")
        return ColM(ip.call(fn, [RowM(self.cols)], {}))

    def m_getitem(self, ip, k):
        if isinstance(k, list):
            return FrameM({n: self.m_getitem(ip, n).v for n in k})
        return ColM(cell(self.cols, k))

    def m_setitem(self, ip, k, v):
        if not isinstance(k, str):
            raise Unsupported("store into a frame")
        self.cols[k] = scalar(v)

    def m_truth(self, ip):
        raise PyExc(ValueError("The truth value of a DataFrame is ambiguous"))


def cell(cols, k):
    if not isinstance(k, str):
        raise Unsupported("selection of columns")
    if k not in cols:
        raise PyExc(KeyError(k))
    return cols[k]


def scalar(v):
    if isinstance(v, ColM):
        return v.v
    if _is_num(v):
        return v
    raise Unsupported("column of unknown content")


class RowM(Model):
    m_type = pd.Series

    def __init__(self, cols):
        self.cols = dict(cols)

    def m_getitem(self, ip, k):
        return cell(self.cols, k)

    def m_setitem(self, ip, k, v):
        self.cols[k] = v


class ColM(Model):
    m_type = pd.Series

    def __init__(self, v):
        self.v = v

    def m_binop(self, ip, op, o, r=False):
        a, b = self.v, scalar(o)
        if op == "/":
            ip.c.assume(compare("!=", self.v if r else b, 0))  # inf and nan are outside the model
        return ColM(ip.binop(op, b, a) if r else ip.binop(op, a, b))

    def m_order(self, ip, op, o):
        return ColM(compare(op, self.v, scalar(o)))

    def m_eq(self, ip, o):
        return ColM(compare("==", self.v, scalar(o)))

    def m_map(self, ip, f):
        return ColM(f(self.v))

    def c_abs(self, ip):
        return ColM(num_abs(self.v))

    def c_clip(self, ip, lower=None, upper=None):
        v = self.v
        v = v if lower is None else smax(v, scalar(lower))
        return ColM(v if upper is None else smin(v, scalar(upper)))

    def c_apply(self, ip, fn):
        return ColM(ip.call(fn, [self.v], {}))

    def m_truth(self, ip):
        raise PyExc(ValueError("The truth value of a Series is ambiguous"))


class LocM(Model):
    def __init__(self, f):
        self.f = f

    def m_getitem(self, ip, k):
        if isinstance(k, tuple) and len(k) == 2 and k[0] == slice(None):
            return self.f.m_getitem(ip, k[1])
        raise Unsupported("selection of rows")

    def m_setitem(self, ip, k, v):
        if not (isinstance(k, tuple) and len(k) == 2 and isinstance(k[1], str)):
            raise Unsupported("store by row")
        rows, name = k
        if isinstance(rows, slice) and rows == slice(None):
            self.f.m_setitem(ip, name, v)
        elif isinstance(rows, ColM):
            self.f.cols[name] = ite(rows.v, scalar(v), cell(self.f.cols, name))
        else:
            raise Unsupported("store by row")


class CellsM(Model):
    """Array of texts and what numpy makes texts of (numbers are kept as they are, their text gives them back)."""

    m_type = np.ndarray

    def __init__(self, cells, width=None):
        self.cells, self.width = cells, width

    def rows(self):
        w = self.width
        return self.cells if w is None else [tuple(self.cells[i:i + w]) for i in range(0, len(self.cells), w)]

    def a_shape(self, ip):
        return (len(self.cells),) if self.width is None else (len(self.cells) // self.width, self.width)

    def m_len(self, ip):
        return len(self.rows())

    def m_iter(self, ip):
        return self.rows()

    def c_reshape(self, ip, *shape):
        shape = shape[0] if len(shape) == 1 else shape
        if not (isinstance(shape, tuple) and is_concrete(shape) and len(shape) == 2 and shape[1] > 0):
            raise Unsupported("shape of texts")
        if shape[0] not in (-1, len(self.cells) // shape[1]) or len(self.cells) % shape[1]:
            raise PyExc(ValueError("cannot reshape array"))
        return CellsM(self.cells, shape[1])

    def m_getitem(self, ip, k):
        if isinstance(k, int):
            try:
                return self.rows()[k]
            except IndexError as e:
                raise PyExc(e) from None
        if self.width is not None and isinstance(k, tuple) and len(k) == 2 and k[0] == slice(None) and isinstance(k[1], int):
            return CellsM([r[k[1]] for r in self.rows()])
        raise Unsupported("selection of texts")
