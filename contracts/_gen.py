"""Arbitrary values for the fields of a model, straight from the model's own declarations."""
import math

import annotated_types as at
from pyvc.core import num_sqrt
from pyvc.core import SNum
from pyvc.pyd import flatten


def sqrt(x):
    return num_sqrt(x) if isinstance(x, SNum) else math.sqrt(max(0.0, float(x)))


def num_field(t, cls, name, gen=None):
    f = cls.model_fields[name]
    ann, meta = flatten(f.annotation, f.metadata)
    import typing
    if typing.get_origin(ann) is typing.Union:
        ann, meta = flatten(typing.get_args(ann)[0], meta)
    lo = hi = None
    gt = lt = None
    for m in meta:
        if isinstance(m, at.Ge):
            lo = m.ge
        elif isinstance(m, at.Le):
            hi = m.le
        elif isinstance(m, at.Gt):
            gt = m.gt
        elif isinstance(m, at.Lt):
            lt = m.lt
    if ann is bool:
        return t.bool(name)
    if ann is int:
        return t.int(name, lo if lo is not None else (gt + 1 if gt is not None else None), hi if hi is not None else (lt - 1 if lt is not None else None), gen=gen)
    if ann is float:
        return t.real(name, lo=lo, hi=hi, gt=gt, lt=lt, gen=gen)
    raise TypeError(f"{name}: {ann}")
