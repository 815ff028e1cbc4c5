"""Constructor semantics of pydantic models, driven by the models' own field declarations (trusted)."""
from __future__ import annotations

import datetime as _dt
import enum
import ipaddress
import pathlib
import types
import typing
import uuid
from fractions import Fraction

import annotated_types as at
import numpy as np
import pydantic
import pydantic_core
import z3
from pydantic import BaseModel, TypeAdapter
from pydantic.fields import FieldInfo
from pydantic_core import PydanticUndefined

from .arrays import SArr, SeqV, items_of
from .core import *  # noqa: F403
from .core import _is_num


class VErr(Exception):
    pass


def validation_error(cls, msg=""):
    return pydantic_core.ValidationError.from_exception_data(
        cls.__name__ if isinstance(cls, type) else str(cls),
        [{"type": "value_error", "loc": (), "input": None, "ctx": {"error": ValueError(msg)}}])


def to_sobj(v):
    """Native model instance -> engine object."""
    if isinstance(v, BaseModel):
        o = SObj(type(v), {k: to_sobj(x) for k, x in v.__dict__.items()})
        o.__dict__["fields_set"] = set(v.model_fields_set)
        return o
    if type(v).__module__.split(".")[0] in ("shepherd_core", "shepherd_data") and not isinstance(v, (enum.Enum, type)) and hasattr(v, "__dict__") \
            and not isinstance(v, (str, int, float, dict, list, tuple, types.FunctionType)):
        return SObj(type(v), {k: to_sobj(x) for k, x in v.__dict__.items()})
    if isinstance(v, list):
        return [to_sobj(x) for x in v]
    if isinstance(v, tuple):
        return tuple(to_sobj(x) for x in v)
    if isinstance(v, dict):
        return {k: to_sobj(x) for k, x in v.items()}
    return lift(v)


_NATIVE_TYPES = (pathlib.Path, _dt.datetime, _dt.timedelta, _dt.date, uuid.UUID, ipaddress.IPv4Address, bytes,
                 _dt.time)


def filem_bytes():
    from .filem import SBytes
    return SBytes


def flatten(ann, meta):
    """Strip Annotated layers -> (type, metadata list)."""
    meta = list(meta)
    while typing.get_origin(ann) is typing.Annotated:
        a = typing.get_args(ann)
        ann = a[0]
        new = []
        for m in a[1:]:
            if isinstance(m, FieldInfo):
                new.extend(m.metadata)
            elif hasattr(m, "__iter__") and not isinstance(m, (str, bytes, type)) and type(m).__module__.startswith("annotated_types"):
                new.extend(list(m))
            else:
                new.append(m)
        meta = new + meta
    out = []
    for m in meta:
        if isinstance(m, at.GroupedMetadata) and not isinstance(m, FieldInfo):
            try:
                out.extend(list(m))
                continue
            except TypeError:
                pass
        out.append(m)
    return ann, out


def _general(m):
    """dict view of pydantic's general metadata object."""
    d = getattr(m, "__dict__", {}) or {}
    return d


def require(ip, cond, msg):
    if cond is True:
        return
    if ip.__dict__.get("assume_valid"):
        ip.c.assume(cond)
        return
    if not ip.truth(cond):
        raise VErr(msg)


def convert(ip, cls, ann, meta, v, cfg):
    """Validated value of annotation `ann` (raises VErr)."""
    ann, meta = flatten(ann, meta)
    origin = typing.get_origin(ann)
    from .interp import KeyBox, Model
    if isinstance(v, SOpt):
        if origin in (typing.Union, types.UnionType) and type(None) in typing.get_args(ann) and isinstance(v.v, SObj) and any(
                isinstance(a, type) and issubclass(v.v.cls, a) for a in typing.get_args(ann)):
            return v
        v = ip.force(v)
    if isinstance(v, KeyBox):
        v = v.v
    for m in meta:
        if type(m).__name__ in ("AfterValidator", "BeforeValidator", "WrapValidator", "PlainValidator"):
            raise Unsupported("annotated validators")
    if ann is typing.Any or ann is object:
        return v
    if isinstance(ann, typing.TypeVar):
        return v
    if origin in (typing.Union, types.UnionType):
        return conv_union(ip, cls, typing.get_args(ann), meta, v, cfg)
    if origin is typing.Literal:
        for x in typing.get_args(ann):
            if ip.truth(ip.eq_term(x, v)):
                return x
        raise VErr("literal")
    if ann is type(None) or ann is None:
        if v is None:
            return None
        raise VErr("none required")
    if ann is float:
        v = conv_float(ip, v)
        return num_constraints(ip, v, meta)
    if ann is int:
        v = conv_int(ip, v)
        return num_constraints(ip, v, meta)
    if ann is bool:
        return conv_bool(ip, v)
    if ann is str:
        return conv_str(ip, v, meta, cfg)
    if isinstance(ann, type) and issubclass(ann, enum.Enum):
        return conv_enum(ip, ann, v, cfg)
    if isinstance(ann, type) and issubclass(ann, BaseModel):
        if isinstance(v, BaseModel):
            v = to_sobj(v)
        if isinstance(v, SObj):
            if issubclass(v.cls, ann):
                return v
            raise VErr(f"instance of {ann.__name__} expected")
        if isinstance(v, dict):
            try:
                return construct_model(ip, ann, dict(v))
            except PyExc as e:
                if isinstance(e.exc, pydantic.ValidationError):
                    raise VErr(str(ann)) from None
                raise
        if isinstance(v, Opaque):
            raise Unsupported("opaque model value")
        raise VErr(f"{ann.__name__} expected")
    if origin in (list, typing.List) or ann is list:
        (el,) = typing.get_args(ann) or (typing.Any,)
        if isinstance(v, tuple):
            v = list(v)
        if isinstance(v, SeqV) and v.concrete():
            v = v.items()
        if isinstance(v, SeqV):
            len_constraints(ip, v.length(), meta)
            if not (isinstance(el, type) and issubclass(el, BaseModel)):
                raise Unsupported("symbolic-length list field")
            for s in v.segs:  # elements that already are instances of the model are taken as they are
                x = s[1] if s[0] == "item" else s[2](SNum(z3.Int("pyd_el"), "int"))
                if not (isinstance(x, SObj) and issubclass(x.cls, el)):
                    raise Unsupported("symbolic-length list field")
            return v
        if not isinstance(v, list):
            raise VErr("list expected")
        len_constraints(ip, len(v), meta)
        return [convert(ip, cls, el, [], x, cfg) for x in v]
    if origin in (tuple,) or ann is tuple:
        args = typing.get_args(ann)
        if not isinstance(v, (list, tuple)):
            raise VErr("tuple expected")
        if args and args[-1] is not Ellipsis:
            if len(args) != len(v):
                raise VErr("tuple length")
            return tuple(convert(ip, cls, a, [], x, cfg) for a, x in zip(args, v))
        return tuple(convert(ip, cls, args[0], [], x, cfg) if args else x for x in v)
    if origin is dict or ann is dict:
        if not isinstance(v, dict):
            raise VErr("dict expected")
        len_constraints(ip, len(v), meta)
        a = typing.get_args(ann)
        if not a:
            return dict(v)
        return {convert(ip, cls, a[0], [], k, cfg): convert(ip, cls, a[1], [], x, cfg) for k, x in v.items()}
    if origin is set or ann is set:
        raise Unsupported("set field")
    if isinstance(v, Model):
        T = v.m_type
        if isinstance(ann, type) and issubclass(T, ann):
            return v
        if ann is pathlib.Path and hasattr(v, "as_path"):
            return v.as_path(ip)
    if isinstance(v, Opaque):
        if isinstance(ann, type) and issubclass(v.typ, ann):
            return v
        raise Unsupported(f"opaque value for {ann}")
    if isinstance(v, SStr) and isinstance(ann, type) and issubclass(ann, pathlib.PurePath):
        from .textm import SPathM
        return SPathM(ip, v)
    if hasattr(v, "m_type") and isinstance(ann, type) and issubclass(v.m_type, ann):
        return v
    if _is_num(v) and not is_concrete(v) and ann is _dt.timedelta:
        from .datam import span_of
        return span_of(v)
    if isinstance(v, filem_bytes()) and ann is bytes:
        len_constraints(ip, v._len(ip), meta)
        return v
    if is_concrete(v):
        try:
            full = typing.Annotated[(ann, *meta)] if meta else ann
            return lift(TypeAdapter(full).validate_python(lower(v)))
        except pydantic.ValidationError as e:
            raise VErr(str(e)) from None
    raise Unsupported(f"pydantic field type {ann} for {type(v).__name__}")


def conv_union(ip, cls, args, meta, v, cfg):
    if v is None and type(None) in args:
        return None
    args = [a for a in args if a is not type(None)]
    # smart mode: exact type first
    exact = [a for a in args if _exact(flatten(a, [])[0], v)]
    last = None
    for a in [*exact, *[a for a in args if a not in exact]]:
        try:
            return convert(ip, cls, a, meta, v, cfg)
        except VErr as e:
            last = e
    raise last or VErr("union")


def _exact(t, v):
    o = typing.get_origin(t) or t
    if not isinstance(o, type):
        return False
    if isinstance(v, SObj):
        return issubclass(v.cls, o)
    if isinstance(v, SNum):
        return (o is int and v.k == "int") or (o is float and v.k == "float")
    if isinstance(v, Fraction):
        return o is float
    if isinstance(v, SBool):
        return o is bool
    if isinstance(v, SStr):
        return o is str
    if hasattr(v, "m_type"):
        return issubclass(v.m_type, o)
    return type(v) is o or (isinstance(v, o) and o not in (int, float, object))


def conv_float(ip, v):
    if isinstance(v, (bool, SBool)):
        return mknum(rterm(num_trunc(v)), "float") if isinstance(v, SBool) else Fraction(int(v))
    if isinstance(v, float):
        raise VErr("finite number required")
    if _is_num(v):
        if nptag(v) and kind(v) == "int":
            raise VErr("np integer is no float")
        return mknum(rterm(v), "float") if not isinstance(v, (int, Fraction)) else Fraction(v)
    if isinstance(v, str):
        try:
            return frac(float(v))
        except (ValueError, Unsupported):
            raise VErr("float expected") from None
    if isinstance(v, (SStr, Opaque)):
        raise Unsupported("text as float")
    raise VErr("float expected")


def conv_int(ip, v):
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, SBool):
        return num_trunc(v)
    if isinstance(v, float):
        raise VErr("int expected")
    if _is_num(v):
        if kind(v) == "int":
            if nptag(v):
                raise VErr("np integer is no int")
            return v
        fl = num_floor(v)
        require(ip, compare("==", v, fl), "int expected")
        return fl
    if isinstance(v, enum.IntEnum):
        return int(v)
    if isinstance(v, str):
        try:
            return int(v.strip())
        except ValueError:
            raise VErr("int expected") from None
    if isinstance(v, (SStr, Opaque)):
        raise Unsupported("text as int")
    raise VErr("int expected")


def conv_bool(ip, v):
    if isinstance(v, (bool, SBool)):
        return strip_np(v)
    if isinstance(v, (int, Fraction)) and v in (0, 1):
        return bool(v)
    if isinstance(v, SNum):
        require(ip, Or(compare("==", v, 0), compare("==", v, 1)), "bool expected")
        return compare("==", v, 1)
    if isinstance(v, str) and v.lower() in ("true", "false", "0", "1", "on", "off", "t", "f", "y", "n", "yes", "no"):
        return v.lower() in ("true", "1", "on", "t", "y", "yes")
    raise VErr("bool expected")


def strip_np(v):
    return mkbool(v.t) if isinstance(v, SBool) else v


def conv_str(ip, v, meta, cfg):
    if isinstance(v, enum.Enum) and isinstance(v, str):
        v = v.value
    if not isinstance(v, (str, SStr)):
        if isinstance(v, Opaque) and v.typ is str:
            return v
        raise VErr("str expected")
    lo, hi = cfg.get("str_min_length", 0), cfg.get("str_max_length")
    strip_ws = cfg.get("str_strip_whitespace")
    if isinstance(v, str):
        full = typing.Annotated[(str, *meta)] if meta else str
        try:
            return _TA(full, cfg).validate_python(v)
        except pydantic.ValidationError as e:
            raise VErr(str(e)) from None
    for m in meta:
        if isinstance(m, at.MinLen):
            lo = max(lo, m.min_length)
        elif isinstance(m, at.MaxLen):
            hi = m.max_length
        else:
            d = _general(m)
            if d.get("pattern") is not None:
                from .textm import matches
                require(ip, matches(ip, d["pattern"], v), "pattern")
            if "max_length" in d and d["max_length"] is not None:
                hi = d["max_length"]
            if "min_length" in d and d["min_length"] is not None:
                lo = d["min_length"]
    n = SNum(z3.Length(v.t), "int")
    require(ip, compare(">=", n, lo), "too short")
    if hi is not None:
        require(ip, compare("<=", n, hi), "too long")
    if strip_ws:
        # symbolic strings are taken without leading or trailing blanks
        from .intrinsics import STRIP
        ip.c.axiom(("nostrip", v.t.get_id()), STRIP(v.t) == v.t)
    return v


_TAC: dict = {}


def _TA(t, cfg):
    keep = {k: cfg[k] for k in ("str_min_length", "str_max_length", "str_strip_whitespace") if k in cfg}
    key = (str(t), tuple(sorted(keep.items())))
    if key not in _TAC:
        _TAC[key] = TypeAdapter(t, config=pydantic.ConfigDict(**keep))
    return _TAC[key]


def conv_enum(ip, E, v, cfg):
    use_values = cfg.get("use_enum_values")
    if isinstance(v, SStr):
        ms = list(E)
        for m in ms[:-1]:
            if ip.truth(ip.eq_term(lift(m.value), v)):
                return m.value if use_values else m
        require(ip, ip.eq_term(lift(ms[-1].value), v), "enum")
        return ms[-1].value if use_values else ms[-1]
    if isinstance(v, SNum):
        for m in E:
            if ip.truth(ip.eq_term(lift(m.value), v)):
                return m.value if use_values else m
        raise VErr("enum")
    if isinstance(v, Opaque):
        raise Unsupported("opaque enum")
    if isinstance(v, E):
        return v.value if use_values else v
    try:
        m = E(lower(v))
    except (ValueError, TypeError, Unsupported):
        raise VErr("enum") from None
    return m.value if use_values else m


def num_constraints(ip, v, meta):
    conds = []
    for m in meta:
        if isinstance(m, at.Ge):
            conds.append(compare(">=", v, lift(m.ge)))
        elif isinstance(m, at.Gt):
            conds.append(compare(">", v, lift(m.gt)))
        elif isinstance(m, at.Le):
            conds.append(compare("<=", v, lift(m.le)))
        elif isinstance(m, at.Lt):
            conds.append(compare("<", v, lift(m.lt)))
        elif isinstance(m, at.MultipleOf):
            raise Unsupported("multiple_of")
        elif isinstance(m, at.Interval):
            for a, o in (("ge", ">="), ("gt", ">"), ("le", "<="), ("lt", "<")):
                if getattr(m, a) is not None:
                    conds.append(compare(o, v, lift(getattr(m, a))))
        elif type(m).__name__ in ("Strict", "PydanticGeneralMetadata", "_fields.PydanticGeneralMetadata",
                                  "PydanticMetadata", "AllowInfNan"):
            continue
        elif _general(m):
            continue
    require(ip, And(*conds), "number out of range")
    return v


def len_constraints(ip, n, meta):
    for m in meta:
        if isinstance(m, at.MinLen):
            require(ip, compare(">=", n, m.min_length), "too short")
        elif isinstance(m, at.MaxLen):
            require(ip, compare("<=", n, m.max_length), "too long")
        elif isinstance(m, at.Len):
            require(ip, compare(">=", n, m.min_length), "too short")
            if m.max_length is not None:
                require(ip, compare("<=", n, m.max_length), "too long")


def validators(cls, mode):
    out = []
    for d in cls.__pydantic_decorators__.model_validators.values():
        if d.info.mode == mode:
            out.append(d)
    return out


def _raw(fn):
    while isinstance(fn, (classmethod, staticmethod)) or hasattr(fn, "wrapped"):
        fn = fn.__func__ if hasattr(fn, "__func__") else fn.wrapped
    return fn


def find_validator(cls, name):
    for k in cls.__mro__:
        if name in k.__dict__:
            v = k.__dict__[name]
            kind_ = "plain"
            while True:
                if isinstance(v, (classmethod, staticmethod)):
                    kind_ = type(v).__name__
                    v = v.__func__
                elif hasattr(v, "wrapped"):
                    v = v.wrapped
                else:
                    break
            return kind_, v
    raise Unsupported(f"validator {name}")


def construct_model(ip, cls, kw, strict_msg=True):
    from .interp import Func
    if "__init__" in cls.__dict__:
        raise Unsupported("custom __init__ of model")
    values = dict(kw)
    outer = ip.__dict__.get("assume_valid")
    cfg = dict(cls.model_config)
    try:
        for d in reversed(validators(cls, "before")):
            kind_, fn = find_validator(cls, d.cls_var_name)
            args = [cls, values] if kind_ == "classmethod" else [values]
            values = ip.call(fn, args, {})
            if isinstance(values, SObj) and issubclass(values.cls, cls):
                return values
            if not isinstance(values, dict):
                raise VErr("dict expected")
        if validators(cls, "wrap"):
            raise Unsupported("wrap validator")
        o = SObj(cls, {})
        fset = set()
        fields = cls.model_fields
        for name, fi in fields.items():
            alias = fi.validation_alias or fi.alias
            key = name
            if alias is not None and isinstance(alias, str):
                key = alias if alias in values else name
            if key in values:
                v = values.pop(key)
                fset.add(name)
                o.f[name] = field_value(ip, cls, name, fi, v, cfg)
                continue
            if fi.default_factory is not None:
                v = default_factory(ip, fi)
            elif fi.default is not PydanticUndefined:
                v = to_sobj(fi.get_default())
            else:
                raise VErr(f"field {name} required")
            if cfg.get("validate_default") or fi.validate_default:
                v = field_value(ip, cls, name, fi, v, cfg)
            o.f[name] = v
        if values:
            if cfg.get("extra") == "forbid":
                raise VErr(f"extra fields {list(values)}")
            if cfg.get("extra") == "allow":
                raise Unsupported("extra=allow")
        o.__dict__["fields_set"] = fset
        ip.__dict__["assume_valid"] = outer
        for d in validators(cls, "after"):
            kind_, fn = find_validator(cls, d.cls_var_name)
            r = ip.call(fn, [cls, o] if kind_ == "classmethod" else [o], {})
            if not isinstance(r, SObj):
                raise Unsupported("after validator result")
            o = r
        return o
    except VErr as e:
        if ip.__dict__.get("assume_valid"):
            raise Infeasible from None
        raise PyExc(validation_error(cls, str(e))) from None
    except PyExc as e:
        if isinstance(e.exc, (ValueError, AssertionError)):
            if ip.__dict__.get("assume_valid"):
                raise Infeasible from None
            if isinstance(e.exc, pydantic.ValidationError):
                raise
            raise PyExc(validation_error(cls, str(e.exc)), str(e)) from None
        raise


def default_factory(ip, fi):
    f = fi.default_factory
    if f in (list, dict, set):
        return f()
    nm = getattr(f, "__name__", "")
    h = ip.intr.lookup(f)
    if h is None and nm in ("local_iso_date", "local_now", "id_default", "now"):
        if nm == "local_now":
            return Opaque(_dt.datetime, "now")
        if nm == "local_iso_date":
            return "2024-01-01"
        if nm == "id_default":
            return ip.c.fresh_int("random_id") if True else None
    return ip.call(f, [], {})


def field_value(ip, cls, name, fi, v, cfg):
    decs = cls.__pydantic_decorators__.field_validators
    befores = [d for d in decs.values() if name in d.info.fields or "*" in d.info.fields]
    for d in befores:
        if d.info.mode == "before":
            v = call_field_validator(ip, cls, d, v)
    if any(d.info.mode in ("plain", "wrap") for d in befores):
        raise Unsupported("plain/wrap validator")
    v = convert(ip, cls, fi.annotation, fi.metadata, v, cfg)
    for d in befores:
        if d.info.mode == "after":
            v = call_field_validator(ip, cls, d, v)
    return v


def call_field_validator(ip, cls, d, v):
    kind_, fn = find_validator(cls, d.cls_var_name)
    args = [cls, v] if kind_ == "classmethod" else [v]
    return ip.call(fn, args, {})


def model_dump(ip, o, include=None, exclude=None, exclude_unset=False, exclude_defaults=False, exclude_none=False,
               by_alias=False, mode="python", **kw):
    out = {}
    fset = o.__dict__.get("fields_set", set(o.f))
    for name in o.cls.model_fields:
        if name not in o.f:
            continue
        if include is not None and name not in include:
            continue
        if exclude is not None and name in exclude:
            continue
        if exclude_unset and name not in fset:
            continue
        v = o.f[name]
        fi = o.cls.model_fields[name]
        if fi.exclude:
            continue
        if exclude_defaults and fi.default is not PydanticUndefined:
            d = to_sobj(fi.get_default())
            if ip.truth(ip.truth_term(ip.eq_term(v, d))):
                continue
        if exclude_none and v is None:
            continue
        out[name] = _dump(ip, v, exclude_unset=exclude_unset, exclude_defaults=exclude_defaults,
                          exclude_none=exclude_none)
    return out


def _dump(ip, v, **kw):
    if isinstance(v, BaseModel):
        v = to_sobj(v)
    if isinstance(v, SObj) and issubclass(v.cls, BaseModel):
        return model_dump(ip, v, **kw)
    if isinstance(v, list):
        return [_dump(ip, x, **kw) for x in v]
    if isinstance(v, tuple):
        return tuple(_dump(ip, x, **kw) for x in v)
    if isinstance(v, dict):
        return {k: _dump(ip, x, **kw) for k, x in v.items()}
    return v


# ---------------------------------------------------------------- validate_call

_HINTS: dict = {}


def validated_args(ip, wrapper, args, kw):
    """Arguments of a function under pydantic's validate_call, converted and checked as its annotations say."""
    import inspect
    raw = wrapper.raw_function
    if raw not in _HINTS:
        try:
            _HINTS[raw] = inspect.signature(raw), typing.get_type_hints(raw, include_extras=True)
        except Exception:  # noqa: BLE001
            _HINTS[raw] = None
    if _HINTS[raw] is None:
        return args, kw
    sig, hints = _HINTS[raw]
    ip.trusted.add("pydantic.validate_call")
    try:
        b = sig.bind(*args, **kw)
    except TypeError as e:
        raise PyExc(validation_error(raw.__name__, str(e))) from None
    out, okw = [], {}
    for name, v in b.arguments.items():
        par = sig.parameters[name]
        if par.kind == par.VAR_POSITIONAL:
            out.extend(v)
            continue
        if par.kind == par.VAR_KEYWORD:
            okw.update(v)
            continue
        if name in hints and name not in ("self", "cls"):
            try:
                v = convert(ip, raw, hints[name], [], v, {})
            except VErr as e:
                raise PyExc(validation_error(raw.__name__, f"{name}: {e}")) from None
            except Unsupported:
                ip.trusted.add(f"validate_call of {raw.__qualname__}: {name} taken as given")
        if par.kind == par.KEYWORD_ONLY or okw or list(sig.parameters)[len(out)] != name:
            okw[name] = v
        else:
            out.append(v)
    return out, okw
