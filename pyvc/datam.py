"""Trusted models: spans of time, yaml with the representers of the code, hashes, the text of data trees."""
from __future__ import annotations

import copy
import datetime as _dt
import hashlib
import uuid

import yaml
import z3

from . import filem, textm
from .core import *  # noqa: F403
from .core import Cat, Fmt, _is_num
from .interp import Model
from .intrinsics import CTORS, reg

MICRO = 10 ** 6


# ------------------------------------------------------------------ spans of time

def td_us(td):
    return (td.days * 86400 + td.seconds) * MICRO + td.microseconds


class TdM(Model):
    """timedelta: whole microseconds."""

    m_type = _dt.timedelta

    def __init__(self, us):
        self.us = us

    def c_total_seconds(self, ip):
        return arith("/", self.us, MICRO)

    def m_truth(self, ip):
        return compare("!=", self.us, 0)

    @staticmethod
    def _us(o):
        if isinstance(o, TdM):
            return o.us
        if isinstance(o, _dt.timedelta):
            return td_us(o)
        return None

    def m_eq(self, ip, o):
        u = self._us(o)
        return False if u is None else compare("==", self.us, u)

    def m_order(self, ip, op, o):
        u = self._us(o)
        if u is None:
            raise PyExc(TypeError(f"'{op}' not supported"))
        return compare(op, self.us, u)

    def m_binop(self, ip, op, o, r=False):
        if isinstance(o, (textm.DtM, _dt.datetime)):
            raise Unsupported("span and datetime")
        u = self._us(o)
        if op in "+-" and u is not None:
            a, b = (u, self.us) if r else (self.us, u)
            return TdM(arith(op, a, b))
        if op == "*" and _is_num(o) and kind(o) == "int":
            return TdM(arith("*", self.us, o))
        if op == "/" and u is not None:
            a, b = (u, self.us) if r else (self.us, u)
            return ip.binop("/", a, b)
        raise Unsupported("arithmetic on a span of time")

    def m_subst(self, f):
        return TdM(f(self.us))

    def m_parts(self):
        return [self.us]

    def m_str(self, ip):
        return Cat((Fmt(self, "str"),))


def span_of(v):
    """Seconds as given to pydantic or timedelta (rounded to microseconds)."""
    return TdM(num_floor(arith("+", arith("*", v, MICRO), Fraction(1, 2))))


def c_timedelta(ip, cls, *a, **kw):
    if is_concrete(a) and is_concrete(kw):
        try:
            return _dt.timedelta(*[lower(x) for x in a], **{k: lower(v) for k, v in kw.items()})
        except (TypeError, OverflowError) as e:
            raise PyExc(e) from None
    names = ["days", "seconds", "microseconds", "milliseconds", "minutes", "hours", "weeks"]
    args = {**dict(zip(names, a)), **kw}
    f = {"days": 86400, "seconds": 1, "microseconds": Fraction(1, MICRO), "milliseconds": Fraction(1, 1000), "minutes": 60, "hours": 3600,
         "weeks": 604800}
    s = Fraction(0)
    for k, v in args.items():
        if not _is_num(v):
            raise PyExc(TypeError("unsupported type for timedelta"))
        s = arith("+", s, arith("*", v, f[k]))
    return span_of(s)


CTORS[_dt.timedelta] = c_timedelta


# ------------------------------------------------------------------ yaml

class DumperM(Model):
    """The dumper as seen by representers: gives nodes."""

    m_type = yaml.SafeDumper

    def c_represent_scalar(self, ip, tag, value, style=None):
        return NodeM(tag, value)

    def c_represent_float(self, ip, v):
        return NodeM(None, v)

    c_represent_int = c_represent_str = c_represent_bool = c_represent_float

    def c_represent_none(self, ip, v):
        return NodeM(None, None)

    def c_represent_list(self, ip, v):
        return NodeM(None, represent(ip, list(v)))

    def c_represent_dict(self, ip, v):
        return NodeM(None, represent(ip, v))


class NodeM(Model):
    m_type = yaml.Node

    def __init__(self, tag, value):
        self.tag, self.value = tag, value


def int_of_text(t):
    """The number n if the text is str(n)."""
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        t = t.children()[1]
    if z3.is_app_of(t, z3.Z3_OP_INT_TO_STR):
        return SNum(t.children()[0], "int")
    return None


def read_node(ip, node):
    """What the loader makes of a node."""
    if not isinstance(node, NodeM):
        raise Unsupported("result of representer")
    tag, v = node.tag, node.value
    if tag is None:
        return v
    if tag == "tag:yaml.org,2002:str":
        if isinstance(v, (str, SStr)):
            return v
        if isinstance(v, Cat):
            return filem.as_sstr(ip, v)
    if isinstance(v, str):
        n = yaml.ScalarNode(tag, v)
        try:
            return lift(yaml.constructor.SafeConstructor().construct_object(n, deep=True))
        except (yaml.YAMLError, ValueError) as e:
            raise Unsupported(f"text that is no {tag}: {e}") from None
    if tag == "tag:yaml.org,2002:int" and isinstance(v, SStr):
        n = int_of_text(v.t)
        if n is not None:
            return n
    if tag == "tag:yaml.org,2002:float" and isinstance(v, Cat) and len(v.ps) == 1 and isinstance(v.ps[0], Fmt) and not v.ps[0].spec:
        return v.ps[0].v
    raise Unsupported(f"yaml node {tag}")


ZLOAD = z3.Function("yaml!zone", INT, INT)


def represent(ip, v):
    """The value that is read back for v from its yaml text; RepresenterError where no text exists."""
    from .interp import KeyBox
    if isinstance(v, KeyBox):
        v = v.v
    if isinstance(v, SOpt):
        v = ip.force(v)
    if v is None or isinstance(v, (SStr, filem.SBytes)) or type(v) in (bool, int, Fraction, str):
        return v
    if isinstance(v, (SNum, SBool)):
        if v.np:
            raise PyExc(yaml.representer.RepresenterError("cannot represent an object", v.np))
        return v
    if type(v) in (list, tuple):
        return [represent(ip, x) for x in v]
    if type(v) is dict:
        return {represent(ip, k): represent(ip, x) for k, x in v.items()}
    if isinstance(v, textm.DtM):
        if "datetime" not in {getattr(k, "__name__", "") for k in yaml.SafeDumper.yaml_representers}:
            raise Unsupported("datetime representer")
        return textm.DtM(v.s, v.aware, SNum(ZLOAD(nterm(v.z)), "int") if v.aware else None)
    if isinstance(v, Opaque):
        if v.typ in (_dt.datetime,):
            return v
        if isinstance(v, Cat):
            return filem.as_sstr(ip, v)
        raise Unsupported("unknown value in yaml")
    if isinstance(v, Model):
        fn = yaml.SafeDumper.yaml_representers.get(v.m_type)
        if fn is None:
            raise PyExc(yaml.representer.RepresenterError("cannot represent an object", v.m_type.__name__))
        return read_node(ip, ip.call(fn, [DumperM(), v], {}))
    if isinstance(v, SObj):
        raise PyExc(yaml.representer.RepresenterError("cannot represent an object", v.cls.__name__))
    if is_concrete(v):
        try:
            return lift(yaml.safe_load(yaml.safe_dump(lower(v))))
        except yaml.YAMLError as e:
            raise PyExc(e) from None
    raise Unsupported(f"yaml of {type(v).__name__}")


def _copy(v):
    if isinstance(v, list):
        return [_copy(x) for x in v]
    if isinstance(v, dict):
        return {k: _copy(x) for k, x in v.items()}
    return v


@reg(yaml.safe_dump)
def y_safe_dump(ip, tree, stream=None, **kw):
    ip.trusted.add("yaml.safe_dump / safe_load (texts, numbers, lists, dicts and times are read back as they were; representers of the code are run)")
    txt = filem.YamlText(tree)
    try:
        txt.norm = ("ok", represent(ip, tree))
    except Unsupported as e:
        txt.norm = ("?", str(e))
    if stream is None:
        return txt
    if not isinstance(stream, filem.TextFileM):
        raise Unsupported("yaml stream")
    if stream.e.content != "":
        raise Unsupported("yaml appended")
    stream.e.content = txt
    return None


@reg(yaml.safe_load)
def y_safe_load(ip, text, **kw):
    if isinstance(text, filem.TextFileM):
        text = text.c_read(ip)
    if isinstance(text, filem.YamlText):
        if text.norm[0] != "ok":
            raise Unsupported(f"yaml: {text.norm[1]}")
        return _copy(text.norm[1])
    if isinstance(text, (str, bytes)) and not kw:
        ip.trusted.add("yaml.safe_load (run on concrete text)")
        try:
            return lift(yaml.safe_load(text))
        except yaml.YAMLError as e:
            raise PyExc(e) from None
    raise Unsupported("yaml of symbolic text")


# ------------------------------------------------------------------ text of data trees, hashes

def repr_eq(ip, a, b):
    """The two values are written alike (sufficient condition)."""
    if isinstance(a, SOpt):
        a = ip.force(a)
    if isinstance(b, SOpt):
        b = ip.force(b)
    if type(a) in (list, tuple, dict) or type(b) in (list, tuple, dict):
        if type(a) is not type(b) or len(a) != len(b):
            return False
        if isinstance(a, dict):
            return And(*[And(repr_eq(ip, k, j), repr_eq(ip, x, y)) for (k, x), (j, y) in zip(a.items(), b.items())])
        return And(*[repr_eq(ip, x, y) for x, y in zip(a, b)])
    if isinstance(a, (bool, SBool)) or isinstance(b, (bool, SBool)):
        return isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)) and Iff(a, b)
    if _is_num(a) and _is_num(b):
        return kind(a) == kind(b) and nptag(a) == nptag(b) and compare("==", a, b)
    if isinstance(a, textm.DtM) and isinstance(b, textm.DtM):
        return a.aware == b.aware and And(compare("==", a.s, b.s), (not a.aware) or compare("==", a.z, b.z))
    if isinstance(a, SObj) and isinstance(b, SObj):
        return a is b
    return ip.truth_term(ip.eq_term(a, b))


class ReprText(Model):
    """str() of a data tree."""

    m_type = str

    def __init__(self, tree):
        self.tree = _copy(tree)

    def c_encode(self, ip, *a, **kw):
        return ReprText.Enc(self.tree)

    def m_eq(self, ip, o):
        if isinstance(o, ReprText):
            return ip.truth_term(repr_eq(ip, self.tree, o.tree))
        raise Unsupported("text of a data tree compared")

    class Enc(Model):
        m_type = bytes

        def __init__(self, tree):
            self.tree = tree


_old_str = CTORS[str]


def c_str(ip, cls, x="", *a, **k):
    if not a and not k and type(x) in (dict, list, tuple) and not is_concrete(x):
        return ReprText(x)
    return _old_str(ip, cls, x, *a, **k)


CTORS[str] = c_str


class HashM(Model):
    m_type = type(hashlib.sha3_224())

    def __init__(self, algo, data):
        self.algo, self.data = algo, data

    def c_hexdigest(self, ip):
        if isinstance(self.data, filem.SBytes):
            from .codecm import hexdigest
            return hexdigest(ip, self.algo, self.data)
        return HexM(self.algo, self.data)

    def c_update(self, ip, data):
        if self.data != b"":
            raise Unsupported("hash of several parts")
        self.data = data


class HexM(Model):
    """Hex digits of a hash (taken to be free of collisions; equal inputs give equal hashes)."""

    m_type = str

    def __init__(self, algo, data):
        self.algo, self.data = algo, data

    def m_eq(self, ip, o):
        if isinstance(o, HexM):
            if self.algo != o.algo:
                return False
            a, b = self.data, o.data
            if isinstance(a, ReprText.Enc) and isinstance(b, ReprText.Enc):
                return ip.truth_term(repr_eq(ip, a.tree, b.tree))
        if o is None or _is_num(o):
            return False
        raise Unsupported("hash compared")

    def m_truth(self, ip):
        return True


def _hash(name):
    def f(ip, data=b"", **kw):
        if isinstance(data, (bytes, bytearray)):
            return getattr(hashlib, name)(data)
        ip.trusted.add(f"hashlib.{name} (no collisions)")
        return HashM(name, data)
    return f


for _n in ("sha3_224", "sha3_256", "sha256", "sha1", "md5"):
    reg(getattr(hashlib, _n))(_hash(_n))


# ------------------------------------------------------------------ random identifiers

class UuidM(Model):
    """Random identifier, different from all others."""

    m_type = uuid.UUID

    def m_eq(self, ip, o):
        return o is self

    def m_truth(self, ip):
        return True

    def m_str(self, ip):
        raise Unsupported("text of a random identifier")


@reg(uuid.uuid4)
def u_uuid4(ip):
    ip.trusted.add("uuid.uuid4 (no identifier is drawn twice)")
    return UuidM()
