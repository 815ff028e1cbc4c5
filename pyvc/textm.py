"""Trusted models: paths of symbolic text and points in time."""
from __future__ import annotations

import datetime as _dt
import pathlib

import z3

from .core import *  # noqa: F403
from .core import _is_num
from .h5m import DirM, PathM
from .interp import Model
from .intrinsics import BY_NAME, CTORS


def pieces(v):
    """Text as a list of literal and symbolic parts."""
    if isinstance(v, str):
        return [v] if v else []
    t = v.t if isinstance(v, SStr) else v
    if z3.is_string_value(t):
        return pieces(t.as_string())
    if z3.is_app_of(t, z3.Z3_OP_SEQ_CONCAT):
        out = []
        for a in t.children():
            for p in pieces(a):
                if out and isinstance(p, str) and isinstance(out[-1], str):
                    out[-1] += p
                else:
                    out.append(p)
        return out
    return [SStr(t)]


def joined(ps):
    if all(isinstance(p, str) for p in ps):
        return "".join(ps)
    ts = [z3.StringVal(p) if isinstance(p, str) else p.t for p in ps]
    return SStr(ts[0] if len(ts) == 1 else z3.Concat(*ts))


def known(ip, t):
    """Nonempty text without separators."""
    ks = ip.c.__dict__.setdefault("nosep", {})
    if t.get_id() not in ks:
        ks[t.get_id()] = (ip.c.quick_valid(mkbool(z3.Not(z3.Contains(t, z3.StringVal("/"))))), t)
    return ks[t.get_id()][0]


def note_plain(ip, t):
    ip.c.__dict__.setdefault("nosep", {})[t.get_id()] = (True, t)
    ip.c.axiom(("plain", t.get_id()), z3.And(z3.Length(t) >= 1, z3.Not(z3.Contains(t, z3.StringVal("/")))))


def matches(ip, pattern, v):
    """The text matches the pattern (an uninterpreted predicate; of negated character classes, that '/' is excluded)."""
    import re
    if isinstance(v, str):
        return re.search(pattern, v) is not None
    p = z3.Function("matches!" + pattern, z3.StringSort(), z3.BoolSort())(v.t)
    m = re.fullmatch(r"\^\[\^(.*)\]\+\$", pattern)
    if m and "\\/" in m.group(1):
        ip.c.axiom(("pat", p.get_id()), z3.Implies(p, z3.And(z3.Length(v.t) >= 1, z3.Not(z3.Contains(v.t, z3.StringVal("/"))))))
    return mkbool(p)


def letters_any_case(x, t):
    """The text t holds x, upper and lower case taken as equal."""
    sort = z3.ReSort(z3.StringSort())
    re = [z3.Full(sort)]
    for ch in x:
        both = sorted({ch.lower(), ch.upper()})
        re.append(z3.Re(both[0]) if len(both) == 1 else z3.Union(*[z3.Re(b) for b in both]))
    return mkbool(z3.InRe(t, z3.Concat(*re, z3.Full(sort))))


def within_lower(x, t):
    """x in u.lower(), for plain lower-case x (no other letter than A-Z lower-cases into these, 'k' and a final 'i' aside)."""
    if z3.is_app(t) and t.decl().name() == "str_lower" and x and x.isascii() and x.islower() and "k" not in x and x[-1] != "i":
        return letters_any_case(x, t.arg(0))
    return None


class SPathM(Model):
    """Path whose text is partly symbolic (symbolic parts are free of separators, checked on construction)."""

    m_type = pathlib.PosixPath

    def __init__(self, ip, text):
        ps = pieces(text)
        for p in ps:
            if isinstance(p, SStr) and not known(ip, p.t):
                raise Unsupported("path part that may contain separators")
        norm, at_start = [], True
        for k, p in enumerate(ps):
            if isinstance(p, str):
                body = p if at_start else "x" + p
                if "//" in body or "/./" in body or (at_start and k == 0 and p.startswith("./")):
                    raise Unsupported("path text that is not normalised")
            norm.append(p)
            at_start = False
        if norm and isinstance(norm[-1], str) and norm[-1].endswith("/") and len(norm) > 1:
            raise Unsupported("path with trailing separator")
        self.ps = norm

    @property
    def text(self):
        return joined(self.ps)

    def m_eq(self, ip, o):
        if isinstance(o, pathlib.PurePath):
            return ip.eq_term(self.text, o.as_posix())
        if isinstance(o, SPathM):
            return ip.eq_term(self.text, o.text)
        return False

    def m_binop(self, ip, op, o, r=False):
        if op != "/":
            raise Unsupported("path operator")
        if r:
            if isinstance(self.ps[0], str) and self.ps[0].startswith("/"):
                return self
            return SPathM(ip, joined([*pieces(str(o)), "/", *self.ps]))
        return SPathM(ip, cat(self.ps, ["/"], rel(ip, o)))

    def last(self):
        """Parts of the final component."""
        out = []
        for p in reversed(self.ps):
            if isinstance(p, str) and "/" in p:
                out.append(p.rsplit("/", 1)[1])
                break
            out.append(p)
        return [p for p in reversed(out) if not isinstance(p, str) or p]

    def a_name(self, ip):
        return joined(self.last())

    def a_suffix(self, ip):
        ps = self.last()
        if not ps or not isinstance(ps[-1], str) or "." not in ps[-1]:
            raise Unsupported("suffix of symbolic name")
        head, tail = ps[-1].rsplit(".", 1)
        return "." + tail if tail and (head.strip(".") or len(ps) > 1) else ""

    def c_with_suffix(self, ip, s):
        old = self.a_suffix(ip)
        ps = list(self.ps)
        if old:
            ps[-1] = ps[-1][:-len(old)]
        return SPathM(ip, joined([p for p in [*ps, s] if not isinstance(p, str) or p]))

    def a_parent(self, ip):
        n = len(self.last())
        raise Unsupported(f"parent of symbolic path ({n})")

    def m_str(self, ip):
        return self.text

    def c_as_posix(self, ip):
        return self.text

    def c_is_absolute(self, ip):
        if isinstance(self.ps[0], str):
            return self.ps[0].startswith("/")
        return False

    def as_path(self, ip):
        return self


def cat(*pss):
    out = []
    for ps in pss:
        for p in ps:
            if out and isinstance(p, str) and isinstance(out[-1], str):
                out[-1] += p
            else:
                out.append(p)
    return joined(out)


def rel(ip, o):
    if isinstance(o, SPathM):
        ps = o.ps
    elif isinstance(o, pathlib.PurePath):
        ps = [o.as_posix()]
    else:
        ps = pieces(o)
    if not ps or (isinstance(ps[0], str) and ps[0].startswith(("/", "."))):
        raise Unsupported("path part")
    if isinstance(ps[0], SStr) and not known(ip, ps[0].t) and not ip.c.quick_valid(mkbool(z3.Length(ps[0].t) >= 1)):
        raise Unsupported("path part that may be empty")
    return ps


def path_binop(ip, a, b):
    """native path / symbolic text"""
    base = a.as_posix()
    return SPathM(ip, cat([] if base == "." else [base if base == "/" else base + "/"], rel(ip, b)))


_old = CTORS[pathlib.Path]


def _path_ctor(ip, cls, *a):
    if len(a) == 1 and isinstance(a[0], SPathM):
        return a[0]
    if len(a) == 1 and isinstance(a[0], SStr):
        return SPathM(ip, a[0])
    return _old(ip, cls, *a)


CTORS[pathlib.Path] = CTORS[pathlib.PosixPath] = _path_ctor


# ---------------------------------------------------------------------- points in time

LOCALZ = z3.Int("zone!local")
_ZONES: dict = {}


def zone_id(tz):
    """Zones by offset and name."""
    if tz is _dt.timezone.utc:
        return 0
    return _ZONES.setdefault(repr(tz), len(_ZONES) + 1)


class DtM(Model):
    """A point in time (seconds since 1970 as a real), with or without time zone; z identifies the zone it is written in."""

    m_type = _dt.datetime

    def __init__(self, secs, aware, z=None):
        self.s, self.aware = secs, aware
        self.z = (SNum(LOCALZ, "int") if z is None else z) if aware else None

    def a_tzinfo(self, ip):
        return _dt.timezone.utc if self.aware else None

    def c_utcoffset(self, ip):
        if not self.aware:
            return None
        raise Unsupported("offset of a time zone")

    def c_astimezone(self, ip, tz=None):
        return DtM(self.s, True, zone_id(tz) if isinstance(tz, _dt.tzinfo) else None)

    def c_timestamp(self, ip):
        return self.s

    def m_binop(self, ip, op, o, r=False):
        from .datam import TdM
        if isinstance(o, _dt.timedelta) and op in "+-" and not (r and op == "-"):
            k = frac(o.total_seconds())
            return DtM(ip.binop(op, self.s, k), self.aware, self.z)
        if isinstance(o, TdM) and op in "+-" and not (r and op == "-"):
            return DtM(ip.binop(op, self.s, arith("/", o.us, 10 ** 6)), self.aware, self.z)
        raise Unsupported("datetime arithmetic")

    def _other(self, o, order=False):
        if isinstance(o, DtM):
            return o.s, o.aware
        if isinstance(o, _dt.datetime):
            return frac(o.timestamp()), o.tzinfo is not None
        return None, None

    def m_order(self, ip, op, o):
        s, aw = self._other(o)
        if s is None:
            raise PyExc(TypeError("'<' not supported between datetime and other type"))
        if aw != self.aware:
            raise PyExc(TypeError("can't compare offset-naive and offset-aware datetimes"))
        return compare(op, self.s, s)

    def m_eq(self, ip, o):
        s, aw = self._other(o)
        return s is not None and aw == self.aware and compare("==", self.s, s)

    def m_subst(self, f):
        return DtM(f(self.s), self.aware, f(self.z) if self.aware else None)

    def m_parts(self):
        return [self.s] if not self.aware else [self.s, self.z]

    def c_isoformat(self, ip, *a):
        return Cat((Fmt(self, "isoformat" + repr(a)),))

    def c_strftime(self, ip, fmt):
        if "%f" in fmt or ":" in fmt:
            return Cat((Fmt(self, fmt),))
        f = z3.Function("strftime!" + fmt, z3.RealSort(), z3.IntSort(), z3.StringSort())
        t = f(rterm(self.s), nterm(self.z) if self.aware else LOCALZ)
        if not set("%Y%m%d%H%M%S").issuperset(c for i, c in enumerate(fmt) if c == "%" or (i and fmt[i - 1] == "%")) or "/" in fmt:
            raise Unsupported("time format")
        note_plain(ip, t)
        return SStr(t)

    def m_str(self, ip):
        return Opaque(str, "time")


def now(ip, tz=None):
    """The clock: arbitrary, never running backwards."""
    v = ip.c.fresh_real("now")
    last = ip.__dict__.get("clock")
    if last is not None:
        ip.c.assume(compare(">=", v, last))
    ip.__dict__["clock"] = v
    return DtM(v, tz is not None)


BY_NAME[(_dt.datetime, "now")] = now


def fromisoformat(ip, s):
    """What isoformat() wrote reads back as the same moment."""
    ps = s.ps if isinstance(s, Cat) else ()
    if len(ps) == 1 and isinstance(ps[0], Fmt) and isinstance(ps[0].v, DtM) and ps[0].spec == "isoformat()":
        return ps[0].v
    raise Unsupported("datetime.fromisoformat")


BY_NAME[(_dt.datetime, "fromisoformat")] = fromisoformat
