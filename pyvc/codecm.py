"""Trusted models: compression, base64, hashes of symbolic bytes (uninterpreted functions with their inverses)."""
from __future__ import annotations

import base64
import binascii
import hashlib

import z3
import zstandard

from . import filem
from .core import *  # noqa: F403
from .core import PyExc
from .interp import Model
from .intrinsics import CTORS, reg

BYTES = z3.DeclareSort("Bytes")
STR = z3.StringSort()
ZC = z3.Function("zstd!compress", BYTES, z3.IntSort(), BYTES)
ZD = z3.Function("zstd!decompress", BYTES, BYTES)
ZOK = z3.Function("zstd!valid", BYTES, z3.BoolSort())
BE = z3.Function("b64!encode", BYTES, STR)
BD = z3.Function("b64!decode", STR, BYTES)
BOK = z3.Function("b64!valid", STR, z3.BoolSort())
SHA = {n: z3.Function(n, BYTES, STR) for n in ("sha3_224", "sha3_256", "sha256", "sha1", "md5")}
UNSHA = {n: z3.Function("un" + n, STR, BYTES) for n in SHA}
LEN = z3.Function("bytes!len", BYTES, z3.IntSort())


def const(ip, b):
    """Term of concrete bytes (different constants are different)."""
    ks = ip.c.__dict__.setdefault("bytes_consts", {})
    if b not in ks:
        t = z3.Const(f"bytes!{len(ks)}", BYTES)
        for o in ks.values():
            ip.c.axiom(("bytes", t.get_id(), o.get_id()), t != o)
        ip.c.axiom(("byteslen", t.get_id()), LEN(t) == len(b))
        ks[b] = t
    return ks[b]


def term(ip, b):
    return b.t if isinstance(b, filem.SBytes) else const(ip, bytes(b))


class BText(Model):
    """ASCII bytes of a symbolic text."""

    m_type = bytes

    def __init__(self, s):
        self.s = s

    def c_decode(self, ip, enc="utf-8", errors="strict"):
        return SStr(self.s)

    def m_truth(self, ip):
        raise Unsupported("truth of bytes")


class ZComp(Model):
    m_type = zstandard.ZstdCompressor

    def __init__(self, level=3, **kw):
        if kw:
            raise Unsupported("options of zstd")
        if not isinstance(level, int):
            raise Unsupported("level of zstd")
        if level > 22:
            raise PyExc(ValueError("level must be less than 23"))
        self.level = level

    def c_compress(self, ip, data):
        if isinstance(data, bytes):
            return zstandard.ZstdCompressor(level=self.level).compress(data)
        if not isinstance(data, filem.SBytes):
            raise Unsupported("compression of unknown data")
        ip.trusted.add("zstandard (decompress inverts compress)")
        t = ZC(data.t, self.level)
        ip.c.axiom(("zc", t.get_id()), z3.And(ZOK(t), ZD(t) == data.t))
        return filem.SBytes(t)


class ZDec(Model):
    m_type = zstandard.ZstdDecompressor

    def c_decompress(self, ip, data):
        if isinstance(data, bytes):
            try:
                return zstandard.ZstdDecompressor().decompress(data)
            except zstandard.ZstdError as e:
                raise PyExc(e) from None
        if not isinstance(data, filem.SBytes):
            raise Unsupported("decompression of unknown data")
        ip.trusted.add("zstandard (decompress inverts compress)")
        if not ip.truth(mkbool(ZOK(data.t))):
            raise PyExc(zstandard.ZstdError("error determining content size from frame header"))
        return filem.SBytes(ZD(data.t))


CTORS[zstandard.ZstdCompressor] = lambda ip, cls, level=3, **kw: ZComp(level, **kw)
CTORS[zstandard.ZstdDecompressor] = lambda ip, cls: ZDec()


@reg(base64.b64encode)
def b64encode(ip, data, altchars=None):
    if isinstance(data, (bytes, bytearray)) and altchars is None:
        return base64.b64encode(data)
    if not isinstance(data, filem.SBytes) or altchars is not None:
        raise Unsupported("base64 of unknown data")
    ip.trusted.add("base64 (decoding inverts encoding)")
    s = BE(data.t)
    ip.c.axiom(("b64", s.get_id()), z3.And(BOK(s), BD(s) == data.t, z3.Length(s) >= 0))
    return BText(s)


@reg(base64.b64decode)
def b64decode(ip, s, altchars=None, validate=False):
    if altchars is not None or validate is not False:
        raise Unsupported("options of base64")
    if isinstance(s, (str, bytes)):
        try:
            return base64.b64decode(s)
        except ValueError as e:
            raise PyExc(e) from None
    if isinstance(s, BText):
        s = SStr(s.s)
    if not isinstance(s, SStr):
        raise Unsupported("base64 of unknown data")
    ip.trusted.add("base64 (decoding inverts encoding)")
    if not ip.truth(mkbool(BOK(s.t))):
        raise PyExc(binascii.Error("Incorrect padding"))
    return filem.SBytes(BD(s.t))


def hexdigest(ip, algo, data):
    if algo not in SHA:
        raise Unsupported(f"hash {algo}")
    t = SHA[algo](data.t)
    ip.c.axiom(("sha", t.get_id()), z3.And(UNSHA[algo](t) == data.t, z3.Length(t) == 2 * getattr(hashlib, algo)().digest_size))
    return SStr(t)
