"""Trusted models: bytes of known length, integers from and to bytes, ELF-images (pwnlib)."""
from __future__ import annotations

import struct

import z3

from . import filem
from .codecm import BYTES
from .core import *  # noqa: F403
from .core import PyExc
from .h5m import Entry, PathM
from .interp import Model
from .intrinsics import BY_NAME, CTORS, reg

_BYTES = bytes
MEM = z3.ArraySort(z3.IntSort(), z3.IntSort())


def byteorder(o):
    if o not in ("little", "big"):
        raise PyExc(ValueError("byteorder must be either 'little' or 'big'"))
    return o


class VBytes(Model):
    """Bytes of known length and symbolic values."""

    m_type = bytes

    def __init__(self, vs):
        self.vs = list(vs)

    @property
    def m_len(self):
        return len(self.vs)

    def m_getitem(self, ip, k):
        if isinstance(k, slice):
            if all(x is None or isinstance(x, int) for x in (k.start, k.stop, k.step)):
                return VBytes(self.vs[k])
        elif isinstance(k, int):
            if not -len(self.vs) <= k < len(self.vs):
                raise PyExc(IndexError("index out of range"))
            return self.vs[k]
        raise Unsupported("index of bytes")

    def m_iter(self, ip):
        return list(self.vs)

    def m_truth(self, ip):
        return len(self.vs) > 0

    def m_eq(self, ip, o):
        if isinstance(o, (bytes, bytearray)):
            o = VBytes(list(o))
        if not isinstance(o, VBytes):
            return NotImplemented if isinstance(o, filem.SBytes) else False
        if len(o.vs) != len(self.vs):
            return False
        return And(*[compare("==", a, b) for a, b in zip(self.vs, o.vs)])

    def m_binop(self, ip, op, o):
        if op == "+" and isinstance(o, (bytes, VBytes)):
            return VBytes(self.vs + list(o if isinstance(o, bytes) else o.vs))
        raise Unsupported("operation on bytes")


def value_of(vs, order, signed=False):
    """The integer a list of bytes stands for."""
    vs = list(vs) if order == "big" else list(vs)[::-1]
    r = 0
    for v in vs:
        r = arith("+", arith("*", r, 256), v)
    if signed and vs:
        r = ite(compare(">=", vs[0], 128), arith("-", r, 256 ** len(vs)), r)
    return r


def from_bytes(ip, bytes=None, byteorder_="big", *, byteorder=None, signed=False):  # noqa: A002
    order = globals()["byteorder"](byteorder or byteorder_)
    if isinstance(bytes, (_BYTES, bytearray)):
        return int.from_bytes(bytes, order, signed=bool(signed))
    if not isinstance(bytes, VBytes):
        raise Unsupported("int of unknown bytes")
    return value_of(bytes.vs, order, signed)


BY_NAME[(int, "from_bytes")] = from_bytes


def to_bytes(ip, v, length=1, byteorder="big", *, signed=False):
    order = globals()["byteorder"](byteorder)
    if not isinstance(length, int) or length > 64:
        raise Unsupported("length of bytes")
    lo, hi = (-(256 ** length) // 2, 256 ** length // 2 - 1) if signed else (0, 256 ** length - 1)
    if not ip.truth(And(compare(">=", v, lo), compare("<=", v, hi))):
        raise PyExc(OverflowError("int too big to convert"))
    bs = [ip.c.fresh_int("byte") for _ in range(length)]
    for b in bs:
        ip.c.assume(And(compare(">=", b, 0), compare("<=", b, 255)))
    ip.c.assume(compare("==", value_of(bs, order, signed), v))
    return VBytes(bs)


# ------------------------------------------------------------------ ELF

IMAGE = z3.Function("elf!image", z3.IntSort(), MEM, BYTES)
MEMOF = z3.Function("elf!mem", BYTES, MEM)


class ElfContent(filem.SBytes):
    """Content of an ELF-file: the bytes at all loaded addresses, and the rest (meta)."""

    def __init__(self, ip, meta, mem):
        self.meta, self.mem = meta, mem
        super().__init__(IMAGE(meta["id"], mem))
        ip.c.axiom(("elf", self.t.get_id()), MEMOF(self.t) == mem)


class SymsM(Model):
    def __init__(self, syms):
        self.syms = syms

    def _find(self, ip, k):
        for n, a in self.syms.items():
            if ip.truth(ip.truth_term(ip.eq_term(k, n))):
                return a
        return None

    def m_getitem(self, ip, k):
        a = self._find(ip, k)
        if a is None:
            raise PyExc(KeyError(k if isinstance(k, str) else "symbol"))
        return a

    def m_contains(self, ip, k):
        return self._find(ip, k) is not None

    def c_get(self, ip, k, d=None):
        a = self._find(ip, k)
        return d if a is None else a

    def c_keys(self, ip):
        return list(self.syms)

    def m_iter(self, ip):
        return list(self.syms)


class ElfM(Model):
    def __init__(self, content):
        self.k = content
        self.mem = content.mem

    def a_symbols(self, ip):
        return SymsM(self.k.meta["syms"])

    def a_endian(self, ip):
        return self.k.meta["endian"]

    def a_arch(self, ip):
        return self.k.meta["arch"]

    def a_elftype(self, ip):
        return self.k.meta["elftype"]

    def c_read(self, ip, address, count):
        if not isinstance(count, int):
            raise Unsupported("read of symbolic length")
        m = self.k.meta
        if ip.truth(m["zero"]):
            return VBytes([0] * count)
        extra = []
        if ip.truth(m["double"]):  # overlapping segments, pwnlib gives the bytes of all of them
            extra = [ip.c.fresh_int("extra") for _ in range(count)]
            for b in extra:
                ip.c.assume(And(compare(">=", b, 0), compare("<=", b, 255)))
        out = []
        for i in range(count):
            b = SNum(z3.Select(self.mem, iterm(arith("+", address, i))), "int")
            ip.c.assume(And(compare(">=", b, 0), compare("<=", b, 255)))
            out.append(b)
        return VBytes(extra + out)

    def c_write(self, ip, address, data):
        if isinstance(data, bytes):
            data = VBytes(list(data))
        if not isinstance(data, VBytes):
            raise Unsupported("write of unknown bytes")
        if ip.truth(self.k.meta["zero"]):
            raise PyExc(AttributeError("'bytes' object has no attribute 'header'"))
        for i, b in enumerate(data.vs):
            self.mem = z3.Store(self.mem, iterm(arith("+", address, i)), iterm(b))

    def c_save(self, ip, path=None):
        if not isinstance(path, PathM):
            raise Unsupported("save of an elf")
        filem.open_path(ip, path, "wb").c_write(ip, ElfContent(ip, self.k.meta, self.mem))

    def c_close(self, ip):
        return None


def iterm(v):
    return v.t if isinstance(v, SNum) else z3.IntVal(int(v))


def register(ELF, ELFError):
    def ctor(ip, cls, path=None, **kw):
        if not isinstance(path, PathM):
            raise Unsupported("elf outside the ghost directory")
        ip.trusted.add("pwnlib.elf.ELF")
        if not ip.truth(path.c_exists(ip)):
            raise PyExc(FileNotFoundError("elf"))
        e = path.fs.lookup(ip, path.nm)
        if e is None or e.kind != "file":
            raise Unsupported("elf of unknown content")
        if isinstance(e.content, ElfContent):
            return ElfM(e.content)
        if e.content is None or isinstance(e.content, (str, bytes)):
            raise PyExc(ELFError("Magic number does not match"))
        raise Unsupported("elf of unknown content")
    CTORS[ELF] = ctor


# ------------------------------------------------------------------ builders for contracts

class SymElf:
    """An ELF-file with one symbol (or without)."""

    def __init__(self, t, fs, name, symbol):
        self.t, self.fs = t, fs
        ip = t.ip
        self.endian = t.choice("endian", ["little", "big"])
        self.addr = t.int("address", lo=0, hi=2**32 - 16)
        self.has = t.branch(t.bool("has symbol"))
        self.zero = t.branch(t.bool("symbol without stored value"))
        meta = {"id": z3.Const("elf!rest", z3.IntSort()), "endian": self.endian, "arch": t.choice("arch", ["arm", "em_msp430"]), "elftype": t.choice("elftype", ["EXEC", "DYN"]),
                "zero": self.zero, "double": t.bool("overlapping segments"),
                "syms": {**({symbol: self.addr} if self.has else {}), "main": t.int("main", lo=0, hi=2**32 - 16)}}
        self.arch, self.elftype = meta["arch"], meta["elftype"]
        self.mem = z3.Const("elf!memory", MEM)
        self.content = ElfContent(ip, meta, self.mem)
        e = Entry("file")
        e.content = self.content
        fs.fs.add(name, e)
        self.path = fs.path(name)

    def _content(self, path):
        e = self.fs.fs.lookup(self.t.ip, path.nm)
        c = None if e is None else e.content
        self.t.ensure("still an elf-file", isinstance(c, ElfContent))
        if not isinstance(c, ElfContent):
            raise Unsupported("content of the elf")
        return c

    def value(self, path):
        c = self._content(path)
        bs = [SNum(z3.Select(c.mem, iterm(arith("+", self.addr, i))), "int") for i in range(2)]
        for b in bs:
            self.t.assume(And(compare(">=", b, 0), compare("<=", b, 255)))
        return value_of(bs, self.endian)

    def rest_kept(self, path):
        c = self._content(path)
        a = z3.Int("any!address")
        lo = iterm(self.addr)
        return mkbool(z3.And(c.meta["id"] == self.content.meta["id"],
                             z3.ForAll([a], z3.Implies(z3.Or(a < lo, a >= lo + 2), z3.Select(c.mem, a) == z3.Select(self.mem, a)))))

    def same(self, path):
        c = self._content(path)
        return mkbool(z3.And(c.meta["id"] == self.content.meta["id"], c.mem == self.mem))


def build_elf(endian, machine, etype, vaddr, data, sym, off, bss, more=None):
    """A minimal ELF32 with one segment (or a second one) and a symbol table; returns (file, offset of the segment)."""
    en = "<" if endian == "little" else ">"
    names = [b"", b"main"] + ([sym.encode()] if sym else [])
    strtab, pos = b"", {}
    for n in names:
        pos[n] = len(strtab)
        strtab += n + b"\0"
    shstr = b"\0.data\0.symtab\0.strtab\0.shstrtab\0.more\0"
    symtab = struct.pack(en + "IIIBBH", 0, 0, 0, 0, 0, 0) + struct.pack(en + "IIIBBH", pos[b"main"], vaddr, 2, 0x12, 0, 1)
    if sym:
        symtab += struct.pack(en + "IIIBBH", pos[sym.encode()], vaddr + off, 2, 0x11, 0, 1)
    segs = [(vaddr, data), *([more] if more else [])]
    body = b""

    def put(b):
        nonlocal body
        o = 52 + 32 * len(segs) + len(body)
        body += b
        return o
    fdata = b"" if bss else data
    o_data = put(fdata)
    o_more = put(more[1]) if more else 0
    o_sym, o_str, o_shs = put(symtab), put(strtab), put(shstr)

    def ph(o, va, fs, ms):
        return struct.pack(en + "IIIIIIII", 1, o, va, va, fs, ms, 7, 1)

    def sh(name, typ, flags, addr, off_, size, link=0, info=0, ent=0):
        return struct.pack(en + "IIIIIIIIII", shstr.index(name) if name else 0, typ, flags, addr, off_, size, link, info, 1, ent)
    phs = ph(o_data, vaddr, len(fdata), len(data)) + (ph(o_more, more[0], len(more[1]), len(more[1])) if more else b"")
    secs = sh(b"", 0, 0, 0, 0, 0) + sh(b".data\0", 8 if bss else 1, 3, vaddr, o_data, len(data)) + sh(b".symtab\0", 2, 0, 0, o_sym, len(symtab), 3, 1, 16)
    secs += sh(b".strtab\0", 3, 0, 0, o_str, len(strtab)) + sh(b".shstrtab\0", 3, 0, 0, o_shs, len(shstr))
    if more:
        secs += sh(b".more\0", 1, 3, more[0], o_more, len(more[1]))
    o_sh = put(b"")
    hdr = b"\x7fELF" + bytes([1, 1 if endian == "little" else 2, 1]) + b"\0" * 9
    hdr += struct.pack(en + "HHIIIIIHHHHHH", etype, machine, 1, vaddr, 52, o_sh, 0, 52, 32, len(segs), 40, 5 + bool(more), 4)
    return hdr + phs + body + secs, o_data


class NatElf:
    def __init__(self, t, fs, name, symbol):
        self.t, self.fs = t, fs
        r = t.rng
        self.endian = t.choice("endian", ["little", "big"])
        t.int("address", lo=0, hi=2**32 - 16)
        self.has = t.branch(t.bool("has symbol"))
        self.zero = t.branch(t.bool("symbol without stored value"))
        self.arch = t.choice("arch", ["arm", "em_msp430"])
        self.elftype = t.choice("elftype", ["EXEC", "DYN"])
        t.bool("overlapping segments")
        t.int("main", lo=0, hi=2**32 - 16)
        n = r.randint(8, 60)
        data = bytes(r.randrange(256) for _ in range(n))
        off = r.randint(2, n - 2)
        raw, o = build_elf(self.endian, 40 if self.arch == "arm" else 105, 2 if self.elftype == "EXEC" else 3, 0x4000 * r.randint(1, 9), data, symbol if self.has else None, off, self.zero)
        self.pos = o + off
        self.raw = raw
        self.path = fs.file(name, raw)

    def value(self, path):
        return int.from_bytes(path.read_bytes()[self.pos:self.pos + 2], self.endian)

    def rest_kept(self, path):
        b = path.read_bytes()
        return len(b) == len(self.raw) and b[:self.pos] == self.raw[:self.pos] and b[self.pos + 2:] == self.raw[self.pos + 2:]

    def same(self, path):
        return path.read_bytes() == self.raw


def _shown(fn):
    def f(ip, v):
        if isinstance(v, int):
            return fn(v)
        return Opaque(str, fn.__name__)
    return f


for _f in (hex, bin, oct):
    reg(_f)(_shown(_f))
