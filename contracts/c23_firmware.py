"""C23: firmware is kept bit-exactly when embedded, only the id is patched in images."""
import base64
import hashlib

import zstandard
from pyvc import binm
from pyvc.contract import contract
from pyvc.core import And, Implies, Not, Or

from shepherd_core.data_models.content.firmware import Firmware
from shepherd_core.data_models.content.firmware_datatype import FirmwareDType
from shepherd_core.data_models.testbed.mcu import MCU
from shepherd_core.fw_tools import converter, patcher, validation
from shepherd_core.testbed_client.client_abc_fix import FixturesClient

if patcher.ELF is not None:
    binm.register(patcher.ELF, validation.ELFError)

V = "shepherd_core.fw_tools.converter:"
P = "shepherd_core.fw_tools.patcher:"
F = "shepherd_core.data_models.content.firmware:Firmware."
B64 = [FirmwareDType.base64_hex, FirmwareDType.base64_elf]
SUFFIX = {FirmwareDType.base64_hex: ".hex", FirmwareDType.base64_elf: ".elf", FirmwareDType.path_hex: ".hex", FirmwareDType.path_elf: ".elf"}


def packed(t, raw):
    """The text a firmware is embedded as."""
    return t.m(t.call(base64.b64encode, t.m(t.new(zstandard.ZstdCompressor, level=20), "compress", raw)), "decode", "ascii")


def bound(t, text):
    t.assume(And(t.len(text) >= 3, t.len(text) <= 8_000_000))


# ---------------------------------------------------------------- files

@contract("C23", "a file is the same after embedding and extracting", on=[V + "file_to_base64", V + "base64_to_file", V + "file_to_hash", V + "base64_to_hash"], samples=80)
def there_and_back(t):
    fs = t.fs()
    raw = t.bytes("raw")
    p = fs.file("fw.elf", raw)
    old = t.branch(t.bool("target exists"))
    q = fs.file("out.bin", t.bytes("old")) if old else fs.path(t.choice("target", ["out.bin", "new/out.bin"]))
    s = t.call(converter.file_to_base64, p)
    t.ensure("the file is not changed by embedding", fs.untouched(p))
    t.ensure("the hash is the one of the bytes", t.eq(t.call(converter.base64_to_hash, s), t.call(converter.file_to_hash, p)))
    t.ensure("hash of the content", t.eq(t.call(converter.file_to_hash, p), t.m(t.call(hashlib.sha3_224, raw), "hexdigest")))
    t.call(converter.base64_to_file, s, q)
    t.ensure("the same bytes", t.eq(fs.content(q), raw))
    t.ensure("no other file is touched", fs.all_untouched(q))


@contract("C23", "missing files are refused", on=[V + "file_to_base64", V + "file_to_hash"], samples=10)
def missing(t):
    fs = t.fs()
    f = t.choice("fn", [converter.file_to_base64, converter.file_to_hash])
    p = fs.directory("d") if t.choice("what", ["none", "directory"]) == "directory" else fs.path("none.hex")
    r = t.attempt(f, p)
    t.ensure("refused", r.raised(ValueError))
    t.ensure("nothing is written", fs.all_untouched())


@contract("C23", "extraction of embedded data: the same bytes under the suffix of the type", on=[V + "extract_firmware", V + "base64_to_file"], samples=80)
def extraction(t):
    fs = t.fs()
    raw = t.bytes("raw")
    s = packed(t, raw)
    dt = t.choice("type", B64)
    nm = t.choice("name", ["fw", "fw.hex", "fw.elf", "a.b.c", "new/fw", "fw.HEX"])
    x = fs.file("else.hex", t.bytes("else"))
    r = t.call(converter.extract_firmware, s, dt, fs.path(nm))
    base = nm.rsplit(".", 1)[0] if "." in nm else nm
    want = fs.path(base + SUFFIX[dt])
    t.ensure("suffix of the type", t.eq(r, want))
    t.ensure("the same bytes", t.eq(fs.content(want), raw))
    t.ensure("no other file is touched", And(fs.all_untouched(want), fs.untouched(x)))


@contract("C23", "extraction of data given by its location: a copy under the suffix of the type", on=[V + "extract_firmware"], samples=60)
def extraction_path(t):
    fs = t.fs()
    raw = t.bytes("raw")
    src = fs.file("src.bin", raw)
    dt = t.choice("type", [FirmwareDType.path_hex, FirmwareDType.path_elf])
    data = t.m(src, "as_posix") if t.choice("as", ["path", "text"]) == "text" else src
    nm = t.choice("name", ["fw", "fw.hex", "fw.elf", "a.b.c", "fw.HEX"])
    r = t.call(converter.extract_firmware, data, dt, fs.path(nm))
    want = fs.path((nm.rsplit(".", 1)[0] if "." in nm else nm) + SUFFIX[dt])
    t.ensure("suffix of the type", t.eq(r, want))
    t.ensure("the same bytes", t.eq(fs.content(want), raw))
    t.ensure("the source is untouched", fs.untouched(src))


# ---------------------------------------------------------------- the model

STORE = {n: MCU(name=n).model_dump() for n in ("nRF52", "MSP430FR")}


def setting(t):
    store = t.host(lambda: STORE)

    def try_completing_model(self, model_type, values):
        name = values.get("name") if model_type == "MCU" else None
        for k, v in store.items():
            if name is not None and name.lower() == k.lower():
                return {**v, **values}, []
        return values, []
    t.stub(FixturesClient.try_completing_model, try_completing_model, by="C21 (supplied values, for controllers the stored entries)")


def firmware(t, **kw):
    return t.attempt(Firmware, name="fw_x", mcu=t.host(lambda: STORE["nRF52"]), **kw)


def near(h, r):
    """Hashes that are or nearly are the given one."""
    k = r.randrange(56)
    return r.choice([h, h[:r.randint(1, 55)], h[1:], h[::-1], h.upper(), h[:k] + ("0" if h[k] != "0" else "1") + h[k + 1:], "".join(r.choice("0123456789abcdef") for _ in range(56)), "None"])


@contract("C23", "a firmware is accepted only with the hash of its bytes", on=[F + "query_database", F + "compare_hash"], samples=80)
def accepted(t):
    setting(t)
    raw = t.bytes("raw")
    s = packed(t, raw)
    bound(t, s)
    right = t.m(t.call(hashlib.sha3_224, raw), "hexdigest")
    which = t.choice("hash", ["right", "none", "other"])
    h = right if which == "right" else None if which == "none" else t.text("other hash", maxlen=56, gen=lambda r: near(right, r))
    r = firmware(t, data=s, data_type=t.choice("type", B64), **({} if which == "none" and t.choice("absent", [0, 1]) else {"data_hash": h}))
    if which == "other":
        t.ensure("accepted if and only if the hash fits", r.ok == t.branch(t.eq(h, right)))
        t.ensure("refused as a wrong value", Or(r.ok, r.raised(ValueError)))
    else:
        t.ensure("accepted", r.ok)
    if r.ok:
        t.ensure("data as given", t.eq(t.get(r.value, "data"), s))
        t.ensure("the hash fits", t.eq(t.m(r.value, "compare_hash"), True))


@contract("C23", "data that is no embedded firmware is refused", on=[F + "query_database", V + "base64_to_hash"], samples=60)
def faulty(t):
    setting(t)
    what = t.choice("fault", ["no base64", "not compressed", "nothing", "number"])
    if what == "not compressed":
        raw = t.bytes("raw")
        if t.sym:
            from pyvc.codecm import ZOK
            from pyvc.core import mkbool
            t.assume(Not(mkbool(ZOK(raw.t))))
        else:
            raw = b"x" + raw
        s = t.m(t.call(base64.b64encode, raw), "decode", "ascii")
    else:
        s = {"no base64": "abcde", "nothing": None, "number": 5}[what]
    r = firmware(t, data=s, data_type=t.choice("type", B64))
    t.ensure("refused", Not(r.ok))
    t.ensure("as a wrong value", r.raised(ValueError))


@contract("C23", "a firmware made from a file gives the same file back", on=[F + "from_firmware", F + "extract_firmware", F + "compare_hash", V + "extract_firmware"], samples=60)
def from_file(t):
    setting(t)
    fs = t.fs()
    arch = t.choice("arch", ["msp430", "nrf52", "none"])
    sfx = t.choice("suffix", [".hex", ".ihex", ".HEX", ".elf", ".out", ".ELF"])
    raw = t.bytes("raw") if t.sym else image(t, arch, sfx)
    p = fs.file("my_fw" + sfx, raw)
    hexed = sfx.lower() in (".hex", ".ihex")
    t.stub(validation.is_hex_msp430, lambda file: arch == "msp430", by="form of the file (intelhex)")
    t.stub(validation.is_hex_nrf52, lambda file: arch != "none", by="form of the file (intelhex)")
    t.stub(validation.is_elf_msp430, lambda file: arch == "msp430", by="form of the file (objcopy, intelhex)")
    t.stub(validation.is_elf_nrf52, lambda file: arch == "nrf52", by="form of the file (objcopy, intelhex)")
    t.stub(patcher.read_arch, lambda file_elf: {"msp430": "em_msp430", "nrf52": "arm"}.get(arch), by="form of the file (pwnlib)")
    if not hexed and arch == "none":
        return
    embed = t.choice("embed", [True, False])
    if t.sym:
        bound(t, packed(t, raw))
    kw = {"mcu": {"name": "nrf52"}} if t.choice("mcu", [0, 1]) else {}
    if t.choice("named", [0, 1]):
        kw["name"] = "another name"
    r = t.attempt(Firmware.from_firmware, p, embed=embed, **kw)
    if hexed and arch == "none":
        t.ensure("no firmware of a foreign file", r.raised(ValueError))
        return
    t.ensure("accepted", r.ok)
    if not r.ok:
        return
    fw = r.value
    t.ensure("hash of the content", t.eq(t.get(fw, "data_hash"), t.m(t.call(hashlib.sha3_224, raw), "hexdigest")))
    t.ensure("type of the data", t.eq(t.get(fw, "data_type"), ("hex" if hexed else "elf") if embed else ("path_hex" if hexed else "path_elf")))
    t.ensure("local, if not embedded", t.eq(t.get(fw, "data_local"), not embed))
    t.ensure("name", t.eq(t.get(fw, "name"), kw.get("name", "my_fw" + sfx)))
    t.ensure("controller of the file", t.eq(t.m(t.get(t.get(fw, "mcu"), "name"), "lower"), {"msp430": "msp430fr", "nrf52": "nrf52"}[arch] if not kw.get("mcu") else "nrf52"))
    where = t.choice("to", ["file", "directory"])
    if where == "directory":
        fs.directory("out")
    q = t.attempt_m(fw, "extract_firmware", fs.path("out"))
    t.ensure("can be extracted", q.ok)
    if not q.ok:
        return
    end = ".hex" if hexed else ".elf"
    nm = kw.get("name", "my_fw")
    want = fs.path(f"out/{nm}{end}" if where == "directory" else "out" + end)
    t.ensure("suffix of the type", t.eq(q.value, want))
    t.ensure("the same bytes", t.eq(fs.content(want), raw))
    t.ensure("the source is untouched", fs.untouched(p))
    if embed:
        t.ensure("hash fits", t.eq(t.m(fw, "compare_hash"), True))
    t.ensure("hash of the file fits", t.eq(t.m(fw, "compare_hash", want), True))
    other = t.bytes("other")
    o = fs.file("other.hex", other)
    t.ensure("other files are detected by their hash", t.eq(t.m(fw, "compare_hash", o), t.eq(other, raw)))


def image(t, arch, sfx):
    """A file as made by compilers."""
    import io

    from intelhex import IntelHex
    r = t.rng
    start = 0x4000 if arch == "msp430" else r.choice([0, 0x1000])
    n = r.randint(2, 200)
    if sfx.lower() in (".hex", ".ihex"):
        if arch == "none":
            return b"garbage"
        ih = IntelHex()
        for i in range(n):
            ih[start + i] = r.randrange(256)
        if arch == "msp430":
            ih[0xFFFE], ih[0xFFFF] = r.randrange(256), r.randrange(256)
        f = io.StringIO()
        ih.write_hex_file(f)
        return f.getvalue().encode()
    if arch == "none":
        return b""
    data = r.randbytes(n)
    return binm.build_elf("little", 40 if arch == "nrf52" else 105, 2, start, data, "SHEPHERD_NODE_ID", 0, False, (0xFF80, r.randbytes(128)) if arch == "msp430" else None)[0]


# ---------------------------------------------------------------- patching

ID = "SHEPHERD_NODE_ID"


@contract("C23", "patching changes only the bytes of the symbol, to the new value", on=[P + "modify_symbol_value", P + "read_symbol", P + "find_symbol"], samples=120)
def patched(t):
    fs = t.fs()
    e = t.elf(fs, "fw.elf", ID)
    v = t.int("value", gen=lambda r: r.choice([0, 1, 255, 256, 0xAFFE, 0xFFFF, 0x10000, -1, r.randrange(2**16), 2**20]))
    over = t.choice("overwrite", [True, False, None])
    r = t.attempt(patcher.modify_symbol_value, e.path, ID, v, **({} if over is None else {"overwrite": over}))
    fits = And(v >= 0, v < 2**16)
    if not r.ok:
        t.ensure("only values out of range are refused", Not(fits))
        t.ensure("as a wrong value", r.raised(ValueError))
        t.ensure("the file is untouched", And(fs.untouched(e.path), fs.all_untouched()))
        return
    t.ensure("values out of range are refused", fits)
    if not e.has or e.zero:
        t.ensure("no result without stored symbol", t.eq(r.value, None))
        t.ensure("no file is touched", And(fs.untouched(e.path), fs.all_untouched()))
        return
    t.ensure("a result", Not(t.eq(r.value, None)))
    t.ensure("the symbol has the value", e.value(r.value) == v)
    t.ensure("all other bytes are kept", e.rest_kept(r.value))
    if over:
        t.ensure("the same file", t.eq(r.value, e.path))
    else:
        t.ensure("another file", Not(t.eq(r.value, e.path)))
        t.ensure("the source is untouched", And(fs.untouched(e.path), e.same(e.path)))
        t.ensure("name with the value", t.eq(t.get(r.value, "name"), t.add("fw_", t.call(str, v), ".elf")))
    t.ensure("no other file is touched", fs.all_untouched(r.value))
    t.ensure("reads back as the value", t.eq(t.call(patcher.read_symbol, r.value, ID), v))
    t.ensure("also as the id", t.eq(t.call(patcher.read_uid, r.value), v))


@contract("C23", "the node id is patched in place", on=[P + "modify_uid", P + "modify_symbol_value", P + "read_uid"], samples=80)
def uid(t):
    fs = t.fs()
    e = t.elf(fs, "fw.elf", ID)
    v = t.int("value", gen=lambda r: r.choice([0, 1, 255, 256, 0xAFFE, 0xFFFF, 0x10000, -1, r.randrange(2**16), 2**20]))
    r = t.attempt(patcher.modify_uid, e.path, v)
    if not r.ok:
        t.ensure("only values out of range are refused", Or(v < 0, v >= 2**16))
        t.ensure("the file is untouched", fs.untouched(e.path))
        return
    t.ensure("values out of range are refused", And(v >= 0, v < 2**16))
    if not e.has or e.zero:
        t.ensure("no result without stored symbol", t.eq(r.value, None))
        t.ensure("no file is touched", And(fs.untouched(e.path), fs.all_untouched()))
        return
    t.ensure("the same file", t.eq(r.value, e.path))
    t.ensure("the id has the value", e.value(e.path) == v)
    t.ensure("all other bytes are kept", e.rest_kept(e.path))
    t.ensure("no other file is touched", fs.all_untouched(e.path))
    t.ensure("reads back", t.eq(t.call(patcher.read_uid, e.path), v))


@contract("C23", "symbols are read as stored", on=[P + "read_symbol", P + "find_symbol", P + "read_uid"], samples=80)
def read(t):
    fs = t.fs()
    e = t.elf(fs, "fw.elf", ID)
    r = t.attempt(patcher.read_symbol, e.path, ID)
    t.ensure("can be read", r.ok)
    if not e.has:
        t.ensure("nothing without symbol", t.eq(r.value, None))
    else:
        t.ensure("value of the symbol", t.eq(r.value, 0 if e.zero else e.value(e.path)))
    t.ensure("found, if it is there", t.eq(t.call(patcher.find_symbol, e.path, ID), e.has))
    t.ensure("architecture of executables", t.eq(t.call(patcher.read_arch, e.path), e.arch if e.elftype == "EXEC" else None))
    t.ensure("no file is touched", And(fs.untouched(e.path), fs.all_untouched()))


@contract("C23", "files that are no elf are not patched", on=[P + "modify_symbol_value", P + "read_symbol"], samples=20)
def foreign(t):
    fs = t.fs()
    p = fs.other("fw.elf") if t.choice("what", ["other", "none"]) == "other" else fs.path("none.elf")
    v = t.int("value", lo=0, hi=2**16 - 1)
    r = t.attempt(patcher.modify_symbol_value, p, ID, v, overwrite=t.choice("overwrite", [True, False]))
    t.ensure("no result", not r.ok or r.value is None)
    t.ensure("no file is touched", fs.all_untouched())
    q = t.attempt(patcher.read_uid, p)
    t.ensure("nothing read", not q.ok or q.value is None)
