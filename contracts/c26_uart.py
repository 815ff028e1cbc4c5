"""Decoding of UART waveforms (C26)."""
import numpy as np
from shepherd_core.decoder_waveform import uart
from shepherd_core.decoder_waveform.uart import Uart

from pyvc.contract import Reject, contract
from pyvc.core import And, Implies, Iff, Not, Or, between, eq, ge, ite, le, smax, smin  # noqa: F401

U = "shepherd_core.decoder_waveform.uart:Uart."


def levels(byte, bits):
    """What a transmitter sends: start-bit, data LSB first, stop-bit -> [level, ticks] without repetition."""
    out = []
    for b in [0] + [byte >> k & 1 for k in range(bits)] + [1]:
        if out and out[-1][0] == b:
            out[-1][1] += 1
        else:
            out.append([b, 1])
    return out


def char(byte):
    """Arrays of numpy can not hold NUL."""
    return chr(byte) if byte else ""


def same_char(t, got, byte):
    return t.eq(got, chr(byte)) if t.sym else str(got) == char(byte)


def stamp(t, v):
    return v if t.sym else float(v)


def frames(t, data, bits):
    """Events (time, level, ticks) of consecutive frames, each state up to a tenth of a tick off, after and followed by idle time."""
    now = t.real("t0", lo=0, hi=1000)
    tick = t.real("tick", gt=0, hi=1)
    ev, starts = [], []

    def add(level, steps):
        nonlocal now
        ev.append((now, level, steps))
        now = now + steps * tick
    add(1, t.real("idle", gt=0, hi=1e6))
    for j, byte in enumerate(data):
        lv = levels(byte, bits)
        starts.append(now)
        for k, (level, n) in enumerate(lv):
            if k == len(lv) - 1:
                add(1, n + t.real(f"gap{j}", lo=-0.09, hi=1e6))
            else:
                add(level, n + t.real(f"e{j}.{k}", lo=-0.09, hi=0.09))
    return ev, starts


def decode(t, data, bits):
    ev, starts = frames(t, data, bits)
    o = t.obj(Uart, frame_length=bits, events_sig=ev if t.sym else np.array(ev, dtype=float).reshape((-1, 3)), events_symbols=None, events_lines=None,
              text=None, parity=uart.Parity.no, bit_order=uart.BitOrder.lsb_first)
    r = t.attempt_m(o, "get_symbols")
    t.ensure("succeeds", r.ok)
    if not r.ok:
        return
    got = [x for x in r.value] if not t.sym else t.rows_of(r.value)
    t.ensure("one symbol per frame", len(got) == len(data))
    for g, byte, at in zip(got, data, starts):
        t.ensure("the transmitted one", same_char(t, g[1], byte))
        t.ensure("with the time of its start-bit", eq(stamp(t, g[0]), at))
    again = t.attempt_m(o, "get_symbols")
    t.ensure("kept", And(again.ok, len(t.rows_of(again.value)) == len(got)))


@contract("C26", "every byte is decoded from its frame, at any time and with any pause", on=[U + "get_symbols"], samples=300, max_paths=6000)
def one(t):
    decode(t, [t.choice("byte", list(range(256)))], 8)


@contract("C26", "frames do not influence each other", on=[U + "get_symbols"], samples=300, max_paths=6000)
def several(t):
    a, b = t.choice("bytes", [(0xFF, 0x00), (0x00, 0xFF), (0x80, 0x7F), (0x41, 0x80), (0xFE, 0x01), (0x55, 0xAA), (0x0A, 0x0D)])
    decode(t, [a, b] if t.sym else [a, b] + [t.choice(f"more{k}", list(range(256))) for k in range(t.choice("n", [0, 1, 7, 30]))], 8)


@contract("C26", "frames of other lengths", on=[U + "get_symbols"], samples=300, max_paths=6000)
def lengths(t):
    bits, data = t.choice("frame", [(5, 0x15), (5, 0x1F), (5, 0x10), (5, 0x00), (7, 0x41), (7, 0x7F), (7, 0x40), (9, 0x1AB), (9, 0x100), (9, 0x1FF),
                                    (12, 0xA05), (1, 0), (1, 1), (16, 0x20AC)])
    decode(t, [data], bits)


TEXTS = ["a", "\n", "\r", "a\n", "a\r", "a\r\n", "\na", "\ra", "\r\na", "ab\ncd\n", "ab\rcd\r", "ab\r\ncd\r\n", "\n\n", "\r\r", "\r\n\r\n", "\n\r", "a\rb\nc",
         "a\r\nb\rc\n\nd", "a\n\rb"]


def cut(text):
    """Lines of the text with the position of their start; each ends with CR LF, CR or LF."""
    out, i = [], 0
    while i < len(text):
        j = i
        while j < len(text) and text[j] not in "\r\n":
            j += 1
        j += 2 if text[j:j + 2] == "\r\n" else 1
        out.append((i, text[i:j]))
        i = j
    return out


@contract("C26", "lines are cut at CR, LF and CR LF and nothing is lost", on=[U + "get_lines", U + "get_text"], samples=300)
def lines(t):
    text = t.choice("text", TEXTS)
    if not t.sym:
        text = text * t.choice("times", [1, 1, 2, 5]) + t.choice("tail", TEXTS)
    sym = []
    for k, ch in enumerate(text):
        at = t.real(f"t{k}", lo=0, hi=1e6)
        sym.append((at, ch))
    from pyvc.framem import CellsM
    o = t.obj(Uart, events_symbols=CellsM([x for p in sym for x in p], 2) if t.sym else np.concatenate(sym).reshape((len(sym), 2)),
              events_lines=None, text=None)
    if t.choice("first", ["lines", "text"]) == "text":
        r = t.attempt_m(o, "get_text")
        t.ensure("whole text", And(r.ok, t.eq(r.value, text) if r.ok else False))
    r = t.attempt_m(o, "get_lines")
    t.ensure("succeeds", r.ok)
    if not r.ok:
        return
    want, got = cut(text), t.rows_of(r.value)
    t.ensure("as many lines", len(got) == len(want))
    for (i, ln), g in zip(want, got):
        t.ensure("the line", t.eq(g[1], ln) if t.sym else str(g[1]) == ln)
        t.ensure("with the time of its first symbol", eq(stamp(t, g[0]), sym[i][0]))
    r = t.attempt_m(o, "get_text")
    t.ensure("whole text again", And(r.ok, t.eq(r.value, text) if r.ok else False))


def transmit(t, data, bits, baud, inverted):
    """Waveform of a transmitter with two levels, pauses, and samples that repeat the level; ends with an edge."""
    tick = 1.0 / baud
    lo, hi = t.choice("levels", [(0, 1), (0.05, 3.28), (-0.2, 1.8), (0, 5)])
    now, rows, starts = t.choice("begin", [0.0, 12.5]), [], []

    def add(level, steps, jitter=True):
        nonlocal now
        level = 1 - level if inverted else level
        rows.append((now, hi if level else lo))
        if extra and t.rng.random() < 0.2:
            rows.append((now + 0.9 * steps * tick * t.rng.random(), hi if level else lo))
        now += (steps + (t.rng.uniform(-0.04, 0.04) if jitter else 0)) * tick
    extra = t.choice("repeat", [False, False, True])
    add(1, t.choice("idle", [81.5, 200, 1e4]))
    for byte in data:
        lv = levels(byte, bits)
        starts.append(now)
        for k, (level, n) in enumerate(lv):
            last = k == len(lv) - 1
            add(level, n + (t.rng.choice([0, 0, 0.5, 1, 3.3, 7, 90.25]) if last else 0))
    rows.append((now, lo if not inverted else hi))
    return np.array(rows, dtype=float), starts


@contract("C26", "a transmitted text is decoded", on=[U + "__init__", U + "get_symbols", U + "get_lines", U + "get_text", U + "detect_baud_rate",
                                                      U + "detect_inversion", U + "_convert_analog2digital", U + "_filter_redundant_states",
                                                      U + "_add_duration"], symbolic=False, samples=150, seconds=15,
          note="bounded: whole decoder on waveforms of up to 60 bytes; array code of numpy")
def whole(t):
    bits = t.choice("bits", [8, 8, 8, 7])
    data = [t.choice(f"b{k}", list(range(1, 2 ** bits))) if t.choice("kind", [0, 1]) else ord(t.choice(f"c{k}", "Hello World\r\n"))
            for k in range(t.choice("n", [4, 12, 30, 60]))]
    baud = t.choice("baud", [300, 9600, 115200, 1_000_000])
    inverted = t.choice("inverted", [False, True])
    rows, starts = transmit(t, data, bits, baud, inverted)
    if len(rows) < 8:
        raise Reject
    steps = np.diff(rows[:1000, 0]) * baud
    kw = {}
    if t.choice("baud known", [True, False]) or np.mean(steps < 1.3) < 0.25 or np.min(steps) < 0.9:
        kw["baud_rate"] = baud
    if t.choice("inversion known", [True, False]):
        kw["inversion"] = inverted
    if bits != 8:
        kw["frame_length"] = bits
    form = t.choice("form", ["array", "file"])
    if form == "file":
        content = t.tmp() / "wave.csv"
        np.savetxt(content, rows, delimiter=",", header="t,v", fmt="%.12g", comments="")
    else:
        content = rows.copy()
    o = t.attempt(Uart, content, **kw)
    t.ensure("accepted", o.ok)
    if not o.ok:
        return
    t.ensure("rate", abs(o.value.baud_rate - baud) <= 0.02 * baud)
    r = t.attempt_m(o.value, "get_symbols")
    t.ensure("symbols", r.ok and len(r.value) == len(data))
    for g, byte, at in zip(r.value, data, starts):
        t.ensure("the transmitted one", str(g[1]) == chr(byte))
        t.ensure("with the time of its start-bit", abs(float(g[0]) - at) < 1e-9)
    text = "".join(map(chr, data))
    r = t.attempt_m(o.value, "get_text")
    t.ensure("text", r.ok and str(r.value) == text)
    r = t.attempt_m(o.value, "get_lines")
    t.ensure("lines", r.ok and [str(x[1]) for x in r.value] == [x for _, x in cut(text)])


@contract("C26", "what can not be decoded is refused", on=[U + "__init__"], symbolic=False, samples=60, seconds=5, note="bounded: array code of numpy")
def refused(t):
    n = t.choice("n", [3, 7, 8, 40])
    rows = np.array([(k * 1e-3, k % 2) for k in range(n)], dtype=float)
    rows[-1, 0] += 1
    case = t.choice("case", ["short", "order", "columns", "length", "parity", "msb"])
    kw = {}
    if case == "order" and n >= 8:
        rows[[2, 3], 0] = rows[[3, 2], 0]
    elif case == "columns":
        rows = np.hstack([rows, rows[:, :1]])
    elif case == "length":
        kw["frame_length"] = t.choice("len", [0, 65, -1])
    elif case == "parity":
        kw["parity"] = t.choice("par", [x for x in uart.Parity if x != uart.Parity.no])
    elif case == "msb":
        kw["bit_order"] = uart.BitOrder.msb
    elif n >= 8:
        raise Reject
    o = t.attempt(Uart, rows, 1000, **kw)
    t.ensure("refused", o.raised(TypeError, ValueError))
