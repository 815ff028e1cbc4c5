"""GPIO traces (C12)."""
from shepherd_core.reader import Reader

from contracts.c06_recording import open_rec, recording
from pyvc.contract import contract
from pyvc.core import And, Implies, Iff, Not, Or, eq, ite  # noqa: F401
from pyvc.h5m import DS

R = "shepherd_core.reader:Reader."

PINS = [
    ({"gpio0": 0}, "0: {name: gpio0}\n"),
    ({"uart": 3}, "3:\n  name: uart\n"),
    ({"gpio_a": 0, "swd": 1, "uart": 8, "pwr": 15}, "0: {name: gpio_a}\n1: {name: swd}\n8: {name: uart}\n15: {name: pwr}\n"),
    ({"b": 5, "a": 2}, "5: {name: b}\n2: {name: a}\n"),
]


def _gpio(t):
    n = t.int("events", lo=0, hi=10**9, gen=lambda r: r.choice([0, 1, 2, 3, 10, 40]))
    ts = t.arr("gts", "u8", n=n, hi=2**62)
    vs = t.arr("gvs", "u2", n=n, gen=lambda r: r.choice([0, 1, 8, 9, 255, 256, 65535, r.randrange(65536)]))
    pins, text = t.choice("pins", PINS)
    tree, *_ = recording(t, 0)
    tree["gpio"] = {"time": DS(ts, {"unit": "ns"}), "value": DS(vs, {"unit": "n", "description": text})}
    return n, ts, vs, pins, tree


def _expect(t, wf, n, ts, vs, pin):
    bit = lambda i: (t.at(vs, i) // 2**pin) % 2  # noqa: E731
    sel = t.select(n, lambda i: Or(i == 0, bit(i) != bit(smax0(i))))
    t.ensure("number of state changes (and the first event)", t.len(wf) == sel.n)
    t.ensure("original time stamps, in order", t.forall(sel.n, lambda k: t.at(t.at(wf, k), 0) == t.at(ts, sel.at(k))))
    t.ensure("the value of the pin", t.forall(sel.n, lambda k: t.at(t.at(wf, k), 1) == bit(sel.at(k))))


def smax0(i):
    return ite(i >= 1, i - 1, 0)


@contract("C12", "waveforms of all described pins", on=[R + "gpio_to_waveforms", R + "get_filter_for_redundant_states"], samples=100)
def waves(t):
    n, ts, vs, pins, tree = _gpio(t)
    rd = open_rec(t, tree, Reader)
    o = t.attempt_m(rd, "gpio_to_waveforms")
    t.ensure("decoding never fails", o.ok)
    if not o.ok:
        return
    t.ensure("exactly the described pins", t.eq(sorted(t.call(list, o.value)), sorted(pins)))
    for nm, pin in pins.items():
        _expect(t, t.at(o.value, nm), n, ts, vs, pin)


@contract("C12", "waveform of one named pin", on=[R + "gpio_to_waveforms", R + "get_gpio_pin_num"], samples=100)
def wave(t):
    n, ts, vs, pins, tree = _gpio(t)
    rd = open_rec(t, tree, Reader)
    names = sorted(pins)
    nm = names[t.choice("which", [0, 1, 2, 3]) % len(names)]
    t.ensure("pin number", t.m(rd, "get_gpio_pin_num", nm) == pins[nm])
    o = t.attempt_m(rd, "gpio_to_waveforms", nm)
    t.ensure("decoding never fails", o.ok)
    if not o.ok:
        return
    t.ensure("only that pin", t.eq(t.call(list, o.value), [nm]))
    _expect(t, t.at(o.value, nm), n, ts, vs, pins[nm])


@contract("C12", "no recorded events", on=[R + "gpio_to_waveforms"], samples=10)
def none(t):
    tree, *_ = recording(t, 0)
    rd = open_rec(t, tree, Reader)
    t.ensure("no pins without gpio data", t.len(t.m(rd, "gpio_to_waveforms")) == 0)


@contract("C12", "redundant states are filtered", on=[R + "get_filter_for_redundant_states"])
def filt(t):
    n = t.int("n", lo=0, hi=10**9, gen=lambda r: r.choice([0, 1, 2, 3, 10, 40]))
    d = t.arr("d", "bool", n=n)
    o = t.attempt(Reader.get_filter_for_redundant_states, d)
    t.ensure("never fails", o.ok)
    if o.ok:
        t.ensure("one decision per state", t.len(o.value) == n)
        t.ensure("first and changed states are kept", t.forall(n, lambda i: Iff(t.at(o.value, i), Or(
            i == 0, Not(Iff(t.at(d, i), t.at(d, smax0(i))))))))
