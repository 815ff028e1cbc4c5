"""Down-sampling and cutting of recordings (C24)."""
import math
import operator

import h5py
import numpy as np
from shepherd_data.reader import Reader

import pyvc.sigm  # noqa: F401
from pyvc.contract import contract
from pyvc.core import And, Implies, Iff, Not, Or, between, eq, is_round, ite, le, smax, smin  # noqa: F401

from pyvc.h5m import DS

R = "shepherd_data.reader:Reader."
FACTORS = [1, 2, 3, 5, 7, 10, 60, 1000, 2.9, 0.5, -3]
FEW = [1, 3, 7.5]




def source(t, form):
    """A reader, and a series of n samples as numpy array or as h5-dataset."""
    fs = t.fs()
    n = t.int("n", lo=0, hi=10**12, gen=lambda r: r.choice([0, 1, 5, 119, 120, 121, 250, 777, 3000]))
    x = t.arr("x", "u4" if form == "dataset" else "f8", n=n)
    z = [t.arr(f"z{i}", "u8" if i == 0 else "u4", n=0) for i in range(3)]
    cal = {"gain": 1e-9, "offset": 0.0}
    tree = {"attrs": {"mode": "harvester"},
            "data": {"attrs": {"window_samples": 0, "datatype": "ivsample"}, "time": DS(z[0], cal),
                     "voltage": DS(z[1], cal), "current": DS(z[2], cal), "extra": DS(x, {})}}
    rd = t.new(Reader, fs.h5("rec.h5", tree), verbose=None)
    if form == "array":
        return rd, x, x, n
    return rd, t.call(operator.getitem, t.get(rd, "h5file"), "data/extra"), x, n


def limits(t, n):
    """Requested range of samples -> what is passed, and the effective range."""
    a = t.int("start", lo=0, hi=10**12, gen=lambda r: r.choice([0, 0, 1, 7, 130, 10**6]))
    if t.choice("end", ["given", "open"]) == "given":
        e = t.int("end_n", lo=0, hi=10**12, gen=lambda r: r.choice([0, 1, 100, 555, 2000, 10**6]))
        end = e if t.branch(e <= n) else n
    else:
        e, end = None, n
    return a, e, a if t.branch(a <= end) else end, end


def cases(t, length, block, step):
    """Case split: less than one block, exactly one, more."""
    b = max(block // step, 1) * step
    return t.branch(length <= b) and t.branch(length == b)


@contract("C24", "decimating takes every factor-th sample of the requested range", on=[R + "downsample"], samples=400, seconds=20)
def decimate(t):
    form = t.choice("form", ["array", "dataset"])
    f = t.choice("factor", FACTORS)
    rd, src, x, n = source(t, form)
    block = t.choice("block", [40, 120, 4_000_000])
    t.set(rd, "max_elements", block)
    a, e, s0, s1 = limits(t, n)
    step = max(1, math.floor(f))
    cases(t, s1 - s0, block, step)
    o = t.attempt_m(rd, "downsample", src, None, start_n=a, end_n=e, ds_factor=f, is_time=True)
    t.ensure("succeeds", o.ok)
    if not o.ok:
        return
    if t.branch(s1 - s0 == 0):
        t.ensure("nothing to do without samples", o.value is None)
        return
    y = o.value
    t.ensure("as many samples as fit, rounded down", t.len(y) == (s1 - s0) // step)
    t.ensure("every factor-th sample", t.forall((s1 - s0) // step, lambda i: eq(t.at(y, i), t.at(x, s0 + i * step))))


@contract("C24", "filtered samples do not depend on the blocks they are processed in", on=[R + "downsample"], samples=200, seconds=20)
def chunking(t):
    form = t.choice("form", ["array", "dataset"])
    f = t.choice("factor", FEW if t.sym else FACTORS)
    rd, src, x, n = source(t, form)
    a, e, s0, s1 = limits(t, n)
    t.assume(s1 - s0 >= 1)
    t.assume(s1 - s0 <= 10**12)
    step = max(1, math.floor(f))
    t.set(rd, "max_elements", 10**13)
    whole = t.attempt_m(rd, "downsample", src, None, start_n=a, end_n=e, ds_factor=f)
    block = t.choice("block", [40, 4_000_000])
    cases(t, s1 - s0, block, step)
    t.set(rd, "max_elements", block)
    o = t.attempt_m(rd, "downsample", src, None, start_n=a, end_n=e, ds_factor=f)
    t.ensure("succeeds", And(o.ok, whole.ok))
    if not (o.ok and whole.ok):
        return
    y, w = o.value, whole.value
    m = (s1 - s0) // step
    t.ensure("as many samples as fit, rounded down", And(t.len(y) == m, t.len(w) == m))
    t.ensure("the same in one piece", t.forall(m, lambda i: eq(t.at(y, i), t.at(w, i))))
    if step == 1:
        t.ensure("factor one changes nothing", t.forall(m, lambda i: eq(t.at(y, i), t.at(x, s0 + i))))


def rec100k(t, fs):
    """A recording of whole buffers with the nominal sample rate."""
    b = t.int("buffers", lo=1, hi=10**6, gen=lambda r: r.choice([1, 2, 3, 5, 12]))
    n = 10_000 * b
    t0 = t.int("t0", lo=0, hi=2**60, gen=lambda r: r.choice([0, 10**18]))
    tm = t.build(n, "u8", lambda i: t0 + 10_000 * i)
    vo, cu = t.arr("volt", "u4", n=n, hi=2**18), t.arr("curr", "u4", n=n, hi=2**18)
    cal = {"gain": 1e-9, "offset": 0.0}
    tree = {"attrs": {"mode": t.choice("mode", ["harvester", "emulator"]), "hostname": "sheep7"},
            "data": {"attrs": {"window_samples": 0, "datatype": "ivsample", "config": "{}"},
                     "time": DS(tm, cal), "voltage": DS(vo, {"gain": 3e-6, "offset": 0.25}),
                     "current": DS(cu, {"gain": 2e-9, "offset": -1e-6})}}
    return tree, n, tm, vo, cu


def opened(t):
    fs = t.fs()
    tree, n, tm, vo, cu = rec100k(t, fs)
    src = fs.h5("rec.h5", tree)
    rd = t.new(Reader, src, verbose=None)
    t.set(rd, "runtime_s", n / 100_000)  # as the statistics of such a recording are (C10)
    t.set(rd, "samplerate_sps", 100_000)
    return fs, tree, src, rd, n, tm, vo, cu


def downsample_contract(t):
    """What the contracts above show of downsample(): length, and the values where nothing is filtered."""
    def ghost(self, data_src, data_dst, start_n=0, end_n=None, ds_factor=5, *, is_time=False):
        step = max(1, math.floor(ds_factor))
        n = t.get(data_src, "shape")[0]
        stop = n if end_n is None else smin(n, end_n)
        size = (stop - start_n) // step
        if not t.branch(stop - start_n == 0):
            t.m(data_dst, "resize", (size,))
            t.call(operator.setitem, data_dst, slice(0, size), t.call(operator.getitem, data_src, slice(start_n, start_n + size * step, step)))
        return data_dst
    return ghost


CUTS = [(None, None, 2), (0.25, None, 3), (0.1, 2.2, 1), (-1.0, 1e6, 12.5), (None, 0.3, 1), (0, None, 0.5), (0.25, 0.05, 2), (None, -0.3, 2)]


@contract("C24", "a cut holds the requested samples, down-sampled", on=[R + "cut_and_downsample_to_file", R + "downsample"], samples=40, seconds=40)
def cut(t):
    fs, tree, src, rd, n, tm, vo, cu = opened(t)
    start, end, f = t.choice("case", CUTS if t.sym else [(a, b, c) for a in (None, 0, 0.29, 0.25, -1.0) for b in (None, 0.57, -0.3, 2.2, 1e6, 0.05)
                                                         for c in (1, 2, 3, 12.5, 0.5)])
    t.stub(Reader.downsample, downsample_contract(t), by="C24:decimating takes every factor-th sample of the requested range")
    s0 = round(max(0, start or 0) * 100_000)
    s1 = n if end is None else round(end * 100_000)
    s1 = s1 if t.branch(s1 <= n) else n
    o = t.attempt_m(rd, "cut_and_downsample_to_file", start, end, f)
    t.ensure("the recording is left untouched", fs.untouched(src))
    if f < 1 or t.branch((s1 - s0) < 1000 * f):
        t.ensure("bad factors and ranges are refused", o.raised(ValueError))
        return
    t.ensure("succeeds", o.ok)
    if not o.ok:
        return
    step = math.floor(f)
    m = (s1 - s0) // step
    if f == 1 and s0 == 0 and t.branch(s1 == n):
        t.ensure("nothing to do", t.eq(o.value, src))
        return
    if step == 1:
        m = m // 10_000 * 10_000  # recordings of nominal sample rate consist of whole buffers (C07)
    t.ensure("another file", And(Not(t.eq(o.value, src)), fs.fresh(o.value)))
    g = t.tree(t.call(h5py.File, o.value, "r"))
    T, V, C = g.data("data/time"), g.data("data/voltage"), g.data("data/current")
    t.ensure("as many samples as fit", And(t.len(T) == m, t.len(V) == m, t.len(C) == m))
    t.ensure("time of every factor-th sample", t.forall(m, lambda i: eq(t.at(T, i), t.at(tm, s0 + i * step))))
    if step == 1:
        t.ensure("the same samples", t.forall(m, lambda i: And(eq(t.at(V, i), t.at(vo, s0 + i)), eq(t.at(C, i), t.at(cu, s0 + i)))))
    t.ensure("same kind of recording", And(eq(g.attr("", "mode"), tree["attrs"]["mode"]), eq(g.attr("", "hostname"), "sheep7"),
                                           eq(g.attr("data", "datatype"), "ivsample"), eq(g.attr("data", "window_samples"), 0)))
    for ds, gain, off in (("time", 1e-9, 0.0), ("voltage", 3e-6, 0.25), ("current", 2e-9, -1e-6)):
        t.ensure(f"same calibration of {ds}", And(eq(g.attr(f"data/{ds}", "gain"), gain), eq(g.attr(f"data/{ds}", "offset"), off)))


@contract("C24", "an existing cut is kept", on=[R + "cut_and_downsample_to_file"], samples=20)
def cut_exists(t):
    fs, tree, src, rd, n, tm, vo, cu = opened(t)
    end, suffix = t.choice("case", [(None, ".downsample_x2"), (0.05, ".cut_0s000_to_0s050.downsample_x2")])
    old = fs.other("rec" + suffix + ".h5")
    o = t.attempt_m(rd, "cut_and_downsample_to_file", None, end, 2)
    t.ensure("the existing file is returned", And(o.ok, t.eq(o.value, old) if o.ok else False))
    t.ensure("nothing is changed", And(fs.untouched(old), fs.untouched(src)))


@contract("C24", "constant signals settle at their value", on=[R + "downsample"], symbolic=False, samples=40, seconds=10,
          note="bounded: the filter is designed and run by scipy")
def settle(t):
    rd, src, x, n = source(t, "array")
    f = t.choice("factor", [2, 3, 7, 12.5, 40])
    v = t.real("v", lo=-5, hi=5)
    t.set(rd, "max_elements", t.choice("block", [400, 4_000_000]))
    m = t.choice("m", [50, 80])
    o = t.attempt_m(rd, "downsample", np.full(math.floor(f) * m, v), None, ds_factor=f)
    t.ensure("succeeds", And(o.ok, t.len(o.value) == m if o.ok else True))
    t.ensure("settled", And(*[abs(y - v) <= 1e-2 * max(1, abs(v)) for y in o.value[30:]]))
