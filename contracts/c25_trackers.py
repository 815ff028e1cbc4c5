"""Offline trackers and converters of ivonne recordings (C25)."""
import math
import pickle

import h5py
import numpy as np
import pandas as pd
from shepherd_data import ivonne, mppt

from pyvc.contract import Reject, contract
from pyvc.core import And, Implies, Iff, Not, Or, between, eq, ge, ite, le, smax, smin  # noqa: F401

M, V = "shepherd_data.mppt:", "shepherd_data.ivonne:"
TOL = 1e-9


def coeffs(t, k=""):
    """Coefficients of a solar cell: short-circuit current, saturation current, inverse thermal voltage."""
    return {"a": t.real(f"a{k}", lo=0, hi=1, gen=lambda r: r.choice([0.0, 0.001, 0.02, r.uniform(0, 0.05)])),
            "b": t.real(f"b{k}", gt=0, hi=1, gen=lambda r: r.choice([1e-6, 1e-4, 1e-3, 10 ** r.uniform(-9, -2)])),
            "c": t.real(f"c{k}", gt=0, hi=50, gen=lambda r: r.choice([0.5, 1.0, 2.0, 5.0, r.uniform(0.1, 8)]))}


def count(t, name, lo, small):
    n = t.int(name, lo=lo, hi=10**6, gen=lambda r: r.choice(small))
    if not t.sym and n > 5000:
        raise Reject
    return n


def model(t, x, v):
    """Current of the diode model at voltage v."""
    return smax(x["a"] - x["b"] * (t.call(np.exp, x["c"] * v) - 1), 0)


@contract("C25", "the model of a solar cell is that of a diode, never negative", on=[M + "iv_model"])
def iv_curve(t):
    x = coeffs(t)
    form = t.choice("form", ["array", "scalar"])
    if form == "scalar":
        v = t.real("v", lo=-1, hi=10)
        o = t.attempt(mppt.iv_model, v, x)
        t.ensure("succeeds", o.ok)
        if o.ok:
            t.ensure("current of the model", eq(o.value, model(t, x, v)))
        return
    v = t.arr("v", "f8", lo=-1, hi=10, n=count(t, "n", 0, [0, 1, 4, 9]))
    old = t.snap(v)
    o = t.attempt(mppt.iv_model, v, x)
    t.ensure("succeeds", o.ok)
    if o.ok:
        t.ensure("a current per voltage", t.len(o.value) == t.len(v))
        t.ensure("current of the model", t.forall(t.len(v), lambda i: eq(t.at(o.value, i), model(t, x, t.at(v, i)))))
        t.ensure("the voltages are kept", t.forall(t.len(v), lambda i: eq(t.at(v, i), t.at(old, i))))


@contract("C25", "open-circuit detection finds the first voltage below the threshold", on=[M + "find_oc"], samples=300)
def detect(t):
    n = count(t, "n", 1, [1, 2, 5, 12])
    v = t.arr("v", "f8", n=n, lo=0, hi=10)
    i = t.arr("i", "f8", n=n, lo=0, hi=1)
    if t.choice("ratio", ["default", "given"]) == "default":
        ratio = t.host(lambda: 0.05)
        o = t.attempt(mppt.find_oc, v, i)
    else:
        ratio = t.real("r", lo=0, hi=1, gen=lambda r: r.choice([0.05, 0.5, 1.0, 0.9]))
        o = t.attempt(mppt.find_oc, v, i, ratio)
    t.ensure("succeeds", o.ok)
    if not o.ok:
        return
    lim = t.at(i, 0) * ratio
    under = t.exists(n, lambda k: t.at(i, k) < lim)
    if t.branch(under):
        t.ensure("a voltage with less current, and none before", t.exists(n, lambda k: And(
            eq(o.value, t.at(v, k)), t.at(i, k) < lim, t.each(k, lambda j: t.at(i, j) >= lim))))


@contract("C25", "open-circuit voltage and short-circuit current follow from the model", on=[V + "get_voc", V + "get_isc"])
def limits(t):
    df = t.dataframe(lambda k: coeffs(t, k))
    if t.choice("form", ["frame", "frame", "row"]) == "row":
        x = t.cells(df)[0]
        voc, isc = t.call(ivonne.get_voc, x), t.call(ivonne.get_isc, x)
        got = [(x, voc, isc)]
    else:
        voc, isc = t.call(ivonne.get_voc, df), t.call(ivonne.get_isc, df)
        got = list(zip(t.cells(df), t.column(voc), t.column(isc)))
    for x, vo, i in got:
        t.ensure("open-circuit voltage", eq(vo * x["c"], t.call(np.log, x["a"] / x["b"] + 1)))
        t.ensure("short-circuit current", eq(i, x["a"]))


def settings(t):
    v_max = t.real("v_max", gt=0, hi=10, gen=lambda r: r.choice([5.0, 3.3, 1.0]))
    pts = count(t, "pts", 2, [2, 3, 10, 101, 1000])
    return v_max, pts


@contract("C25", "the optimal tracker picks the point of maximum power",
          on=[M + "OptimalTracker.process", M + "OptimalTracker.__init__", M + "MPPTracker.__init__"])
def optimal(t):
    v_max, pts = settings(t)
    trk = t.new(mppt.OptimalTracker, v_max, pts)
    df = t.dataframe(lambda k: coeffs(t, k))
    o = t.attempt_m(trk, "process", df)
    t.ensure("succeeds", o.ok)
    if not o.ok:
        return
    grid = t.call(np.linspace, 0, v_max, pts)
    for x in t.cells(o.value):
        v, i = x["v"], x["i"]
        t.ensure("a sampled voltage", t.exists(pts, lambda k: eq(t.at(grid, k), v)))
        t.ensure("with its current", eq(i, model(t, x, v)))
        t.ensure("no other has more power", t.forall(pts, lambda k: t.at(grid, k) * model(t, x, t.at(grid, k)) <= v * i + TOL))


@contract("C25", "the open-circuit tracker keeps the ratio of the open-circuit voltage",
          on=[M + "OpenCircuitTracker.process", M + "OpenCircuitTracker.__init__", M + "MPPTracker.__init__"])
def open_circuit(t):
    v_max, pts = settings(t)
    known = t.choice("voc", ["known", "found"])
    if t.choice("ratio", ["default", "given"]) == "default":
        ratio = t.host(lambda: 0.8)
        trk = t.new(mppt.OpenCircuitTracker, v_max, pts)
    else:
        ratio = t.real("r", gt=0, hi=1, gen=lambda r: r.choice([0.5, 0.76, 0.9, 1.0]))
        trk = t.new(mppt.OpenCircuitTracker, v_max, pts, ratio)

    def row(k):
        x = coeffs(t, k)
        if known == "known":
            x["voc"] = t.real(f"voc{k}", gt=0, hi=10, gen=lambda r: r.choice([0.5, 2.2, 4.9, 5.0]))
        return x
    df = t.dataframe(row)
    grid = t.call(np.linspace, 0, v_max, pts)
    before = [x["voc"] if known == "known" else t.call(mppt.find_oc, grid, t.call(mppt.iv_model, grid, x)) for x in t.cells(df)]
    for voc in before:
        t.assume(voc > 0)
    o = t.attempt_m(trk, "process", df)
    t.ensure("succeeds", o.ok)
    if not o.ok:
        return
    for x, voc in zip(t.cells(o.value), before):
        v, i = x["v"], x["i"]
        t.ensure("a sampled voltage", t.exists(pts, lambda k: eq(t.at(grid, k), v)))
        t.ensure("with its current", eq(i, model(t, x, v)))
        t.ensure("below the set-point", v < ratio * voc)
        t.ensure("the nearest of them", t.forall(pts, lambda k: Implies(t.at(grid, k) < ratio * voc, t.at(grid, k) <= v)))


KINDS = ["ivsample", "ivsample-voc", "isc_voc", "ivcurve"]
SPR = 2000  # samples per row: recordings of ivonne have 50 Hz, those of shepherd 100 kHz


def operating_point(x, v_max, kind):
    """What is to be recorded for one row."""
    grid = np.linspace(0, v_max, 1000)
    cur = np.maximum(0, x["a"] - x["b"] * (np.exp(x["c"] * grid) - 1))
    voc = min(v_max, math.log(x["a"] / x["b"] + 1) / x["c"])
    if kind == "isc_voc":
        return [(voc, x["a"])]
    if kind == "ivsample":
        p = grid * cur
        return [(grid[k], cur[k]) for k in range(1000) if p[k] >= p.max() * (1 - 1e-9)]
    k = int(np.sum(grid < 0.8 * voc)) - 1
    return [(grid[j], cur[j]) for j in {max(k - 1, 0), k, min(k + 1, 999)} if abs(grid[j] - 0.8 * voc) <= v_max / 999 * (1 + 1e-6)]


@contract("C25", "converters record the operating points of the recorded cells", symbolic=False, samples=24, seconds=30,
          on=[V + "Reader.convert_2_ivsamples", V + "Reader.convert_2_ivcurves", V + "Reader.upsample_2_isc_voc"],
          note="bounded: pandas resampling, at most 40 rows, blocks of 10 rows or one; compared at the recorded instants")
def convert(t):
    kind = t.choice("kind", KINDS)
    rows = t.int("rows", lo=1, hi=40, gen=lambda r: r.choice([1, 2, 3, 4, 11, 12, 13, 20, 21, 30, r.randint(5, 40)]))
    v_max = t.choice("v_max", [5.0, 3.0])
    data = []
    for k in range(rows):
        a, b, c = t.real(f"a{k}", lo=5e-3, hi=0.04), t.real(f"b{k}", lo=1e-6, hi=1e-4), t.real(f"c{k}", lo=1.2, hi=3)
        data.append({"time": k * 0.02, "a": a, "b": b, "c": c})
    dur = t.choice("duration", [None, None, 0.2, 0.22, 0.31, 0.6, 100])
    d = t.tmp()
    src, dst = d / "rec.iv", d / "out.h5"
    pickle.dump(pd.DataFrame(data), src.open("wb"))
    blocks = t.choice("blocks", [10, 10, None])
    writer = getattr(ivonne, "Writer", None)
    if writer is not None and blocks:
        class Small(writer):
            def __init__(self, *a, **kw):
                super().__init__(*a, **kw)
                self.max_elements = blocks * SPR
        ivonne.Writer = Small
    try:
        with ivonne.Reader(src, verbose=False) as rd:
            if kind == "isc_voc":
                o = t.attempt_m(rd, "upsample_2_isc_voc", dst, v_max=v_max, duration_s=dur)
            elif kind == "ivcurve":
                o = t.attempt_m(rd, "convert_2_ivcurves", dst, v_max=v_max, pts_per_curve=1000, duration_s=dur)
            else:
                trk = mppt.OpenCircuitTracker(v_max) if kind == "ivsample-voc" else None
                o = t.attempt_m(rd, "convert_2_ivsamples", dst, v_max=v_max, duration_s=dur, tracker=trk)
    finally:
        if writer is not None:
            ivonne.Writer = writer
    t.ensure("succeeds", o.ok)
    if not o.ok:
        return
    used = rows if dur is None else min(rows, int(dur * 50))
    total = (used if used < rows else rows - 1) * SPR // 10_000 * 10_000
    with h5py.File(dst) as f:
        tm, vo, cu = (f["data"][k][:] * f["data"][k].attrs["gain"] + f["data"][k].attrs["offset"] for k in ("time", "voltage", "current"))
        t.ensure("of the requested kind", f["data"].attrs["datatype"] == kind.split("-")[0])
    t.ensure("no gaps, nothing twice", len(tm) == len(vo) == len(cu) == total)
    t.ensure("at the nominal sample rate", total == 0 or float(np.max(np.abs(tm - np.arange(total) * 1e-5))) < 1e-6)
    grid = np.linspace(0, v_max, 1000)
    for k in range(total // SPR):
        if kind == "ivcurve":
            x = data[k]
            w = slice(k * SPR, k * SPR + 1000)
            t.ensure("voltages of the curve", float(np.max(np.abs(vo[w] - grid))) < 1e-4)
            t.ensure("currents of the cell", float(np.max(np.abs(
                cu[w] - np.maximum(0, x["a"] - x["b"] * (np.exp(x["c"] * grid) - 1))))) < 1e-5)
            continue
        pts = operating_point(data[k], v_max, kind)
        t.ensure("operating point of the cell", any(abs(vo[k * SPR] - v) < 1e-4 and abs(cu[k * SPR] - i) < 1e-5 for v, i in pts))
