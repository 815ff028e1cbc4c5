"""C30: simulations feed every sample through the models, in order, and account for all energy."""
import h5py
import numpy as np
import shepherd_core.vsource.virtual_harvester_simulation as HS
import shepherd_core.vsource.virtual_source_simulation as SS
from shepherd_core.data_models.base.calibration import CalibrationEmulator
from shepherd_core.data_models.base.calibration import CalibrationHarvester
from shepherd_core.data_models.content.energy_environment import EnergyDType
from shepherd_core.data_models.content.virtual_harvester import HarvesterPRUConfig
from shepherd_core.data_models.content.virtual_harvester import VirtualHarvesterConfig
from shepherd_core.data_models.content.virtual_source import VirtualSourceConfig
from shepherd_core.reader import Reader
from shepherd_core.vsource.target_model import ResistiveTarget
from shepherd_core.vsource.virtual_converter_model import VirtualConverterModel
from shepherd_core.vsource.virtual_harvester_model import VirtualHarvesterModel
from shepherd_core.vsource.virtual_source_model import VirtualSourceModel
from shepherd_core.writer import Writer

from pyvc.contract import contract
from pyvc.core import And, Iff, eq, is_round, is_trunc, ite, smax

from contracts.c06_recording import recording

H = "shepherd_core.vsource.virtual_harvester_simulation:simulate_harvester"
S = "shepherd_core.vsource.virtual_source_simulation:simulate_source"
GAINS = {"voltage": (3e-9, 0.25), "current": (250e-12, -1e-6)}
BUF = 10_000


def some_recording(t, fs, datatype, window):
    """Recording with fixed gains; natively a regular one of some ten thousand samples."""
    if t.sym:
        tree, n, tm, vo, cu = recording(t, datatype=datatype, window=window, cal=False)
    else:
        n = t.rng.choice([300, BUF, BUF + 4000, 2 * BUF, 2 * BUF + 1])
        tm = t.build(n, "u8", lambda i: i * 10_000)
        tree, n, _, vo, cu = recording(t, n, datatype=datatype, window=window, cal=False, time=tm)
        for a, top in ((vo, 1.6e9), (cu, 4e8)):
            if datatype == "ivcurve":
                a[:] = [int((i % window) / window * top) if a is vo else int(max(0.0, 0.8 - (i % window) / window) * top) for i in range(n)]
            else:
                a[:] = [int(top * t.rng.random()) for _ in range(n)]
    for ds, (g, o) in GAINS.items():
        tree["data"][ds].attrs.update(gain=g, offset=o)
    return fs.h5("rec.h5", tree), n, n // BUF * BUF, tm, {"voltage": vo, "current": cu}


def appended(t, m):
    """What is appended to the output recording (proved for append_iv_data_raw in C06)."""
    out = {"n": t.obj(VirtualHarvesterModel, count=0), "time": t.build(m, "u8", lambda i: 0),
           "voltage": t.build(m, "f8", lambda i: -1), "current": t.build(m, "f8", lambda i: -1)}

    def append(self, timestamp, voltage, current):
        k = t.get(out["n"], "count")
        for ds, x in (("time", timestamp), ("voltage", voltage), ("current", current)):
            t.put(out[ds], k, x)
        t.set(out["n"], "count", k + t.len(voltage))
    t.stub(Writer.append_iv_data_raw, append, by="C06")
    return out


def output_is(t, out, dst, m, tm, P, C, pairs):
    """The output recording holds the given voltages [uV] and currents [nA] at the given times."""
    g = t.tree(t.call(h5py.File, dst, "r"))
    if t.sym:
        size, X = t.get(out["n"], "count"), out
    else:
        X = {ds: g.data(f"data/{ds}") for ds in ("time", "voltage", "current")}
        size = t.len(X["time"])
    t.ensure("one output per sample", eq(size, m))
    t.ensure("at the same time", t.forall(m, lambda k: eq(t.at(X["time"], k), t.at(tm, k))))
    for ds, f, unit in (("voltage", P, 10**6), ("current", C, 10**9)):
        gain, off = pairs[ds].gain, pairs[ds].offset
        t.ensure(f"calibration of the {ds}", And(eq(g.attr(f"data/{ds}", "gain"), gain), eq(g.attr(f"data/{ds}", "offset"), off)))
        t.ensure(f"{ds} of the model", t.forall(m, lambda k: is_round(t.at(X[ds], k), smax((f(k) / unit - off) / gain, 0))))


@contract("C30", "simulate_harvester: sample by sample through one harvester", on=[H], samples=3, seconds=20)
def _(t):
    fs = t.fs()
    win = t.int("window", 1, 5000, gen=lambda r: r.choice([7, 8, 24, 100]))
    src, n, m, tm, raw = some_recording(t, fs, "ivcurve", win)
    rd = t.m(t.call(Reader, src, verbose=False), "__enter__")
    dt = t.get(rd, "sample_interval_s")
    t.m(rd, "__exit__")
    out = appended(t, m)

    def si(ds, k):
        return t.at(raw[ds], k) * GAINS[ds][0] + GAINS[ds][1]
    if t.sym:
        aV, aI = t.arr("V_out", "i8", n=m, lo=0, hi=5 * 10**6), t.arr("I_out", "i8", n=m, lo=0, hi=10**8)
        gV, gI = t.build(m, "i8", lambda i: -1), t.build(m, "i8", lambda i: -1)
        seen = []
        hrv = t.obj(VirtualHarvesterModel, count=0)
        t.stub(VirtualHarvesterModel, lambda cfg: (seen.append(cfg), hrv)[1], by="C15")

        def sample(self, _voltage_uV, _current_nA):
            k = t.get(self, "count")
            t.put(gV, k, _voltage_uV)
            t.put(gI, k, _current_nA)
            t.set(self, "count", k + 1)
            return t.at(aV, k), t.at(aI, k)
        t.stub(VirtualHarvesterModel.ivcurve_sample, sample, by="C15")
        pru = t.obj(HarvesterPRUConfig, **{k: t.int(k, 0, 2**32 - 1) for k in HarvesterPRUConfig.model_fields if k != "window_size"}, window_size=win)
        t.stub(HarvesterPRUConfig.from_vhrv, lambda cls, data, **kw: (seen.append((data, kw)), pru)[1], by="C18")
        t.stub(Reader.get_voltage_step, lambda self: 0.25, by="C29")
        cfg = t.obj(VirtualHarvesterConfig, name="cv")
    else:
        cfg = VirtualHarvesterConfig(name=t.rng.choice(["cv10", "cv20", "mppt_voc", "mppt_po", "mppt_opt"]))
        with Reader(src, verbose=False) as rd:
            step = rd.get_voltage_step()
        hrv = VirtualHarvesterModel(HarvesterPRUConfig.from_vhrv(
            cfg, for_emu=True, dtype_in=EnergyDType.ivcurve, window_size=win, voltage_step_V=step))
        res = [hrv.ivcurve_sample(_voltage_uV=int(si("voltage", k) * 1e6), _current_nA=int(si("current", k) * 1e9)) for k in range(m)]
        aV, aI = [r[0] for r in res], [r[1] for r in res]
    write = t.choice("write", [False, True])
    dst = t.path(fs.path("out.h5")) if write else None
    r = t.attempt(HS.simulate_harvester, cfg, src, dst)
    t.ensure("works", r.ok)
    if not r.ok:
        return
    if t.sym:
        t.ensure("the harvester gets this configuration", len(seen) == 2 and seen[1] is pru)
        t.ensure("harvester set up for the recording", seen[0][0] is cfg and t.eq(seen[0][1], {
            "for_emu": True, "dtype_in": EnergyDType.ivcurve, "window_size": win, "voltage_step_V": 0.25}))
        t.ensure("voltage of the very sample, in microvolts", t.forall(m, lambda k: is_trunc(t.at(gV, k), si("voltage", k) * 10**6)))
        t.ensure("current of the very sample, in nanoampere", t.forall(m, lambda k: is_trunc(t.at(gI, k), si("current", k) * 10**9)))
        t.ensure("each sample of whole buffers once", eq(t.get(hrv, "count"), m))
    V, I = (lambda k: t.at(aV, k) * 1.0), (lambda k: t.at(aI, k) * 1.0)  # noqa: E731, E741
    t.ensure("energy", eq(r.value, t.sum(m, lambda k: V(k) * I(k)) * 1e-15 * dt))
    if write:
        cal = t.host(CalibrationHarvester)
        output_is(t, out, dst, m, tm, V, I, {"voltage": t.get(cal, "adc_V_Sense"), "current": t.get(cal, "adc_C_Hrv")})


@contract("C30", "simulate_source: each sample through source and target, with the current fed back", on=[S], samples=3, seconds=30)
def _(t):
    fs = t.fs()
    src, n, m, tm, raw = some_recording(t, fs, "ivsample", 0)
    rd = t.m(t.call(Reader, src, verbose=False), "__enter__")
    dt = t.get(rd, "sample_interval_s")
    t.m(rd, "__exit__")
    out = appended(t, m)

    def si(ds, k):
        return t.at(raw[ds], k) * GAINS[ds][0] + GAINS[ds][1]
    if t.sym:
        aV, aI = t.arr("V_out", "i8", n=m, lo=0, hi=5 * 10**6), t.arr("I_out", "f8", n=m, lo=0, hi=10**8)
        aG = t.arr("good", "bool", n=m)
        gV, gI, gT = (t.build(m, "i8", lambda i: -1) for _ in range(3))
        gF = t.build(m, "f8", lambda i: -1)
        gG = t.build(m, "bool", lambda i: False)
        seen = []
        st = t.obj(VirtualSourceModel, count=0, steps=0, cnv=t.obj(VirtualConverterModel))
        t.stub(VirtualSourceModel, lambda *a, **kw: (seen.append((a, kw)), st)[1], by="C16")

        def iterate(self, V_inp_uV, I_inp_nA, I_out_nA):
            k = t.get(st, "count")
            t.put(gV, k, V_inp_uV)
            t.put(gI, k, I_inp_nA)
            t.put(gF, k, I_out_nA)
            t.set(st, "count", k + 1)
            return t.at(aV, k)

        def step(self, voltage_uV, *, pwr_good):
            k = t.get(st, "steps")
            t.put(gT, k, voltage_uV)
            t.put(gG, k, pwr_good)
            t.set(st, "steps", k + 1)
            return t.at(aI, k)
        t.stub(VirtualSourceModel.iterate_sampling, iterate, by="C16")
        t.stub(VirtualConverterModel.get_power_good, lambda self: t.at(aG, t.get(st, "count") - 1), by="C13")
        t.stub(ResistiveTarget.step, step, by="C17")
        t.stub(Reader.get_voltage_step, lambda self: None, by="C29")
        t.stub(Writer.store_config, lambda self, data: None, by="C29")
        cfg = t.obj(VirtualSourceConfig, name="x")
        t.stub(VirtualSourceConfig.model_dump, lambda self, **kw: {}, by="C29")
        target = t.obj(ResistiveTarget)
    else:
        cfg = VirtualSourceConfig(name=t.rng.choice(["direct", "dio_cap", "BQ25504", "BQ25570s"]))
        ohm, ctrl = t.rng.choice([50, 1000, 10000]), t.rng.random() < 0.5
        target, other = ResistiveTarget(ohm, controlled=ctrl), ResistiveTarget(ohm, controlled=ctrl)
        st = VirtualSourceModel(cfg, CalibrationEmulator(), dtype_in=EnergyDType.ivsample, log_intermediate=False, window_size=0, voltage_step_V=None)
        aV, aI, i_nA = [], [], 0
        for k in range(m):
            aV.append(st.iterate_sampling(V_inp_uV=int(si("voltage", k) * 1e6), I_inp_nA=int(si("current", k) * 1e9), I_out_nA=i_nA))
            i_nA = other.step(int(aV[-1]), pwr_good=st.cnv.get_power_good())
            aI.append(i_nA)
    write = t.choice("write", [False, True])
    dst = t.path(fs.path("out.h5")) if write else None
    r = t.attempt(SS.simulate_source, cfg, target, src, dst)
    t.ensure("works", r.ok)
    if not r.ok:
        return
    V, I = (lambda k: t.at(aV, k)), (lambda k: t.at(aI, k))  # noqa: E731, E741
    if t.sym:
        kw = seen[0][1]
        t.ensure("source set up for the recording", len(seen) == 1 and seen[0][0][0] is cfg and kw["dtype_in"] == EnergyDType.ivsample
                 and kw["window_size"] == 0 and kw["voltage_step_V"] is None)
        t.ensure("voltage of the very sample, in microvolts", t.forall(m, lambda k: is_trunc(t.at(gV, k), si("voltage", k) * 10**6)))
        t.ensure("current of the very sample, in nanoampere", t.forall(m, lambda k: is_trunc(t.at(gI, k), si("current", k) * 10**9)))
        t.ensure("each sample of whole buffers once", And(eq(t.get(st, "count"), m), eq(t.get(st, "steps"), m)))
        t.ensure("current drawn before is the load", t.forall(m, lambda k: eq(t.at(gF, k), ite(k > 0, I(k - 1), 0))))
        t.ensure("the target sees the output of that sample", t.forall(m, lambda k: And(
            eq(t.at(gT, k), V(k)), Iff(t.at(gG, k), t.at(aG, k)))))
    t.ensure("energy", eq(r.value, t.sum(m, lambda k: V(k) * I(k) * 1.0) * 1e-15 * dt))
    if write:
        cal = t.host(CalibrationEmulator)
        output_is(t, out, dst, m, tm, V, I, {"voltage": t.get(cal, "dac_V_A"), "current": t.get(cal, "adc_C_A")})
