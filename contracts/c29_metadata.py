"""C29: what is stored beside the samples is what reading returns."""
import operator

import yaml
from shepherd_core.data_models.base.calibration import CalibrationPair
from shepherd_core.data_models.base.calibration import CalibrationSeries
from shepherd_core.data_models.content.energy_environment import EnergyDType
from shepherd_core.reader import Reader
from shepherd_core.writer import Writer

from pyvc.contract import contract
from pyvc.core import And, Implies, Or, eq, le, smin

from contracts.c06_recording import open_rec, recording

W = "shepherd_core.writer:Writer."
R = "shepherd_core.reader:Reader."
LEGAL = [("harvester", "ivsample", 0), ("harvester", "ivcurve", 1), ("harvester", "isc_voc", 0), ("emulator", "ivsample", 0)]


def config(t):
    return t.choice("config", [
        lambda: {"name": t.text("cfg_name"), "samples_n": t.int("cfg_n", lo=0), "virtual_harvester": {"voltage_step_mV": t.real("cfg_step", gt=0, hi=5000)}},
        lambda: {"nested": {"list": [1, 2, t.int("cfg_i", lo=-5, hi=5)], "flag": t.bool("cfg_b")}},
        lambda: {"virtual_harvester": {"voltage_step_mV": None}},
    ])()


@contract("C29", "what a recording was created with is read back", on=[
    W + "__init__", W + "store_config", W + "store_hostname", R + "get_config", R + "get_hostname", R + "get_mode", R + "get_datatype", R + "get_window_samples"])
def _(t):
    mode, dtype, wmin = t.choice("kind", LEGAL)
    window = t.int("window", lo=wmin, hi=10**6, gen=lambda r: r.choice([1, 8, 1000]))
    if not wmin:
        t.assume(eq(window, 0)) if t.sym else None
        window = 0
    fs = t.fs()
    p = fs.path("new.h5") if hasattr(fs, "path") else t.path(fs.dir, "new.h5")
    w = t.new(Writer, p, mode=mode, datatype=dtype, window_samples=window, verbose=None)
    w2 = t.m(w, "__enter__")
    cfg, host = t.choice("has_config", [True, False]), t.choice("has_host", [True, False])
    data = config(t) if cfg else None
    name = t.text("host") if host else None
    if host:
        t.m(w2, "store_hostname", name)
    if cfg:
        t.m(w2, "store_config", data)
    t.m(w2, "__exit__", None, None, None)
    rd = t.new(Reader, p, verbose=None)
    t.ensure("mode", t.eq(t.m(rd, "get_mode"), mode))
    t.ensure("datatype", t.m(rd, "get_datatype") is EnergyDType[dtype])
    t.ensure("window", eq(t.m(rd, "get_window_samples"), window))
    t.ensure("hostname", t.eq(t.m(rd, "get_hostname"), name if host else "unknown"))
    t.ensure("configuration", t.eq(t.m(rd, "get_config"), data if cfg else {}))
    hc = t.m(rd, "get_hrv_config")
    t.ensure("summary for the harvester: data type and window", And(hc["datatype"] is EnergyDType[dtype], eq(hc["window_samples"], window)))


@contract("C29", "attributes missing in old recordings have defaults", on=[R + "get_config", R + "get_hostname", R + "get_mode", R + "get_datatype", R + "get_window_samples"])
def _(t):
    tree, n, *_ = recording(t, n_gen=lambda r: 3, cal=False)
    key, where = t.choice("missing", [("mode", "attrs"), ("window_samples", "data"), ("datatype", "data")])
    (tree["attrs"] if where == "attrs" else tree["data"]["attrs"]).pop(key)
    old = t.choice("old_config", [True, False])
    if old:
        tree["data"]["attrs"]["config"] = "a: 1\n"
    bad = key != "datatype" and t.choice("bad_type", [True, False])
    if bad:
        tree["data"]["attrs"]["datatype"] = "no_such_type"
    fs = t.fs()
    rd = t.attempt(Reader, fs.h5("rec.h5", tree), verbose=None)
    t.ensure("can be opened", rd.ok)
    if rd.ok:
        rd = rd.value
        t.ensure("mode", t.eq(t.m(rd, "get_mode"), "" if key == "mode" else "harvester"))
        t.ensure("window", eq(t.m(rd, "get_window_samples"), 0))
        t.ensure("datatype", t.m(rd, "get_datatype") is (None if key == "datatype" or bad else EnergyDType.ivsample))
        t.ensure("hostname", t.eq(t.m(rd, "get_hostname"), "unknown"))
        t.ensure("configuration of older writers", t.eq(t.m(rd, "get_config"), {"a": 1} if old else {}))


@contract("C29", "the voltage step is the configured one, else the smallest step of the recording in volts", on=[R + "get_voltage_step", R + "get_hrv_config"])
def _(t):
    tree, n, tm, vo, cu = recording(t, datatype="ivcurve", window=8, cal=False, n_gen=lambda r: r.choice([0, 1, 2, 7, 60]))
    kind = t.choice("config", ["none", "given", "other"])
    gain = t.choice("gain", [3e-9, 0.5] if t.sym else [3e-9, 0.5, 1.2345e-7])
    tree["data"]["voltage"].attrs["gain"] = gain
    step = t.real("step_mV", gt=0, hi=5000, gen=lambda r: r.choice([1.0, 4.0, 0.25]))
    if not t.sym:
        import numpy as np
        shape = t.rng.choice(["const", "saw", "fall", "rnd"])
        k = np.arange(n)
        vo[:] = {"const": 0 * k + 1000, "saw": 1000 + 250 * (k % 8), "fall": 10**6 - 3000 * k, "rnd": vo}[shape]
    cfg = {"none": {}, "given": {"virtual_harvester": {"voltage_step_mV": step}}, "other": {"virtual_harvester": {"name": "cv"}, "b": 1}}[kind]
    t.stub(Reader.get_config, lambda self: cfg, by="C29:what a recording was created with is read back")
    if t.sym:
        rd = open_rec(t, tree)
        t.set(rd, "ds_voltage", t.call(operator.getitem, t.get(rd, "h5file"), "data/voltage"))
        t.set(rd, "_cal", t.obj(CalibrationSeries, voltage=t.obj(CalibrationPair, gain=gain, offset=t.real("off"))))
    else:
        tree["attrs"]["config"] = yaml.safe_dump(cfg)
        rd = t.new(Reader, t.fs().h5("rec.h5", tree), verbose=None)
    out = t.attempt_m(rd, "get_voltage_step")
    t.ensure("works", out.ok)
    if not out.ok:
        return
    v = out.value
    if kind == "given":
        t.ensure("configured in millivolts", v is not None and eq(v, step / 1000))
        return
    m = smin(n, 2000)
    if v is None:
        t.ensure("no step at all", t.forall(m - 1, lambda i: eq(t.at(vo, i), t.at(vo, i + 1))))
    else:
        t.ensure("a step", v > 0)
        t.ensure("not above any step up", t.forall(m - 1, lambda i: Implies(t.at(vo, i + 1) > t.at(vo, i), le(v, (t.at(vo, i + 1) - t.at(vo, i)) * gain))))
        t.ensure("not above any step down", t.forall(m - 1, lambda i: Implies(t.at(vo, i + 1) < t.at(vo, i), le(v, (t.at(vo, i) - t.at(vo, i + 1)) * gain))))
        t.ensure("one of the steps", t.exists(m - 1, lambda i: Or(eq(v, (t.at(vo, i + 1) - t.at(vo, i)) * gain), eq(v, (t.at(vo, i) - t.at(vo, i + 1)) * gain))))
