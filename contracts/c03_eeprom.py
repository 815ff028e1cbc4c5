"""C03: EEPROM byte string; C05 (first part): calibration of a recording."""
import struct

from contracts._gen import num_field, sqrt  # noqa: F401
from pyvc.contract import contract
from pyvc.core import And, eq

from shepherd_core.data_models.base.calibration import CalibrationCape
from shepherd_core.data_models.base.calibration import CalibrationEmulator
from shepherd_core.data_models.base.calibration import CalibrationHarvester
from shepherd_core.data_models.base.calibration import CalibrationPair
from shepherd_core.data_models.base.calibration import CalibrationSeries
from shepherd_core.data_models.base.calibration import CapeData

M = "shepherd_core.data_models.base.calibration:"
HRV = ("dac_V_Hrv", "dac_V_Sim", "adc_V_Sense", "adc_C_Hrv")
EMU = ("dac_V_A", "dac_V_B", "adc_C_A", "adc_C_B")


def pair(t, n, unit=None):
    return t.model(CalibrationPair, gain=t.real("gain_" + n, gt=0, gen=lambda r: r.choice([1.0, 3.0, 10 ** r.uniform(-12, 4)])),
                   offset=t.real("offset_" + n, gen=lambda r: r.choice([0.0, -0.0, 1.0, r.uniform(-1, 1), r.uniform(-1e4, 1e4)])), unit=unit)


def cape_cal(t, cape=None, host=None):
    units = t.choice("units", [None, "V"])
    p = {n: pair(t, n, units) for n in HRV + EMU}
    cal = t.model(CalibrationCape, cape=cape, host=host, harvester=t.model(CalibrationHarvester, **{n: p[n] for n in HRV}),
                  emulator=t.model(CalibrationEmulator, **{n: p[n] for n in EMU}))
    return cal, p


@contract("C03", "to_bytestr: documented layout", on=[M + "CalibrationCape.to_bytestr", M + "dict_generator"])
def _(t):
    cape = t.host(lambda: CapeData(serial_number="123", cal_date="2024-01-01")) if t.choice("cape", [True, False]) else None
    cal, p = cape_cal(t, cape, host=t.choice("host", [None, "sheep0"]))
    b = t.m(cal, "to_bytestr")
    t.ensure("128 bytes", eq(t.len(b), 128))
    v = t.call(struct.unpack, ">16d", b)
    for i, n in enumerate(HRV + EMU):
        t.ensure(f"{n} gain at its place", eq(t.at(v, 2 * i), t.get(p[n], "gain")))
        t.ensure(f"{n} offset at its place", eq(t.at(v, 2 * i + 1), t.get(p[n], "offset")))


@contract("C03", "from_bytestr: every channel from its place", on=[M + "CalibrationCape.from_bytestr", M + "dict_generator"])
def _(t):
    vals = []
    for n in HRV + EMU:
        vals.append(t.real("gain_" + n, gt=0, gen=lambda r: r.choice([1.0, 3.0, 10 ** r.uniform(-12, 4)])))
        vals.append(t.real("offset_" + n, gen=lambda r: r.choice([0.0, 1.0, r.uniform(-1e4, 1e4)])))
    b = t.call(struct.pack, ">16d", *vals)
    cape = t.host(lambda: CapeData(serial_number="123", cal_date="2024-01-01")) if t.choice("cape", [True, False]) else None
    cal = t.call(CalibrationCape.from_bytestr, b, cape=cape)
    for part, names, off in (("harvester", HRV, 0), ("emulator", EMU, 8)):
        c = t.get(cal, part)
        for i, n in enumerate(names):
            q = t.get(c, n)
            t.ensure(f"{n} gain", eq(t.get(q, "gain"), vals[off + 2 * i]))
            t.ensure(f"{n} offset", eq(t.get(q, "offset"), vals[off + 2 * i + 1]))
    if cape is None:
        t.ensure("no cape data", t.get(cal, "cape") is None)
    else:
        t.ensure("cape data passed along", t.eq(t.get(t.get(cal, "cape"), "serial_number"), "123"))


@contract("C03", "round trip", on=[M + "CalibrationCape.to_bytestr", M + "CalibrationCape.from_bytestr"])
def _(t):
    cal, p = cape_cal(t)
    back = t.call(CalibrationCape.from_bytestr, t.m(cal, "to_bytestr"))
    for part, names in (("harvester", HRV), ("emulator", EMU)):
        for n in names:
            q = t.get(t.get(back, part), n)
            t.ensure(f"{n} survives", And(eq(t.get(q, "gain"), t.get(p[n], "gain")), eq(t.get(q, "offset"), t.get(p[n], "offset"))))


@contract("C03", "byte strings of another length are rejected", on=[M + "CalibrationCape.from_bytestr"])
def _(t):
    n = t.choice("size", [0, 1, 8, 64, 120, 127, 129, 130, 136, 144, 192, 256])
    r = t.attempt(CalibrationCape.from_bytestr, b"?" * n)
    t.ensure("rejected", r.raised(struct.error, ValueError, IndexError))


# ------------------------------------------------------------------ C05
@contract("C05", "from_cal: channels of the chosen port", on=[M + "CalibrationSeries.from_cal"])
def _(t):
    _, p = cape_cal(t)
    kind = t.choice("kind", ["harvester", "emulator"])
    port_a = t.bool("port_a")
    if kind == "harvester":
        cal = t.model(CalibrationHarvester, **{n: p[n] for n in HRV})
        s = t.call(CalibrationSeries.from_cal, cal, emu_port_a=port_a)
        want = "adc_V_Sense", "adc_C_Hrv"
    else:
        cal = t.model(CalibrationEmulator, **{n: p[n] for n in EMU})
        s = t.call(CalibrationSeries.from_cal, cal, emu_port_a=port_a)
        want = ("dac_V_A", "adc_C_A") if t.branch(port_a) else ("dac_V_B", "adc_C_B")
    for f, n in zip(("voltage", "current"), want):
        q = t.get(s, f)
        for a in ("gain", "offset"):
            t.ensure(f"{f} {a} of the recorded channel", eq(t.get(q, a), t.get(p[n], a)))
    q = t.get(s, "time")
    t.ensure("time in nanoseconds", And(eq(t.get(q, "gain"), 1e-9), eq(t.get(q, "offset"), 0)))
