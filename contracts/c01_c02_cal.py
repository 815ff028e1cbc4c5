"""C01, C02, C04: calibration pairs, hardware converters, sysfs export."""
from pyvc.contract import contract
from pyvc.core import And, Implies, Iff, Not, Or, between, eq, ge, is_floor, is_round, is_trunc, ite, le, smax, smin

from shepherd_core import calibration_hw_def as hw
from shepherd_core.data_models.base.calibration import CalibrationCape
from shepherd_core.data_models.base.calibration import CalibrationEmulator
from shepherd_core.data_models.base.calibration import CalibrationHarvester
from shepherd_core.data_models.base.calibration import CalibrationPair
from shepherd_core.data_models.base.calibration import CalibrationSeries

M = "shepherd_core.data_models.base.calibration:"
R2S = M + "CalibrationPair.raw_to_si"
S2R = M + "CalibrationPair.si_to_raw"


def pair(t, n=""):
    return t.model(CalibrationPair, gain=t.real("gain" + n, gt=0, gen=lambda r: 10 ** r.uniform(-10, 2)),
                   offset=t.real("offset" + n, gen=lambda r: r.choice([0.0, r.uniform(-1, 1), -1e-3])), unit=None)


@contract("C01", "raw_to_si scalar", on=[R2S])
def _(t):
    p = pair(t)
    if t.branch(t.bool("use_int")):
        x = t.int("x")
    else:
        x = t.real("x")
    neg = t.bool("allow_negative")
    r = t.m(p, "raw_to_si", x, allow_negative=neg)
    v = x * t.get(p, "gain") + t.get(p, "offset")
    t.ensure("si = raw*gain+offset, clamped", eq(r, ite(And(Not(neg), v < 0), 0, v)))
    t.ensure("is float", t.isinstance(r, float))


@contract("C01", "raw_to_si array", on=[R2S])
def _(t):
    p = pair(t)
    dt = t.choice("dt", ["u4", "u8", "f8"])
    a = t.arr("a", dt)
    neg = t.bool("allow_negative")
    old = t.snap(a)
    r = t.m(p, "raw_to_si", a, allow_negative=neg)
    g, o = t.get(p, "gain"), t.get(p, "offset")
    t.ensure("length", eq(t.len(r), t.len(a)))

    def el(i):
        v = t.at(old, i) * g + o
        return eq(t.at(r, i), ite(And(Not(neg), v < 0), 0, v))
    t.ensure("si = raw*gain+offset, clamped, element by element", t.forall(t.len(a), el))
    t.ensure("argument untouched", t.forall(t.len(a), lambda i: eq(t.at(a, i), t.at(old, i))))


@contract("C01", "si_to_raw scalar", on=[S2R])
def _(t):
    p = pair(t)
    x = t.real("x")
    r = t.m(p, "si_to_raw", x)
    v = (x - t.get(p, "offset")) / t.get(p, "gain")
    t.ensure("nearest integer, never below 0", is_round(r, smax(v, 0)))
    t.ensure("not negative", r >= 0)


@contract("C01", "si_to_raw array", on=[S2R])
def _(t):
    p = pair(t)
    a = t.arr("a", "f8")
    old = t.snap(a)
    r = t.m(p, "si_to_raw", a)
    g, o = t.get(p, "gain"), t.get(p, "offset")
    t.ensure("length", eq(t.len(r), t.len(a)))
    t.ensure("nearest integer, never below 0",
             t.forall(t.len(a), lambda i: is_round(t.at(r, i), smax((t.at(old, i) - o) / g, 0))))
    t.ensure("argument untouched", t.forall(t.len(a), lambda i: eq(t.at(a, i), t.at(old, i))))


@contract("C01", "raw -> si -> raw is the identity on raw values", on=[R2S, S2R])
def _(t):
    p = pair(t)
    t.assume(And(t.get(p, "gain") > 1e-12, t.get(p, "gain") < 1e6, t.get(p, "offset") > -1e3 * t.get(p, "gain"), t.get(p, "offset") < 1e3 * t.get(p, "gain")))
    x = t.int("x", lo=0, hi=2**32 - 1)
    t.ensure("scalar", eq(t.m(p, "si_to_raw", t.m(p, "raw_to_si", x)), x))


@contract("C01", "raw -> si -> raw is the identity on raw arrays", on=[R2S, S2R])
def _(t):
    p = pair(t)
    t.assume(And(t.get(p, "gain") > 1e-12, t.get(p, "gain") < 1e6, t.get(p, "offset") > -1e3 * t.get(p, "gain"), t.get(p, "offset") < 1e3 * t.get(p, "gain")))
    a = t.arr("a", "u4")
    r = t.m(p, "si_to_raw", t.m(p, "raw_to_si", a))
    t.ensure("array", And(eq(t.len(r), t.len(a)), t.forall(t.len(a), lambda i: eq(t.at(r, i), t.at(a, i)))))


@contract("C01", "si -> raw -> si within half a step", on=[R2S, S2R])
def _(t):
    p = pair(t)
    x = t.real("x")
    g, o = t.get(p, "gain"), t.get(p, "offset")
    t.assume(And(x >= o, x - o < 1e6 * g, o < 1e3 * g, o > -1e3 * g))
    r = t.m(p, "raw_to_si", t.m(p, "si_to_raw", x))
    t.ensure("deviation at most half a gain step", between(-g * 0.5000001, r - x, g * 0.5000001))


@contract("C01", "scalar and array agree", on=[R2S, S2R])
def _(t):
    p = pair(t)
    a = t.arr("a", "f8", nmin=1)
    neg = t.bool("allow_negative")
    i = t.int("i", lo=0)
    t.assume(i < t.len(a))
    x = t.at(a, i)
    ra, rs = t.m(p, "raw_to_si", a, allow_negative=neg), t.m(p, "raw_to_si", x, allow_negative=neg)
    t.ensure("raw_to_si", eq(t.at(ra, i), rs))
    sa, ss = t.m(p, "si_to_raw", a), t.m(p, "si_to_raw", x)
    t.ensure("si_to_raw", eq(t.at(sa, i), ss))


# ---------------------------------------------------------------- C02
H = "shepherd_core.calibration_hw_def:"
# documented transfer of cape 2.4: shunt 2 ohm, amplifier 48, ADC 18 bit / 4.096 V / gain 1.25, DAC 16 bit / 2.5 V * 2
FWD = {
    "adc_current_to_raw": (48 * 2.0 * 2**18 / (1.25 * 4.096), 2**18 - 1, "adc_raw_to_current"),
    "adc_voltage_to_raw": (2**18 / (1.25 * 4.096), 2**18 - 1, "adc_raw_to_voltage"),
    "dac_voltage_to_raw": (2**16 / (2.5 * 2), 2**16 - 1, "dac_raw_to_voltage"),
}


def _mk(name, k, top, inv):
    on = [H + name, H + inv]

    @contract("C02", f"{name}: linear, truncated, limited", on=on[:1])
    def _(t):
        f = t.lookup(H + name)
        x = t.real("x", lo=-100, hi=1e6, gen=lambda r: r.uniform(-1, 6))
        r = t.call(f, x)
        n = t.call(f, x, limited=False)
        t.ensure("unlimited code is the truncated linear transfer", is_trunc(n, x * k))
        t.ensure("code in range", And(r >= 0, r <= top))
        t.ensure("limited code is the clamped code", eq(r, smin(smax(n, 0), top)))
        t.ensure("is int", And(t.isinstance(r, int), t.isinstance(n, int)))

    @contract("C02", f"{inv}: linear, limited", on=on[1:])
    def _(t):
        f = t.lookup(H + inv)
        x = t.int("x", lo=-1000, hi=2**20)
        t.ensure("unlimited value is linear", eq(t.call(f, x, limited=False), x / k))
        t.ensure("limited value is that of the clamped code", eq(t.call(f, x), smin(smax(x, 0), top) / k))

    @contract("C02", f"{name}: inverse within one code", on=on)
    def _(t):
        f, g = t.lookup(H + name), t.lookup(H + inv)
        x = t.int("x", lo=0, hi=top)
        r = t.call(f, t.call(g, x))
        t.ensure("at most one code off", And(r - x <= 1, x - r <= 1))
        v = t.real("v", lo=0, hi=1e3, gen=lambda r: r.uniform(0, 6))
        t.assume(v * k < top)
        w = t.call(g, t.call(f, v))
        t.ensure("SI value at most one step off", And(le(v - w, 1 / k), le(w - v, 1e-9 / k)))

    @contract("C02", f"{name}: monotonic", on=on)
    def _(t):
        f, g = t.lookup(H + name), t.lookup(H + inv)
        lim = t.bool("limited")
        x, y = t.real("x", gen=lambda r: r.uniform(-1, 6)), t.real("y", gen=lambda r: r.uniform(-1, 6))
        t.assume(x <= y)
        t.ensure("code grows with value", t.call(f, x, limited=lim) <= t.call(f, y, limited=lim))
        a, b = t.int("a"), t.int("b")
        t.assume(a <= b)
        t.ensure("value grows with code", t.call(g, a, limited=lim) <= t.call(g, b, limited=lim))

    @contract("C02", f"{name}: default calibration has this transfer", on=[M + "CalibrationPair.from_fn", *on])
    def _(t):
        p = t.call(CalibrationPair.from_fn, t.lookup(H + name), unit="X")
        t.ensure("gain is one code, up to truncation of the probe", And(t.get(p, "gain") * (k + 1) >= 1, t.get(p, "gain") * (k - 1) <= 1))
        t.ensure("zero maps to zero", And(t.get(p, "offset") * k < 1, t.get(p, "offset") * k > -1))
        t.ensure("unit", t.eq(t.get(p, "unit"), "X"))


for _n, (_k, _t, _i) in FWD.items():
    _mk(_n, _k, _t, _i)


@contract("C02", "from_fn recovers gain and offset of any linear converter", on=[M + "CalibrationPair.from_fn"])
def _(t):
    a = t.real("a", gt=0, gen=lambda r: 10 ** r.uniform(-2, 6))
    b = t.real("b", gen=lambda r: r.uniform(-100, 100))

    def fn(x, *, limited=True):
        if limited:
            return 0
        return a * x + b
    p = t.call(CalibrationPair.from_fn, fn)
    x = t.real("x", gen=lambda r: r.uniform(-5, 5))
    raw = a * x + b
    t.ensure("raw maps back to the value", eq(t.m(p, "raw_to_si", raw), x, scale=10 + abs(100 / a) if not t.sym else None))


@contract("C02", "every default channel is probed from its converter", on=[M + "CalibrationHarvester", M + "CalibrationEmulator"])
def _(t):
    want = {CalibrationHarvester: {"dac_V_Hrv": "dac_voltage_to_raw", "dac_V_Sim": "dac_voltage_to_raw",
                                   "adc_V_Sense": "adc_voltage_to_raw", "adc_C_Hrv": "adc_current_to_raw"},
            CalibrationEmulator: {"dac_V_A": "dac_voltage_to_raw", "dac_V_B": "dac_voltage_to_raw",
                                  "adc_C_A": "adc_current_to_raw", "adc_C_B": "adc_current_to_raw"}}
    for cls, ch in want.items():
        cal = t.new(cls)
        for c, n in ch.items():
            p, k = t.get(cal, c), FWD[n][0]
            t.ensure(f"{c} gain", And(t.get(p, "gain") * (k + 1) >= 1, t.get(p, "gain") * (k - 1) <= 1))
            t.ensure(f"{c} offset", And(t.get(p, "offset") * k < 1, t.get(p, "offset") * k > -1))


# ---------------------------------------------------------------- C04
def gpair(t, n):
    return t.model(CalibrationPair, gain=t.real("gain_" + n, gt=0, gen=lambda r: 10 ** r.uniform(-12, 4)),
                   offset=t.real("offset_" + n, gen=lambda r: r.choice([0.0, r.uniform(-1, 1), r.uniform(-1e4, 1e4), 2.147483647, -2.147483648])),
                   unit=None)


def _sysfs(t, cal, want):
    out = t.attempt_m(cal, "export_for_sysfs")
    fits = True
    for k, v in want.items():
        lo, hi = (0, 2**32) if "gain" in k else (-(2**31), 2**31)
        # range of the rounded value, stated on the exact one with a guard of half a count at the borders
        fits = And(fits, v >= lo - 0.499, v <= hi - 0.501)
    if out.ok:
        d = out.value
        t.ensure("keys", t.eq(t.call(sorted, t.call(list, d)), sorted(want)))
        for k, v in want.items():
            lo, hi = (0, 2**32) if "gain" in k else (-(2**31), 2**31)
            t.ensure(f"{k} rounded to nearest", is_round(d[k], v))
            t.ensure(f"{k} in range", And(d[k] >= lo, d[k] < hi))
    else:
        t.ensure("rejected with ValueError", out.raised(ValueError))
        t.ensure("only rejected if out of range", Not(fits))


@contract("C04", "CalibrationHarvester.export_for_sysfs", on=[M + "CalibrationHarvester.export_for_sysfs"])
def _(t):
    p = {n: gpair(t, n) for n in ("dac_V_Hrv", "dac_V_Sim", "adc_V_Sense", "adc_C_Hrv")}
    cal = t.model(CalibrationHarvester, **p)

    def g(n):
        return t.get(p[n], "gain")

    def o(n):
        return t.get(p[n], "offset")
    _sysfs(t, cal, {
        "adc_current_gain": g("adc_C_Hrv") * 1e9 * 256, "adc_current_offset": o("adc_C_Hrv") * 1e9,
        "adc_voltage_gain": g("adc_V_Sense") * 1e6 * 256, "adc_voltage_offset": o("adc_V_Sense") * 1e6,
        "dac_voltage_gain": 2**20 / (g("dac_V_Hrv") * 1e6), "dac_voltage_offset": o("dac_V_Hrv") * 1e6})


@contract("C04", "CalibrationEmulator.export_for_sysfs", on=[M + "CalibrationEmulator.export_for_sysfs"])
def _(t):
    p = {n: gpair(t, n) for n in ("dac_V_A", "dac_V_B", "adc_C_A", "adc_C_B")}
    cal = t.model(CalibrationEmulator, **p)

    def g(n):
        return t.get(p[n], "gain")

    def o(n):
        return t.get(p[n], "offset")
    _sysfs(t, cal, {
        "adc_current_gain": g("adc_C_A") * 1e9 * 256, "adc_current_offset": o("adc_C_A") * 1e9,
        "adc_voltage_gain": 1e6 * 256, "adc_voltage_offset": 0,
        "dac_voltage_gain": 2**20 / (g("dac_V_A") * 1e6), "dac_voltage_offset": o("dac_V_A") * 1e6})
