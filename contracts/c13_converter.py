"""C13, C14: virtual converter."""
from pyvc.contract import contract
from pyvc.core import And, Implies, Iff, Not, Or, between, eq, ge, is_floor, is_round, is_trunc, ite, le, smax, smin

from shepherd_core.data_models.base.calibration import CalibrationEmulator
from shepherd_core.data_models.base.calibration import CalibrationPair
from shepherd_core.data_models.content.virtual_source import ConverterPRUConfig
from shepherd_core.vsource.virtual_converter_model import PruCalibration
from shepherd_core.vsource.virtual_converter_model import VirtualConverterModel

M = "shepherd_core.vsource.virtual_converter_model:"
C = M + "VirtualConverterModel."
U32 = 2**32 - 1

VOLT = lambda r: r.choice([0, 1, 1000, 500_000, r.randint(0, 5_000_000), r.randint(0, 10_000_000)])
CURR = lambda r: r.choice([0, 1, r.randint(0, 10_000), r.randint(0, 50_000_000)])


def cfg(t, lut=False, **over):
    n = 12
    f = dict(
        converter_mode=0, interval_startup_delay_drain_n=t.int("drain_n", 0, U32, gen=lambda r: r.choice([0, 0, 1, 5])),
        V_input_max_uV=t.int("V_input_max", 0, U32, gen=VOLT), I_input_max_nA=t.int("I_input_max", 0, U32, gen=CURR),
        V_input_drop_uV=t.int("V_input_drop", 0, U32, gen=lambda r: r.choice([0, 300_000, VOLT(r)])),
        R_input_kOhm_n22=t.int("R_n22", 0, U32, gen=lambda r: r.choice([0, 4194, 41943, r.randint(0, 2**22)])),
        Constant_us_per_nF_n28=t.int("const_n28", 0, U32, gen=lambda r: r.choice([0, 26844, 268435, r.randint(0, 2**28)])),
        V_intermediate_init_uV=t.int("V_init", 0, U32, gen=VOLT),
        I_intermediate_leak_nA=t.int("I_leak", 0, U32, gen=CURR),
        V_enable_output_threshold_uV=t.int("V_en", 0, U32, gen=VOLT),
        V_disable_output_threshold_uV=t.int("V_dis", 0, U32, gen=VOLT),
        dV_enable_output_uV=t.int("dV_en", 0, U32, gen=lambda r: r.choice([0, 100_000, VOLT(r)])),
        interval_check_thresholds_n=t.int("check_n", 0, U32, gen=lambda r: r.choice([0, 1, 2, 5, 6400])),
        V_pwr_good_enable_threshold_uV=t.int("V_pg_en", 0, U32, gen=VOLT),
        V_pwr_good_disable_threshold_uV=t.int("V_pg_dis", 0, U32, gen=VOLT),
        immediate_pwr_good_signal=t.int("pg_imm", 0, 1),
        V_output_log_gpio_threshold_uV=t.int("V_gpio", 0, U32, gen=VOLT),
        V_input_boost_threshold_uV=t.int("V_boost", 0, U32, gen=VOLT),
        V_intermediate_max_uV=t.int("V_max", 0, U32, gen=VOLT), V_output_uV=t.int("V_output", 0, U32, gen=VOLT),
        V_buck_drop_uV=t.int("V_buck_drop", 0, U32, gen=lambda r: r.choice([0, 100_000, VOLT(r)])),
        LUT_input_V_min_log2_uV=t.int("lut_v", 0, 20), LUT_input_I_min_log2_nA=t.int("lut_i", 0, 20),
        LUT_output_I_min_log2_nA=t.int("lut_o", 0, 20),
        LUT_inp_efficiency_n8=[[t.int(f"L{i}_{j}", 0, 255) if lut else 17 * i + j for j in range(n)] for i in range(n)],
        LUT_out_inv_efficiency_n4=[t.int(f"O{i}", 0, 2**14) if lut else 16 + 3 * i for i in range(n)],
    )
    f.update(over)
    return t.model(ConverterPRUConfig, **f)


def pru_cal(t):
    def pr(n, lo, hi):
        return t.model(CalibrationPair, gain=t.real("gain_" + n, gt=0, gen=lambda r: 10 ** r.uniform(lo, hi)),
                       offset=t.real("offset_" + n, gen=lambda r: r.choice([0.0, r.uniform(-1e-4, 1e-4)])), unit=None)
    emu = t.model(CalibrationEmulator, dac_V_A=pr("dacA", -5, -4), adc_C_A=pr("adcA", -8, -6))
    return t.new(PruCalibration, emu)


def cnv(t, config=None, cal=None):
    """Converter in an arbitrary state."""
    config = cfg(t) if config is None else config
    cal = pru_cal(t) if cal is None else cal
    o = t.new(VirtualConverterModel, config, cal)
    for n in ("enable_storage", "enable_boost", "enable_buck", "feedback_to_hrv", "power_good", "is_outputting"):
        t.set(o, n, t.bool(n))
    t.set(o, "V_mid_uV", t.real("V_mid", lo=0, hi=2**32, gen=lambda r: float(VOLT(r))))
    t.set(o, "P_inp_fW", t.real("P_inp", lo=0, gen=lambda r: r.choice([0.0, 10 ** r.uniform(0, 15)])))
    t.set(o, "P_out_fW", t.real("P_out", lo=0, gen=lambda r: r.choice([0.0, 10 ** r.uniform(0, 15)])))
    t.set(o, "V_input_uV", t.real("V_inp_last", lo=0, gen=lambda r: float(VOLT(r))))
    t.set(o, "V_input_request_uV", t.real("V_req", lo=0, gen=lambda r: float(VOLT(r))))
    t.set(o, "V_out_dac_uV", t.real("V_out_dac", lo=0, gen=lambda r: float(VOLT(r))))
    t.set(o, "V_out_dac_raw", t.int("V_out_raw", 0, 65535))
    t.set(o, "sample_count", t.int("sample_count", 0, 2**33, gen=lambda r: r.choice([0, 1, 2, 4, 5, 0xFFFFFFF0])))
    t.set(o, "interval_startup_disabled_drain_n", t.int("drain_now", 0, U32, gen=lambda r: r.choice([0, 0, 1, 3])))
    return o


def limited(t, o, c, V, I):
    """Documented input limiting: diode drop, then the configured maxima."""
    V, I = smax(0, V), smax(0, I)
    drop = t.get(c, "V_input_drop_uV")
    V = ite(V > drop, V - drop, 0)
    return smin(V, t.get(c, "V_input_max_uV")), smin(I, t.get(c, "I_input_max_nA"))


STATE = ("V_mid_uV", "P_inp_fW", "P_out_fW", "V_input_request_uV", "V_out_dac_uV", "V_out_dac_raw", "sample_count",
         "is_outputting", "power_good", "interval_startup_disabled_drain_n", "V_input_uV",
         "enable_storage", "enable_boost", "enable_buck", "feedback_to_hrv", "dV_enable_output_uV",
         "V_enable_output_threshold_uV", "V_disable_output_threshold_uV", "R_input_kOhm", "Constant_us_per_nF")


def others(t, o, old, mods):
    for n in STATE:
        if n not in mods:
            t.ensure(f"{n} unchanged", t.eq(t.get(o, n), old[n]))


def state(t, o):
    return {n: t.get(o, n) for n in STATE}


@contract("C13", "__init__: initial state from the configuration", on=[C + "__init__"])
def _(t):
    mode = t.int("mode", 0, 31)
    c = cfg(t, converter_mode=mode)
    o = t.new(VirtualConverterModel, c, pru_cal(t))
    t.ensure("storage flag", Iff(t.get(o, "enable_storage"), eq(mode % 2, 1)))
    t.ensure("boost flag", Iff(t.get(o, "enable_boost"), mode // 2 % 2 == 1))
    t.ensure("buck flag", Iff(t.get(o, "enable_buck"), mode // 4 % 2 == 1))
    t.ensure("log flag", Iff(t.get(o, "enable_log_mid"), mode // 8 % 2 == 1))
    t.ensure("feedback flag", Iff(t.get(o, "feedback_to_hrv"), mode // 16 % 2 == 1))
    t.ensure("storage starts at the configured voltage", eq(t.get(o, "V_mid_uV"), t.get(c, "V_intermediate_init_uV")))
    t.ensure("no power yet", And(eq(t.get(o, "P_inp_fW"), 0), eq(t.get(o, "P_out_fW"), 0)))
    t.ensure("input resistance unscaled", eq(t.get(o, "R_input_kOhm") * 2**22, t.get(c, "R_input_kOhm_n22")))
    t.ensure("capacitor constant unscaled", eq(t.get(o, "Constant_us_per_nF") * 2**28, t.get(c, "Constant_us_per_nF_n28")))
    t.ensure("enable threshold covers the enable drop", eq(t.get(o, "V_enable_output_threshold_uV"),
             smax(t.get(c, "dV_enable_output_uV"), t.get(c, "V_enable_output_threshold_uV"))))
    t.ensure("disable threshold", eq(t.get(o, "V_disable_output_threshold_uV"), t.get(c, "V_disable_output_threshold_uV")))
    t.ensure("enable drop", eq(t.get(o, "dV_enable_output_uV"), t.get(c, "dV_enable_output_uV")))
    t.ensure("starts switched off", Not(t.get(o, "is_outputting")))
    t.ensure("drain delay", eq(t.get(o, "interval_startup_disabled_drain_n"), t.get(c, "interval_startup_delay_drain_n")))


@contract("C13", "calc_inp_power: limits and power", on=[C + "calc_inp_power"])
def _(t):
    c = cfg(t, lut=False)
    o = cnv(t, c)
    V, I = t.real("V", gen=lambda r: float(VOLT(r))), t.real("I", gen=lambda r: float(CURR(r)))
    old = state(t, o)
    ret = t.m(o, "calc_inp_power", V, I)
    Vl, Il = limited(t, o, c, V, I)
    P, Vm0 = t.get(o, "P_inp_fW"), old["V_mid_uV"]
    t.ensure("input voltage: drop, then limited", eq(t.get(o, "V_input_uV"), Vl))
    t.ensure("power is not negative", P >= 0)
    t.ensure("returned power is the rounded state", is_round(ret, P))
    boost, stor, fb = old["enable_boost"], old["enable_storage"], old["feedback_to_hrv"]
    if t.branch(boost):
        Ve = ite(Vl < t.get(c, "V_input_boost_threshold_uV"), 0, Vl)
        eta = t.m(o, "get_input_efficiency", Ve, Il)
        t.ensure("boost: power is efficiency * voltage * current", eq(P, eta * Ve * Il))
        t.ensure("boost: none below threshold", Implies(Vl < t.get(c, "V_input_boost_threshold_uV"), eq(P, 0)))
        others(t, o, old, ("P_inp_fW", "V_input_uV"))
    elif t.branch(stor):
        drop = Il * t.get(o, "R_input_kOhm")
        diff = ite(Vl >= Vm0, Vl - Vm0, 0)
        Ve = ite(drop > diff, Vm0, Vl - drop)
        req = Vm0 + drop + t.get(c, "V_input_drop_uV")
        t.ensure("feedback requests storage voltage plus drops", eq(t.get(o, "V_input_request_uV"), ite(fb, req, old["V_input_request_uV"])))
        t.ensure("diode: power is voltage * current behind the resistor",
                 eq(P, ite(And(Not(fb), Ve < Vm0), 0, Ve) * Il))
        others(t, o, old, ("P_inp_fW", "V_input_uV", "V_input_request_uV"))
    else:
        t.ensure("direct: storage follows input", eq(t.get(o, "V_mid_uV"), Vl))
        t.ensure("direct: no stored power", eq(P, 0))
        others(t, o, old, ("P_inp_fW", "V_input_uV", "V_mid_uV"))


@contract("C13", "get_input_efficiency: table entry", on=[C + "get_input_efficiency"])
def _(t):
    c = cfg(t, lut=True)
    o = t.new(VirtualConverterModel, c, t.new(PruCalibration))
    V = t.real("V", lo=0, hi=2**32, gen=lambda r: r.choice([float(VOLT(r)), 2.0 ** r.randint(0, 31)]))
    I = t.real("I", lo=0, hi=2**32, gen=lambda r: r.choice([float(CURR(r)), 2.0 ** r.randint(0, 31)]))
    eta = t.m(o, "get_input_efficiency", V, I)
    pv, pc = t.int("pv", 0, 11), t.int("pc", 0, 11)
    sv, si = 2 ** t.get(c, "LUT_input_V_min_log2_uV"), 2 ** t.get(c, "LUT_input_I_min_log2_nA")
    row = And(Or(pv * sv <= V, eq(pv, 0)), Or(V < (pv + 1) * sv, eq(pv, 11)))
    col = And(Or((2 ** pc) * si <= I, eq(pc, 0)), Or(I < (2 ** (pc + 1)) * si, eq(pc, 11)))
    want = t.at(t.at(t.get(c, "LUT_inp_efficiency_n8"), pv), pc)
    t.ensure("entry of that voltage and log2 current", Implies(And(row, col), eq(eta * 256, want)))
    t.ensure("efficiency is a fraction", And(eta >= 0, eta < 1))


@contract("C13", "get_output_inv_efficiency: table entry", on=[C + "get_output_inv_efficiency"])
def _(t):
    c = cfg(t, lut=True)
    o = t.new(VirtualConverterModel, c, t.new(PruCalibration))
    I = t.real("I", lo=0, hi=2**32, gen=lambda r: r.choice([float(CURR(r)), 2.0 ** r.randint(0, 31)]))
    eta = t.m(o, "get_output_inv_efficiency", I)
    pc = t.int("pc", 0, 11)
    si = 2 ** t.get(c, "LUT_output_I_min_log2_nA")
    col = And(Or((2 ** pc) * si <= I, eq(pc, 0)), Or(I < (2 ** (pc + 1)) * si, eq(pc, 11)))
    t.ensure("entry of that log2 current", Implies(col, eq(eta * 16, t.at(t.get(c, "LUT_out_inv_efficiency_n4"), pc))))


@contract("C13", "update_cap_storage: energy balance and bounds", on=[C + "update_cap_storage"])
def _(t):
    c = cfg(t)
    o = cnv(t, c)
    old = state(t, o)
    ret = t.m(o, "update_cap_storage")
    V, V0 = t.get(o, "V_mid_uV"), old["V_mid_uV"]
    top = smax(t.get(c, "V_intermediate_max_uV"), 1)
    t.ensure("between 1 uV and the maximum", And(V >= 1, V <= top))
    dV = (old["P_inp_fW"] - old["P_out_fW"]) / smax(1, V0) * old["Constant_us_per_nF"]
    Vn = V0 + ite(old["enable_storage"], dV, 0)
    t.ensure("net power over voltage times constant, clamped", eq(V, smax(1, smin(Vn, top)), scale=V0))
    t.ensure("returned value is the rounded state", is_round(ret, V))
    others(t, o, old, ("V_mid_uV",))


# ---------------------------------------------------------------- C14
P = M + "PruCalibration."


@contract("C13", "conv_adc_raw_to_nA: current is not negative, nothing is lost", on=[P + "conv_adc_raw_to_nA"])
def _(t):
    k = pru_cal(t)
    off = t.get(t.get(t.get(k, "cal"), "adc_C_A"), "offset")
    gain = t.get(t.get(t.get(k, "cal"), "adc_C_A"), "gain")
    t.set(k, "negative_residue_nA", t.real("residue", lo=0, hi=60000, gen=lambda r: r.choice([0.0, 60000.0, r.uniform(0, 60000)])))
    res0 = t.get(k, "negative_residue_nA")
    raw = t.int("raw", 0, 2**18 - 1, gen=lambda r: r.choice([0, 1, 5, r.randint(0, 2**18 - 1)]))
    si = (raw * gain + off) * 10**9
    I = t.m(k, "conv_adc_raw_to_nA", raw)
    res = t.get(k, "negative_residue_nA")
    t.ensure("not negative", I >= 0)
    t.ensure("residue stays bounded", And(res >= 0, res <= 60000))
    if t.branch(off >= 0):
        t.ensure("calibrated current in nA", eq(I, si))
        t.ensure("no residue without negative offset", eq(res, res0))
    else:
        t.ensure("residue is compensated", Or(eq(I - res, si - res0, scale=res0 + abs(si) + 1), And(eq(I, 0), eq(res, 60000), res0 - si >= 60000)))


@contract("C13", "calc_out_power: load plus leakage", on=[C + "calc_out_power"])
def _(t):
    c = cfg(t)
    cal = t.model(CalibrationEmulator, adc_C_A=t.model(CalibrationPair, gain=t.real("g", gt=0, gen=lambda r: 10 ** r.uniform(-9, -6)),
                                                       offset=t.real("off", lo=0, gen=lambda r: 0.0), unit=None))
    k = t.new(PruCalibration, cal)
    o = cnv(t, c, k)
    old = state(t, o)
    raw = t.int("raw", gen=lambda r: r.randint(-10, 2**18 + 10))
    ret = t.m(o, "calc_out_power", raw)
    lim = smin(smax(raw, 0), 2**18 - 1)
    pair = t.get(cal, "adc_C_A")
    I = (lim * t.get(pair, "gain") + t.get(pair, "offset")) * 10**9
    eta = t.m(o, "get_output_inv_efficiency", I) if t.branch(old["enable_buck"]) else 1
    drain = old["interval_startup_disabled_drain_n"]
    Pw = eta * old["V_out_dac_uV"] * I + old["V_mid_uV"] * t.get(c, "I_intermediate_leak_nA")
    t.ensure("power is voltage * current / efficiency plus leakage, none during start-up",
             eq(t.get(o, "P_out_fW"), ite(drain > 0, 0, Pw)))
    t.ensure("start-up counter runs down", eq(t.get(o, "interval_startup_disabled_drain_n"), ite(drain > 0, drain - 1, 0)))
    t.ensure("not negative", t.get(o, "P_out_fW") >= 0)
    t.ensure("returned value is the rounded state", is_round(ret, t.get(o, "P_out_fW")))
    others(t, o, old, ("P_out_fW", "interval_startup_disabled_drain_n"))


@contract("C14", "conv_uV_to_dac_raw: 16 bit code", on=[P + "conv_uV_to_dac_raw"])
def _(t):
    k = pru_cal(t)
    p = t.get(t.get(k, "cal"), "dac_V_A")
    V = t.real("V", lo=0, hi=2**33, gen=lambda r: float(VOLT(r)))
    r = t.m(k, "conv_uV_to_dac_raw", V)
    t.ensure("fits 16 bit", And(r >= 0, r <= 65535))
    x = smax((V / 10**6 - t.get(p, "offset")) / t.get(p, "gain"), 0)
    t.ensure("nearest code of the voltage, limited", Or(is_round(r, x), And(eq(r, 65535), x >= 65535)))


@contract("C14", "update_states_and_output", on=[C + "update_states_and_output"])
def _(t):
    c = cfg(t)
    k = pru_cal(t)
    o = cnv(t, c, k)
    for n, f in (("dV_enable_output_uV", "dV_en"), ("V_enable_output_threshold_uV", "V_en"), ("V_disable_output_threshold_uV", "V_dis")):
        t.set(o, n, t.int(f + "_now", 0, U32, gen=VOLT))
    old = state(t, o)
    V0, on0, pg0 = old["V_mid_uV"], old["is_outputting"], old["power_good"]
    ret = t.m(o, "update_states_and_output")
    n = old["sample_count"] + 1
    chk = n >= t.get(c, "interval_check_thresholds_n")
    t.ensure("threshold check once per interval", eq(t.get(o, "sample_count"), ite(chk, 0, n)))
    on1 = t.get(o, "is_outputting")
    rise = And(chk, Not(on0), V0 >= old["V_enable_output_threshold_uV"])
    t.ensure("switched on only at or above the enable threshold", Implies(And(on1, Not(on0)), rise))
    t.ensure("switched on at or above the enable threshold", Implies(rise, on1))
    t.ensure("switched off exactly below the disable threshold",
             Implies(on0, Iff(Not(on1), And(chk, V0 < old["V_disable_output_threshold_uV"]))))
    V1 = t.get(o, "V_mid_uV")
    t.ensure("switching on costs the enable drop, nothing else changes storage",
             eq(V1, ite(rise, V0 - old["dV_enable_output_uV"], V0), scale=V0))
    pg1 = t.get(o, "power_good")
    upd = Or(chk, eq(t.get(c, "immediate_pwr_good_signal"), 1))
    t.ensure("power good only changes when checked", Implies(Not(upd), Iff(pg1, pg0)))
    t.ensure("power good falls exactly at or below its disable threshold",
             Implies(And(upd, pg0), Iff(Not(pg1), V0 <= t.get(c, "V_pwr_good_disable_threshold_uV"))))
    t.ensure("power good rises exactly at or above its enable threshold while the output is on",
             Implies(And(upd, Not(pg0)), Iff(pg1, And(V0 >= t.get(c, "V_pwr_good_enable_threshold_uV"), on1))))
    driven = Or(on1, old["interval_startup_disabled_drain_n"] > 0)
    out, drop, vset = t.get(o, "V_out_dac_uV"), t.get(c, "V_buck_drop_uV"), t.get(c, "V_output_uV")
    avail = smax(V1 - drop, 0)
    t.ensure("no output while switched off", Implies(Not(driven), And(eq(out, 0), eq(ret, 0))))
    t.ensure("output is the regulated set-point or what the storage provides",
             Implies(driven, eq(out, ite(And(old["enable_buck"], V1 - drop > vset), vset, avail), scale=V1 + drop)))
    t.ensure("output never exceeds storage minus drop", le(out, smax(avail, 0), scale=V1 + drop))
    t.ensure("DAC code belongs to the output voltage", Implies(driven, eq(ret, t.m(k, "conv_uV_to_dac_raw", out))))
    t.ensure("DAC code fits 16 bit", And(ret >= 0, ret <= 65535))
    t.ensure("DAC code kept", eq(t.get(o, "V_out_dac_raw"), ret))
    t.ensure("gpio logging skipped below its threshold",
             Iff(t.get(o, "vsource_skip_gpio_logging"), out < t.get(c, "V_output_log_gpio_threshold_uV")))
    others(t, o, old, ("sample_count", "is_outputting", "V_mid_uV", "power_good", "V_out_dac_uV", "V_out_dac_raw"))
