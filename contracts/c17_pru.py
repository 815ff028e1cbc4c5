"""C17, C18: configurations for the real-time unit."""
from contracts._gen import num_field, sqrt
from pyvc.contract import contract
from pyvc.core import And, Implies, Iff, Not, Or, between, eq, ge, is_floor, is_round, is_trunc, ite, le, smax, smin

from shepherd_core.data_models.base.calibration import CalibrationHarvester
from shepherd_core.data_models.content.energy_environment import EnergyDType
from shepherd_core.data_models.content.virtual_harvester import AlgorithmDType
from shepherd_core.data_models.content.virtual_harvester import HarvesterPRUConfig
from shepherd_core.data_models.content.virtual_harvester import VirtualHarvesterConfig
from shepherd_core.data_models.content.virtual_source import ConverterPRUConfig
from shepherd_core.data_models.content.virtual_source import VirtualSourceConfig
from shepherd_core.testbed_client.client_abc_fix import AbcClient
from shepherd_core.testbed_client.client_abc_fix import FixturesClient

S = "shepherd_core.data_models.content.virtual_source:"
HV = "shepherd_core.data_models.content.virtual_harvester:"
MV = lambda r: r.choice([0.0, 1.0, 2000.0, 3000.0, round(r.uniform(0, 5000), 3)])
CAP = lambda r: r.choice([0.0, 0.5, 1.0, 10.0, 100.0, r.uniform(0, 200)])
GENS = {"C_intermediate_uF": CAP, "C_output_uF": CAP}
SKIP = ("id", "name", "description", "comment", "created", "updated_last", "owner", "group", "visible2group", "visible2all",
        "harvester", "LUT_input_efficiency", "LUT_output_efficiency")


def vsrc(t, lut=False):
    n = 12
    f = {k: num_field(t, VirtualSourceConfig, k, gen=GENS.get(k, MV if k.endswith("_mV") else None))
         for k in VirtualSourceConfig.model_fields if k not in SKIP}
    base = t.host(lambda: VirtualSourceConfig(name="BQ25504"))
    for k in SKIP:
        if k in VirtualSourceConfig.model_fields:
            f[k] = t.get(base, k)
    eff = lambda r: r.choice([0.0, 1.0, 0.5, 0.99, r.uniform(0, 1)])  # noqa: E731
    if lut:
        f["LUT_input_efficiency"] = [[t.real(f"L{i}_{j}", 0, 1, gen=eff) for j in range(n)] for i in range(n)]
        f["LUT_output_efficiency"] = [t.real(f"O{i}", 0, 1, gen=eff) for i in range(n)]
    return t.obj(VirtualSourceConfig, **f)


def vsrc_call(t, d, dtype, log):
    out = t.call(ConverterPRUConfig.from_vsrc, d, dtype_in=dtype, log_intermediate_node=log)
    for k, f in ConverterPRUConfig.model_fields.items():
        if not k.startswith("LUT_inp_eff") and not k.startswith("LUT_out_inv"):
            v = t.get(out, k)
            t.ensure(f"{k} fits 32 bit", And(v >= 0, v < 2**32))
    return out


LINEAR = {"interval_startup_delay_drain_n": ("interval_startup_delay_drain_ms", 100), "V_input_max_uV": ("V_input_max_mV", 1000),
          "I_input_max_nA": ("I_input_max_mA", 10**6), "V_input_drop_uV": ("V_input_drop_mV", 1000),
          "R_input_kOhm_n22": ("R_input_mOhm", 1e-6 * 2**22), "V_intermediate_init_uV": ("V_intermediate_init_mV", 1000),
          "I_intermediate_leak_nA": ("I_intermediate_leak_nA", 1), "interval_check_thresholds_n": ("interval_check_thresholds_ms", 100),
          "V_pwr_good_enable_threshold_uV": ("V_pwr_good_enable_threshold_mV", 1000),
          "V_pwr_good_disable_threshold_uV": ("V_pwr_good_disable_threshold_mV", 1000),
          "V_output_log_gpio_threshold_uV": ("V_output_log_gpio_threshold_mV", 1000),
          "V_input_boost_threshold_uV": ("V_input_boost_threshold_mV", 1000), "V_intermediate_max_uV": ("V_intermediate_max_mV", 1000),
          "V_output_uV": ("V_output_mV", 1000), "V_buck_drop_uV": ("V_buck_drop_mV", 1000)}


@contract("C17", "from_vsrc: units, switches, thresholds", on=[S + "ConverterPRUConfig.from_vsrc", S + "VirtualSourceConfig.calc_internal_states",
                                                             S + "VirtualSourceConfig.calc_converter_mode", S + "VirtualSourceConfig.calc_cap_constant_us_per_nF_n28"])
def _(t):
    d = vsrc(t)
    g = lambda n: t.get(d, n)  # noqa: E731
    dtype = t.choice("dtype", [EnergyDType.ivsample, EnergyDType.ivcurve])
    log = t.bool("log")
    out = vsrc_call(t, d, dtype, log)
    o = lambda n: t.get(out, n)  # noqa: E731
    for k, (src, f) in LINEAR.items():
        t.ensure(f"{k} is {src} in its unit", is_round(o(k), g(src) * f))
    t.ensure("immediate power good", eq(o("immediate_pwr_good_signal"), ite(g("immediate_pwr_good_signal"), 1, 0)))
    t.ensure("table scales", And(eq(o("LUT_input_V_min_log2_uV"), g("LUT_input_V_min_log2_uV")),
             eq(o("LUT_input_I_min_log2_nA"), g("LUT_input_I_min_log2_nA") - 1), eq(o("LUT_output_I_min_log2_nA"), g("LUT_output_I_min_log2_nA") - 1)))
    cs, co = g("C_intermediate_uF"), g("C_output_uF")
    t.ensure("capacitor constant", is_floor(o("Constant_us_per_nF_n28"), 10**3 * 2**28 / (smax(cs, 0.001) * 100_000)))
    # switches
    stor = cs > 0
    boost = And(g("enable_boost"), stor)
    fb = And(g("enable_feedback_to_hrv"), stor, Not(boost), dtype == EnergyDType.ivcurve)
    b = lambda c, n: ite(c, n, 0)  # noqa: E731
    t.ensure("mode bits", eq(o("converter_mode"), b(stor, 1) + b(boost, 2) + b(g("enable_buck"), 4) + b(log, 8) + b(fb, 16)))
    # hysteresis
    ven, vdis, vout = g("V_intermediate_enable_threshold_mV"), g("V_intermediate_disable_threshold_mV"), g("V_output_mV")
    vpre = vout + g("V_buck_drop_mV")
    d_en = d_low = 0
    if t.branch(And(cs > 0, co > 0)):
        ratio = co / cs
        rad = ven * ven - ratio * (vout * vout)
        if t.branch(rad >= 0):
            d_en = ven - sqrt(rad)
        if t.branch(1 - ratio >= 0):
            d_low = vout * (1 - sqrt(1 - ratio))
    high = ven > vpre
    buck = g("enable_buck")
    dv = ite(Or(Not(buck), high), d_en, d_low)
    t.ensure("enable drop satisfies the charge relation", is_round(o("dV_enable_output_uV"), dv * 1000))
    t.ensure("enable threshold: raised to output plus drops for buck",
             is_round(o("V_enable_output_threshold_uV"), ite(Or(Not(buck), high), ven, vpre + d_low) * 1000))
    t.ensure("disable threshold: not below output plus drop for buck",
             is_round(o("V_disable_output_threshold_uV"), ite(buck, smax(vdis, vpre), vdis) * 1000))


@contract("C17", "from_vsrc: efficiency tables", on=[S + "ConverterPRUConfig.from_vsrc"])
def _(t):
    d = vsrc(t, lut=True)
    t.assume(And(eq(t.get(d, "C_output_uF"), 0), Not(t.get(d, "enable_buck")), Not(t.get(d, "enable_boost")), Not(t.get(d, "enable_feedback_to_hrv"))))
    out = t.call(ConverterPRUConfig.from_vsrc, d)
    li, lo = t.get(out, "LUT_inp_efficiency_n8"), t.get(out, "LUT_out_inv_efficiency_n4")
    src, dst = t.get(d, "LUT_input_efficiency"), t.get(d, "LUT_output_efficiency")
    t.ensure("size", And(eq(t.len(li), 12), eq(t.len(lo), 12)))
    for i in range(12):
        t.ensure("row size", eq(t.len(t.at(li, i)), 12))
        for j in range(12):
            x = t.at(t.at(li, i), j)
            e = t.at(t.at(src, i), j)
            t.ensure("input efficiency as n8, limited to 8 bit", And(x >= 0, x <= 255, Or(is_round(x, e * 256), And(eq(x, 255), e * 256 >= 254.5))))
        x, e = t.at(lo, i), t.at(dst, i)
        t.ensure("inverse output efficiency as n4, limited", And(x >= 16, x <= 2**14))
        if t.sym:
            t.ensure("inverse output efficiency as n4", Or(And(e > 0, is_round(x, 16 / e)), And(eq(x, 2**14), e * 2**14 <= 16.001)))
        else:
            t.ensure("inverse output efficiency as n4", (e > 0 and is_round(x, 16 / e)) or (x == 2**14 and e * 2**14 <= 16.001))


# ------------------------------------------------------------------ C18
HSKIP = ("id", "name", "description", "comment", "created", "updated_last", "owner", "group", "visible2group", "visible2all", "algorithm", "voltage_step_mV")
HGEN = {"interval_ms": lambda r: r.choice([0.01, 0.015, 0.1, 1.0, 20.0, 1e6, r.uniform(0.01, 200), 10 ** r.uniform(-2, 6)]),
        "duration_ms": lambda r: r.choice([0.01, 0.015, 0.1, 1.0, 20.0, 1e6, r.uniform(0.01, 200), 10 ** r.uniform(-2, 6)])}
ALGOS = [a for a in AlgorithmDType]
ISV = ("neutral", "cv", "mppt_voc", "mppt_po", "mppt_opt")
NUM = {"neutral": 1, "isc_voc": 8, "ivcurve": 16, "cv": 256, "mppt_voc": 2**12, "mppt_po": 2**13, "mppt_opt": 2**14}
CANON = {"constant": "cv", "cv": "cv", "direct": "neutral", "neutral": "neutral"}


def vhrv(t):
    f = {k: num_field(t, VirtualHarvesterConfig, k, gen=HGEN.get(k)) for k in VirtualHarvesterConfig.model_fields if k not in HSKIP}
    f["voltage_step_mV"] = t.real("voltage_step_mV", 1, 1_000_000, gen=lambda r: r.choice([1.0, 50.0, r.uniform(1, 5000), 1e6]))
    base = t.host(lambda: VirtualHarvesterConfig(name="mppt_opt"))
    for k in HSKIP:
        if k not in f:
            f[k] = t.get(base, k)
    algo = t.choice("algorithm", ALGOS)
    f["algorithm"] = algo
    t.assume(And(f["voltage_min_mV"] <= f["voltage_mV"], f["voltage_mV"] <= f["voltage_max_mV"]))
    return t.obj(VirtualHarvesterConfig, **f), algo.value


def vhrv_spec(t, for_emu):
    d, algo = vhrv(t)
    g = lambda n: t.get(d, n)  # noqa: E731
    dtype = t.choice("dtype", [EnergyDType.ivsample, EnergyDType.ivcurve, EnergyDType.isc_voc, None])
    win = t.int("window", 0, 2**32 - 1, gen=lambda r: r.choice([0, 8, 16, 2000, r.randrange(5000)])) if t.choice("window given", [True, False]) else None
    step = t.real("step", 0, 4000, gen=lambda r: r.choice([0.0, 0.0012, 0.05, r.uniform(0, 5)])) if t.choice("step given", [True, False]) else None
    bad = False
    if for_emu:
        bad = (dtype not in (EnergyDType.ivsample, EnergyDType.ivcurve)) or (dtype == EnergyDType.ivcurve and (win is None or step is None)) or algo not in ISV
    else:
        bad = algo == "neutral"
        if win is None and dtype is None:
            pass  # not for emulation: the number of samples is used
    r = t.attempt(HarvesterPRUConfig.from_vhrv, d, dtype_in=dtype, window_size=win, voltage_step_V=step, for_emu=for_emu)
    if bad:
        t.ensure("unusable combination is rejected", r.raised(ValueError, NotImplementedError))
        return
    t.ensure("usable combination is accepted", r.ok)
    o = lambda n: t.get(r.value, n)  # noqa: E731
    for k in HarvesterPRUConfig.model_fields:
        t.ensure(f"{k} fits 32 bit", And(o(k) >= 0, o(k) < 2**32))
    t.ensure("algorithm", eq(o("algorithm"), NUM[algo]))
    t.ensure("mode", eq(o("hrv_mode"), (1 if for_emu else 0) + ite(g("rising"), 2, 0) + ite(g("enable_linear_extrapolation"), 4, 0)))
    n_win = g("samples_n") * (1 + g("wait_cycles"))
    if win is not None:
        exp = win
    elif not for_emu:
        exp = g("samples_n")
    else:
        exp = n_win if dtype == EnergyDType.ivcurve else 0
    t.ensure("window size", eq(o("window_size"), exp))
    t.ensure("voltage", is_round(o("voltage_uV"), g("voltage_mV") * 1000))
    t.ensure("voltage min", is_round(o("voltage_min_uV"), g("voltage_min_mV") * 1000))
    t.ensure("voltage max", is_round(o("voltage_max_uV"), g("voltage_max_mV") * 1000))
    t.ensure("voltage step", is_round(o("voltage_step_uV"), g("voltage_step_mV") * 1000 if step is None else step * 10**6))
    t.ensure("current limit", is_round(o("current_limit_nA"), g("current_limit_uA") * 1000))
    t.ensure("setpoint", is_round(o("setpoint_n8"), smin(255, g("setpoint_n") * 256)))
    t.ensure("wait cycles", eq(o("wait_cycles_n"), g("wait_cycles")))
    n_min = smax(1 + g("wait_cycles"), n_win) if for_emu else 1 + g("wait_cycles")
    i_n = smin(smax(g("interval_ms") * 100, n_min), 10**8)
    d_n = smin(smax(g("duration_ms") * 100, n_min), i_n)
    t.ensure("interval", is_round(o("interval_n"), i_n))
    t.ensure("duration", is_round(o("duration_n"), d_n))
    t.ensure("duration within interval, both at least the sampling time", And(o("duration_n") <= o("interval_n"), o("duration_n") >= n_min))


@contract("C18", "from_vhrv: emulation", on=[HV + "HarvesterPRUConfig.from_vhrv", HV + "VirtualHarvesterConfig.calc_timings_ms",
                                           HV + "VirtualHarvesterConfig.calc_window_size", HV + "VirtualHarvesterConfig.calc_algorithm_num"])
def _(t):
    vhrv_spec(t, True)


@contract("C18", "from_vhrv: harvesting", on=[HV + "HarvesterPRUConfig.from_vhrv"])
def _(t):
    vhrv_spec(t, False)


@contract("C18", "window size by input datatype and limits of the voltage", on=[HV + "VirtualHarvesterConfig.calc_window_size", HV + "VirtualHarvesterConfig.post_validation"])
def _(t):
    d, algo = vhrv(t)
    n, w = t.get(d, "samples_n"), t.get(d, "wait_cycles")
    dtype = t.choice("dtype", [None, EnergyDType.ivsample, EnergyDType.ivcurve, EnergyDType.isc_voc])
    exp = {"ivsample": 0, "ivcurve": n * (1 + w), "isc_voc": 2 * (1 + w)}
    own = "isc_voc" if algo == "isc_voc" else "ivcurve" if algo == "ivcurve" else "ivsample"
    t.ensure("for emulation", eq(t.m(d, "calc_window_size", dtype, for_emu=True), exp[own if dtype is None else dtype.value]))
    t.ensure("for recording", eq(t.m(d, "calc_window_size", dtype, for_emu=False), n))
    f = {k: t.real(k + "_any", 0, 5000, gen=lambda r: r.choice([0.0, 5000.0, 100.0, r.uniform(0, 5000)])) for k in ("voltage_mV", "voltage_min_mV", "voltage_max_mV")}
    for k, v in f.items():
        t.set(d, k, v) if t.sym else d.__dict__.update({k: v})
    r = t.attempt_m(d, "post_validation")
    good = And(f["voltage_min_mV"] <= f["voltage_mV"], f["voltage_mV"] <= f["voltage_max_mV"])
    if t.branch(good):
        t.ensure("voltage within its limits is accepted", r.ok)
    else:
        t.ensure("voltage outside of its limits is rejected", r.raised(ValueError))


@contract("C18", "derived fields: step and lowest current of the recorder", on=[HV + "VirtualHarvesterConfig.query_database"])
def _(t):
    vals = {"name": "some", "algorithm": t.choice("algorithm", ["isc_voc", "ivcurve", "cv", "mppt_voc"])}
    lo, hi, n, lim, step = 0, 5000, 8, 50_000, None
    if t.choice("limits", [True, False]):
        lo, hi = t.real("lo", 0, 5000), t.real("hi", 0, 5000)
        vals.update(voltage_min_mV=lo, voltage_max_mV=hi)
    if t.choice("samples", [True, False]):
        n = vals["samples_n"] = t.int("n", 8, 2000)
    if t.choice("limit", [True, False]):
        lim = vals["current_limit_uA"] = t.real("lim", 1e-6, 50_000, gen=lambda r: 10 ** r.uniform(-6, 4.6))
    if t.choice("step", [True, False]):
        step = vals["voltage_step_mV"] = t.real("vstep", 1e-6, 1e6, gen=lambda r: 10 ** r.uniform(-6, 6))
    t.stub(FixturesClient.try_completing_model, lambda self, model, values: (values, []), by="C21")
    t.stub(AbcClient.try_completing_model, lambda self, model, values: (values, []), by="C21")
    t.stub(FixturesClient.fill_in_user_data, lambda self, values: values, by="C21")
    cal = t.host(CalibrationHarvester)
    c4 = t.m(t.get(cal, "adc_C_Hrv"), "raw_to_si", 4) * 10**6
    v4 = t.m(t.get(cal, "dac_V_Hrv"), "raw_to_si", 4) * 10**3
    r = t.attempt(VirtualHarvesterConfig.query_database, dict(vals))
    t.ensure("works", r.ok)
    if not r.ok:
        return
    g = lambda k: r.value[k]  # noqa: E731
    t.ensure("current limit at least 4 steps of the converter", eq(g("current_limit_uA"), smax(lim, c4)))
    exp = abs(hi - lo) / (n - 1) if step is None else step
    t.ensure("voltage step given or from range and samples, at least 4 steps of the converter", eq(g("voltage_step_mV"), smax(exp, v4)))
