"""C15, C16: virtual harvester, virtual source and targets."""
from pyvc.contract import contract
from pyvc.core import And, Implies, Iff, Not, Or, between, eq, ge, is_floor, is_round, is_trunc, ite, le, smax, smin

from contracts.c13_converter import CURR, U32, VOLT, cfg, pru_cal, cnv
from shepherd_core.data_models.content.virtual_harvester import HarvesterPRUConfig
from shepherd_core.vsource.virtual_harvester_model import VirtualHarvesterModel

M = "shepherd_core.vsource.virtual_harvester_model:VirtualHarvesterModel."
SV = lambda r: r.choice([0, 1, 1000, 2_500_000, r.randint(0, 5_000_000)])
SSTEP = lambda r: r.choice([1000, 5000, 50_000, r.randint(1, 700_000)])


def hcfg(t, **over):
    f = dict(
        algorithm=2**14, hrv_mode=t.int("hrv_mode", 0, 7), window_size=t.int("window", 0, 2**20, gen=lambda r: r.choice([0, 1, 2, 8, 16])),
        voltage_uV=t.int("v_cfg", 0, 5_000_000, gen=SV), voltage_min_uV=t.int("v_min", 0, 5_000_000, gen=SV),
        voltage_max_uV=t.int("v_max", 0, 5_000_000, gen=SV),
        voltage_step_uV=t.int("v_step", 0, 10**9, gen=SSTEP), current_limit_nA=t.int("i_lim", 0, 50_000_000, gen=CURR),
        setpoint_n8=t.int("setpoint", 0, 255), interval_n=t.int("interval", 0, U32, gen=lambda r: r.choice([1, 2, 4, 10, 20])),
        duration_n=t.int("duration", 0, U32, gen=lambda r: r.choice([0, 1, 2, 4, 10])), wait_cycles_n=t.int("wait", 0, 100))
    f.update(over)
    return t.model(HarvesterPRUConfig, **f)


NUMS = {"voltage_set_uV": SV, "voltage_hold": SV, "current_hold": CURR, "voltage_last": SV, "current_last": CURR,
        "current_delta": lambda r: r.randint(-5000, 5000), "voltage_delta": lambda r: r.randint(-50000, 50000),
        "age_now": lambda r: r.randint(0, 20), "age_nxt": lambda r: r.randint(0, 20), "voc_now": SV, "voc_nxt": SV,
        "power_last": lambda r: SV(r) * CURR(r), "power_now": lambda r: SV(r) * CURR(r), "voltage_now": SV, "current_now": CURR,
        "power_nxt": lambda r: r.choice([0, SV(r) * CURR(r)]), "voltage_nxt": SV, "current_nxt": CURR, "volt_step_uV": SSTEP,
        "interval_step": lambda r: r.choice([0, 1, 2, 3, 9, 2**30])}
SIGNED = ("current_delta", "voltage_delta")
BOOLS = ("is_rising", "lin_extrapolation", "compare_last")
CV = ("voltage_hold", "current_hold", "voltage_last", "current_last", "compare_last", "voltage_delta", "current_delta")


def hrv(t, c, **fix):
    o = t.new(VirtualHarvesterModel, c)
    for n, g in NUMS.items():
        lo = None if n in SIGNED else 0
        t.set(o, n, fix.get(n) if n in fix else t.int(n, lo, gen=g))
    for n in BOOLS:
        t.set(o, n, fix.get(n) if n in fix else t.bool(n))
    return o


def state(t, o):
    return {n: t.get(o, n) for n in (*NUMS, *BOOLS, "age_max", "voc_min", "voltage_step_x4_uV")}


def others(t, o, old, mods):
    for n, v in old.items():
        if n not in mods:
            t.ensure(f"{n} unchanged", t.eq(t.get(o, n), v))


def sample(t):
    return t.int("V", 0, gen=SV), t.int("I", 0, gen=CURR)


@contract("C15", "__init__: initial state from the configuration", on=[M + "__init__"])
def _(t):
    c = hcfg(t)
    o = t.new(VirtualHarvesterModel, c)
    g = lambda n: t.get(o, n)  # noqa: E731
    mode, w, n = t.get(c, "hrv_mode"), t.get(c, "window_size"), t.get(c, "interval_n")
    t.ensure("emulation flag", Iff(g("is_emu"), eq(mode % 2, 1)))
    t.ensure("rising flag", Iff(g("is_rising"), eq(mode // 2 % 2, 1)))
    t.ensure("extrapolation flag", Iff(g("lin_extrapolation"), eq(mode // 4 % 2, 1)))
    t.ensure("samples age over two windows", eq(g("age_max"), 2 * w))
    t.ensure("four steps", eq(g("voltage_step_x4_uV"), 4 * t.get(c, "voltage_step_uV")))
    t.ensure("step size", eq(g("volt_step_uV"), t.get(c, "voltage_step_uV")))
    t.ensure("open circuit voltage starts at the maximum", And(eq(g("voc_now"), t.get(c, "voltage_max_uV")), eq(g("voc_nxt"), t.get(c, "voltage_max_uV"))))
    t.ensure("lower limit of open circuit voltage", eq(g("voc_min"), smax(1000, t.get(c, "voltage_min_uV"))))
    t.ensure("two windows before the first interval", Or(And(n > 2 * w, eq(g("interval_step"), n - 2 * w)), And(n <= 2 * w, g("interval_step") >= n)))
    t.ensure("first set-point at the configured voltage", And(g("voltage_set_uV") >= t.get(c, "voltage_uV"), g("voltage_set_uV") <= t.get(c, "voltage_uV") + 1))
    for n_ in ("voltage_hold", "current_hold", "power_last", "power_now", "power_nxt", "age_now", "age_nxt", "voltage_now", "current_now"):
        t.ensure(f"{n_} starts at zero", eq(g(n_), 0))


@contract("C15", "ivcurve_sample: the configured algorithm runs", on=[M + "ivcurve_sample"])
def _(t):
    alg = t.choice("alg", [2**0, 2**3, 2**4, 2**8, 2**12, 2**13, 2**14])
    c = hcfg(t, algorithm=alg)
    o = hrv(t, c)
    p = t.snap(o)
    old = state(t, o)
    V, I = sample(t)
    r = t.m(o, "ivcurve_sample", V, I)
    fn = {2**8: "ivcurve_2_cv", 2**12: "ivcurve_2_mppt_voc", 2**13: "ivcurve_2_mppt_po", 2**14: "ivcurve_2_mppt_opt"}.get(alg)
    if fn is None or t.branch(t.get(c, "window_size") <= 1):
        t.ensure("samples pass through", And(eq(r[0], V), eq(r[1], I)))
        others(t, o, old, ())
    else:
        q = t.m(p, fn, V, I)
        t.ensure("output of the algorithm", And(eq(r[0], q[0]), eq(r[1], q[1])))
        st = state(t, p)
        for n in old:
            t.ensure(f"{n} as the algorithm leaves it", t.eq(t.get(o, n), st[n]))


def cv_obl(t, o, old, V, I, r):
    st = old["voltage_step_x4_uV"]
    ab = lambda x: ite(x >= 0, x, -x)  # noqa: E731
    cmp_ = V < old["voltage_set_uV"]
    flip = And(Not(Iff(cmp_, old["compare_last"])), ab(V - old["voltage_last"]) < st)
    dn, dl = ab(V - old["voltage_set_uV"]), ab(old["voltage_last"] - old["voltage_set_uV"])
    vh, ih = t.get(o, "voltage_hold"), t.get(o, "current_hold")
    now = And(eq(vh, V), eq(ih, I))
    last = And(eq(vh, old["voltage_last"]), eq(ih, old["current_last"]))
    keep = And(eq(vh, old["voltage_hold"]), eq(ih, old["current_hold"]))
    t.ensure("output is the held pair", And(eq(r[0], vh), eq(r[1], ih)))
    t.ensure("sample is remembered", And(eq(t.get(o, "voltage_last"), V), eq(t.get(o, "current_last"), I), Iff(t.get(o, "compare_last"), cmp_)))
    t.ensure("only observed pairs without extrapolation", Implies(Not(old["lin_extrapolation"]), Or(now, last, keep)))
    t.ensure("crossing: new sample if it is closer", Implies(And(flip, dn < dl, dn < st), now))
    t.ensure("crossing: previous sample if it is closer", Implies(And(flip, dl < dn, dl < st), last))
    t.ensure("nothing new without crossing", Implies(And(Not(flip), Not(old["lin_extrapolation"])), keep))
    took = And(flip, Or(And(dn < dl, dn < st), And(dl < dn, dl < st)))
    t.ensure("slope is that of the crossing", And(
        eq(t.get(o, "voltage_delta"), ite(took, V - old["voltage_last"], old["voltage_delta"])),
        eq(t.get(o, "current_delta"), ite(took, I - old["current_last"], old["current_delta"]))))
    dv, di = old["voltage_delta"], old["current_delta"]
    fwd = Iff(old["voltage_hold"] < old["voltage_set_uV"], dv > 0)
    ext = And(Not(flip), old["lin_extrapolation"])
    t.ensure("extrapolation moves the pair along the slope", Implies(ext, And(
        eq(vh, ite(fwd, old["voltage_hold"] + dv, smax(0, old["voltage_hold"] - dv))),
        eq(ih, ite(fwd, old["current_hold"] + di, smax(0, old["current_hold"] - di))))))


@contract("C15", "ivcurve_2_cv: observed pairs around the set-point", on=[M + "ivcurve_2_cv"])
def _(t):
    o = hrv(t, hcfg(t))
    old = state(t, o)
    V, I = sample(t)
    r = t.m(o, "ivcurve_2_cv", V, I)
    cv_obl(t, o, old, V, I, r)
    others(t, o, old, CV)


@contract("C15", "ivcurve_2_mppt_po: legal set-points", on=[M + "ivcurve_2_mppt_po"])
def _(t):
    c = hcfg(t)
    o = hrv(t, c)
    p = t.snap(o)
    old = state(t, o)
    V, I = sample(t)
    r = t.m(o, "ivcurve_2_mppt_po", V, I)
    q = t.m(p, "ivcurve_2_cv", V, I)
    t.ensure("output is that of the constant voltage core", And(eq(r[0], q[0]), eq(r[1], q[1])))
    k = old["interval_step"] + 1
    n, step = t.get(c, "interval_n"), t.get(c, "voltage_step_uV")
    k = ite(k >= n, 0, k)
    t.ensure("interval counter", eq(t.get(o, "interval_step"), k))
    vs, v0 = t.get(o, "voltage_set_uV"), old["voltage_set_uV"]
    vmin, vmax = t.get(c, "voltage_min_uV"), t.get(c, "voltage_max_uV")
    t.ensure("set-point only moves at the interval", Implies(Not(eq(k, 0)), And(eq(vs, v0), eq(t.get(o, "volt_step_uV"), old["volt_step_uV"]),
             Iff(t.get(o, "is_rising"), old["is_rising"]), eq(t.get(o, "power_last"), old["power_last"]))))
    at = eq(k, 0)
    t.ensure("set-point not below minimum and one step", Implies(at, And(vs >= vmin, vs >= step)))
    t.ensure("set-point not above maximum and one step", Implies(And(at, vmin <= vmax), vs <= smax(vmax, step)))
    pw = r[0] * r[1]
    t.ensure("power is remembered", Implies(at, eq(t.get(o, "power_last"), pw)))
    s0 = old["volt_step_uV"]
    up = pw > old["power_last"]
    none = And(Not(up), pw <= 0, v0 > 0)
    d = ite(old["is_rising"], 1, -1)
    raw = ite(up, v0 + d * s0, ite(none, v0 - old["voltage_step_x4_uV"], v0 - d * step))
    want = ite(raw >= vmax, vmax, raw)
    want = ite(want <= vmin, vmin, want)
    want = ite(want <= step, step, want)
    t.ensure("moves on while power grows, turns round when it falls, retreats without power", Implies(at, eq(vs, want)))
    lim = Or(raw >= vmax, raw <= vmin, want <= step)
    t.ensure("step doubles while power grows", Implies(And(at, Not(lim)), eq(t.get(o, "volt_step_uV"), ite(up, 2 * s0, step))))
    t.ensure("step restarts at the limits", Implies(And(at, lim), eq(t.get(o, "volt_step_uV"), step)))
    t.ensure("direction", Implies(And(at, Not(lim)), Iff(t.get(o, "is_rising"), Or(none, Iff(up, old["is_rising"])))))
    t.ensure("turns down at the maximum", Implies(And(at, vmin < vmax, step < vmax, raw >= vmax), Not(t.get(o, "is_rising"))))
    t.ensure("turns up at the minimum", Implies(And(at, vs <= vmin), t.get(o, "is_rising")))
    others(t, o, old, (*CV, "interval_step", "voltage_set_uV", "volt_step_uV", "is_rising", "power_last"))


@contract("C15", "ivcurve_2_mppt_voc: open circuit voltage", on=[M + "ivcurve_2_mppt_voc"])
def _(t):
    c = hcfg(t)
    o = hrv(t, c)
    p = t.snap(o)
    old = state(t, o)
    V, I = sample(t)
    r = t.m(o, "ivcurve_2_mppt_voc", V, I)
    q = t.m(p, "ivcurve_2_cv", V, I)
    t.ensure("output is that of the constant voltage core", And(eq(r[0], q[0]), eq(r[1], q[1])))
    k = old["interval_step"] + 1
    k = ite(k >= t.get(c, "interval_n"), 0, k)
    t.ensure("interval counter", eq(t.get(o, "interval_step"), k))
    vmax = t.get(c, "voltage_max_uV")
    hit = And(I < t.get(c, "current_limit_nA"), V < old["voc_nxt"], V >= smax(1000, t.get(c, "voltage_min_uV")), V <= vmax)
    nxt = ite(hit, V, old["voc_nxt"])
    turn = Or(old["age_now"] + 1 > old["age_max"], nxt <= old["voc_now"])
    t.ensure("open circuit voltage: lowest legal voltage without current", And(
        eq(t.get(o, "voc_now"), ite(turn, nxt, old["voc_now"])), eq(t.get(o, "voc_nxt"), ite(turn, vmax, nxt))))
    a = ite(hit, 0, old["age_nxt"] + 1)
    t.ensure("ages", And(eq(t.get(o, "age_now"), ite(turn, a, old["age_now"] + 1)), eq(t.get(o, "age_nxt"), ite(turn, 0, a))))
    vs, voc, d = t.get(o, "voltage_set_uV"), t.get(o, "voc_now"), t.get(c, "duration_n")
    t.ensure("measures at open circuit voltage", Implies(k < d, eq(vs, voc)))
    t.ensure("harvests at the set-point of it", Implies(eq(k, d), is_trunc(vs, voc * t.get(c, "setpoint_n8") / 256)))
    t.ensure("keeps the set-point in between", Implies(k > d, eq(vs, old["voltage_set_uV"])))
    others(t, o, old, (*CV, "interval_step", "voltage_set_uV", "voc_now", "voc_nxt", "age_now", "age_nxt"))


@contract("C15", "ivcurve_2_mppt_opt: best sample of the window", on=[M + "ivcurve_2_mppt_opt"])
def _(t):
    c = hcfg(t)
    o = hrv(t, c)
    old = state(t, o)
    V, I = sample(t)
    r = t.m(o, "ivcurve_2_mppt_opt", V, I)
    pw = V * I
    hit = And(pw >= old["power_nxt"], V >= t.get(c, "voltage_min_uV"), V <= t.get(c, "voltage_max_uV"))
    np_ = ite(hit, pw, old["power_nxt"])
    nv, ni = ite(hit, V, old["voltage_nxt"]), ite(hit, I, old["current_nxt"])
    na = ite(hit, 0, old["age_nxt"] + 1)
    turn = Or(old["age_now"] + 1 > old["age_max"], np_ >= old["power_now"])
    t.ensure("emits the best sample", And(eq(r[0], ite(turn, nv, old["voltage_now"])), eq(r[1], ite(turn, ni, old["current_now"]))))
    t.ensure("state of the best sample", And(eq(t.get(o, "power_now"), ite(turn, np_, old["power_now"])),
             eq(t.get(o, "voltage_now"), r[0]), eq(t.get(o, "current_now"), r[1]), eq(t.get(o, "age_now"), ite(turn, na, old["age_now"] + 1))))
    t.ensure("candidate", And(eq(t.get(o, "power_nxt"), ite(turn, 0, np_)), eq(t.get(o, "voltage_nxt"), ite(turn, 0, nv)),
             eq(t.get(o, "current_nxt"), ite(turn, 0, ni)), eq(t.get(o, "age_nxt"), ite(turn, 0, na))))
    others(t, o, old, ("age_now", "age_nxt", "power_now", "power_nxt", "voltage_now", "voltage_nxt", "current_now", "current_nxt"))


# ---------------------------------------------------------------- C16
import contracts.c13_converter as k13  # noqa: E402
import shepherd_core.vsource.virtual_source_model as k16  # noqa: E402
from shepherd_core.data_models import EnergyDType  # noqa: E402
from shepherd_core.data_models.base.calibration import CalibrationEmulator, CalibrationPair  # noqa: E402
from shepherd_core.vsource.target_model import ConstantCurrentTarget, ConstantPowerTarget, DiodeTarget, ResistiveTarget  # noqa: E402
from shepherd_core.vsource.virtual_source_model import VirtualSourceModel  # noqa: E402
from shepherd_core.data_models import VirtualSourceConfig  # noqa: E402

SRC = "shepherd_core.vsource.virtual_source_model:VirtualSourceModel."
TGT = "shepherd_core.vsource.target_model:"


from pyvc.contract import Skip  # noqa: E402


class Ghost:
    """Stand-in for a stage: records calls in order, returns arbitrary values (the stages have contracts of their own)."""

    def __init__(self, **kw):
        self.__dict__.update(kw)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Skip(f"stage attribute {n}")


class GhostHrv(Ghost):
    def ivcurve_sample(self, _voltage_uV, _current_nA):
        self.log.append(("hrv", _voltage_uV, _current_nA))
        return self.out


class GhostCnv(Ghost):
    def calc_inp_power(self, input_voltage_uV, input_current_nA):
        self.log.append(("inp", input_voltage_uV, input_current_nA))
        return self.p_in

    def calc_out_power(self, current_adc_raw):
        self.log.append(("out", current_adc_raw))
        return self.p_out

    def update_cap_storage(self):
        self.log.append(("cap",))
        return self.v_mid

    def update_states_and_output(self):
        self.log.append(("states",))
        self.V_input_request_uV = self.req2
        return self.v_raw

    def get_state_log_intermediate(self):
        return self.enable_log_mid


@contract("C16", "iterate_sampling: stages in order, energy counters, feedback", on=[SRC + "iterate_sampling"])
def _(t):
    s = t.host(lambda: VirtualSourceModel(VirtualSourceConfig(name="BQ25504"), CalibrationEmulator()))
    k = pru_cal(t)
    cal = t.get(k, "cal")
    log = []
    set0 = t.int("set0", 0, gen=SV)
    h = GhostHrv(log=log, out=(t.int("v", 0, gen=SV), t.int("i", 0, gen=CURR)), voltage_set_uV=set0)
    n = GhostCnv(log=log, p_in=t.int("p_in", 0), p_out=t.int("p_out", 0), v_mid=t.int("v_mid", 0, gen=SV), v_raw=t.int("v_raw", 0, 65535),
                 enable_log_mid=t.bool("log_mid"), feedback_to_hrv=t.bool("feedback"), V_input_request_uV=t.int("req1", 0), req2=t.int("req2", 0))
    for a, v in (("_cal_emu", cal), ("_cal_pru", k), ("cnv", n), ("hrv", h)):
        t.get(s, a)
        t.set(s, a, v)
    w0, w1 = t.real("W_inp", lo=0, hi=1e18), t.real("W_out", lo=0, hi=1e18)
    t.set(s, "W_inp_fWs", w0)
    t.set(s, "W_out_fWs", w1)
    V, I = sample(t)
    Iout = t.real("I_out", lo=0, hi=4e9, gen=lambda r: float(CURR(r)))
    r = t.m(s, "iterate_sampling", V, I, Iout)
    t.ensure("every stage once, in order", [x[0] for x in log] == ["hrv", "inp", "out", "cap", "states"])
    t.ensure("harvester gets the sample", And(eq(log[0][1], V), eq(log[0][2], I)))
    t.ensure("input stage gets the harvester's output", And(eq(log[1][1], h.out[0]), eq(log[1][2], h.out[1])))
    t.ensure("output stage gets the load current as ADC code", eq(log[2][1], t.m(t.get(cal, "adc_C_A"), "si_to_raw", Iout * 10**-9)))
    t.ensure("input energy grows by the sample's power", eq(t.get(s, "W_inp_fWs"), w0 + n.p_in))
    t.ensure("output energy grows by the sample's power", eq(t.get(s, "W_out_fWs"), w1 + n.p_out))
    if t.branch(n.enable_log_mid):
        t.ensure("returns storage voltage if that is logged", eq(r, n.v_mid))
    else:
        t.ensure("returns output voltage", is_trunc(r, t.m(t.get(cal, "dac_V_A"), "raw_to_si", n.v_raw) * 10**6))
    t.ensure("feedback only when enabled, with the request of this sample", eq(h.voltage_set_uV, ite(n.feedback_to_hrv, n.req2, set0)))


@contract("C16", "a run of the whole source is its stages, sample by sample", on=[SRC + "iterate_sampling", SRC + "__init__"], symbolic=False, bounded=True, samples=60, seconds=15)
def _(t):
    if t.sym:
        return
    r = t.rng
    name = r.choice(["BQ25504", "BQ25504s", "BQ25570s", "dio_cap", "direct", "diode+capacitor", "MAX17710"][:6])
    cal = CalibrationEmulator()
    if r.random() < 0.5:
        pair = lambda g, o: CalibrationPair(gain=g * r.uniform(0.9, 1.1), offset=o * r.uniform(-1, 1))  # noqa: E731
        cal = CalibrationEmulator(dac_V_A=pair(cal.dac_V_A.gain, 1e-3), dac_V_B=pair(cal.dac_V_B.gain, 1e-3), adc_C_A=pair(cal.adc_C_A.gain, 1e-7), adc_C_B=pair(cal.adc_C_B.gain, 1e-7))
    mk = lambda: VirtualSourceModel(VirtualSourceConfig(name=name), cal, log_intermediate=log)  # noqa: E731
    log = r.random() < 0.3
    a, b = mk(), mk()
    w_in = w_out = 0.0
    V, I, load = r.choice([0, 1_000_000, 3_000_000, 5_000_000]), r.choice([0, 100_000, 5_000_000, 50_000_000]), r.choice([0, 1000, 100_000, 5_000_000])
    for k in range(r.choice([50, 400, 3000])):
        if r.random() < 0.02:
            V, I, load = r.randint(0, 5_000_000), r.choice([0, r.randint(0, 50_000_000)]), r.choice([0, r.randint(0, 20_000_000)])
        got = a.iterate_sampling(V, I, load)
        v, i = b.hrv.ivcurve_sample(V, I)
        p_in = b.cnv.calc_inp_power(v, i)
        p_out = b.cnv.calc_out_power(cal.adc_C_A.si_to_raw(load * 10**-9))
        mid = b.cnv.update_cap_storage()
        out = int(cal.dac_V_A.raw_to_si(b.cnv.update_states_and_output()) * 10**6)
        w_in, w_out = w_in + p_in, w_out + p_out
        if b.cnv.feedback_to_hrv:
            b.hrv.voltage_set_uV = b.cnv.V_input_request_uV
        t.ensure("returned voltage", eq(got, mid if b.cnv.get_state_log_intermediate() else out))
        t.ensure("energy counters", And(eq(a.W_inp_fWs, w_in), eq(a.W_out_fWs, w_out)))
        t.ensure("same state", And(eq(a.cnv.V_mid_uV, b.cnv.V_mid_uV), eq(a.hrv.voltage_set_uV, b.hrv.voltage_set_uV), a.cnv.power_good == b.cnv.power_good))


@contract("C16", "__init__: both stages set up from one configuration", on=[SRC + "__init__"])
def _(t):
    cal = t.get(pru_cal(t), "cal")
    src = t.host(lambda: VirtualSourceConfig(name="BQ25504"))
    if not t.sym:
        o = t.new(VirtualSourceModel, src, cal)
        t.ensure("no energy yet", And(eq(o.W_inp_fWs, 0), eq(o.W_out_fWs, 0)))
        t.ensure("stages", o.cnv._cfg == k16.ConverterPRUConfig.from_vsrc(src) and o.hrv._cfg == HarvesterPRUConfig.from_vhrv(src.harvester, for_emu=True))
        return
    dt = t.choice("dtype", list(EnergyDType))
    win = t.int("window", 0, 2**32 - 1) if t.choice("window given", [True, False]) else None
    step = t.real("step", 0, 5) if t.choice("step given", [True, False]) else None
    log = t.bool("log")
    seen = {}
    c1, c2 = t.obj(k16.ConverterPRUConfig), t.obj(HarvesterPRUConfig)

    def note(name, res):
        def f(*a, **kw):
            seen[name] = (a, kw)
            return res
        return f
    t.stub(k16.ConverterPRUConfig.from_vsrc, note("cnv cfg", c1), by="C17")
    t.stub(HarvesterPRUConfig.from_vhrv, note("hrv cfg", c2), by="C18")
    m1, m2 = t.obj(VirtualHarvesterModel), t.obj(k16.VirtualConverterModel)
    t.stub(VirtualHarvesterModel, note("hrv", m1), by="C15")
    t.stub(k16.VirtualConverterModel, note("cnv", m2), by="C13")
    o = t.new(VirtualSourceModel, src, cal, dt, win, step, log_intermediate=log)
    t.ensure("the converter gets configuration and calibration", And(seen["cnv"][0][0] is c1, t.get(seen["cnv"][0][1], "cal") is cal))
    t.ensure("the harvester gets its configuration", seen["hrv"][0][0] is c2)
    t.ensure("the stages are those", And(t.get(o, "cnv") is m2, t.get(o, "hrv") is m1, t.get(o, "_cal_emu") is cal))
    a, kw = seen["cnv cfg"]
    t.ensure("converter configuration of the source", And(a[-1] is src, kw["dtype_in"] == dt, Iff(kw["log_intermediate_node"], log)))
    a, kw = seen["hrv cfg"]
    t.ensure("harvester configuration of the source", And(t.eq(a[-1], t.get(src, "harvester")), kw["for_emu"] is True, kw["dtype_in"] == dt,
             kw["window_size"] is None if win is None else eq(kw["window_size"], win), kw["voltage_step_V"] is None if step is None else eq(kw["voltage_step_V"], step)))
    t.ensure("no energy yet", And(eq(t.get(o, "W_inp_fWs"), 0), eq(t.get(o, "W_out_fWs"), 0)))


@contract("C16", "ResistiveTarget: ohmic", on=[TGT + "ResistiveTarget.__init__", TGT + "ResistiveTarget.step"])
def _(t):
    R = t.real("R", gen=lambda r: 10 ** r.uniform(-4, 7))
    ctrl = t.bool("controlled")
    mk = t.attempt(ResistiveTarget, R, controlled=ctrl)
    if t.branch(R <= 1e-3):
        t.ensure("resistance of 1 mOhm and below rejected", mk.raised(ValueError))
        return
    t.ensure("legal resistance accepted", mk.ok)
    V, pg = t.int("V", 0, 10**10, gen=SV), t.bool("pg")
    i = t.m(mk.value, "step", V, pwr_good=pg)
    t.ensure("current is voltage over resistance, none if controlled without power good",
             eq(i, ite(Or(pg, Not(ctrl)), V * 1000 / R, 0)))
    t.ensure("not negative", i >= 0)


@contract("C16", "ConstantCurrentTarget", on=[TGT + "ConstantCurrentTarget.__init__", TGT + "ConstantCurrentTarget.step"])
def _(t):
    a, s = t.real("I_active", gen=lambda r: 10 ** r.uniform(-9, 0)), t.real("I_sleep", gen=lambda r: 10 ** r.uniform(-9, 0))
    mk = t.attempt(ConstantCurrentTarget, a, s)
    if t.branch(Or(a <= 0, s < 0)):
        t.ensure("negative currents rejected", mk.raised(ValueError))
        return
    t.ensure("legal currents accepted", mk.ok)
    V, pg = t.int("V", 0, 10**10, gen=SV), t.bool("pg")
    i = t.m(mk.value, "step", V, pwr_good=pg)
    t.ensure("active or sleep current in nA", eq(i, ite(pg, a, s) * 10**9))


@contract("C16", "ConstantPowerTarget", on=[TGT + "ConstantPowerTarget.__init__", TGT + "ConstantPowerTarget.step"])
def _(t):
    a, s = t.real("P_active", gen=lambda r: 10 ** r.uniform(-9, 0)), t.real("P_sleep", gen=lambda r: 10 ** r.uniform(-9, 0))
    mk = t.attempt(ConstantPowerTarget, a, s)
    if t.branch(Or(a <= 0, s < 0)):
        t.ensure("negative powers rejected", mk.raised(ValueError))
        return
    t.ensure("legal powers accepted", mk.ok)
    V, pg = t.int("V", 0, 10**10, gen=SV), t.bool("pg")
    i = t.m(mk.value, "step", V, pwr_good=pg)
    t.ensure("not negative, also without supply", i >= 0)
    t.ensure("power is constant", Implies(V > 0, eq(i * V, ite(pg, a, s) * 10**15)))


@contract("C16", "DiodeTarget: construction and control", on=[TGT + "DiodeTarget.__init__", TGT + "DiodeTarget.step"])
def _(t):
    vf, i_f, R = t.real("V_f", lo=-1, hi=5, gen=lambda r: r.uniform(0.1, 4)), t.real("I_f", lo=-1, hi=10, gen=lambda r: 10 ** r.uniform(-6, 0)), t.real("R", lo=-1, hi=1e9, gen=lambda r: 10 ** r.uniform(-4, 6))
    ctrl = t.bool("controlled")
    mk = t.attempt(DiodeTarget, vf, i_f, R, controlled=ctrl)
    bad = Or(R <= 1e-3, vf <= 0.2, i_f <= 0)
    if t.branch(bad):
        t.ensure("illegal parameters rejected", mk.raised(ValueError))
        return
    t.ensure("legal parameters accepted", mk.ok)
    t.assume(ctrl)
    t.ensure("no current without power good if controlled", eq(t.m(mk.value, "step", t.int("V", 0, 10**7, gen=SV), pwr_good=False), 0))


@contract("C16", "DiodeTarget: current", on=[TGT + "DiodeTarget.step"], symbolic=False, bounded=True, samples=600,
          note="transcendental fix-point iteration; bounded stand-in (sampled parameters)")
def _(t):
    d = t.new(DiodeTarget, t.real("V_f", lo=0.5, hi=4, gen=lambda r: r.uniform(0.5, 4)), t.real("I_f", lo=1e-4, hi=1, gen=lambda r: 10 ** r.uniform(-4, 0)),
              t.real("R", lo=10, hi=1e6, gen=lambda r: 10 ** r.uniform(1, 6)), controlled=False)
    V = t.int("V", 0, 5_000_000, gen=lambda r: r.randint(0, 5_000_000))
    i = t.m(d, "step", V, pwr_good=t.bool("pg"))
    t.ensure("not negative", i >= 0)
    t.ensure("not above the resistor's limit", le(i, V * 1000 / t.get(d, "R_Ohm"), scale=1e6))
