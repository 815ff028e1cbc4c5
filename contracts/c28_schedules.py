"""C28: schedules and observer features mean what they say."""
import datetime as dt

from shepherd_core.data_models.experiment.observer_features import GpioActuation
from shepherd_core.data_models.experiment.observer_features import GpioEvent
from shepherd_core.data_models.experiment.observer_features import GpioTracing
from shepherd_core.data_models.experiment.observer_features import PowerTracing
from shepherd_core.data_models.task.emulation import EmulationTask
from shepherd_core.data_models.task.harvest import HarvestTask
from shepherd_core.data_models.testbed.gpio import GPIO
from shepherd_core.data_models.testbed.gpio import Direction

from pyvc.contract import contract
from pyvc.core import And, Iff, Implies, Not, Or, eq, ge

M = "shepherd_core.data_models."
F = M + "experiment.observer_features:"
T = M + "task."


@contract("C28", "GpioEvent.get_events: `count` times, one period apart", on=[F + "GpioEvent.get_events"])
def _(t):
    n = t.int("count", lo=1, hi=4096, gen=lambda r: r.choice([1, 2, 3, 10, 100, 4096]))
    d = t.real("delay", lo=0, gen=lambda r: r.choice([1e-5, 0.1, 1.0, 10.223, round(r.uniform(0, 50), 3), r.uniform(0, 1e6)]))
    p = t.real("period", lo=10e-6, gen=lambda r: r.choice([10e-6, 0.1, 1.0, 1.458, round(r.uniform(0.001, 2), 3), r.uniform(1e-5, 1e3)]))
    t.assume(d > 0)
    ev = t.obj(GpioEvent, delay=d, gpio=None, level="H", period=p, count=n)
    out = t.attempt_m(ev, "get_events")
    t.ensure("works", out.ok)
    if out.ok:
        t.ensure("as often as asked for", eq(t.len(out.value), n))
        k = t.int("k", lo=0, gen=lambda r: r.choice([0, 1, 2, 9, 99, 4095]))
        t.assume(k < n)
        if not t.sym:
            t.assume(k < len(out.value))
        t.ensure("the k-th time after k periods", t.eq(t.at(out.value, k), d + k * p))


def pin(t, tag=""):
    direction = t.choice("direction" + tag, [Direction.Input, Direction.Output, Direction.Bidirectional])
    name = t.text("name" + tag, 16, gen=lambda r: r.choice(["GPIO0", "gpio7", "Gpio_x", "uart_rx", "SWD", "xgpio", "GPI", "G-PIO"]))
    return t.obj(GPIO, id=t.int("id" + tag, lo=0), name=name, direction=direction, reg_pru="a", pin_pru="b"), name, direction


@contract("C28", "pins: which ones users may drive", on=[M + "testbed.gpio:GPIO.user_controllable", F + "GpioEvent.post_validation"])
def _(t):
    g, name, direction = pin(t)
    may = And(t.holds_word(name, "gpio"), direction != Direction.Input)
    out = t.attempt_m(g, "user_controllable")
    t.ensure("works", out.ok)
    t.ensure("named gpio and able to drive", Iff(out.value, may))
    acc = t.attempt_m(t.obj(GpioEvent, delay=1.0, gpio=g, level="H", period=1.0, count=1), "post_validation")
    t.ensure("events only for these", Iff(acc.ok, may))
    t.ensure("others are refused", acc.ok or acc.raised(ValueError))


@contract("C28", "pins: connected to PRU or system", on=[M + "testbed.gpio:GPIO.post_validation"])
def _(t):
    has = {k: t.bool(k) for k in ("reg_pru", "pin_pru", "reg_sys", "pin_sys")}
    val = dict(reg_pru="r30", pin_pru="P8", reg_sys=t.int("reg", lo=0, gen=lambda r: r.choice([0, 1, 26])), pin_sys="P9")
    g = t.obj(GPIO, id=1, name="GPIO0", **{k: t.optional(has[k], val[k]) for k in has})
    out = t.attempt_m(g, "post_validation")
    t.ensure("one usable connection", Iff(out.ok, Or(And(has["reg_pru"], has["pin_pru"]), And(has["reg_sys"], has["pin_sys"]))))
    t.ensure("others are refused", out.ok or out.raised(ValueError))


def span(t, name):
    us = t.int(name, gen=lambda r: r.choice([-10**7, -1, 0, 1, 10**6, -86_400_000_000]))
    t.assume(And(us >= -10**15, us <= 10**15))
    return us, (t.span(name + ".us", lo=-10**15) if False else t.call(dt.timedelta, microseconds=us))


@contract("C28", "PowerTracing: only recordings that exist and lie in the future", on=[F + "PowerTracing.post_validation"])
def _(t):
    d, delay = span(t, "delay")
    l, dur = span(t, "duration")
    has, calc, no_v, no_c = t.bool("has_duration"), t.bool("calc"), t.bool("no_voltage"), t.bool("no_current")
    x = t.obj(PowerTracing, delay=delay, duration=t.optional(has, dur), calculate_power=calc, samplerate=100_000, discard_current=no_c, discard_voltage=no_v)
    out = t.attempt_m(x, "post_validation")
    bad = Or(d < 0, And(has, l < 0), And(no_v, no_c))
    t.ensure("accepted iff there is something to record", Iff(out.ok, And(Not(bad), Not(calc))))
    if not out.ok:
        t.ensure("contradictions are errors", out.raised(ValueError, NotImplementedError))
        t.ensure("NotImplementedError only for the missing feature", Or(out.raised(ValueError), calc))


@contract("C28", "GpioTracing: only recordings that exist and lie in the future", on=[F + "GpioTracing.post_validation"])
def _(t):
    d, delay = span(t, "delay")
    l, dur = span(t, "duration")
    has, mask = t.bool("has_duration"), t.int("mask", lo=0, hi=1023, gen=lambda r: r.choice([0, 1, 512, 1023]))
    x = t.obj(GpioTracing, mask=mask, gpios=None, delay=delay, duration=t.optional(has, dur), uart_decode=False, uart_pin=None, uart_baudrate=115200)
    out = t.attempt_m(x, "post_validation")
    t.ensure("accepted iff there is something to record", Iff(out.ok, And(d >= 0, Implies(has, l >= 0), Not(eq(mask, 0)))))
    t.ensure("contradictions are errors", out.ok or out.raised(ValueError))


@contract("C28", "GpioActuation.get_gpios: the pins of its events", on=[F + "GpioActuation.get_gpios"], bounded="at most 4 events")
def _(t):
    pins = [t.host(lambda i=i: GPIO(name=f"GPIO{i}")) for i in range(3)]
    n = t.choice("events", [1, 2, 3, 4])
    idx = [t.choice(f"pin{i}", [0, 1, 2]) for i in range(n)]
    x = t.obj(GpioActuation, events=[t.obj(GpioEvent, delay=1.0, gpio=pins[i], level="H", period=1.0, count=1) for i in idx])
    out = t.attempt_m(x, "get_gpios")
    t.ensure("works", out.ok)
    if out.ok:
        got = [t.get(p, "name") for p in (out.value.items() if t.sym else out.value)]
        t.ensure("exactly these", {str(x) for x in got} == {f"GPIO{i}" for i in idx})
        t.ensure("each once", t.sym or len(got) == len(set(idx)))


def NOW(t):
    return t.m(t.m(t.call(dt.datetime.now), "astimezone"), "timestamp")


for cls, mod in ((HarvestTask, "harvest:HarvestTask."), (EmulationTask, "emulation:EmulationTask.")):
    @contract("C28", f"{cls.__name__}: start times keep their moment", on=[T + mod + "pre_correction"])
    def _(t, cls=cls):
        kind = t.choice("kind", ["none", "missing", "aware", "naive", "float", "int", "iso"])
        other = t.int("other")
        values = {"verbose": other}
        want = None
        if kind in ("aware", "naive", "iso"):
            v = t.time("start", aware=kind == "aware")
            want = t.m(v, "timestamp")
            values["time_start"] = t.m(v, "isoformat") if kind == "iso" else v
        elif kind in ("float", "int"):
            q = t.int("epoch", lo=0, hi=10**10, gen=lambda r: r.choice([0, 1, 4 * 10**9, 6_800_000_001, 6_800_000_003]))
            want = values["time_start"] = q / 4 if kind == "float" else q
        elif kind == "none":
            values["time_start"] = None
        out = t.attempt(cls.pre_correction, values)
        t.ensure("works", out.ok)
        if out.ok:
            t.ensure("other values are kept", eq(out.value["verbose"], other))
            got = out.value.get("time_start")
            if want is None:
                t.ensure("no start time: as soon as possible", got is None)
            else:
                t.ensure("the same moment", t.eq(t.m(got, "timestamp"), want))
                t.ensure("with time zone", t.get(got, "tzinfo") is not None)

    @contract("C28", f"{cls.__name__}: no start in the past, no negative duration", on=[T + mod + "post_validation"])
    def _(t, cls=cls):
        has, hasd = t.bool("has_start"), t.bool("has_duration")
        start = t.time("start", aware=True)
        l, dur = span(t, "duration")
        kw = {}
        if cls is EmulationTask:
            kw = dict(io_port="A", pwr_port="B", voltage_aux=t.real("aux", lo=0, hi=4.5), gpio_actuation=None, input_path=t.path("/a", "b"))
        x = t.obj(cls, time_start=t.optional(has, start), duration=t.optional(hasd, dur), **kw)
        before = NOW(t)
        out = t.attempt_m(x, "post_validation")
        when = t.m(start, "timestamp")
        t.ensure("accepted only if it can be executed", Implies(out.ok, And(Implies(has, ge(when, before)), Implies(hasd, l >= 0))))
        t.ensure("refused only for a reason", Implies(not out.ok, Or(And(has, when < NOW(t)), And(hasd, l < 0))))
        t.ensure("others are refused", out.ok or out.raised(ValueError))
