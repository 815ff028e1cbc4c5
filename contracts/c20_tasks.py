"""C20: tasks derived from experiments."""
from datetime import timedelta

from contracts.c19_experiment import NS, at_port, configs, hosts, is_pos, pool, testbed, usable

from shepherd_core.data_models.content.energy_environment import EnergyEnvironment
from shepherd_core.data_models.content.firmware import Firmware
from shepherd_core.data_models.content.firmware_datatype import FirmwareDType
from shepherd_core.data_models.content.virtual_source import VirtualSourceConfig
from shepherd_core.data_models.experiment.experiment import Experiment
from shepherd_core.data_models.experiment.observer_features import GpioActuation
from shepherd_core.data_models.experiment.observer_features import GpioEvent
from shepherd_core.data_models.experiment.observer_features import GpioTracing
from shepherd_core.data_models.experiment.observer_features import PowerTracing
from shepherd_core.data_models.experiment.observer_features import SystemLogging
from shepherd_core.data_models.task.emulation import EmulationTask
from shepherd_core.data_models.task.firmware_mod import FirmwareModTask
from shepherd_core.data_models.task.observer_tasks import ObserverTasks
from shepherd_core.data_models.task.programming import ProgrammingTask
from shepherd_core.data_models.task.testbed_tasks import TestbedTasks
from shepherd_core.data_models.testbed.cape import Cape
from shepherd_core.data_models.testbed.cape import TargetPort
from shepherd_core.data_models.testbed.gpio import GPIO
from shepherd_core.data_models.testbed.mcu import MCU
from shepherd_core.data_models.testbed.mcu import ProgrammerProtocol
from shepherd_core.data_models.testbed.observer import Observer
from shepherd_core.data_models.testbed.target import Target
from shepherd_core.data_models.testbed.testbed import Testbed

from pyvc.contract import Reject, contract
from pyvc.core import And, Iff, Implies, Not, Or, eq, ite

M = "shepherd_core.data_models.task."
NAME = r"^[^<>:;,?\"\*|\/\\]+$"
SAFE = r"^[ -~]+$"
NAMES = lambda r: r.choice(["sheep1", "sheep2", "s3", "obs.4", "a b"])  # noqa: E731


def maker(t):
    """Valid models: the constructor is not run symbolically; on the running code they are built by their own constructors."""
    if t.sym:
        return lambda cls, **f: t.obj(cls, **f)
    count = [0]

    def make(cls, **f):
        count[0] += 1
        k = count[0]
        more = {
            Target: {}, Cape: dict(name=f"c{k}", version="v1", description="d"),
            Observer: dict(description="d", ip=f"10.0.{k // 250}.{k % 250}", mac="02:00:00:00:%02x:%02x" % (k // 256, k % 256), room="r", eth_port=f"e{k}"),
            Testbed: dict(id=77, description="d", data_on_server="/srv"), EnergyEnvironment: dict(name=f"env{k}", data_type="ivsample", duration=1, energy_Ws=1),
            VirtualSourceConfig: dict(name="neutral"), MCU: dict(id=1001 + f.pop("slot", 0), description="d", platform="p", core="c", fw_name_default="nrf52_demo_rf"),
        }.get(cls, {})
        more = {"data_on_observer": "/var/s", **more} if cls is Testbed else more
        try:
            return cls(**{**more, **f})
        except ValueError:
            raise Reject from None
    return make


def groups(t, make, fw=True):
    """Any list of target groups."""
    cols = NS(env=lambda r: r.choice(["e1.h5", "e2.h5", "x"]), fw1=lambda r: r.choice(["AAAA", "BBBB", "CCCC"]),
              fw2=lambda r: r.choice(["DDDD", "EEEE"]), mcu1=lambda r: r.choice(["msp", "nrf"]), mcu2=lambda r: r.choice(["m2", "m3"]))
    c = NS()
    n = t.int("groups", lo=1, hi=128, gen=lambda r: r.randint(1, 3))
    for k, g in cols.items():
        c[k] = t.col(k, n, "str", gen=g)
    for k in ("volt1", "volt2"):
        c[k] = t.col(k, n, "real", lo=1, hi=5, gen=lambda r: r.choice([1.5, 3.0, 4.0]))
    for k in ("rate1", "rate2"):
        c[k] = t.col(k, n, lo=1, hi=1_000_000, gen=lambda r: r.choice([100, 200_000]))
    for k in ("has2", "has_power", "has_gpio", "has_act"):
        c[k] = t.col(k, n, "bool", gen=(lambda r: r.random() < .2) if k == "has_act" else None)
    k = t.choice("firmware kinds", [0, 1, 2, 3]) if fw else 0
    kinds = list(FirmwareDType) if t.sym else [FirmwareDType.path_hex, FirmwareDType.path_elf] * 2  # embedded data would have to be real firmware
    c.prot = [list(ProgrammerProtocol)[(k + j) % 4] for j in range(2)]
    c.dtype = [kinds[(k + j) % 4] for j in range(2)]

    def firmware(i, k):
        more = {} if t.sym else {"slot": k - 1}
        return make(Firmware, name="fw", data=c[f"fw{k}"](i), data_type=c.dtype[k - 1], mcu=make(
            MCU, name=c[f"mcu{k}"](i), prog_voltage=c[f"volt{k}"](i), prog_datarate=c[f"rate{k}"](i), prog_protocol=c.prot[k - 1], **more))

    def fields(i):
        return dict(
            energy_env=make(EnergyEnvironment, data_path=t.path("/env", c.env(i)), valid=True),
            virtual_source=make(VirtualSourceConfig, id=i),
            power_tracing=t.optional(c.has_power(i), make(PowerTracing, samplerate=i + 10)),
            gpio_tracing=t.optional(c.has_gpio(i), make(GpioTracing, mask=i + 1)),
            gpio_actuation=t.optional(c.has_act(i), make(GpioActuation, events=[t.host(lambda: GpioEvent(delay=1, gpio=GPIO(name="GPIO0"), level="H"))])),
            firmware1=firmware(i, 1), firmware2=t.optional(c.has2(i), firmware(i, 2)))
    g = configs(t, n=n, distinct=True, fields=fields, make=None if t.sym else make)
    c.update(g)
    return c


def a_position(t, g, o):
    """The drawn position where it suits, otherwise any other one of a hosted target."""
    i, j = t.int("gx", lo=0, gen=lambda r: r.randint(0, 2)), t.int("kx", lo=0, gen=lambda r: r.randint(0, 2))
    ok = [(a, b) for a in range(g.n) for b in range(g.ids.len(a)) if any(usable(o, q) and hosts(o, q, g.ids.at(a, b)) for q in range(o.n))]
    if not ok:
        raise Reject
    return (i, j) if (i, j) in ok else ok[(i + j) % len(ok)]


def world(t, xp_fields=None, tb_fields=None, fw=True):
    """An experiment, a testbed, and one of the targets of the experiment with its group and observer."""
    make = maker(t)
    c = g = groups(t, make, fw)
    n = g.n
    tb, o = testbed(t, name=pool("sheep1", "sheep2", "s3", "obs.4", "a b"), tgen=pool(*range(1, 12)), make=make, **(tb_fields or {}))
    xp = make(Experiment, target_configs=g.seq, **(xp_fields or {}))
    c.gi, c.pos = is_pos(t, g, "x") if t.sym else a_position(t, g, o)
    c.x = x = g.ids.at(c.gi, c.pos)
    if t.sym:
        group_of, hosted, host = t.uf("group_of"), t.uf("hosted", "bool"), t.uf("host")
        t.assume(eq(group_of(x), c.gi))  # callee: get_target_config; groups are disjoint in accepted experiments (C19)

        def get_target_config(self, target_id):
            i = group_of(target_id)
            t.assume(And(0 <= i, i < n))
            return g.group(i)

        def get_observer(self, target_id):
            if not t.branch(hosted(target_id)):
                t.raise_(ValueError("not found"))
            i = host(target_id)
            t.assume(And(0 <= i, i < o.n, usable(o, i), hosts(o, i, target_id)))
            return o.observer(i)
        t.stub(Experiment.get_target_config, get_target_config, "C19:get_target_config: the group that lists the target")
        t.stub(Testbed.get_observer, get_observer, "C19:Testbed.get_observer: the first active observer that hosts the target")
        c.oi = host(x)
        t.assume(hosted(x))
    else:
        if any(g.ids.at(i, j) == x for i in range(n) for j in range(g.ids.len(i)) if (i, j) != (c.gi, c.pos)):
            t.assume(False)
        found = [i for i in range(o.n) if usable(o, i) and hosts(o, i, x)]
        t.assume(bool(found))
        c.oi = found[0]
    t.assume(And(0 <= c.oi, c.oi < o.n, usable(o, c.oi), hosts(o, c.oi, x)))
    t.assume(Not(And(at_port(o, c.oi, x, "a"), at_port(o, c.oi, x, "b"))))  # a target is mounted once
    # names are valid ones
    t.assume(t.matches(NAME, o.name(c.oi)))
    for k in "12":
        t.assume(And(t.matches(NAME, c[f"mcu{k}"](c.gi)), t.matches(SAFE, c[f"mcu{k}"](c.gi))))
        t.assume(And(t.len(c[f"fw{k}"](c.gi)) >= 3, c[f"volt{k}"](c.gi) < 5))
    t.assume(t.matches(NAME, c.env(c.gi)))
    return xp, tb, c, o


def check_emu(t, e, c, o, root, xp):
    g, i = c.gi, c.oi
    t.ensure("input: the environment of the target's group", t.eq(t.get(e, "input_path"), t.path("/env", c.env(g))))
    t.ensure("output: below the experiment's directory, named after the observer",
             t.eq(t.get(e, "output_path"), t.path(root, t.add("emu_", o.name(i), ".h5"))))
    for p in ("io_port", "pwr_port"):
        t.ensure(f"{p}: where the target is mounted", Iff(t.eq(t.get(e, p), TargetPort.A), at_port(o, i, c.x, "a")))
        t.ensure(f"{p}: one of both", Or(t.eq(t.get(e, p), TargetPort.A), t.eq(t.get(e, p), TargetPort.B)))
    t.ensure("virtual source of the group", t.eq(t.get(t.get(e, "virtual_source"), "id"), g))
    for f, tag, has, k in (("power_tracing", "samplerate", c.has_power, 10), ("gpio_tracing", "mask", c.has_gpio, 1)):
        v = t.get(e, f)
        t.ensure(f"{f} iff requested", Iff(v is not None, has(g)))
        if v is not None:
            t.ensure(f"{f} of the group", t.eq(t.get(v, tag), g + k))
    t.ensure("io enabled iff gpio is used", Iff(t.get(e, "enable_io"), Or(c.has_gpio(g), c.has_act(g))))
    t.ensure("settings of the experiment", And(t.eq(t.get(e, "duration"), t.get(xp, "duration")),
             t.eq(t.get(e, "abort_on_error"), t.get(xp, "abort_on_error")), t.eq(t.get(e, "sys_logging"), t.get(xp, "sys_logging"))))
    s, want = t.get(e, "time_start"), t.get(xp, "time_start")
    t.ensure("start time given iff the experiment has one", (s is None) == (want is None))
    if s is not None:
        t.ensure("start time of the experiment", eq(t.m(s, "timestamp"), t.m(want, "timestamp")))


def xp_fields(t):
    kind, dur = t.choice("start", [("asap", 10), ("aware", None), ("naive", 0)])
    start = None if kind == "asap" else t.time("start_time", aware=kind == "aware")
    return dict(name="xp", duration=t.host(lambda: None if dur is None else timedelta(seconds=dur)), time_start=start,
                abort_on_error=t.bool("abort"), owner_id=t.int("owner", lo=0, hi=10**6), email_results=t.bool("email"),
                sys_logging=t.new(SystemLogging, dmesg=t.bool("dmesg"), ptp=True, shepherd=False)), kind


@contract("C20", "EmulationTask.from_xp", on=[M + "emulation:EmulationTask.from_xp", M + "emulation:EmulationTask.post_validation",
                                             M + "emulation:EmulationTask.pre_correction"])
def _(t):
    xf, kind = xp_fields(t)
    xp, tb, c, o = world(t, xf, fw=False)
    root = t.path("/data", "xp")
    out = t.attempt(EmulationTask.from_xp, xp, tb, c.x, root)
    if out.ok:
        t.ensure("actuation is not available", Not(c.has_act(c.gi)))
        check_emu(t, out.value, c, o, root, xp)
    else:
        t.ensure("rejected with ValueError", out.raised(ValueError))
        late = kind != "asap" and t.m(xf["time_start"], "timestamp") < NOW(t)
        t.ensure("only for actuation or a start in the past", Or(c.has_act(c.gi), late))


def NOW(t):
    import datetime
    return t.m(t.m(t.call(datetime.datetime.now), "astimezone"), "timestamp")


def check_mod(t, v, c, o, k, path):
    g = c.gi
    if v is None:
        t.ensure(f"no firmware {k}: nothing to patch", k == 2 and Not(c.has2(g)))
        return
    t.ensure(f"firmware {k} exists", k == 1 or c.has2(g))
    t.ensure("firmware of the group", t.eq(t.get(v, "data"), c[f"fw{k}"](g)))
    t.ensure("its type", t.eq(t.get(v, "data_type"), c.dtype[k - 1]))
    t.ensure("the ID of this very target", eq(t.get(v, "custom_id"), ite(c.has(g), c.cus.at(g, c.pos), ite(at_port(o, c.oi, c.x, "a"), o.tid_a(c.oi), o.tid_b(c.oi)))))
    t.ensure("stored in the given file", t.eq(t.get(v, "firmware_file"), path))


def check_prog(t, v, c, o, k, path):
    g = c.gi
    if v is None:
        t.ensure(f"no firmware {k}: nothing to program", k == 2 and Not(c.has2(g)))
        return
    t.ensure(f"firmware {k} exists", k == 1 or c.has2(g))
    t.ensure("the patched file", t.eq(t.get(v, "firmware_file"), path))
    t.ensure("port of the target", Iff(t.eq(t.get(v, "target_port"), TargetPort.A), at_port(o, c.oi, c.x, "a")))
    t.ensure("one of both ports", Or(t.eq(t.get(v, "target_port"), TargetPort.A), t.eq(t.get(v, "target_port"), TargetPort.B)))
    t.ensure("controller slot", eq(t.get(v, "mcu_port"), k))
    t.ensure("controller", And(t.eq(t.get(v, "mcu_type"), c[f"mcu{k}"](g)), eq(t.get(v, "voltage"), c[f"volt{k}"](g)),
             eq(t.get(v, "datarate"), c[f"rate{k}"](g)), t.eq(t.get(v, "protocol"), c.prot[k - 1])))


def no_dup_pos(t, c):
    """The position is the first one of this ID in its group (accepted experiments list no target twice)."""
    if t.sym:
        t.assume(t.each(c.ids.len(c.gi), lambda j: Implies(eq(c.ids.at(c.gi, j), c.x), eq(j, c.pos))))


@contract("C20", "FirmwareModTask.from_xp and ProgrammingTask.from_xp", on=[M + "firmware_mod:FirmwareModTask.from_xp", M + "programming:ProgrammingTask.from_xp"])
def _(t):
    xp, tb, c, o = world(t, dict(name="xp"))
    no_dup_pos(t, c)
    k = t.choice("slot", [1, 2])
    path = t.path("/data", "fw.hex")
    check_mod(t, t.call(FirmwareModTask.from_xp, xp, tb, c.x, k, path), c, o, k, path)
    check_prog(t, t.call(ProgrammingTask.from_xp, xp, tb, c.x, k, path), c, o, k, path)


@contract("C20", "ObserverTasks.from_xp: one consistent set per target", on=[M + "observer_tasks:ObserverTasks.from_xp"])
def _(t):
    xf, kind = xp_fields(t)
    xf["name"] = t.text("xp_name", gen=lambda r: r.choice(["xp", "my test", "a.b"]))
    t.assume(t.matches(NAME, xf["name"]))
    prep = t.choice("prep", [0, 90_300])
    shared = t.bool("shared_storage")
    xp, tb, c, o = world(t, xf, dict(prep_duration=t.host(lambda: timedelta(seconds=prep)), shared_storage=shared,
                                     data_on_observer=t.path("/var/shepherd")), fw=False)
    no_dup_pos(t, c)
    t.assume(Not(c.has_act(c.gi)))
    out = t.attempt(ObserverTasks.from_xp, xp, tb, c.x)
    if not out.ok:
        t.ensure("rejected with ValueError", out.raised(ValueError))
        late = kind != "asap" and t.m(xf["time_start"], "timestamp") < NOW(t)
        t.ensure("only for start times in the past or without shared storage", Or(late, Not(shared)))
        return
    v = out.value
    t.ensure("shared storage", shared)
    t.ensure("observer of the target", t.eq(t.get(v, "observer"), o.name(c.oi)))
    t.ensure("owner and error handling", And(eq(t.get(v, "owner_id"), xf["owner_id"]), Iff(t.get(v, "abort_on_error"), xf["abort_on_error"])))
    root = t.get(v, "root_path")
    if kind != "asap":
        stamp = t.m(xf["time_start"], "strftime", "%Y-%m-%d_%H-%M-%S")
        t.ensure("directory of the experiment", t.eq(root, t.path("/var/shepherd", t.add("experiments/", xf["name"], "_", stamp))))
        t.ensure("preparation ahead of the start", eq(t.m(t.get(v, "time_prep"), "timestamp"), t.m(xf["time_start"], "timestamp") - prep))
    for k in (1, 2):
        path = t.path(root, t.add(f"fw{k}_", o.name(c.oi), ".hex"))
        check_mod(t, t.get(v, f"fw{k}_mod"), c, o, k, path)
        check_prog(t, t.get(v, f"fw{k}_prog"), c, o, k, path)
    check_emu(t, t.get(v, "emulation"), c, o, root, xp)


@contract("C20", "TestbedTasks.from_xp: one set per target, in order", on=[M + "testbed_tasks:TestbedTasks.from_xp"])
def _(t):
    make = maker(t)
    c = configs(t) if t.sym else groups(t, make, fw=False)
    name = t.text("xp_name", gen=lambda r: "xp")
    t.assume(t.matches(NAME, name))
    owner, email = t.int("owner", lo=0, hi=99), t.bool("email")
    xp = make(Experiment, name=name, target_configs=c.seq, owner_id=owner, email_results=email, time_start=None, duration=None,
              abort_on_error=False)
    tb = t.host(Testbed)
    xp_, tb_ = xp, tb
    if not t.sym:
        # on the running code: sub-tasks replaced by a recorder
        real = ObserverTasks.__dict__["from_xp"]
        ObserverTasks.from_xp = staticmethod(lambda xp, tb, tgt_id: ObserverTasks.model_construct(observer="o", owner_id=tgt_id, root_path=xp is xp_ and tb is tb_))
        t.closers.append(lambda: setattr(ObserverTasks, "from_xp", real))
    t.stub(ObserverTasks.from_xp, lambda cls, xp, tb, tgt_id: t.obj(ObserverTasks, observer="o", owner_id=tgt_id, root_path=xp is xp_ and tb is tb_),
           "C20:ObserverTasks.from_xp: one consistent set per target")
    try:
        out = t.attempt(TestbedTasks.from_xp, xp, tb)
    finally:
        if not t.sym:
            t.closers.pop()()
    ids = t.m(xp, "get_target_ids")
    if not out.ok:
        t.ensure("only when there are more than 128 targets", And(out.raised(ValueError), t.len(ids) > 128))
        return
    v = out.value
    obs = t.get(v, "observer_tasks")
    t.ensure("as many sets as targets", eq(t.len(obs), t.len(ids)))
    t.ensure("in target order", t.forall(t.len(obs), lambda i: eq(t.get(t.at(obs, i), "owner_id"), t.at(ids, i))))
    t.ensure("all of this experiment and testbed", t.forall(t.len(obs), lambda i: t.get(t.at(obs, i), "root_path")))
    t.ensure("name, owner, email", And(t.eq(t.get(v, "name"), name), eq(t.get(v, "owner_id"), owner), Iff(t.get(v, "email_results"), email)))


SLOTS = ["fw1_mod", "fw2_mod", "fw1_prog", "fw2_prog", "emulation"]
KINDS = [FirmwareModTask, FirmwareModTask, ProgrammingTask, ProgrammingTask, EmulationTask]


@contract("C20", "ObserverTasks.get_tasks: fixed order", on=[M + "observer_tasks:ObserverTasks.get_tasks"])
def _(t):
    has = {k: t.bool(k) for k in SLOTS}
    ot = t.obj(ObserverTasks, observer="obs", **{k: t.optional(has[k], t.obj(K, verbose=i)) for i, (k, K) in enumerate(zip(SLOTS, KINDS))})
    r = t.m(ot, "get_tasks")
    want = [i for i, k in enumerate(SLOTS) if t.branch(has[k])]
    t.ensure("all tasks that are present", eq(t.len(r), len(want)))
    t.ensure("patching, programming, emulation", And(*[eq(t.get(t.at(r, p), "verbose"), i) for p, i in enumerate(want)]))


def task_set(t, n, names):
    has_emu = t.col("has_emu", n, "bool")
    has_out = t.col("has_output", n, "bool", gen=lambda r: r.random() < .9)

    def one(i):
        return t.obj(ObserverTasks, observer=names(i), owner_id=i, emulation=t.optional(has_emu(i), t.obj(
            EmulationTask, output_path=t.optional(has_out(i), t.path("/out", t.add("emu_", names(i), ".h5"))))))
    return one, has_emu, has_out


@contract("C20", "retrieval list: the output of every emulation", bounded="at most 3 observers", on=[
    M + "testbed_tasks:TestbedTasks.get_output_paths", M + "observer_tasks:ObserverTasks.get_output_paths"])
def _(t):
    n = t.choice("n", [1, 2, 3])
    names = t.col("obs_name", n, "str", gen=NAMES)
    for i in range(n):
        t.assume(t.matches(NAME, names(i)))
        for j in range(i):
            t.assume(Not(t.eq(names(i), names(j))))  # accepted testbeds (C19)
    one, has_emu, has_out = task_set(t, n, names)
    tt = t.obj(TestbedTasks, name="tt", observer_tasks=[one(i) for i in range(n)])
    out = t.attempt_m(tt, "get_output_paths")
    if not out.ok:
        t.ensure("raises only for emulations without output", And(out.raised(ValueError), Or(*[And(has_emu(i), Not(has_out(i))) for i in range(n)])))
        return
    emus = [i for i in range(n) if t.branch(has_emu(i))]
    t.ensure("one entry per emulation", eq(t.len(out.value), len(emus)))
    for i in emus:
        t.ensure("its own output path", And(has_out(i), t.eq(t.m(out.value, "get", names(i)), t.path("/out", t.add("emu_", names(i), ".h5")))))


@contract("C20", "get_observer_tasks: the set of that observer", on=[M + "testbed_tasks:TestbedTasks.get_observer_tasks"])
def _(t):
    n = t.int("n", lo=1, hi=128, gen=lambda r: r.randint(1, 4))
    names = t.col("obs_name", n, "str", gen=NAMES)
    tt = t.obj(TestbedTasks, name="tt", observer_tasks=t.seq(n, lambda i: t.obj(ObserverTasks, observer=names(i), owner_id=i)))
    who = t.text("who", gen=NAMES)
    r = t.m(tt, "get_observer_tasks", who)
    if r is None:
        t.ensure("None only for observers that take no part", t.forall(n, lambda i: Not(t.eq(names(i), who))))
    else:
        k = t.get(r, "owner_id")
        t.ensure("one of the sets", And(0 <= k, k < n))
        t.ensure("of this observer", t.eq(t.get(r, "observer"), who))
        t.ensure("unchanged", t.eq(names(k), who))
