"""C19: experiments, target groups and testbed lookups."""
from datetime import timedelta

from shepherd_core.data_models.content.energy_environment import EnergyEnvironment
from shepherd_core.data_models.content.firmware import Firmware
from shepherd_core.data_models.experiment.experiment import Experiment
from shepherd_core.data_models.experiment.target_config import TargetConfig
from shepherd_core.data_models.testbed.cape import Cape
from shepherd_core.data_models.testbed.cape import TargetPort
from shepherd_core.data_models.testbed.mcu import MCU
from shepherd_core.data_models.testbed.observer import Observer
from shepherd_core.data_models.testbed.target import Target
from shepherd_core.data_models.testbed.testbed import Testbed

from pyvc.contract import contract
from pyvc.core import And, Iff, Implies, Not, Or, eq, ite

M = "shepherd_core.data_models."
X = M + "experiment.experiment:Experiment."
TC = M + "experiment.target_config:TargetConfig."
TB = M + "testbed.testbed:Testbed."
OB = M + "testbed.observer:Observer."

SMALL = lambda r: r.choice([1, 2, 3, 4, 5, 6])  # noqa: E731


def pool(*xs):
    """Generator that draws without repetition."""
    left = []

    def draw(r):
        if not left:
            left.extend(xs)
            r.shuffle(left)
        return left.pop()
    return draw


def testbed(t, name=None, make=None, tgen=None, **kw):
    """Any testbed whose observers carry at most one target per port; no target is listed twice."""
    n = t.int("observers", lo=1, hi=128, gen=lambda r: r.randint(1, 4))
    name = t.col("obs_name", n, "str", gen=name) if name else None
    oid = t.col("obs_id", n, lo=0, gen=pool(*range(1, 40)))
    act = t.col("obs_active", n, "bool", gen=lambda r: r.random() < .8)
    hascape = t.col("has_cape", n, "bool", gen=lambda r: r.random() < .8)
    cact = t.col("cape_active", n, "bool", gen=lambda r: r.random() < .8)
    cols = NS()
    for p in "ab":
        cols[f"has_{p}"] = t.col(f"has_target_{p}", n, "bool", gen=lambda r: r.random() < .8)
        cols[f"id_{p}"] = t.col(f"target_{p}", n, lo=0, gen=tgen or SMALL)
        cols[f"tid_{p}"] = t.col(f"testbed_id_{p}", n, lo=0, hi=2**16 - 1)
        cols[f"act_{p}"] = t.col(f"target_{p}_active", n, "bool", gen=lambda r: r.random() < .8)
    cols.update(n=n, name=name, id=oid, act=act, hascape=hascape, cact=cact, port=TargetPort)

    make = make or (lambda cls, **f: t.obj(cls, **f))

    def target(p, i):
        return t.optional(And(hascape(i), cols[f"has_{p}"](i)),
                          make(Target, id=cols[f"id_{p}"](i), active=cols[f"act_{p}"](i), testbed_id=cols[f"tid_{p}"](i)))

    def observer(i):
        return make(Observer, id=oid(i), name=name(i) if name else "obs", active=act(i),
                    cape=t.optional(hascape(i), make(Cape, id=oid(i), active=cact(i))),
                    target_a=target("a", i), target_b=target("b", i))
    cols["observer"] = observer
    tb = make(Testbed, name="tb", observers=t.seq(n, observer), **kw)
    return tb, cols


class NS(dict):
    __getattr__ = dict.__getitem__


def at_port(c, i, x, p):
    return And(c.hascape(i), c[f"has_{p}"](i), eq(c[f"id_{p}"](i), x))


def hosts(c, i, x):
    """Observer i hosts the (active) target x."""
    return Or(*[And(at_port(c, i, x, p), c[f"act_{p}"](i)) for p in "ab"])


def usable(c, i):
    return And(c.act(i), c.hascape(i), c.cact(i))


@contract("C19", "Testbed.get_observer: the first active observer that hosts the target", on=[TB + "get_observer", OB + "has_target"])
def _(t):
    tb, c = testbed(t)
    x = t.int("target", lo=0, gen=SMALL)
    out = t.attempt_m(tb, "get_observer", x)
    if out.ok:
        t.ensure("an active observer with an active cape hosting the active target", t.exists(c.n, lambda i: And(
            eq(t.get(out.value, "id"), c.id(i)), usable(c, i), hosts(c, i, x))))
    else:
        t.ensure("unknown targets raise ValueError", out.raised(ValueError))
        t.ensure("only when no active observer hosts the target", t.forall(c.n, lambda i: Not(And(usable(c, i), hosts(c, i, x)))))


@contract("C19", "Observer: port and target lookups", on=[OB + "has_target", OB + "get_target_port", OB + "get_target"])
def _(t):
    tb, c = testbed(t)
    i = t.int("i", lo=0, gen=lambda r: r.randint(0, 3))
    t.assume(i < c.n)
    x = t.int("target", lo=0, gen=SMALL)
    t.assume(Not(And(at_port(c, i, x, "a"), at_port(c, i, x, "b"))))  # a target is mounted once
    o = c.observer(i)
    t.ensure("has_target", Iff(t.m(o, "has_target", x), hosts(c, i, x)))
    port, tgt = t.attempt_m(o, "get_target_port", x), t.attempt_m(o, "get_target", x)
    if t.branch(hosts(c, i, x)):
        t.ensure("both lookups succeed", port.ok and tgt.ok)
        if port.ok and tgt.ok:
            t.ensure("the port the target is mounted on", eq(port.value == TargetPort.A, at_port(c, i, x, "a"))
                     if t.sym else (port.value == TargetPort.A) == bool(at_port(c, i, x, "a")))
            t.ensure("the requested target", eq(t.get(tgt.value, "id"), x))
            t.ensure("its record", Iff(t.get(tgt.value, "active"), True))
    else:
        t.ensure("unknown targets raise", port.raised(KeyError, ValueError) and tgt.raised(KeyError, ValueError))


# ------------------------------------------------------------- experiments

def configs(t, n=None, maxid=2**128 - 1, fields=None, make=None, distinct=False):
    """Any list of target groups; custom IDs, where given, cover the group."""
    n = t.int("groups", lo=1, hi=128, gen=lambda r: r.randint(1, 3)) if n is None else n
    ids = t.rows("ids", n, lo=0, hi=maxid, nmin=1, nmax=128, gen=pool(*range(1, 12)) if distinct else lambda r: r.randint(1, 8))
    has = t.col("has_custom", n, "bool")
    more = t.col("more_custom", n, lo=0, hi=128, gen=lambda r: r.choice([0, 0, 1, 2]))
    cus = t.rows("custom", n, lo=0, hi=2**16 - 1, lens=lambda i: ids.len(i) + more(i), gen=pool(*range(20, 60)) if distinct else lambda r: r.randint(1, 9))

    def group(i):
        return (make or t.obj)(TargetConfig, target_IDs=ids.row(i), custom_IDs=t.optional(has(i), cus.row(i)), target_delays=i if make is None else [i],
                     **(fields(i) if fields else {}))
    return NS(n=n, ids=ids, has=has, cus=cus, group=group, seq=t.seq(n, group))


def used_id(c, i, j):
    return ite(c.has(i), c.cus.at(i, j), c.ids.at(i, j))


def is_pos(t, c, tag):
    """An arbitrary position (group, index) of the experiment."""
    i = t.int("g" + tag, lo=0, gen=lambda r: r.randint(0, 2))
    j = t.int("k" + tag, lo=0, gen=lambda r: r.randint(0, 2))
    t.assume(i < c.n)
    t.assume(j < c.ids.len(i))
    return i, j


def two_positions(t, c):
    """Two arbitrary different positions (on the running code: all pairs)."""
    if not t.sym:
        ps = [(i, j) for i in range(c.n) for j in range(c.ids.len(i))]
        return [(p, q) for p in ps for q in ps if p != q]
    (i, j), (k, l) = is_pos(t, c, "1"), is_pos(t, c, "2")
    t.assume(Or(Not(eq(i, k)), Not(eq(j, l))))
    return [((i, j), (k, l))]


@contract("C19", "get_custom_id: the ID at the position of the target", on=[TC + "get_custom_id"])
def _(t):
    n = t.int("n", lo=1, hi=128, gen=lambda r: r.randint(1, 4))
    m = t.int("m", lo=0, hi=128, gen=lambda r: r.choice([0, 0, 1]))
    ids = t.col("ids", n, lo=0, gen=lambda r: r.randint(1, 6))
    cus = t.col("custom", n + m, lo=0, hi=2**16 - 1)
    has = t.bool("has_custom")
    cfg = t.obj(TargetConfig, target_IDs=t.seq(n, ids), custom_IDs=t.optional(has, t.seq(n + m, cus)))
    x = t.int("target", lo=0, gen=SMALL)
    r = t.m(cfg, "get_custom_id", x)
    known = t.exists(n, lambda i: eq(ids(i), x))
    if r is None:
        t.ensure("no ID only without custom IDs or for other targets", Or(Not(has), t.forall(n, lambda i: Not(eq(ids(i), x)))))
    else:
        t.ensure("only with custom IDs and for targets of the group", And(has, known))
        t.ensure("the ID at the position of the target", t.exists(n, lambda i: And(eq(ids(i), x), eq(cus(i), r))))


@contract("C19", "get_target_config: the group that lists the target", on=[X + "get_target_config"])
def _(t):
    c = configs(t)
    xp = t.obj(Experiment, name="xp", target_configs=c.seq)
    x = t.int("target", lo=0, gen=lambda r: r.randint(1, 8))
    out = t.attempt_m(xp, "get_target_config", x)
    listed = lambda i: t.exists(c.ids.len(i), lambda j: eq(c.ids.at(i, j), x))  # noqa: E731
    if out.ok:
        k = t.get(out.value, "target_delays")
        t.ensure("one of the groups", And(0 <= k, k < c.n))
        t.ensure("it lists the target", t.m(t.get(out.value, "target_IDs"), "__contains__", x) if not t.sym else listed(k))
    else:
        t.ensure("raises ValueError", out.raised(ValueError))
        t.ensure("only for targets that no group lists", t.forall(c.n, lambda i: t.forall(c.ids.len(i), lambda j: Not(eq(c.ids.at(i, j), x)))))


@contract("C19", "get_target_ids: all targets of all groups", on=[X + "get_target_ids"])
def _(t):
    c = configs(t)
    xp = t.obj(Experiment, name="xp", target_configs=c.seq)
    r = t.m(xp, "get_target_ids")
    i, j = is_pos(t, c, "1")
    t.ensure("every target is listed", t.exists(t.len(r), lambda q: eq(t.at(r, q), c.ids.at(i, j))))
    t.ensure("nothing else is listed", t.forall(t.len(r), lambda q: t.exists(c.n, lambda a: t.exists(c.ids.len(a), lambda b: eq(c.ids.at(a, b), t.at(r, q))))))


REAL_IDS = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 1001, 1392399]


def stored_targets(t):
    """Callee contract of Target(id=x): ValueError for unknown ids, otherwise the stored target with that id."""
    known, mcu1, has2, mcu2 = (t.uf("target_" + k, d) for k, d in (("known", "bool"), ("mcu1", "int"), ("has_mcu2", "bool"), ("mcu2", "int")))

    def target(**kw):
        x = kw["id"]
        if not t.branch(known(x)):
            t.raise_(ValueError("unknown target"))
        return t.obj(Target, id=x, name="some target", active=True,
                     mcu1=t.obj(MCU, id=mcu1(x), name="mcu1", fw_name_default="fw1"),
                     mcu2=t.optional(has2(x), t.obj(MCU, id=mcu2(x), name="mcu2", fw_name_default="fw2")))
    t.stub(Target, target, "C19:Target(id): the stored target or an error")
    return NS(known=known, mcu1=mcu1, has2=has2, mcu2=mcu2)


@contract("C19", "Target(id): the stored target or an error", on=[M + "testbed.target:Target.query_database"])
def _(t):
    x = t.int("x", lo=0, hi=2**128 - 1, gen=lambda r: r.choice([*REAL_IDS, 0, 12, 2**70]))
    out = t.attempt(Target, id=x)
    if out.ok:
        t.ensure("the requested id", eq(t.get(out.value, "id"), x))
        t.ensure("testbed id", eq(t.get(out.value, "testbed_id"), x % 2**16))
        t.ensure("a first controller", t.isinstance(t.get(out.value, "mcu1"), MCU))
        if t.get(out.value, "mcu2") is not None:
            t.ensure("second controller", t.isinstance(t.get(out.value, "mcu2"), MCU))
    else:
        t.ensure("ValueError for unknown ids", out.raised(ValueError))
        t.ensure("known ids are found", And(*[Not(eq(x, k)) for k in REAL_IDS]))


@contract("C19", "accepted experiments: no target ID and no custom ID twice", on=[X + "_validate_targets"])
def _(t):
    c = configs(t)
    db = stored_targets(t)
    out = t.attempt(Experiment._validate_targets, c.seq)
    if out.ok:
        pairs = two_positions(t, c)
        t.ensure("no target twice", And(*[Not(eq(c.ids.at(i, j), c.ids.at(k, l))) for (i, j), (k, l) in pairs]))
        t.ensure("no custom ID twice", And(*[Not(eq(used_id(c, i, j), used_id(c, k, l))) for (i, j), (k, l) in pairs]))
        if t.sym:
            t.ensure("all targets are known", db.known(c.ids.at(*pairs[0][0])))
    else:
        t.ensure("rejected with ValueError", out.raised(ValueError))


@contract("C19", "accepted experiments: one target per observer", on=[X + "_validate_observers"])
def _(t):
    tb, o = testbed(t)
    c = configs(t)
    hosted, host = t.uf("hosted", "bool"), t.uf("host")

    def get_observer(self, target_id):
        if not t.branch(hosted(target_id)):
            t.raise_(ValueError("not found"))
        return t.obj(Observer, id=host(target_id), name="obs")
    t.stub(Testbed.get_observer, get_observer, "C19:Testbed.get_observer: the first active observer that hosts the target")
    out = t.attempt(Experiment._validate_observers, c.seq, tb)
    if out.ok:
        for (i, j), (k, l) in two_positions(t, c):
            oi = t.attempt_m(tb, "get_observer", c.ids.at(i, j))
            ok_ = t.attempt_m(tb, "get_observer", c.ids.at(k, l))
            t.ensure("every target has an active observer", oi.ok and ok_.ok)
            if oi.ok and ok_.ok:
                t.ensure("no observer serves two targets", Not(eq(t.get(oi.value, "id"), t.get(ok_.value, "id"))))
    else:
        t.ensure("rejected with ValueError", out.raised(ValueError))


@contract("C19", "post_validation: both checks run on the experiment's own targets", on=[X + "post_validation"])
def _(t):
    n = t.int("n", lo=1, hi=128, gen=lambda r: r.randint(1, 3))
    ids = t.col("ids", n, lo=0, hi=2**128 - 1, gen=lambda r: r.choice(REAL_IDS))
    stored_targets(t)
    hosted, host = t.uf("hosted", "bool"), t.uf("host")
    tb = t.host(Testbed)

    def get_observer(self, target_id):
        if not t.branch(hosted(target_id)):
            t.raise_(ValueError("not found"))
        return t.obj(Observer, id=host(target_id), name="obs")
    t.stub(Testbed, lambda **kw: tb, "C21: the stored testbed")
    t.stub(Testbed.get_observer, get_observer, "C19:Testbed.get_observer: the first active observer that hosts the target")
    dur = t.real("duration", gen=lambda r: r.choice([-1.0, 0.0, 10.0, -1e-6]))
    xp = t.obj(Experiment, name="xp", duration=None, target_configs=[t.obj(TargetConfig, target_IDs=t.seq(n, ids), custom_IDs=None)])
    out = t.attempt_m(xp, "post_validation")
    i, j = t.int("i", lo=0, gen=lambda r: 0), t.int("j", lo=0, gen=lambda r: r.randint(0, 2))
    t.assume(And(i < j, j < n))
    if out.ok:
        t.ensure("no target twice", Not(eq(ids(i), ids(j))))
        oi, oj = t.attempt_m(tb, "get_observer", ids(i)), t.attempt_m(tb, "get_observer", ids(j))
        t.ensure("all targets hosted", oi.ok and oj.ok)
        if oi.ok and oj.ok:
            t.ensure("no observer twice", Not(eq(t.get(oi.value, "id"), t.get(oj.value, "id"))))
    else:
        t.ensure("rejected with ValueError", out.raised(ValueError))


@contract("C19", "target groups: custom IDs cover the group, controllers fit", on=[TC + "post_validation"])
def _(t):
    n = t.int("n", lo=1, hi=128, gen=lambda r: r.randint(1, 3))
    m = t.int("m", lo=1, hi=128, gen=lambda r: r.randint(1, 4))
    ids = t.col("ids", n, lo=0, gen=lambda r: r.choice(REAL_IDS))
    cus = t.col("custom", m, lo=0, hi=2**16 - 1, gen=lambda r: r.randint(1, 5))
    has = t.bool("has_custom")
    db = stored_targets(t)
    dflt = t.uf("default_fw_mcu")
    t.stub(Firmware, lambda **kw: t.obj(Firmware, name="default", mcu=t.obj(MCU, id=dflt(kw["name"]), name="m")), "C21: stored firmware")
    fw = lambda nm, k: t.obj(Firmware, name=nm, mcu=t.obj(MCU, id=k, name="m"))  # noqa: E731
    f1, f2 = t.int("fw1_mcu", lo=0, gen=lambda r: r.choice([1001, 1002])), t.int("fw2_mcu", lo=0, gen=lambda r: r.choice([1001, 1002]))
    has2, valid = t.bool("has_fw2"), t.bool("valid_env")
    cfg = t.obj(TargetConfig, target_IDs=t.seq(n, ids), custom_IDs=t.optional(has, t.seq(m, cus)),
                energy_env=t.obj(EnergyEnvironment, name="env", valid=valid), firmware1=fw("fw1", f1),
                firmware2=t.optional(has2, fw("fw2", f2)))
    out = t.attempt_m(cfg, "post_validation")
    if out.ok:
        t.ensure("energy environment is valid", valid)
        i = t.int("i", lo=0, gen=lambda r: r.randint(0, 2))
        t.assume(i < n)
        j = t.int("j", lo=0, gen=lambda r: r.randint(0, 2))
        t.assume(j < n)
        tgt = t.call(Target, id=ids(i))
        t.ensure("the first firmware fits the controller", eq(t.get(t.get(tgt, "mcu1"), "id"), f1))
        if t.branch(has2) and t.get(tgt, "mcu2") is not None:
            t.ensure("the second firmware fits the controller", eq(t.get(t.get(tgt, "mcu2"), "id"), f2))
        if t.sym:
            t.assume(t.each(n, lambda a: t.each(n, lambda b: Implies(Not(eq(a, b)), Not(eq(ids(a), ids(b)))))))
        else:
            t.assume(len({ids(a) for a in range(n)}) == n)
        t.ensure("there are enough custom IDs", Implies(has, n <= m))
    else:
        t.ensure("rejected with ValueError", out.raised(ValueError))


@contract("C19", "accepted testbeds: nothing is listed twice", on=[TB + "post_validation"])
def _(t):
    n = t.int("observers", lo=1, hi=128, gen=lambda r: r.randint(1, 3))
    c = {k: t.col(k, n, lo=0, gen=lambda r: r.randint(1, 8)) for k in ("id", "name", "ip", "mac", "eth_port")}
    shared, prep = t.bool("shared"), t.choice("prep", [-1, 0, 300])
    tb = t.obj(Testbed, name="tb", shared_storage=shared, prep_duration=t.host(lambda: timedelta(seconds=prep)),
               observers=t.seq(n, lambda i: t.obj(Observer, id=c["id"](i), name=c["name"](i), ip=c["ip"](i), mac=c["mac"](i),
                                                  eth_port=c["eth_port"](i), cape=None, target_a=None, target_b=None)))
    out = t.attempt_m(tb, "post_validation")
    i, j = t.int("i", lo=0, gen=lambda r: 0), t.int("j", lo=0, gen=lambda r: r.randint(0, 2))
    t.assume(And(i < j, j < n))
    if out.ok:
        for k, f in c.items():
            t.ensure(f"{k} is unique", Not(eq(f(i), f(j))))
        t.ensure("shared storage", shared)
        t.ensure("preparation time", prep >= 0)
    else:
        t.ensure("rejected with ValueError", out.raised(ValueError))
