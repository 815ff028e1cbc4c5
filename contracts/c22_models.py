"""C22: data models survive saving and loading."""
import copy
import datetime as dt
import enum
import importlib
import logging
import pkgutil
import typing
import uuid
from pathlib import Path
from typing import get_args, get_origin

import annotated_types as at
from pydantic import BaseModel, ValidationError
from pyvc.contract import Skip, contract
from pyvc.core import And, Implies, Not, Or, eq
from pyvc.pyd import flatten

import shepherd_core.data_models as dm
from shepherd_core import inventory  # noqa: F401
from shepherd_core.data_models.base.shepherd import ShpModel
from shepherd_core.data_models.testbed.mcu import MCU
from shepherd_core.testbed_client.client_abc_fix import FixturesClient

logging.disable(logging.CRITICAL)
for _m in pkgutil.walk_packages(dm.__path__, "shepherd_core.data_models."):
    importlib.import_module(_m.name)

S = "shepherd_core.data_models.base.shepherd:ShpModel."
PART = r'^[^<>:;,?"\*|\/\\]+$'
TRICKY = ["true", "Null", "~", "123", "0x1F", "0o17", "1e5", "1_000", "2020-01-01", "12h30", "- a", "a b", "'q'", "#x", "a #b", "@x", "%y", "&a", "!t",
          "{a}", "[b]", "yes", "=", "..", "1.", ".5", "0755", "a - b", "off"]


def classes():
    out = {}

    def walk(c):
        for s in c.__subclasses__():
            if s.__module__.startswith("shepherd_core."):
                out.setdefault(s.__name__, s)
                walk(s)
    walk(ShpModel)
    return out


ALL = classes()
OUT = {"User"}  # holds secrets, can not be saved


def tricky(pattern, hi):
    import re

    def gen(r):
        if r.random() < 0.5:
            v = r.choice(TRICKY)
            if len(v) <= hi and (pattern is None or re.search(pattern, v)):
                return v
        return "".join(r.choice("abcXYZ_09") for _ in range(r.randint(1, min(hi, 6))))
    return gen


def number(ann, meta):
    lo = hi = gt = lt = None
    for m in meta:
        lo = m.ge if isinstance(m, at.Ge) else lo
        gt = m.gt if isinstance(m, at.Gt) else gt
        hi = m.le if isinstance(m, at.Le) else hi
        lt = m.lt if isinstance(m, at.Lt) else lt
    return lo, hi, gt, lt


NEEDED = {("GPIO", "direction"), ("GPIO", "reg_pru"), ("GPIO", "pin_pru"), ("SystemInventory", "fs_root"), ("SystemInventory", "beagle"),
          ("Inventory", "fs_root"), ("Inventory", "beagle"), ("EnergyEnvironment", "valid")}
RANGES = {("VirtualHarvesterConfig", "voltage_min_mV"): (0, 1000), ("VirtualHarvesterConfig", "voltage_mV"): (1000, 3000),
          ("VirtualHarvesterConfig", "voltage_max_mV"): (3000, 5000),
          ("VirtualHarvesterConfig", "voltage_step_mV"): (1, 1000), ("Inventory", "uptime"): (1, 10**6)}


class Draw:
    """Values for all fields of a model."""

    def __init__(self, t, mode, aware, joint=False):
        self.t, self.mode, self.aware, self.joint = t, mode, aware, joint
        self.firm = None
        self.variant = None
        self.count = 0

    def pick(self, key, options):
        """One of the options. In proofs about big models they are varied together, not independently."""
        if not self.t.sym or not self.joint:
            return self.t.choice(key, options)
        if self.variant is None:
            self.variant = self.t.choice("variant", [0, 1, 2, 3])
        return options[self.variant % len(options)]

    def fields(self, cls, pre, mode=None):
        mode = mode or self.mode
        out = {}
        for name, fi in cls.model_fields.items():
            if (mode == "bare" or mode == "lean" and fi.default_factory is None) and not fi.is_required() and (cls.__name__, name) not in NEEDED:
                continue
            v = self.special(cls, name, f"{pre}.{name}", mode)
            if v is NotImplemented:
                v = self.value(fi.annotation, fi.metadata, f"{pre}.{name}", mode)
            out[name] = v
        return out

    def special(self, cls, name, key, mode):
        t, c = self.t, cls.__name__
        opt = type(None) in get_args(cls.model_fields[name].annotation)
        if opt and mode == "none":
            return self.needed(c, name, key)
        if (c, name) in RANGES:
            a, b = RANGES[c, name]
            lo, hi, gt, lt = number(*flatten(cls.model_fields[name].annotation, cls.model_fields[name].metadata))
            if name == "uptime":
                return t.int(key, lo=1, gen=lambda r: r.randint(a, b))
            return t.real(key, lo=lo, hi=hi, gt=gt, lt=lt, gen=lambda r: r.choice([r.uniform(a, b), float(r.randint(a, b))]))
        if name.startswith("visible2") and mode == "none":
            return False
        if name == "mac":
            return self.pick(key, ["00:1b:c5:01:02:0f", "AA-BB-CC-DD-EE-01"])
        if name == "ip":
            return self.pick(key, ["10.0.0.1", "fe80::1"])
        if name == "url":
            return self.pick(key, ["http://nes-lab.org/x", "https://a.b:99/?q=1"])
        if (c, name) == ("CapeData", "header"):
            return self.pick(key, [b"\xaa\x55\x33\xee", b"ab", b"\x00\xff"])
        if (c, name) in (("Cape", "created"), ("Cape", "calibrated")) and self.pick(key + "?", [0, 1]):
            return self.pick(key, [dt.date(2024, 2, 29), dt.date(1999, 12, 31)])
        if c == "Firmware":
            if self.firm is None:
                self.firm = self.pick(key + "?", ["path", "embedded"])
            if name == "mcu":
                return t.host(lambda: MCU(name="nRF52").model_dump())
            if self.firm == "embedded" and name == "data":
                return self.embedded()[0]
            if self.firm == "embedded" and name == "data_hash":
                return self.embedded()[1]
            if name == "data_type":
                return self.pick(key, ["path_elf", "path_hex"] if self.firm == "path" else ["elf", "hex"])
        if name == "data" and c in ("Firmware", "FirmwareModTask"):
            return t.add("/fw/", self.name(key))
        if (c, name) == ("ProgrammingTask", "firmware_file"):
            return t.path("/fw/" if self.pick(key + "?", [0, 1]) else ".", t.add(self.name(key), ".hex"))
        if (c, name) == ("EmulationTask", "voltage_aux"):
            k = self.pick(key + "?", ["v", "main", "buffer"])
            return t.real(key, lo=0, hi=4.5) if k == "v" else k
        if (c, name) == ("EmulationTask", "gpio_actuation"):
            return None
        if name == "output_compression":
            return self.pick(key, ["lzf", "1", None])
        if name == "calculate_power" or name == "discard_current":
            return False
        if (c, name) == ("GPIO", "name"):
            return t.add("GPIO", t.text(key, maxlen=5))
        if (c, name) == ("GPIO", "direction") and "event" in key:
            return self.pick(key, ["OUT", "IO"])
        if (c, name) == ("EnergyEnvironment", "valid") and "config" in key:
            return True
        if name == "target_IDs":
            return [self.pick(key, [1, 3])]
        if name in ("custom_IDs",):
            return [t.int(key, lo=0, hi=2**16 - 1)]
        if (c, name) == ("TargetConfig", "firmware2"):
            return None
        if (c, name) == ("VirtualHarvesterConfig", "algorithm") and ("vsrc" in key or "EmulationTask" in key or "config" in key):
            return self.pick(key, ["mppt_voc", "mppt_opt"])
        return NotImplemented

    def needed(self, c, name, key):
        """Optional fields without which a model is refused."""
        if c == "GPIO" and name in ("reg_pru", "pin_pru"):
            return self.t.text(key, maxlen=10)
        return None

    def name(self, key):
        """Part of a path."""
        v = self.t.text(key, maxlen=10)
        self.t.assume(self.t.matches(PART, v))
        return v

    def embedded(self):
        if not hasattr(self, "_emb"):
            import base64
            import hashlib

            import zstandard
            raw = bytes(range(40)) * 3
            self._emb = (base64.b64encode(zstandard.ZstdCompressor(level=20).compress(raw)).decode("ascii"), hashlib.sha3_224(raw).hexdigest())
        return self._emb

    def value(self, ann, meta, key, mode):
        t = self.t
        ann, meta = flatten(ann, meta)
        o = get_origin(ann)
        if o is typing.Union or str(o) == "<class 'types.UnionType'>":
            args = get_args(ann)
            if type(None) in args and mode == "none":
                return None
            args = [a for a in args if a is not type(None)]
            if any(flatten(a, [])[0] is uuid.UUID for a in args):
                if self.pick(key + "?", [0, 1]):
                    return self.pick(key, [uuid.UUID("936da01f-9abd-4d9d-80c7-02af85c822a8"), uuid.UUID("16fd2706-8baf-433b-82eb-8c7fada847da")])
                return t.int(key, lo=0, gen=lambda r: r.choice([0, 7, 2**70]))
            return self.value(args[0], meta, key, mode)
        if ann is float:
            lo, hi, gt, lt = number(ann, meta)
            a = lo if lo is not None else gt if gt is not None else -1e6
            b = hi if hi is not None else lt if lt is not None else 1e6
            return t.real(key, lo=lo, hi=hi, gt=gt, lt=lt, gen=lambda r: r.choice([r.uniform(a, b), float(round(r.uniform(a, b))), a + (b - a) * 1e-7]))
        if ann is int:
            lo, hi, gt, lt = number(ann, meta)
            lo = lo if lo is not None else gt + 1 if gt is not None else None
            hi = hi if hi is not None else lt - 1 if lt is not None else None
            return t.int(key, lo=lo, hi=hi, gen=lambda r: r.randint(lo if lo is not None else -9, hi if hi is not None else (lo or 0) + 2**40))
        if ann is bool:
            return t.bool(key)
        if ann is str:
            hi, pat = None, None
            for m in meta:
                d = getattr(m, "__dict__", {}) or {}
                hi = getattr(m, "max_length", None) or d.get("max_length") or hi
                pat = getattr(m, "pattern", None) or d.get("pattern") or pat
            hi = min(hi or 24, 24)
            v = t.text(key, maxlen=hi, gen=tricky(pat, hi))
            if pat is not None:
                t.assume(t.matches(pat, v))
            return v
        if isinstance(ann, type) and issubclass(ann, enum.Enum):
            return self.pick(key, [x.value for x in ann])
        if ann is dt.datetime or ann is dt.date:
            return t.time(key, aware=self.aware)
        if ann is dt.timedelta:
            return t.span(key)
        if ann is Path:
            return t.path(self.pick(key + "?", ["/data/a", "rel"]), self.name(key))
        if isinstance(ann, type) and issubclass(ann, BaseModel):
            self.count += 1
            if self.t.sym and self.joint and mode == "full" and self.pick("", range(4)) != self.count % 4:
                return self.fields(ann, key, "lean")  # in proofs about big models, not all parts have all their fields at once
            return self.fields(ann, key, mode if mode != "bare" else "none")
        if o is list:
            n = max([m.min_length for m in meta if isinstance(m, at.MinLen)] + [1])
            return [self.value(get_args(ann)[0], [], f"{key}[{i}]", mode) for i in range(n)]
        if o is dict:
            k, v = get_args(ann)
            return {self.pick(key, ["eth0", "lo"]): self.value(v, [], key + "[]", mode)}
        raise Skip(f"{ann}")


# ---------------------------------------------------------------- contracts

class Ghost:
    @staticmethod
    def accepted(self):
        return self

    @staticmethod
    def from_vhrv(cls, data, dtype_in=None, window_size=None, *, for_emu=False):
        return None


QUERY = {"VirtualHarvesterConfig", "VirtualSourceConfig", "EnergyEnvironment", "Firmware", "MCU", "Target", "Cape", "Observer", "GPIO", "Testbed"}


def setting(t, kind=None, store=None):
    """The store of fixtures: supplied values win (C21), missing ones are taken from the entry, if there is one."""
    def try_completing_model(self, model_type, values):
        return ({**store, **values} if model_type == kind and store is not None else values), []
    t.stub(FixturesClient.try_completing_model, try_completing_model, by="C21 (supplied values win, the rest is taken from the stored entry)")
    for c in ("TargetConfig", "Experiment", "Testbed"):
        t.stub(ALL[c].post_validation, Ghost.accepted, by="C19 (acceptance is a function of the values)")
    t.stub(ALL["HarvesterPRUConfig"].from_vhrv, Ghost.from_vhrv, by="C18 (acceptance is a function of the values)")


def given(t, cls, d):
    return t.model(cls, **copy.deepcopy(d)) if not t.sym else t.model(cls, **d)


def stored_entry(t, cls, d):
    """Real names of stored entries and values equal to the defaults (only for the running code, proofs use any entry)."""
    if cls.__name__ in QUERY and not t.sym and t.rng.random() < 0.7:
        from shepherd_core.testbed_client import tb_client
        names = tb_client.query_names(cls.__name__)
        if names:
            entry = tb_client.query_item(cls.__name__, name=t.rng.choice(names))
            d = {"name": entry["name"]}
            try:
                cls(**d)
            except ValueError:
                return None
            for f, fi in cls.model_fields.items():
                if f != "name" and not fi.is_required() and fi.default_factory is None and t.rng.random() < 0.2:
                    try:
                        cls(**d, **{f: fi.default})
                    except ValueError:
                        continue
                    d[f] = fi.default
            return d
    return None


def round_trip(t, cls, mode, minimal):
    aware = t.choice("zones", [False, True])
    pre = "vsrc" if cls.__name__ == "VirtualSourceConfig" else "config" if cls.__name__ in ("TargetConfig", "Experiment", "TestbedTasks") else cls.__name__
    store = None
    if minimal and t.sym and cls.__name__ in QUERY:
        store = Draw(t, "full", aware, True).fields(cls, "stored." + pre)
    setting(t, cls.__name__, store)
    d = Draw(t, mode, aware, cls.__name__ in HEAVY).fields(cls, pre)
    if minimal and not t.sym:
        d = stored_entry(t, cls, d) or d
    m = given(t, cls, d)
    fs = t.fs()
    fs.other("else.yaml")
    light = cls.__name__ in LIGHT  # the way files are named is shared by all models
    if light and t.branch(t.bool("taken")):
        fs.other("m.yaml")
    r = t.attempt_m(m, "to_file", fs.path(t.choice("file", ["m.yaml", "m", "m.txt"]) if light else "m"),
                    **({"comment": "saved"} if light and t.choice("comment", [0, 1]) else {}), minimal=minimal)
    t.ensure("can be saved", r.ok)
    if not r.ok:
        return
    t.ensure("the file has the name asked for, with the suffix of yaml", t.eq(r.value, fs.path("m.yaml")))
    t.ensure("no other file is touched", fs.all_untouched(fs.path("m.yaml")))
    q = t.attempt(cls.from_file, fs.path("m.yaml"))
    if not q.ok and cls.__name__ in ("EmulationTask", "HarvestTask", "TestbedTasks", "ObserverTasks"):
        st = start_of(t, m)
        t.ensure("can be loaded until its start", st is not None and t.past(st))
        return
    t.ensure("can be loaded", q.ok)
    if not q.ok:
        return
    for f, fi in cls.model_fields.items():
        if f in d or fi.default_factory is None:
            t.ensure(f"{f} is as before", t.eq(t.get(q.value, f), t.get(m, f)))
    if all(f in d or fi.default_factory is None for f, fi in cls.model_fields.items()):
        t.ensure("the models are equal", t.eq(q.value, m))
        t.ensure("with the same hash", t.eq(t.m(q.value, "get_hash"), t.m(m, "get_hash")))


def start_of(t, m):
    """The start of a task, or of the emulation within."""
    if "TestbedTasks" == getattr(m, "cls", type(m)).__name__:
        m = t.at(t.get(m, "observer_tasks"), 0)
    if "ObserverTasks" == getattr(m, "cls", type(m)).__name__:
        m = t.get(m, "emulation")
    return None if m is None else t.get(m, "time_start")


def once(t, cls, mode="full"):
    setting(t)
    aware = t.choice("zones", [False, True])
    d = Draw(t, mode, aware, cls.__name__ in HEAVY).fields(cls, "vsrc" if cls.__name__ == "VirtualSourceConfig" else "config" if cls.__name__ in ("TargetConfig", "Experiment", "TestbedTasks") else cls.__name__)
    return d, given(t, cls, d)


def zoned(t, v, key, cls):
    if isinstance(v, dict):
        return {k: zoned(t, x, f"{key}.{k}", cls) for k, x in v.items()}
    if isinstance(v, list):
        return [zoned(t, x, f"{key}[{i}]", cls) for i, x in enumerate(v)]
    if t.isinstance(v, dt.datetime):
        return t.zoned(v, key + "!")
    return v


HEAVY = {"Experiment", "TestbedTasks", "Testbed", "VirtualSourceConfig", "ObserverTasks", "TargetConfig", "EmulationTask", "HarvestTask", "Observer",
         "VirtualHarvesterConfig", "GpioTracing"}
LIGHT = {"CalibrationPair", "SystemLogging", "PowerTracing", "CalMeasurementPair", "TargetInventory"}
LIST = [n for n in ALL if n not in OUT]


def make(name):
    cls = ALL[name]
    n = 25 if name in HEAVY else 60

    note = "enumerated values and optional parts are varied jointly, not independently" if name in HEAVY else ""

    @contract("C22", f"{name}: equal after saving and loading", on=[S + "to_file", S + "from_file"], samples=n, seconds=4, note=note)
    def saved(t):
        round_trip(t, cls, t.choice("mode", ["full", "none"]), False)

    @contract("C22", f"{name}: given values are kept by saving the minimal set", on=[S + "to_file", S + "from_file"], samples=n, seconds=4, note=note)
    def minimal(t):
        round_trip(t, cls, t.choice("mode", ["bare", "full"]), True)

    @contract("C22", f"{name}: unknown fields refused, instances constant, equal models have equal hashes", on=[S + "get_hash"], samples=n, seconds=4)
    def constant(t):
        d, m = once(t, cls)
        r = t.attempt(cls, **copy.deepcopy(d) if not t.sym else d, unknown_field=1)
        t.ensure("unknown fields are refused", r.raised(ValidationError))
        for f in cls.model_fields:
            old = t.get(m, f)
            q = t.attempt(setattr, m, f, old)
            t.ensure(f"{f} can not be set", Not(q.ok))
            t.ensure(f"{f} is unchanged", t.eq(t.get(m, f), old))
        q = t.attempt(setattr, m, "another_field", 1)
        t.ensure("no attribute can be added", Not(q.ok))
        m2 = given(t, cls, zoned(t, d, "other", cls))
        if t.branch(t.eq(m, m2)):
            t.ensure("equal models have equal hashes", t.eq(t.m(m, "get_hash"), t.m(m2, "get_hash")))

    others = [x for x in ("SystemLogging", "CalibrationCape", "CalMeasurementCape", "CalibrationSeries", "PythonInventory", "ContentModel", "EmulationTask") if x != name]

    @contract("C22", f"{name}: files of other models are refused", on=[S + "from_file"], samples=30, seconds=2)
    def refused(t):
        d, m = once(t, cls, "bare")
        fs = t.fs()
        fs.path("m.yaml")
        r = t.attempt_m(m, "to_file", fs.path("m"))
        if not r.ok:
            return
        other = ALL[t.choice("other class", others)]
        q = t.attempt(other.from_file, r.value)
        t.ensure("raises", Not(q.ok))
        t.ensure("no confusion of models", q.raised(ValueError))


for _n in LIST:
    make(_n)


for _c in ("Firmware", "FirmwareModTask"):
    def _place(cls):
        @contract("C22", f"{cls.__name__}: location given as path is equal after saving and loading", on=[S + "to_file", S + "from_file"], samples=20, seconds=3)
        def place(t):
            setting(t)
            d = Draw(t, "lean", False)
            d.firm = "path"
            d = d.fields(cls, cls.__name__)
            d["data"] = t.path("/fw", t.add("x", Draw(t, "bare", False).name("location")))
            d["data_type"] = "path_hex"
            m = given(t, cls, d)
            fs = t.fs()
            r = t.attempt_m(m, "to_file", fs.path("m.yaml"), minimal=False)
            t.ensure("can be saved", r.ok)
            if not r.ok:
                return
            q = t.attempt(cls.from_file, fs.path("m.yaml"))
            t.ensure("can be loaded", q.ok)
            if q.ok:
                t.ensure("as the same text", t.eq(t.call(str, t.get(q.value, "data")), t.call(str, t.get(m, "data"))))
                t.ensure("the location is as before", t.eq(t.get(q.value, "data"), t.get(m, "data")))

    _place(ALL[_c])
