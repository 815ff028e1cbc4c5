"""C27: files derived from recordings."""
import logging

from contracts.c06_recording import open_rec, recording
from pyvc import plotm
from pyvc.contract import contract
from pyvc.core import And, Not, Or, eq, ite
from pyvc.h5m import DS, maybe

from shepherd_core.reader import Reader as CoreReader
from shepherd_data.reader import Reader

D = "shepherd_data.reader:Reader."
R = "shepherd_core.reader:Reader."


def other_tree(t, n, name, sets, describe=True):
    """A group of further measurements (with or without conversion to SI)."""
    tm = t.arr("gtime", "u8", n=n, hi=4 * 10**18)
    tree = {"time": DS(tm, {"unit": "ns", "description": "time [ns]"})}
    vals, conv = {}, {}
    for s, dt in sets.items():
        vals[s] = t.arr("val_" + s, dt, n=n)
        g, o = t.real("g_" + s, gt=0, gen=lambda r: 10 ** r.uniform(-9, 3)), t.real("o_" + s, gen=lambda r: r.choice([0.0, 1.0, r.uniform(-9, 9)]))
        hg, ho = t.bool("has_gain_" + s), t.bool("has_offset_" + s)
        t.branch(hg), t.branch(ho)
        conv[s] = ite(hg, g, 1.0), ite(ho, o, 0.0)
        tree[s] = DS(vals[s], {"description": f"{s} [u], raw", "gain": maybe(hg, g), "offset": maybe(ho, o)})
    return {name: tree}, tm, vals, conv


def close(a, b, tol):
    return And(a - b <= tol, b - a <= tol)


NG = lambda r: r.choice([0, 1, 2, 5])  # noqa: E731


@contract("C27", "csv: one row per sample with SI values, nothing overwritten", on=[D + "save_csv"], samples=150, seconds=15)
def csv(t):
    fs = t.fs()
    n = t.int("n", lo=0, hi=10**12 if t.sym else 40, gen=NG)
    name, sets = t.choice("group", [("sysutil", {"cpu": "u1"}), ("ptp", {"a_off": "i8", "z_delay": "i4"}), ("data", {"current": "u4", "voltage": "u4"})])
    sep = t.choice("separator", [";", ",", "|"])
    raw = t.branch(t.bool("raw"))
    tree, tm, vals, conv = other_tree(t, n, name, sets)
    rd, fs = reader(t, tree)
    taken = t.bool("taken")
    target = fs.path(f"rec.{name}.csv")
    if t.branch(taken):
        fs.other(f"rec.{name}.csv")
    r = t.attempt_m(rd, "save_csv", t.m(t.get(rd, "h5file"), "__getitem__", name), sep, raw=raw)
    t.ensure("nothing that exists is modified", fs.all_untouched())
    t.ensure("saving does not fail", r.ok)
    if not r.ok or t.branch(taken):
        return
    if not t.branch(n > 0):
        t.ensure("empty groups give no file", And(Not(fs.exists(target)), eq(r.value, 0)))
        return
    t.ensure("number of entries", eq(r.value, n))
    t.ensure("file is written", fs.exists(target))
    tab = t.table(target, sep.strip() or "\t", head=1)
    t.ensure("a row per sample", eq(tab.n, n))
    i = t.int("row", lo=0, gen=lambda r: r.randrange(5))
    t.assume(i < n)
    t.ensure("time stamp of the sample", close(tab.time(i, 0), t.at(tm, i) * 1e-9, 1e-5))
    cols = sorted(sets)
    t.ensure("a column per series", eq(tab.width(i), 1 + len(cols)))
    for j, s in enumerate(cols, 1):
        g, o = conv[s]
        v = t.at(vals[s], i)
        t.ensure(f"value of {s}", eq(tab.num(i, j), ite(raw, v * 1.0, v * g + o)))


def reader(t, tree, cls=Reader):
    fs = t.fs()
    p = fs.h5("rec.h5", tree)
    f = fs.open(p).f
    return t.obj(cls, h5file=f, file_path=p, _logger=logging.getLogger("pyvc")), fs


@contract("C27", "log: one row per entry, nothing overwritten", on=[D + "save_log"], samples=150, seconds=15)
def log(t):
    n = t.int("n", lo=0, hi=10**12 if t.sym else 40, gen=NG)
    stamped = t.branch(t.bool("add_timestamp"))
    tree, tm, vals, conv = other_tree(t, n, "dmesg", {"level": "u1"})
    rd, fs = reader(t, tree)
    taken = t.bool("taken")
    target = fs.path("rec.dmesg.log")
    if t.branch(taken):
        fs.other("rec.dmesg.log")
    r = t.attempt_m(rd, "save_log", t.m(t.get(rd, "h5file"), "__getitem__", "dmesg"), add_timestamp=stamped)
    t.ensure("nothing that exists is modified", fs.all_untouched())
    t.ensure("saving does not fail", r.ok)
    if not r.ok or t.branch(taken):
        return
    if not t.branch(n > 0):
        t.ensure("empty groups give no file", And(Not(fs.exists(target)), eq(r.value, 0)))
        return
    t.ensure("number of entries", eq(r.value, n))
    tab = t.table(target, "\t")
    t.ensure("a row per entry", eq(tab.n, n))
    i = t.int("row", lo=0, gen=lambda r: r.randrange(5))
    t.assume(i < n)
    if t.branch(stamped):
        t.ensure("time stamp of the entry", close(tab.time(i, 0, ":"), t.at(tm, i) * 1e-9, 1e-5))
    t.ensure("value of the entry", eq(tab.num(i, 1), t.at(vals["level"], i)))


@contract("C27", "waveform: one row per event, nothing overwritten", on=[R + "waveform_to_csv"], samples=150, seconds=15)
def waveform(t):
    n = t.int("n", lo=0, hi=10**12 if t.sym else 40, gen=NG)
    cls = t.choice("reader", [Reader, CoreReader])
    tm, vs = t.arr("wt", "f8", n=n, lo=0, hi=4 * 10**18), t.arr("wv", "f8", n=n, lo=0, hi=1, gen=lambda r: float(r.random() < .5))
    t.assume(t.forall(n, lambda i: Or(eq(t.at(vs, i), 0), eq(t.at(vs, i), 1))))
    sep = t.choice("separator", [",", ";"])
    tree, *_ = recording(t, 0)
    rd, fs = reader(t, tree, cls)
    taken = t.bool("taken")
    target = fs.path("rec.waveform.uart.csv")
    if t.branch(taken):
        fs.other("rec.waveform.uart.csv")
    import numpy as np
    wf = t.call(np.column_stack, (tm, vs))
    r = t.attempt_m(rd, "waveform_to_csv", "uart", wf, sep)
    t.ensure("nothing that exists is modified", fs.all_untouched())
    t.ensure("saving does not fail", r.ok)
    if not r.ok or t.branch(taken):
        return
    tab = t.table(target, sep, head=1)
    t.ensure("names of the columns", eq(tab.head()[-1], "uart"))
    t.ensure("a row per event", eq(tab.n, n))
    i = t.int("row", lo=0, gen=lambda r: r.randrange(5))
    t.assume(i < n)
    t.assume(Or(eq(t.at(vs, i), 0), eq(t.at(vs, i), 1)))
    t.ensure("two columns", And(eq(tab.width(i), 2), eq(len(tab.head()), 2)))
    t.ensure("time in seconds", eq(tab.num(i, 0), t.at(tm, i) / 1e9))
    t.ensure("value of the pin", eq(tab.num(i, 1), t.at(vs, i)))


@contract("C27", "metadata: nothing overwritten", on=[R + "save_metadata"], samples=60)
def meta(t):
    cls = t.choice("reader", [Reader, CoreReader])
    n = 12
    tree, *_ = recording(t, n, time=t.host(lambda: __import__("numpy").arange(n, dtype="u8") * 10**8))
    rd, fs = plotter(t, tree, cls)
    taken = t.bool("taken")
    target = fs.path("rec.yaml")
    if t.branch(taken):
        fs.other("rec.yaml")
    before = fs.exists(target)
    found = {"a": 1}
    if t.sym:
        t.stub(CoreReader.get_metadata, lambda self, node=None, minimal=False: dict(found), "Reader.get_metadata: some structure")
    r = t.attempt_m(rd, "save_metadata")
    t.ensure("nothing that exists is modified", fs.all_untouched())
    t.ensure("saving does not fail", r.ok)
    if r.ok:
        t.ensure("an existing file is not read out again", eq(t.len(r.value) == 0, before))
        t.ensure("file exists", fs.exists(target))


# ------------------------------------------------------------------ plots
def plot_stubs(t, data):
    if t.sym:
        t.stub(Reader.generate_plot_data, lambda self, start_s=None, end_s=None, relative_timestamp=True: data, "Reader.generate_plot_data: some data")
        t.stub(Reader.assemble_plot, lambda data, width=20, height=10, only_pwr=False: plotm.FigM(), "Reader.assemble_plot: some figure")


@contract("C27", "plots: nothing overwritten", on=[D + "plot_to_file"], samples=25, seconds=20)
def plot(t):
    n = 12
    tree, *_ = recording(t, n, time=t.host(lambda: __import__("numpy").arange(n, dtype="u8") * 10**8))
    rd, fs = plotter(t, tree)
    a = t.real("start", lo=0, hi=100, gen=lambda r: r.choice([0.0, 0.1, 0.2504]))
    b = t.real("end", lo=0, hi=100, gen=lambda r: r.choice([0.9, 1.0, 1.1, 100.0]))
    plot_stubs(t, {"start_s": a, "end_s": b})
    name = f"rec.plot_{a:.3f}_to_{min(b, n / 10):.3f}" if not t.sym else None
    taken = t.bool("taken")
    if not t.sym and taken:
        fs.other(name.replace(".", "s").replace("recs", "rec.", 1) + ".png")
    r = t.attempt_m(rd, "plot_to_file", a, b)
    t.ensure("nothing that exists is modified", fs.all_untouched())
    t.ensure("plotting does not fail", r.ok)


def plotter(t, tree, cls=Reader):
    fs = t.fs(others=True)
    p = fs.h5("rec.h5", tree)
    if t.sym:
        return t.obj(cls, h5file=fs.open(p).f, file_path=p, _logger=logging.getLogger("pyvc")), fs
    import matplotlib
    matplotlib.use("Agg")
    return cls(p, verbose=None), fs


@contract("C27", "plots of several recordings: nothing overwritten", on=[D + "multiplot_to_file"], samples=25, seconds=20)
def multiplot(t):
    import matplotlib
    import numpy as np
    matplotlib.use("Agg")
    fs = t.fs(others=True)
    a = t.real("start", lo=0, hi=100, gen=lambda r: r.choice([0.0, 0.1, 0.2504]))
    b = t.real("end", lo=0, hi=100, gen=lambda r: r.choice([0.9, 1.0, 100.0]))
    data = [{"start_s": a, "end_s": b, "name": "x", **({} if t.sym else {k: np.arange(3.0) for k in ("time", "voltage", "current")})}]
    plot_stubs(t, None)
    stem = t.choice("name", ["out", "out.png", "o.p"])
    p = fs.path(stem)
    if not t.sym and t.bool("taken"):
        fs.other(f"{stem.split('.')[0]}.multiplot_" + f"{a:.3f}_to_{b:.3f}".replace(".", "s") + ".png")
    r = t.attempt(Reader.multiplot_to_file, data, p)
    t.ensure("nothing that exists is modified", fs.all_untouched())
    t.ensure("plotting does not fail", r.ok)
