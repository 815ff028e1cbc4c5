"""Recordings: what a Writer stores, aligns and a Reader hands back (C05 - C11)."""
import h5py  # noqa: F401
from shepherd_core.data_models.base.calibration import CalibrationEmulator
from shepherd_core.data_models.base.calibration import CalibrationHarvester
from shepherd_core.data_models.base.calibration import CalibrationPair
from shepherd_core.data_models.base.calibration import CalibrationSeries
from shepherd_core.data_models.content.energy_environment import EnergyDType
from shepherd_core.reader import Reader
from shepherd_core.writer import Writer
from shepherd_core.writer import unique_path

from pyvc.contract import contract
from pyvc.core import And, Implies, Iff, Not, Or, between, eq, ge, is_round, is_trunc, ite, le, smax, smin  # noqa: F401
from pyvc.h5m import DS, maybe

W = "shepherd_core.writer:Writer."
R = "shepherd_core.reader:Reader."


def cal_attrs(t, ds, offset=True, gain=True):
    d = {}
    d["gain"] = t.real(f"{ds}_gain", gt=0, gen=lambda r: 10 ** r.uniform(-10, 1))
    d["offset"] = t.real(f"{ds}_off", gen=lambda r: r.choice([0.0, r.uniform(-1, 1)]))
    return d


def recording(t, n=None, *, mode="harvester", datatype="ivsample", window=0, n_gen=None, tail=0, cal=True, time=None):
    """A sound recording with n samples per series."""
    if n is None:
        n = t.int("n", lo=0, hi=10**12, gen=n_gen or (lambda r: r.choice([0, 1, 2, 7, 30])))
    tm = time if time is not None else t.arr("time", "u8", n=n, hi=2**62)
    vo = t.arr("volt", "u4", n=n)
    cu = t.arr("curr", "u4", n=n)
    data = {"attrs": {"window_samples": window, "datatype": datatype},
            "time": DS(tm, cal_attrs(t, "time") if cal else {"gain": 1e-9, "offset": 0.0}),
            "voltage": DS(vo, cal_attrs(t, "volt")),
            "current": DS(cu, cal_attrs(t, "curr"))}
    return {"attrs": {"mode": mode}, "data": data}, n, tm, vo, cu


def same(t, a, b, n, off=0):
    """elements 0..n-1 of b are elements off..off+n-1 of a"""
    return t.forall(n, lambda i: eq(t.at(a, off + i), t.at(b, i)))


@contract("C06", "appending raw samples extends all series by the same buffer",
          on=[W + "append_iv_data_raw"])
def append_raw(t):
    fs = t.fs()
    tree, n, tm, vo, cu = recording(t, cal=False)
    p = fs.h5("rec.h5", tree)
    w = t.new(Writer, p, modify_existing=True, verbose=None)
    nv, nc = t.int("nv", lo=0, hi=10**9, gen=lambda r: r.choice([0, 1, 3, 9])), t.int("nc", lo=0, hi=10**9, gen=lambda r: r.choice([0, 1, 3, 9]))
    v, c = t.arr("v", "u4", n=nv), t.arr("c", "u4", n=nc)
    kind_ = t.choice("ts", ["int", "float", "array", "list", "none"])
    m = smin(nv, nc)
    si = t.get(w, "sample_interval_ns")
    if kind_ == "int":
        ts = t.int("ts", lo=0, hi=2**61)
        exp = lambda k: ts + k * si  # noqa: E731
        t.assume(ts + m * si < 2**63)
    elif kind_ == "float":
        ts = t.real("ts", lo=0, hi=2**61)
        exp = None
        t.assume(ts + m * si < 2**63)
    elif kind_ == "array":
        nt = t.int("nt", lo=0, hi=10**9, gen=lambda r: r.choice([0, 1, 3, 9]))
        ts = t.arr("tsa", "u8", n=nt)
        m = smin(m, nt)
        exp = lambda k: t.at(ts, k)  # noqa: E731
    elif kind_ == "list":
        ts = [1, 2, 3]
    else:
        ts = None
    o = t.attempt_m(w, "append_iv_data_raw", ts, v, c)
    f = t.tree(t.get(w, "h5file"))
    T, V, C = f.data("data/time"), f.data("data/voltage"), f.data("data/current")
    if kind_ in ("list", "none"):
        t.ensure("other timestamp types are rejected", o.raised(TypeError))
        m = 0
    else:
        t.ensure("append succeeds", o.ok)
    t.ensure("all series have the same new length", And(t.len(T) == n + m, t.len(V) == n + m, t.len(C) == n + m))
    t.ensure("recorded data unchanged", And(same(t, T, tm, n), same(t, V, vo, n), same(t, C, cu, n)))
    t.ensure("voltage appended in order", same(t, V, v, m, n))
    t.ensure("current appended in order", same(t, C, c, m, n))
    if kind_ not in ("list", "none"):
        t.ensure("time appended in order", t.forall(m, lambda k: t.at(T, n + k) == exp(k) if exp else is_trunc(
            t.at(T, n + k) - k * si, ts)))


@contract("C06", "appending SI samples stores their calibrated raw values", on=[W + "append_iv_data_si"], samples=80)
def append_si(t):
    fs = t.fs()
    tree, n, tm, vo, cu = recording(t, cal=False)
    w = t.new(Writer, fs.h5("rec.h5", tree), modify_existing=True, verbose=None)
    m = t.int("m", lo=0, hi=10**9, gen=lambda r: r.choice([0, 1, 3, 9]))
    v, c = t.arr("v", "f8", n=m, lo=-1, hi=5), t.arr("c", "f8", n=m, lo=-1, hi=1)
    f = t.tree(t.get(w, "h5file"))
    g, o = {}, {}
    for d in ("voltage", "current"):
        g[d], o[d] = f.attr(f"data/{d}", "gain"), f.attr(f"data/{d}", "offset")
    scalar = t.bool("scalar")
    if t.branch(scalar):
        ts = t.real("ts", lo=0, hi=10**9)
    else:
        ts = t.arr("tsa", "f8", n=m, lo=0, hi=10**9)
    r = t.attempt_m(w, "append_iv_data_si", ts, v, c)
    t.ensure("append succeeds", r.ok)
    T, V, C = f.data("data/time"), f.data("data/voltage"), f.data("data/current")
    t.ensure("all series have the same new length", And(t.len(T) == n + m, t.len(V) == n + m, t.len(C) == n + m))
    t.ensure("recorded data unchanged", And(same(t, T, tm, n), same(t, V, vo, n), same(t, C, cu, n)))
    for nm, D, x in (("voltage", V, v), ("current", C, c)):
        def ok(k, D=D, x=x, nm=nm):
            y = (t.at(x, k) - o[nm]) / g[nm]
            return Implies(y <= 4e9, And(t.at(D, n + k) >= 0, Or(is_round(t.at(D, n + k), y), And(t.at(D, n + k) == 0, y < 1))))
        t.ensure(f"{nm} holds the nearest raw value", t.forall(m, ok))


@contract("C07", "closing cuts to whole buffers", on=[W + "__exit__", W + "_align"], samples=60, seconds=12)
def close_align(t):
    fs = t.fs()
    B = 10_000
    n = t.int("n", lo=0, hi=10**10, gen=lambda r: r.choice([0, 1, 5000, 9999, 10000, 10001, 20000, 25001]))
    usual = t.bool("usual_rate")
    if t.sym:
        tm = t.arr("time", "u8", n=n, hi=2**62)
    else:
        import numpy as np
        t.assume(n <= 300_000)
        step = 10_000 if usual else t.choice("step", [1000, 9_000, 20_000, 10_000_000])
        tm = (np.arange(n) * step + 5).astype("u8")
    tree, n, tm, vo, cu = recording(t, n, cal=False, time=tm)
    p = fs.h5("rec.h5", tree)
    w = t.new(Writer, p, modify_existing=True, verbose=None)
    o = t.attempt_m(w, "__exit__")
    t.ensure("closing succeeds", o.ok)
    f = fs.open(p)
    T, V, C = f.data("data/time"), f.data("data/voltage"), f.data("data/current")
    # sample rate of the recording, as derived from its time stamps
    regular = True
    if t.branch(n > 0):
        dur = (t.at(tm, n - 1) - t.at(tm, 0))
        # max(round((n-1)/(dur/1e9)), 1) == 100000
        x = dur * 1e-9
        lo, hi = (n - 1) > 99_999.5 * x, (n - 1) < 100_000.5 * x
        undecided = Or((n - 1) == 99_999.5 * x, (n - 1) == 100_000.5 * x)
        t.assume(Or(dur <= 0, Not(undecided)))
        regular = Or(dur <= 0, And(lo, hi))
    keep = n - n % B
    if t.branch(regular):
        t.ensure("cut to the last whole buffer", And(t.len(T) == keep, t.len(V) == keep, t.len(C) == keep))
        m = keep
    else:
        t.ensure("other sample rates are left untouched", And(t.len(T) == n, t.len(V) == n, t.len(C) == n))
        m = n
    t.ensure("remaining samples are an unchanged prefix", And(same(t, tm, T, m), same(t, vo, V, m), same(t, cu, C, m)))


@contract("C09", "buffers tile the requested range", on=[R + "read_buffers"])
def read_buffers(t):
    fs = t.fs()
    tree, n, tm, vo, cu = recording(t, n_gen=lambda r: r.choice([0, 1, 5, 12, 30, 64]), cal=False)
    p = fs.h5("rec.h5", tree)
    rd = t.new(Reader, p, verbose=None)
    per = t.int("per", lo=1, hi=10**7, gen=lambda r: r.choice([1, 2, 3, 5, 10, 20]))
    start = t.int("start", lo=0, hi=10**9, gen=lambda r: r.choice([0, 0, 1, 2, 7]))
    has_end, dflt = t.bool("has_end"), t.bool("default_size")
    end = t.int("end", lo=0, hi=10**9, gen=lambda r: r.choice([0, 1, 2, 4, 50])) if t.branch(has_end) else None
    if t.branch(dflt):
        nper, per = None, 10_000
    else:
        nper = per
    raw, omit = t.bool("raw"), t.bool("omit_ts")
    raw, omit = t.branch(raw), t.branch(omit)
    got = t.m(rd, "read_buffers", start, end, nper, is_raw=raw, omit_ts=omit)
    avail = n // per
    stop = avail if end is None else smin(end, avail)
    cnt = smax(stop - start, 0)
    t.ensure("exactly the requested complete buffers", t.len(got) == cnt)
    f = t.tree(t.get(rd, "h5file"))

    def buf(k):
        b = t.at(got, k)
        i0 = (start + k) * per
        ts, v, c = b[0], b[1], b[2]
        ok = [t.len(v) == per, t.len(c) == per]
        if omit:
            ok.append(ts is None)
        else:
            ok.append(t.len(ts) == per)
        items = [("voltage", v, vo), ("current", c, cu)] + ([] if omit else [("time", ts, tm)])
        for nm, got_, src in items:
            g, o = f.attr(f"data/{nm}", "gain"), f.attr(f"data/{nm}", "offset")

            def val(j, got_=got_, src=src, g=g, o=o):
                x = t.at(src, i0 + j)
                y = x * g + o
                if raw:
                    return eq(t.at(got_, j), x)
                return eq(t.at(got_, j), y, scale=None if t.sym else abs(x * g) + abs(o))
            ok.append(t.forall(per, val))
        return And(*ok)
    t.ensure("each buffer holds its samples", t.forall(cnt, buf))


def open_rec(t, tree, cls=Reader):
    """Reader-like object on a file of arbitrary structure (constructor not run)."""
    import logging
    fs = t.fs()
    p = fs.h5("rec.h5", tree)
    f = fs.open(p).f
    return t.obj(cls, h5file=f, file_path=p, _logger=logging.getLogger("pyvc"))


@contract("C11", "validation accepts exactly sound recordings", on=[R + "is_valid"], samples=400, max_paths=6000)
def is_valid(t):
    has = {k: t.bool("has_" + k) for k in ("data", "mode", "window", "datatype", "time", "current", "voltage",
                                           "host", "sheep", "level")}
    cal = {(d, a): t.bool(f"has_{d}_{a}") for d in ("time", "current", "voltage") for a in ("gain", "offset")}
    if not t.sym:  # mostly complete files
        keep = t.choice("complete", [0, 1, 1, 2])
        if keep:
            drop = t.choice("drop", list(has) + list(cal)) if keep == 1 else None
            has = {k: k != drop for k in has}
            cal = {k: k != drop for k in cal}
    mode = t.choice("mode", ["harvester", "emulator", "Harvester", "", "node"])
    dtype = t.choice("dtype", ["ivsample", "ivcurve", "isc_voc", "IVSAMPLE", ""])
    window = t.int("window", lo=-3, hi=10**6, gen=lambda r: r.choice([-1, 0, 1, 7]))
    comp = t.choice("comp", [(None, None), ("lzf", None), ("gzip", 1), ("gzip", 6)])

    def ds(d, dt):
        n = t.int(f"n_{d}", lo=0, hi=10**9, gen=lambda r: r.choice([0, 3, 5]))
        return DS(t.arr(d, dt, n=n), {a: maybe(cal[d, a], 1.0) for a in ("gain", "offset")}, comp[0], comp[1])
    tree = {"attrs": {"mode": maybe(has["mode"], mode), "hostname": maybe(has["host"], "sheep0")},
            "data": maybe(has["data"], {
                "attrs": {"window_samples": maybe(has["window"], window), "datatype": maybe(has["datatype"], dtype)},
                "time": maybe(has["time"], ds("time", "u8")),
                "current": maybe(has["current"], ds("current", "u4")),
                "voltage": maybe(has["voltage"], ds("voltage", "u4"))}),
            "sheep": maybe(has["sheep"], {"level": maybe(has["level"], DS(t.arr("level", "u1", nmax=10**6)))})}
    o = t.attempt_m(open_rec(t, tree), "is_valid")
    legal = {"harvester": ("ivsample", "ivcurve", "isc_voc"), "emulator": ("ivsample",)}
    sound = And(*[has[k] for k in ("data", "mode", "window", "datatype", "time", "current", "voltage")], *cal.values(),
                mode in legal and dtype in legal[mode],
                Or(dtype != "ivcurve", window >= 1))
    t.ensure("validation never raises", o.ok)
    if o.ok:
        t.ensure("verdict is a bool", o.value is True or o.value is False)
        t.ensure("accepts exactly sound recordings", Iff(o.value, sound))


@contract("C11", "each class of energy data is only legal for its modes", on=[R + "is_valid"])
def legal_modes(t):
    t.ensure("modes of a recording", set(Reader.mode_dtype_dict) == {"harvester", "emulator"})
    t.ensure("emulators hold iv-samples only", [x.name for x in Reader.mode_dtype_dict["emulator"]] == ["ivsample"])
    t.ensure("harvesters hold all kinds", sorted(x.name for x in Reader.mode_dtype_dict["harvester"]) == [
        "isc_voc", "ivcurve", "ivsample"])


@contract("C10", "energy is the sum over all samples, however it is chunked", on=[R + "energy"], samples=80)
def energy(t):
    fs = t.fs()
    tree, n, tm, vo, cu = recording(t, n_gen=lambda r: r.choice([0, 1, 5, 12, 40]))
    t.assume(tree["data"]["time"].attrs["offset"] == 0)
    rd = t.new(Reader, fs.h5("rec.h5", tree), verbose=None)
    big = t.get(rd, "max_elements")
    m = t.int("chunk", lo=1, hi=10**8, gen=lambda r: r.choice([1, 2, 3, 7, 100])) if t.branch(t.bool("small_chunks")) else big
    t.set(rd, "max_elements", m)
    f = t.tree(t.get(rd, "h5file"))
    g = {(d, a): f.attr("data/" + d, a) for d in ("voltage", "current") for a in ("gain", "offset")}
    total = t.sum(n, lambda i: (t.at(vo, i) * g["voltage", "gain"] + g["voltage", "offset"]) * (
        t.at(cu, i) * g["current", "gain"] + g["current", "offset"]))
    mag = None if t.sym else t.sum(n, lambda i: abs((t.at(vo, i) * g["voltage", "gain"] + abs(g["voltage", "offset"])) * (
        t.at(cu, i) * g["current", "gain"] + abs(g["current", "offset"]))))
    dt = t.get(rd, "sample_interval_s")
    o = t.attempt_m(rd, "energy")
    t.ensure("energy never fails", o.ok)
    t.ensure("sum of voltage * current * interval over all samples", eq(
        o.value, total * dt, scale=None if t.sym else mag * abs(dt)))


@contract("C10", "rates and durations follow from the time stamps", on=[R + "_refresh_file_stats"])
def rates(t):
    fs = t.fs()
    n = t.int("n", lo=0, hi=10**10, gen=lambda r: r.choice([0, 1, 2, 9, 40, 25_000, 120_000]))
    if t.sym:
        tm = t.arr("time", "u8", n=n, hi=2**62)
    else:
        import numpy as np
        t.assume(n <= 300_000)
        step = t.choice("step", [1, 1000, 10_000, 999_999_999, 2_000_000_000, 33_333])
        tm = (np.arange(n) * step + t.choice("start", [0, 1_700_000_000_000_000_000])).astype("u8")
    tree, n, tm, vo, cu = recording(t, n, time=tm)
    gt = tree["data"]["time"].attrs["gain"]
    t.assume(tree["data"]["time"].attrs["offset"] == 0)
    rd = t.new(Reader, fs.h5("rec.h5", tree), verbose=None)
    rate, iv = t.get(rd, "samplerate_sps"), t.get(rd, "sample_interval_s")
    t.ensure("number of complete buffers", t.get(rd, "buffers_n") == n // 10_000)
    if t.branch(n > 0):
        dur = t.at(tm, n - 1) - t.at(tm, 0)
        if t.branch(dur > 0):
            t.assume(dur * gt >= 1e-6)
            t.ensure("interval from first to last stamp over the count", eq(iv * n, dur * gt))
            t.ensure("rate is the rounded number of intervals per second, at least 1", And(
                rate >= 1, Or(is_round(rate, (n - 1) / (dur * gt)), And(rate == 1, (n - 1) < 1.5 * dur * gt))))
        else:
            t.ensure("default rate without usable time stamps", And(rate == 100_000, eq(iv, 1e-5)))
    else:
        t.ensure("default rate for an empty recording", And(rate == 100_000, eq(iv, 1e-5)))
    rt = t.get(rd, "runtime_s")
    t.ensure("runtime is count over rate (to 0.1 s)", And(rt * rate <= n + 0.0501 * rate, rt * rate >= n - 0.0501 * rate))


@contract("C10", "minimum and maximum of the statistics are those of all samples", on=[R + "_dset_statistics"], samples=80)
def dset_stats(t):
    fs = t.fs()
    tree, n, tm, vo, cu = recording(t, n_gen=lambda r: r.choice([0, 1, 5, 12, 40]))
    t.assume(tree["data"]["time"].attrs["offset"] == 0)
    rd = t.new(Reader, fs.h5("rec.h5", tree), verbose=None)
    m = t.int("chunk", lo=1, hi=10**8, gen=lambda r: r.choice([1, 2, 3, 7, 100])) if t.branch(t.bool("small_chunks")) else t.get(rd, "max_elements")
    t.set(rd, "max_elements", m)
    nm, arr = t.choice("dset", [("voltage", vo), ("current", cu)])
    own_cal = t.bool("own_cal")
    f = t.tree(t.get(rd, "h5file"))
    g, o = f.attr("data/" + nm, "gain"), f.attr("data/" + nm, "offset")
    r = t.attempt_m(rd, "_dset_statistics", t.get(rd, "ds_" + nm))
    t.ensure("statistics never fail", r.ok)
    if t.branch(n > 0):
        lo, hi = t.at(r.value, "min"), t.at(r.value, "max")
        si = lambda i: t.at(arr, i) * g + o  # noqa: E731
        t.ensure("min and max bound every sample", t.forall(n, lambda i: And(le(lo, si(i), abs(o) if not t.sym else None), ge(
            hi, si(i), abs(o) if not t.sym else None))))
        t.ensure("min is a sample", t.exists(n, lambda i: eq(lo, si(i), abs(o) if not t.sym else None)))
        t.ensure("max is a sample", t.exists(n, lambda i: eq(hi, si(i), abs(o) if not t.sym else None)))


@contract("C08", "a taken name is left alone and a free one is used instead", on=[W + "__init__", "shepherd_core.writer:unique_path"],
          opts={"others": True})
def writer_new_name(t):
    exists = t.bool("exists")
    tree, n, tm, vo, cu = recording(t)
    kind_ = t.choice("there", ["recording", "text", "directory"])
    fs = t.fs(others=True)
    if not t.sym:
        for k in range(4):
            if t.bool(f"other{k}"):
                fs.other(f"rec.{k}.h5")
    if not t.branch(exists):
        p = fs.free("rec.h5")
    else:
        p = fs.h5("rec.h5", tree) if kind_ == "recording" else fs.other("rec.h5") if kind_ == "text" else fs.directory("rec.h5")
    o = t.attempt(Writer, p, verbose=None)
    if t.branch(exists):
        if kind_ == "directory":
            t.ensure("a directory in the way is an error", Not(o.ok))
        else:
            t.ensure("writer opens", o.ok)
            if not o.ok:
                return
            q = t.get(o.value, "file_path")
            t.ensure("another name is used", Not(t.eq(q, p)))
            t.ensure("one that was free", fs.fresh(q))
            t.ensure("the file is there", fs.exists(q))
            t.ensure("the existing file is left untouched", fs.untouched(p))
    else:
        t.ensure("writer opens", o.ok)
        if not o.ok:
            return
        t.ensure("the given name is used", t.eq(t.get(o.value, "file_path"), p))
    t.ensure("no file is overwritten", fs.all_untouched())


@contract("C08", "unique_path returns a free name", on=["shepherd_core.writer:unique_path"])
def unique(t):
    fs = t.fs(others=True)
    if not t.sym:
        for k in range(4):
            if t.bool(f"other{k}"):
                fs.other(f"rec.{k}.h5")
    q = t.call(unique_path, fs.path("rec"), ".h5")
    t.ensure("free", And(fs.fresh(q), Not(fs.exists(q))))
    t.ensure("nothing written", fs.all_untouched())


LEGAL = {"harvester": ("ivsample", "ivcurve", "isc_voc"), "emulator": ("ivsample",)}


@contract("C08", "only legal combinations of mode, datatype and window; defaults where omitted; stored settings kept",
          on=[W + "__init__"])
def writer_settings(t):
    fs = t.fs()
    modify = t.bool("modify")
    mode = t.choice("mode", [None, "harvester", "emulator", "solar"])
    dtype = t.choice("datatype", [None, "ivsample", "ivcurve", "isc_voc", "nonsense", EnergyDType.ivsample, EnergyDType.ivcurve,
                                  EnergyDType.isc_voc])
    window = t.int("window", lo=0, hi=10**6, gen=lambda r: r.choice([0, 1, 500])) if t.choice("win", ["none", "given"]) == "given" else None
    if t.branch(modify):
        s_mode, s_dtype = t.choice("stored", [("harvester", "ivsample"), ("harvester", "ivcurve"), ("harvester", "isc_voc"),
                                              ("emulator", "ivsample")])
        s_win = t.int("stored_window", lo=0, hi=10**6)
        hm, hd, hw = t.bool("has_mode"), t.bool("has_dtype"), t.bool("has_win")
        tree, n, tm, vo, cu = recording(t, 0, mode=maybe(hm, s_mode), datatype=maybe(hd, s_dtype), window=maybe(hw, s_win))
        p = fs.h5("rec.h5", tree)
        s_mode = s_mode if t.branch(hm) else "harvester"
        s_dtype = s_dtype if t.branch(hd) else "ivsample"
        s_win = ite(hw, s_win, 0)
    else:
        p = fs.path("rec.h5")
        s_mode, s_dtype, s_win = "harvester", "ivsample", 0
    o = t.attempt(Writer, p, mode=mode, datatype=dtype, window_samples=window, modify_existing=modify, verbose=None)
    e_mode = mode if mode is not None else s_mode
    e_dtype = s_dtype if dtype is None else getattr(dtype, "name", dtype)
    e_win = window if window is not None else s_win
    legal = e_mode in LEGAL and e_dtype in LEGAL[e_mode]
    if e_dtype == "ivcurve" and (dtype is not None or not t.branch(modify)):
        legal = And(legal, e_win >= 1)
    if o.ok:
        t.ensure("only legal settings are accepted", legal)
        f = t.tree(t.get(o.value, "h5file"))
        t.ensure("mode stored", t.eq(f.attr("/", "mode"), e_mode))
        t.ensure("datatype stored", t.eq(f.attr("data", "datatype"), e_dtype))
        t.ensure("window stored", f.attr("data", "window_samples") == e_win)
        t.ensure("mode reported", t.eq(t.m(o.value, "get_mode"), e_mode))
        t.ensure("datatype reported", t.eq(t.m(o.value, "get_datatype"), EnergyDType[e_dtype]))
        t.ensure("window reported", t.m(o.value, "get_window_samples") == e_win)
    else:
        t.ensure("legal settings are not refused", Not(legal))


def _series(t, nm):
    return {d: (t.real(f"{nm}_{d}_gain", gt=0, gen=lambda r: 10 ** r.uniform(-10, 1)),
                t.real(f"{nm}_{d}_off", gen=lambda r: r.choice([0.0, r.uniform(-1, 1)]))) for d in ("time", "voltage", "current")}


def _exact(t, f, rd, d, g, o):
    t.ensure(f"{d}: gain and offset in the file", And(eq(f.attr("data/" + d, "gain"), g), f.attr("data/" + d, "offset") == o))
    p = t.get(t.get(rd, "_cal"), d)
    t.ensure(f"{d}: gain and offset in use", And(eq(t.get(p, "gain"), g), t.get(p, "offset") == o))


@contract("C05", "a new recording stores exactly the calibration it was made with", on=[W + "__init__", R + "__init__"])
def writer_cal(t):
    fs = t.fs()
    kind_ = t.choice("cal", ["series", "harvester", "emulator", "none"])
    if kind_ == "series":
        w = _series(t, "cal")
        cal = t.model(CalibrationSeries, **{d: t.model(CalibrationPair, gain=g, offset=o) for d, (g, o) in w.items()})
    elif kind_ == "none":
        cal = None
        dflt = t.model(CalibrationSeries)
        w = {d: (t.get(t.get(dflt, d), "gain"), t.get(t.get(dflt, d), "offset")) for d in ("time", "voltage", "current")}
        t.ensure("time in nanoseconds", And(eq(w["time"][0], 1e-9), w["time"][1] == 0))
    else:
        def pair(nm):
            return t.model(CalibrationPair, gain=t.real(nm + "_gain", gt=0), offset=t.real(nm + "_off"))
        if kind_ == "harvester":
            ps = {nm: pair(nm) for nm in ("dac_V_Hrv", "dac_V_Sim", "adc_V_Sense", "adc_C_Hrv")}
            cal = t.model(CalibrationHarvester, **ps)
            v, c = ps["adc_V_Sense"], ps["adc_C_Hrv"]
        else:
            ps = {nm: pair(nm) for nm in ("dac_V_A", "dac_V_B", "adc_C_A", "adc_C_B")}
            cal = t.model(CalibrationEmulator, **ps)
            v, c = ps["dac_V_A"], ps["adc_C_A"]
        w = {"time": (1e-9, 0), "voltage": (t.get(v, "gain"), t.get(v, "offset")), "current": (t.get(c, "gain"), t.get(c, "offset"))}
    wr = t.new(Writer, fs.path("rec.h5"), cal_data=cal, verbose=None)
    f = t.tree(t.get(wr, "h5file"))
    for d, (g, o) in w.items():
        _exact(t, f, wr, d, g, o)


@contract("C05", "a modified recording keeps its calibration, gets defaults only where values are missing", on=[W + "__init__", R + "__init__"])
def modify_cal(t):
    fs = t.fs()
    w = _series(t, "stored")
    has = {(d, a): t.bool(f"has_{d}_{a}") for d in w for a in ("gain", "offset")}
    dflt = t.model(CalibrationSeries)
    data = {"attrs": {"window_samples": 0, "datatype": "ivsample"}}
    exp = {}
    for d, (g, o) in w.items():
        data[d] = DS(t.arr(d, "u8" if d == "time" else "u4", n=0), {"gain": maybe(has[d, "gain"], g), "offset": maybe(has[d, "offset"], o)})
        exp[d] = (ite(has[d, "gain"], g, t.get(t.get(dflt, d), "gain")), ite(has[d, "offset"], o, t.get(t.get(dflt, d), "offset")))
    p = fs.h5("rec.h5", {"attrs": {"mode": "harvester"}, "data": data})
    new = t.bool("cal_given")
    if t.branch(new):
        w2 = _series(t, "new")
        cal = t.model(CalibrationSeries, **{d: t.model(CalibrationPair, gain=g, offset=o) for d, (g, o) in w2.items()})
        exp = w2
    else:
        cal = None
    wr = t.new(Writer, p, modify_existing=True, cal_data=cal, verbose=None)
    f = t.tree(t.get(wr, "h5file"))
    for d, (g, o) in exp.items():
        _exact(t, f, wr, d, g, o)


@contract("C05", "opening a recording yields the stored calibration", on=[R + "__init__", R + "get_calibration_data"])
def reader_cal(t):
    fs = t.fs()
    w = _series(t, "stored")
    has = {(d, a): t.bool(f"has_{d}_{a}") for d in w for a in ("gain", "offset")}
    dflt = t.model(CalibrationSeries)
    data = {"attrs": {"window_samples": 0, "datatype": "ivsample"}}
    exp = {}
    for d, (g, o) in w.items():
        data[d] = DS(t.arr(d, "u8" if d == "time" else "u4", n=0), {"gain": maybe(has[d, "gain"], g), "offset": maybe(has[d, "offset"], o)})
        exp[d] = (ite(has[d, "gain"], g, t.get(t.get(dflt, d), "gain")), ite(has[d, "offset"], o, t.get(t.get(dflt, d), "offset")))
    p = fs.h5("rec.h5", {"attrs": {"mode": "harvester"}, "data": data})
    rd = t.new(Reader, p, verbose=None)
    cal = t.m(rd, "get_calibration_data")
    for d, (g, o) in exp.items():
        q = t.get(cal, d)
        t.ensure(f"{d}: stored values, defaults where missing", And(t.get(q, "gain") == g, t.get(q, "offset") == o))
    t.ensure("the file is not written to", fs.untouched(p))
