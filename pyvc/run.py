"""Check one property: python -m pyvc.run C01"""
from __future__ import annotations

import sys
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")

import importlib  # noqa: E402
import json  # noqa: E402
import logging  # noqa: E402
import multiprocessing as mp  # noqa: E402
import os  # noqa: E402
import random  # noqa: E402
import time  # noqa: E402
import traceback  # noqa: E402
from fractions import Fraction  # noqa: E402
from pathlib import Path  # noqa: E402

ROOT = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(ROOT))
sys.setrecursionlimit(20000)


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    if isinstance(x, Fraction):
        return f"{x.numerator}/{x.denominator}" if x.denominator != 1 else int(x)
    return repr(x)


def load(prop):
    from pyvc import contract
    for f in sorted((ROOT / "contracts").glob("*.py")):
        if f.stem.startswith("_"):
            continue
        try:
            importlib.import_module(f"contracts.{f.stem}")
        except (ImportError, AttributeError) as e:
            print(f"UNDECIDED contracts of {f.name} do not fit the tree: {type(e).__name__}: {e}")
    return [c for c in contract.CONTRACTS if c.prop == prop]


def setup_quiet():
    import warnings
    warnings.filterwarnings("ignore")
    logging.disable(logging.CRITICAL)
    try:
        import numpy as np
        np.seterr(all="ignore")
    except ImportError:
        pass
    try:
        import tqdm
        init = tqdm.tqdm.__init__
        if not getattr(init, "_quiet", False):
            def quiet(self, *a, **kw):
                kw["disable"] = True
                init(self, *a, **kw)
            quiet._quiet = True
            tqdm.tqdm.__init__ = quiet
    except ImportError:
        pass


def job(con, seed, tier, wall, q):
    """Runs in its own process."""
    try:
        os.setsid()
    except OSError:
        pass
    setup_quiet()
    sys.setrecursionlimit(20000)
    from pyvc import contract as K
    t0 = time.time()
    scale = 1 if tier == "quick" else 8
    rng = random.Random(f"{seed}:{con.id}")
    out = {"id": con.id, "on": con.on, "bounded": con.bounded}
    try:
        if con.symbolic:
            res = K.run_symbolic(con, t0 + wall * 0.6, {"prove_ms": 8000 * (1 if tier == "quick" else 4)})
        else:
            res = {"status": "bounded", "obls": [], "paths": 0, "reason": con.note or "bounded stand-in", "time": 0,
                   "inlined": [], "used": [], "trusted": []}
        bad = [o for o in res["obls"] if o["status"] == "refuted"]
        models = []
        for o in bad:
            for m in [o.get("model"), *o.get("models", [])]:
                if m and m not in models:
                    models.append(m)
        models = models[:30]
        calm = res["status"] == "proved"
        out["sym"] = res
        q.put(("sym", json.dumps(jsonable(_slim(out)))))
        left = max(10.0, wall - (time.time() - t0) - 10)
        r = K.search(con, rng, con.samples * scale * (1 if calm else 10),
                     min(left, con.seconds * scale * (1 if calm else 8)), models)
        if res.get("reach") is False and r[4]["nontrivial"] == 0:
            res["status"], res["reason"] = "vacuous", "no path shown reachable"
        out["search"] = {"result": r[0], "input": r[1], "what": getattr(r[2], "name", str(r[2]) if r[2] else None),
                         "detail": getattr(r[2], "detail", ""), "how": r[3], "stat": r[4], "sample": r[5],
                         "models": len(models)}
    except BaseException as e:  # noqa: BLE001
        out["crash"] = f"{type(e).__name__}: {e}\n{traceback.format_exc()}"
    out["wall"] = time.time() - t0
    q.put(("done", json.dumps(jsonable(_slim(out)))))


def _slim(out):
    o = dict(out)
    if "sym" in o:
        s = dict(o["sym"])
        s["obls"] = [{k: v for k, v in x.items()} for x in s["obls"]]
        o["sym"] = s
    return o


def run_all(cons, seed, tier, wall, procs):
    todo = list(cons)
    running = []
    results = {}
    ctxm = mp.get_context("fork")
    while todo or running:
        while todo and len(running) < procs:
            c = todo.pop(0)
            q = ctxm.Queue()
            p = ctxm.Process(target=job, args=(c, seed, tier, wall, q))
            p.start()
            running.append([c, p, q, time.time(), None])
        time.sleep(0.01)
        for r in list(running):
            c, p, q, t0, last = r
            fin = False
            try:
                while True:
                    k, data = q.get(block=False)
                    r[4] = json.loads(data)
                    fin = fin or k == "done"
            except Exception:  # noqa: BLE001
                pass
            if not fin and p.is_alive() and time.time() - t0 < wall + 15:
                continue
            if not fin and not p.is_alive():
                try:
                    while True:
                        k, data = q.get(timeout=0.3)
                        r[4] = json.loads(data)
                        fin = fin or k == "done"
                except Exception:  # noqa: BLE001
                    pass
            if not fin:
                try:
                    os.killpg(p.pid, 9)
                except OSError:
                    p.kill()
                r[4] = r[4] or {"id": c.id, "on": c.on, "bounded": c.bounded}
                r[4]["killed"] = True
            p.join(2)
            results[c.id] = r[4]
            running.remove(r)
    return [results[c.id] for c in cons]


def known_findings():
    f = ROOT / "known_findings.json"
    return json.loads(f.read_text()) if f.exists() else []


def unjson(v):
    if isinstance(v, list):
        return [unjson(x) for x in v]
    if isinstance(v, str) and v.count("/") == 1 and v.replace("/", "").lstrip("-").isdigit():
        return Fraction(v)
    return v


def replay(path):
    from pyvc import contract as K
    setup_quiet()
    d = json.loads(Path(path).read_text())
    con = next((c for c in load(d["property"]) if c.id == d["contract"]), None)
    if con is None or not d.get("input"):
        print("no recorded input; failed obligations:")
        print(json.dumps(d.get("failed_obligations"), indent=1))
        return 1
    r, t, v = K.run_native(con, random.Random(1), {k: unjson(x) for k, x in d["input"].items()})
    print(d["contract"], "on", d["input"], "->", r, getattr(v, "name", v), getattr(v, "detail", ""))
    return 1 if r == "violated" else 0


def main(argv):
    if argv[0] == "--replay":
        return replay(argv[1])
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    setup_quiet()
    only = argv[1] if len(argv) > 1 else None
    cons = load(prop)
    if only:
        cons = [c for c in cons if only in c.name]
    wall = float(os.environ.get("PYVC_WALL", 300 if tier == "quick" else 1500))
    res = run_all(cons, seed, tier, wall, int(os.environ.get("PYVC_PROCS", "7")))
    known = [k for k in known_findings() if k["property"] == prop and k.get("status") != "fixed"]

    violations, undecided, knownhits = [], [], []
    n_obl = n_dis = 0
    backends: dict = {}
    solver_time = 0.0
    table = []
    evals = nontriv = 0
    samples = []
    trusted = set()
    inlined = set()
    assumptions = set()
    for con, r in zip(cons, res):
        sym = r.get("sym", {"status": "undecided", "obls": [], "reason": "no answer in time"})
        se = r.get("search", {})
        obls = sym["obls"]
        if not con.bounded and con.symbolic:
            n_obl += len(obls) if obls else 1
            n_dis += sum(1 for o in obls if o["status"] == "discharged") if sym["status"] in ("proved", "refuted", "unknown") else 0
        for o in obls:
            if o["status"] == "discharged":
                backends[o["backend"]] = backends.get(o["backend"], 0) + 1
            solver_time += o.get("time", 0)
        st = se.get("stat", {})
        evals += st.get("evaluations", 0)
        nontriv += st.get("nontrivial", 0)
        if se.get("sample") and len(samples) < 12:
            samples.append({"contract": con.id, "input": se["sample"]})
        trusted |= set(sym.get("trusted", []))
        inlined |= set(sym.get("inlined", []))
        assumptions |= set(con.assumptions)
        row = {"contract": con.id, "functions": con.on, "status": sym["status"], "obligations": len(obls),
               "paths": sym.get("paths", 0), "reason": sym.get("reason", ""), "wall_s": round(r.get("wall", 0), 2),
               "bounded": con.bounded or not con.symbolic, "contract_evaluations_on_running_code": st.get("evaluations", 0),
               "callee_contracts": sym.get("used", []), **({"note": con.note} if getattr(con, "note", "") else {})}
        table.append(row)
        if r.get("crash"):
            undecided.append((con, "crash: " + r["crash"]))
            print("CRASH", con.id, r["crash"], file=sys.stderr)
        if se.get("result") == "violated":
            kf = match_known(known, con, se)
            if kf:
                knownhits.append(kf)
                row["known_finding"] = kf["what"]
                continue
            violations.append((con, "input", {"contract": con.id, "obligation": se["what"], "detail": se["detail"],
                                              "how": se["how"], "input": se["input"],
                                              "failed_obligations": _failed(obls)}))
            continue
        if sym["status"] == "refuted":
            bad = _failed(obls)
            kf = match_known(known, con, {"what": bad[0]["name"] if bad else "", "input": {}})
            if kf:
                knownhits.append(kf)
                row["known_finding"] = kf["what"]
                continue
            clean = st.get("replayed_clean", 0)
            if all(o.get("weak") for o in obls if o["status"] == "refuted"):
                undecided.append((con, "not shown (the counter-model rests on functions known by name only): "
                                  + str([b["name"] for b in bad[:3]])))
                row["status"] = "undecided (counter-model not conclusive)"
            elif clean and clean >= se.get("models", 0) * 0.5:
                undecided.append((con, "counter-models do not reproduce on the running code: " + str([b["name"] for b in bad[:3]])))
                row["status"] = "undecided (counter-model spurious)"
            else:
                violations.append((con, "none", {"contract": con.id, "failed_obligations": bad,
                                                 "verifier": "z3/cvc5: sat (obligation not valid)"}))
            continue
        if sym["status"] not in ("proved", "bounded"):
            undecided.append((con, sym["status"] + ": " + sym.get("reason", "")))
            if os.environ.get("PYVC_DEBUG") and sym.get("tb"):
                print(sym["tb"], file=sys.stderr)

    wall_s = time.time() - t0
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "proof",
        "coverage": {
            "obligations": n_obl, "discharged": n_dis,
            "checker_cmd": f"./check {prop}",
            "trusted_base": TRUSTED + sorted(trusted),
            "functions_under_contract": sorted({f for c in cons for f in c.on}),
            "functions_verified_by_inlining": sorted(inlined),
            "backends": backends, "solver_time_s": round(solver_time, 2),
            "contracts": table,
            "undecided": [{"contract": c.id, "reason": why[:400]} for c, why in undecided],
            "bounded_standins": [t["contract"] for t in table if t["bounded"]],
            "evaluations": evals, "distinct_nontrivial": nontriv,
            "rule": "each contract is also evaluated on the running code (counter-models of failed obligations, then inputs "
                    "drawn from VERIF_SEED within its precondition); non-trivial: the precondition held and at least one "
                    "postcondition was evaluated, distinct by the drawn input",
            "samples": samples,
        },
        "assumptions": sorted(assumptions | {
            "floating point arithmetic is treated as exact real arithmetic in the proofs",
            "python ints are unbounded (exact); numpy unsigned integers wrap, signed ones are taken as unbounded"}),
        "wall_s": round(wall_s, 2), "violations": len(violations),
    }
    edir = ROOT / "evidence"
    edir.mkdir(exist_ok=True)
    if not only:
        (edir / f"{prop}.json").write_text(json.dumps(jsonable(ev), indent=1))
    for kf in {k["what"]: k for k in knownhits}.values():
        print(f"KNOWN-FINDING: property={prop} {kf['what']}")
    for c, why in undecided:
        print(f"UNDECIDED {c.id}: {why[:300]}")
    if os.environ.get("PYVC_VERBOSE"):
        for t in table:
            print(f"  {t['status']:10s} {t['contract']:60s} obl={t['obligations']} paths={t['paths']} {t['wall_s']}s evals={t['contract_evaluations_on_running_code']} {t['reason'][:100]}")
    print(f"{prop}: {n_dis}/{n_obl} obligations discharged, {len(cons)} contracts, {len(undecided)} undecided, "
          f"{evals} contract evaluations on the running code, {wall_s:.1f} s")
    rdir = edir / "replay"
    for i, (con, kind_, data) in enumerate(violations):
        rdir.mkdir(exist_ok=True)
        p = rdir / f"{prop}-{i}.json"
        data["property"] = prop
        data["replay_cmd"] = f"./replay {p.relative_to(ROOT)}"
        p.write_text(json.dumps(jsonable(data), indent=1))
        tail = "" if kind_ == "input" else " no-failing-input-found"
        print(f"  {data.get('obligation') or [b['name'] for b in data['failed_obligations'][:3]]} in {con.id}"
              f" {str(data.get('detail', ''))[:200]}")
        print(f"VIOLATION property={prop} replay={p}{tail}")
    if not cons:
        print("no contracts", file=sys.stderr)
        return 2
    return 1 if violations else 0


def _failed(obls):
    return [{k: o.get(k) for k in ("name", "status", "backend", "goal", "model", "detail")} for o in obls
            if o["status"] != "discharged"][:10]


def match_known(known, con, se):
    for k in known:
        if k["contract"] == con.id and (k.get("obligation") in (None, se.get("what"))):
            sel = k.get("input", {})
            if all(str((se.get("input") or {}).get(a)) == str(b) for a, b in sel.items()):
                return k
    return None


TRUSTED = [
    "pyvc: the verification-condition generator in /verif/pyvc (symbolic interpreter of the functions' own AST, array and loop theories)",
    "z3 and cvc5",
    "CPython's ast/inspect returning the source of the loaded function",
    "models of builtins, numpy and pydantic construction in pyvc/intrinsics.py and pyvc/pyd.py",
]

if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
