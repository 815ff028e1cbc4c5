"""Loops: concrete ones are unrolled, symbolic ones summarised from one arbitrary iteration."""
from __future__ import annotations

import ast
from fractions import Fraction

import z3

from .arrays import Blocks, SArr, SeqV, Written, SymRange, as_seq, ilen, items_of, strip
from .core import *  # noqa: F403
from .core import Decisions, _is_num


# --------------------------------------------------------------- snapshots

class Unbound:
    def __repr__(self):
        return "<unbound>"


UNBOUND = Unbound()


def walk(roots):
    """All mutable containers reachable from roots: id -> obj."""
    from .interp import Bound, Cell, Func, KeyBox, Model, SuperV
    seen = {}
    st = list(roots)
    done = set()
    while st:
        o = st.pop()
        if o is None or isinstance(o, (int, str, Fraction, float, bytes, SNum, SBool, SStr, type)):
            continue
        if id(o) in done:
            continue
        done.add(id(o))
        if isinstance(o, Cell):
            seen[id(o)] = o
            st.extend(o.v.values())
            st.append(o.parent)
            st.append(o.yields)
        elif isinstance(o, SObj):
            seen[id(o)] = o
            st.extend(o.f.values())
        elif isinstance(o, list):
            seen[id(o)] = o
            st.extend(o)
        elif isinstance(o, dict):
            seen[id(o)] = o
            st.extend(o.values())
        elif isinstance(o, SArr):
            seen[id(o)] = o
            st.append(o.base)
        elif isinstance(o, SeqV):
            seen[id(o)] = o
            st.extend(s[1] for s in o.segs if s[0] == "item")
        elif isinstance(o, Model):
            seen[id(o)] = o
            st.extend(o.__dict__.values())
        elif isinstance(o, (tuple, set, frozenset)):
            if isinstance(o, set):
                seen[id(o)] = o
            st.extend(o)
        elif isinstance(o, Func):
            st.append(o.env)
        elif isinstance(o, Bound):
            st.append(o.obj)
        elif isinstance(o, SuperV):
            st.append(o.obj)
        elif isinstance(o, (KeyBox, SOpt)):
            st.append(o.v)
    return seen


def get_state(o):
    """Shallow state as {slot: value}."""
    from .interp import Cell, Model
    if isinstance(o, Cell):
        return dict(o.v)
    if isinstance(o, SObj):
        return dict(o.f)
    if isinstance(o, Model):
        return dict(o.__dict__)
    if isinstance(o, dict):
        return dict(o)
    if isinstance(o, list):
        return {"": list(o)}
    if isinstance(o, set):
        return {"": set(o)}
    if isinstance(o, SArr):
        return {"get": o._get, "n": o.n}
    if isinstance(o, SeqV):
        return {"segs": list(o.segs)}
    raise TypeError


def set_state(o, s):
    from .interp import Cell, Model
    if isinstance(o, Cell):
        o.v = dict(s)
    elif isinstance(o, SObj):
        o.f = dict(s)
    elif isinstance(o, Model):
        o.__dict__.clear()
        o.__dict__.update(s)
    elif isinstance(o, dict):
        o.clear()
        o.update(s)
    elif isinstance(o, list):
        o[:] = s[""]
    elif isinstance(o, set):
        o.clear()
        o.update(s[""])
    elif isinstance(o, SArr):
        o._get, o.n = s["get"], s["n"]
    elif isinstance(o, SeqV):
        o.segs = list(s["segs"])


class Snap:
    def __init__(self, roots):
        self.objs = walk(roots)
        self.st = {i: get_state(o) for i, o in self.objs.items()}

    def restore(self):
        for i, o in self.objs.items():
            set_state(o, self.st[i])

    def diff(self):
        """[(obj, slot, old, new)] for every changed slot of a known object."""
        out = []
        for i, o in self.objs.items():
            old, new = self.st[i], get_state(o)
            for k in [*old, *[k for k in new if k not in old]]:
                a, b = old.get(k, UNBOUND), new.get(k, UNBOUND)
                if not same_val(a, b):
                    out.append((o, k, a, b))
        return out


def same_val(a, b):
    if a is b:
        return True
    if isinstance(a, (bool, int, str, Fraction, float, bytes)) and type(a) is type(b):
        return a == b
    if isinstance(a, SNum) and isinstance(b, SNum):
        return a.k == b.k and a.t.eq(b.t)
    if isinstance(a, (SBool, SStr)) and type(a) is type(b):
        return a.t.eq(b.t)
    if isinstance(a, SOpt) and isinstance(b, SOpt):
        return same_val(a.none, b.none) and same_val(a.v, b.v)
    if isinstance(a, Cat) and isinstance(b, Cat):
        return len(a.ps) == len(b.ps) and all(same_val(x, y) for x, y in zip(a.ps, b.ps))
    if isinstance(a, Fmt):
        return a.same(b, same_val)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(x is y or same_val(x, y) for x, y in zip(a, b))
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(x is y or same_val(x, y) for x, y in zip(a, b))
    return False


def ensure_axioms(t):
    """Instantiate the engine's term axioms for substituted terms."""
    c = ctx()
    if c is None:
        return
    seen = set()
    st = [t]
    while st:
        e = st.pop()
        if e.get_id() in seen or z3.is_quantifier(e):
            continue
        seen.add(e.get_id())
        st.extend(e.children())
        if not z3.is_app(e) or e.num_args() == 0 or z3.is_var(e):
            continue
        nm = e.decl().name()
        if nm == "py_round":
            round_axioms(e, e.arg(0))
        elif nm == "sqrt" and e.decl().arity() == 1:
            num_sqrt(SNum(e.arg(0), "float"))
        elif nm == "log2":
            num_log2(SNum(e.arg(0), "float"))
        elif nm in c.__dict__.get("uf_axioms", ()):
            c.uf_axioms[nm](e)
        elif nm == "floordiv":
            from .core import _idiv
            _idiv(e.arg(0), e.arg(1), False)


def subst(v, pairs):
    """Substitute z3 constants in any engine value."""
    from .interp import KeyBox
    if isinstance(v, SNum):
        t = z3.substitute(v.t, *pairs)
        ensure_axioms(t)
        return mknum(z3.simplify(t) if z3.is_int(t) else t, v.k, v.np)
    if isinstance(v, SBool):
        t = z3.substitute(v.t, *pairs)
        ensure_axioms(t)
        return mkbool(t, v.np)
    if isinstance(v, SStr):
        return SStr(z3.substitute(v.t, *pairs))
    if isinstance(v, tuple):
        return tuple(subst(x, pairs) for x in v)
    if isinstance(v, list):
        return [subst(x, pairs) for x in v]
    if isinstance(v, dict):
        return {subst(k, pairs) if isinstance(k, KeyBox) else k: subst(x, pairs) for k, x in v.items()}
    if isinstance(v, KeyBox):
        return KeyBox(subst(v.v, pairs))
    if isinstance(v, SObj):
        return SObj(v.cls, {k: subst(x, pairs) for k, x in v.f.items()}, v.frozen)
    if isinstance(v, SArr):
        g = v.snapshot()
        return SArr(subst(v.n, pairs), lambda i: _sub_get(g, i, pairs), v.dt)
    if isinstance(v, SeqV):
        out = SeqV()
        for s in v.segs:
            if s[0] == "item":
                out.append(subst(s[1], pairs))
            elif len(s) > 3:
                n_, L_, el_ = s[3]
                out.segs.append(("seg", subst(s[1], pairs), lambda i, s=s: _sub_get(s[2], i, pairs), (
                    subst(n_, pairs), lambda i, L_=L_: _sub_get(L_, i, pairs),
                    lambda i, j, el_=el_: _sub_get(lambda a: _sub_get(lambda b: el_(a, b), j, pairs), i, pairs))))
            else:
                out.add_seg(subst(s[1], pairs), lambda i, s=s: _sub_get(s[2], i, pairs))
        return out
    if isinstance(v, SymRange):
        return SymRange(*(subst(x, pairs) for x in (v.start, v.stop, v.step)))
    if hasattr(v, "m_subst"):
        return v.m_subst(lambda x: subst(x, pairs))
    return v


_PH = [0]


def _sub_get(g, i, pairs):
    if isinstance(i, int):
        return subst(g(i), pairs)
    _PH[0] += 1
    p = z3.Int(f"ph!{_PH[0]}")
    c = ctx()
    # evaluate under the facts known for i
    if c is not None:
        c.solver.push()
        n0, v0 = len(c.pc), c.version
        c.add_pc(p == nterm(i))
        try:
            r = g(SNum(p, "int"))
        finally:
            del c.pc[n0:]
            c.solver.pop()
            c.tick()
    else:
        r = g(SNum(p, "int"))
    return subst(subst(r, pairs), [(p, nterm(i))])


def free_of(v, consts):
    """v does not mention any of the z3 constants."""
    ids = {c.get_id() for c in consts}
    if not ids:
        return True

    def term_free(t):
        st, seen = [t], set()
        while st:
            e = st.pop()
            if e.get_id() in seen:
                continue
            seen.add(e.get_id())
            if e.get_id() in ids:
                return False
            if z3.is_quantifier(e):
                st.append(e.body())
            else:
                st.extend(e.children())
        return True

    def go(x, depth=0):
        if isinstance(x, (SNum, SBool, SStr)):
            return term_free(x.t)
        if z3.is_expr(x):
            return term_free(x)
        if isinstance(x, (tuple, list, set)):
            return all(go(y) for y in x)
        if isinstance(x, dict):
            return all(go(y) for y in x.values())
        if isinstance(x, SObj):
            return all(go(y) for y in x.f.values())
        if isinstance(x, SArr):
            _PH[0] += 1
            return go(x.n) and go(x.snapshot()(SNum(z3.Int(f"ph!{_PH[0]}"), "int")))
        if isinstance(x, SeqV):
            for s in x.segs:
                if s[0] == "item":
                    if not go(s[1]):
                        return False
                else:
                    _PH[0] += 1
                    if not (go(s[1]) and go(s[2](SNum(z3.Int(f"ph!{_PH[0]}"), "int")))):
                        return False
            return True
        if isinstance(x, SOpt):
            return go(x.none) and go(x.v)
        if isinstance(x, SymRange):
            return go((x.start, x.stop, x.step))
        if isinstance(x, Cat):
            return all(go(y) for y in x.ps)
        if isinstance(x, Fmt):
            return go(x.v)
        if isinstance(x, Rep):
            _PH[0] += 1
            return go(x.n) and all(go(y) for y in x.f(SNum(z3.Int(f"ph!{_PH[0]}"), "int")))
        if isinstance(x, HoleP):
            return False
        if isinstance(x, Opaque):
            return x.note != "havoc"
        if hasattr(x, "m_parts"):
            return all(go(y) for y in x.m_parts())
        return True

    return go(v)


# ------------------------------------------------------------------- sums

def _monomials(t):
    """Factor lists of the monomials of a sum-of-monomials term."""
    out = []
    for m in (t.children() if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ADD else [t]):
        fs, st = [], [m]
        while st:
            e = st.pop()
            if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_MUL:
                st.extend(reversed(e.children()))
            elif z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UMINUS:
                fs.append(z3.RealVal(-1))
                st.append(e.arg(0))
            else:
                fs.append(e)
        out.append(fs)
    return out


def psum(c, key_fn):
    """Prefix sums of an integrand i -> real term, as [(coefficient, prefix sum function, integrand)]."""
    probe = z3.Int("psum_i")
    key = poly_norm(rterm(key_fn(SNum(probe, "int"))))
    key = z3.simplify(key, som=True)
    if not free_of(key, c.loopvars):
        raise Unsupported("sum inside a loop of symbolic length depends on the loop")
    parts = []
    for fs in _monomials(key):
        free = [x for x in fs if free_of(x, [probe])]
        dep = [x for x in fs if not free_of(x, [probe])]
        co = z3.RealVal(1)
        for x in free:
            co = co * x
        body = z3.RealVal(1)
        if dep:
            dep.sort(key=lambda x: x.sexpr())
            body = dep[0]
            for x in dep[1:]:
                body = body * x
        parts.append((co, body))
    reg = c.__dict__.setdefault("_psum", [])
    out = []
    for co, body in parts:
        if z3.is_rational_value(body):
            out.append((co, None, body))
            continue
        f = next((f for k, f in reg if k.eq(body)), None)
        if f is None:
            f = z3.Function(f"psum{len(reg)}", INT, REAL)
            reg.append((body, f))
        c.axiom(("psum0", f.name()), f(0) == 0)
        out.append((co, f, body))
    return out, probe


def _within(c, t, probe, n):
    """t without the branches that 0 <= probe < n rules out."""
    rng = [probe >= 0, probe < nterm(n)]
    done = {}

    def holds(p):
        s = z3.Solver()
        s.set("timeout", 300)
        s.add(*rng, z3.Not(p))
        return s.check() == z3.unsat

    def go(e):
        if not z3.is_app(e) or not e.num_args():
            return e
        r = done.get(e.get_id())
        if r is not None:
            return r
        if e.decl().kind() == z3.Z3_OP_ITE:
            p = e.arg(0)
            r = go(e.arg(1)) if holds(p) else go(e.arg(2)) if holds(z3.Not(p)) else None
        if r is None:
            ch = [go(a) for a in e.children()]
            r = e if all(a.eq(b) for a, b in zip(ch, e.children())) else e.decl()(*ch)
        done[e.get_id()] = r
        return r
    return go(t)


def psum_shift(c, key_fn, n):
    """Index offset of an integrand within a loop: f(j) = g(j + d) where d depends on the loop and g does not -> (g, d)."""
    if not c.loopvars:
        return None
    probe = z3.Int("psum_i")
    k = rterm(key_fn(SNum(probe, "int")))
    if free_of(k, c.loopvars):
        return None
    k = z3.simplify(poly_norm(_within(c, k, probe, n)), som=True)
    cand, st, seen = {}, [k], set()
    while st:
        e = st.pop()
        if e.get_id() in seen or not z3.is_app(e):
            continue
        seen.add(e.get_id())
        if e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            for a in e.children():
                if z3.is_int(a):
                    d = z3.simplify(a - probe, som=True)
                    if free_of(d, [probe]) and not free_of(d, c.loopvars):
                        cand[d.get_id()] = d
        st.extend(e.children())
    for d in list(cand.values()):
        g = z3.simplify(z3.substitute(k, (probe, probe - d)), som=True)
        if free_of(g, c.loopvars):
            return (lambda i: SNum(z3.substitute(g, (probe, nterm(i))), "float")), SNum(d, "int")
    return None


def psum_at(c, key_fn, n):
    parts, probe = psum(c, key_fn)
    r = z3.RealVal(0)
    for co, f, body in parts:
        if f is None:
            r = r + co * z3.ToReal(nterm(n)) if not isinstance(n, int) else r + co * n
            continue
        if isinstance(n, int) and 0 <= n <= 16:
            t = z3.RealVal(0)
            for j in range(n):
                s = z3.substitute(body, (probe, z3.IntVal(j)))
                ensure_axioms(s)
                t = t + s
            c.axiom(("psumc", f.name(), n), f(n) == t)
        r = r + co * f(nterm(n))
    return z3.simplify(r)


def telescope(ip, key_fn, n):
    """sum_{i<n} c*(P(u(i)) - P(l(i))) with u(i) == l(i+1): collapses to c*(P(u(n-1)) - P(l(0)))."""
    c = ip.c
    reg = c.__dict__.get("_psum")
    if not reg:
        return None
    fns = {f.name() for _, f in reg}
    i = SNum(c.fresh("tele", INT), "int")
    g = rterm(key_fn(i))
    apps, st, seen = {}, [g], set()
    while st:
        e = st.pop()
        if e.get_id() in seen or not z3.is_app(e):
            continue
        seen.add(e.get_id())
        if e.num_args() == 1 and e.decl().name() in fns:
            apps.setdefault(e.decl().name(), []).append(e)
            continue
        st.extend(e.children())
    if not apps or any(len(v) != 2 for v in apps.values()):
        return None
    allapps = [e for v in apps.values() for e in v]
    zero = [(e, z3.RealVal(0)) for e in allapps]
    total, expect = z3.RealVal(0), z3.RealVal(0)
    rest = z3.substitute(g, *zero)
    rng = And(compare(">=", i, 0), compare("<", i, n))
    rng1 = And(compare(">=", i, 0), compare("<", arith("+", i, 1), n))
    nt = nterm(n)
    ends = None
    for v in apps.values():
        a, b = v
        # the coefficient does not depend on i (checked with the whole decomposition below): take it at i = 0
        co = z3.substitute(g, *[(e, z3.RealVal(1 if e.eq(a) else 0)) for e in allapps]) - rest
        co = z3.simplify(z3.substitute(co, (i.t, z3.IntVal(0))), som=True)
        expect = expect + co * (a - b)
        for hi, lo, sg in ((a, b, 1), (b, a, -1)):
            nxt = z3.substitute(lo.arg(0), (i.t, i.t + 1))
            ensure_axioms(nxt)
            if c.quick_valid(Implies(rng1, mkbool(hi.arg(0) == nxt))):
                last = z3.substitute(hi, (i.t, nt - 1))
                first = z3.substitute(lo, (i.t, z3.IntVal(0)))
                ensure_axioms(last)
                total = total + sg * co * (last - first)
                if ends is None:
                    ends = hi.arg(0), lo.arg(0)
                break
        else:
            return None
    if not z3.simplify(rest).eq(z3.RealVal(0)):
        # the part of the inner sums that does not depend on the element: co * (number of elements)
        for hi, lo in (ends, ends[::-1]):
            co = z3.substitute(rest, (hi, z3.IntVal(1))) - z3.substitute(rest, (hi, z3.IntVal(0)))
            co = z3.simplify(z3.substitute(co, (i.t, z3.IntVal(0))), som=True)
            if c.quick_valid(Implies(rng, mkbool(rest == co * z3.ToReal(hi - lo)))):
                break
        else:
            return None
        expect = expect + co * z3.ToReal(hi - lo)
        up, dn = (hi, lo) if hi is ends[0] else (lo, hi)
        co = co if hi is ends[0] else -co
        total = total + co * z3.ToReal(z3.substitute(up, (i.t, nt - 1)) - z3.substitute(dn, (i.t, z3.IntVal(0))))
    if not c.quick_valid(Implies(rng, mkbool(g == expect))):
        return None
    return z3.If(nt > 0, total, z3.RealVal(0))


# ------------------------------------------------------------ nested runs

def nested(ip, run):
    """Explore all paths of run() from the current state; the caller restores heap state in run."""
    c = ip.c
    saved = c.dec
    names = dict(c.names)
    top = dict(names)
    work = [[]]
    out = []
    while work:
        if len(out) > 300:
            raise Unsupported("too many paths in loop body")
        prefix = work.pop()
        c.dec = Decisions(prefix)
        c.names = dict(names)
        c.solver.push()
        n0 = len(c.pc)
        ax0 = set(c.axset)
        c.tick()
        try:
            try:
                r = run()
            except Infeasible:
                r = None
            conds = c.pc[n0:]
        finally:
            pend = c.dec.pending
            for k_, v_ in c.names.items():
                top[k_] = max(top.get(k_, 0), v_)
            del c.pc[n0:]
            c.solver.pop()
            c.axset = ax0
            c.tick()
            c.dec = saved
        work.extend(pend)
        if r is not None:
            out.append((conds, r))
    c.names = top  # names used inside stay reserved
    return out


def _strip_ax(conds):
    return z3.And(*conds) if len(conds) != 1 else conds[0]


# -------------------------------------------------------------- for loops

def for_loop(ip, s, env):
    v = ip.eval(s.iter, env)
    if isinstance(v, range) and len(v) > 600:
        it = ("sym", len(v), lambda i: ip.binop("+", v.start, ip.binop("*", i, v.step)))
    else:
        it = items_of(ip, v)
    if isinstance(it, list):
        for x in it:
            ip.assign(s.target, x, env)
            try:
                ip.block(s.body, env)
            except ip_break():
                return
            except ip_continue():
                continue
        ip.block(s.orelse, env)
        return
    _, n, get = it
    if isinstance(n, SNum):
        for m in (1, 0):
            if ip.c.quick_valid(compare("==", n, m)):
                for j in range(m):
                    ip.assign(s.target, get(j), env)
                    try:
                        ip.block(s.body, env)
                    except ip_break():
                        return
                    except ip_continue():
                        continue
                ip.block(s.orelse, env)
                return

    def body(k):
        ip.assign(s.target, get(k), env)
        ip.block(s.body, env)

    summarise(ip, env, n, body, lambda: ip.block(s.orelse, env), f"for@{s.lineno} in {env.name}")


def ip_break():
    from .interp import BreakSig
    return BreakSig


def ip_continue():
    from .interp import ContinueSig
    return ContinueSig


def while_loop(ip, s, env):
    from .interp import BreakSig

    class NormalExit(Exception):
        pass

    def body(k):
        if not ip.truth(ip.eval(s.test, env)):
            raise WhileExit
        ip.block(s.body, env)

    summarise(ip, env, None, body, lambda: ip.block(s.orelse, env), f"while@{s.lineno} in {env.name}")


class WhileExit(Exception):
    pass


class Loc:
    """A location modified by the loop."""

    def __init__(self, obj, slot, init):
        self.obj, self.slot, self.init = obj, slot, init
        self.mode = "havoc"   # havoc | acc | list | last
        self.hv = None        # havoc value
        self.consts = []
        self.f = None         # k-dependent delta / element / value
        self.const_delta = None
        self.seqval = False
        self.mask = None
        self.per = None
        self.wrap = self.unwrap = None

    def key(self):
        return (id(self.obj), self.slot)


def summarise(ip, env, n, body, orelse, where):
    from .interp import BreakSig, ContinueSig, ReturnSig
    c = ip.c
    if n is not None:
        n = ilen(n)
    roots = [env, ip.world]
    # turn python lists that the body grows into SeqV (found in a first probing round)
    kname = f"k!{len(c.__dict__.setdefault('_loops', []))}"
    c._loops.append(where)
    k = z3.Int(kname)
    kv = SNum(k, "int")
    base = Snap(roots)
    names0 = dict(c.names)
    locs: dict = {}
    hvn = [0]

    def havoc(loc, newval):
        hvn[0] += 1
        nm = f"hv!{kname}!{hvn[0]}"
        a, b = loc.init, newval
        loc.consts = []
        if _is_num(a) and isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
            t = z3.Bool(nm)
            loc.consts = [t]
            return SBool(t)
        if _is_num(a) and _is_num(b):
            fl = kind(a) == "float" or kind(b) == "float"
            t = z3.Real(nm) if fl else z3.Int(nm)
            loc.consts = [t]
            return SNum(t, "float" if fl else "int")
        if isinstance(loc.obj, SeqV) and loc.slot == "segs":
            t = z3.Int(nm)
            loc.consts = [t]
            return [("seg", SNum(t, "int"), lambda i: Opaque(object, "havoc"))]
        if isinstance(a, (list, SeqV)) and isinstance(b, (list, SeqV)) and not (isinstance(a, SeqV) and a.isset):
            t = z3.Int(nm)
            loc.consts = [t]
            loc.seqval = True
            return SeqV([("seg", SNum(t, "int"), lambda i: Opaque(object, "havoc"))])
        if isinstance(a, Unbound):
            return UNBOUND
        if isinstance(a, (str, SStr, Cat)) and isinstance(b, Cat):
            loc.consts = [z3.Bool(nm)]
            return Cat((HoleP(),))
        if isinstance(loc.obj, SArr):
            if loc.slot != "get" or loc.obj.dt == "obj" or loc.obj.base is not None:
                raise Unsupported(f"array modified in symbolic loop ({where})")
            mark = z3.Int(nm)
            loc.consts = [mark]
            srt = z3.RealSort() if loc.obj.dt[0] == "f" else z3.BoolSort() if loc.obj.dt == "bool" else z3.IntSort()
            f = z3.Function(nm + "!arr", z3.IntSort(), z3.IntSort(), srt)
            return lambda i: mkbool(f(mark, nterm(i))) if loc.obj.dt == "bool" else mknum(
                f(mark, nterm(i)), "float" if loc.obj.dt[0] == "f" else "int")
        if hasattr(b, "m_carry"):  # a model whose state is one number
            w = b.m_carry(ip, a, k)
            if w is not None:
                t = z3.Int(nm)
                loc.consts = [t]
                loc.init, loc.wrap, loc.unwrap = w
                loc.hv = SNum(t, "int")
                return loc.wrap(loc.hv)
        return Opaque(object, "havoc")

    def apply_state(kterm, final=False):
        """Heap state at the start of iteration kterm."""
        base.restore()
        st: dict = {}
        for loc in locs.values():
            v = state_at(loc, kterm, final)
            st.setdefault(id(loc.obj), (loc.obj, dict(base.st[id(loc.obj)])))[1][loc.slot] = v
        for o, s_ in st.values():
            set_state(o, {a: b for a, b in s_.items() if b is not UNBOUND})

    def state_at(loc, kt, final):
        if loc.mode == "step":
            w, post = loc.f
            r = arith("+", loc.init, arith("*", kt, w))
            if final:
                km1 = arith("-", kt, 1)
                last = subst(post, [(loc.consts[0], nterm(arith("+", loc.init, arith("*", km1, w)))), (k, nterm(km1))])
                r = ite(compare(">", kt, 0), last, loc.init)
            return loc.wrap(r) if loc.wrap else r
        if loc.mode == "blocks":
            c0, width, w, fn = loc.f
            return Blocks(loc.init, c0, width, kt, lambda q: subst(w, [(k, nterm(q))]),
                          lambda q, r: _sub_get(lambda x: subst(fn(x), [(k, nterm(q))]), r, []))
        if loc.mode == "acc":
            if loc.const_delta is not None:
                return arith("+", loc.init, arith("*", kt, loc.const_delta))
            fl = kind(loc.f) == "float" or kind(loc.init) == "float"
            P = telescope(ip, lambda i: subst(loc.f, [(k, nterm(i))]), kt)
            if P is None:
                P = psum_at(c, lambda i: subst(loc.f, [(k, nterm(i))]), kt)
            t = rterm(loc.init) + P
            return mknum(t if fl else z3.ToInt(t), "float" if fl else "int")
        if loc.mode == "text":
            pre = loc.init.ps if isinstance(loc.init, Cat) else (loc.init,) if loc.init != "" else ()
            tail = loc.f
            return Cat((*pre, Rep(kt, lambda i: subst(tail, [(k, nterm(i))]).ps)))
        if loc.mode == "list" and loc.seqval:
            r = list_state(loc, kt, final)
            return SeqV(r.segs if isinstance(r, SeqV) else r)
        if loc.mode == "list":
            return list_state(loc, kt, final)
        r = scalar_state(loc, kt, final)
        return SeqV(r.segs) if loc.seqval and r is loc.hv else r

    def all_hv():
        return [*c._wild, *(x for l in locs.values() for x in l.consts
                            if l.mode in ("havoc", "last") or (l.mode == "list" and l.mask is not None))]

    def list_state(loc, kt, final):
        if True:
            f = loc.f
            pre = list(loc.init)
            if loc.per == "flat":
                if not final:
                    return loc.hv
                L, el = f
                from .arrays import flat_seg
                return [*pre, flat_seg(ip, kt, lambda i: subst(L, [(k, nterm(i))]),
                                       lambda i, j: _sub_get(lambda jj: subst(el(jj), [(k, nterm(i))]), j, []))]
            if loc.mask is None:
                if loc.per == 1:
                    return [*pre, ("seg", ilen(kt), lambda i: subst(f[0], [(k, nterm(i))]))]
                m = len(f)
                return [*pre, ("seg", arith("*", kt, m), lambda i: _pick(ip, f, i, m, k))]
            if not final:
                return loc.hv
            mk = loc.mask
            marr = SArr(kt, lambda i: subst(mk, [(k, nterm(i))]), "bool")
            from .arrays import selection
            sel = selection(ip, marr)
            return [*pre, ("seg", sel["n"], lambda i: subst(f[0], [(k, nterm(sel["at"](i)))]))]
    def scalar_state(loc, kt, final):
        if loc.mode == "last":
            if not final and not (_is_num(loc.init) and _is_num(loc.f) and free_of(loc.f, all_hv())):
                return loc.hv
            km1 = arith("-", kt, 1)
            last = subst(loc.f, [(k, nterm(km1))])
            if isinstance(loc.init, Unbound):
                return last if not (isinstance(kt, int) and kt == 0) else UNBOUND
            z = compare(">", kt, 0)
            if isinstance(z, bool):
                return last if z else loc.init
            try:
                return ite(z, last, loc.init)
            except Unsupported:
                return Opaque(object, "havoc")
        return loc.hv

    def one():
        """body at arbitrary iteration k from the current guess."""
        apply_state(kv)
        snap = Snap(roots)
        c.assume(compare(">=", kv, 0))
        if n is not None:
            c.assume(compare("<", kv, n))
        try:
            body(kv)
            kind_ = "normal"
        except ContinueSig:
            kind_ = "normal"
        except (BreakSig, ReturnSig, PyExc, WhileExit):
            kind_ = "exit"
        d = snap.diff() if kind_ == "normal" else []
        return kind_, d, {i: get_state(o) for i, o in snap.objs.items()} if kind_ == "normal" else None

    c.loopvars.append(k)
    try:
        for rnd in range(8):
            wild0 = len(c.__dict__.setdefault("_wild", []))
            paths = nested(ip, one)
            changed = False
            normals = [(cs, r) for cs, r in paths if r[0] == "normal"]
            exits = [(cs, r) for cs, r in paths if r[0] != "normal"]
            # new locations
            for _, (_, diffs, _) in normals:
                for o, slot, old, new in diffs:
                    if isinstance(o, list):
                        # grown python list -> SeqV everywhere it is referenced
                        _listify(base, o)
                        changed = True
                        break
                    key = (id(o), slot)
                    if key not in locs and id(o) in base.st:
                        init = base.st[id(o)].get(slot, UNBOUND)
                        loc = Loc(o, slot, init)
                        loc.hv = havoc(loc, new)
                        locs[key] = loc
                        changed = True
                if changed and any(isinstance(o, list) for o, *_ in diffs):
                    break
            if changed:
                continue
            # effects per location
            allhv = all_hv()
            upd = False
            for loc in locs.values():
                if loc.mode != "havoc" or not normals:
                    continue
                vals = []
                for cs, (_, _, post) in normals:
                    vals.append((z3.And(*cs) if cs else z3.BoolVal(True), post[id(loc.obj)].get(loc.slot, UNBOUND)))
                if _classify(ip, loc, vals, k, allhv, n):
                    upd = True
            if not upd:
                if len(c._wild) > wild0:
                    raise Unsupported("sum inside a loop of symbolic length depends on the loop")
                break
        else:
            raise Unsupported(f"loop summary did not stabilise ({where})")
    finally:
        c.loopvars.pop()
        base.restore()

    # --- verdict over havoc dependence
    hv = all_hv()
    if any(not free_of(t, hv) for cs, _ in paths for t in cs):
        raise Unsupported(f"loop condition depends on carried state without closed form ({where})")
    normal_k = z3.Or(*[z3.And(*cs) if cs else z3.BoolVal(True) for cs, _ in normals]) if normals else z3.BoolVal(False)

    def all_normal(upto):
        j = z3.Int(f"j!{kname}")
        b = z3.substitute(normal_k, (k, j))
        c.assume(mkbool(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < nterm(upto)), b))))

    trivial = not exits and c.names == names0
    opt = 0
    if exits:
        opt = c.choose(2) if n is not None else 1
    if opt == 0:
        if not trivial:
            all_normal(n)
            # useful instance
            c.assume(Implies(compare(">", n, 0), mkbool(z3.substitute(normal_k, (k, nterm(n) - 1)))))
        apply_state(n, final=True)
        for loc in locs.values():
            if loc.mode == "havoc":
                ip_note(ip, where)
        orelse()
        return
    ks = c.fresh_int("kx")
    c.assume(compare(">=", ks, 0))
    if n is not None:
        c.assume(compare("<", ks, n))
    all_normal(ks)
    c.assume(Implies(compare(">", ks, 0), mkbool(z3.substitute(normal_k, (k, nterm(ks) - 1)))))
    exit_k = z3.Or(*[z3.And(*cs) for cs, _ in exits])
    c.assume(mkbool(z3.substitute(exit_k, (k, ks.t))))
    if c.check() == z3.unsat:
        raise Infeasible
    apply_state(ks, final=True)
    try:
        body(ks)
    except BreakSig:
        return
    except WhileExit:
        orelse()
        return
    except ContinueSig:
        raise Infeasible from None
    raise Infeasible


def ip_note(ip, where):
    pass


def _pick(ip, f, i, m, k):
    q, r = arith("//", i, m), arith("%", i, m)
    return ip.merge_cases([(compare("==", r, j), subst(f[j], [(k, nterm(q))])) for j in range(m)])


def _listify(base, lst):
    base.restore()
    seq = SeqV([("item", x) for x in lst])
    for i, o in base.objs.items():
        st = base.st[i]
        for s_, v in list(st.items()):
            if v is lst:
                st[s_] = seq
            elif s_ == "" and isinstance(v, list) and any(x is lst for x in v):
                st[s_] = [seq if x is lst else x for x in v]
    base.objs.pop(id(lst), None)
    base.st.pop(id(lst), None)
    base.objs[id(seq)] = seq
    base.st[id(seq)] = get_state(seq)
    base.restore()
    base.__dict__.setdefault("keep", []).append(lst)


def _classify(ip, loc, vals, k, allhv, n=None):
    """Try to give loc a closed form; True when its mode changed."""
    hv = loc.hv
    if loc.wrap:
        hv = loc.unwrap(hv)
        vals = [(c_, loc.unwrap(v)) for c_, v in vals]
        if any(v is None for _, v in vals):
            return False
        return _classify_step(ip, loc, hv, vals, k, allhv, n)
    if isinstance(loc.obj, SArr) and loc.slot == "get":
        return _classify_blocks(ip, loc, vals, k, allhv, n)
    # append-only sequence
    if (isinstance(loc.obj, SeqV) and loc.slot == "segs") or loc.seqval:
        apps = []
        h0 = hv.segs[0] if loc.seqval else hv[0]
        if loc.seqval:
            if not all(isinstance(v, (list, SeqV)) for _, v in vals):
                return False
            vals = [(c_, as_seq(ip, v).segs) for c_, v in vals]
        for cond, segs in vals:
            if not segs or segs[0] is not h0:
                return False
        if any(s[0] != "item" for _, segs in vals for s in segs[1:]):
            return _classify_flat(ip, loc, [(c_, segs[1:]) for c_, segs in vals], allhv)
        for cond, segs in vals:
            apps.append((cond, [s[1] for s in segs[1:]]))
        if not all(free_of(x, allhv) and free_of(cond, allhv) for cond, xs in apps for x in xs):
            return False
        cnt = {len(xs) for _, xs in apps}
        if len(cnt) == 1:
            m = cnt.pop()
            loc.f = [ip.merge_cases([(mkbool(c_), xs[j]) for c_, xs in apps]) for j in range(m)]
            loc.per = m
            loc.mask = None
            if m == 0:
                loc.f, loc.per = [], 0
            loc.mode = "list"
            loc.init = list(as_seq(ip, loc.init).segs) if loc.seqval else list(loc.init)
            return True
        if cnt == {0, 1}:
            ones = [(c_, xs[0]) for c_, xs in apps if xs]
            loc.mask = mkbool(z3.Or(*[c_ for c_, _ in ones]))
            loc.f = [ip.merge_cases([(mkbool(c_), x) for c_, x in ones])]
            loc.per = 1
            loc.mode = "list"
            loc.init = list(as_seq(ip, loc.init).segs) if loc.seqval else list(loc.init)
            return True
        raise Unsupported("irregular appends in loop")
    # text that grows at its end
    if isinstance(hv, Cat):
        if not all(isinstance(v, Cat) and v.ps and v.ps[0] is hv.ps[0] for _, v in vals):
            return False
        tails = [(c_, Cat(v.ps[1:])) for c_, v in vals]
        if not all(free_of(x, allhv) and free_of(c_, allhv) for c_, x in tails):
            return False
        if not all(same_val(x, tails[0][1]) for _, x in tails):
            tails = [(None, merge_texts(tails))]
        loc.f = tails[0][1]
        loc.mode = "text"
        return True
    # numeric accumulator
    if _is_num(hv) and not isinstance(hv, SBool) and all(_is_num(v) for _, v in vals):
        ds = [(c_, arith("-", v, hv)) for c_, v in vals]
        ds = [(c_, mknum(poly_norm(rterm(d)), "float") if kind(d) == "float" else
               mknum(z3.simplify(nterm(d), som=True), "int")) for c_, d in ds]
        if all(free_of(d, allhv) and same_val(d, ds[0][1]) for _, d in ds):  # the same step on every path
            loc.f = ds[0][1]
            loc.const_delta = loc.f if free_of(loc.f, [k]) else None
            loc.mode = "acc"
            return True
        if all(free_of(d, allhv) and free_of(c_, allhv) for c_, d in ds):
            d = ip.merge_cases([(mkbool(c_), d) for c_, d in ds])
            loc.f = d
            loc.const_delta = d if free_of(d, [k]) else None
            loc.mode = "acc"
            return True
        if kind(hv) == "int" and not free_of(vals[0][1], loc.consts) and _classify_step(ip, loc, hv, vals, k, allhv, n):
            return True
    # last value
    if all(v is not UNBOUND for _, v in vals):
        if all(free_of(v, allhv) and free_of(c_, allhv) for c_, v in vals):
            if len(vals) == 1 or all(same_val(v, vals[0][1]) for _, v in vals):
                loc.f = vals[0][1]
            else:
                try:
                    loc.f = ip_merge_nofork(vals)
                except Unsupported:
                    return False
            loc.mode = "last"
            return True
    return False


def _holds(ip, conds, claim):
    """claim under the current facts and conds."""
    c = ip.c
    s = c.check(*[z3.simplify(bterm(x)) for x in conds], z3.Not(bterm(claim)), ms=3000)
    return s == z3.unsat


def _classify_step(ip, loc, hv, vals, k, allhv, n):
    """Counter that advances by a fixed step in all but the last iteration (guessed, then shown by induction)."""
    if n is None:
        return False
    own = loc.consts[0]
    others = [x for x in allhv if x is not own]
    if not all(free_of(v, others) and free_of(c_, others) for c_, v in vals):
        return False
    if kind(loc.init) != "int" or any(kind(v) != "int" for _, v in vals):
        return False
    post = vals[0][1] if all(same_val(v, vals[0][1]) for _, v in vals) else ip_merge_nofork(vals)
    c = ip.c
    first = arith("-", subst(post, [(own, nterm(loc.init)), (k, z3.IntVal(0))]), loc.init)
    if isinstance(first, SNum):
        many = bterm(compare(">", n, 1))
        c.solver.push()
        try:
            c.solver.add(many)
            if c.solver.check() != z3.sat:
                return False
            first = c.solver.model().eval(first.t, model_completion=True).as_long()
        finally:
            c.solver.pop()
            c.tick()
    w = first
    at = arith("+", loc.init, arith("*", SNum(k, "int"), w))
    conds = subst(mkbool(z3.Or(*[c_ for c_, _ in vals])), [(own, nterm(at))])
    if not _holds(ip, [k >= 0, mkbool(k < nterm(n) - 1), conds],
                  compare("==", subst(post, [(own, nterm(at))]), arith("+", at, w))):
        return False
    loc.f = (w, post)
    loc.mode = "step"
    return True


def _classify_blocks(ip, loc, vals, k, allhv, n):
    """Every iteration stores one block, the blocks follow each other with a fixed distance."""
    hv = loc.hv
    probe = SNum(z3.Int("blk_probe"), "int")
    ws = []
    if n is None:
        return False
    for cond, g in vals:
        if isinstance(g, Blocks) and g.width == 1 and g.w(probe) == 1:  # single elements one after the other: one block
            g = Written(g.old, g.c0, g.cnt, lambda i, g=g: g.fn(i, 0))
        if not isinstance(g, Written) or g.old is not hv:
            return False
        if not (free_of(g.start, allhv) and free_of(g.n, allhv) and free_of(cond, allhv) and free_of(g.fn(probe), allhv)):
            return False
        ws.append((cond, g))
    start = ws[0][1].start
    for _, g in ws[1:]:
        if not same_val(g.start, start) and not _holds(ip, [k >= 0, mkbool(k < nterm(n))], compare("==", g.start, start)):
            return False
    nxt = subst(start, [(k, k + 1)])
    width = arith("-", nxt, start)
    if isinstance(width, SNum):
        width = mknum(z3.simplify(width.t, som=True), "int")
    if not isinstance(width, int):
        c = ip.c
        c.solver.push()
        try:
            c.solver.add(k >= 0, k < nterm(n) - 1)
            if c.solver.check() != z3.sat:
                return False
            w_ = c.solver.model().eval(width.t, model_completion=True).as_long()
        finally:
            c.solver.pop()
            c.tick()
        if not _holds(ip, [k >= 0, mkbool(k < nterm(n) - 1)], compare("==", width, w_)):
            return False
        width = w_
    if width < 1:
        return False
    c0 = subst(start, [(k, z3.IntVal(0))])
    if not _holds(ip, [k >= 0, mkbool(k < nterm(n))], compare("==", start, arith("+", c0, arith("*", SNum(k, "int"), width)))):
        return False
    for cond, g in ws:
        if not _holds(ip, [k >= 0, mkbool(k < nterm(n)), mkbool(cond)], And(compare(">=", g.n, 0), compare("<=", g.n, width))):
            return False
    w = ws[0][1].n if all(same_val(g.n, ws[0][1].n) for _, g in ws) else ip_merge_nofork([(c_, g.n) for c_, g in ws])

    def fn(j):
        vs = [(c_, strip(g.fn(j))) for c_, g in ws]
        if all(same_val(v, vs[0][1]) for _, v in vs):
            return vs[0][1]
        return ip_merge_nofork(vs)
    loc.f = (c0, width, w, fn)
    loc.mode = "blocks"
    return True


def _classify_flat(ip, loc, apps, allhv):
    """Every iteration appends one sequence."""
    parts = []
    probe = SNum(z3.Int("flat_probe"), "int")
    for cond, new in apps:
        if len(new) > 1:
            raise Unsupported("several sequences appended per iteration")
        if not new:
            parts.append((cond, 0, None))
        elif new[0][0] == "item":
            parts.append((cond, 1, lambda j, x=new[0][1]: x))
        else:
            parts.append((cond, new[0][1], new[0][2]))
        if not free_of(cond, allhv) or not free_of(parts[-1][1], allhv) or (new and not free_of(parts[-1][2](probe), allhv)):
            return False
    if all(same_val(p[1], parts[0][1]) for p in parts):
        L = parts[0][1]
    else:
        L = ip_merge_nofork([(c_, n_) for c_, n_, _ in parts])
    els = [(c_, e_) for c_, _, e_ in parts if e_ is not None]

    def el(j):
        vs = [(c_, e_(j)) for c_, e_ in els]
        if len(vs) == 1 or all(same_val(v, vs[0][1]) for _, v in vs):
            return vs[0][1]
        return ip_merge_nofork(vs)
    loc.f = (L, el)
    loc.per = "flat"
    loc.mask = "flat"
    loc.mode = "list"
    loc.init = list(as_seq(ip, loc.init).segs) if loc.seqval else list(loc.init)
    return True


def merge_texts(tails):
    """Texts of the same structure that differ in the formatted values only."""
    out = []
    if len({len(x.ps) for _, x in tails}) != 1:
        raise Unsupported("texts of different structure per iteration")
    for ps in zip(*[x.ps for _, x in tails]):
        if all(same_val(p, ps[0]) for p in ps):
            out.append(ps[0])
        elif all(isinstance(p, Fmt) and p.spec == ps[0].spec and p.post == ps[0].post for p in ps):
            out.append(Fmt(ip_merge_nofork([(c_, p.v) for (c_, _), p in zip(tails, ps)]), ps[0].spec, ps[0].post))
        elif all(isinstance(p, (str, SStr)) for p in ps):
            out.append(ip_merge_nofork([(c_, p) for (c_, _), p in zip(tails, ps)]))
        else:
            raise Unsupported("texts of different structure per iteration")
    return Cat(tuple(out))


def ip_merge_nofork(vals):
    r = vals[-1][1]
    for c_, v in reversed(vals[:-1]):
        r = ite(mkbool(c_), v, r)
    return r


# ---------------------------------------------------------- comprehension

def comprehension(ip, e, env, what):
    """List/dict comprehension as the equivalent loop in a child scope."""
    from .interp import Cell
    scope = Cell(env.globs, env, None, env.name + ".<comp>")
    scope.yields = None
    acc = [] if what == "list" else {}
    scope.v[".acc"] = acc

    def gen(i):
        if i == len(e.generators):
            if what == "list":
                v = ip.eval(e.elt, scope)
                a = scope.v[".acc"]
                a.append(v)
            else:
                ip.dict_set(scope.v[".acc"], ip.eval(e.key, scope), ip.eval(e.value, scope))
            return
        g = e.generators[i]
        it = items_of(ip, ip.eval(g.iter, env if i == 0 else scope))

        def inner():
            for cnd in g.ifs:
                if not ip.truth(ip.eval(cnd, scope)):
                    return
            gen(i + 1)

        if isinstance(it, list):
            for x in it:
                ip.assign(g.target, x, scope)
                inner()
            return
        _, n, get = it

        def body(k):
            ip.assign(g.target, get(k), scope)
            inner()

        summarise(ip, scope, n, body, lambda: None, f"comprehension@{e.lineno} in {env.name}")

    gen(0)
    return scope.v[".acc"]


def seq_contains(ip, cont, x):
    if isinstance(cont, SymRange):
        d = arith("-", x, cont.start)
        st = cont.step
        return And(compare(">=", d, 0), compare("<", x, cont.stop), compare("==", arith("%", d, st), 0))
    s = as_seq(ip, cont)
    parts = []
    for g in s.segs:
        if g[0] == "item":
            parts.append(ip.truth_term(ip.eq_term(g[1], x)))
        elif len(g) > 3:
            from .intrinsics import seg_gen
            vs, rng, e = seg_gen(ip, g, "c")
            parts.append(mkbool(z3.Exists(vs, z3.And(*rng, bterm(ip.truth_term(ip.eq_term(e, x)))))))
        elif isinstance(g[1], int):
            parts.extend(ip.truth_term(ip.eq_term(g[2](j), x)) for j in range(g[1]))
        else:
            ip.c._ex = getattr(ip.c, "_ex", 0) + 1
            j = z3.Int(f"ex!{ip.c._ex}")
            b = ip.truth_term(ip.eq_term(g[2](SNum(j, "int")), x))
            parts.append(mkbool(z3.Exists([j], z3.And(j >= 0, j < nterm(g[1]), bterm(b)))))
    return Or(*parts) if parts else False
