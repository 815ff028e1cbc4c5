"""Symbolic interpreter for the real functions' AST."""
from __future__ import annotations

import ast
import builtins
import enum
import inspect
import logging
import textwrap
import types
from fractions import Fraction

import numpy as np
import z3
from pydantic import BaseModel

from .core import *  # noqa: F403
from .core import _is_num
from .arrays import SArr, SeqV, SymRange, arr_binop, arr_compare, arr_unary, as_seq


class ReturnSig(Exception):
    def __init__(self, v):
        self.v = v


class BreakSig(Exception):
    pass


class ContinueSig(Exception):
    pass


_PURE_CALLS = {"min", "max", "abs", "int", "float", "round", "bool", "len"}


def _simple_expr(e):
    for n in ast.walk(e):
        if isinstance(n, ast.Call):
            if not (isinstance(n.func, ast.Name) and n.func.id in _PURE_CALLS) or n.keywords:
                return False
        elif isinstance(n, (ast.NamedExpr, ast.Await, ast.Yield, ast.YieldFrom, ast.Lambda, ast.ListComp, ast.SetComp,
                            ast.DictComp, ast.GeneratorExp, ast.JoinedStr, ast.Starred, ast.List, ast.Dict, ast.Set)):
            return False
    return True


def _simple_target(t):
    return isinstance(t, ast.Name) or (isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name))


def _simple_stmt(s):
    if isinstance(s, ast.Assign):
        return all(_simple_target(t) for t in s.targets) and _simple_expr(s.value)
    if isinstance(s, ast.AugAssign):
        return _simple_target(s.target) and _simple_expr(s.value)
    if isinstance(s, ast.AnnAssign):
        return _simple_target(s.target) and s.value is not None and _simple_expr(s.value)
    if isinstance(s, ast.If):
        return _simple_expr(s.test) and all(_simple_stmt(x) for x in (*s.body, *s.orelse))
    if isinstance(s, ast.Pass):
        return True
    return isinstance(s, ast.Expr) and (isinstance(s.value, ast.Constant) or _log_call(s.value))


def _log_call(e):
    """logger.info(...) and the like; whether the receiver is a logger is checked when it is called (see MergeAbort)."""
    if not (isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute)):
        return False
    v = e.func.value
    return (e.func.attr in ("debug", "info", "warning", "error") and (
        isinstance(v, ast.Name) and v.id in ("logger", "log") or
        isinstance(v, ast.Attribute) and isinstance(v.value, ast.Name) and v.value.id == "self" and v.attr == "_logger")
            and all(_simple_expr(a) for a in e.args) and not e.keywords)


def _merge_val(t, a, b):
    from .loops import same_val
    if a is b or same_val(a, b):
        return a
    ba, bb = isinstance(a, (bool, SBool)), isinstance(b, (bool, SBool))
    if ba and bb or (_is_num(a) and _is_num(b) and not ba and not bb and nptag(a) == nptag(b)):
        if ba or kind(a) == kind(b):
            return ite(t, a, b)
    if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
        return ite(t, a, b)
    raise MergeAbort


_NOVAL = object()


def _merge_maps(t, a, b):
    out = {}
    for k in [*a, *(x for x in b if x not in a)]:
        x, y = a.get(k, _NOVAL), b.get(k, _NOVAL)
        if x is _NOVAL or y is _NOVAL:
            raise MergeAbort
        out[k] = _merge_val(t, x, y)
    return out


def is_ghost(o):
    return type(o).__module__.split(".")[0] == "contracts"


class Cell:
    """Environment of a function activation."""

    def __init__(self, globs, parent=None, cls=None, name="?"):
        self.v = {}
        self.globs = globs
        self.parent = parent
        self.cls = cls
        self.name = name
        self.nonlocals = set()
        self.globalnames = set()
        self.yields = None
        self.self_arg = None
        self.assigned = set()

    def lookup(self, name):
        e = self
        while e is not None:
            if name in e.v:
                return e.v[name]
            e = e.parent
        if name in self.globs:
            return self.globs[name]
        if hasattr(builtins, name):
            return getattr(builtins, name)
        raise PyExc(NameError(f"name '{name}' is not defined"))

    def islocal(self, name):
        e = self
        while e is not None:
            if name in e.v:
                return True
            e = e.parent
        return False

    def store(self, name, val):
        if name in self.nonlocals:
            e = self.parent
            while e is not None:
                if name in e.v:
                    e.v[name] = val
                    return
                e = e.parent
        if name in self.globalnames:
            raise Unsupported("global store")
        self.v[name] = val


class Func:
    """Closure of the interpreted program (nested def / lambda)."""

    def __init__(self, node, env, defaults, kwdefaults, name):
        self.node = node
        self.env = env
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.__name__ = name


class Bound:
    def __init__(self, fn, obj, owner=None):
        self.fn = fn
        self.obj = obj
        self.owner = owner

    def __repr__(self):
        return f"<bound {self.fn} of {self.obj!r}>"


class SuperV:
    def __init__(self, cls, obj):
        self.cls = cls
        self.obj = obj


class Model:
    """Base of trusted models of external objects (h5py datasets, paths, ...)."""

    m_type = object

    def m_getattr(self, ip, name):
        fn = getattr(self, "a_" + name, None)
        if fn is not None:
            return fn(ip)
        fn = getattr(self, "c_" + name, None)
        if fn is not None:
            return ModelMethod(fn, name)
        raise Unsupported(f"{type(self).__name__}.{name}")

    def m_setattr(self, ip, name, v):
        raise Unsupported(f"set {type(self).__name__}.{name}")

    def m_truth(self, ip):
        return True


class ModelMethod:
    def __init__(self, fn, name):
        self.fn = fn
        self.__name__ = name


_AST_CACHE: dict = {}


def fn_node(fn):
    key = fn.__code__
    hit = _AST_CACHE.get(key)
    if hit is not None:
        return hit
    try:
        src = textwrap.dedent(inspect.getsource(fn.__code__))
    except (OSError, TypeError) as e:
        raise Unsupported(f"no source for {fn}") from e
    try:
        tree = ast.parse(src)
    except SyntaxError:
        tree = ast.parse("(" + src.strip().rstrip(",") + ")")
    node = None
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n.name == fn.__code__.co_name:
            node = n
            break
        if isinstance(n, ast.Lambda) and fn.__name__ == "<lambda>":
            node = n
            break
    if node is None:
        raise Unsupported(f"no AST for {fn}")
    _AST_CACHE[key] = node
    return node


def in_repo(fn):
    return str(fn.__globals__.get("__name__", "")).split(".")[0] in REPO_PKGS


def unwrap(fn):
    """Strip pydantic's validate_call and similar wrappers."""
    while True:
        if hasattr(fn, "raw_function"):
            fn = fn.raw_function
        elif hasattr(fn, "__wrapped__") and isinstance(fn, types.FunctionType) and not in_repo(fn):
            fn = fn.__wrapped__
        else:
            return fn


def _has_yield(node):
    st = list(node.body) if isinstance(node.body, list) else [node.body]
    while st:
        n = st.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.AsyncFunctionDef, ast.ClassDef)):
            continue
        st.extend(ast.iter_child_nodes(n))
    return False


_GEN_CACHE: dict = {}


def is_gen(node):
    k = id(node)
    if k not in _GEN_CACHE:
        _GEN_CACHE[k] = (_has_yield(node), node)
    return _GEN_CACHE[k][0]


_BIN = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**",
        ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^", ast.LShift: "<<", ast.RShift: ">>", ast.MatMult: "@"}
_CMP = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!="}

REPO_PKGS = ("shepherd_core", "shepherd_data")


class Interp:
    def __init__(self, c: Ctx, registry=None, target=None):
        self.c = c
        self.reg = registry
        self.target = target  # contract being verified (its function is never replaced by its contract)
        self.depth = 0
        self.used = set()      # contracts used at call sites
        self.inlined = set()   # repo functions inlined
        self.trusted = set()   # external models used
        self.steps = 0
        self.stubs = {}        # callee -> (ghost function, contract that justifies it)
        self.log = []          # ghost: logger calls
        self.world = {}        # ghost state of trusted models
        from . import intrinsics
        self.intr = intrinsics

    # ------------------------------------------------------------ helpers
    def raise_(self, exc):
        raise PyExc(exc)

    def truth(self, v) -> bool:
        """Python truthiness; forks on symbolic conditions."""
        t = self.truth_term(v)
        return t if isinstance(t, bool) else self.c.branch(t)

    def force(self, v):
        """Case split on an optional value."""
        if isinstance(v, SOpt):
            return None if self.truth(v.none) else v.v
        return v

    def truth_term(self, v):
        if isinstance(v, (bool, SBool)):
            return v
        if isinstance(v, SOpt):
            if self.c.spec:
                raise MergeAbort
            v = self.force(v)
        if v is None:
            return False
        if isinstance(v, SNum):
            return compare("!=", v, 0)
        if isinstance(v, Fraction):
            return v != 0
        if isinstance(v, SStr):
            return mkbool(z3.Length(v.t) > 0)
        if isinstance(v, SArr):
            if isinstance(v.n, int) and v.n == 1:
                return self.truth_term(v.get(0))
            raise PyExc(ValueError("truth value of an array is ambiguous"))
        if isinstance(v, SeqV):
            return compare(">", v.length(), 0)
        if isinstance(v, SObj):
            m = self.find_method(v.cls, "__bool__") or self.find_method(v.cls, "__len__")
            if m is None or issubclass(v.cls, BaseModel):
                return True
            return self.truth_term(self.call(m, [v], {}))
        if isinstance(v, Model):
            return v.m_truth(self)
        if isinstance(v, Opaque):
            raise Unsupported(f"truth of {v!r}")
        if isinstance(v, (Func, Bound, ModelMethod)):
            return True
        return bool(v)

    def find_method(self, cls, name):
        for k in cls.__mro__:
            if name in k.__dict__:
                return k.__dict__[name]
        return None

    # ---------------------------------------------------------- attributes
    def getattr(self, obj, name):
        obj = self.force(obj)
        if isinstance(obj, SObj):
            if name in obj.f:
                return obj.f[name]
            if name == "__class__":
                return obj.cls
            if name == "__dict__":
                return obj.f
            h = self.intr.sobj_attr(self, obj, name)
            if h is not NotImplemented:
                return h
            for k in obj.cls.__mro__:
                if name in k.__dict__:
                    return self.bind(k.__dict__[name], obj, k)
            m = self.find_method(obj.cls, "__getattr__")
            if m is not None and not issubclass(obj.cls, BaseModel):
                return self.call(m, [obj, name], {})
            raise PyExc(AttributeError(f"'{obj.cls.__name__}' object has no attribute '{name}'"))
        if isinstance(obj, SuperV):
            mro = (obj.obj.cls if isinstance(obj.obj, SObj) else obj.obj).__mro__
            i = mro.index(obj.cls)
            for k in mro[i + 1:]:
                if name in k.__dict__:
                    return self.bind(k.__dict__[name], obj.obj, k)
            raise PyExc(AttributeError(name))
        if isinstance(obj, Model):
            return obj.m_getattr(self, name)
        if isinstance(obj, (SArr, SeqV, SNum, SBool, SStr, Fraction, SymRange, Opaque)):
            return self.intr.value_attr(self, obj, name)
        if isinstance(obj, type) and any(obj.__module__.startswith(p) for p in REPO_PKGS):
            for k in obj.__mro__:
                if name in k.__dict__:
                    v = k.__dict__[name]
                    if isinstance(v, classmethod):
                        return Bound(v.__func__, obj, k)
                    if isinstance(v, staticmethod):
                        return v.__func__
                    if isinstance(v, types.FunctionType):
                        return v
                    break
        if isinstance(obj, (Func,)) or is_ghost(obj):
            return builtins.getattr(obj, name)
        if isinstance(obj, enum.Enum) and name in ("value", "name"):
            return lift(builtins.getattr(obj, name))
        if isinstance(obj, list) or isinstance(obj, dict) or isinstance(obj, (str, tuple, set, bytes)):
            if not hasattr(obj, name):
                raise PyExc(AttributeError(name))
            return Bound(name, obj)
        try:
            v = builtins.getattr(obj, name)
        except AttributeError as e:
            raise PyExc(e) from None
        return lift(v)

    def bind(self, v, obj, owner):
        if isinstance(v, property):
            return self.call(v.fget, [obj], {})
        if isinstance(v, staticmethod):
            return v.__func__
        if isinstance(v, classmethod):
            return Bound(v.__func__, obj.cls if isinstance(obj, SObj) else obj, owner)
        if isinstance(v, types.FunctionType):
            return Bound(v, obj, owner)
        if hasattr(v, "raw_function") or hasattr(v, "__wrapped__"):
            return Bound(v, obj, owner)
        return lift(v)

    def hasattr(self, obj, name):
        try:
            self.getattr(obj, name)
        except PyExc as e:
            if isinstance(e.exc, AttributeError):
                return False
            raise
        return True

    def setattr(self, obj, name, v):
        if isinstance(obj, SObj):
            if issubclass(obj.cls, BaseModel) and obj.cls.model_config.get("frozen"):
                raise PyExc(ValueError("frozen instance"))
            obj.f[name] = v
            return
        if isinstance(obj, Model):
            obj.m_setattr(self, name, v)
            return
        if isinstance(obj, logging.Logger):
            return
        if is_ghost(obj):
            builtins.setattr(obj, name, v)
            return
        raise Unsupported(f"setattr on {type(obj).__name__}")

    # --------------------------------------------------------------- calls
    def call(self, fn, args, kw):
        fn = self.force(fn)
        self.steps += 1
        if self.steps > 400000:
            raise Budget("steps")
        if isinstance(fn, Bound):
            if isinstance(fn.fn, str):
                if fn.fn not in ("append", "add", "insert", "get", "setdefault"):
                    args = [self.force(x) for x in args]
                return self.intr.method(self, fn.obj, fn.fn, args, kw)
            return self.call(fn.fn, [fn.obj, *args], kw)
        if isinstance(fn, ModelMethod):
            return fn.fn(self, *args, **kw)
        if isinstance(fn, Func):
            return self.call_node(fn.node, fn.env, fn.defaults, fn.kwdefaults, args, kw, fn.__name__, fn.env.globs, None)
        if isinstance(fn, Model):
            return fn.m_call(self, args, kw)
        if self.stubs:
            try:
                g = self.stubs.get(unwrap(fn) if not isinstance(fn, type) else fn)
            except TypeError:
                g = None
            if g is not None and g[2][0] > 0:
                g[2][0] -= 1
                g = None
            if g is not None:
                self.used.add(g[1])
                return g[0](*args, **kw)
        if isinstance(fn, type):
            return self.construct(fn, args, kw)
        fn0 = fn
        h = self.intr.lookup(fn)
        if h is not None:
            args, kw = [self.force(x) for x in args], {k: self.force(x) for k, x in kw.items()}
            return h(self, *args, **kw)
        if isinstance(fn, types.MethodType):
            return self.call(fn.__func__, [fn.__self__, *args], kw)
        if hasattr(fn, "raw_function"):
            from .pyd import validated_args
            args, kw = validated_args(self, fn, args, kw)
        fn = unwrap(fn)
        if isinstance(fn, functools_partial):
            return self.call(fn.func, [*map(lift, fn.args), *args], {**fn.keywords, **kw})
        h = self.intr.lookup(fn)
        if h is not None:
            return h(self, *args, **kw)
        if isinstance(fn, types.FunctionType):
            mod = fn.__module__ or ""
            if mod.split(".")[0] == "contracts":  # ghost function of a contract
                return fn(*args, **kw)
            if self.reg is not None:
                con = self.reg.for_function(fn)
                if con is not None and con is not self.target and con.modular:
                    return self.apply_contract(con, fn, args, kw)
            if mod.split(".")[0] in REPO_PKGS:
                self.inlined.add(f"{mod}.{fn.__qualname__}")
                return self.call_fn(fn, args, kw)
        r = self.intr.native_call(self, fn0, args, kw)
        if r is not NotImplemented:
            return r
        raise Unsupported(f"call of {getattr(fn, '__module__', '')}.{getattr(fn, '__qualname__', fn)!s}")

    def defining_class(self, fn):
        q = fn.__qualname__.split(".")
        if len(q) < 2 or q[-2] == "<locals>":
            return None
        o = fn.__globals__.get(q[0])
        for p in q[1:-1]:
            o = builtins.getattr(o, p, None)
        return o if isinstance(o, type) else None

    def call_fn(self, fn, args, kw):
        fn = unwrap(fn)
        node = fn_node(fn)
        defaults = [lift(d) for d in (fn.__defaults__ or ())]
        kwd = {k: lift(v) for k, v in (fn.__kwdefaults__ or {}).items()}
        env = None
        if fn.__closure__:
            env = Cell(fn.__globals__)
            for nme, cell in zip(fn.__code__.co_freevars, fn.__closure__):
                try:
                    env.v[nme] = cell.cell_contents
                except ValueError:
                    pass
        return self.call_node(node, env, defaults, kwd, args, kw, fn.__qualname__, fn.__globals__, self.defining_class(fn))

    def bind_args(self, node, defaults, kwdefaults, args, kw, name):
        a = node.args
        pos = [x.arg for x in [*a.posonlyargs, *a.args]]
        out = {}
        args = list(args)
        if len(args) > len(pos) and a.vararg is None:
            raise PyExc(TypeError(f"{name}() takes {len(pos)} positional arguments but {len(args)} were given"))
        for p, v in zip(pos, args):
            out[p] = v
        if a.vararg is not None:
            out[a.vararg.arg] = tuple(args[len(pos):])
        kw = dict(kw)
        for p in pos[len(args):] + [x.arg for x in a.kwonlyargs]:
            if p in kw:
                out[p] = kw.pop(p)
        for k in list(kw):
            if k in out:
                raise PyExc(TypeError(f"{name}() got multiple values for argument '{k}'"))
        if kw:
            if a.kwarg is None:
                raise PyExc(TypeError(f"{name}() got an unexpected keyword argument '{next(iter(kw))}'"))
        if a.kwarg is not None:
            out[a.kwarg.arg] = kw
        nd = len(defaults)
        for i, p in enumerate(pos):
            if p not in out:
                j = i - (len(pos) - nd)
                if j < 0:
                    raise PyExc(TypeError(f"{name}() missing required argument '{p}'"))
                out[p] = defaults[j]
        for x in a.kwonlyargs:
            if x.arg not in out:
                if x.arg not in kwdefaults:
                    raise PyExc(TypeError(f"{name}() missing keyword argument '{x.arg}'"))
                out[x.arg] = kwdefaults[x.arg]
        return out

    def call_node(self, node, env, defaults, kwdefaults, args, kw, name, globs, cls):
        if self.depth > 60:
            raise Unsupported("recursion depth")
        cell = Cell(globs, env, cls, name)
        cell.v.update(self.bind_args(node, defaults, kwdefaults, args, kw, name))
        cell.self_arg = args[0] if args else None
        if isinstance(node, ast.Lambda):
            return self.eval(node.body, cell)
        gen = is_gen(node)
        if gen:
            cell.yields = SeqV()
        self.depth += 1
        try:
            self.block(node.body, cell)
            ret = None
        except ReturnSig as r:
            ret = r.v
        finally:
            self.depth -= 1
        if gen:
            return cell.yields
        return ret

    def construct(self, cls, args, kw):
        h = self.intr.ctor(cls)
        if h is not None:
            return h(self, cls, *map(self.force, args), **kw)
        if issubclass(cls, BaseException):
            try:
                return cls(*[a if is_concrete(a) else repr(a) for a in map(_low, args)])
            except TypeError:
                return cls()
        if issubclass(cls, enum.Enum):
            return self.intr.enum_ctor(self, cls, *args)
        if issubclass(cls, BaseModel):
            from .pyd import construct_model
            return construct_model(self, cls, kw)
        if cls.__module__.split(".")[0] in REPO_PKGS:
            o = SObj(cls)
            init = self.find_method(cls, "__init__")
            if init is not None and init is not object.__init__:
                self.call(init, [o, *args], kw)
            return o
        r = self.intr.native_call(self, cls, args, kw)
        if r is not NotImplemented:
            return r
        raise Unsupported(f"construct {cls}")

    def apply_contract(self, con, fn, args, kw):
        self.used.add(con.name)
        node = fn_node(fn)
        defaults = [lift(d) for d in (fn.__defaults__ or ())]
        kwd = {k: lift(v) for k, v in (fn.__kwdefaults__ or {}).items()}
        b = self.bind_args(node, defaults, kwd, args, kw, fn.__qualname__)
        return con.apply(self, b)

    # --------------------------------------------------------- statements
    def block(self, stmts, env):
        for s in stmts:
            self.stmt(s, env)

    def stmt(self, s, env):
        self.steps += 1
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(s).__name__} line {s.lineno} in {env.name}")
        m(s, env)

    def s_Expr(self, s, env):
        if self.c.spec and _log_call(s.value):
            if not isinstance(self.eval(s.value.func.value, env), logging.Logger):
                raise MergeAbort
            for a in s.value.args:
                self.eval(a, env)
            return
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value, env)

    def s_Pass(self, s, env):
        pass

    def s_Return(self, s, env):
        raise ReturnSig(self.eval(s.value, env) if s.value is not None else None)

    def s_Assign(self, s, env):
        v = self.eval(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, env), env)

    def s_AugAssign(self, s, env):
        op = _BIN[type(s.op)]
        t = s.target
        if isinstance(t, ast.Name):
            cur = env.lookup(t.id)
            env.store(t.id, self.inplace(op, cur, self.eval(s.value, env)))
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            cur = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.inplace(op, cur, self.eval(s.value, env)))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            k = self.eval_index(t.slice, env)
            cur = self.getitem(o, k)
            self.setitem(o, k, self.inplace(op, cur, self.eval(s.value, env)))
        else:
            raise Unsupported("augassign")

    def inplace(self, op, cur, v):
        if self.c.spec and not (_is_num(cur) or isinstance(cur, (str, SStr))):
            raise MergeAbort
        if isinstance(cur, list) and op == "+":
            cur.extend(self.concrete_iter(v))
            return cur
        if isinstance(cur, SeqV) and op == "+":
            cur.extend_seq(as_seq(self, v))
            return cur
        if isinstance(cur, SArr):
            new = self.binop(op, cur, v)
            cur.assign_all(new)
            return cur
        return self.binop(op, cur, v)

    def s_If(self, s, env):
        t = self.truth_term(self.eval(s.test, env))
        if isinstance(t, SBool) and not env.nonlocals and not env.globalnames and self.merge_stmt(s) and self.try_merge(t, s, env):
            return
        if t if isinstance(t, bool) else self.c.branch(t):
            self.block(s.body, env)
        else:
            self.block(s.orelse, env)

    # ------------------------------------------------- merging of both sides
    def merge_stmt(self, s):
        """Only straight assignments to names and attributes, without calls that could do anything else."""
        k = s.__dict__.get("_mergeable")
        if k is None:
            k = s._mergeable = all(_simple_stmt(x) for x in (*s.body, *s.orelse))
        return k

    def merge_expr(self, *es):
        return all(_simple_expr(e) for e in es)

    def merge_rec(self, t, attempt):
        """Runs attempt() speculatively; the outcome is part of the recorded decisions. None: not merged."""
        c = self.c
        if not c.opts.get("merge", True) or c.loopvars:
            return None
        ts = z3.simplify(bterm(t))
        if z3.is_true(ts) or z3.is_false(ts):
            return None
        if c.spec:
            return attempt()
        d = c.dec
        known = None
        if d.replaying:
            known = d.prefix[len(d.trace)]
            d.trace.append(known)
            if known == "n":
                return None
            if known != "m":
                raise Budget("replay out of step")
        names = dict(c.names)
        try:
            r = attempt()
        except (MergeAbort, PyExc, Unsupported, Infeasible):
            c.names = names
            if known:
                raise Budget("merge not reproducible") from None
            d.trace.append("n")
            return None
        if not known:
            d.trace.append("m")
        return r

    def try_merge(self, t, s, env):
        def attempt():
            objs = {}
            for n in ast.walk(s):
                if isinstance(n, ast.Name):
                    try:
                        o = env.lookup(n.id)
                    except PyExc:
                        continue
                    if isinstance(o, SObj):
                        objs[id(o)] = o
            objs = list(objs.values())
            v0, f0 = dict(env.v), [dict(o.f) for o in objs]

            def restore():
                env.v.clear()
                env.v.update(v0)
                for o, f in zip(objs, f0):
                    o.f.clear()
                    o.f.update(f)
            sides = []
            try:
                for cond, blk in ((t, s.body), (Not(t), s.orelse)):
                    with self.c.under(cond, spec=True):
                        try:
                            self.block(blk, env)
                        except (PyExc, Infeasible, Unsupported):
                            raise MergeAbort from None
                    sides.append((dict(env.v), [dict(o.f) for o in objs]))
                    restore()
                (va, fa), (vb, fb) = sides
                nv = _merge_maps(t, va, vb)
                nf = [_merge_maps(t, a, b) for a, b in zip(fa, fb)]
            except MergeAbort:
                restore()
                raise
            env.v.clear()
            env.v.update(nv)
            for o, f in zip(objs, nf):
                o.f.clear()
                o.f.update(f)
            return True
        return self.merge_rec(t, attempt)

    def s_While(self, s, env):
        n = 0
        while True:
            t = self.truth_term(self.eval(s.test, env))
            if not isinstance(t, bool):
                if n >= self.c.opts.get("unroll", 0):
                    h = self.intr.while_rule(self, s, env)
                    if h is NotImplemented:
                        raise Unsupported(f"while loop with symbolic condition, line {s.lineno} in {env.name}")
                    return
                t = self.c.branch(t)
            elif n == 0 and t is True and isinstance(s.test, ast.Constant):
                h = self.intr.while_rule(self, s, env)
                if h is not NotImplemented:
                    return
            if not t:
                break
            n += 1
            if n > 2000:
                raise Unsupported("while loop: too many iterations")
            try:
                self.block(s.body, env)
            except BreakSig:
                return
            except ContinueSig:
                continue
        self.block(s.orelse, env)

    def s_For(self, s, env):
        from .loops import for_loop
        for_loop(self, s, env)

    def s_Break(self, s, env):
        raise BreakSig

    def s_Continue(self, s, env):
        raise ContinueSig

    def s_Raise(self, s, env):
        if s.exc is None:
            cur = env
            while cur is not None:
                if "__exc__" in cur.v:
                    raise PyExc(cur.v["__exc__"])
                cur = cur.parent
            raise PyExc(RuntimeError("No active exception to reraise"))
        e = self.eval(s.exc, env)
        if isinstance(e, type):
            e = self.construct(e, [], {})
        if s.cause is not None:
            self.eval(s.cause, env)
        if not isinstance(e, BaseException):
            raise PyExc(TypeError("exceptions must derive from BaseException"))
        raise PyExc(e, f"line {s.lineno} in {env.name}")

    def s_Assert(self, s, env):
        if not self.truth(self.eval(s.test, env)):
            raise PyExc(AssertionError())

    def s_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                env.v.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, env)
                k = self.eval_index(t.slice, env)
                if isinstance(o, (dict, list)) and is_concrete(k):
                    try:
                        del o[k]
                    except (KeyError, IndexError) as e:
                        raise PyExc(e) from None
                elif isinstance(o, Model) and hasattr(o, "m_delitem"):
                    o.m_delitem(self, k)
                else:
                    raise Unsupported("del")
            else:
                raise Unsupported("del")

    def s_FunctionDef(self, s, env):
        defaults = [self.eval(d, env) for d in s.args.defaults]
        kwd = {a.arg: self.eval(d, env) for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults) if d is not None}
        f = Func(s, env, defaults, kwd, s.name)
        for d in reversed(s.decorator_list):
            dv = self.eval(d, env)
            f = self.call(dv, [f], {})
        env.store(s.name, f)

    def s_Nonlocal(self, s, env):
        env.nonlocals.update(s.names)

    def s_Global(self, s, env):
        env.globalnames.update(s.names)

    def s_Import(self, s, env):
        for a in s.names:
            top = a.name.split(".")[0]
            m = __import__(a.name)
            env.store(a.asname or top, m)

    def s_ImportFrom(self, s, env):
        import importlib
        pkg = env.globs.get("__package__")
        m = importlib.import_module("." * s.level + (s.module or ""), pkg)
        for a in s.names:
            env.store(a.asname or a.name, getattr(m, a.name))

    def s_With(self, s, env):
        self.with_items(s.items, s.body, env)

    def with_items(self, items, body, env):
        if not items:
            self.block(body, env)
            return
        it = items[0]
        cm = self.eval(it.context_expr, env)
        val, exit_ = self.intr.enter_cm(self, cm)
        if it.optional_vars is not None:
            self.assign(it.optional_vars, val, env)
        try:
            self.with_items(items[1:], body, env)
        except PyExc as e:
            if exit_(self, e.exc):
                return
            raise
        except (ReturnSig, BreakSig, ContinueSig):
            exit_(self, None)
            raise
        exit_(self, None)

    def s_Try(self, s, env):
        try:
            try:
                self.block(s.body, env)
            except PyExc as e:
                for h in s.handlers:
                    if h.type is None:
                        match = True
                    else:
                        ts = self.eval(h.type, env)
                        ts = ts if isinstance(ts, tuple) else (ts,)
                        match = any(isinstance(e.exc, t) for t in ts)
                    if match:
                        if h.name:
                            env.v[h.name] = e.exc
                        old = env.v.get("__exc__")
                        env.v["__exc__"] = e.exc
                        try:
                            self.block(h.body, env)
                        finally:
                            env.v.pop("__exc__", None)
                            if old is not None:
                                env.v["__exc__"] = old
                        break
                else:
                    raise
            else:
                self.block(s.orelse, env)
        except (PyExc, ReturnSig, BreakSig, ContinueSig):
            if s.finalbody:
                self.block(s.finalbody, env)
            raise
        else:
            self.block(s.finalbody, env)

    # ---------------------------------------------------------- assignment
    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            env.store(t.id, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            self.setitem(o, self.eval_index(t.slice, env), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.concrete_iter(v)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                rest = len(t.elts) - i - 1
                if len(vals) < len(t.elts) - 1:
                    raise PyExc(ValueError("not enough values to unpack"))
                parts = [*vals[:i], list(vals[i:len(vals) - rest]), *vals[len(vals) - rest:]]
                for e, x in zip(t.elts, parts):
                    self.assign(e.value if isinstance(e, ast.Starred) else e, x, env)
                return
            if len(vals) != len(t.elts):
                raise PyExc(ValueError("unpack mismatch"))
            for e, x in zip(t.elts, vals):
                self.assign(e, x, env)
        else:
            raise Unsupported("assign target")

    # --------------------------------------------------------- expressions
    def eval(self, e, env):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__} line {getattr(e, 'lineno', '?')}")
        return m(e, env)

    def e_Constant(self, e, env):
        if isinstance(e.value, float):
            return frac(e.value)
        return e.value

    def e_Name(self, e, env):
        v = env.lookup(e.id)
        return self.lift_global(v) if type(v) in (dict, list) and not env.islocal(e.id) else lift(v) if type(v) not in (dict, list) else v

    def lift_global(self, v):
        """Module level containers: one engine copy per path, so that aliasing and updates stay visible."""
        g = self.__dict__.setdefault("globcopies", {})
        if id(v) not in g:
            g[id(v)] = (v, lift(v))
        return g[id(v)][1]

    def e_Attribute(self, e, env):
        return self.getattr(self.eval(e.value, env), e.attr)

    def e_Tuple(self, e, env):
        return tuple(self.elts(e.elts, env))

    def e_List(self, e, env):
        return self.elts(e.elts, env)

    def e_Set(self, e, env):
        v = self.elts(e.elts, env)
        return self.intr.make_set(self, v)

    def elts(self, elts, env):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.concrete_iter(self.eval(x.value, env)))
            else:
                out.append(self.eval(x, env))
        return out

    def e_Dict(self, e, env):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                src = self.eval(v, env)
                if not isinstance(src, dict):
                    raise Unsupported("dict unpack")
                d.update(src)
            else:
                kk = self.eval(k, env)
                vv = self.eval(v, env)
                self.dict_set(d, kk, vv)
        return d

    def dict_set(self, d, k, v):
        if isinstance(k, Fraction):
            k = _fracset(k)
        if isinstance(k, (SVal, SObj)):
            k = self.resolve_key(d, k, insert=True)
        d[k] = v

    def resolve_key(self, d, k, insert=False):
        """Symbolic key against concrete keys: fork on equality."""
        for kk in list(d):
            same = self.eq_term(kk if not isinstance(kk, KeyBox) else kk.v, k)
            if self.truth(same):
                return kk
        if insert:
            return KeyBox(k)
        return None

    def e_JoinedStr(self, e, env):
        parts = []
        sym = False
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
                continue
            x = self.eval(v.value, env)
            spec = ""
            if v.format_spec is not None:
                spec = self.eval(v.format_spec, env)
            s = self.intr.to_str(self, x, spec if isinstance(spec, str) else "", v.conversion)
            if not isinstance(s, str):
                sym = True
            parts.append(s)
        if not sym:
            return "".join(parts)
        return self.intr.str_concat(self, parts)

    def e_FormattedValue(self, e, env):
        return self.intr.to_str(self, self.eval(e.value, env), "", e.conversion)

    def e_BinOp(self, e, env):
        a = self.eval(e.left, env)
        b = self.eval(e.right, env)
        return self.binop(_BIN[type(e.op)], a, b)

    def binop(self, op, a, b):
        if isinstance(a, SArr) or isinstance(b, SArr):
            return arr_binop(self, op, a, b)
        if _is_num(a) and _is_num(b):
            return self.num_binop(op, a, b)
        r = self.intr.binop(self, op, a, b)
        if r is not NotImplemented:
            return r
        raise Unsupported(f"binop {type(a).__name__} {op} {type(b).__name__}")

    def num_binop(self, op, a, b):
        if isinstance(a, float):
            a = frac(a)
        if isinstance(b, float):
            b = frac(b)
        if op in ("+", "-", "*"):
            return arith(op, a, b)
        if op in ("/", "//", "%"):
            z = compare("==", b, 0)
            if nptag(a) or nptag(b):
                if self.truth(z):
                    raise Unsupported("numpy division by zero")
            elif self.truth(z):
                raise PyExc(ZeroDivisionError("division by zero"))
            return arith(op, a, b)
        if op == "**":
            return self.power(a, b)
        if op == "&" or op == "|" or op == "^":
            if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
                if op == "&":
                    return And(a, b)
                if op == "|":
                    return Or(a, b)
                return mkbool(z3.Xor(bterm(a), bterm(b)))
            return self.bitop(op, a, b)
        if op in ("<<", ">>"):
            if isinstance(b, bool):
                b = int(b)
            if isinstance(b, int):
                if isinstance(a, int):
                    return a << b if op == "<<" else a >> b
                if b < 0:
                    raise PyExc(ValueError("negative shift count"))
                return arith("*" if op == "<<" else "//", a, 2**b)
            if isinstance(b, SNum) and b.k == "int":
                k = self.c.pinned(b)
                if k is not None:
                    return self.num_binop(op, a, k)
                if self.truth(compare("<", b, 0)):
                    raise PyExc(ValueError("negative shift count"))
                return arith("*" if op == "<<" else "//", a, self.pow2(b))
            raise Unsupported("symbolic shift")
        raise Unsupported(f"num op {op}")

    def power(self, a, b):
        if isinstance(b, (int, Fraction)) and Fraction(b).denominator == 1:
            n = int(b)
            fl = kind(a) == "float" or kind(b) == "float"
            if isinstance(a, (int, Fraction)):
                if n < 0:
                    if a == 0:
                        raise PyExc(ZeroDivisionError())
                    return Fraction(a) ** n
                return Fraction(a) ** n if fl else a**n
            if n < 0:
                if self.truth(compare("==", a, 0)):
                    raise PyExc(ZeroDivisionError())
                return arith("/", 1, self.power(a, -n))
            r = Fraction(1) if fl else 1
            for _ in range(n):
                r = arith("*", r, a)
            return r
        if isinstance(b, (Fraction,)) and b == Fraction(1, 2):
            if self.truth(compare("<", a, 0)):
                return Opaque(complex, "complex root")
            return num_sqrt(a)
        if isinstance(a, int) and a == 2 and isinstance(b, SNum) and b.k == "int":
            k = self.c.pinned(b)
            return self.pow2(b) if k is None else self.power(a, k)
        raise Unsupported(f"power {a} ** {b}")

    def pow2(self, b):
        return num_pow2(b)

    def bitop(self, op, a, b):
        a = int(a) if isinstance(a, bool) else a
        b = int(b) if isinstance(b, bool) else b
        if isinstance(a, int) and isinstance(b, int):
            return {"&": a & b, "|": a | b, "^": a ^ b}[op]
        if isinstance(a, int):
            a, b = b, a
        if isinstance(b, int) and op == "&":
            if b < 0:
                raise Unsupported("negative mask")
            t = nterm(a)
            out = None
            i = 0
            while b >> i:
                # runs of ones: (a div 2^i) mod 2^len * 2^i
                if (b >> i) & 1:
                    ln = 0
                    while (b >> (i + ln)) & 1:
                        ln += 1
                    part = ((t / z3.IntVal(2**i)) % z3.IntVal(2**ln)) * z3.IntVal(2**i)
                    out = part if out is None else out + part
                    i += ln
                else:
                    i += 1
            return mknum(z3.simplify(out) if out is not None else z3.IntVal(0), "int", nptag(a))
        if isinstance(b, int) and op in ("|", "^"):
            m = self.bitop("&", a, b)
            r = arith("+", a, b)
            r = arith("-", r, m)
            if op == "^":
                r = arith("-", r, m)
            return r
        raise Unsupported(f"bit op {op}")

    def e_UnaryOp(self, e, env):
        v = self.eval(e.operand, env)
        if isinstance(e.op, ast.Not):
            return Not(self.truth_term(v))
        if isinstance(v, SArr):
            return arr_unary(self, type(e.op).__name__, v)
        if isinstance(e.op, ast.USub):
            return arith("-", 0, v) if not isinstance(v, (int, Fraction)) else -v
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert) and isinstance(v, int) and not isinstance(v, bool):
            return ~v
        if isinstance(e.op, ast.Invert) and isinstance(v, SNum):
            return arith("-", -1, v)
        raise Unsupported("unary")

    def e_BoolOp(self, e, env):
        is_and = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.eval(x, env)
            if i == len(e.values) - 1:
                return v
            if isinstance(v, SBool) and self.merge_expr(*e.values[i + 1:]):
                def attempt(v=v, rest=e.values[i + 1:]):
                    with self.c.under(v if is_and else Not(v), spec=True):
                        try:
                            w = self.e_BoolOp(ast.BoolOp(e.op, rest), env) if len(rest) > 1 else self.eval(rest[0], env)
                        except (PyExc, Infeasible, Unsupported):
                            raise MergeAbort from None
                    if not isinstance(w, (bool, SBool)):
                        raise MergeAbort
                    return (And if is_and else Or)(v, w)
                r = self.merge_rec(v, attempt)
                if r is not None:
                    return r
            t = self.truth(v)
            if is_and and not t:
                return v if not isinstance(v, (SBool,)) else False
            if not is_and and t:
                return v if not isinstance(v, (SBool,)) else True
        return v

    def e_IfExp(self, e, env):
        t = self.truth_term(self.eval(e.test, env))
        if isinstance(t, SBool) and self.merge_expr(e.body, e.orelse):
            def attempt():
                out = []
                for cond, x in ((t, e.body), (Not(t), e.orelse)):
                    with self.c.under(cond, spec=True):
                        try:
                            out.append(self.eval(x, env))
                        except (PyExc, Infeasible, Unsupported):
                            raise MergeAbort from None
                return (_merge_val(t, *out),)
            r = self.merge_rec(t, attempt)
            if r is not None:
                return r[0]
        if t if isinstance(t, bool) else self.c.branch(t):
            return self.eval(e.body, env)
        return self.eval(e.orelse, env)

    def e_NamedExpr(self, e, env):
        v = self.eval(e.value, env)
        self.assign(e.target, v, env)
        return v

    def e_Lambda(self, e, env):
        return Func(e, env, [self.eval(d, env) for d in e.args.defaults],
                    {a.arg: self.eval(d, env) for a, d in zip(e.args.kwonlyargs, e.args.kw_defaults) if d is not None},
                    "<lambda>")

    def e_Compare(self, e, env):
        a = self.eval(e.left, env)
        res = True
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            b = self.eval(r, env)
            x = self.cmp(op, a, b)
            if len(e.ops) == 1:
                return x
            res = And(res, self.truth_term(x))
            if res is False:
                return False
            a = b
        return res

    def cmp(self, op, a, b):
        if isinstance(op, ast.Is):
            return self.is_(a, b)
        if isinstance(op, ast.IsNot):
            return Not(self.is_(a, b))
        if isinstance(op, ast.In):
            return self.contains(b, a)
        if isinstance(op, ast.NotIn):
            return Not(self.contains(b, a))
        o = _CMP[type(op)]
        return self.cmpop(o, a, b)

    def cmpop(self, o, a, b):
        if o not in ("==", "!="):
            a, b = self.force(a), self.force(b)
        if isinstance(a, SArr) or isinstance(b, SArr):
            return arr_compare(self, o, a, b)
        if _is_num(a) and _is_num(b):
            if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)) and o in ("==", "!="):
                r = Iff(a, b)
                return r if o == "==" else Not(r)
            return compare(o, a, b)
        if o == "==":
            return self.eq_term(a, b)
        if o == "!=":
            return Not(self.eq_term(a, b))
        if (a is None or b is None) and not isinstance(a, Opaque) and not isinstance(b, Opaque):
            raise PyExc(TypeError(f"'{o}' not supported"))
        r = self.intr.order(self, o, a, b)
        if r is not NotImplemented:
            return r
        if is_concrete(a) and is_concrete(b):
            import operator
            f = {"<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge}[o]
            try:
                return f(a, b)
            except TypeError as x:
                raise PyExc(x) from None
        raise Unsupported(f"compare {type(a).__name__} {o} {type(b).__name__}")

    def is_(self, a, b):
        if isinstance(a, KeyBox):
            a = a.v
        if isinstance(a, SOpt) and b is None:
            return a.none
        if isinstance(b, SOpt) and a is None:
            return b.none
        a, b = self.force(a), self.force(b)
        if a is None or b is None:
            return a is b
        if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
            return Iff(a, b)
        if isinstance(a, (SVal,)) or isinstance(b, (SVal,)):
            if a is b:
                return True
            if isinstance(a, enum.Enum) or isinstance(b, enum.Enum):
                return self.eq_term(a, b)
            raise Unsupported("is on symbolic values")
        return a is b

    def eq_term(self, a, b):
        """a == b as bool/SBool."""
        if isinstance(a, KeyBox):
            a = a.v
        if isinstance(b, KeyBox):
            b = b.v
        if a is b:
            return True
        if isinstance(a, SOpt) or isinstance(b, SOpt):
            if isinstance(a, SOpt) and isinstance(b, SOpt):
                return Or(And(a.none, b.none), And(Not(a.none), Not(b.none), self.truth_term(self.eq_term(a.v, b.v))))
            o, x = (a, b) if isinstance(a, SOpt) else (b, a)
            return o.none if x is None else And(Not(o.none), self.truth_term(self.eq_term(o.v, x)))
        if _is_num(a) and _is_num(b):
            return self.cmpop("==", a, b)
        if isinstance(a, (SStr, str)) and isinstance(b, (SStr, str)) and (isinstance(a, SStr) or isinstance(b, SStr)):
            return mkbool(z3.simplify(strterm(a) == strterm(b)))
        if isinstance(a, Model):
            return a.m_eq(self, b)
        if isinstance(b, Model):
            return b.m_eq(self, a)
        if isinstance(a, SObj) and isinstance(b, SObj):
            m = self.find_method(a.cls, "__eq__")
            if issubclass(a.cls, BaseModel):
                if a.cls is not b.cls:
                    return False
                return And(*[self.truth_term(self.eq_term(a.f[k], b.f[k])) for k in a.cls.model_fields])
            if m is None or m is object.__eq__:
                return False
            return self.truth_term(self.call(m, [a, b], {}))
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if type(a) is not type(b) or len(a) != len(b):
                return False
            return And(*[self.truth_term(self.eq_term(x, y)) for x, y in zip(a, b)])
        if isinstance(a, dict) and isinstance(b, dict):
            if set(a) != set(b):
                if any(isinstance(k, KeyBox) for k in [*a, *b]):
                    raise Unsupported("dict == with symbolic keys")
                return False
            return And(*[self.truth_term(self.eq_term(a[k], b[k])) for k in a])
        r = self.intr.eq(self, a, b)
        if r is not NotImplemented:
            return r
        if isinstance(a, (SVal, SObj)) or isinstance(b, (SVal, SObj)):
            if isinstance(a, Opaque) or isinstance(b, Opaque):
                raise Unsupported("== on opaque")
            return False
        try:
            return bool(a == b)
        except Exception as x:  # noqa: BLE001
            raise Unsupported(f"== {x}") from None

    def contains(self, cont, x):
        cont = self.force(cont)
        if isinstance(cont, Model):
            return cont.m_contains(self, x)
        if isinstance(cont, dict):
            return Or(*[self.truth_term(self.eq_term(k, x)) for k in cont]) if not is_hashable_concrete(x) or any(
                isinstance(k, KeyBox) for k in cont) else x in cont
        if isinstance(cont, (list, tuple, set, frozenset)):
            return Or(*[self.truth_term(self.eq_term(k, x)) for k in cont])
        if isinstance(cont, str) and isinstance(x, str):
            return x in cont
        if isinstance(cont, (str, SStr)) and isinstance(x, (str, SStr)):
            if isinstance(cont, SStr) and isinstance(x, str):
                from .textm import within_lower
                r = within_lower(x, cont.t)
                if r is not None:
                    return r
            return mkbool(z3.Contains(strterm(cont), strterm(x)))
        if isinstance(cont, (SeqV, SArr, SymRange)):
            from .loops import seq_contains
            return seq_contains(self, cont, x)
        if isinstance(cont, range) and isinstance(x, int):
            return x in cont
        if isinstance(cont, SObj):
            m = self.find_method(cont.cls, "__contains__")
            if m is not None:
                return self.truth_term(self.call(m, [cont, x], {}))
        if is_concrete(cont) and is_concrete(x):
            try:
                return lower(x) in cont
            except TypeError as xx:
                raise PyExc(xx) from None
        raise Unsupported(f"{type(x).__name__} in {type(cont).__name__}")

    def e_Call(self, e, env):
        # zero-arg super
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            ee = env
            while ee is not None and ee.cls is None:
                ee = ee.parent
            if ee is None:
                raise Unsupported("super() outside class")
            return SuperV(ee.cls, ee.self_arg)
        fn = self.eval(e.func, env)
        args = self.elts(e.args, env)
        kw = {}
        for k in e.keywords:
            v = self.eval(k.value, env)
            if k.arg is None:
                if isinstance(v, dict):
                    kw.update(v)
                else:
                    raise Unsupported("** of non-dict")
            else:
                kw[k.arg] = v
        return self.call(fn, args, kw)

    def eval_index(self, s, env):
        if isinstance(s, ast.Slice):
            return slice(*(self.eval(x, env) if x is not None else None for x in (s.lower, s.upper, s.step)))
        if isinstance(s, ast.Tuple):
            return tuple(self.eval_index(x, env) for x in s.elts)
        return self.eval(s, env)

    def e_Subscript(self, e, env):
        return self.getitem(self.eval(e.value, env), self.eval_index(e.slice, env))

    def e_Slice(self, e, env):
        return self.eval_index(e, env)

    def getitem(self, o, k):
        o, k = self.force(o), self.force(k)
        if isinstance(o, Model):
            return o.m_getitem(self, k)
        if isinstance(o, SObj):
            m = self.find_method(o.cls, "__getitem__")
            if m is None:
                raise PyExc(TypeError("not subscriptable"))
            return self.call(m, [o, k], {})
        if isinstance(o, dict):
            if isinstance(k, (SVal, SObj)) or any(isinstance(x, KeyBox) for x in o):
                kk = self.resolve_key(o, k)
                if kk is None:
                    raise PyExc(KeyError(repr(k)))
                return o[kk]
            if isinstance(k, Fraction) and k.denominator == 1:
                k = int(k)
            try:
                return o[k]
            except KeyError as x:
                raise PyExc(x) from None
            except TypeError as x:
                raise PyExc(x) from None
        if isinstance(o, (SArr, SeqV, SymRange)):
            from .arrays import seq_getitem
            return seq_getitem(self, o, k)
        if isinstance(o, (list, tuple, str, bytes)):
            if isinstance(k, slice):
                if is_concrete(k.start) and is_concrete(k.stop) and is_concrete(k.step):
                    return o[k]
                from .arrays import seq_getitem
                return seq_getitem(self, as_seq(self, o), k)
            if isinstance(k, SBool):
                k = SNum(nterm(k), "int")
            if isinstance(k, SNum):
                return self.sym_index(o, k)
            if isinstance(k, Fraction):
                raise PyExc(TypeError("indices must be integers"))
            try:
                return o[k]
            except (IndexError, TypeError) as x:
                raise PyExc(x) from None
        if isinstance(o, type) and issubclass(o, enum.Enum):
            return self.intr.enum_item(self, o, k)
        if isinstance(o, type) or getattr(o, "__module__", "") == "typing":
            return o
        if is_concrete(o) and is_concrete(k):
            try:
                return lift(o[lower(k)])
            except Exception as x:  # noqa: BLE001
                raise PyExc(x) from None
        raise Unsupported(f"getitem {type(o).__name__}[{type(k).__name__}]")

    def sym_index(self, o, k):
        if k.k != "int":
            raise PyExc(TypeError("indices must be integers"))
        n = len(o)
        if self.truth(Not(And(compare(">=", k, -n), compare("<", k, n)))):
            raise PyExc(IndexError("list index out of range"))
        if self.c.quick_valid(k.t >= 0):
            idx = [(i, compare("==", k, i)) for i in range(n)]
        else:
            idx = [(i, Or(compare("==", k, i), compare("==", k, i - n))) for i in range(n)]
        return self.merge_cases([(c, o[i]) for i, c in idx])

    def merge_cases(self, cases):
        """ite-chain over alternatives; structured values merged element-wise; falls back to forking."""
        vals = [v for _, v in cases]
        v0 = vals[0]
        if all(_is_num(v) for v in vals) or all(isinstance(v, (str, SStr)) for v in vals):
            r = vals[-1]
            for c, v in reversed(cases[:-1]):
                r = ite(c, v, r)
            return r
        if all(isinstance(v, list) for v in vals) and len({len(v) for v in vals}) == 1:
            return [self.merge_cases([(c, v[j]) for c, v in cases]) for j in range(len(v0))]
        if all(v is v0 for v in vals):
            return v0
        for c, v in cases[:-1]:
            if self.truth(c):
                return v
        return vals[-1]

    def setitem(self, o, k, v):
        if isinstance(o, Model):
            o.m_setitem(self, k, v)
            return
        if isinstance(o, SObj):
            m = self.find_method(o.cls, "__setitem__")
            if m is None:
                raise PyExc(TypeError("no item assignment"))
            self.call(m, [o, k, v], {})
            return
        if isinstance(o, dict):
            self.dict_set(o, k, v)
            return
        if isinstance(o, SArr):
            from .arrays import arr_setitem
            arr_setitem(self, o, k, v)
            return
        if isinstance(o, list):
            if isinstance(k, (int, slice)) and is_concrete(k):
                try:
                    o[k] = v
                except IndexError as x:
                    raise PyExc(x) from None
                return
            if isinstance(k, SNum):
                for i in range(len(o)):
                    if self.truth(Or(compare("==", k, i), compare("==", k, i - len(o)))):
                        o[i] = v
                        return
                raise PyExc(IndexError())
        raise Unsupported(f"setitem on {type(o).__name__}")

    # ------------------------------------------------------- comprehension
    def e_ListComp(self, e, env):
        from .loops import comprehension
        return comprehension(self, e, env, "list")

    def e_GeneratorExp(self, e, env):
        from .loops import comprehension
        return comprehension(self, e, env, "list")

    def e_SetComp(self, e, env):
        from .loops import comprehension
        v = comprehension(self, e, env, "list")
        return self.intr.make_set(self, v)

    def e_DictComp(self, e, env):
        from .loops import comprehension
        return comprehension(self, e, env, "dict")

    def e_Yield(self, e, env):
        v = self.eval(e.value, env) if e.value is not None else None
        ee = env
        while ee.yields is None:
            ee = ee.parent
        ee.yields.append(v)
        return None

    def e_YieldFrom(self, e, env):
        v = self.eval(e.value, env)
        ee = env
        while ee.yields is None:
            ee = ee.parent
        ee.yields.extend_seq(as_seq(self, v))
        return None

    def e_Starred(self, e, env):
        raise Unsupported("starred")

    # ----------------------------------------------------------- iteration
    def concrete_iter(self, v):
        """List of items of a concretely sized iterable."""
        from .arrays import items_of
        r = items_of(self, v)
        if isinstance(r, list):
            return r
        raise Unsupported(f"iteration over symbolic-length {type(v).__name__} in a concrete context")


class KeyBox:
    """Symbolic dict key (identity-hashed)."""

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return f"KeyBox({self.v!r})"


def is_hashable_concrete(x):
    if isinstance(x, (SVal, SObj)) or hasattr(x, "m_type"):
        return False
    try:
        hash(x)
    except TypeError:
        return False
    return True


def _fracset(k):
    return int(k) if k.denominator == 1 else k


def _low(x):
    try:
        return lower(x)
    except Unsupported:
        return repr(x)


from functools import partial as functools_partial  # noqa: E402
