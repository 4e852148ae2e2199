"""Canonical form of an abstract state.

Objects are numbered by first visit; opaque elements and exceptions are
represented by that number only (plus the facts already fixed about them), so
two states that differ in the names of their elements coincide.
"""
from __future__ import annotations

import ast
import collections
import copy
import datetime as _dt
import functools
import itertools
import types
import warnings
import weakref

from . import aio, core, interp
from .core import Inconclusive, Term, Tok

warnings.filterwarnings("ignore", category=DeprecationWarning)

_SKIP_ATTRS = {"_loop", "loop", "_owner", "_seq", "__orig_class__", "_log_tb", "_name", "_num_cancels", "fp_skip"}


def free_names(node):
    f = node.__dict__.get("_free")
    if f is None:
        names = set()
        for x in ast.walk(node):
            if x.__class__ is ast.Name:
                names.add(x.id)
            elif x.__class__ is ast.Nonlocal:
                names.update(x.names)
        sc = node._scope
        f = []
        for k in sorted(names):
            r = sc.resolve(k)
            if isinstance(r, tuple) and r[0] == "F":
                f.append((k, r[1]))
        node._free = f
    return f


def used_names(node):
    """Names read anywhere in a function body (a cheap liveness filter)."""
    u = node.__dict__.get("_used")
    if u is None:
        u = set()
        for x in ast.walk(node):
            if x.__class__ is ast.Name and isinstance(x.ctx, ast.Load):
                u.add(x.id)
        node._used = u
    return u


class Canon:
    def __init__(self, base=None, now=0.0):
        self.ids = {}
        self.keep = []
        self.out = []
        self.toks = []
        self.base = base
        self.now = now
        self.rel = None

    def add(self, *xs):
        self.out.extend(xs)

    def go(self, o):
        # iterative-ish: recursion is fine with the raised limit
        t = o.__class__
        out = self.out
        if o is None or t is bool or t is str or t is bytes:
            out.append(o)
            return
        if t is int:
            b = self.base
            if b is not None and b >= 4 and b - 3 <= o <= b + 2:
                out.append(("rel", o - b))
            else:
                out.append(o)
            return
        if t is float:
            out.append(o if self.rel is None else round(o - self.rel, 6))
            return
        k = id(o)
        n = self.ids.get(k)
        if n is not None:
            out.append(("ref", n))
            return
        self.ids[k] = n = len(self.ids)
        self.keep.append(o)
        if isinstance(o, Tok):
            self.toks.append(o)
            out.append(("tok", o._kind, o._has, *((t.__qualname__, v) for t, v in o._types)))
            return
        h = _HANDLERS.get(t)
        if h is not None:
            h(self, o)
            return
        if isinstance(o, type):
            out.append(("cls", o.__qualname__))
            return
        if isinstance(o, BaseException):
            if isinstance(o, core.UserError):
                out.append(("usererr", *((t.__qualname__, v) for t, v in o._types)))
                for n, v in o._facts:
                    out.append(n)
                    self.go(v)
            else:
                out.append(("exc", t.__name__))
                for a in o.args:
                    self.go(a)
            return
        if isinstance(o, (list, tuple, collections.deque)):
            out.append((t.__name__, len(o)))
            for x in list(o):
                self.go(x)
            if t.__name__ not in ("list", "tuple", "deque"):
                self.attrs(o)
            return
        if isinstance(o, dict):
            out.append((t.__name__, len(o)))
            for a, b in list(o.items()):
                self.go(a)
                self.go(b)
            return
        if isinstance(o, (set, frozenset)):
            xs = list(o)
            try:
                xs.sort(key=lambda x: core.run().serial(x) if not isinstance(x, (int, str)) else (x if isinstance(x, int) else hash(x)))
            except Exception:
                pass
            out.append((t.__name__, len(xs)))
            for x in xs:
                self.go(x)
            return
        if isinstance(o, _dt.datetime):
            d = o.replace(tzinfo=None) - _dt.datetime(2020, 1, 1)
            out.append(("dt", round(d.total_seconds() - self.now, 6)))
            return
        if isinstance(o, _dt.timedelta):
            out.append(("td", o.total_seconds()))
            return
        if isinstance(o, (interp.ModRef, interp.ModelModule)):
            out.append("module")
            return
        if t.__module__ == "typing" or isinstance(o, (types.GenericAlias,)):
            out.append("typing")
            return
        if t.__module__ == "itertools" or t.__name__.endswith("iterator") or t.__name__ in ("enumerate", "zip", "map", "filter", "reversed"):
            try:
                r = o.__reduce__()
            except Exception:
                out.append(t.__name__)
                return
            out.append(("iter", t.__name__))
            for x in r[1:]:
                self.go(x)
            return
        if hasattr(t, "fp"):
            out.append(t.__name__)
            o.fp(self)
            return
        self.obj(o)

    def obj(self, o):
        t = o.__class__
        self.out.append(("obj", t.__qualname__))
        self.attrs(o)

    def attrs(self, o):
        d = getattr(o, "__dict__", None)
        if d:
            for k in sorted(d):
                if k in _SKIP_ATTRS:
                    continue
                self.out.append(k)
                self.go(d[k])
        for c in o.__class__.__mro__:
            for k in getattr(c, "__slots__", ()) if isinstance(getattr(c, "__slots__", ()), (tuple, list)) else ():
                if k in _SKIP_ATTRS or k == "__weakref__" or k == "__dict__":
                    continue
                if hasattr(o, k):
                    self.out.append(k)
                    self.go(getattr(o, k))

    def facts(self):
        idx = {id(t): i for i, t in enumerate(self.toks)}
        fs = []
        for k, v in core.RUN.facts.items():
            if k[0] == "eq":
                a, b = idx.get(k[1]), idx.get(k[2])
                if a is not None and b is not None:
                    fs.append(("eq", min(a, b), max(a, b), v[0]))
            elif k[0] == "eqc":
                a = idx.get(k[1])
                if a is not None:
                    fs.append(("eqc", a, repr(k[2:]), v[0]))
        fs.sort()
        self.out.append(tuple(fs))

    def key(self):
        self.facts()
        return hash_key(self.out)


def hash_key(out):
    import hashlib
    return hashlib.blake2b(repr(out).encode(), digest_size=12).digest()


def h_function(c, f):
    c.out.append(("fn", f.module.name, f.node.lineno, f.node.col_offset))
    for name, d in free_names(f.node):
        e = f.env
        for _ in range(d - 1):
            e = e.parent
        if name in e.vars:
            c.out.append(name)
            c.go(e.vars[name])
    for x in f.defaults:
        c.go(x)
    for k, x in f.kwdefaults.items():
        c.out.append(k)
        c.go(x)


def h_coro(c, o):
    fr = o.frame
    if fr.done:
        c.out.append("coro-done")
        return
    fn = fr.fn
    if isinstance(fn, interp.Function):
        c.out.append(("coro", fn.module.name, fn.node.lineno, fn.node.col_offset))
        used = used_names(fn.node)
        free = free_names(fn.node)
        for name, d in free:
            e = fr.env
            for _ in range(d):
                e = e.parent
            if name in e.vars:
                c.out.append(name)
                c.go(e.vars[name])
    else:
        c.out.append(("coro", "genexp"))
        used = None
    at = fr.at
    c.out.append((at.lineno, at.col_offset) if at is not None and hasattr(at, "lineno") else (o.started,))
    for k, v in fr.env.vars.items():
        if used is None or k in used:
            c.out.append(k)
            c.go(v)
    for x in fr.ctl:
        c.go(x)
    for x in fr.exc:
        c.go(x)
    if fr.awaiting is not None:
        c.out.append("await")
        c.go(fr.awaiting)


def h_hostcoro(c, o):
    f = o.cr_frame
    c.out.append(("hcoro", o.cr_code.co_qualname))
    if f is None:
        return
    c.out.append(f.f_lasti)
    loc = f.f_locals
    for k in sorted(loc):
        c.out.append(k)
        c.go(loc[k])
    if o.cr_await is not None:
        c.go(o.cr_await)


def h_hostgen(c, o):
    f = o.gi_frame
    c.out.append(("hgen", o.gi_code.co_qualname))
    if f is None:
        return
    c.out.append(f.f_lasti)
    loc = f.f_locals
    for k in sorted(loc):
        c.out.append(k)
        c.go(loc[k])


def h_hostfn(c, f):
    c.out.append(("hfn", f.__qualname__))
    if f.__closure__:
        for cell in f.__closure__:
            try:
                c.go(cell.cell_contents)
            except ValueError:
                c.out.append("emptycell")


def h_method(c, m):
    c.out.append("meth")
    c.go(m.__func__)
    c.go(m.__self__)


def h_builtin(c, m):
    c.out.append(("bi", m.__name__))
    s = getattr(m, "__self__", None)
    if s is not None and not isinstance(s, types.ModuleType):
        c.go(s)


def h_partial(c, p):
    c.out.append("partial")
    c.go(p.func)
    c.go(p.args)
    c.go(p.keywords)


def h_timer(c, h):
    c.out.append(("timer", h._cancelled, round(h._when - c.now, 9)))
    if not h._cancelled:
        c.go(h._callback)
        c.go(h._args)


def h_loop(c, l):
    c.out.append("loop")
    for w, _, h in sorted([t for t in l._timers if not t[2]._cancelled], key=lambda t: t[:2]):
        c.go(h)
    for h in l._ready:
        c.go(h)


def h_future(c, f):
    c.out.append(("fut", f._state))
    c.go(f._result)
    c.go(f._exception)
    if f._state == aio.PENDING:
        c.go(f._callbacks)


def h_task(c, t):
    c.out.append(("task", t._state, t._must_cancel))
    if t._state == aio.PENDING:
        c.go(t._coro)
        c.go(t._fut_waiter)
        c.go(t._callbacks)
    else:
        c.go(t._result)
        c.go(t._exception)


def h_const(name):
    def f(c, o):
        c.out.append(name)
    return f


def h_coroiter(c, o):
    c.go(o.c)


def h_agstep(c, o):
    c.out.append("agstep")
    c.go(o.ag)


def h_prop(c, o):
    c.out.append("prop")


_HANDLERS = {
    interp.Function: h_function,
    interp.Coro: h_coro,
    interp.Gen: h_coro,
    interp.AsyncGen: h_coro,
    interp._CoroIter: h_coroiter,
    interp._AGStep: h_agstep,
    types.CoroutineType: h_hostcoro,
    types.GeneratorType: h_hostgen,
    types.FunctionType: h_hostfn,
    types.MethodType: h_method,
    types.BuiltinFunctionType: h_builtin,
    types.MethodWrapperType: h_builtin,
    types.WrapperDescriptorType: h_const("wd"),
    types.MethodDescriptorType: h_const("md"),
    functools.partial: h_partial,
    aio.TimerHandle: h_timer,
    aio.Loop: h_loop,
    aio.Future: h_future,
    aio.Task: h_task,
    types.ModuleType: h_const("module"),
    interp.Program: h_const("program"),
    interp.Module: h_const("module"),
    object: h_const("object"),
    type(NotImplemented): h_const("NI"),
    type(Ellipsis): h_const("..."),
    property: h_prop,
    staticmethod: h_prop,
    classmethod: h_prop,
}


# ------------------------------------------------------- module-level state
def _is_static(v):
    return isinstance(v, (type, interp.ModRef, interp.ModelModule, str, int, float, bool, bytes, type(None),
                          types.FunctionType, types.BuiltinFunctionType)) or getattr(type(v), "__module__", "").startswith("typing")


def module_state(prog):
    """Canonical key of the mutable state held by modules, classes and defaults."""
    c = Canon()
    for name in sorted(prog.modules):
        m = prog.modules[name]
        for k, v in m.ns.items():
            if k.startswith("__"):
                continue
            if isinstance(v, (str, int, float, bool, bytes)) or v is None:
                c.out.append((name, k, repr(v)))
                continue
            if isinstance(v, type):
                if getattr(v, "_absint_module", None) is m:
                    for a, b in list(vars(v).items()):
                        if a.startswith("__") or a.startswith("_abc") or a.startswith("_absint"):
                            continue
                        c.out.append(a)
                        if isinstance(b, interp.Function):
                            c.go(b.defaults)
                        elif not callable(b) and not hasattr(type(b), "__get__"):
                            c.go(b)
                continue
            if isinstance(v, interp.Function):
                c.out.append((name, k))
                c.go(v)
                continue
            if _is_static(v):
                continue
            c.out.append((name, k))
            c.go(v)
    return hash_key(c.out)


class Snapshot:
    """Shallow copies of the mutable objects held by modules, classes and defaults, to be put back in place."""

    def __init__(self, prog):
        self.items = []
        self.ids = {}
        for m in prog.modules.values():
            self.add(m.ns)
            for k, v in m.ns.items():
                if isinstance(v, type):
                    if getattr(v, "_absint_module", None) is m:
                        attrs = {a: b for a, b in vars(v).items() if not a.startswith("__") and not a.startswith("_abc")}
                        self.items.append(("class", v, attrs))
                        for b in attrs.values():
                            self.add(b)
                            if isinstance(b, interp.Function):
                                self.add(b.defaults)
                elif isinstance(v, interp.Function):
                    self.add(v.defaults)
                else:
                    self.add(v)

    def add(self, o, depth=0):
        if id(o) in self.ids or depth > 4:
            return
        t = type(o)
        if t is list or t is collections.deque or t is tuple:
            self.ids[id(o)] = o
            if t is not tuple:
                self.items.append(("list", o, list(o)))
            if depth or t is not list or len(o) < 1000:
                for x in o:
                    self.add(x, depth + 1)
        elif t is set:
            self.ids[id(o)] = o
            self.items.append(("set", o, set(o)))
        elif isinstance(o, dict):
            self.ids[id(o)] = o
            d = dict(o)
            self.items.append(("dict", o, d))
            if t is not dict or depth:
                for x in d.values():
                    self.add(x, depth + 1)
            for k, x in d.items():
                if type(x) is itertools.count:
                    self.items.append(("copy", o, (k, copy.copy(x))))
        elif getattr(t, "_absint_module", None) is not None and hasattr(o, "__dict__"):
            self.ids[id(o)] = o
            d = dict(vars(o))
            self.items.append(("dict", vars(o), d))
            for k, x in d.items():
                self.add(x, depth + 1)
                if type(x) is itertools.count:
                    self.items.append(("copy", vars(o), (k, copy.copy(x))))

    def restore(self):
        for kind, o, v in self.items:
            if kind == "list":
                o.clear()
                o.extend(v)
            elif kind == "set":
                o.clear()
                o.update(v)
            elif kind == "dict":
                if len(o) != len(v) or any(k not in o or o[k] is not x for k, x in v.items()):
                    o.clear()
                    o.update(v)
            elif kind == "copy":
                o[v[0]] = copy.copy(v[1])
            else:
                now = vars(o)
                for a, b in v.items():
                    if now.get(a) is not b:
                        setattr(o, a, b)
