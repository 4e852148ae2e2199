"""Flow/path/context-sensitive abstract evaluator for Python ASTs.

The object model (classes, MRO, descriptors) is embedded in the host's; every
function and module body of the analysed program is evaluated here, statement
by statement, over the abstract values of `core`.
"""
from __future__ import annotations

import ast
import builtins
import operator
import os
import re
import types

from . import core
from .core import Diverged, EngineSignal, Inconclusive, Tok, UserError, run

RET = "ret"
BRK = ("brk",)
CONT = ("cont",)


# --------------------------------------------------------------------- scopes
class Scope:
    __slots__ = ("kind", "name", "locals", "globals", "nonlocals", "parent", "is_comp",
                 "cls", "cache", "node")

    def __init__(self, kind, name, parent, node):
        self.kind = kind            # module / class / function
        self.name = name
        self.parent = parent
        self.locals = set()
        self.globals = set()
        self.nonlocals = set()
        self.is_comp = False
        self.cls = None             # enclosing class name for mangling
        self.cache = {}
        self.node = node

    def resolve(self, name):
        """'L' local dict, ('F', n) n function scopes up, 'G' global/builtin."""
        r = self.cache.get(name)
        if r is not None:
            return r
        if self.kind == "module":
            r = "G"
        elif name in self.globals:
            r = "G"
        elif name in self.locals and name not in self.nonlocals:
            r = "L"
        else:
            depth = 0
            s = self.parent
            r = "G"
            d = 1
            while s is not None:
                if s.kind == "function":
                    if name in s.globals:
                        break
                    if name in s.locals and name not in s.nonlocals:
                        r = ("F", d)
                        break
                elif s.kind == "class" and name == "__class__":
                    r = ("C", d)
                    break
                s = s.parent
                d += 1
        self.cache[name] = r
        return r


class Env:
    __slots__ = ("scope", "parent", "vars", "frame", "module", "clsbox")

    def __init__(self, scope, parent, frame, vars=None):
        self.scope = scope
        self.parent = parent
        self.vars = {} if vars is None else vars
        self.frame = frame
        self.module = parent.module if parent is not None else None
        self.clsbox = None


class Frame:
    __slots__ = ("fn", "env", "node", "at", "ctl", "exc", "caller_exc", "awaiting", "done")

    def __init__(self, fn, caller_exc=None):
        self.fn = fn
        self.env = None
        self.node = None
        self.at = None
        self.ctl = []
        self.exc = []
        self.caller_exc = caller_exc
        self.awaiting = None
        self.done = False


class WrappedStop(Exception):
    """Carries a StopIteration across the evaluator's own generators."""

    def __init__(self, e):
        self.e = e


def wrap(e):
    return WrappedStop(e) if isinstance(e, StopIteration) else e


def strip(e):
    if isinstance(e, WrappedStop):
        e = e.e
    e.__traceback__ = None
    return e


def is_engine(e):
    if isinstance(e, EngineSignal):
        return True
    if isinstance(e, GeneratorExit) and not run().closing:
        return True
    if isinstance(e, (RecursionError, MemoryError, KeyboardInterrupt, SystemExit)):
        return True
    return False


# ------------------------------------------------------------- scope analysis
_FUNCS = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)
_COMPS = (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)


def _mangle(name, cls):
    if cls and name.startswith("__") and not name.endswith("__") and "." not in name:
        c = cls.lstrip("_")
        if c:
            return f"_{c}{name}"
    return name


class Analyzer:
    """Annotates nodes with _aw (contains await/yield of this function), _scope."""

    def __init__(self, filename):
        self.filename = filename

    def module(self, tree, name):
        sc = Scope("module", name, None, tree)
        tree._scope = sc
        for s in tree.body:
            self.visit(s, sc)
        return sc

    def bind(self, sc, name):
        sc.locals.add(name)

    def visit_args(self, a, sc):
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            x.arg = _mangle(x.arg, sc.cls)
            sc.locals.add(x.arg)
        if a.vararg:
            sc.locals.add(a.vararg.arg)
        if a.kwarg:
            sc.locals.add(a.kwarg.arg)

    def visit(self, n, sc):
        """Returns True when the node contains an await/yield of this scope."""
        m = n.__class__
        aw = False
        n._aw = False
        if m in (ast.FunctionDef, ast.AsyncFunctionDef):
            n.name = _mangle(n.name, sc.cls) if sc.kind == "class" else n.name
            self.bind(sc, n.name)
            for d in n.decorator_list + n.args.defaults + [x for x in n.args.kw_defaults if x]:
                aw |= self.visit(d, sc)
            fs = Scope("function", n.name, sc, n)
            fs.cls = sc.cls
            self.visit_args(n.args, fs)
            n._scope = fs
            n._isgen = False
            fs.node = n
            for s in n.body:
                self.visit(s, fs)
            n._aw = aw
            return aw
        if m is ast.Lambda:
            for d in n.args.defaults + [x for x in n.args.kw_defaults if x]:
                aw |= self.visit(d, sc)
            fs = Scope("function", "<lambda>", sc, n)
            fs.cls = sc.cls
            self.visit_args(n.args, fs)
            n._scope = fs
            n._isgen = False
            self.visit(n.body, fs)
            n._aw = aw
            return aw
        if m is ast.ClassDef:
            self.bind(sc, n.name)
            for d in n.decorator_list + n.bases + [k.value for k in n.keywords]:
                aw |= self.visit(d, sc)
            cs = Scope("class", n.name, sc, n)
            cs.cls = n.name
            n._scope = cs
            for s in n.body:
                self.visit(s, cs)
            n._aw = aw
            return aw
        if m in _COMPS:
            cs = Scope("function", "<comp>", sc, n)
            cs.is_comp = True
            cs.cls = sc.cls
            n._scope = cs
            n._isgen = False
            inner = False
            for i, g in enumerate(n.generators):
                a = self.visit(g.iter, sc if i == 0 else cs)
                if i == 0:
                    aw |= a
                else:
                    inner |= a
                self.visit(g.target, cs)
                for c in g.ifs:
                    inner |= self.visit(c, cs)
                if g.is_async:
                    inner = True
            if m is ast.DictComp:
                inner |= self.visit(n.key, cs)
                inner |= self.visit(n.value, cs)
            else:
                inner |= self.visit(n.elt, cs)
            n._inner_aw = inner
            if m is not ast.GeneratorExp:
                aw |= inner
            n._aw = aw
            return aw
        if m is ast.Name:
            n.id = _mangle(n.id, sc.cls)
            if n.__class__ is ast.Name and not isinstance(n.ctx, ast.Load):
                self.bind(sc, n.id)
            return False
        if m is ast.NamedExpr:
            aw = self.visit(n.value, sc)
            t = sc
            while t.is_comp:
                t = t.parent
            t.locals.add(n.target.id)
            n.target._aw = False
            n._aw = aw
            return aw
        if m is ast.Global:
            sc.globals.update(n.names)
            return False
        if m is ast.Nonlocal:
            sc.nonlocals.update(n.names)
            return False
        if m is ast.Import:
            for a in n.names:
                self.bind(sc, a.asname or a.name.split(".")[0])
            return False
        if m is ast.ImportFrom:
            for a in n.names:
                if a.name != "*":
                    self.bind(sc, a.asname or a.name)
            return False
        if m is ast.ExceptHandler and n.name:
            self.bind(sc, n.name)
        if m in (ast.MatchAs, ast.MatchStar) and n.name:
            self.bind(sc, n.name)
        if m is ast.MatchMapping and n.rest:
            self.bind(sc, n.rest)
        if m is ast.Attribute:
            n._mname = _mangle(n.attr, sc.cls)
        if m in (ast.Await, ast.Yield, ast.YieldFrom):
            aw = True
            if m is not ast.Await:
                f = sc
                while f.is_comp:
                    f = f.parent
                f.node._isgen = True
        if m in (ast.AsyncFor, ast.AsyncWith):
            aw = True
        if m is ast.AnnAssign:
            aw |= self.visit(n.target, sc)
            if n.value is not None:
                aw |= self.visit(n.value, sc)
            n._aw = aw
            return aw
        if m is ast.TypeAlias if hasattr(ast, "TypeAlias") else False:
            self.bind(sc, n.name.id)
            return False
        for c in ast.iter_child_nodes(n):
            aw |= self.visit(c, sc)
        n._aw = aw
        return aw


# ---------------------------------------------------------------- primitives
def op_is(a, b):
    if a is b:
        return True
    if isinstance(a, Tok) and b is None:
        return a.isnone()
    if isinstance(b, Tok) and a is None:
        return b.isnone()
    if isinstance(a, Tok) and (b is True or b is False):
        return a.isbool(b)
    if isinstance(b, Tok) and (a is True or a is False):
        return b.isbool(a)
    if isinstance(a, core.TypeOf):
        return a == b
    if isinstance(b, core.TypeOf):
        return b == a
    return False


BINOPS = {
    ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Div: operator.truediv,
    ast.FloorDiv: operator.floordiv, ast.Mod: operator.mod, ast.Pow: operator.pow,
    ast.LShift: operator.lshift, ast.RShift: operator.rshift, ast.BitOr: operator.or_,
    ast.BitXor: operator.xor, ast.BitAnd: operator.and_, ast.MatMult: operator.matmul,
}
IOPS = {
    ast.Add: operator.iadd, ast.Sub: operator.isub, ast.Mult: operator.imul, ast.Div: operator.itruediv,
    ast.FloorDiv: operator.ifloordiv, ast.Mod: operator.imod, ast.Pow: operator.ipow,
    ast.LShift: operator.ilshift, ast.RShift: operator.irshift, ast.BitOr: operator.ior,
    ast.BitXor: operator.ixor, ast.BitAnd: operator.iand, ast.MatMult: operator.imatmul,
}
UNOPS = {ast.USub: operator.neg, ast.UAdd: operator.pos, ast.Invert: operator.invert}
CMPOPS = {
    ast.Eq: operator.eq, ast.NotEq: operator.ne, ast.Lt: operator.lt, ast.LtE: operator.le,
    ast.Gt: operator.gt, ast.GtE: operator.ge, ast.Is: op_is, ast.IsNot: lambda a, b: not op_is(a, b),
    ast.In: lambda a, b: a in b, ast.NotIn: lambda a, b: a not in b,
}


def tick(env):
    r = core.RUN
    r.steps += 1
    if r.steps > r.max_steps:
        raise Diverged(f"no quiescence after {r.max_steps} abstract steps")


def lookup(n, env):
    name = n.id
    sc = env.scope
    r = sc.cache.get(name) or sc.resolve(name)
    if r == "L":
        try:
            return env.vars[name]
        except KeyError:
            if sc.kind == "class":
                # class scope falls through to globals
                e = env.parent
                while e is not None:
                    if e.scope.kind == "function" and name in e.vars:
                        return e.vars[name]
                    e = e.parent
                return global_lookup(name, env)
            raise UnboundLocalError(
                f"cannot access local variable '{name}' where it is not associated with a value") from None
    if r == "G":
        if sc.kind == "module":
            try:
                return env.vars[name]
            except KeyError:
                pass
        return global_lookup(name, env)
    e = env
    for _ in range(r[1]):
        e = e.parent
    if r[0] == "C":
        return e.clsbox[0]
    try:
        return e.vars[name]
    except KeyError:
        raise NameError(f"cannot access free variable '{name}' where it is not associated with a value in enclosing scope") from None


def global_lookup(name, env):
    g = env.module.ns
    if name in g:
        return g[name]
    b = BUILTINS
    if name in b:
        return b[name]
    raise NameError(f"name '{name}' is not defined")


def store_name(name, v, env):
    sc = env.scope
    if sc.kind == "module":
        env.vars[name] = v
        return
    if name in sc.globals:
        env.module.ns[name] = v
        return
    if name in sc.nonlocals:
        r = sc.resolve(name)
        if r == "G":
            raise Inconclusive(f"nonlocal {name} unresolved")
        e = env
        for _ in range(r[1]):
            e = e.parent
        e.vars[name] = v
        return
    env.vars[name] = v


def del_name(name, env, quiet):
    sc = env.scope
    d = env.vars
    if sc.kind != "module":
        if name in sc.globals:
            d = env.module.ns
        elif name in sc.nonlocals:
            e = env
            for _ in range(sc.resolve(name)[1]):
                e = e.parent
            d = e.vars
    if name in d:
        del d[name]
    elif not quiet:
        raise NameError(f"name '{name}' is not defined")


def do_setattr(o, name, v):
    setattr(o, name, v)


def subscript(o, s):
    return o[s]


def lookup_special(o, name):
    f = getattr(type(o), name, None)
    if f is None:
        raise TypeError(f"'{type(o).__name__}' object does not support the context manager protocol")
    return getattr(o, name)


def get_aiter(o):
    f = getattr(type(o), "__aiter__", None)
    if f is None:
        raise TypeError(f"'async for' requires an object with __aiter__ method, got {type(o).__name__}")
    return o.__aiter__()


def anext_of(it):
    return it.__anext__()


def location(node, env):
    return f"{env.module.relpath}:{getattr(node, 'lineno', 0)}"


# ------------------------------------------------------------------ functions
class Function:
    """A function of the analysed program: its AST plus closure environment."""

    def __init__(self, node, env, defaults, kwdefaults):
        self.node = node
        self.env = env
        self.module = env.module
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.is_async = node.__class__ is ast.AsyncFunctionDef
        self.is_gen = node._isgen
        name = getattr(node, "name", "<lambda>")
        self.__name__ = name
        sc = env.scope
        parts = [name]
        while sc is not None and sc.kind != "module":
            if not sc.is_comp:
                if sc.kind == "function":
                    parts.append("<locals>")
                parts.append(sc.name)
            sc = sc.parent
        self.__qualname__ = ".".join(reversed(parts))
        self.__module__ = env.module.name
        self.__doc__ = None
        self.__wrapped_attrs__ = None
        a = node.args
        self._simple = not (a.vararg or a.kwarg or a.kwonlyargs or a.posonlyargs)
        self._names = node.__dict__.get("_argnames")
        if self._names is None:
            self._names = node._argnames = [x.arg for x in a.posonlyargs + a.args]

    @property
    def __code__(self):
        a = self.node.args
        return types.SimpleNamespace(co_argcount=len(a.posonlyargs) + len(a.args), co_name=self.__name__,
                                     co_flags=0, co_varnames=tuple(self._names))

    @property
    def __defaults__(self):
        return tuple(self.defaults) or None

    def __get__(self, obj, cls=None):
        if obj is None:
            return self
        return types.MethodType(self, obj)

    def __hash__(self):
        return run().serial(self)

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return f"<function {self.__qualname__}>"

    def bind(self, args, kw):
        names = self._names
        node = self.node
        a = node.args
        vars = {}
        n = len(args)
        if n > len(names):
            if not a.vararg:
                raise TypeError(f"{self.__name__}() takes {len(names)} positional arguments but {n} were given")
            for k, v in zip(names, args):
                vars[k] = v
            vars[a.vararg.arg] = tuple(args[len(names):])
        else:
            for k, v in zip(names, args):
                vars[k] = v
            if a.vararg:
                vars[a.vararg.arg] = ()
        extra = {}
        if kw:
            kwonly = {x.arg for x in a.kwonlyargs}
            pos_only = {x.arg for x in a.posonlyargs}
            for k, v in kw.items():
                if (k in names and k not in pos_only) or k in kwonly:
                    if k in vars and k in names[:n]:
                        raise TypeError(f"{self.__name__}() got multiple values for argument '{k}'")
                    vars[k] = v
                elif a.kwarg:
                    extra[k] = v
                else:
                    raise TypeError(f"{self.__name__}() got an unexpected keyword argument '{k}'")
        if a.kwarg:
            vars[a.kwarg.arg] = extra
        nd = len(self.defaults)
        for i, k in enumerate(names):
            if k not in vars:
                j = i - (len(names) - nd)
                if j < 0:
                    raise TypeError(f"{self.__name__}() missing 1 required positional argument: '{k}'")
                vars[k] = self.defaults[j]
        for x in a.kwonlyargs:
            if x.arg not in vars:
                if x.arg in self.kwdefaults:
                    vars[x.arg] = self.kwdefaults[x.arg]
                else:
                    raise TypeError(f"{self.__name__}() missing 1 required keyword-only argument: '{x.arg}'")
        return vars

    def __call__(self, *args, **kw):
        vars = self.bind(args, kw)
        r = core.RUN
        stack = r.stack
        fr = Frame(self, stack[-1] if stack else None)
        env = Env(self.node._scope, self.env, fr, vars)
        fr.env = env
        if self.module.is_repo:
            r.touched.add((self.module.relpath, self.__qualname__))
            r.entered.append(self)
        if self.is_async:
            fr.caller_exc = None
            if self.is_gen:
                return AsyncGen(fr)
            return Coro(fr)
        if self.is_gen:
            return Gen(fr)
        if len(stack) > 400:
            raise Diverged("unbounded recursion")
        if self.node.__class__ is ast.Lambda:
            fr.node = self.node.body
            stack.append(fr)
            try:
                v = ev(self.node.body, env)
            except WrappedStop as e:
                stack.pop()
                raise e.e from None
            except BaseException:
                stack.pop()
                raise
            stack.pop()
            return v
        stack.append(fr)
        try:
            res = exec_block(self.node.body, env)
        except WrappedStop as e:
            stack.pop()
            raise e.e from None
        except BaseException:
            stack.pop()
            raise
        stack.pop()
        return res[1] if res is not None else None


def body_gen(fr):
    """Host generator that evaluates a coroutine / generator body."""
    fn = fr.fn
    env = fr.env
    try:
        res = yield from aexec_block(fn.node.body, env)
    except WrappedStop as e:
        fr.done = True
        raise RuntimeError("coroutine raised StopIteration") from None
    except BaseException:
        fr.done = True
        raise
    fr.done = True
    return res[1] if res is not None else None


class YieldVal:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


class _Resumable:
    def __init__(self, fr):
        self.frame = fr
        self.gen = body_gen(fr)
        self.started = False
        self.__name__ = fr.fn.__name__
        self.__qualname__ = fr.fn.__qualname__
        core.RUN.serial(self)

    def __hash__(self):
        return run().serial(self)

    def __eq__(self, o):
        return self is o

    def _resume(self, how, val):
        self.started = True
        stack = core.RUN.stack
        if len(stack) > 400:
            raise Diverged("unbounded recursion")
        stack.append(self.frame)
        if self.frame.fn.__class__ is Function and self.frame.fn.module.is_repo:
            core.RUN.entered.append(self.frame.fn)
        self.frame.caller_exc = None
        try:
            v = self.gen.send(val) if how == 0 else self.gen.throw(val)
        except BaseException:
            stack.pop()
            raise
        stack.pop()
        return v


class Coro(_Resumable):
    def __await__(self):
        if self.started:
            raise RuntimeError("cannot reuse already awaited coroutine")
        self.started = True
        return _CoroIter(self)

    def send(self, v):
        return self._resume(0, v)

    def throw(self, *a):
        e = a[0]
        if isinstance(e, type):
            e = a[1] if len(a) > 1 and isinstance(a[1], BaseException) else e()
        return self._resume(1, e)

    def close(self):
        r = core.RUN
        r.closing += 1
        try:
            self.gen.close()
        finally:
            r.closing -= 1
        self.frame.done = True

    @property
    def cr_frame(self):
        return None if self.frame.done else self.frame

    def __repr__(self):
        return f"<coroutine {self.__qualname__}>"


class _CoroIter:
    __slots__ = ("c",)

    def __init__(self, c):
        self.c = c

    def __iter__(self):
        return self

    def __next__(self):
        return self.c._resume(0, None)

    def send(self, v):
        return self.c._resume(0, v)

    def throw(self, *a):
        return self.c.throw(*a)

    def close(self):
        if not core.RUN.closing:
            return
        self.c.close()


class Gen(_Resumable):
    def __iter__(self):
        return self

    def __next__(self):
        return self._unw(0, None)

    def _unw(self, how, v):
        r = self._resume(how, v)
        return r.v if r.__class__ is YieldVal else r

    def send(self, v):
        return self._unw(0, v)

    def throw(self, *a):
        e = a[0]
        if isinstance(e, type):
            e = a[1] if len(a) > 1 and isinstance(a[1], BaseException) else e()
        return self._unw(1, e)

    close = Coro.close


class AsyncGen(_Resumable):
    def __aiter__(self):
        return self

    def __anext__(self):
        return _AGStep(self, 0, None)

    def asend(self, v):
        return _AGStep(self, 0, v)

    def athrow(self, *a):
        e = a[0]
        if isinstance(e, type):
            e = a[1] if len(a) > 1 and isinstance(a[1], BaseException) else e()
        return _AGStep(self, 1, e)

    def aclose(self):
        return _AGStep(self, 2, None)


class _AGStep:
    """Awaitable for one step of an async generator."""

    def __init__(self, ag, how, val):
        self.ag, self.how, self.val = ag, how, val

    def __await__(self):
        ag = self.ag
        how, val = self.how, self.val
        if ag.frame.done:
            if how == 2:
                return None
            raise StopAsyncIteration
        r = core.RUN
        if how == 2:
            if not ag.started:
                ag.frame.done = True
                return None
            how, val = 1, GeneratorExit()
            closing = True
        else:
            closing = False
        while True:
            if closing:
                r.closing += 1
            try:
                v = ag._resume(how, val)
            except StopIteration:
                if closing:
                    r.closing -= 1
                    return None
                raise StopAsyncIteration from None
            except GeneratorExit:
                if closing:
                    r.closing -= 1
                    ag.frame.done = True
                    return None
                raise
            except BaseException:
                if closing:
                    r.closing -= 1
                raise
            if closing:
                r.closing -= 1
            if v.__class__ is YieldVal:
                if closing:
                    raise RuntimeError("async generator ignored GeneratorExit")
                return v.v
            try:
                val = yield v
                how = 0
            except BaseException as e:
                if is_engine(e):
                    raise
                how, val = 1, e


def make_genexp(n, first, env):
    fn = _GenexpFn(n, env)
    fr = Frame(fn, None)
    fr.env = Env(n._scope, env, fr)
    fr.env.vars[".0"] = first
    if n._inner_aw:
        g = AsyncGen(fr)
    else:
        g = Gen(fr)
    g.gen = _genexp_body(n, first, fr)
    return g


class _GenexpFn:
    def __init__(self, n, env):
        self.node = n
        self.module = env.module
        self.__name__ = self.__qualname__ = "<genexpr>"
        self.is_async = False
        self.is_gen = True


def _genexp_body(n, first, fr):
    it = first if n.generators[0].is_async else iter(first)
    fr.ctl.append(it)
    yield from _ge_loop(n, 0, it, fr.env)
    fr.done = True


def _ge_loop(n, gi, it, cenv):
    g = n.generators[gi]
    if g.is_async:
        ai = get_aiter(it)
        while True:
            try:
                v = yield from await_iter(anext_of(ai), cenv)
            except StopAsyncIteration:
                break
            yield from _ge_item(n, gi, v, cenv)
    else:
        for v in it:
            tick(cenv)
            yield from _ge_item(n, gi, v, cenv)


def _ge_item(n, gi, v, cenv):
    g = n.generators[gi]
    assign(g.target, v, cenv)
    for c in g.ifs:
        t = yield from aev(c, cenv)
        if not t:
            return
    if gi + 1 < len(n.generators):
        nxt = yield from aev(n.generators[gi + 1].iter, cenv)
        yield from _ge_loop(n, gi + 1, nxt, cenv)
    else:
        x = yield from aev(n.elt, cenv)
        yield YieldVal(x)


def await_iter(v, env):
    fr = env.frame
    fr.awaiting = v
    if v.__class__ is Coro:
        it = v.__await__()
    elif isinstance(v, types.CoroutineType):
        it = v.__await__()
    else:
        f = getattr(type(v), "__await__", None)
        if f is None:
            raise TypeError(f"object {type(v).__name__} can't be used in 'await' expression")
        it = v.__await__()
    if it is None:
        raise TypeError("__await__() returned non-iterator")
    res = yield from it
    fr.awaiting = None
    return res


def do_call(f, args, kw, n, env):
    if f is SUPER and not args:
        e = env
        while e.scope.kind != "function" or e.scope.is_comp:
            e = e.parent
        fnode = e.frame.fn
        first = e.vars[fnode._names[0]]
        c = e.parent
        while c.clsbox is None:
            c = c.parent
        return super(c.clsbox[0], first)
    if f is LOCALS:
        return dict(env.vars)
    if f is GLOBALS:
        return env.module.ns
    if f is str and len(args) == 1 and isinstance(args[0], UserError):
        return args[0].message()
    if f is type and len(args) == 1 and isinstance(args[0], Tok):
        return core.TypeOf(args[0])
    try:
        if kw:
            return f(*args, **kw)
        return f(*args)
    except StopIteration as e:
        raise WrappedStop(e) from None


# --------------------------------------------------------------------- classes
def _det_hash(self):
    return run().serial(self)


def make_class(n, bases, kw, env):
    cenv = Env(n._scope, env, env.frame)
    box = [None]
    cenv.clsbox = box

    def body(ns):
        ns["__module__"] = SHADOW
        q = [n.name]
        sc = env.scope
        while sc is not None and sc.kind != "module":
            if sc.kind == "function":
                q.append("<locals>")
            q.append(sc.name)
            sc = sc.parent
        ns["__qualname__"] = ".".join(reversed(q))
        cenv.vars = ns
        exec_block(n.body, cenv)
        if "__eq__" not in ns and "__hash__" not in ns:
            pass
        for k in ("__init_subclass__", "__class_getitem__"):
            if isinstance(ns.get(k), Function):
                ns[k] = classmethod(ns[k])
        if isinstance(ns.get("__new__"), Function):
            ns["__new__"] = staticmethod(ns["__new__"])

    c = types.new_class(n.name, tuple(bases), kw, body)
    box[0] = c
    if c.__hash__ is object.__hash__:
        try:
            c.__hash__ = _det_hash
        except TypeError:
            pass
    try:
        c._absint_node = n
        c._absint_module = env.module
    except (TypeError, AttributeError):
        pass
    return c


SHADOW = "absint.shadow"
import sys as _sys

_sys.modules.setdefault(SHADOW, types.ModuleType(SHADOW))


# -------------------------------------------------------------------- patterns
def match_pattern(p, s, b, env):
    c = p.__class__
    if c is ast.MatchAs:
        if p.pattern is not None and not match_pattern(p.pattern, s, b, env):
            return False
        if p.name:
            b[p.name] = s
        return True
    if c is ast.MatchValue:
        return bool(s == ev(p.value, env))
    if c is ast.MatchSingleton:
        return op_is(s, p.value)
    if c is ast.MatchOr:
        for x in p.patterns:
            bb = {}
            if match_pattern(x, s, bb, env):
                b.update(bb)
                return True
        return False
    if c is ast.MatchClass:
        cls = ev(p.cls, env)
        org = getattr(cls, "__origin__", None)
        if org is not None and not isinstance(cls, type):
            raise TypeError("called match pattern must be a class")
        if not core.inst(s, cls):
            return False
        if p.patterns:
            if cls in (bool, bytearray, bytes, dict, float, frozenset, int, list, set, str, tuple) and len(p.patterns) == 1:
                if not match_pattern(p.patterns[0], s, b, env):
                    return False
            else:
                ma = getattr(cls, "__match_args__", ())
                if len(p.patterns) > len(ma):
                    raise TypeError(f"{cls.__name__}() accepts {len(ma)} positional sub-patterns ({len(p.patterns)} given)")
                for name, x in zip(ma, p.patterns):
                    try:
                        v = getattr(s, name)
                    except AttributeError:
                        return False
                    if not match_pattern(x, v, b, env):
                        return False
        for name, x in zip(p.kwd_attrs, p.kwd_patterns):
            try:
                v = getattr(s, name)
            except AttributeError:
                return False
            if not match_pattern(x, v, b, env):
                return False
        return True
    if c is ast.MatchSequence:
        if isinstance(s, Tok):
            raise Inconclusive("sequence pattern on an opaque element")
        if not isinstance(s, (list, tuple)) and not _is_seq(s):
            return False
        pats = p.patterns
        star = [i for i, x in enumerate(pats) if x.__class__ is ast.MatchStar]
        vals = list(s)
        if star:
            i = star[0]
            after = len(pats) - i - 1
            if len(vals) < len(pats) - 1:
                return False
            for x, v in zip(pats[:i], vals[:i]):
                if not match_pattern(x, v, b, env):
                    return False
            if pats[i].name:
                b[pats[i].name] = vals[i:len(vals) - after]
            for x, v in zip(pats[i + 1:], vals[len(vals) - after:]):
                if not match_pattern(x, v, b, env):
                    return False
            return True
        if len(vals) != len(pats):
            return False
        return all(match_pattern(x, v, b, env) for x, v in zip(pats, vals))
    if c is ast.MatchMapping:
        if isinstance(s, Tok):
            raise Inconclusive("mapping pattern on an opaque element")
        if not isinstance(s, dict):
            return False
        seen = []
        for k, x in zip(p.keys, p.patterns):
            kk = ev(k, env)
            if kk not in s:
                return False
            seen.append(kk)
            if not match_pattern(x, s[kk], b, env):
                return False
        if p.rest:
            b[p.rest] = {k: v for k, v in s.items() if k not in seen}
        return True
    raise Inconclusive("pattern " + c.__name__)


def _is_seq(s):
    import collections
    import collections.abc
    return isinstance(s, (collections.deque, collections.abc.Sequence)) and not isinstance(s, (str, bytes, bytearray))


# ------------------------------------------------------------------- templates
def _expand(src, gen):
    """Turns the template into one of the two evaluators."""
    table = {
        "AEV": ("ev", "aev"), "AEX": ("exec_block", "aexec_block"), "AASSIGN": ("assign", "aassign"),
        "ACOMP": ("comp_loop", "acomp_loop"), "ACOMPBODY": ("comp_body", "acomp_body"),
        "AWITH": ("with_items", "awith_items"), "AWAIT": ("no_await", "await_iter"),
        "ADISPATCH": ("dispatch", "adispatch"),
    }
    out = []
    i = 0
    pat = re.compile(r"\b(" + "|".join(sorted(table, key=len, reverse=True)) + r")\(")
    while True:
        m = pat.search(src, i)
        if not m:
            out.append(src[i:])
            break
        out.append(src[i:m.start()])
        j = m.end()
        depth = 1
        while depth:
            ch = src[j]
            if ch == "(":
                depth += 1
            elif ch == ")":
                depth -= 1
            j += 1
        inner = _expand(src[m.end():j - 1], gen)
        name = table[m.group(1)]
        if gen:
            out.append(f"(yield from {name[1]}({inner}))")
        else:
            out.append(f"{name[0]}({inner})")
        i = j
    return "".join(out)


_TEMPLATE = open(os.path.join(os.path.dirname(__file__), "evalsrc.txt")).read()


def _build():
    g = globals()
    sync = _expand(_TEMPLATE, False)
    exec(compile(sync, "absint/evaluator_sync", "exec"), g)
    gensrc = _expand(_TEMPLATE, True)
    # every function must be a generator in the resumable variant
    gensrc = re.sub(r"^def (\w+)\((.*)\):$", lambda m: f"def a{m.group(1)}({m.group(2)}):\n    if 0: yield", gensrc, flags=re.M)
    gensrc = gensrc.replace("return S_FunctionDef(n, env)", "return (yield from aS_FunctionDef(n, env))")
    # nested helper defs (indented) are untouched by the regexp
    exec(compile(gensrc, "absint/evaluator_resumable", "exec"), g)


def no_await(v, env):
    raise Inconclusive("await outside a coroutine")


def ev(n, env):
    return SYNC[n.__class__](n, env)


def aev(n, env):
    if not n._aw:
        return SYNC[n.__class__](n, env)
    return (yield from GENX[n.__class__](n, env))


def dispatch(s, env):
    return SSTMT[s.__class__](s, env)


def adispatch(s, env):
    if not s._aw:
        return SSTMT[s.__class__](s, env)
    return (yield from GSTMT[s.__class__](s, env))


_build()


def aX_Await(n, env):
    v = yield from aev(n.value, env)
    env.frame.at = n
    return (yield from await_iter(v, env))


def aX_Yield(n, env):
    v = None
    if n.value is not None:
        v = yield from aev(n.value, env)
    env.frame.at = n
    return (yield YieldVal(v))


def aX_YieldFrom(n, env):
    v = yield from aev(n.value, env)
    env.frame.at = n
    it = iter(v)
    env.frame.ctl.append(it)
    send = None
    throw = None
    while True:
        try:
            if throw is not None:
                t, throw = throw, None
                x = it.throw(t)
            elif send is None:
                x = next(it)
            else:
                x = it.send(send)
        except StopIteration as e:
            env.frame.ctl.pop()
            return e.value
        try:
            send = yield YieldVal(x)
        except BaseException as e:
            if is_engine(e) or not hasattr(it, "throw"):
                raise
            throw = e


def _bad_expr(n, env):
    raise Inconclusive("unsupported expression " + n.__class__.__name__)


def _bad_stmt(n, env):
    raise Inconclusive("unsupported statement " + n.__class__.__name__)


class _Table(dict):
    def __init__(self, bad):
        self.bad = bad

    def __missing__(self, k):
        return self.bad


def _abad(n, env):
    raise Inconclusive("unsupported construct " + n.__class__.__name__)
    yield


SYNC = _Table(_bad_expr)
GENX = _Table(_abad)
SSTMT = _Table(_bad_stmt)
GSTMT = _Table(_abad)
for _k, _v in list(globals().items()):
    if _k.startswith("X_") and hasattr(ast, _k[2:]):
        SYNC[getattr(ast, _k[2:])] = _v
    elif _k.startswith("aX_") and hasattr(ast, _k[3:]):
        GENX[getattr(ast, _k[3:])] = _v
    elif _k.startswith("S_") and hasattr(ast, _k[2:]):
        SSTMT[getattr(ast, _k[2:])] = _v
    elif _k.startswith("aS_") and hasattr(ast, _k[3:]):
        GSTMT[getattr(ast, _k[3:])] = _v


# --------------------------------------------------------------------- builtins
class _Marker:
    def __init__(self, name):
        self.name = name

    def __call__(self, *a, **k):
        if self.name == "super":
            return super(*a)
        raise Inconclusive(self.name)


SUPER = _Marker("super")
LOCALS = _Marker("locals")
GLOBALS = _Marker("globals")


def _forbidden(name):
    def f(*a, **k):
        raise Inconclusive(f"builtin {name}")
    return f


def _b_isinstance(o, c):
    if c is SUPER:
        return False
    return core.inst(o, c)


def _b_callable(o):
    if isinstance(o, Tok):
        return o.has("__call__")
    return callable(o)


def _b_hasattr(o, n):
    if isinstance(o, Tok):
        return n in ("__class__", "__eq__", "__hash__", "__str__", "__repr__", "__ne__") or o.has(n)
    return hasattr(o, n)


def _b_iter(o, *sentinel):
    return iter(o, *sentinel)


def _b_anext(it, *default):
    if default:
        return _anext_default(it, default[0])
    return it.__anext__()


async def _anext_default(it, d):
    try:
        return await it.__anext__()
    except StopAsyncIteration:
        return d


def _b_vars(*o):
    if not o or isinstance(o[0], (Tok, type, ModRef)):
        raise Inconclusive("builtin vars")
    return vars(o[0])


def _b_id(o):
    return run().serial(o) + 1000


def make_builtins():
    b = dict(vars(builtins))
    for k in ("open", "exec", "eval", "compile", "input", "breakpoint", "__import__", "exit", "quit", "dir"):
        b[k] = _forbidden(k)
    b["print"] = lambda *a, **k: None
    b["super"] = SUPER
    b["locals"] = LOCALS
    b["globals"] = GLOBALS
    b["anext"] = _b_anext
    b["aiter"] = lambda o: o.__aiter__()
    b["id"] = _b_id
    b["vars"] = _b_vars
    b["isinstance"] = _b_isinstance
    b["callable"] = _b_callable
    b["hasattr"] = _b_hasattr
    b["__debug__"] = True
    return b


BUILTINS = make_builtins()


# ---------------------------------------------------------------------- modules
class Module:
    """A module of the analysed program."""

    def __init__(self, name, path, relpath, is_pkg, program):
        self.name = name
        self.path = path
        self.relpath = relpath
        self.is_pkg = is_pkg
        self.program = program
        self.is_repo = True
        self.ns = {"__name__": name, "__doc__": None, "__file__": path,
                   "__package__": name if is_pkg else name.rpartition(".")[0]}
        self.loaded = False
        self.tree = None


class ModRef:
    """What the program sees as a module object."""

    def __init__(self, m):
        self.__dict__["_m"] = m

    def __getattr__(self, k):
        m = self.__dict__["_m"]
        if k in m.ns:
            return m.ns[k]
        sub = m.program.find(m.name + "." + k)
        if sub is not None:
            return m.program.load(m.name + "." + k)
        raise AttributeError(f"module '{m.name}' has no attribute '{k}'")

    def __setattr__(self, k, v):
        self._m.ns[k] = v

    def __repr__(self):
        return f"<module {self._m.name}>"


class Unmodelled:
    """An external name without a summary: may be imported, not used."""

    def __init__(self, name):
        self.__dict__["_name"] = name

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise Inconclusive(f"no summary for {self._name}")

    def __call__(self, *a, **k):
        raise Inconclusive(f"no summary for {self._name}")

    def __getitem__(self, k):
        return self

    def __mro_entries__(self, bases):
        return ()

    def __or__(self, o):
        return self

    __ror__ = __or__


class ModelModule:
    def __init__(self, name, ns, strict=True):
        self.__dict__["_name"] = name
        self.__dict__["_ns"] = ns

    def __getattr__(self, k):
        ns = self.__dict__["_ns"]
        if k in ns:
            return ns[k]
        if k.startswith("__"):
            raise AttributeError(k)
        return Unmodelled(f"{self._name}.{k}")

    def __repr__(self):
        return f"<model {self._name}>"


_AST_CACHE: dict = {}


class Program:
    """The parsed source tree of the analysed package."""

    def __init__(self, root, package="aioreactive", models=None):
        self.root = root
        self.package = package
        self.modules = {}
        self.models = models if models is not None else {}
        self.files = {}
        self.refs = {}

    def find(self, name):
        if name != self.package and not name.startswith(self.package + "."):
            return None
        rel = name.replace(".", "/")
        p = os.path.join(self.root, rel, "__init__.py")
        if os.path.exists(p):
            return p, True
        p = os.path.join(self.root, rel + ".py")
        if os.path.exists(p):
            return p, False
        return None

    def parse(self, path):
        t = _AST_CACHE.get(path)
        if t is None:
            with open(path, encoding="utf-8") as f:
                src = f.read()
            t = ast.parse(src, path)
            Analyzer(path).module(t, path)
            _AST_CACHE[path] = t
        return t

    def load(self, name):
        m = self.modules.get(name)
        if m is None:
            found = self.find(name)
            if found is None:
                raise ModuleNotFoundError(f"No module named '{name}'")
            path, is_pkg = found
            if "." in name:
                self.load(name.rpartition(".")[0])
                m = self.modules.get(name)
                if m is not None:
                    return self.refs[name]
            m = Module(name, path, os.path.relpath(path, self.root), is_pkg, self)
            self.modules[name] = m
            self.refs[name] = ModRef(m)
            m.tree = self.parse(path)
            fr = Frame(None)
            env = Env(m.tree._scope, None, fr, m.ns)
            env.module = m
            fr.env = env
            fr.fn = None
            core.RUN.stack.append(fr)
            try:
                exec_block(m.tree.body, env)
            except BaseException:
                core.RUN.stack.pop()
                del self.modules[name]
                raise
            core.RUN.stack.pop()
            m.loaded = True
            if "." in name:
                par, _, leaf = name.rpartition(".")
                self.modules[par].ns.setdefault(leaf, self.refs[name])
        return self.refs[name]

    def external(self, name):
        if name in self.models:
            return self.models[name]
        m = self.models[name] = ModelModule(name, {})
        return m


def import_module(name, env):
    prog = env.module.program
    if name == prog.package or name.startswith(prog.package + "."):
        return prog.load(name)
    return prog.external(name)


def import_from(n, env):
    prog = env.module.program
    m = env.module
    if n.level:
        base = m.name if m.is_pkg else m.name.rpartition(".")[0]
        for _ in range(n.level - 1):
            base = base.rpartition(".")[0]
        target = base + ("." + n.module if n.module else "")
    else:
        target = n.module
    if target == "__future__":
        return
    if target == prog.package or target.startswith(prog.package + "."):
        mod = prog.load(target)
        ns = prog.modules[target].ns
        for a in n.names:
            if a.name == "*":
                names = ns.get("__all__")
                if names is None:
                    names = [k for k in ns if not k.startswith("_")]
                for k in names:
                    store_name(k, getattr(mod, k), env)
                continue
            if a.name in ns:
                v = ns[a.name]
            elif prog.find(target + "." + a.name):
                v = prog.load(target + "." + a.name)
            else:
                raise ImportError(f"cannot import name '{a.name}' from '{target}'")
            store_name(a.asname or a.name, v, env)
        return
    mod = prog.external(target)
    for a in n.names:
        if a.name == "*":
            raise Inconclusive(f"from {target} import *")
        try:
            full = target + "." + a.name
            v = prog.models[full] if full in prog.models and a.name not in mod.__dict__.get("_ns", ()) else getattr(mod, a.name)
        except AttributeError:
            if full in prog.models:
                v = prog.models[full]
            else:
                raise ImportError(f"cannot import name '{a.name}' from '{target}'")
        store_name(a.asname or a.name, v, env)
