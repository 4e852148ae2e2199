"""Summaries of the libraries aioreactive is built on (the trusted base).

asyncio is modelled in aio.py; this file models `expression` and the few other
third-party or stateful standard modules, and lists the standard modules that
are pure enough to be used as they are.
"""
from __future__ import annotations

import abc
import collections
import collections.abc
import contextlib
import copy
import dataclasses
import datetime as _dt
import enum
import functools
import heapq
import inspect
import itertools
import math
import operator
import queue
import sys
import threading
import types
import typing
from collections import deque

from . import aio, core, interp
from .aio import Obj
from .core import EngineSignal, Inconclusive, run
from .interp import ModelModule


# ------------------------------------------------------------------ expression
class ObjectDisposedException(Exception):
    def __init__(self):
        super().__init__("Object has been disposed")


class OperationCanceledError(Exception):
    pass


class EffectError(Exception):
    pass


def pipe(x, *fns):
    for f in fns:
        x = f(x)
    return x


def pipe2(xs, *fns):
    return pipe(fns[0](*xs), *fns[1:]) if fns else xs


def compose(*fns):
    def _compose(source):
        for f in fns:
            source = f(source)
        return source
    return _compose


def identity(x):
    return x


def flip(fn):
    def _(b, a):
        return fn(a, b)
    return _


def fst(t):
    return t[0]


def snd(t):
    return t[1]


def _curry(args, arity, fun):
    def wrapper(*args_, **kw):
        if arity == 1:
            return fun(*args, *args_, **kw)
        return _curry(args + args_, arity - 1, fun)
    return wrapper


def curry(num_args):
    def wrapper(fun):
        return _curry((), num_args + 1, fun)
    return wrapper


def curry_flip(num_args):
    def _wrap_fun(fun):
        def _wrap_args(*args, **kwargs):
            def _wrap_curried(*curry_args):
                return fun(*curry_args, *args, **kwargs)
            return _curry((), num_args, _wrap_curried)
        return _wrap_args if num_args else fun
    return _wrap_fun


class TailCall(Obj):
    def __init__(self, *args, **kw):
        self.args = args
        self.kw = kw


class TailCallResult(Obj):
    pass


def tailrec(fn):
    def wrapper(*args, **kw):
        r = fn(*args, **kw)
        while isinstance(r, TailCall):
            r = fn(*r.args, **r.kw)
        return r
    return wrapper


def tailrec_async(fn):
    async def wrapper(*args, **kw):
        r = await fn(*args, **kw)
        while isinstance(r, TailCall):
            r = await fn(*r.args, **r.kw)
        return r
    return wrapper


# ---- option
class Option(Obj):
    __match_args__ = ("tag", "none", "some")
    __slots__ = ("tag", "some", "none")

    def __init__(self, **kw):
        kw.pop("tag", None)
        (name, v), = kw.items()
        self.tag = name
        setattr(self, name, v)

    @staticmethod
    def Some(v):
        return Option(some=v)

    @staticmethod
    def Nothing():
        return Nothing

    @property
    def _is(self):
        return self.tag == "some"

    def default_value(self, v):
        return self.some if self._is else v

    def default_with(self, g):
        return self.some if self._is else g()

    def map(self, f):
        return Some(f(self.some)) if self._is else Nothing

    def map2(self, f, o):
        return Some(f(self.some, o.some)) if self._is and o._is else Nothing

    def starmap(self, f):
        return Some(f(*self.some)) if self._is else Nothing

    def bind(self, f):
        return f(self.some) if self._is else Nothing

    def or_else(self, o):
        return self if self._is else o

    def or_else_with(self, f):
        return self if self._is else f()

    def filter(self, p):
        return self if self._is and p(self.some) else Nothing

    def to_list(self):
        return [self.some] if self._is else []

    def to_seq(self):
        return self.to_list()

    def is_some(self):
        return self._is

    def is_none(self):
        return not self._is

    def to_optional(self):
        return self.some if self._is else None

    @staticmethod
    def of_optional(v):
        return Nothing if (v is None or (isinstance(v, core.Tok) and v.isnone())) else Some(v)

    of_obj = of_optional

    @property
    def value(self):
        if self._is:
            return self.some
        raise ValueError("There is no value.")

    def pipe(self, *fns):
        return pipe(self, *fns)

    def __eq__(self, o):
        return isinstance(o, Option) and self.tag == o.tag and (not self._is or self.some == o.some)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return 5

    def __iter__(self):
        if self._is:
            return (yield self.some)
        raise EffectError(Nothing)

    def __repr__(self):
        return f"Some {self.some}" if self._is else "Nothing"


def Some(v):
    return Option(some=v)


Nothing = Option(none=None)


def is_some(o):
    return o.is_some()


def is_none(o):
    return o.is_none()


def default_arg(v, d):
    return v.default_value(d)


def _opt_fn(name):
    def outer(*a):
        def inner(o):
            return getattr(o, name)(*a)
        return inner
    return outer


OPTION_NS = dict(Option=Option, Some=Some, Nothing=Nothing, is_some=is_some, is_none=is_none,
                 to_list=lambda o: o.to_list(), of_optional=Option.of_optional, of_obj=Option.of_optional,
                 to_optional=lambda o: o.to_optional(), value=lambda o: o.value,
                 **{k: _opt_fn(k) for k in "map bind filter default_value default_with or_else or_else_with map2 starmap".split()})


# ---- result
class Result(Obj):
    __match_args__ = ("tag", "ok", "error")

    def __init__(self, **kw):
        (name, v), = kw.items()
        self.tag = name
        setattr(self, name, v)

    def is_ok(self):
        return self.tag == "ok"

    def is_error(self):
        return self.tag == "error"

    def map(self, f):
        return Result(ok=f(self.ok)) if self.tag == "ok" else self

    def bind(self, f):
        return f(self.ok) if self.tag == "ok" else self


def Ok(v):
    return Result(ok=v)


def Error(v):
    return Result(error=v)


# ---- tagged unions
class _CaseField:
    def __init__(self, kind):
        self.kind = kind


def case():
    return _CaseField("case")


def tag():
    return _CaseField("tag")


def tagged_union(_cls=None, *, frozen=False, repr=True, eq=True, order=False):
    def transform(cls):
        names = tuple(k for k, v in vars(cls).items() if isinstance(v, _CaseField))
        for k in names:
            delattr(cls, k)

        def __init__(self, **kwargs):
            t = kwargs.pop("tag", None)
            if len(kwargs) != 1:
                raise TypeError(f"One and only one case can be specified. Not {kwargs}")
            name, value = next(iter(kwargs.items()))
            if name not in names:
                raise TypeError(f"Unknown case name: {name}")
            if t is not None and t != name:
                raise TypeError(f"Tag {t} does not match case name {name}")
            object.__setattr__(self, "tag", name)
            object.__setattr__(self, name, value)

        cls.__init__ = __init__
        cls.__match_args__ = names
        if frozen:
            def __setattr__(self, name, value):
                if name in names:
                    raise TypeError("Cannot change the value of a tagged union case")
                object.__setattr__(self, name, value)
            cls.__setattr__ = __setattr__
        if eq:
            def __eq__(self, o):
                return isinstance(o, cls) and self.tag == o.tag and getattr(self, self.tag) == getattr(o, self.tag)
            cls.__eq__ = __eq__
            cls.__hash__ = lambda self: 11
        cls.__repr__ = lambda self: f"{cls.__name__}({self.tag})"
        return cls
    return transform if _cls is None else transform(_cls)


# ---- collections
class Block(Obj):
    __match_args__ = ("_value",)

    def __init__(self, value=()):
        self._value = tuple(value)

    @staticmethod
    def empty():
        return Block()

    @staticmethod
    def of(*a):
        return Block(a)

    @staticmethod
    def of_seq(xs):
        return Block(xs)

    @staticmethod
    def singleton(x):
        return Block((x,))

    def append(self, other):
        return Block(self._value + tuple(other))

    def cons(self, x):
        return Block((x,) + self._value)

    def head(self):
        return self._value[0]

    def tail(self):
        return Block(self._value[1:])

    def is_empty(self):
        return not self._value

    def skip(self, n):
        return Block(self._value[n:])

    def take(self, n):
        return Block(self._value[:n])

    def skip_last(self, n):
        return Block(self._value[:-n] if n else self._value)

    def take_last(self, n):
        return Block(self._value[-n:] if n else ())

    def item(self, i):
        return self._value[i]

    def map(self, f):
        return Block([f(x) for x in self._value])

    def filter(self, f):
        return Block([x for x in self._value if f(x)])

    def choose(self, f):
        out = []
        for x in self._value:
            out.extend(f(x).to_list())
        return Block(out)

    def fold(self, f, s):
        for x in self._value:
            s = f(s, x)
        return s

    def try_head(self):
        return Some(self._value[0]) if self._value else Nothing

    def pipe(self, *f):
        return pipe(self, *f)

    def __iter__(self):
        return iter(self._value)

    def __len__(self):
        return len(self._value)

    def __getitem__(self, k):
        return Block(self._value[k]) if isinstance(k, slice) else self._value[k]

    def __add__(self, o):
        return Block(self._value + tuple(o))

    def __eq__(self, o):
        return isinstance(o, Block) and self._value == o._value

    def __hash__(self):
        return 3


class Map(Obj):
    def __init__(self, d=None):
        self._d = dict(d or {})

    @staticmethod
    def empty():
        return Map()

    @staticmethod
    def create(items):
        return Map(dict(items))

    of_seq = of_list = of_block = create

    def add(self, k, v):
        d = dict(self._d)
        d[k] = v
        return Map({x: d[x] for x in _sorted(d)})

    def remove(self, k):
        d = dict(self._d)
        d.pop(k, None)
        return Map(d)

    def contains_key(self, k):
        return k in self._d

    def try_find(self, k):
        return Some(self._d[k]) if k in self._d else Nothing

    def try_get_value(self, k, lst):
        if k in self._d:
            lst.append(self._d[k])
            return True
        return False

    def change(self, k, f):
        r = f(self.try_find(k))
        return self.add(k, r.some) if r.is_some() else self.remove(k)

    def is_empty(self):
        return not self._d

    def keys(self):
        return self._d.keys()

    def values(self):
        return iter(list(self._d.values()))

    def items(self):
        return self._d.items()

    def to_list(self):
        return Block(self._d.items())

    to_seq = to_list

    def map(self, f):
        return Map({k: f(k, v) for k, v in self._d.items()})

    def filter(self, f):
        return Map({k: v for k, v in self._d.items() if f(k, v)})

    def fold(self, f, s):
        for kv in self._d.items():
            s = f(s, kv)
        return s

    def pipe(self, *f):
        return pipe(self, *f)

    def __getitem__(self, k):
        return self._d[k]

    def __contains__(self, k):
        return k in self._d

    def __iter__(self):
        return iter(self._d.items())

    def __len__(self):
        return len(self._d)

    def __bool__(self):
        return bool(self._d)

    def __eq__(self, o):
        return isinstance(o, Map) and self._d == o._d

    def __hash__(self):
        return 4


def _sorted(d):
    try:
        return sorted(d)
    except TypeError:
        return list(d)


class _Infinite(Obj):
    """seq.infinite: a fresh count from zero on every iteration."""

    def __iter__(self):
        return itertools.count(0)


def _seq_head(xs):
    for x in xs:
        return x
    raise ValueError("Sequence contains no elements")


SEQ_NS = dict(infinite=_Infinite(), head=_seq_head, empty=(),
              map=lambda f: (lambda xs: map(f, xs)), filter=lambda f: (lambda xs: filter(f, xs)),
              range=range, of_iterable=lambda xs: xs, of_list=lambda xs: xs, singleton=lambda x: [x],
              init_infinite=lambda f: _InitInf(f))


class _InitInf(Obj):
    def __init__(self, f):
        self.f = f

    def __iter__(self):
        return map(self.f, itertools.count(0))


def _coll_fn(name):
    def outer(*a):
        def inner(o):
            return getattr(o, name)(*a)
        return inner
    return outer


BLOCK_NS = dict(Block=Block, empty=Block(), of_seq=Block, of=Block.of, singleton=Block.singleton, of_list=Block,
                is_empty=lambda b: b.is_empty(), head=lambda b: b.head(), tail=lambda b: b.tail(), length=len,
                **{k: _coll_fn(k) for k in "append cons map filter choose skip take item fold".split()})
MAP_NS = dict(Map=Map, empty=Map(), of_seq=Map.create, of_list=Map.create, create=Map.create,
              is_empty=lambda m: m.is_empty(), **{k: _coll_fn(k) for k in "add remove contains_key try_find map filter change fold".split()})


# ---- disposables
class Disposable(abc.ABC):
    @abc.abstractmethod
    def dispose(self):
        raise NotImplementedError

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.dispose()
        return False

    @staticmethod
    def create(action):
        return AnonymousDisposable(action)


class AnonymousDisposable(Obj, Disposable):
    def __init__(self, action):
        self._is_disposed = False
        self._action = action

    def dispose(self):
        if not self._is_disposed:
            self._is_disposed = True
            self._action()

    def __enter__(self):
        if self._is_disposed:
            raise ObjectDisposedException()
        return self


class AsyncDisposable(abc.ABC):
    @abc.abstractmethod
    async def dispose_async(self):
        raise NotImplementedError

    async def __aenter__(self):
        return self

    async def __aexit__(self, *a):
        await self.dispose_async()

    @staticmethod
    def create(action):
        return AsyncAnonymousDisposable(action)

    @staticmethod
    def composite(*ds):
        return AsyncCompositeDisposable(*ds)

    @staticmethod
    def empty():
        return AsyncAnonymousDisposable(_anoop)


async def _anoop():
    pass


class AsyncAnonymousDisposable(Obj, AsyncDisposable):
    def __init__(self, action):
        assert aio.iscoroutinefunction(action)
        self._is_disposed = False
        self._action = action

    async def dispose_async(self):
        if self._is_disposed:
            return
        self._is_disposed = True
        await self._action()

    async def __aenter__(self):
        if self._is_disposed:
            raise ObjectDisposedException()
        return self


class AsyncCompositeDisposable(Obj, AsyncDisposable):
    def __init__(self, *ds):
        self._disposables = ds

    async def dispose_async(self):
        for d in self._disposables:
            await d.dispose_async()


# ---- cancellation
class CancellationToken(Obj):
    def __init__(self, cancelled=True, source=None):
        self._cancelled = cancelled
        self._source = CancellationTokenSource.cancelled_source() if source is None else source

    @property
    def is_cancellation_requested(self):
        return not self._cancelled and self._source.is_cancellation_requested

    @property
    def can_be_canceled(self):
        return not self._cancelled

    def throw_if_cancellation_requested(self):
        if self.is_cancellation_requested:
            raise ObjectDisposedException()

    def register(self, cb):
        return self._source.register_internal(cb)

    @staticmethod
    def none():
        return CancellationToken(True, None)


class CancellationTokenSource(Obj, Disposable):
    def __init__(self):
        self._is_disposed = False
        self._listeners = {}
        self._id = 0

    @property
    def token(self):
        return CancellationToken(False, self)

    @property
    def is_cancellation_requested(self):
        return self._is_disposed

    def cancel(self):
        self.dispose()

    def dispose(self):
        if self._is_disposed:
            return
        self._is_disposed = True
        for f in list(self._listeners.values()):
            try:
                f()
            except Exception:
                pass

    def register_internal(self, cb):
        if self._is_disposed:
            raise ObjectDisposedException()
        cur = self._id
        self._listeners[cur] = cb
        self._id += 1

        def dispose():
            del self._listeners[cur]
        return Disposable.create(dispose)

    def __enter__(self):
        if self._is_disposed:
            raise ObjectDisposedException()
        return self

    @staticmethod
    def cancelled_source():
        s = CancellationTokenSource()
        s.cancel()
        return s


# ---- aiotools and mailbox
def from_continuations(callback):
    f = aio.Future()

    def done(v):
        if not f.done():
            f.set_result(v)

    def error(e):
        if not f.done():
            f.set_exception(e)

    def cancel(_):
        if not f.done():
            f.cancel()

    callback(done, error, cancel)
    return f


async def _runner(c):
    return await c


def start(computation, token=None):
    task = aio.create_task(_runner(computation))
    if token:
        token.register(task.cancel)
    return None


def start_immediate(computation, token=None):
    return start(computation, token)


async def singleton(v):
    return v


async def aempty():
    pass


async def _aio_sleep(msecs):
    await aio.sleep(msecs / 1000.0)


AIOTOOLS_NS = dict(from_continuations=from_continuations, start=start, start_immediate=start_immediate,
                   singleton=singleton, sleep=_aio_sleep, empty=aempty, from_result=singleton)


class AsyncReplyChannel(Obj):
    def __init__(self, fn):
        self.fn = fn

    def reply(self, r):
        self.fn(r)


class _Reply(Obj):
    def __init__(self, f):
        self.f = f

    def put(self, r):
        if r is not None and not self.f.done():
            self.f.set_result(r)


class MailboxProcessor(Obj):
    def __init__(self, token=None):
        self.messages = SimpleQueue()
        self.token = token or CancellationToken.none()
        self.loop = aio.get_loop()
        self.continuation = None
        self.cancel = None

    def post(self, msg):
        self.messages.q.append(msg)
        self.loop.call_soon_threadsafe(self._process)

    def post_and_async_reply(self, build):
        f = aio.Future()
        self.messages.q.append(build(AsyncReplyChannel(_Reply(f).put)))
        self._process()
        return f

    async def receive(self):
        if self.continuation:
            raise Exception("Receive can only be called once!")
        f = aio.Future()
        self.continuation = f
        self.cancel = f
        self._process()
        return await f

    def _process(self):
        if self.token.is_cancellation_requested:
            c, self.cancel = self.cancel, None
            if c is not None and not c.done():
                c.cancel()
            return
        if self.continuation is None or not self.messages.q:
            return
        msg = self.messages.q.popleft()
        f, self.continuation = self.continuation, None
        if not f.done():
            f.set_result(msg)

    @staticmethod
    def start(body, cancellation_token=None):
        m = MailboxProcessor(cancellation_token)
        start_immediate(body(m), cancellation_token)
        return m


# ------------------------------------------------------------------- misc libs
class _Logger:
    def _no(self, *a, **k):
        return None

    debug = info = warning = error = exception = critical = log = warn = addHandler = setLevel = _no

    def isEnabledFor(self, lvl):
        return False


_LOGGER = _Logger()
LOGGING_NS = dict(getLogger=lambda *a: _LOGGER, Logger=_Logger, DEBUG=10, INFO=20, WARNING=30, ERROR=40,
                  basicConfig=lambda *a, **k: None, NullHandler=object,
                  **{k: _LOGGER._no for k in "debug info warning error exception critical".split()})

_EPOCH = _dt.datetime(2020, 1, 1)


class datetime(_dt.datetime):
    @classmethod
    def now(cls, tz=None):
        d = _EPOCH.replace(tzinfo=tz) + _dt.timedelta(seconds=aio.get_loop().time())
        return d

    @classmethod
    def utcnow(cls):
        return cls.now()


DATETIME_NS = dict(datetime=datetime, timedelta=_dt.timedelta, timezone=_dt.timezone, UTC=_dt.timezone.utc, date=_dt.date)
TIME_NS = dict(monotonic=lambda: aio.get_loop().time(), time=lambda: aio.get_loop().time() + 1.5e9,
               perf_counter=lambda: aio.get_loop().time(), sleep=lambda s: (_ for _ in ()).throw(Inconclusive("blocking sleep")))


# ReactiveX
class RxDisposable(Obj):
    def __init__(self, action=None):
        self.is_disposed = False
        self.action = action

    def dispose(self):
        if not self.is_disposed:
            self.is_disposed = True
            if self.action is not None:
                self.action()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.dispose()


class _AutoDetach(Obj):
    def __init__(self, on_next, on_error, on_completed):
        self._n, self._e, self._c = on_next, on_error, on_completed
        self.is_stopped = False
        self.sub = None
        self.disposed = False

    def on_next(self, v):
        if self.is_stopped:
            return
        try:
            self._n(v)
        except EngineSignal:
            raise
        except Exception:
            self.dispose()
            raise

    def on_error(self, e):
        if self.is_stopped:
            return
        self.is_stopped = True
        try:
            self._e(e)
        finally:
            self.dispose()

    def on_completed(self):
        if self.is_stopped:
            return
        self.is_stopped = True
        try:
            self._c()
        finally:
            self.dispose()

    def dispose(self):
        self.is_stopped = True
        self.disposed = True
        if self.sub is not None:
            s, self.sub = self.sub, None
            s.dispose()


class RxObservable(Obj):
    def __init__(self, subscribe=None):
        self._subscribe = subscribe

    def subscribe(self, on_next, on_error, on_completed):
        ad = _AutoDetach(on_next, on_error, on_completed)
        d = self._subscribe(ad, None)
        if ad.disposed:
            if d is not None:
                d.dispose()
        else:
            ad.sub = d
        return RxDisposable(ad.dispose)


class _Base(Obj):
    pass


# functools.lru_cache keeps hidden state; model it with a visible table
class _Cached(Obj):
    def __init__(self, fn):
        self.fn = fn
        self.table = {}

    def __call__(self, *a, **k):
        key = (a, tuple(k.items()))
        if key not in self.table:
            self.table[key] = self.fn(*a, **k)
        return self.table[key]

    def __get__(self, o, c=None):
        return self if o is None else types.MethodType(self, o)


def _lru_cache(maxsize=128, typed=False):
    if callable(maxsize):
        return _Cached(maxsize)
    return _Cached


class _SingleDispatch(Obj):
    def __init__(self, fn):
        self.table = [(object, fn)]

    def register(self, cls, fn=None):
        if fn is None:
            if isinstance(cls, interp.Function):
                fn, a = cls, cls.node.args
                ann = (a.posonlyargs + a.args)[0].annotation
                if ann is None:
                    raise Inconclusive("singledispatch")
                cls = interp.ev(ann, fn.env)
            else:
                return lambda f: self.register(cls, f)
        self.table.append((cls, fn))
        return fn

    def dispatch(self, v):
        best = None
        for c, f in self.table:
            if core.inst(v, c) and (best is None or issubclass(c, best[0])):
                best = c, f
        return best[1]

    def __call__(self, v, *a, **k):
        return self.dispatch(v)(v, *a, **k)


def _wraps(wrapped, *a, **k):
    def deco(f):
        return f
    return deco


def _no(name):
    def f(*a, **k):
        raise Inconclusive(name)
    return f


def _dataclass(cls=None, /, **kw):
    """dataclasses.dataclass; classes get a deterministic identity hash, which must not look like an explicit one."""
    def deco(c):
        own = vars(c).get("__hash__")
        if own is interp._det_hash:
            del c.__hash__
        c = dataclasses.dataclass(c, **kw)
        if c.__hash__ is object.__hash__:
            c.__hash__ = interp._det_hash
        return c
    return deco if cls is None else deco(cls)


def _ns(mod, **over):
    d = {k: v for k, v in vars(mod).items() if not k.startswith("__")}
    d.update(over)
    return d


class SimpleQueue(Obj):
    def __init__(self, maxsize=0):
        self.q = deque()

    def put(self, x):
        self.q.append(x)

    put_nowait = put

    def get(self, *a):
        if not self.q:
            raise Inconclusive("blocking queue get")
        return self.q.popleft()

    def get_nowait(self):
        if not self.q:
            raise queue.Empty
        return self.q.popleft()

    def empty(self):
        return not self.q

    def qsize(self):
        return len(self.q)


class Lock(Obj):
    def __init__(self):
        self.n = 0

    def acquire(self, *a, **k):
        self.n += 1
        return True

    def release(self):
        self.n -= 1

    def locked(self):
        return self.n > 0

    def __enter__(self):
        self.n += 1
        return True

    def __exit__(self, *a):
        self.n -= 1


def build():
    M = {}

    def add(name, ns):
        M[name] = ModelModule(name, ns)

    aio_ns = {k: getattr(aio, k) for k in (
        "Future Task Event Lock Semaphore Condition Queue QueueEmpty QueueFull sleep wait wait_for gather shield TaskGroup as_completed "
        "create_task ensure_future current_task all_tasks iscoroutine iscoroutinefunction isfuture timeout Handle "
        "TimerHandle BaseEventLoop FIRST_COMPLETED FIRST_EXCEPTION ALL_COMPLETED CancelledError InvalidStateError").split()}
    aio_ns.update(get_event_loop=aio.get_loop, get_running_loop=aio.get_loop, AbstractEventLoop=aio.BaseEventLoop,
                  TimeoutError=TimeoutError, BoundedSemaphore=aio.Semaphore, new_event_loop=aio.get_loop,
                  set_event_loop=lambda l: None)
    add("asyncio", aio_ns)
    for sub in ("tasks", "futures", "locks", "queues", "events", "base_events", "coroutines", "exceptions"):
        add("asyncio." + sub, dict(aio_ns))
        aio_ns[sub] = M["asyncio." + sub]
    add("asyncio.log", dict(logger=_LOGGER))
    aio_ns["log"] = M["asyncio.log"]

    cts = dict(CancellationToken=CancellationToken, CancellationTokenSource=CancellationTokenSource)
    err = dict(ObjectDisposedException=ObjectDisposedException, OperationCanceledError=OperationCanceledError)
    disp = dict(Disposable=Disposable, AsyncDisposable=AsyncDisposable, AnonymousDisposable=AnonymousDisposable,
                AsyncAnonymousDisposable=AsyncAnonymousDisposable, AsyncCompositeDisposable=AsyncCompositeDisposable)
    system = {**cts, **err, **disp}
    add("expression.system", system)
    add("expression.system.disposable", dict(disp))
    add("expression.system.cancellation", dict(cts))
    add("expression.system.error", dict(err))
    add("expression.core.aiotools", AIOTOOLS_NS)
    add("expression.core.option", OPTION_NS)
    add("expression.collections.seq", SEQ_NS)
    add("expression.collections.block", BLOCK_NS)
    add("expression.collections.map", MAP_NS)
    add("expression.collections", dict(seq=M["expression.collections.seq"], block=M["expression.collections.block"],
                                       map=M["expression.collections.map"], Block=Block, Map=Map))
    cor = dict(pipe=pipe, pipe2=pipe2, pipe3=pipe2, compose=compose, identity=identity, flip=flip, fst=fst, snd=snd,
               curry=curry, curry_flip=curry_flip, curry_flipped=curry_flip, TailCall=TailCall,
               TailCallResult=TailCallResult, tailrec=tailrec, tailrec_async=tailrec_async, Option=Option, Some=Some,
               Nothing=Nothing, is_some=is_some, is_none=is_none, default_arg=default_arg, Result=Result, Ok=Ok,
               Error=Error, tagged_union=tagged_union, case=case, tag=tag, MailboxProcessor=MailboxProcessor,
               AsyncReplyChannel=AsyncReplyChannel, aiotools=M["expression.core.aiotools"],
               option=M["expression.core.option"], EffectError=EffectError)
    add("expression.core", dict(cor))
    for sub, names in dict(pipe="pipe pipe2 pipe3", compose="compose identity", curry="curry curry_flip curry_flipped",
                           fn="TailCall TailCallResult tailrec tailrec_async", mailbox="MailboxProcessor AsyncReplyChannel",
                           tagged_union="tagged_union case tag", misc="flip fst snd identity", result="Result Ok Error").items():
        add("expression.core." + sub, {k: cor[k] for k in names.split()})
    top = {**cor, **system, "core": M["expression.core"], "collections": M["expression.collections"],
           "system": M["expression.system"]}
    add("expression", top)

    add("logging", LOGGING_NS)
    add("datetime", DATETIME_NS)
    add("time", TIME_NS)
    add("reactivex", dict(create=lambda s: RxObservable(s), Observable=RxObservable))
    add("reactivex.abc", dict(DisposableBase=_Base, ObserverBase=_Base, SchedulerBase=_Base, ObservableBase=_Base))
    add("reactivex.disposable", dict(Disposable=RxDisposable))
    M["reactivex"]._ns.update(abc=M["reactivex.abc"], disposable=M["reactivex.disposable"], Observable=RxObservable)
    add("pytest", dict(approx=lambda v, **k: v))
    add("queue", dict(SimpleQueue=SimpleQueue, Queue=SimpleQueue, Empty=queue.Empty, Full=queue.Full))
    add("threading", dict(Lock=Lock, RLock=Lock, get_ident=lambda: 1))
    add("inspect", dict(iscoroutinefunction=aio.iscoroutinefunction, iscoroutine=aio.iscoroutine,
                        isawaitable=aio.isawaitable, isfunction=callable, isclass=inspect.isclass))
    add("contextvars", dict(ContextVar=aio.ContextVar))
    add("warnings", dict(warn=lambda *a, **k: None))
    add("weakref", dict(WeakSet=_StrongSet, ref=lambda o, *a: (lambda: o), WeakKeyDictionary=dict, WeakValueDictionary=dict))
    return M


class _StrongSet(set):
    pass


def _typing_ext():
    ns = _ns(typing)
    return ns


def build_all():
    M = build()
    M["typing"] = ModelModule("typing", _ns(typing))
    M["typing_extensions"] = ModelModule("typing_extensions", _typing_ext())
    for m in (collections, collections.abc, itertools, heapq, abc, enum, dataclasses, operator, contextlib, math, copy, types):
        M[m.__name__] = ModelModule(m.__name__, _ns(m))
    M["collections"]._ns["abc"] = M["collections.abc"]
    M["functools"] = ModelModule("functools", _ns(functools, lru_cache=_lru_cache, cache=_Cached, wraps=_wraps, singledispatch=_SingleDispatch,
                                                  singledispatchmethod=_no("singledispatchmethod"),
                                                  update_wrapper=lambda w, *a, **k: w))
    M["dataclasses"]._ns["dataclass"] = _dataclass
    M["dataclasses"]._ns["make_dataclass"] = _no("dataclasses.make_dataclass")
    for m in ("bisect", "string", "textwrap"):
        M[m] = ModelModule(m, _ns(__import__(m)))
    M["sys"] = ModelModule("sys", dict(maxsize=sys.maxsize, version_info=sys.version_info, platform="linux", exc_info=_no("sys.exc_info"),
                                       getrecursionlimit=lambda: 1000, stderr=None, stdout=None))
    M["numbers"] = ModelModule("numbers", _ns(__import__("numbers")))
    return M
