from __future__ import annotations
import asyncio, contextlib, functools, itertools, operator, collections, heapq, dataclasses, enum, math, copy, abc, types
from collections import deque, defaultdict, OrderedDict, Counter, namedtuple
from dataclasses import dataclass, field
from typing import Any, Generic, TypeVar, NamedTuple, Protocol, cast, overload, Callable
from contextlib import suppress, asynccontextmanager, contextmanager, AsyncExitStack, ExitStack
T = TypeVar("T")

def t_comp():
    return [x*y for x in range(4) if x % 2 for y in range(3)], {x: x*x for x in range(3)}, {x for x in "abca"} == set("abc"), list(x for x in range(3))

def t_match():
    out = []
    for v in (1, "a", [1, 2, 3], {"k": 5}, (1, 2), None, 3.5):
        match v:
            case 1: out.append("one")
            case str(s): out.append(s)
            case [a, b]: out.append((a, b))
            case [a, *r]: out.append((a, r))
            case {"k": q, **rest}: out.append((q, rest))
            case None: out.append("none")
            case x if x > 3: out.append("big")
            case _: out.append("other")
    return out

def t_try():
    out = []
    def f(n):
        try:
            if n == 0: return "r"
            if n == 1: raise ValueError("x")
            if n == 2: raise KeyError("k")
        except ValueError as e:
            out.append(str(e))
            return "v"
        except (KeyError, TypeError) as e:
            out.append(repr(e))
            try:
                raise RuntimeError("z") from e
            except RuntimeError as r:
                out.append(r.__cause__ is e)
        else:
            out.append("else")
        finally:
            out.append(("fin", n))
        return "end"
    return [f(i) for i in range(4)], out

def t_loop():
    out = []
    for i in range(10):
        if i == 2: continue
        if i == 5: break
        out.append(i)
    else:
        out.append("no")
    n = 0
    while n < 3:
        n += 1
    else:
        out.append("w")
    return out, n

def t_closure():
    def mk():
        c = 0
        def inc(by=1):
            nonlocal c
            c += by
            return c
        return inc, lambda: c
    a, g = mk(); a(); a(5)
    fs = [lambda i=i: i for i in range(3)]
    gs = [lambda: i for i in range(3)]
    return g(), [f() for f in fs], [f() for f in gs]

def t_gen():
    def g(n):
        for i in range(n):
            x = yield i
            if x: yield ("got", x)
        return "done"
    def h():
        r = yield from g(2)
        yield r
    it = g(3); out = [next(it), it.send("a"), next(it)]
    it.close()
    return out, list(h()), list(itertools.chain(g(2), g(1))), next(iter([]), "dflt")

class A:
    cls = []
    def __init__(self, x): self.x = x
    @property
    def dbl(self): return self.x * 2
    @dbl.setter
    def dbl(self, v): self.x = v // 2
    @classmethod
    def mk(cls, x): return cls(x)
    @staticmethod
    def st(x): return x + 1
    def __eq__(self, o): return isinstance(o, A) and o.x == self.x
    def __hash__(self): return hash(self.x)
    def __call__(self, y): return self.x + y
    def __getitem__(self, k): return (k, self.x)
    def __add__(self, o): return A(self.x + o.x)
    def __iadd__(self, o): self.x += o; return self
    def __len__(self): return self.x
    def __contains__(self, k): return k == self.x
    def __iter__(self): yield self.x
    def __bool__(self): return self.x > 1
    def __enter__(self): self.x += 1; return self
    def __exit__(self, *a): self.x -= 1; return a[0] is ValueError
    def __getattr__(self, n):
        if n == "magic": return 42
        raise AttributeError(n)

class B(A):
    def __init__(self, x):
        super().__init__(x + 1)
        self.__priv = 3
    def __repr__(self): return f"B({self.x}, {self.__priv!r:>3})"
    def mro(self): return [c.__name__ for c in type(self).__mro__]

def t_class():
    a = A(2); b = B.mk(3); a.dbl = 10
    a += 1
    with b as bb:
        raise ValueError
    with b: pass
    return a.x, a.dbl, b.x, repr(b), b.mro(), A.st(3), a(1), a[1:2], a[1], len(a), 6 in a, list(a), bool(A(0)), a == A(6), {A(1): 2}[A(1)], (A(1)+A(2)).x, a.magic, hasattr(a, "nope"), getattr(a, "nope", 7), b._B__priv, not A(0)

@dataclass
class D:
    a: int
    b: list = field(default_factory=list)
    c: str = "x"
    def go(self): return (self.a, self.b)

@dataclass(frozen=True, slots=True, order=True)
class E:
    a: int
    b: int = 2

class Color(enum.Enum):
    R = 1
    G = enum.auto()
    @property
    def up(self): return self.name

class NT(NamedTuple):
    a: int
    b: str = "q"
    def tw(self): return self.a * 2

def t_dc():
    d = D(1); d.b.append(3)
    P = namedtuple("P", "x y")
    p = P(1, 2)
    try:
        E(1).a = 4
        fz = False
    except dataclasses.FrozenInstanceError:
        fz = True
    x, y = p
    return d.go(), d == D(1, [3]), repr(d), E(1) < E(2), E(1) == E(1, 2), hash(E(1)) == hash(E(1)), Color.R.up, Color(2) is Color.G, [c.name for c in Color], NT(3).tw(), NT(3)._replace(a=4).a, p.x, p._asdict(), dataclasses.replace(E(1), b=5).b, fz, dataclasses.asdict(d)

def t_args():
    def f(a, /, b, *c, d=4, **e): return a, b, c, d, e
    @functools.wraps(f)
    def w(*a, **k): return f(*a, **k)
    p = functools.partial(f, 1, d=9)
    out = []
    try: f()
    except TypeError: out.append("te")
    try: f(1, 2, a=3, b=4)
    except TypeError: out.append("te2")
    return f(1, 2), f(1, b=2, z=3), w(1, 2, 3, *[4, 5], **{"d": 1}), p(2), functools.reduce(operator.add, [1, 2, 3]), functools.reduce(lambda a, b: a * b, [1, 2, 3], 5), out

def t_star():
    a, *b, c = range(5)
    (x, y), z = (1, 2), 3
    l = [1, *b, *{9: 1}]
    d = {**{"a": 1}, "b": 2}
    s = slice(1, None, 2)
    l[1:2] = [7, 7]
    del l[0]
    if (n := len(l)) > 2: n += 1
    return a, b, c, x, y, z, l, d, l[s], n, 1 < 2 < 3, 1 if [] else 2, [1] or 3, not 1, f"{n:03d} {n!r} {'a'}"

def t_itertools():
    c = itertools.count(3)
    return [next(c), next(c)], list(itertools.islice(itertools.count(), 3)), list(itertools.takewhile(lambda x: x < 3, range(9))), list(itertools.accumulate([1, 2, 3])), list(zip(range(3), "abc")), list(enumerate("ab", 1)), list(itertools.repeat(1, 2)), list(itertools.starmap(lambda a, b: a + b, [(1, 2)])), list(map(lambda a: a + 1, [1])), list(filter(None, [0, 1])), sorted([3, 1, 2], key=lambda x: -x), any(x for x in [0, 1]), all([]), sum([1, 2]), min(3, 1), max([1, 5]), list(reversed([1, 2])), list(itertools.zip_longest([1], [2, 3])), [(k, list(g)) for k, g in itertools.groupby([1, 1, 2])], list(itertools.pairwise([1, 2, 3]))

def t_coll():
    d = deque([1, 2, 3], maxlen=3); d.append(4); d.appendleft(0); d.rotate(1)
    dd = defaultdict(list); dd["a"].append(1)
    o = OrderedDict(); o["z"] = 1; o["a"] = 2; o.move_to_end("z")
    h = []; heapq.heappush(h, (2, "b")); heapq.heappush(h, (1, "a"))
    x = {"a": 1}; x.setdefault("b", []).append(1); x.update(c=3); y = x.pop("c", None)
    return list(d), dict(dd), list(o), heapq.heappop(h), x, y, Counter("aab").most_common(1), d.popleft(), frozenset([1]) | {2}, "a,b".split(","), "x".join(["1", "2"])

def t_with():
    out = []
    @contextmanager
    def cm(n):
        out.append(("in", n))
        try:
            yield n
        except ValueError:
            out.append("sup")
        finally:
            out.append(("out", n))
    with cm(1) as a, cm(2) as b:
        out.append((a, b))
        raise ValueError
    with suppress(KeyError):
        {}["x"]
    with ExitStack() as st:
        st.callback(out.append, "cb")
        st.enter_context(cm(3))
    with contextlib.nullcontext(5) as q: out.append(q)
    class C(contextlib.ContextDecorator):
        def __enter__(self): out.append("E")
        def __exit__(self, *a): out.append("X")
    return out

def t_glob():
    global GG
    GG = 3
    return GG, type(3).__name__, isinstance(True, int), callable(len), repr("a"), divmod(7, 2), round(2.567, 2), abs(-3), pow(2, 3), 7 // 2, 7 % 3, 2 ** 3, 1 << 2, 5 & 4, 5 | 2, 5 ^ 1, ~1, -3, 1 @ MM() if False else 0, hex(10), chr(65), ord("A"), int("3"), float("1.5"), bytes([1]), math.inf > 3, math.floor(2.5)

def t_exc():
    out = []
    class My(Exception):
        def __init__(self, code): super().__init__(code); self.code = code
    try:
        try:
            raise My(3)
        finally:
            out.append("f")
    except My as e:
        out.append((e.code, e.args))
    try:
        raise My
    except TypeError: out.append("te")
    try:
        assert 1 == 2, "msg"
    except AssertionError as e: out.append(str(e))
    def f():
        try:
            return 1
        finally:
            out.append("ff")
    def g():
        for i in range(3):
            try:
                continue
            finally:
                out.append(i)
    try:
        try: raise ValueError("a")
        except ValueError: raise KeyError("b")
    except KeyError as e: out.append(repr(e.__context__))
    try:
        raise ValueError("q") from None
    except ValueError as e: out.append(e.__suppress_context__)
    try:
        raise ExceptionGroup("g", [ValueError(1), KeyError(2)])
    except* ValueError as eg: out.append(len(eg.exceptions))
    except* KeyError as eg: out.append("k")
    return f(), g(), out

def t_deco():
    def deco(n):
        def w(f):
            def inner(*a): return (n, f(*a))
            return inner
        return w
    @deco(1)
    @deco(2)
    def f(x): return x
    class CP:
        @functools.cached_property
        def v(self): return object()
    c = CP()
    @functools.singledispatch
    def sd(x): return "o"
    @sd.register
    def _(x: int): return "i"
    @functools.lru_cache(None)
    def fib(n): return n if n < 2 else fib(n-1) + fib(n-2)
    return f(3), c.v is c.v, fib(10), sd(3), sd("x")

class Desc:
    def __set_name__(self, o, n): self.n = "_" + n
    def __get__(self, o, t=None): return self if o is None else getattr(o, self.n, 0)
    def __set__(self, o, v): setattr(o, self.n, v)
class HD:
    d = Desc()
    __slots__ = ("_d",)
class Meta(type):
    def __new__(m, n, b, ns, **k):
        c = super().__new__(m, n, b, ns); c.tag = k.get("tag"); return c
class WM(metaclass=Meta, tag=3):
    def __init_subclass__(cls, **k): cls.sub = True
class WS(WM): pass
class Gn(Generic[T], abc.ABC):
    @abc.abstractmethod
    def m(self): ...
class Gi(Gn[int]):
    def m(self): return 1
def t_meta():
    h = HD(); h.d = 4
    try:
        Gn()
        ab = False
    except TypeError: ab = True
    return h.d, WM.tag, WS.sub, Gi().m(), ab, issubclass(Gi, Gn)

async def a_gather():
    async def f(x, d):
        await asyncio.sleep(d)
        return x
    return await asyncio.gather(f(1, .02), f(2, .01))

async def a_gather_exc():
    async def f(x):
        await asyncio.sleep(.01)
        if x: raise ValueError(x)
        return x
    return [repr(v) for v in await asyncio.gather(f(0), f(1), return_exceptions=True)]

async def a_tg():
    out = []
    async def f(x, d):
        await asyncio.sleep(d); out.append(x); return x
    async with asyncio.TaskGroup() as tg:
        a = tg.create_task(f(1, .02)); b = tg.create_task(f(2, .01))
    return out, a.result(), b.result()

async def a_tg_exc():
    out = []
    async def f(x, d):
        try:
            await asyncio.sleep(d)
        except asyncio.CancelledError:
            out.append(("c", x)); raise
        raise ValueError(x)
    try:
        async with asyncio.TaskGroup() as tg:
            tg.create_task(f(1, .02)); tg.create_task(f(2, .01))
    except* ValueError as eg:
        out.append([repr(e) for e in eg.exceptions])
    return out

async def a_cancel():
    out = []
    async def f():
        try:
            await asyncio.sleep(1)
        except asyncio.CancelledError:
            out.append("c"); raise
        finally:
            out.append("f")
    t = asyncio.create_task(f()); await asyncio.sleep(0); t.cancel()
    try: await t
    except asyncio.CancelledError: out.append("cc")
    return out, t.cancelled(), t.done()

async def a_shield():
    out = []
    async def f():
        await asyncio.sleep(.02); out.append("done")
    t = asyncio.create_task(f())
    try:
        await asyncio.wait_for(asyncio.shield(t), .01)
    except asyncio.TimeoutError: out.append("to")
    await t
    return out

async def a_timeout():
    out = []
    try:
        async with asyncio.timeout(.01):
            await asyncio.sleep(1)
    except TimeoutError: out.append("to")
    try:
        await asyncio.wait_for(asyncio.sleep(1), timeout=.01)
    except asyncio.TimeoutError: out.append("to2")
    return out, await asyncio.wait_for(asyncio.sleep(0, "v"), 1)

async def a_sync():
    out = []
    ev = asyncio.Event(); lk = asyncio.Lock(); q = asyncio.Queue(); sem = asyncio.Semaphore(1); cond = asyncio.Condition()
    async def w(n):
        await ev.wait()
        async with lk:
            out.append(("in", n)); await asyncio.sleep(0); out.append(("out", n))
        await q.put(n)
    async def cw():
        async with cond:
            await cond.wait_for(lambda: len(out) > 3)
            out.append("cond")
    ts = [asyncio.create_task(w(i)) for i in range(2)] + [asyncio.ensure_future(cw())]
    await asyncio.sleep(0); ev.set()
    r = [await q.get(), await q.get()]
    async with cond: cond.notify_all()
    await asyncio.wait(ts)
    async with sem: out.append(sem.locked())
    return out, r, q.empty()

async def a_wait():
    async def f(x, d):
        await asyncio.sleep(d); return x
    ts = [asyncio.create_task(f(i, .01 * (i + 1))) for i in range(3)]
    d, p = await asyncio.wait(ts, return_when=asyncio.FIRST_COMPLETED)
    r = [t.result() for t in d], len(p)
    for t in p: t.cancel()
    out = []
    for c in asyncio.as_completed([f(1, .02), f(2, .01)]): out.append(await c)
    return r, out

async def a_agen():
    out = []
    async def g():
        try:
            for i in range(5):
                await asyncio.sleep(0)
                yield i
        finally:
            out.append("fin")
    async for x in g():
        out.append(x)
    a = g()
    async for x in a:
        if x == 2: break
    await a.aclose()
    r = [x async for x in g() if x % 2]
    class It:
        def __init__(self): self.n = 0
        def __aiter__(self): return self
        async def __anext__(self):
            self.n += 1
            if self.n > 2: raise StopAsyncIteration
            return self.n
    async for x in It(): out.append(x)
    else: out.append("else")
    it = It(); out.append(await anext(it)); out.append(await it.__anext__()); out.append(await anext(it, "d"))
    async with contextlib.aclosing(g()) as gg:
        async for x in gg:
            break
    return out, r

async def a_cm():
    out = []
    @asynccontextmanager
    async def cm(n):
        out.append(("in", n)); await asyncio.sleep(0)
        try:
            yield n
        finally:
            out.append(("out", n))
    try:
        async with cm(1) as a, cm(2) as b:
            raise ValueError
    except ValueError: out.append("ve")
    async with AsyncExitStack() as st:
        await st.enter_async_context(cm(3))
        async def cb(x): out.append(x)
        st.push_async_callback(cb, "cb")
        st.callback(out.append, "sync")
    st = AsyncExitStack()
    await st.enter_async_context(cm(4)); await st.aclose()
    return out

async def a_loop():
    out = []
    loop = asyncio.get_running_loop()
    h = loop.call_later(.01, out.append, "later"); loop.call_soon(out.append, "soon"); h2 = loop.call_at(loop.time() + .005, out.append, "at")
    c = loop.call_later(.001, out.append, "no"); c.cancel()
    f = loop.create_future(); loop.call_soon(f.set_result, 3)
    out.append(await f)
    f2 = asyncio.Future(); f2.add_done_callback(lambda x: out.append(("cb", x.result()))); f2.set_result(9)
    await asyncio.sleep(.02)
    t = loop.create_task(asyncio.sleep(0, 5), name="x")
    out.append(await t)
    f3 = loop.create_future(); f3.set_exception(KeyError(1)); out.append(repr(f3.exception()))
    return out, asyncio.current_task() is not None

async def a_ctx():
    import contextvars
    v = contextvars.ContextVar("v", default=1)
    out = [v.get()]
    tok = v.set(2)
    async def f(): out.append(v.get()); v.set(5)
    await asyncio.create_task(f())
    out.append(v.get()); v.reset(tok); out.append(v.get())
    return out

async def a_await():
    class Aw:
        def __await__(self):
            yield from asyncio.sleep(0).__await__()
            return 7
    x = await Aw()
    coros = [asyncio.sleep(0, i) for i in range(2)]
    r = [await c for c in coros]
    res = (await asyncio.sleep(0, 1)) + (await asyncio.sleep(0, 2))
    f = lambda: asyncio.sleep(0, 4)
    d = {k: await f() for k in "ab"}
    return x, r, res, await f(), d, asyncio.iscoroutine(c0 := f()), await c0, asyncio.iscoroutinefunction(a_await)

def t_misc():
    import bisect, weakref, sys
    class W: pass
    w = W(); r = weakref.ref(w)
    l = [1, 3]; bisect.insort(l, 2)
    return l, r() is w, copy.copy([1]), copy.deepcopy({"a": [1]}), types.SimpleNamespace(a=1).a, operator.itemgetter(1)([1, 2]), operator.attrgetter("real")(3), operator.methodcaller("upper")("a"), sys.maxsize > 0

def t_typing():
    x = cast(int, 3)
    y: int = 4
    class Pr(Protocol):
        def m(self) -> int: ...
    type_var = TypeVar("type_var")
    z: Callable[[int], int] = lambda q: q
    return x, y, z(1)

def t_copy():
    @dataclass
    class S:
        a: int = 0
        h: dict = field(default_factory=dict)
    s = S(); t = copy.copy(s); t.a = 1; t.h["x"] = 1
    return s.a, s.h, vars(t), t.__dict__, t.__class__.__name__, S.__name__, S.__qualname__

def t_sorted():
    data = [(1, "b"), (0, "a")]
    data.sort(); data.reverse(); data.insert(0, 9); data.remove(9); data.extend([1]); data.pop()
    it = iter(data); first = next(it)
    a = b = 3; a -= 1; b *= 2; c = [0] * 3; c[1] += 5
    s = {1, 2}; s.discard(1); s.add(4); s |= {7}; s ^= {2}
    return data, first, a, b, c, sorted(s), {1, 2} <= {1, 2, 3}, {**dict(zip("ab", [1, 2]))}, dict.fromkeys("ab"), "%s-%d" % ("a", 2), "{}".format(3), list("ab")[::-1], (1,) + (2,), [1] * 2, [] == [], None is None, ... is Ellipsis
