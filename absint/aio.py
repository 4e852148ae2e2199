"""Model of the asyncio primitives the analysed code runs on.

Single threaded, FIFO ready queue, virtual clock: the documented semantics of
asyncio (callbacks in scheduling order, a Future wakes its waiters through the
loop, Task.cancel() injects CancelledError at the current suspension point).
"""
from __future__ import annotations

import asyncio as _asyncio
import contextvars as _contextvars
import functools
import heapq
import queue as _queue
import types
from collections import deque
from asyncio import CancelledError, InvalidStateError

from . import core
from .core import Diverged, EngineSignal, Inconclusive, Tok, run
from .interp import Coro, Function

# which top-level subscription the running code works for (inherited by tasks and callbacks)
OWNER = [None]

PENDING, CANCELLED, FINISHED = "PENDING", "CANCELLED", "FINISHED"


class Obj:
    def __hash__(self):
        return run().serial(self)

    def __eq__(self, o):
        return self is o

    @classmethod
    def __class_getitem__(cls, k):
        return cls

    def __getattr__(self, k):
        # only reached for attributes the summary lacks
        if not k.startswith("__"):
            for c in type(self).__mro__:
                if k in REAL.get(c.__name__, ()):
                    raise Inconclusive(f"{c.__name__}.{k} is not summarised")
        raise AttributeError(f"'{type(self).__name__}' object has no attribute '{k}'")


def _names(*cls):
    return frozenset(n for c in cls for n in dir(c) if not n.startswith("__"))


# attributes of the summarised classes
REAL = {
    "Handle": _names(_asyncio.TimerHandle), "Future": _names(_asyncio.futures._PyFuture, _asyncio.Future), "Task": _names(_asyncio.tasks._PyTask, _asyncio.Task),
    "Loop": _names(_asyncio.BaseEventLoop), "BaseEventLoop": _names(_asyncio.BaseEventLoop), "Event": _names(_asyncio.Event),
    "Lock": _names(_asyncio.Lock), "Semaphore": _names(_asyncio.Semaphore), "Condition": _names(_asyncio.Condition), "Queue": _names(_asyncio.Queue),
    "_TimeoutCM": _names(_asyncio.Timeout), "TaskGroup": _names(_asyncio.TaskGroup), "ContextVar": _names(_contextvars.ContextVar),
    "SimpleQueue": _names(_queue.Queue),
    "Option": frozenset("bind default_value default_with dict filter is_none is_some map map2 of_obj of_optional of_result or_else or_else_with pipe starmap to_list "
                        "to_optional to_result to_result_with to_seq value".split()),
    "Result": frozenset("bind default_value default_with dict filter filter_with is_error is_ok map map2 map_error merge ok error of_option of_option_with or_else "
                        "or_else_with pipe swap tag to_option".split()),
    "Block": frozenset("append choose collect cons dict empty filter fold forall head indexed is_empty item map mapi of of_option of_seq partition pipe range reduce "
                       "singleton skip skip_last sort sort_with starmap sum sum_by tail take take_last try_head unfold zip".split()),
    "Map": frozenset("add change contains_key create empty exists filter fold fold_back for_all get is_empty items iterate keys map of of_block of_list of_seq "
                     "partition pipe remove to_list to_seq try_find try_get_value try_pick values".split()),
    "MailboxProcessor": frozenset("post post_and_async_reply receive start messages token loop lock continuation cancel".split()),
    "CancellationTokenSource": frozenset("cancel cancelled_source create dispose is_cancellation_requested register_internal token".split()),
    "CancellationToken": frozenset("can_be_canceled is_cancellation_requested none register throw_if_cancellation_requested".split()),
}


class Handle(Obj):
    def __init__(self, cb, args, loop):
        self._callback = cb
        self._args = args
        self._loop = loop
        self._cancelled = False
        self._owner = OWNER[0]

    def cancel(self):
        if not self._cancelled:
            self._cancelled = True
            self._callback = None
            self._args = None

    def cancelled(self):
        return self._cancelled

    def _run(self):
        OWNER[0] = self._owner
        try:
            self._callback(*self._args)
        except EngineSignal:
            raise
        except (SystemExit, KeyboardInterrupt):
            raise
        except BaseException as e:
            self._loop.call_exception_handler({"message": "Exception in callback", "exception": e, "handle": self})


class TimerHandle(Handle):
    def __init__(self, when, cb, args, loop):
        super().__init__(cb, args, loop)
        self._when = when
        self._scheduled = False
        self._seq = 0

    def when(self):
        return self._when

    def cancel(self):
        if not self._cancelled:
            self._loop._timer_handle_cancelled(self)
        super().cancel()

    def __lt__(self, o):
        return self._when < o._when

    def __le__(self, o):
        return self._when <= o._when

    def __gt__(self, o):
        return self._when > o._when

    def __ge__(self, o):
        return self._when >= o._when


class Loop(Obj):
    """The loop of one abstract run."""

    def __init__(self):
        self._ready = deque()
        self._timers = []
        self._seq = 0
        self._now = 0.0
        self.errors = []          # call_exception_handler contexts
        self.tasks = []           # every task created
        self._running = True
        self.current = None

    # ---- API used by programs
    def time(self):
        return self._now

    def is_running(self):
        return True

    def is_closed(self):
        return False

    def get_debug(self):
        return False

    def set_debug(self, v):
        pass

    def call_soon(self, cb, *args, context=None):
        h = Handle(cb, args, self)
        self._ready.append(h)
        return h

    call_soon_threadsafe = call_soon

    def call_later(self, delay, cb, *args, context=None):
        return self.call_at(self._now + delay, cb, *args)

    def call_at(self, when, cb, *args, context=None):
        if when is None or isinstance(when, core.Tok):
            raise Inconclusive("timer at an opaque time")
        h = TimerHandle(when, cb, args, self)
        self._seq += 1
        h._seq = self._seq
        heapq.heappush(self._timers, (when, self._seq, h))
        return h

    def _timer_handle_cancelled(self, h):
        pass

    def create_future(self):
        return Future(loop=self)

    def create_task(self, coro, *, name=None, context=None):
        return Task(coro, loop=self, name=name)

    def call_exception_handler(self, ctx):
        self.errors.append(ctx)

    def set_exception_handler(self, h):
        raise Inconclusive("custom exception handler")

    def run_until_complete(self, f):
        raise Inconclusive("run_until_complete inside a coroutine")

    def run_forever(self):
        raise Inconclusive("run_forever inside a coroutine")

    def stop(self):
        raise Inconclusive("loop.stop")

    def run_in_executor(self, *a):
        raise Inconclusive("run_in_executor")

    # ---- engine side
    def drain(self, budget=4000, limit=None):
        n = 0
        while self._ready:
            if limit is not None and n >= limit:
                return n
            h = self._ready.popleft()
            n += 1
            if n > budget:
                raise Diverged(f"the event loop does not become idle ({budget} callbacks)")
            if not h._cancelled:
                h._run()
        return n

    def pending_timers(self):
        return sorted([t for t in self._timers if not t[2]._cancelled], key=lambda t: t[:2])

    def advance(self):
        """Jump to the next due time and make its timers ready."""
        while self._timers and self._timers[0][2]._cancelled:
            heapq.heappop(self._timers)
        if not self._timers:
            return False
        self._now = max(self._now, self._timers[0][0])
        while self._timers and self._timers[0][0] <= self._now:
            h = heapq.heappop(self._timers)[2]
            if not h._cancelled:
                self._ready.append(h)
        return True


def get_loop():
    return run().loop


class Future(Obj):
    _asyncio_future_blocking = False

    def __init__(self, *, loop=None):
        self._state = PENDING
        self._result = None
        self._exception = None
        self._callbacks = []
        self._loop = loop if loop is not None else get_loop()
        self._log_tb = False
        self._cancel_message = None
        run().serial(self)

    def get_loop(self):
        return self._loop

    def cancel(self, msg=None):
        if self._state != PENDING:
            return False
        self._state = CANCELLED
        self._cancel_message = msg
        self._schedule()
        return True

    def _schedule(self):
        cbs, self._callbacks = self._callbacks, []
        for cb in cbs:
            self._loop.call_soon(cb, self)

    def cancelled(self):
        return self._state == CANCELLED

    def done(self):
        return self._state != PENDING

    def result(self):
        if self._state == CANCELLED:
            raise self._mk_cancel()
        if self._state != FINISHED:
            raise InvalidStateError("Result is not ready.")
        self._log_tb = False
        if self._exception is not None:
            raise self._exception.with_traceback(None)
        return self._result

    def _mk_cancel(self):
        return CancelledError() if self._cancel_message is None else CancelledError(self._cancel_message)

    def exception(self):
        if self._state == CANCELLED:
            raise self._mk_cancel()
        if self._state != FINISHED:
            raise InvalidStateError("Exception is not set.")
        self._log_tb = False
        return self._exception

    def add_done_callback(self, fn, *, context=None):
        if self._state != PENDING:
            self._loop.call_soon(fn, self)
        else:
            self._callbacks.append(fn)

    def remove_done_callback(self, fn):
        n = len(self._callbacks)
        self._callbacks = [f for f in self._callbacks if f != fn]
        return n - len(self._callbacks)

    def set_result(self, v):
        if self._state != PENDING:
            raise InvalidStateError(f"{self._state}: {self!r}")
        self._result = v
        self._state = FINISHED
        self._schedule()

    def set_exception(self, e):
        if self._state != PENDING:
            raise InvalidStateError(f"{self._state}: {self!r}")
        if isinstance(e, type):
            e = e()
        if isinstance(e, StopIteration):
            raise TypeError("StopIteration interacts badly with generators and cannot be raised into a Future")
        self._exception = e
        self._state = FINISHED
        self._log_tb = True
        self._schedule()

    def __await__(self):
        return self._await_gen()

    def _await_gen(self):
        if not self.done():
            self._asyncio_future_blocking = True
            yield self
        if not self.done():
            raise RuntimeError("await wasn't used with future")
        return self.result()

    def __iter__(self):
        return self._await_gen()

    def __repr__(self):
        return f"<{type(self).__name__} {self._state}>"


class Task(Future):
    def __init__(self, coro, *, loop=None, name=None, context=None, eager_start=False):
        super().__init__(loop=loop)
        if not iscoroutine(coro):
            raise TypeError(f"a coroutine was expected, got {coro!r}")
        self._coro = coro
        self._name = name or "Task"
        self._must_cancel = False
        self._fut_waiter = None
        self._num_cancels = 0
        self._owner = OWNER[0]
        lp = self._loop
        cv = (lp if lp.current is None else lp.current).__dict__.get("_cv")
        if cv:
            self._cv = cv
        lp.tasks.append(self)
        self._loop.call_soon(self._step)

    def get_coro(self):
        return self._coro

    def get_name(self):
        return self._name

    def set_name(self, n):
        self._name = n

    def set_result(self, v):
        raise RuntimeError("Task does not support set_result operation")

    def set_exception(self, e):
        raise RuntimeError("Task does not support set_exception operation")

    def cancelling(self):
        return self._num_cancels

    def uncancel(self):
        if self._num_cancels > 0:
            self._num_cancels -= 1
        return self._num_cancels

    def cancel(self, msg=None):
        if self.done():
            return False
        self._num_cancels += 1
        if self._fut_waiter is not None:
            if self._fut_waiter.cancel(msg=msg) if isinstance(self._fut_waiter, Future) and _plain_cancel(self._fut_waiter) else self._fut_waiter.cancel():
                return True
        self._must_cancel = True
        self._cancel_message = msg
        return True

    def _step(self, exc=None):
        if self.done():
            raise InvalidStateError(f"_step(): already done: {self!r}, {exc!r}")
        if self._must_cancel:
            if not isinstance(exc, CancelledError):
                exc = self._mk_cancel()
            self._must_cancel = False
        self._fut_waiter = None
        loop = self._loop
        prev, loop.current = loop.current, self
        OWNER[0] = self._owner
        try:
            if exc is None:
                res = self._coro.send(None)
            else:
                res = self._coro.throw(exc)
        except StopIteration as e:
            if self._must_cancel:
                self._must_cancel = False
                Future.cancel(self, self._cancel_message)
            else:
                Future.set_result(self, e.value)
        except CancelledError as e:
            Future.cancel(self)
        except EngineSignal:
            loop.current = prev
            raise
        except (KeyboardInterrupt, SystemExit):
            raise
        except BaseException as e:
            e.__traceback__ = None
            Future.set_exception(self, e)
        else:
            if isinstance(res, Future):
                if res._asyncio_future_blocking:
                    res._asyncio_future_blocking = False
                    if res is self:
                        loop.call_soon(self._step, RuntimeError("Task cannot await on itself"))
                    else:
                        res.add_done_callback(self._wakeup)
                        self._fut_waiter = res
                        if self._must_cancel:
                            if res.cancel():
                                self._must_cancel = False
                else:
                    loop.call_soon(self._step, RuntimeError("yield was used instead of yield from"))
            elif res is None:
                loop.call_soon(self._step)
            else:
                loop.call_soon(self._step, RuntimeError(f"Task got bad yield: {res!r}"))
        loop.current = prev

    def _wakeup(self, fut):
        try:
            fut.result()
        except EngineSignal:
            raise
        except BaseException as e:
            self._step(e)
        else:
            self._step()


def _plain_cancel(f):
    return type(f).cancel in (Future.cancel, Task.cancel)


# ------------------------------------------------------------------- functions
def iscoroutine(o):
    if isinstance(o, Tok):
        return o.has("__await__")
    return isinstance(o, (Coro, types.CoroutineType))


def iscoroutinefunction(f):
    while isinstance(f, functools.partial):
        f = f.func
    if isinstance(f, types.MethodType):
        f = f.__func__
    if isinstance(f, Function):
        return f.is_async and not f.is_gen
    if getattr(f, "_is_coroutine_fn", False):
        return True
    import inspect
    return inspect.iscoroutinefunction(f)


def isfuture(o):
    return isinstance(o, Future)


def isawaitable(o):
    if isinstance(o, Tok):
        return o.has("__await__")
    return iscoroutine(o) or isinstance(o, Future) or hasattr(type(o), "__await__")


def create_task(coro, *, name=None, context=None):
    return get_loop().create_task(coro, name=name)


async def _wrap_awaitable(a):
    return await a


def ensure_future(x, *, loop=None):
    if isinstance(x, Future):
        return x
    if iscoroutine(x):
        return Task(x, loop=loop)
    if isawaitable(x):
        return Task(_wrap_awaitable(x), loop=loop)
    raise TypeError("An asyncio.Future, a coroutine or an awaitable is required")


def current_task(loop=None):
    return get_loop().current


def all_tasks(loop=None):
    return {t for t in get_loop().tasks if not t.done()}


class _Yield0:
    def __await__(self):
        yield None


async def sleep(delay, result=None):
    if isinstance(delay, core.Tok):
        raise Inconclusive("sleep for an opaque time")
    if delay <= 0:
        await _Yield0()
        return result
    loop = get_loop()
    fut = loop.create_future()
    h = loop.call_later(delay, _set_unless_done, fut, result)
    try:
        return await fut
    except EngineSignal:
        raise
    except BaseException:
        h.cancel()
        raise


def _set_unless_done(fut, v):
    if not fut.done():
        fut.set_result(v)


def _release(waiter, *a):
    if not waiter.done():
        waiter.set_result(None)


async def wait_for(fut, timeout):
    loop = get_loop()
    if timeout is None:
        return await fut
    fut = ensure_future(fut)
    if timeout <= 0:
        if fut.done():
            return fut.result()
        await _cancel_and_wait(fut)
        try:
            return fut.result()
        except CancelledError as e:
            raise TimeoutError() from e
    if fut.done():
        return fut.result()
    waiter = loop.create_future()
    h = loop.call_later(timeout, _release, waiter)
    cb = functools.partial(_release, waiter)
    fut.add_done_callback(cb)
    try:
        await waiter
    except CancelledError:
        h.cancel()
        if fut.done():
            return fut.result()
        fut.remove_done_callback(cb)
        await _cancel_and_wait(fut)
        raise
    h.cancel()
    if fut.done():
        return fut.result()
    fut.remove_done_callback(cb)
    await _cancel_and_wait(fut)
    try:
        return fut.result()
    except CancelledError as e:
        raise TimeoutError() from e


async def _cancel_and_wait(fut):
    waiter = get_loop().create_future()
    cb = functools.partial(_release, waiter)
    fut.add_done_callback(cb)
    fut.cancel()
    await waiter
    fut.remove_done_callback(cb)


FIRST_COMPLETED, FIRST_EXCEPTION, ALL_COMPLETED = "FIRST_COMPLETED", "FIRST_EXCEPTION", "ALL_COMPLETED"


async def wait(fs, *, timeout=None, return_when=ALL_COMPLETED):
    fs = list(dict.fromkeys(fs))
    if not fs:
        raise ValueError("Set of Tasks/Futures is empty.")
    loop = get_loop()
    waiter = loop.create_future()
    h = loop.call_later(timeout, _release, waiter) if timeout is not None else None

    def check(*_):
        if waiter.done():
            return
        done = [f for f in fs if f.done()]
        if len(done) == len(fs) or (done and return_when == FIRST_COMPLETED) or (
                return_when == FIRST_EXCEPTION and any(not f.cancelled() and f._exception is not None for f in done)):
            waiter.set_result(None)

    for f in fs:
        f.add_done_callback(check)
    check()
    await waiter
    if h:
        h.cancel()
    for f in fs:
        f.remove_done_callback(check)
    return {f for f in fs if f.done()}, {f for f in fs if not f.done()}


class _Gather(Future):
    def __init__(self, children):
        super().__init__()
        self._children = children
        self._cancel_req = False

    def cancel(self, msg=None):
        if self.done():
            return False
        r = False
        for c in self._children:
            if c.cancel():
                r = True
        if r:
            self._cancel_req = True
        return r


def gather(*aws, return_exceptions=False):
    if not aws:
        f = Future()
        f.set_result([])
        return f
    kids = []
    for a in aws:
        kids.append(ensure_future(a))
    outer = _Gather(kids)
    state = {"n": 0}

    def done(f):
        state["n"] += 1
        if outer.done():
            if not f.cancelled():
                f.exception()
            return
        if not return_exceptions:
            if f.cancelled():
                outer.set_exception(CancelledError())
                return
            e = f.exception()
            if e is not None:
                outer.set_exception(e)
                return
        if state["n"] == len(kids):
            out = []
            for k in kids:
                if k.cancelled():
                    out.append(CancelledError())
                else:
                    e = k.exception()
                    out.append(e if e is not None else k.result())
            if outer._cancel_req:
                outer.set_exception(CancelledError())
            else:
                outer.set_result(out)

    for k in kids:
        k.add_done_callback(done)
    return outer


def shield(arg):
    inner = ensure_future(arg)
    if inner.done():
        return inner
    outer = Future()

    def cb(f):
        if outer.cancelled():
            return
        if f.cancelled():
            outer.cancel()
        elif f.exception() is not None:
            outer.set_exception(f.exception())
        else:
            outer.set_result(f.result())

    inner.add_done_callback(cb)
    return outer


# ---------------------------------------------------------------------- sync
class Event(Obj):
    def __init__(self):
        self._value = False
        self._waiters = deque()

    def is_set(self):
        return self._value

    def set(self):
        if not self._value:
            self._value = True
            for f in self._waiters:
                if not f.done():
                    f.set_result(True)

    def clear(self):
        self._value = False

    async def wait(self):
        if self._value:
            return True
        f = Future()
        self._waiters.append(f)
        try:
            await f
        except EngineSignal:
            raise
        except BaseException:
            self._waiters.remove(f)
            raise
        self._waiters.remove(f)
        return True


class Lock(Obj):
    def __init__(self):
        self._locked = False
        self._waiters = deque()

    def locked(self):
        return self._locked

    async def acquire(self):
        if not self._locked and all(w.cancelled() for w in self._waiters):
            self._locked = True
            return True
        f = Future()
        self._waiters.append(f)
        try:
            await f
        except EngineSignal:
            raise
        except BaseException:
            self._waiters.remove(f)
            if not self._locked:
                self._wake()
            raise
        self._waiters.remove(f)
        self._locked = True
        return True

    def release(self):
        if not self._locked:
            raise RuntimeError("Lock is not acquired.")
        self._locked = False
        self._wake()

    def _wake(self):
        for f in self._waiters:
            if not f.done():
                f.set_result(True)
                return
            return

    async def __aenter__(self):
        await self.acquire()

    async def __aexit__(self, *a):
        self.release()


class Semaphore(Obj):
    def __init__(self, value=1):
        self._value = value
        self._waiters = deque()

    def locked(self):
        return self._value == 0

    async def acquire(self):
        while self._value <= 0:
            f = Future()
            self._waiters.append(f)
            try:
                await f
            except EngineSignal:
                raise
            except BaseException:
                if f in self._waiters:
                    self._waiters.remove(f)
                raise
        self._value -= 1
        return True

    def release(self):
        self._value += 1
        while self._waiters:
            f = self._waiters.popleft()
            if not f.done():
                f.set_result(True)
                return

    async def __aenter__(self):
        await self.acquire()

    async def __aexit__(self, *a):
        self.release()


class Condition(Obj):
    def __init__(self, lock=None):
        self._lock = lock or Lock()
        self._waiters = deque()
        self.acquire = self._lock.acquire
        self.release = self._lock.release
        self.locked = self._lock.locked

    async def __aenter__(self):
        await self.acquire()

    async def __aexit__(self, *a):
        self.release()

    async def wait(self):
        self.release()
        f = Future()
        self._waiters.append(f)
        try:
            await f
        except EngineSignal:
            raise
        except BaseException:
            self._waiters.remove(f)
            await self.acquire()
            raise
        self._waiters.remove(f)
        await self.acquire()
        return True

    async def wait_for(self, pred):
        r = pred()
        while not r:
            await self.wait()
            r = pred()
        return r

    def notify(self, n=1):
        i = 0
        for f in self._waiters:
            if i >= n:
                break
            if not f.done():
                i += 1
                f.set_result(False)

    def notify_all(self):
        self.notify(len(self._waiters))


class QueueEmpty(Exception):
    pass


class QueueFull(Exception):
    pass


class Queue(Obj):
    def __init__(self, maxsize=0):
        self._maxsize = maxsize
        self._q = deque()
        self._getters = deque()
        self._putters = deque()
        self._unfinished = 0
        self._finished = Event()
        self._finished.set()

    @property
    def maxsize(self):
        return self._maxsize

    def qsize(self):
        return len(self._q)

    def empty(self):
        return not self._q

    def full(self):
        return self._maxsize > 0 and len(self._q) >= self._maxsize

    def _wakeup(self, ws):
        while ws:
            w = ws.popleft()
            if not w.done():
                w.set_result(None)
                break

    def put_nowait(self, x):
        if self.full():
            raise QueueFull
        self._q.append(x)
        self._unfinished += 1
        self._finished.clear()
        self._wakeup(self._getters)

    async def put(self, x):
        while self.full():
            f = Future()
            self._putters.append(f)
            await f
        self.put_nowait(x)

    def get_nowait(self):
        if not self._q:
            raise QueueEmpty
        x = self._q.popleft()
        self._wakeup(self._putters)
        return x

    async def get(self):
        while not self._q:
            f = Future()
            self._getters.append(f)
            try:
                await f
            except EngineSignal:
                raise
            except BaseException:
                f.cancel()
                if f in self._getters:
                    self._getters.remove(f)
                if self._q and not f.cancelled():
                    self._wakeup(self._getters)
                raise
        return self.get_nowait()

    def task_done(self):
        self._unfinished -= 1
        if self._unfinished == 0:
            self._finished.set()

    async def join(self):
        if self._unfinished > 0:
            await self._finished.wait()


class _TimeoutCM(Obj):
    def __init__(self, delay):
        self.delay = delay
        self._h = None
        self._task = None
        self._fired = False

    async def __aenter__(self):
        loop = get_loop()
        self._task = loop.current
        if self.delay is not None:
            self._h = loop.call_later(self.delay, self._fire)
        return self

    def _fire(self):
        self._fired = True
        self._task.cancel()

    async def __aexit__(self, et, ev, tb):
        if self._h is not None:
            self._h.cancel()
        if self._fired and et is not None and issubclass(et, CancelledError):
            self._task.uncancel()
            raise TimeoutError()
        return None


def timeout(delay):
    return _TimeoutCM(delay)


class TaskGroup(Obj):
    def __init__(self):
        self._parent = None
        self._entered = self._exiting = self._aborting = False
        self._parent_cancel_requested = False
        self._tasks = []
        self._errors = []
        self._base_error = None
        self._completed = None

    async def __aenter__(self):
        if self._entered:
            raise RuntimeError("TaskGroup has already been entered")
        self._entered = True
        self._parent = get_loop().current
        return self

    async def __aexit__(self, et, exc, tb):
        self._exiting = True
        if et is not None and issubclass(et, (SystemExit, KeyboardInterrupt)) and self._base_error is None:
            self._base_error = exc
        propagate = exc if et is not None and issubclass(et, CancelledError) else None
        if self._parent_cancel_requested:
            if self._parent.uncancel() == 0:
                propagate = None
        if et is not None and not self._aborting:
            self._abort()
        while self._tasks:
            if self._completed is None:
                self._completed = Future()
            try:
                await self._completed
            except CancelledError as ex:
                if not self._aborting:
                    propagate = ex
                    self._abort()
            self._completed = None
        if self._base_error is not None:
            raise self._base_error
        if propagate is not None and not self._errors:
            raise propagate
        if et is not None and not issubclass(et, CancelledError):
            self._errors.append(exc)
        if self._errors:
            raise BaseExceptionGroup("unhandled errors in a TaskGroup", self._errors) from None

    def create_task(self, coro, *, name=None, context=None):
        if not self._entered:
            raise RuntimeError("TaskGroup has not been entered")
        if self._exiting and not self._tasks:
            raise RuntimeError("TaskGroup is finished")
        if self._aborting:
            raise RuntimeError("TaskGroup is shutting down")
        t = get_loop().create_task(coro, name=name)
        self._tasks.append(t)
        t.add_done_callback(self._on_task_done)
        return t

    def _abort(self):
        self._aborting = True
        for t in list(self._tasks):
            if not t.done():
                t.cancel()

    def _on_task_done(self, task):
        self._tasks.remove(task)
        if self._completed is not None and not self._tasks:
            if not self._completed.done():
                self._completed.set_result(True)
        if task.cancelled():
            return
        exc = task.exception()
        if exc is None:
            return
        self._errors.append(exc)
        if isinstance(exc, (SystemExit, KeyboardInterrupt)) and self._base_error is None:
            self._base_error = exc
        if self._parent.done():
            return
        if not self._aborting and not self._parent_cancel_requested:
            self._abort()
            self._parent_cancel_requested = True
            self._parent.cancel()


def as_completed(fs, *, timeout=None):
    if timeout is not None:
        raise Inconclusive("as_completed with a timeout")
    todo = [ensure_future(f) for f in fs]
    done = Queue()
    for f in todo:
        f.add_done_callback(done.put_nowait)
    return [_next_done(done) for _ in todo]


async def _next_done(q):
    return (await q.get()).result()


class _VarToken(Obj):
    MISSING = object()

    def __init__(self, var, old):
        self.var, self.old_value = var, old


class ContextVar(Obj):
    """A context variable: tasks copy the context of the code that creates them."""

    def __init__(self, name, **kw):
        self.name = name
        self._default = kw

    def _ctx(self):
        lp = get_loop()
        t = lp.current
        return (lp if t is None else t).__dict__.get("_cv") or {}

    def get(self, *default):
        c = self._ctx()
        if self in c:
            return c[self]
        if default:
            return default[0]
        if "default" in self._default:
            return self._default["default"]
        raise LookupError(self.name)

    def _put(self, c):
        lp = get_loop()
        t = lp.current
        (lp if t is None else t).__dict__["_cv"] = c

    def set(self, v):
        c = self._ctx()
        tok = _VarToken(self, c.get(self, _VarToken.MISSING))
        self._put({**c, self: v})
        return tok

    def reset(self, tok):
        c = dict(self._ctx())
        c.pop(self, None)
        if tok.old_value is not _VarToken.MISSING:
            c[self] = tok.old_value
        self._put(c)


# -------------------------------------------------- base class for custom loops
class BaseEventLoop(Obj):
    """Model of asyncio.BaseEventLoop: only the state `_run_once` works on."""

    slow_callback_duration = 0.1

    def __init__(self):
        self._timer_cancelled_count = 0
        self._closed = False
        self._stopping = False
        self._ready = deque()
        self._scheduled = []
        self._debug = False
        self._current_handle = None
        self._exception_handler = None
        self._clock_resolution = 1e-9
        self.errors = []
        self.tasks = []
        self.current = None

    def time(self):
        raise Inconclusive("real clock")

    def get_debug(self):
        return self._debug

    def set_debug(self, v):
        self._debug = v

    def is_running(self):
        return True

    def is_closed(self):
        return self._closed

    def close(self):
        self._closed = True
        self._ready.clear()
        self._scheduled.clear()

    def stop(self):
        self._stopping = True

    def call_soon(self, cb, *args, context=None):
        h = Handle(cb, args, self)
        self._ready.append(h)
        return h

    def call_soon_threadsafe(self, cb, *args, context=None):
        h = self.call_soon(cb, *args)
        self._write_to_self()
        return h

    def call_later(self, delay, cb, *args, context=None):
        if delay is None:
            raise TypeError("delay must not be None")
        return self.call_at(self.time() + delay, cb, *args, context=context)

    def call_at(self, when, cb, *args, context=None):
        if when is None:
            raise TypeError("when cannot be None")
        t = TimerHandle(when, cb, args, self)
        heapq.heappush(self._scheduled, t)
        t._scheduled = True
        return t

    def _timer_handle_cancelled(self, h):
        if h._scheduled:
            self._timer_cancelled_count += 1

    def _add_callback(self, h):
        if not h._cancelled:
            self._ready.append(h)

    def create_future(self):
        return Future(loop=self)

    def create_task(self, coro, *, name=None, context=None):
        return Task(coro, loop=self, name=name)

    def call_exception_handler(self, ctx):
        self.errors.append(ctx)

    def _write_to_self(self):
        raise NotImplementedError
