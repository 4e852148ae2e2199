"""Clients of everything that is not a plain operator: factories, timers,
subjects, async iteration, awaiting, bridges, notifications, virtual time."""
from __future__ import annotations

from asyncio import CancelledError, TimeoutError

from . import aio, core, models, specs
from .core import EngineSignal, Inconclusive, PathCut, Tok, UserError, same, show
from .harness import CAT, Comp, Exp, KIND, Mon, show_ev
from .specs import Spec


# ------------------------------------------------------------------ factories
class Fixed(Spec):
    """The whole sequence is known when the observer subscribes."""
    guarded = False
    sink_raise = "any"
    guards = False

    def seq(self):
        return ()

    def init(self):
        for k, v in self.seq():
            self.emit(k, v)


def fixed(seq, **kw):
    return type("Fixed", (Fixed,), dict(seq=lambda self: seq(self.w), **kw))


class Pulled(Spec):
    """The sequence is what the iterable hands out, in that order, to its end."""
    guarded = False
    sink_raise = "any"

    def init(self):
        self.n = 0

    def pulled(self, k, v=None):
        if k == "n":
            self.n += 1
            self.emit("n", v)
        else:
            self.emit(k, v)

    def quiet(self):
        if not self.m.fin and not self.m.done:
            self.w.violate(("values", "complete", "missing", self.m.iso), "the iterable was not read to its end")


class PulledSafe(Pulled):
    sink_raise = "terminal"


class EnvIterable:
    """A user's iterable of at most `limit` items that may fail when pulled."""

    def __init__(self, w, limit=3, is_async=False, raises=True):
        self.w, self.limit, self.is_async, self.raises = w, limit, is_async, raises
        self.items = [Tok(f"i{k}") for k in range(limit)]

    def fp(self, c):
        c.go(self.items)

    def __iter__(self):
        return EnvIterator(self)

    def __aiter__(self):
        return EnvIterator(self)


class EnvIterator:
    def __init__(self, it):
        self.it = it
        self.k = 0
        self.over = False

    def fp(self, c):
        c.out.append((self.k, self.over))
        c.go(self.it)

    def __iter__(self):
        return self

    def __aiter__(self):
        return self

    def step(self, stop):
        it, w = self.it, self.it.w
        m = w.mon()
        if self.over:
            raise stop
        n = 2 + it.raises
        c = core.run().choose(n, f"item {self.k} of the iterable") if self.k < it.limit else 1
        if c == 0:
            v = it.items[self.k]
            self.k += 1
            w.note(f"  iterable yields {show(v)}")
            m.spec.pulled("n", v)
            return v
        self.over = True
        if c == 1:
            w.note("  iterable is exhausted")
            m.spec.pulled("c")
            raise stop
        e = UserError("iterable")
        w.note(f"  iterable raises {show(e)}")
        m.spec.pulled("e", e)
        raise e

    def __next__(self):
        return self.step(StopIteration)

    async def __anext__(self):
        await aio.sleep(0)
        return self.step(StopAsyncIteration)


class Defer(specs.Spec):
    guarded = False
    sink_raise = "any"
    uf_producer_ok = False

    def init(self):
        self.sub = None
        d = self.uf("factory")
        self.src = None
        if d[0] == "raise":
            self.emit("e", d[1])
        else:
            self.src = d[1]

    def subscribed(self, s):
        if s.src is not self.src or self.sub is not None:
            self.w.violate(("subs", "values", self.m.iso), f"{s.name()} must not be subscribed here")
        self.sub = s

    def inn(self, s, k, v):
        self.emit(k, v)

    def quiet(self):
        if self.src is not None and self.sub is None:
            self.w.violate(("subs", "values", self.m.iso), "the deferred sequence is never subscribed")


def Interval(d, p):
    class I(Spec):
        guarded = False
        sink_raise = "any"

        def init(self):
            self.i = 0
            self.at = self.w.now + d
            self.emit("n", 0, due=self.at)

        def fp(self, c):
            c.go(self.i)
            c.out.append(round(self.at - c.now, 6))

        def base(self):
            return self.i

        def matched(self, k, v):
            if k != "n":
                return
            if not p:
                self.emit("c", due=self.at)
                return
            self.i += 1
            # an observer that holds up the timer shifts what follows
            slow = self.w.comp.sink == "slow"
            self.at = (self.w.now if slow else self.at) + p
            self.emit("n", self.i, due=self.at, opt=slow)

        def quiet(self):
            if self.m.done and self.w.loop.pending_timers() and self.w.comp.nsubs == 1:
                self.w.violate(("timers", self.m.iso), "a timer stays active after the end")
    return I


class TimedComp(Comp):
    """After dispose no timer may stay active."""

    def check(self, w):
        super().check(w)
        if not w.violations and w.mons and all(m.state == "quiet" for m in w.mons) and w.loop.pending_timers():
            w.violate(("timers", "release_dispose"), "a timer stays active after dispose")


class Awaited(Spec):
    guarded = False
    sink_raise = "terminal"

    def init(self):
        pass


class WorkflowComp(Comp):
    """from_async: the workflow is decided by the client."""

    def apply(self, w, ev):
        if ev[0] in ("resolve", "reject"):
            f = w.extra
            m = w.mons[0]
            if ev[0] == "resolve":
                v = Tok("result")
                m.emit("n", v)
                m.emit("c")
                f.set_result(v)
            else:
                e = UserError("workflow")
                m.emit("e", e)
                f.set_exception(e)
        else:
            super().apply(w, ev)

    def single_events(self, w):
        out = super().single_events(w)
        if w.mons and w.mons[0].state in ("on", "subscribing") and not w.extra.done():
            out += [("resolve",), ("reject",)]
        return out

    def enabled(self, w, ev):
        if ev[0] in ("resolve", "reject"):
            return not w.extra.done()
        return super().enabled(w, ev)

    def show_event(self, w, e):
        if e[0] in ("resolve", "reject"):
            return "workflow " + {"resolve": "returns", "reject": "raises"}[e[0]]
        return super().show_event(w, e)


class WaitingIterable:
    """An async iterable whose items come when the client says so."""

    def __init__(self, w):
        self.w = w
        w.iters = []

    def fp(self, c):
        pass

    def __aiter__(self):
        return WaitingIterator(self.w)


class WaitingIterator:
    def __init__(self, w):
        self.w, self.m, self.fut, self.over = w, w.mon(), None, False
        w.iters.append(self)

    def fp(self, c):
        c.out.append((self.m.i, self.waiting(), self.over))

    def waiting(self):
        return self.fut is not None and not self.fut.done()

    def __aiter__(self):
        return self

    async def __anext__(self):
        if self.over:
            raise StopAsyncIteration
        self.fut = aio.Future()
        k, v = await self.fut
        self.w.note(f"  iterable yields {show(v)}" if k == "n" else "  iterable is exhausted" if k == "c" else f"  iterable raises {show(v)}")
        self.m.spec.pulled(k, v)
        if k == "n":
            return v
        self.over = True
        if k == "c":
            raise StopAsyncIteration
        raise v


class PulledWaiting(Pulled):
    def quiet(self):
        if not any(it.m is self.m and it.waiting() for it in self.w.iters):
            super().quiet()


class WaitingComp(Comp):
    ITEM = {"item": "n", "last": "c", "bad": "e"}

    def single_events(self, w):
        out = super().single_events(w)
        for i, it in enumerate(w.iters):
            if it.waiting():
                out += [(t, i) for t in self.ITEM]
        return out

    def enabled(self, w, ev):
        if ev[0] in self.ITEM:
            return ev[1] < len(w.iters) and w.iters[ev[1]].waiting()
        return super().enabled(w, ev)

    def apply(self, w, ev):
        if ev[0] in self.ITEM:
            k = self.ITEM[ev[0]]
            w.iters[ev[1]].fut.set_result((k, Tok() if k == "n" else UserError("iterable") if k == "e" else None))
        else:
            super().apply(w, ev)

    def check(self, w):
        super().check(w)
        for it in w.iters:
            if not w.violations and it.m.state == "quiet" and it.waiting():
                w.violate(("release_dispose", it.m.iso), "after dispose the iterable is still being pulled")

    def roots(self, w):
        yield from super().roots(w)
        yield w.iters

    def show_event(self, w, e):
        if e[0] in self.ITEM:
            return {"item": "the iterable has an item", "last": "the iterable ends", "bad": "the iterable fails"}[e[0]]
        return super().show_event(w, e)


class Factory:
    """Same interface as ops.Op for things without a source."""

    def __init__(self, name, builders, spec, comp=Comp, **opts):
        self.name, self.builders, self.spec, self.cls, self.opts = name, builders, spec, comp, opts

    def forms(self):
        return list(self.builders)

    def comp(self, form=None, **kw):
        form = form or list(self.builders)[0]
        entry, fn = self.builders[form]
        d = dict(self.opts)
        d.update(kw)
        tag = d.pop("tag", "")
        return self.cls(name=f"{self.name}[{form}]{tag}", entry=entry, spec=d.pop("spec", None) or self.spec, build=fn, **d)


def forms(name, args, top=True, mod=None, chain=False, module="create"):
    out = {}
    if top:
        out["top"] = (f"aioreactive.{name}", lambda w: getattr(w.rx, name)(*args(w)))
    if mod:
        out["mod"] = (f"{module}.{mod}", lambda w: getattr(w.mod(module), mod)(*args(w)))
    if chain:
        out["chain"] = (f"AsyncRx.{name}", lambda w: getattr(w.rx.AsyncRx, name)(*args(w)))
    return out


def _items(n):
    def args(w):
        if w.extra is None:
            w.extra = [Tok(f"i{k}") for k in range(n)]
        return (list(w.extra),)
    return args


def _seq(w):
    return [("n", v) for v in w.extra] + [("c", None)]


def _iterable(is_async, raises=True):
    def args(w):
        w.extra = EnvIterable(w, 2, is_async, raises)
        return (w.extra,)
    return args


def _agen(n):
    """An async generator (not re-iterable)."""
    def args(w):
        w.extra = [Tok(f"i{k}") for k in range(n)]

        class G:
            def __aiter__(self):
                return self

            def __init__(self):
                self.i = 0

            def fp(self, c):
                c.out.append(self.i)

            async def __anext__(self):
                if self.i >= n:
                    raise StopAsyncIteration
                self.i += 1
                return w.extra[self.i - 1]
        return (G(),)
    return args


def _value(w):
    if w.extra is None:
        w.extra = Tok("value")
    return (w.extra,)


def _error(w):
    if w.extra is None:
        w.extra = UserError("given")
    return (w.extra,)


def _workflow(w):
    w.extra = aio.Future()

    async def wf():
        return await w.extra
    return (wf(),)


def _factory(w):
    return (w.uf("factory", "inner").fn(),)


def factory_table():
    T = []
    T += [Factory(f"from_iterable({n} items)", forms("from_iterable", _items(n), mod="of_seq", chain=True),
                  fixed(_seq, sink_raise="terminal")) for n in (0, 1, 3, 12)]
    T.append(Factory("from_iterable(iterable)", forms("from_iterable", _iterable(False), mod="of_seq", chain=True), PulledSafe))
    T.append(Factory("from_async_iterable", {**forms("from_async_iterable", _iterable(True), mod="of_async_iterable", chain=True),
                     "iterable": ("iterable.to_async_observable", lambda w: w.mod("iterable.to_async_observable").to_async_observable(*_iterable(True)(w)))}, Pulled))
    T.append(Factory("from_async_iterable(2 items)", forms("from_async_iterable", _agen(2), mod="of_async_iterable", chain=True), fixed(_seq)))
    T.append(Factory("from_async_iterable(waiting)", forms("from_async_iterable", lambda w: (WaitingIterable(w),), mod="of_async_iterable"), PulledWaiting, WaitingComp))
    T.append(Factory("single", forms("single", _value, mod="single", chain=True),
                     fixed(lambda w: [("n", w.extra), ("c", None)], sink_raise="terminal")))
    T.append(Factory("empty", forms("empty", lambda w: (), mod="empty", chain=True), fixed(lambda w: [("c", None)])))
    T.append(Factory("never", forms("never", lambda w: (), mod="never"), fixed(lambda w: [])))
    T.append(Factory("fail", forms("fail", _error, top=False, mod="fail"), fixed(lambda w: [("e", w.extra)])))
    T.append(Factory("from_async", {**forms("from_async", _workflow, mod=None), **{"of_async": ("aioreactive.of_async", lambda w: w.rx.of_async(*_workflow(w)))},
                     "mod": ("create.of_async", lambda w: w.mod("create").of_async(*_workflow(w)))}, Awaited, WorkflowComp, lax_dispose=True))
    T.append(Factory("defer", forms("defer", _factory, mod="defer"), Defer))
    T.append(Factory("create", {"mod": ("create.create", lambda w: w.mod("create").create(w.source("S", "tok", name="source").subscribe_async)),
                                "chain": ("AsyncRx.create", lambda w: w.rx.AsyncRx.create(w.source("S", "tok", name="source"))),
                                "class": ("aioreactive.AsyncAnonymousObservable", lambda w: w.rx.AsyncAnonymousObservable(w.source("S", "tok", name="source").subscribe_async))},
                     specs.Mirror))
    return {f.name: f for f in T}


def long_seq(n, is_async=False):
    if is_async:
        return Factory(f"from_async_iterable({n} items)", forms("from_async_iterable", _agen(n), mod="of_async_iterable"), fixed(_seq))
    return Factory(f"from_iterable({n} items)", forms("from_iterable", _items(n), mod="of_seq"), fixed(_seq, sink_raise="terminal"))


def timer_table():
    T = []
    for d, p in ((0.5, 1.0), (1.5, 0.5), (0, 1.0), (2.0, 2.0), (1.0, 0), (0, 0)):
        T.append(Factory(f"interval({d},{p})", forms("interval", lambda w, d=d, p=p: (d, p), mod="interval"), Interval(d, p), TimedComp, timed=True))
    for d, p, k in ((0.25, 0.125, 0.25), (90000.5, 3600.25, 3600.25), (0.001, 0.0009765625, 0.001953125)):
        T.append(Factory(f"interval({d},{p})", forms("interval", lambda w, d=d, p=p: (d, p), mod="interval"), Interval(d, p), TimedComp, timed=True, tickd=k))
    for d in (0, 1.5):
        T.append(Factory(f"timer({d})", forms("timer", lambda w, d=d: (d,), mod="timer"), Interval(d, 0), TimedComp, timed=True))
    return {f.name: f for f in T}


FACTORIES = factory_table()
TIMERS = timer_table()


# ------------------------------------------------------------------- subjects
class Prod:
    """One call of asend/athrow/aclose on a subject."""

    def __init__(self, w, k, v):
        self.w, self.k, self.v = w, k, v
        self.state = "running"      # running | returned | disposed | raised
        self.raised = None
        self.quit = False           # it was cancelled
        self.task = None
        self.targets = []           # monitors that have to get the event
        self.before = set()         # ... subscribed when the call was made
        w.prods.append(self)

    def fp(self, c):
        c.out.append((self.k, self.state, self.quit, [getattr(m, "i", m) for m in self.targets]))
        c.go(self.v)


class Subscriber(Spec):
    guarded = False
    sink_raise = "producer"

    def inn(self, *a):
        pass

    def late_ok(self, k, v):
        # sent before this subscription was disposed
        return any(p.state == "running" and p.k == k and (k == "c" or p.v is v) and self.m in p.before for p in self.w.prods)

    def sink_failed(self, e):
        pass


class SubjectComp(Comp):
    """A multicast subject: producers, subscribers that come and go, slow or failing observers."""
    nsubs = 2
    spec = Subscriber
    forms_mix = False
    resend = True
    joint = True
    conc = 0               # producers that send although another one is not done yet

    def world(self, prog, run):
        w = super().world(prog, run)
        w.prods = []
        w.stopped = None
        w.gone = False
        w.order = []
        return w

    def start(self, w):
        w.pipe = self.build(w)

    def call(self, w, p):
        s = w.pipe
        return s.asend(p.v) if p.k == "n" else s.athrow(p.v) if p.k == "e" else s.aclose()

    def begin(self, w, p):
        """The moment the event is sent: who has to get it."""
        if w.gone or w.stopped:
            return
        if p.k != "n":
            w.stopped = p.k
        for m in w.mons:
            if m.state in ("on", "disposing") and m.disp is not None:
                p.before.add(m)
                m.emit(p.k, p.v)
                if m.state == "on":
                    p.targets.append(m)

    def apply(self, w, ev):
        t = ev[0]
        if t in ("n", "e", "c"):
            p = Prod(w, t, Tok() if t == "n" else UserError("sent") if t == "e" else None)

            async def go():
                w.note(f"  {show_ev(t, p.v)} is sent")
                gone = w.gone
                self.begin(w, p)
                try:
                    await self.call(w, p)
                except EngineSignal:
                    raise
                except BaseException as e:
                    if p.quit and isinstance(e, CancelledError):
                        return
                    p.raised = e
                    self.failed(w, p, e, gone)
                else:
                    self.finished(w, p, gone)
            p.task = w.task(go(), 0)
        elif t == "kill":
            async def go():
                w.note("  the subject is disposed")
                w.gone = True
                self.killed(w)
                try:
                    await w.pipe.dispose_async()
                except EngineSignal:
                    raise
                except BaseException as e:
                    w.violate(("crash", "single"), f"dispose_async failed with {show(e)}")
            w.task(go(), 0)
        elif t == "sub" and w.gone:
            async def go():
                w.tried = True
                try:
                    await w.pipe.subscribe_async(w.cls.Sink(Mon(w, len(w.mons), Subscriber)))
                except models.ObjectDisposedException:
                    w.mons.pop()
                    return
                except EngineSignal:
                    raise
                except BaseException as e:
                    w.violate(("disposed", "single"), f"subscribing to a disposed subject fails with {type(e).__name__}")
                    return
                w.violate(("disposed", "single"), "subscribing to a disposed subject succeeds")
            w.task(go(), 0)
        else:
            super().apply(w, ev)

    def killed(self, w):
        for m in w.mons:
            for e in m.exp:
                e.opt = True

    def failed(self, w, p, e, gone):
        p.state = "raised"
        w.note(f"  the producer gets {type(e).__name__}: {show(e)}")
        if isinstance(e, models.ObjectDisposedException):
            p.state = "disposed"
            if not w.gone:
                w.violate(("disposed", "values", "single"), "ObjectDisposedException although nothing was disposed")
            return
        if any(m.sink_err is not None and m.sink_err[0] is e for m in w.mons):
            for m in w.mons:
                if m.sink_err is not None and m.sink_err[0] is e:
                    m.sink_err = (e, "producer")
            # the others may or may not get this event
            for m in p.targets:
                m.exp = []
            return
        w.violate(("crash", "single"), f"sending failed with {type(e).__name__}: {show(e)}")

    def finished(self, w, p, gone):
        p.state = "returned"
        w.note("  sending returned")
        if gone:
            w.violate(("disposed", "single"), "sending to a disposed subject does not raise ObjectDisposedException")
            return
        for m in p.targets:
            if m.relaxed:
                continue
            if m.depth and not self.conc:
                w.violate(("backpressure", m.iso), "sending returned while an observer is still handling the event")
            elif any(not e.opt and e.k == p.k and e.v is p.v for e in m.exp):
                w.violate(("backpressure", "values", "missing", m.iso), f"sending returned before observer{m.i} got {show_ev(p.k, p.v)}")
        for m in w.mons:
            if m.sink_err is not None and m.sink_err[1] == "owed" and m in p.targets:
                w.violate(("backpressure", "lost", m.iso), "the exception of the observer did not surface at the producer")

    def busy(self, w):
        return any(p.state == "running" for p in w.prods)

    def may_send(self, w):
        if self.conc:
            return sum(1 for p in w.prods if p.state == "running") < self.conc
        return not self.busy(w)

    def can_kill(self, w):
        return True

    def single_events(self, w):
        out = []
        if self.may_send(w):
            if not w.stopped or self.resend:
                out += [("n",), ("e",), ("c",)]
        for m in w.mons:
            if m.gates:
                out.append(("release", m.i))
            if m.disp is not None and m.again < (2 if m.state == "quiet" else 1):
                out.append(("dispose", m.i))
        if len(w.mons) < self.nsubs:
            out.append(("sub",))
        if not w.gone and self.can_kill(w):
            out.append(("kill",))
        return out

    def subscribe(self, w):
        m = super().subscribe(w)
        if w.stopped:
            m.fin = True
        return m

    def enabled(self, w, ev):
        t = ev[0]
        if t in ("n", "e", "c"):
            return self.may_send(w)
        if t in ("kill", "sub"):
            return True
        return super().enabled(w, ev)

    def pair_ok(self, w, a, b):
        return a != b and a[0] != "kill" or a[0] in ("n", "sub")

    def check(self, w):
        super().check(w)
        if w.violations:
            return
        if not any(m.gates for m in w.mons):
            for p in w.prods:
                if p.state == "running" and not self.may_wait(w, p):
                    w.violate(("stuck", "disposed" if w.gone else "values", "single"), f"the producer of {show_ev(p.k, p.v)} is never released")
                    return
            w.prods = [p for p in w.prods if p.state == "running"]

    def may_wait(self, w, p):
        return False

    def roots(self, w):
        yield from super().roots(w)
        yield [w.stopped, w.gone]
        yield w.prods

    def show_event(self, w, e):
        if e[0] in ("n", "e", "c"):
            return f"send {KIND[e[0]]}"
        if e[0] == "kill":
            return "dispose the subject"
        if e[0] == "sub":
            return "subscribe"
        if e[0] == "dispose":
            return f"dispose subscription {e[1]}"
        if e[0] == "release":
            return f"observer{e[1]} ready"
        return super().show_event(w, e)


class OrderedMon(Mon):
    """Observers of one subject are served in the order they subscribed."""

    def on_out(self, k, v):
        w = self.w
        for m in w.mons[:self.i]:
            if m.state == "on" and not m.relaxed and any(not e.opt and e.k == k and (k == "c" or e.v is v) for e in m.exp):
                w.violate(("order", "values", self.iso), f"observer{self.i} got {show_ev(k, v)} before observer{m.i}, which subscribed earlier")
                return
        super().on_out(k, v)


class ConcMon(Mon):
    """Producers that do not wait for each other: every event still goes to each
    observer exactly once, and none that was sent after the terminal event."""

    def on_out(self, k, v):
        w = self.w
        if self.state == "quiet" and not self.spec.late_ok(k, v):
            w.violate(("late", self.iso), f"{show_ev(k, v)} delivered after dispose")
            return
        for i, e in enumerate(self.exp):
            if e.k == k and (k == "c" or e.v is v):
                del self.exp[i]
                return
        if self.relaxed and self.spec.late_ok(k, v):
            return
        w.violate((CAT[k], "grammar", "late_" + k, self.iso),
                  f"observer got {show_ev(k, v)}, which was " + ("sent after the end" if w.stopped else "not sent or already delivered"))


class SingleSubjectComp(SubjectComp):
    """A subject for one observer: producers wait for it."""
    nsubs = 1
    max_prods = 2
    quit = 0               # how many producers stop waiting for an observer

    def world(self, prog, run):
        w = super().world(prog, run)
        w.waiting = []
        w.quits = 0
        return w

    def roots(self, w):
        yield from super().roots(w)
        yield w.quits

    def single_events(self, w):
        return super().single_events(w) + [e for e in (("quit", 0), ("quit", 1)) if self.enabled(w, e)]

    def show_event(self, w, e):
        return f"cancel waiting producer {e[1]}" if e[0] == "quit" else super().show_event(w, e)

    def begin(self, w, p):
        if w.gone or w.stopped:
            return
        if not w.mons:
            w.waiting.append(p)
            return
        if p.k != "n":
            w.stopped = p.k
        m = w.mons[0]
        if m.state in ("on", "subscribing", "disposing"):
            m.emit(p.k, p.v)
            p.targets.append(m)

    def subscribe(self, w):
        m = Comp.subscribe(self, w)
        for p in w.waiting:
            m.emit(p.k, p.v)
            p.targets.append(m)
            if p.k != "n":
                w.stopped = p.k
                break
        w.waiting = []
        return m

    def killed(self, w):
        super().killed(w)
        w.waiting = []
        for m in w.mons:
            m.relaxed = True

    def disposed_inside(self, w):
        w.gone = True
        self.killed(w)

    def apply(self, w, ev):
        if ev[0] == "quit":
            p = w.waiting.pop(ev[1])
            w.note(f"  the producer of {show_ev(p.k, p.v)} does not wait any longer")
            w.quits += 1
            p.quit, p.state = True, "quit"
            p.task.cancel()
            return
        if ev[0] == "dispose":
            async def mark():
                w.gone = True
                self.killed(w)
            w.task(mark(), 0)
        super().apply(w, ev)

    def finished(self, w, p, gone):
        if w.gone and not gone:
            p.state = "returned"        # disposed while it was being delivered
            return
        if not w.mons and p in w.waiting:
            p.state = "returned"
            w.violate(("values", "backpressure", "single"), "sending returned although nobody has subscribed")
            return
        super().finished(w, p, gone)

    def failed(self, w, p, e, gone):
        super().failed(w, p, e, gone)

    def may_wait(self, w, p):
        return not w.gone and not w.mons

    def may_send(self, w):
        n = sum(1 for p in w.prods if p.state == "running")
        if self.conc:
            return n < self.conc
        if w.mons and any(p.state == "running" for p in w.prods):
            return False
        return n < self.max_prods

    def enabled(self, w, ev):
        if ev[0] in ("n", "e", "c"):
            return self.may_send(w)
        if ev[0] == "sub":
            return not w.mons
        if ev[0] == "quit":
            return w.quits < self.quit and not w.mons and not w.gone and ev[1] < len(w.waiting)
        return super().enabled(w, ev)


SUBJECTS = {}


def _subject_table():
    def add(name, entry, fn, cls, **o):
        SUBJECTS[name] = Factory(name, {"top": (entry, fn)}, Subscriber, cls, **o)
    add("AsyncSubject", "aioreactive.AsyncSubject", lambda w: w.rx.AsyncSubject(), SubjectComp, mon_class=OrderedMon)
    add("AsyncSingleSubject", "aioreactive.AsyncSingleSubject", lambda w: w.rx.AsyncSingleSubject(), SingleSubjectComp)


_subject_table()


# ------------------------------------------------------------ async iteration
class Watch(Spec):
    """A monitor that only keeps track of subscriptions."""
    guarded = False
    any_output = True
    free_calls = True

    def inn(self, s, k, v):
        pass


class IterComp(Comp):
    """A consumer pulls from an async iterator while producers push."""
    max_prods = 3
    spec = Watch
    well_formed = True
    twice = False
    give_up = 0            # how often the consumer stops waiting for an element
    quit = 0               # how many producers stop waiting for their turn or for the consumer

    def world(self, prog, run):
        w = super().world(prog, run)
        w.pend = []          # events sent and not yet consumed
        w.prods = []
        w.pull = None        # None | "waiting"
        w.ended = False
        w.term = False
        w.closed = 0
        w.first = 0          # subscriptions made by earlier iterations
        w.more = 0           # pulls after the end
        w.final = None
        w.waiter = None
        w.given_up = 0
        w.quits = 0
        return w

    def start(self, w):
        w.pipe = self.build(w)
        Mon(w, 0, Watch)
        w.mons[0].state = "on"
        w.it = w.pipe.__aiter__()

    def apply(self, w, ev):
        t = ev[0]
        if t == "pull":
            w.pull = "waiting"
            w.more += w.ended

            async def go():
                try:
                    v = await w.it.__anext__()
                except EngineSignal:
                    raise
                except CancelledError as e:
                    if w.waiter is not None:
                        self.got(w, "e", e)
                    else:
                        w.note("the consumer does not wait any longer")
                except StopAsyncIteration:
                    self.got(w, "c", None)
                except BaseException as e:
                    self.got(w, "e", e)
                else:
                    self.got(w, "n", v)
                w.pull = None
            w.waiter = w.task(go(), 0)
        elif t == "give up":
            w.given_up += 1
            task, w.waiter = w.waiter, None
            task.cancel()
        elif t in ("n", "e", "c"):
            s = self.sub(w)
            p = Prod(w, t, Tok() if t == "n" else UserError("sent") if t == "e" else None)
            if t != "n":
                w.term = True

            async def go():
                w.note(f"  {show_ev(t, p.v)} is sent")
                w.pend.append(p)
                try:
                    await (s.obs.asend(p.v) if t == "n" else s.obs.athrow(p.v) if t == "e" else s.obs.aclose())
                except EngineSignal:
                    raise
                except BaseException as e:
                    if p.quit and isinstance(e, CancelledError):
                        p.state = "quit"
                        return
                    p.state = "raised"
                    if not w.closed:
                        w.violate(("crash", "single"), f"sending {show_ev(t, p.v)} failed with {type(e).__name__}: {show(e)}")
                else:
                    p.state = "returned"
                    w.note(f"  the producer of {show_ev(t, p.v)} is released")
            p.task = w.task(go(), 0)
        elif t == "quit":
            p = [p for p in w.prods if p.state == "running" and not p.quit][ev[1]]
            w.note(f"  the producer of {show_ev(p.k, p.v)} does not wait any longer")
            w.quits += 1
            p.quit, p.state = True, "quit"
            p.task.cancel()
        elif t == "again":
            # a second loop over the same object
            w.first = len(w.subs)
            w.pend, w.prods = [], []
            w.ended = w.term = False
            w.more, w.final = 0, None
            w.closed = 0
            w.it = w.pipe.__aiter__()
        elif t == "close":
            w.closed += 1

            async def go():
                try:
                    await w.it.dispose_async()
                except EngineSignal:
                    raise
                except BaseException as e:
                    w.violate(("crash", "release_dispose", "single"), f"dispose_async failed with {type(e).__name__}: {show(e)}")
            w.task(go(), 0)
        else:
            super().apply(w, ev)

    def got(self, w, k, v):
        w.note(f"iteration gets {show_ev(k, v)}")
        if w.closed:
            return
        if w.ended:
            if k == "n" or (k == "e" and v is not w.final):
                w.violate(("values", "single"), f"the iteration gives {show_ev(k, v)} after its end")
            return
        m = w.mons[0]
        if any(x[0] is v for x in m.owed):
            m.settle(v)          # the subscription failed
            w.ended, w.final, w.more = True, v, 2
            return
        # whether the element of a producer that stopped waiting is still delivered is open
        while w.pend and w.pend[0].quit and not (w.pend[0].k == k and (k == "c" or w.pend[0].v is v)):
            w.pend.pop(0)
        if not w.pend:
            w.violate(("values", "single"), f"the iteration yields {show_ev(k, v)} although nothing is pending")
            return
        p = w.pend[0]
        if p.k != k or (k == "n" and not same(v, p.v)) or (k == "e" and v is not p.v):
            w.violate(("values", "single"), f"the iteration yields {show_ev(k, v)}, expected {show_ev(p.k, p.v)}")
            return
        w.pend.pop(0)
        p.targets = ["consumed"]
        if k != "n":
            w.ended = True
            w.final = v

    def sub(self, w):
        return w.subs[-1] if len(w.subs) > w.first else None

    def enabled(self, w, ev):
        t = ev[0]
        if t in ("n", "e", "c"):
            s = self.sub(w)
            return s is not None and s.live and not w.term and sum(1 for p in w.prods if p.state == "running") < self.max_prods
        if t == "pull":
            return w.pull is None and w.more < 2 and not w.closed
        if t == "quit":
            return w.quits < self.quit and ev[1] < sum(1 for p in w.prods if p.state == "running" and not p.quit)
        if t == "give up":
            return w.given_up < self.give_up and w.pull is not None and w.waiter is not None and self.sub(w) is not None
        if t == "close":
            return w.closed < 2 and self.closable(w)
        if t == "again":
            return self.twice and w.first == 0 and self.sub(w) is not None and w.pull is None and all(p.state != "running" for p in w.prods)
        return True

    def closable(self, w):
        return self.sub(w) is not None and w.pull is None and hasattr(w.it, "dispose_async")

    def single_events(self, w):
        return [e for e in (("pull",), ("n",), ("e",), ("c",), ("close",), ("again",), ("give up",), ("quit", 0), ("quit", 1), ("quit", 2)) if self.enabled(w, e)]

    def follow(self, w, a):
        return [e for e in (("pull",), ("n",), ("c",)) if e not in self.single_events(w)]

    def pair_ok(self, w, a, b):
        return a[0] not in ("close", "again") and b[0] != "again"

    def check(self, w):
        if w.violations:
            return
        Comp.check(self, w)
        if w.violations:
            return
        if w.closed:
            live = [s for s in w.subs[w.first:] if s.live]
            if live:
                w.violate(("release_dispose", "single"), "after dispose the source is still subscribed")
            return
        if w.pull and not self.sub(w):
            w.violate(("subs", "values", "single"), "the source is never subscribed")
            return
        due = [p for p in w.pend if not p.quit]
        if w.pull and due:
            w.violate(("stuck", "values", "missing", "single"), f"the iteration never gets {show_ev(due[0].k, due[0].v)}")
            return
        for p in w.prods:
            if p.state == "running" and p.targets:
                w.violate(("stuck", "single"), f"the producer of {show_ev(p.k, p.v)} stays blocked although it was consumed")
                return
            if p.state == "returned" and not p.targets and not p.quit:
                w.violate(("backpressure", "values", "single"), f"the producer of {show_ev(p.k, p.v)} was released before it was consumed")
                return
        w.prods = [p for p in w.prods if p.state == "running"]

    def roots(self, w):
        yield from super().roots(w)
        yield w.it
        yield w.prods
        yield [w.given_up, w.quits]
        yield [w.pull, w.ended, w.term, w.closed, w.first > 0, w.more, w.final]

    def show_event(self, w, e):
        if e[0] in ("n", "e", "c"):
            return f"send {KIND[e[0]]}"
        if e[0] == "pull":
            return "next"
        if e[0] == "close":
            return "dispose the iterator"
        if e[0] == "again":
            return "start a second iteration"
        if e[0] == "quit":
            return f"cancel producer {e[1]}"
        if e[0] == "give up":
            return "cancel the consumer's wait"
        return super().show_event(w, e)


def _src(w):
    return w.source("S", "tok", name="source")


ITERS = {}
for _n, _e, _f in (
        ("to_async_iterable", "aioreactive.to_async_iterable", lambda w: w.rx.to_async_iterable(_src(w))),
        ("AsyncRx.to_async_iterable", "AsyncRx.to_async_iterable", lambda w: w.rx.AsyncRx(_src(w)).to_async_iterable()),
        ("AsyncIterableObservable", "aioreactive.AsyncIterableObservable", lambda w: w.rx.AsyncIterableObservable(_src(w))),
        ("AsyncIteratorObserver", "aioreactive.AsyncIteratorObserver", lambda w: w.rx.AsyncIteratorObserver(_src(w)))):
    ITERS[_n] = Factory(_n, {"top": (_e, _f)}, Watch, IterComp)


# ------------------------------------------------------------------- awaiting
class AwaitComp(Comp):
    """Events sent straight into an awaitable observer."""
    spec = Watch
    callbacks = True
    klass = "AsyncAwaitableObserver"
    after = 1            # events after the terminal one that are tried
    slowcb = False       # the send callback takes its time
    give_up = False      # whoever awaits it stops waiting, which cancels it

    def world(self, prog, run):
        w = super().world(prog, run)
        w.last = ()
        w.term = None
        w.calls = []
        w.want = []
        w.more = 0
        w.gates = []
        w.cut = False
        return w

    def make(self, w):
        cls = getattr(w.rx, self.klass)
        if not self.callbacks:
            return cls()

        async def gate():
            f = aio.Future()
            w.gates.append(f)
            await f

        async def asend(v):
            w.calls.append(("n", v))
            if self.slowcb is True:
                await gate()

        async def athrow(e):
            w.calls.append(("e", e))
            if self.slowcb == "term":
                await gate()

        async def aclose():
            w.calls.append(("c", None))
            if self.slowcb == "term":
                await gate()
        return cls(asend, athrow, aclose)

    def start(self, w):
        w.pipe = self.make(w)

    def apply(self, w, ev):
        t = ev[0]
        if t == "ready":
            w.gates.pop(0).set_result(None)
            return
        if t == "give up":
            w.pipe.cancel()
            w.cut, w.term = True, ("cancel", None)
            return
        if t == "stop":
            w.pipe.dispose()
            w.term = w.term or ("stop", None)
            return
        v = Tok() if t == "n" else UserError("sent") if t == "e" else None
        if w.term is None:
            if self.callbacks:
                w.want.append((t, v))
            if t == "n":
                w.last = (v,)
            elif t == "e":
                w.term = ("e", v)
            else:
                w.term = ("n", w.last[0]) if w.last else ("cancel", None)
        else:
            w.more += 1

        async def go():
            w.note(f"  {show_ev(t, v)} is sent")
            o = w.pipe
            try:
                await (o.asend(v) if t == "n" else o.athrow(v) if t == "e" else o.aclose())
            except EngineSignal:
                raise
            except BaseException as e:
                w.violate(("crash", "single"), f"sending {show_ev(t, v)} failed with {type(e).__name__}: {show(e)}")
        w.task(go(), 0)

    def single_events(self, w):
        out = [("ready",)] if w.gates else []
        if (w.term is None or w.more < self.after) and len(w.gates) < 3:
            out += [("n",), ("e",), ("c",)]
        if w.term is None:
            out.append(("stop",))
            if self.give_up:
                out.append(("give up",))
        return out

    def check(self, w):
        if w.violations:
            return
        f = w.pipe
        t = w.term
        state = "pending" if not f.done() else "cancel" if f.cancelled() else "e" if f._exception is not None else "n"
        want = "pending" if t is None or t[0] == "stop" else t[0]
        if state == "pending" and self.slowcb == "term" and w.gates:
            want = "pending"     # it may resolve after the callback
        if state != want or (state == "n" and not same(f._result, t[1])) or (state == "e" and f._exception is not t[1]):
            got = {"pending": "is pending", "cancel": "is cancelled", "e": f"failed with {show(f._exception)}", "n": f"returns {show(f._result)}"}[state]
            exp = {"pending": "pending", "cancel": "cancelled", "e": f"failing with {show(t and t[1])}", "n": f"returning {show(t and t[1])}"}[want]
            w.violate(("values", "error", "single"), f"the awaitable {got}, expected {exp}")
            return
        f._log_tb = False
        if w.cut:
            return               # whether the callbacks go on is not specified
        if len(w.calls) != len(w.want) or any(a[0] != b[0] or a[1] is not b[1] for a, b in zip(w.calls, w.want)):
            w.violate(("calls", "single"), "callbacks got " + ", ".join(show_ev(*x) for x in w.calls) + "; expected "
                      + ", ".join(show_ev(*x) for x in w.want))
            return
        w.calls, w.want = [], []

    def roots(self, w):
        yield w.pipe
        yield [w.last, w.term, w.more, w.gates, w.cut]

    def show_event(self, w, e):
        return "stop waiting for it" if e[0] == "give up" else "dispose" if e[0] == "stop" else "the callback finishes" if e[0] == "ready" else f"send {KIND[e[0]]}"


class RunComp(Comp):
    """`run(source)`: resolves, fails or times out, and always releases the source."""
    spec = Watch
    timed = True
    timeout = 2
    given = False

    def world(self, prog, run):
        w = super().world(prog, run)
        w.last = ()
        w.term = None
        w.result = None
        w.cancelled = False
        w.calls, w.want = [], []
        return w

    def start(self, w):
        w.pipe = _src(w)
        m = Mon(w, 0, RunSpec)
        m.state = "on"

        async def go():
            w.t0 = w.now
            try:
                v = await self.build(w)(w.pipe)
            except EngineSignal:
                raise
            except CancelledError:
                w.result = ("cancel", None)
            except TimeoutError:
                w.result = ("timeout", w.now - w.t0)
            except BaseException as e:
                w.result = ("e", e)
                if any(x[0] is e for x in m.owed):
                    m.settle(e)          # the subscription failed
                    w.term = w.result
            else:
                w.result = ("n", v)
            w.note("run ends: " + " ".join(map(show, w.result)))
        w.runner = w.task(go(), 0)

    def apply(self, w, ev):
        if ev[0] == "cancel":
            w.cancelled = True
            w.mons[0].relaxed = True
            w.runner.cancel()
        else:
            super().apply(w, ev)

    def single_events(self, w):
        if w.result is not None:
            return []
        out = [e for e in super().single_events(w) if e[0] != "dispose"]
        if ("tick", 1.0) not in out:
            out.append(("tick", 1.0))
        return out + ([("cancel",)] if not w.cancelled else [])

    def check(self, w):
        if w.violations:
            return
        Comp.check(self, w)
        if w.violations:
            return
        r, t = w.result, w.term
        if w.cancelled:
            if r is None:
                w.violate(("stuck", "single"), "run does not end although it was cancelled")
        elif t is not None:
            if r is None:
                w.violate(("missing", "values", "single"), "run does not end although the sequence has ended")
            elif r[0] == "timeout":
                w.violate(("timing", "values", "single"), "run timed out although the sequence has ended")
            elif r[0] != t[0] or (t[0] == "n" and not same(r[1], t[1])) or (t[0] == "e" and r[1] is not t[1]):
                w.violate(("values", "error", "single"), f"run ends with {r[0]} {show(r[1])}, expected {t[0]} {show(t[1])}")
        elif r is not None and r[0] != "timeout":
            w.violate(("values", "single"), f"run ended with {r[0]} {show(r[1])} although the sequence has not")
        elif r is not None and r[1] != self.timeout:
            w.violate(("timing", "single"), f"run timed out after {r[1]:g}, not {self.timeout}")
        elif r is None and w.now - w.t0 > self.timeout:
            w.violate(("timing", "stuck", "single"), "run does not time out")
        if w.violations:
            return
        if r is not None:
            live = [s for s in w.subs if not s.disposed]
            if live:
                w.violate(("release_term", "release_dispose", "single"), f"run has ended but {live[0].name()} is still subscribed")
        elif not w.subs:
            w.violate(("subs", "single"), "run does not subscribe")
        if not w.violations and self.given and not w.cancelled:
            if len(w.calls) != len(w.want) or any(a[0] != b[0] or a[1] is not b[1] for a, b in zip(w.calls, w.want)):
                w.violate(("calls", "single"), "the callbacks of the given observer got " + ", ".join(show_ev(*x) for x in w.calls)
                          + "; expected " + ", ".join(show_ev(*x) for x in w.want))
            w.calls, w.want = [], []

    def roots(self, w):
        yield from super().roots(w)
        yield [w.last, w.term, w.result, w.cancelled, round(w.now - w.t0, 3)]

    def show_event(self, w, e):
        if e[0] == "cancel":
            return "cancel run"
        return super().show_event(w, e)


def recording(w):
    async def asend(v):
        w.calls.append(("n", v))

    async def athrow(e):
        w.calls.append(("e", e))

    async def aclose():
        w.calls.append(("c", None))
    return w.rx.AsyncAwaitableObserver(asend, athrow, aclose)


class RunSpec(Watch):
    def inn(self, s, k, v):
        w = self.w
        if w.term is not None or w.result is not None:
            return
        w.want.append((k, v))
        if k == "n":
            w.last = (v,)
        elif k == "e":
            w.term = ("e", v)
        else:
            w.term = ("n", w.last[0]) if w.last else ("cancel", None)


AWAIT = {
    "AsyncAwaitableObserver": Factory("AsyncAwaitableObserver", {"top": ("aioreactive.AsyncAwaitableObserver", None)}, Watch, AwaitComp),
    "AsyncAwaitableObserver()": Factory("AsyncAwaitableObserver()", {"top": ("aioreactive.AsyncAwaitableObserver", None)}, Watch, AwaitComp, callbacks=False),
    "run": Factory("run", {"top": ("aioreactive.run", lambda w: w.rx.run), "mod": ("subscription.run", lambda w: w.mod("subscription").run)}, Watch, RunComp),
    **{f"run(observer,{t})": Factory(f"run(observer,{t})", {"top": ("aioreactive.run", lambda w, t=t: (
        lambda src: w.rx.run(src, recording(w), t)))}, Watch, RunComp, timeout=t, given=True) for t in (0, 1, 1.5, 3)},
}
