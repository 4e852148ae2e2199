"""Clients of the virtual-time loop, notifications, testing helpers, the
ReactiveX bridge and the pass-through facades."""
from __future__ import annotations

from . import aio, core, models, specs
from .core import EngineSignal, Inconclusive, PathCut, Tok, UserError, same, show
from .harness import Comp, Exp, KIND, Mon, show_ev
from .special import AWAIT, AwaitComp, Factory, SUBJECTS, SubjectComp, Subscriber, Watch


# ---------------------------------------------------------------- virtual time
class Cb:
    def __init__(self, w, kind, due):
        self.w, self.kind, self.due = w, kind, due
        self.state = "pending"
        self.at = w.pipe.time()
        self.seq = w.seq
        self.step = w.step
        self.nested = None
        w.seq += 1
        w.cbs.append(self)
        self.handle = None

    def fp(self, c):
        c.out.append((self.kind, self.state, self.step == self.w.step))
        c.go(self.due)
        c.go(self.handle)

    def name(self):
        return f"callback{self.seq}" + (f"@{self.due:g}" if self.due is not None else "")


class VLoopComp(Comp):
    """Callbacks and timers scheduled and cancelled in any order, also by callbacks."""
    spec = Watch
    max_pending = 3
    acts = 1
    debug = False
    many = False

    def world(self, prog, run):
        w = super().world(prog, run)
        w.cbs, w.seq, w.step, w.last, w.acts, w.live = [], 0, 0, 0.0, self.acts, False
        return w

    def start(self, w):
        w.pipe = self.build(w)
        if self.debug:
            w.pipe.set_debug(True)
        t = w.pipe.time()
        if t != 0:
            w.violate(("clock", "single"), f"the clock starts at {t!r}")
        w.last = t

    def rel(self, w):
        return w.last

    def sched(self, w, ev):
        l = w.pipe
        t = ev[0]
        now = l.time()
        due = None if t == "soon" else now + ev[1]
        cb = Cb(w, t, due)

        def run():
            self.ran(w, cb)
        w.note(f"  {t} {cb.name()} scheduled at {now:g}")
        cb.handle = l.call_soon(run) if t == "soon" else l.call_at(due, run) if t == "at" else l.call_later(ev[1], run)
        return cb

    def ran(self, w, cb):
        t = w.pipe.time()
        w.note(f"  {cb.name()} runs at {t:g}")
        if cb.state != "pending":
            w.violate(("order", "single"), f"{cb.name()} runs although it was " + ("cancelled" if cb.state == "cancelled" else "already run"))
            return
        cb.state = "ran"
        if t < w.last:
            w.violate(("clock", "single"), f"the clock moves back from {w.last:g} to {t:g}")
            return
        pend = [c for c in w.cbs if c.state == "pending"]
        if cb.due is None:
            if t != cb.at:
                w.violate(("clock", "order", "single"), f"the clock was advanced from {cb.at:g} to {t:g} before ready {cb.name()} ran")
                return
            e = next((c for c in pend if c.due is None and c.seq < cb.seq), None)
            if e:
                w.violate(("order", "single"), f"{cb.name()} runs before {e.name()}, which was scheduled first")
                return
        else:
            want = max(cb.due, w.last)
            if t != want:
                w.violate(("clock", "single"), f"the clock reads {t:g} while {cb.name()} runs, expected {want:g}")
                return
            if t > w.last and any(c.due is None and c.step < w.step for c in pend):
                w.violate(("order", "single"), f"the clock was advanced to {t:g} while a ready callback waits")
                return
            e = next((c for c in pend if c.due is not None and c.due < cb.due and c.step < w.step), None)
            if e:
                w.violate(("order", "single"), f"{cb.name()} runs before {e.name()}")
                return
        w.last = t
        if w.acts > 0 and len(pend) < self.max_pending:
            c = core.run().choose(5 if pend else 4, "what the callback does")
            if c:
                w.acts -= 1
            if c == 1:
                self.sched(w, ("soon",))
            elif c == 2:
                self.sched(w, ("later", 1.0))
            elif c == 3:
                raise UserError("callback")
            elif c == 4:
                self.cancel(w, pend[0])

    def cancel(self, w, cb):
        w.note(f"  {cb.name()} is cancelled")
        cb.state = "cancelled"
        cb.handle.cancel()

    def once(self, w):
        w.step += 1
        try:
            w.pipe._run_once()
        except EngineSignal:
            raise
        except BaseException as e:
            w.violate(("crash", "single"), f"an iteration of the loop failed with {type(e).__name__}: {show(e)}")
        t = w.pipe.time()
        if t < w.last and not w.violations:
            w.violate(("clock", "single"), f"the clock moves back from {w.last:g} to {t:g}")

    def apply(self, w, ev):
        t = ev[0]
        if t in ("soon", "at", "later"):
            self.sched(w, ev)
        elif t == "cancel":
            self.cancel(w, w.cbs[ev[1]])
        elif t == "run":
            before = len([c for c in w.cbs if c.state == "pending"])
            self.once(w)
        elif t == "many":
            n = 120
            for i in range(n):
                self.sched(w, ("at", float((i * 37) % n + 1)))
            for cb in list(w.cbs)[-n:]:
                if int(cb.due) % 3 and cb.due > 2:
                    self.cancel(w, cb)
        elif t == "drain":
            for _ in range(2 * len([c for c in w.cbs if c.state != "ran"]) + 2 * self.acts + 6):
                self.once(w)
                if w.violations:
                    return
            e = next((c for c in w.cbs if c.state == "pending"), None)
            if e:
                w.violate(("order", "missing", "single"), f"{e.name()} never runs")

    def single_events(self, w):
        pend = [i for i, c in enumerate(w.cbs) if c.state == "pending"]
        out = []
        if len(pend) < self.max_pending:
            out += [("soon",), ("at", -1.0), ("at", 0.5), ("at", 2.0), ("later", 0.0), ("later", 1.0)]
        if self.many and w.seq <= 1:
            out += [("many",)]
        out += [("cancel", i) for i in pend[:4]]
        if pend:
            out += [("run",), ("drain",)]
        return out

    def check(self, w):
        w.loop.errors.clear()
        if hasattr(w.pipe, "errors"):
            for c in w.pipe.errors:
                if not isinstance(c.get("exception"), UserError):
                    w.violate(("crash", "single"), f"callback failed with {c.get('exception')!r}")
            w.pipe.errors.clear()
        w.pipe.tasks.clear()
        # callbacks that are over need not be remembered unless the loop still holds them
        held = {id(h) for h in list(getattr(w.pipe, "_ready", ())) + list(getattr(w.pipe, "_scheduled", ()))}
        w.cbs = [c for c in w.cbs if c.state == "pending" or id(c.handle) in held]

    def roots(self, w):
        yield w.pipe
        yield w.cbs
        yield w.acts

    def show_event(self, w, e):
        return {"soon": "call_soon", "at": "call_at", "later": "call_later", "cancel": "cancel", "run": "one iteration",
                "drain": "run until idle", "many": "120 timers, most of them cancelled"}[e[0]] + (f" {e[1]:g}" if len(e) > 1 else "")


VLOOP = {"VirtualTimeEventLoop": Factory(
    "VirtualTimeEventLoop", {"mod": ("testing.VirtualTimeEventLoop", lambda w: w.mod("testing").VirtualTimeEventLoop())}, Watch, VLoopComp)}


# --------------------------------------------------------------- notifications
class EqError(UserError):
    """An exception with an equality of its own."""

    def __init__(self, name):
        super().__init__(name)
        self.content = Tok()

    def __eq__(self, o):
        return isinstance(o, EqError) and self.content == o.content

    def __hash__(self):
        return 7


class NoteComp(Comp):
    """Every notification handed to handlers, an observer, or compared."""
    spec = Watch

    def start(self, w):
        w.pipe = w.mod("notification")
        w.got = []

    def make(self, w, k, err=UserError):
        n = w.pipe
        v = Tok() if k == "n" else err("given") if k == "e" else None
        return (n.OnNext(v) if k == "n" else n.OnError(v) if k == "e" else n.OnCompleted()), v

    def handlers(self, w, bad=None):
        def mk(k):
            async def h(*a):
                await aio.sleep(0)
                w.got.append((k, a))
                if bad is not None:
                    raise bad

            return h
        return [mk(k) for k in "nec"]

    def observer(self, w, hs):
        rx = w.rx

        class Rec(rx.AsyncObserver):
            async def asend(self, *a):
                await hs[0](*a)

            async def athrow(self, *a):
                await hs[1](*a)

            async def aclose(self, *a):
                await hs[2](*a)
        return Rec()

    def apply(self, w, ev):
        t = ev[0]
        if t in ("accept", "observer", "raise", "oraise"):
            k = ev[1]
            note, v = self.make(w, k)
            bad = UserError("handler") if "raise" in t else None
            hs = self.handlers(w, bad)

            async def go():
                e = None
                try:
                    if t in ("accept", "raise"):
                        await note.accept(*hs)
                    else:
                        await note.accept_observer(self.observer(w, hs))
                except EngineSignal:
                    raise
                except BaseException as x:
                    e = x
                if e is not bad:
                    w.violate(("lost" if bad else "crash", "values", "single"), f"{ev} ended with {show(e)}, expected {show(bad)}")
                    return
                self.expect(w, k, v, "the handler")
            w.task(go(), 0)
        elif t == "feed":
            k = ev[1]
            v = Tok() if k == "n" else UserError("given") if k == "e" else None
            seen = []
            bad = UserError("function") if ev[2] else None

            async def fn(*a):
                await aio.sleep(0)
                seen.append(a)
                if bad:
                    raise bad
            o = w.rx.AsyncNotificationObserver(fn)

            async def go():
                e = None
                try:
                    await (o.asend(v) if k == "n" else o.athrow(v) if k == "e" else o.aclose())
                except EngineSignal:
                    raise
                except BaseException as x:
                    e = x
                if e is not bad:
                    w.violate(("lost" if bad else "crash", "values", "single"), f"notifying {KIND[k]} ended with {show(e)}, expected {show(bad)}")
                    return
                n = w.pipe
                cls = {"n": n.OnNext, "e": n.OnError, "c": n.OnCompleted}[k]
                if len(seen) != 1 or len(seen[0]) != 1 or not isinstance(seen[0][0], cls) \
                        or (k == "n" and seen[0][0].value is not v) or (k == "e" and seen[0][0].exception is not v):
                    w.violate(("values", "single"), f"the notification function did not get exactly the notification of {show_ev(k, v)}")
            w.task(go(), 0)
        elif t == "eq":
            a, va = self.make(w, ev[1], EqError if ev[3] == 2 else UserError)
            b, vb = self.make(w, ev[2], EqError if ev[3] == 2 else UserError)
            if ev[3] == 1:
                if ev[1] == "n":
                    b, vb = w.pipe.OnNext(va), va
                elif ev[1] == "e":
                    b, vb = w.pipe.OnError(va), va
            want = ev[1] == ev[2] and (ev[1] == "c" or va is vb or (ev[1] == "n" or ev[3] == 2) and bool(va == vb))
            for x, y, s in ((a, b, ""), (b, a, " (swapped)")):
                r = core.run()
                got = bool(x == y)
                if got != want:
                    w.violate(("values", "single"), f"{show_ev(ev[1], va)} == {show_ev(ev[2], vb)}{s} is {got}")
                    return
                if bool(x != y) == want:
                    w.violate(("values", "single"), f"{show_ev(ev[1], va)} != {show_ev(ev[2], vb)}{s} is {want}")
                    return
            if ev[1] == "n":
                a, va = w.pipe.OnNext(5), 5
            if ev[1] != "c" and bool(a == va):
                w.violate(("values", "single"), f"the notification of {show_ev(ev[1], va)} equals its bare content")

    def expect(self, w, k, v, what):
        want = (v,) if k != "c" else ()
        g = w.got
        if len(g) != 1 or g[0][0] != k or len(g[0][1]) != len(want) or any(x is not y for x, y in zip(g[0][1], want)):
            w.violate(("values", "single"), f"{show_ev(k, v)} invoked " + (", ".join(f"{KIND[a]} handler with {len(b)} arguments" for a, b in g) or "no handler"))
        w.got = []

    def single_events(self, w):
        out = [(t, k) for t in ("accept", "observer", "raise", "oraise") for k in "nec"]
        out += [("feed", k, b) for k in "nec" for b in (0, 1)]
        out += [("eq", a, b, s) for a in "nec" for b in "nec" for s in ((0, 1) if a == b == "n" else (0, 1, 2) if a == b == "e" else (0,))]
        return out

    def check(self, w):
        if not w.violations:
            for x in w.loop.errors:
                w.violate(("crash", "single"), f"failed with {x.get('exception')!r}")
            for t in w.loop.tasks:
                if t._exception is not None:
                    raise t._exception
                if not t.done():
                    w.violate(("stuck", "single"), "the handler is never finished")

    def roots(self, w):
        yield 0

    def show_event(self, w, e):
        return " ".join(map(str, e))


NOTES = {"Notification": Factory("Notification", {"mod": ("notification.Notification", None)}, Watch, NoteComp)}


# ------------------------------------------------------------- testing helpers
class RecordComp(AwaitComp):
    """The recording observer of the testing package."""
    timed = True

    def world(self, prog, run):
        w = super().world(prog, run)
        w.rec = []
        return w

    def make(self, w):
        cls = w.mod("testing").AsyncTestObserver
        if not self.callbacks:
            return cls()

        def mk(k):
            async def h(*a):
                if not self.slowcb:
                    w.calls.append((k, a[0] if a else None))
                    return
                f = aio.Future()
                w.gates.append(f)
                await f
            return h
        return cls(mk("n"), mk("e"), mk("c"))

    def apply(self, w, ev):
        if ev[0] == "ready":
            w.gates.pop(0).set_result(None)
            return
        if ev[0] == "tick":
            Comp.tick(self, w, ev[1])
            return
        n = len(w.loop.tasks)
        want = len(w.want)
        v = Tok() if ev[0] == "n" else UserError("sent") if ev[0] == "e" else None
        o = w.pipe
        if w.term is None:
            if self.callbacks and not self.slowcb:
                w.want.append((ev[0], v))
            if ev[0] == "n":
                w.last = (v,)
            elif ev[0] == "e":
                w.term = ("e", v)
            else:
                w.term = ("n", w.last[0]) if w.last else ("cancel", None)
        else:
            w.more += 1
        w.rec.append((w.now, ev[0], v))
        t = ev[0]

        async def go():
            w.note(f"  {show_ev(t, v)} is sent")
            try:
                await (o.asend(v) if t == "n" else o.athrow(v) if t == "e" else o.aclose())
            except EngineSignal:
                raise
            except BaseException as e:
                w.violate(("crash", "single"), f"sending {show_ev(t, v)} failed with {type(e).__name__}: {show(e)}")
        w.task(go(), 0)

    def single_events(self, w):
        out = []
        if len(w.rec) < 4 and w.term is None:
            out = [("n",), ("e",), ("c",)]
        return out + [("tick", 1.0)] * (w.now < 2 and (not self.callbacks or self.slowcb)) + [("ready",)] * bool(w.gates)

    def check(self, w):
        if not self.slowcb:      # the result of the future waits for the callbacks
            super().check(w)
        if w.violations:
            return
        vals = w.pipe.values
        n = w.mod("notification")
        for i, (t, k, v) in enumerate(w.rec):
            if i >= len(vals):
                w.violate(("values", "missing", "single"), f"{show_ev(k, v)} was not recorded")
                return
            rt, x = vals[i]
            cls = {"n": n.OnNext, "e": n.OnError, "c": n.OnCompleted}[k]
            if not isinstance(x, cls) or (k == "n" and x.value is not v) or (k == "e" and x.exception is not v):
                w.violate(("values", "single"), f"recorded {type(x).__name__} instead of {show_ev(k, v)}")
                return
            if rt != t:
                w.violate(("timing", "values", "single"), f"{show_ev(k, v)} recorded at {rt!r}, not {t:g}")
                return
        if len(vals) > len(w.rec):
            w.violate(("values", "single"), f"{len(vals)} events recorded, {len(w.rec)} were sent")

    def roots(self, w):
        yield from super().roots(w)
        yield [w.rec, w.now]

    def show_event(self, w, e):
        return f"wait {e[1]:g}" if e[0] == "tick" else super().show_event(w, e)


METHODS = [(k, m) for k, ms in (("n", ("asend_at", "asend_later", "asend_later_scheduled")), ("e", ("athrow_at", "athrow_later", "athrow_later_scheduled")),
                                ("c", ("aclose_at", "aclose_later", "close_later_scheduled"))) for m in ms]
OFFSET = {"at": 1.25, "later": 0.5, "scheduled": 1.75}


class ScheduleComp(Comp):
    """Events scheduled on a test subject."""
    spec = Subscriber
    timed = True
    cap = 3

    def world(self, prog, run):
        w = super().world(prog, run)
        w.prods = []
        w.due = []
        w.nsched = 0
        return w

    def start(self, w):
        w.pipe = self.build(w)
        self.subscribe(w)

    def apply(self, w, ev):
        if ev[0] != "do":
            return super().apply(w, ev)
        k, meth = METHODS[ev[1]]
        d = OFFSET[meth.rsplit("_", 1)[1]]
        at = w.now + d
        v = Tok() if k == "n" else UserError("sent") if k == "e" else None
        args = (() if k == "c" else (v,))
        m = w.mons[0]
        w.due.append((at, meth.rsplit("_", 1)[1]))
        w.nsched += 1
        if m.state == "on" and not m.done:
            m.exp.append(Exp(k, v, m.relaxed, at))
            m.exp.sort(key=lambda e: e.due)
            for i, e in enumerate(m.exp):
                if e.k != "n":
                    del m.exp[i + 1:]
                    break

        async def go():
            try:
                await getattr(w.pipe, meth)(at if meth.endswith("_at") else d, *args)
            except EngineSignal:
                raise
            except models.ObjectDisposedException:
                if m.state == "on":
                    w.violate(("crash", "single"), f"{meth} failed with ObjectDisposedException")
                return
            except BaseException as e:
                w.violate(("crash", "single"), f"{meth} failed with {type(e).__name__}: {show(e)}")
                return
            if meth.endswith("_later") and w.now < at:
                w.violate(("timing", "single"), f"{meth} returned before its time")
            elif not meth.endswith("_later") and w.now > at - d:
                w.violate(("timing", "single"), f"{meth} returned late")
        w.task(go(), 0)

    def single_events(self, w):
        out = []
        if w.nsched < self.cap:
            for i, (k, meth) in enumerate(METHODS):
                g = meth.rsplit("_", 1)[1]
                if (w.now + OFFSET[g], g) not in w.due:
                    out.append(("do", i))
        if w.loop.pending_timers() or any(e.due is not None for m in w.mons for e in m.exp):
            out.append(("tick", 1.0))
        for m in w.mons:
            if m.disp is not None and m.again < 1 and m.state == "on":
                out.append(("dispose", m.i))
        return out

    def pair_ok(self, w, a, b):
        return a[0] == "do" and b[0] == "do" and a != b and METHODS[a[1]][1].rsplit("_", 1)[1] != METHODS[b[1]][1].rsplit("_", 1)[1]

    def enabled(self, w, ev):
        return True if ev[0] == "do" else super().enabled(w, ev)

    def check(self, w):
        w.due = [x for x in w.due if x[0] > w.now]
        for t in w.loop.tasks:
            if isinstance(t._exception, models.ObjectDisposedException) and w.mons[0].state != "on":
                t._log_tb = False
        super().check(w)

    def roots(self, w):
        yield from super().roots(w)
        yield w.nsched
        yield [round(x[0] - w.now, 6) for x in w.due]

    def show_event(self, w, e):
        if e[0] == "do":
            return METHODS[e[1]][1]
        return super().show_event(w, e)


TESTING = {
    "AsyncTestObserver": Factory("AsyncTestObserver", {"mod": ("testing.AsyncTestObserver", None)}, Watch, RecordComp),
    "AsyncTestObserver()": Factory("AsyncTestObserver()", {"mod": ("testing.AsyncTestObserver", None)}, Watch, RecordComp, callbacks=False),
    "AsyncTestSubject": Factory("AsyncTestSubject", {"mod": ("testing.AsyncTestSubject", lambda w: w.mod("testing").AsyncTestSubject())},
                                Subscriber, ScheduleComp),
    "AsyncTestSingleSubject": Factory("AsyncTestSingleSubject", {"mod": ("testing.AsyncTestSingleSubject",
                                      lambda w: w.mod("testing").AsyncTestSingleSubject())}, Subscriber, ScheduleComp),
}


# ---------------------------------------------------------------------- bridge
class _RxDisp(models.AsyncDisposable):
    def __init__(self, d):
        self.d = d

    async def dispose_async(self):
        self.d.dispose()

    def fp(self, c):
        c.go(self.d)


class Bridge(specs.Spec):
    guarded = True
    sink_raise = "any"

    def init(self):
        self.sub = None

    def subscribed(self, s):
        if self.sub is not None:
            self.w.violate(("subs", "values", self.m.iso), "the source is subscribed twice")
        self.sub = s

    def inn(self, s, k, v):
        self.emit(k, v)

    def quiet(self):
        if self.sub is None:
            self.w.violate(("subs", "values", self.m.iso), "the source is never subscribed")


class BridgeComp(Comp):
    """The classic observable made from an async one."""
    spec = Bridge

    def start(self, w):
        w.pipe = self.build(w)

    def subscribe(self, w):
        m = Mon(w, len(w.mons), self.spec)
        w.note("subscribe" + (f" observer{m.i}" if self.nsubs > 1 else ""))

        def h(k):
            def f(*a):
                v = a[0] if a else None
                w.note(f"observer{m.i if self.nsubs > 1 else ''} <- {show_ev(k, v)}")
                m.on_out(k, v)
            return f
        prev = aio.OWNER[0]
        aio.OWNER[0] = m.i
        try:
            d = w.pipe.subscribe(h("n"), h("e"), h("c"))
            m.disp = _RxDisp(d)
            m.state = "on"
        except EngineSignal:
            raise
        except BaseException as e:
            w.violate(("crash", m.iso), f"subscribe failed with {type(e).__name__}: {show(e)}")
        aio.OWNER[0] = prev
        return m

    def follow(self, w, a):
        return [("dispose", len(w.mons))] if a[0] == "sub" else []

    def enabled(self, w, ev):
        if ev[0] == "dispose" and ev[1] >= len(w.mons):
            return False
        return super().enabled(w, ev)

    def pair_ok(self, w, a, b):
        if a[0] == "sub":
            return b[0] == "dispose"
        return b[0] != "sub" and super().pair_ok(w, a, b)

    def check(self, w):
        for t in w.loop.tasks:
            if t._state == aio.CANCELLED:
                t._log_tb = False
        super().check(w)

    def roots(self, w):
        yield from super().roots(w)


BRIDGE = {"to_observable": Factory("to_observable", {"mod": ("leave.to_observable",
                                   lambda w: w.mod("leave").to_observable(w.source("S", "tok", name="source")))}, Bridge, BridgeComp)}


# ----------------------------------------------------------------- pass-through
class PipeSub:
    """rx.subscribe_async(observer)(source), seen as an observable."""

    def __init__(self, f, src):
        self.f, self.src = f, src

    async def subscribe_async(self, obv):
        return await self.f(obv)(self.src)

    def fp(self, c):
        c.go(self.src)


def _s(w):
    return w.source("S", "tok", name="source")


PASS = {f.name: f for f in [
    Factory("AsyncRx", {"top": ("aioreactive.AsyncRx", lambda w: w.rx.AsyncRx(_s(w)))}, specs.Mirror),
    Factory("AsyncRx.create", {"top": ("AsyncRx.create", lambda w: w.rx.AsyncRx.create(_s(w)))}, specs.Mirror),
    Factory("as_async_observable", {"top": ("aioreactive.as_async_observable", lambda w: w.rx.as_async_observable(_s(w))),
                                    "chain": ("AsyncRx.as_async_observable", lambda w: w.rx.AsyncRx(_s(w)).as_async_observable())}, specs.Mirror),
    Factory("as_chained", {"top": ("aioreactive.as_chained", lambda w: w.rx.as_chained(_s(w)))}, specs.Mirror),
    Factory("subscribe_async", {"top": ("aioreactive.subscribe_async", lambda w: PipeSub(w.rx.subscribe_async, _s(w))),
                                "mod": ("subscription.subscribe_async", lambda w: PipeSub(w.mod("subscription").subscribe_async, _s(w)))}, specs.Mirror),
    Factory("AsyncIterableObservable", {"top": ("aioreactive.AsyncIterableObservable", lambda w: w.rx.AsyncIterableObservable(_s(w))),
                                        "leave": ("aioreactive.to_async_iterable", lambda w: w.rx.to_async_iterable(_s(w)))}, specs.Mirror),
]}
