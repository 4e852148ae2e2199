"""Most general client of an operator and the monitors that judge it.

`World` is the environment of one abstract path: sources the operator
subscribes to, user functions it calls, observers it feeds.  Every crossing of
the boundary is reported to a `Mon` (one per subscription of the analysed
sequence), which runs a reference transducer (`specs.py`) beside it.
"""
from __future__ import annotations

from asyncio import CancelledError
from collections import deque

from . import aio, core, models
from .core import EngineSignal, Inconclusive, PathCut, Term, Tok, UserError, key_of, same, show

# obligations whose failure leaves the delivered events meaningful
SOFT = {"release_term", "release_dispose", "release_switch", "release_failed", "backpressure", "calls", "subs", "timing",
        "single", "isolation"}
CAT = {"n": "values", "e": "error", "c": "complete"}
KIND = {"n": "value", "e": "error", "c": "completion"}


def show_ev(k, v=None):
    return {"n": f"value {show(v)}", "e": f"error {show(v)}", "c": "completion"}[k]


# ------------------------------------------------------------------ exp items
class Exp:
    __slots__ = ("k", "v", "opt", "due")

    def __init__(self, k, v, opt, due):
        self.k, self.v, self.opt, self.due = k, v, opt, due

    def fp(self, c):
        c.out.append((self.k, self.opt, None if self.due is None else round(self.due - c.now, 6)))
        c.go(self.v)

    def __repr__(self):
        return show_ev(self.k, self.v) + (f" at {self.due}" if self.due is not None else "")


class World:
    def __init__(self, prog, run, comp):
        self.prog = prog
        self.run = run
        self.comp = comp
        self.cfg = comp
        self.rx = prog.load("aioreactive")
        self.log = []
        self.violations = []
        self.mark = 0
        self.why = None
        self.subs = []
        self.mons = []
        self.sources = []
        self.ufs = {}
        self.pipe = None
        self.raise_budget = comp.raises
        self.ninner = 0
        self.shared = None
        self.same_elem = None
        self.nbursts = 0
        self.cmp_errors = {}
        self.ufgates = []         # calls of user functions that have not answered yet
        if comp.eq_raise:
            core.run().eqr = self.compared
        self.extra = None
        self.cats = None
        self.cls = env_classes(prog)

    def fp(self, c):
        pass                # its parts are roots of their own

    def compared(self, t):
        """An element is compared with another one: its comparison may be one that fails."""
        if ("comparison", True) not in t._has:
            if ("comparison", False) in t._has:
                return
            bad = t._kind in (None, "val") and self.raise_budget > 0 and bool(core.run().choose(2, f"comparing {t.name} fails"))
            object.__setattr__(t, "_has", t._has + (("comparison", bad),))
            if not bad:
                return
            self.raise_budget -= 1
            object.__setattr__(t, "_kind", "val")
            self.cmp_errors[id(t)] = (UserError(f"comparing {t.name}"), t)
            self.note(f"  comparing {t.name} fails")
        raise self.cmp_errors[id(t)][0]

    @property
    def loop(self):
        return self.run.loop

    @property
    def now(self):
        return self.run.loop._now

    def mod(self, name):
        return self.prog.load("aioreactive." + name)

    def note(self, s):
        self.log.append(f"t={self.now:g} {s}" if self.now else s)

    def violate(self, cats, msg):
        if self.violations:
            return
        cats = [c for c in cats if c]
        if self.cats is not None and not (self.cats & set(cats)) and not (set(cats) - SOFT):
            return          # an obligation of another property that does not disturb this one
        self.note("VIOLATION: " + msg)
        site, fns = where(self.run)
        self.violations.append(dict(cats=list(cats), msg=msg, site=site, functions=fns))

    def base(self):
        b = None
        for m in self.mons:
            x = m.spec.base()
            if x is not None:
                b = x if b is None else min(b, x)
        return b

    def mon(self, owner=None):
        o = aio.OWNER[0] if owner is None else owner
        if o is None:
            o = 0
        return self.mons[o]

    def task(self, coro, owner):
        prev = aio.OWNER[0]
        aio.OWNER[0] = owner
        t = aio.Task(coro)
        t._harness = True
        aio.OWNER[0] = prev
        return t

    def source(self, role, elem="tok", **kw):
        s = self.cls.EnvSource()
        s.setup(self, role, elem, **kw)
        return s

    def inner(self, role, elem, name):
        """The next inner sequence: a new one, or the same object every time."""
        if self.comp.reuse and self.shared is not None:
            return self.shared
        self.ninner += 1
        self.shared = self.source(role, elem, name=f"{name}{self.ninner}")
        return self.shared

    def uf(self, name, kind, is_async=False, raises=None):
        u = UF(self, name, kind, is_async, self.comp.uf_raise if raises is None else raises)
        self.ufs[name] = u
        return u


def where(run):
    """The repo construct in which the analysed program is (or last was)."""
    for fr in reversed(run.stack):
        fn = fr.fn
        if fn is not None and getattr(fn, "module", None) is not None and fn.module.is_repo:
            node = fr.node if fr.node is not None and hasattr(fr.node, "lineno") else fn.node
            return f"{fn.module.relpath}:{node.lineno} in {fn.__qualname__}", recent(run)
    r = recent(run)
    return (r[-1] if r else None), r


def recent(run):
    out = []
    for fn in run.entered[-40:]:
        s = f"{fn.module.relpath}:{fn.node.lineno} {fn.__qualname__}"
        if s in out:
            out.remove(s)
        out.append(s)
    return out[-12:]


# -------------------------------------------------------------------- sources
class Sub:
    def __init__(self, w, src, obs, owner):
        self.w = w
        self.src = src
        self.obs = obs
        self.owner = owner
        self.idx = len(w.subs)
        self.role = src.role
        self.disposed = False
        self.terminated = False
        self.queue = deque()
        self.busy = False
        self.incall = 0
        self.ndisp = 0
        self.gate = None          # the subscribe call of the source has not returned yet
        w.subs.append(self)

    @property
    def live(self):
        return not self.disposed and not self.terminated

    def name(self):
        return self.src.name

    def fp(self, c):
        live = self.live
        c.out.append((self.role, self.disposed, self.terminated, self.busy, self.incall, self.owner, self.gate is not None))
        if live or self.incall or self.queue or self.w.comp.ill:
            c.go(self.obs)
        c.go(self.src)
        c.go(list(self.queue))

    def push(self, k, v):
        w = self.w
        if w.comp.ill:
            w.task(self.deliver(k, v), self.owner)
            return
        if not self.live:
            return
        if w.comp.conc:
            if k != "n":
                self.terminated = True
            w.task(self.deliver(k, v), self.owner)
            return
        self.queue.append((k, v))
        if not self.busy:
            self.busy = True
            w.task(self.driver(), self.owner)

    async def driver(self):
        try:
            while self.queue:
                k, v = self.queue.popleft()
                if self.live:
                    await self.deliver(k, v)
        finally:
            self.busy = False

    async def deliver(self, k, v):
        w = self.w
        m = w.mon(self.owner)
        if k != "n":
            self.terminated = True
        w.note(f"  {self.name()} sends {show_ev(k, v)}")
        m.on_in(self, k, v)
        self.incall += 1
        err = None
        try:
            if k == "n":
                await self.obs.asend(v)
            elif k == "e":
                await self.obs.athrow(v)
            else:
                await self.obs.aclose()
        except EngineSignal:
            raise
        except (CancelledError, GeneratorExit):
            self.incall -= 1
            raise
        except BaseException as e:
            err = e
        self.incall -= 1
        if err is not None:
            m.surfaced(self, k, err)
        else:
            m.returned(self, k, v)


class SubDisposable(models.AsyncDisposable):
    def __init__(self, sub):
        self.sub = sub

    async def dispose_async(self):
        s = self.sub
        s.ndisp += 1
        if not s.disposed:
            s.disposed = True
            s.w.note(f"  {s.name()} released")
            s.w.mon(s.owner).spec.released(s)
        if s.w.comp.slowsub:
            await aio.sleep(0)

    async def __aenter__(self):
        return self

    async def __aexit__(self, *a):
        await self.dispose_async()

    def fp(self, c):
        c.go(self.sub)


class _Classes:
    pass


def env_classes(prog):
    c = prog.__dict__.get("_env_classes")
    if c is not None:
        return c
    rx = prog.load("aioreactive")
    c = _Classes()

    class EnvSource(rx.AsyncObservable):
        """A source of the environment; each subscription is driven separately."""

        def setup(self, w, role, elem, name=None, eager=None, dead=False):
            self.w = w
            self.role = role
            self.elem = elem
            self.name = name or role
            self.eager = w.comp.eager if eager is None else eager
            self.nsub = 0
            self.dead = dead
            w.sources.append(self)

        async def subscribe_async(self, send=None, throw=None, close=None):
            w = self.w
            obs = send if isinstance(send, rx.AsyncObserver) else _Fns(send, throw, close)
            if w.comp.sub_fail and w.raise_budget > 0 and core.run().choose(2, f"subscribing to {self.name} fails"):
                w.raise_budget -= 1
                e = UserError(f"subscribing to {self.name}")
                m = w.mon()
                if w.comp.slowsub:
                    await aio.sleep(0)
                if w.comp.gatesub:
                    s = Sub(w, self, None, aio.OWNER[0] if aio.OWNER[0] is not None else 0)
                    s.disposed = True
                    s.gate = aio.Future()
                    try:
                        await s.gate
                    finally:
                        s.gate = None
                w.note(f"  subscribing to {self.name} fails")
                m.raised(e, e.label)
                raise e
            s = Sub(w, self, obs, aio.OWNER[0] if aio.OWNER[0] is not None else 0)
            self.nsub += 1
            w.note(f"  {self.name} subscribed")
            m = w.mon(s.owner)
            m.on_sub(s)
            if w.comp.slowsub:
                await aio.sleep(0)
            if w.comp.gatesub:
                s.gate = aio.Future()
                try:
                    await s.gate
                except CancelledError:
                    s.disposed = True
                    raise
                finally:
                    s.gate = None
                w.note(f"  subscribing to {self.name} returns")
            if self.eager:
                s.busy = True       # one event at a time
                for _ in range(self.eager):
                    if not s.live:
                        break
                    k = "-nec"[core.run().choose(4 if w.comp.errors else 4, f"{self.name} sends while subscribing")]
                    if k == "-":
                        break
                    if k == "e" and not w.comp.errors:
                        raise PathCut("no errors")
                    await s.deliver(k, w.comp.element(w, s, k))
                s.busy = bool(s.queue)
                if s.busy:
                    w.task(s.driver(), s.owner)
            return SubDisposable(s)

        def fp(self, c):
            c.out.append((self.role, self.nsub if self.w.comp.count_subs else 0))

        def __repr__(self):
            return f"<source {self.name}>"

    class Sink(rx.AsyncObserver):
        def __init__(self, mon):
            self.mon = mon

        async def asend(self, v):
            await self.mon.event("n", v)

        async def athrow(self, e):
            await self.mon.event("e", e)

        async def aclose(self):
            await self.mon.event("c", None)

        def fp(self, c):
            c.out.append(self.mon.i)

    class EqSink(Sink):
        """All observers of this class compare equal."""

        def __eq__(self, other):
            return isinstance(other, EqSink)

        def __hash__(self):
            return 79

    c.EnvSource, c.Sink, c.EqSink = EnvSource, Sink, EqSink
    prog._env_classes = c
    return c


class _Fns:
    """Observer made of up to three functions (a source accepts both forms)."""

    def __init__(self, send, throw, close):
        self.f = (send, throw, close)

    async def asend(self, v):
        if self.f[0] is not None:
            await self.f[0](v)

    async def athrow(self, e):
        if self.f[1] is not None:
            await self.f[1](e)

    async def aclose(self):
        if self.f[2] is not None:
            await self.f[2]()

    def fp(self, c):
        c.go(self.f)


# -------------------------------------------------------------- user functions
class UF:
    """Uninterpreted user function.

    The transducer asks for the outcome of `f(args)` when the operator has to
    call it; the operator's call is then answered with that outcome.
    """

    def __init__(self, w, name, kind, is_async, raises):
        self.w, self.name, self.kind, self.is_async, self.raises = w, name, kind, is_async, raises

    def fp(self, c):
        c.out.append(self.name)

    def _new(self, m, args):
        w = self.w
        r = core.run()
        sh = f"{self.name}({', '.join(map(show, args))})"
        if self.raises and w.raise_budget > 0 and r.choose(2, f"{sh} raises"):
            w.raise_budget -= 1
            if self.kind == "fallback" and r.choose(2, f"{sh} raises its argument again"):
                return ("raise", args[0])
            return ("raise", UserError(sh))
        k = self.kind
        if k == "val":
            return ("ret", Term(self.name, tuple(args)))
        if k == "pred":
            t = Tok(sh)
            object.__setattr__(t, "_kind", "falsy" if r.choose(2, f"not {sh}") else "val")
            return ("ret", t)
        if k == "opt":
            if r.choose(2, f"{sh} is Nothing"):
                return ("ret", models.Nothing)
            return ("ret", models.Some(Term(self.name, tuple(args))))
        if k == "inner":
            return ("ret", w.inner("I", w.comp.inner_elem, "inner"))
        if k == "fallback":
            return ("ret", w.inner("F", "tok", "fallback"))
        raise AssertionError(k)

    def decide(self, m, args):
        memo = m.memo.setdefault(self.name, {})
        k = key_of(tuple(args))
        if k not in memo:
            memo[k] = (self._new(m, args), args)
        return memo[k][0]

    def answer(self, args):
        w = self.w
        m = w.mon()
        memo = m.memo.setdefault(self.name, {})
        k = key_of(tuple(args))
        sh = f"{self.name}({', '.join(map(show, args))})"
        w.note(f"  calls {sh}")
        e = memo.pop(k, None)
        if e is None:
            if not (m.fin or m.relaxed or m.free or m.spec.free_calls):
                w.violate(("calls", m.iso), f"unexpected call {sh}"
                          + (f"; expected {', '.join(self.name + show(x[1]) for x in memo.values())}" if memo else
                             " (not called for an element, or called twice)"))
            d = self._new(m, args)
        else:
            d = e[0]
        if d[0] == "raise":
            m.raised(d[1], sh)
        return d

    def fn(self):
        def result(d):
            if d[0] == "raise":
                raise d[1]
            return d[1]

        if self.is_async:
            async def afn(*args):
                d = self.answer(args)
                m = self.w.mon()
                if self.w.comp.gateuf:
                    g = (aio.Future(), m.i)
                    self.w.ufgates.append(g)
                    try:
                        await g[0]
                    finally:
                        self.w.ufgates.remove(g)
                else:
                    await aio.sleep(0)
                if d[0] == "ret":
                    m.spec.uf_returned(self.name, d[1])
                return result(d)
            return afn

        def fn(*args):
            return result(self.answer(args))
        return fn


# -------------------------------------------------------------------- monitors
class Mon:
    def __init__(self, w, i, spec_cls, mask="nec", form="observer"):
        self.w = w
        self.i = i
        self.exp = []
        self.fin = False          # transducer has emitted its terminal event
        self.done = None          # terminal event the observer received
        self.state = "subscribing"
        self.relaxed = False      # dispose requested
        self.again = 0
        self.free = False
        self.failed = False       # subscribe_async raised what the subscription of a source raised
        self.owed = []            # exceptions raised by user code, not yet accounted for
        self.sink_err = None
        self.memo = {}
        self.depth = 0
        self.gates = []
        self.disp = None
        self.mask = mask
        self.form = form
        self.held = False         # the observer was not always ready: timing is a lower bound
        self.iso = "isolation" if w.comp.nsubs > 1 else "single"
        w.mons.append(self)
        self.sink = (w.cls.EqSink if w.comp.eq_sinks else w.cls.Sink)(self)
        self.spec = spec_cls(self)

    # ---- canonical form
    def fp(self, c):
        c.out.append((self.i, self.fin, self.done, self.state, self.relaxed, self.again, self.depth, self.failed,
                      len(self.gates), self.held and not self.w.comp.timed))
        for e in self.exp:
            c.go(e)
        c.go(self.spec)
        for k in sorted(self.memo):
            for x in self.memo[k].values():
                c.go(x[1])
        c.go([x[0] for x in self.owed])
        c.go(self.disp)
        for s in self.w.subs:
            if s.owner == self.i and (s.live or s.incall or s.queue or s.gate or self.w.comp.ill):
                c.go(s)

    # ---- inputs
    def on_sub(self, s):
        if not self.free:
            self.spec.subscribed(s)

    def on_in(self, s, k, v):
        if not self.free:
            self.spec.inn(s, k, v)

    def emit(self, k, v=None, opt=False, due=None):
        """The transducer expects this event next."""
        if self.fin:
            return
        if k != "n":
            self.fin = True
        if k not in self.mask:
            return
        self.exp.append(Exp(k, v, opt or self.relaxed, due))

    def drop(self, pred):
        self.exp = [e for e in self.exp if not pred(e)]

    def raised(self, e, what):
        self.owed.append((e, what))

    def settle(self, e):
        self.owed = [x for x in self.owed if x[0] is not e]

    def surfaced(self, s, k, e):
        """An exception reached the producer of an event."""
        w = self.w
        w.note(f"  producer of {s.name()} gets {show(e)}")
        if any(x[0] is e for x in self.owed):
            self.settle(e)
            if not self.spec.uf_producer_ok and not self.relaxed:
                w.violate(("values", "lost", self.iso), f"{show(e)} reached the producer instead of ending the sequence")
            return
        if self.sink_err is not None and self.sink_err[0] is e:
            if self.sink_err[1] == "owed":
                self.sink_err = (e, "producer")
            return
        if isinstance(e, UserError) and self.relaxed:
            return
        if not self.relaxed and not self.free:
            w.violate(("crash", "lost" if isinstance(e, UserError) else "crash", self.iso),
                      f"{show_ev(k)} from {s.name()} failed with {type(e).__name__}: {show(e)}")

    def returned(self, s, k, v):
        if self.free or self.relaxed:
            return
        sp = self.spec
        if sp.unbuffered and (s.role in sp.unbuffered):
            if self.w.comp.conc:
                pass
            elif self.depth:
                self.w.violate(("backpressure", self.iso),
                               f"sending {show_ev(k, v)} returned while the observer is still busy with the result")
            elif [e for e in self.exp if not e.opt]:
                self.w.violate(("backpressure", CAT[self.exp[0].k], self.iso),
                               f"sending {show_ev(k, v)} returned before the observer got {self.exp[0]!r}")
            elif self.sink_err is not None and self.sink_err[1] == "owed":
                self.w.violate(("backpressure", self.iso),
                               f"the observer's exception {show(self.sink_err[0])} did not surface at the producer")

    # ---- outputs
    async def event(self, k, v):
        w = self.w
        w.note(f"observer{self.i if w.comp.nsubs > 1 else ''} <- {show_ev(k, v)}")
        self.on_out(k, v)
        self.depth += 1
        try:
            if w.comp.sink == "slow" and (k == "n" or w.comp.slow_term):
                f = aio.Future()
                self.gates.append(f)
                self.held = True
                try:
                    await f
                finally:
                    if f in self.gates:
                        self.gates.remove(f)
            elif w.comp.sink == "tick":
                await aio.sleep(0)
            elif w.comp.sink == "dispose":
                if self.state == "on" and self.disp is not None and core.run().choose(2, "observer disposes"):
                    w.note("observer disposes its subscription")
                    self.disposing()
                    w.comp.disposed_inside(w)
                    await self.disp.dispose_async()
            elif w.comp.sink == "raise" and k == "n" and w.raise_budget > 0 and core.run().choose(2, "observer raises"):
                w.raise_budget -= 1
                e = UserError("observer")
                w.note(f"observer raises {show(e)}")
                self.sink_raised(e)
                raise e
            elif w.comp.sink == "raise_term" and k != "n" and w.raise_budget > 0 and core.run().choose(2, "observer raises"):
                w.raise_budget -= 1
                e = UserError("observer")
                w.note(f"observer raises {show(e)}")
                self.sink_err = (e, "owed" if self.spec.sink_raise == "producer" and not self.relaxed and not self.free else "terminal")
                raise e
        finally:
            self.depth -= 1

    def disposing(self):
        if self.state == "on":
            self.state = "disposing"
        self.relaxed = True
        for e in self.exp:
            e.opt = True
        self.again += 1

    def sink_raised(self, e):
        self.sink_err = (e, "owed")
        if self.relaxed or self.free:
            self.sink_err = (e, "disposed")
            self.exp.append(Exp("e", e, True, None))
            return
        sp = self.spec
        if sp.sink_raise == "terminal":
            self.exp = []
            self.fin = False
            self.emit("e", e)
            self.sink_err = (e, "expected")
        elif sp.sink_raise == "producer":
            sp.sink_failed(e)
        else:
            self.free = True
            self.exp = []

    def on_out(self, k, v):
        w = self.w
        if self.depth and not (w.comp.conc and self.spec.unbuffered):
            w.violate(("overlap", self.iso), f"{show_ev(k, v)} delivered while the observer is still handling an event")
            return
        if self.done:
            w.violate(("grammar", "late_" + k, self.iso),
                      f"{show_ev(k, v)} delivered after the terminal {KIND[self.done]}")
            return
        if self.state == "quiet" and not self.spec.late_ok(k, v):
            w.violate(("late", self.iso), f"{show_ev(k, v)} delivered after dispose")
            return
        if k != "n":
            self.done = k
        if self.state == "quiet":
            return
        if self.free or self.spec.any_output:
            self.spec.saw(k, v)
            return
        i = 0
        exp = self.exp
        hit = None
        while i < len(exp):
            e = exp[i]
            if e.k == k and (k == "c" or (v is e.v if k == "e" else same(v, e.v))):
                hit = e
                break
            if not e.opt:
                break
            i += 1
        if hit is None:
            if k == "e" and any(x[0] is v for x in self.owed) and self.spec.uf_terminal_ok:
                self.settle(v)
                self.fin = True
                self.exp = []
                return
            if self.relaxed and w.comp.lax_dispose:
                self.exp = []
                return
            want = next((e for e in exp if not e.opt), None)
            cats = {CAT[k], self.iso}
            if k == "e" and self.sink_err is not None and self.sink_err == (v, "owed"):
                cats |= {"backpressure", "lost"}
            if want is not None:
                cats.add(CAT[want.k])
            if k == "e" and want is not None and want.k == "e":
                msg = f"observer got error {show(v)} instead of {show(want.v)}"
            else:
                msg = f"observer got {show_ev(k, v)}, expected " + (repr(want) if want else "nothing")
            w.violate(tuple(cats), msg)
            return
        del exp[:i + 1]
        if k == "e":
            self.settle(v)
        if k != "n":
            self.exp = []
        if hit.due is not None:
            # to the microsecond, the resolution of datetime
            if hit.due - w.now > 1e-6 or (w.now - hit.due > 1e-6 and not self.held):
                w.violate(("timing", self.iso), f"{show_ev(k, v)} delivered at {w.now:g}, expected at {hit.due:g}")
        self.spec.matched(k, v)

    # ---- at quiescence
    def check(self):
        w = self.w
        if self.gates or any(s.gate is not None and s.owner == self.i for s in w.subs) or any(g[1] == self.i for g in w.ufgates):
            return
        if self.state == "subscribing":
            w.violate(("stuck", self.iso), "subscribe_async does not return")
            return
        mine = [s for s in w.subs if s.owner == self.i]
        if self.state == "disposing":
            self.state = "quiet"
            live = [s for s in mine if s.live]
            if live:
                w.violate(("release_dispose", self.iso), f"after dispose {live[0].name()} is still subscribed")
            self.exp = []
            self.owed = []
            return
        if self.state == "quiet":
            live = [s for s in mine if s.live]
            if live:
                w.violate(("release_dispose", self.iso), f"after dispose {live[0].name()} was subscribed again")
            return
        if self.failed:
            live = [s for s in mine if s.live]
            if live:
                w.violate(("leak", self.iso), f"subscribing has failed but {live[0].name()} is still subscribed")
            return
        if self.free:
            return
        if w.comp.joint and any(m.gates for m in w.mons):
            return          # the producer is held by another observer
        for s in mine:
            if s.incall and not w.comp.incall_ok:
                w.violate(("stuck", self.iso), f"the producer of {s.name()} is never released")
                return
        for e in self.exp:
            if not e.opt and (e.due is None or e.due <= w.now):
                w.violate((CAT[e.k], "missing", self.iso), f"observer never gets {e!r}")
                return
        if self.owed and not self.done:
            x = self.owed[0]
            w.violate(("lost", self.iso), f"the exception of {x[1]} was swallowed")
            return
        if not self.fin and not self.spec.free_calls:
            for name, memo in self.memo.items():
                for x in memo.values():
                    w.violate(("calls", self.iso), f"{name}{show(x[1])} was never called")
                    return
        if self.sink_err is not None and self.sink_err[1] == "owed":
            w.violate(("lost", "backpressure", self.iso), "the exception of the observer was swallowed")
            return
        if not self.fin and not self.done and not w.comp.ill:
            gone = [s for s in mine if s.disposed and not s.terminated and not self.spec.may_release(s)]
            if gone:
                w.violate(("values", "error", "complete", "early", self.iso), f"{gone[0].name()} is released although the sequence has not ended")
                return
        if self.done and self.spec.guarded and not w.comp.ill:
            live = [s for s in mine if s.live]
            if live:
                w.violate(("release_term", self.iso),
                          f"the sequence has ended but {live[0].name()} is still subscribed")
                return
        self.spec.quiet()


# ------------------------------------------------------------------ components
class Comp:
    """One configuration of the most general client."""

    name = "?"
    entry = "?"
    max_steps = 400_000
    budget = 3000
    max_depth = None
    # options
    sink = "ok"            # ok | slow | raise | raise_term | tick | dispose (inside its handler)
    slow_term = False
    raises = 0
    uf_raise = False
    sub_fail = False       # subscribing to a source may fail
    eq_raise = False       # comparing an element may fail
    errors = True
    values = True
    ill = False
    same_elem = False      # every element a source sends is the same object
    reuse = False          # every inner sequence is the same object
    conc = 0               # a source sends although it is not done with earlier events
    eager = 0
    slowsub = False
    eq_sinks = False       # the observers compare equal
    gateuf = False         # an asynchronous user function takes any time
    gatesub = False        # subscribing to a source takes any time
    nsubs = 1
    timed = False
    tickd = 1.0            # how far the clock is moved at a time
    inner_elem = "tok"
    max_inner = 2
    max_pending = 2
    bursts = 0             # largest gap (in callbacks) between two events applied together
    max_bursts = None      # bursts per history (None: any number)
    linear = False         # a single long history: undetermined facts are not varied
    prefix = ()            # events that lead to the first state explored
    dispose = True
    lax_dispose = False
    incall_ok = False
    count_subs = False
    mask = "nec"
    via = "observer"
    max_ticks = 0
    spec = None
    build = None
    elem = "tok"
    joint = False
    mon_class = None

    def __init__(self, **kw):
        self.__dict__.update(kw)

    def fp(self, c):
        pass

    def rel(self, w):
        return None

    def world(self, prog, run):
        return World(prog, run, self)

    def element(self, w, s, k):
        if k == "e":
            return UserError(f"error of {s.name()}")
        if k == "c":
            return None
        el = s.src.elem
        if self.same_elem and el in ("tok", "args"):
            if w.same_elem is None:
                w.same_elem = Tok("x") if el == "tok" else (Tok("x"), Tok("y"))
            return w.same_elem
        if el == "tok":
            return Tok()
        if el == "args":
            n = (2, 3, 1, 0)[core.run().choose(4, "number of arguments")]
            return tuple(Tok() for _ in range(n))
        if el == "inner":
            return w.inner("I", self.inner_elem, "inner")
        raise AssertionError(el)

    # ---- protocol used by the explorer
    def start(self, w):
        w.pipe = self.build(w)
        self.subscribe(w)

    def subscribe(self, w):
        m = (self.mon_class or Mon)(w, len(w.mons), self.spec, self.mask if not w.mons else "nec", self.via)
        w.note("subscribe" + (f" observer{m.i}" if self.nsubs > 1 else ""))

        async def go():
            try:
                if self.via == "functions":
                    f = {"n": m.sink.asend, "e": m.sink.athrow, "c": m.sink.aclose}
                    m.disp = await w.pipe.subscribe_async(*[f[k] if k in m.mask else None for k in "nec"])
                else:
                    m.disp = await w.pipe.subscribe_async(m.sink)
            except EngineSignal:
                raise
            except BaseException as e:
                if any(x[0] is e for x in m.owed):
                    m.settle(e)
                    m.failed = self.sub_fail
                    if not m.spec.uf_producer_ok and not m.relaxed:
                        w.violate(("values", "lost", m.iso), f"subscribe_async failed with {show(e)} instead of ending the sequence with it")
                elif m.sink_err is not None and m.sink_err[0] is e:
                    m.sink_err = (e, "producer")
                else:
                    w.violate(("crash", m.iso), f"subscribe_async failed with {type(e).__name__}: {show(e)}")
                m.free = True
            if m.state == "subscribing":
                m.state = "on"
        w.task(go(), m.i)
        return m

    def apply(self, w, ev):
        t = ev[0]
        if t == "b":
            w.nbursts += 1
            self.apply(w, ev[1])
            if w.loop.drain(self.budget, limit=ev[2]) < ev[2]:
                raise PathCut("idle before the second event")
            if not self.enabled(w, ev[3]):
                raise PathCut("second event not possible")
            self.apply(w, ev[3])
        elif t == "r":
            s = next((s for s in reversed(w.subs) if s.role == ev[2] and s.live), None)
            if s is None:
                raise PathCut("no such subscription")
            s.push(ev[1], self.element(w, s, ev[1]))
        elif t in "nec":
            s = w.subs[ev[1]]
            s.push(t, self.element(w, s, t))
        elif t == "dispose":
            m = w.mons[ev[1]]
            m.disposing()

            async def go():
                try:
                    await m.disp.dispose_async()
                except EngineSignal:
                    raise
                except BaseException as e:
                    w.violate(("crash", "release_dispose", m.iso), f"dispose_async failed with {type(e).__name__}: {show(e)}")
            w.task(go(), m.i)
        elif t == "release":
            m = w.mons[ev[1]]
            f = m.gates.pop(ev[2] if len(ev) > 2 else 0)
            if not f.done():
                f.set_result(None)
        elif t == "answer":
            w.ufgates[ev[1]][0].set_result(None)
        elif t == "open":
            w.subs[ev[1]].gate.set_result(None)
        elif t == "ready":
            for m in w.mons:
                while m.gates:
                    m.gates.pop(0).set_result(None)
        elif t == "tick":
            self.tick(w, ev[1])
        elif t == "sub":
            self.subscribe(w)
        else:
            raise AssertionError(ev)

    def disposed_inside(self, w):
        pass

    def tick(self, w, d):
        l = w.loop
        target = l._now + d
        while True:
            l.drain(self.budget)
            ts = l.pending_timers()
            if not ts or ts[0][0] > target:
                break
            l.advance()
        l.drain(self.budget)
        l._now = target

    def enabled(self, w, ev):
        t = ev[0]
        if t in "nec":
            s = w.subs[ev[1]] if ev[1] < len(w.subs) else None
            return s is not None and (s.live or self.ill)
        if t == "dispose":
            m = w.mons[ev[1]]
            return m.disp is not None and m.again < 2 and m.state in ("on", "quiet")
        if t == "answer":
            return ev[1] < len(w.ufgates) and not w.ufgates[ev[1]][0].done()
        if t == "open":
            return ev[1] < len(w.subs) and w.subs[ev[1]].gate is not None and not w.subs[ev[1]].gate.done()
        if t == "release":
            return bool(w.mons[ev[1]].gates)
        return True

    def check(self, w):
        if w.violations:
            return
        for m in w.mons:
            m.check()
            if w.violations:
                return
        for ctx in w.loop.errors:
            e = ctx.get("exception")
            w.violate(("crash",), f"unhandled exception in a callback: {type(e).__name__}: {show(e)}")
        w.loop.errors.clear()
        for t in w.loop.tasks:
            if t._log_tb and t._exception is not None and not getattr(t, "_harness", False):
                e = t._exception
                t._log_tb = False
                if isinstance(e, UserError) and (any(m.relaxed or m.done for m in w.mons)):
                    continue
                if any(m.free for m in w.mons):
                    continue
                c = ("lost", "crash") if isinstance(e, UserError) else ("crash",)
                w.violate(c, f"background task died with {type(e).__name__}: {show(e)}")
        w.loop.tasks = [t for t in w.loop.tasks if not t.done() or t._log_tb]
        for t in w.loop.tasks:
            if getattr(t, "_harness", False) and t._exception is not None:
                raise t._exception

    def single_events(self, w):
        out = []
        out += [("answer", i) for i in range(len(w.ufgates))]
        for m in w.mons:
            blocked = bool(m.gates)
            for s in w.subs:
                if s.owner != m.i:
                    continue
                if s.gate is not None:
                    out.append(("open", s.idx))
                if not s.live and not (self.ill and self.ill_more(w, m, s)):
                    continue
                if m.state not in ("on", "subscribing") and not self.ill:
                    continue
                if s.src.dead:
                    continue
                if len(s.queue) >= 2 or (s.incall and len(s.queue) >= 1) or (self.conc and s.incall >= self.conc):
                    continue
                full = len(m.exp) >= self.max_pending and blocked
                if self.values and not full and self.may_value(w, m, s):
                    out.append(("n", s.idx))
                if self.errors:
                    out.append(("e", s.idx))
                out.append(("c", s.idx))
            if blocked:
                out.append(("release", m.i))
                if self.conc and len(m.gates) > 1:
                    out.append(("release", m.i, -1))
            if self.dispose and m.disp is not None and m.again < (2 if m.state == "quiet" else 1) and m.state in ("on", "quiet"):
                out.append(("dispose", m.i))
        if self.timed and (w.loop.pending_timers() or any(e.due is not None for m in w.mons for e in m.exp)) :
            out.append(("tick", self.tickd))
        if len(w.mons) < self.nsubs:
            out.append(("sub",))
        return out

    def ill_more(self, w, m, s):
        return len(m.gates) + sum(1 for x in w.subs if x.incall) < 3

    def may_value(self, w, m, s):
        if s.src.elem == "inner" or self.elem_makes_inner:
            if m.spec.load() >= self.max_inner:
                return False
        return True

    elem_makes_inner = False

    def events(self, w):
        ev = self.single_events(w)
        if self.bursts and (self.max_bursts is None or w.nbursts < self.max_bursts):
            out = list(ev)
            for a in ev:
                for b in ev + self.follow(w, a):
                    if not self.pair_ok(w, a, b):
                        continue
                    for k in range(self.bursts + 1):
                        out.append(("b", a, k, b))
            return out
        return ev

    def follow(self, w, a):
        return []

    def pair_ok(self, w, a, b):
        if a[0] in ("tick", "sub") or b[0] in ("tick", "sub"):
            return b[0] == "sub" and a[0] != "sub" and a[0] != "tick"
        if a[0] == "dispose":
            return a != b
        if a == b and a[0] in ("e", "c", "open", "answer"):
            return False
        if a[0] == "release" and b[0] == "release":
            return False
        return True

    def roots(self, w):
        yield w.pipe
        for m in w.mons:
            yield m
        yield w.raise_budget
        yield [g[1] for g in w.ufgates]
        if self.max_bursts is not None:
            yield w.nbursts
        if w.extra is not None:
            yield w.extra

    def show_event(self, w, e):
        t = e[0]
        if t == "b":
            return f"{self.show_event(w, e[1])} then after {e[2]} callbacks {self.show_event(w, e[3])}"
        if t == "r":
            return f"{e[2]}:{KIND[e[1]]}"
        if t in "nec":
            s = w.subs[e[1]] if e[1] < len(w.subs) else None
            return f"{s.name() if s else '?'}:{KIND[t]}"
        if t == "dispose":
            return "dispose" + (f"{e[1]}" if self.nsubs > 1 else "")
        if t == "release":
            return "observer ready"
        if t == "tick":
            return f"wait {e[1]:g}"
        if t == "sub":
            return "second subscribe"
        if t == "answer":
            return "the user function answers"
        if t == "open":
            return f"subscribing to {w.subs[e[1]].name() if e[1] < len(w.subs) else '?'} returns"
        return str(e)
