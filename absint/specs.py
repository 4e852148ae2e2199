"""Reference transducers: what each operator must deliver for what comes in.

They are written from the property statements, not from the code.
"""
from __future__ import annotations

from . import core
from .core import UserError, show


def harness_exp(k, v):
    from .harness import Exp
    return Exp(k, v, True, None)


class Spec:
    guarded = True             # releases its sources when the sequence ends
    sink_raise = "terminal"    # where the observer's own exception goes: terminal | producer | any
    unbuffered = ()            # roles whose producer is held until the observer is done
    uf_producer_ok = True      # a user function's exception may surface at the producer
    uf_terminal_ok = True      # ... or be delivered as the terminal error
    any_output = False
    free_calls = False

    def __init__(self, m):
        self.m = m
        self.init()

    def init(self):
        pass

    def fp(self, c):
        for k in sorted(self.__dict__):
            if k == "m" or k.startswith("_"):
                continue
            v = self.__dict__[k]
            c.out.append(k)
            if isinstance(v, set):
                v = sorted(v, key=lambda s: s.idx)
            c.go(v)

    def base(self):
        return None

    def load(self):
        return 0

    # events
    def subscribed(self, s):
        pass

    def inn(self, s, k, v):
        raise NotImplementedError

    def may_release(self, s):
        """Whether this subscription may be given up before the sequence ends."""
        return self.any_output

    def released(self, s):
        pass

    def matched(self, k, v):
        pass

    def saw(self, k, v):
        pass

    def late_ok(self, k, v):
        return False

    def quiet(self):
        pass

    def sink_failed(self, e):
        pass

    def uf_returned(self, name, v):
        pass

    # helpers
    @property
    def w(self):
        return self.m.w

    def emit(self, k, v=None, **kw):
        self.m.emit(k, v, **kw)

    def uf(self, name, *args):
        return self.w.ufs[name].decide(self.m, args)


class AnyOutput(Spec):
    """Only the grammar is judged."""
    any_output = True
    free_calls = True

    def init(self):
        self.nin = 0

    def inn(self, s, k, v):
        pass

    def load(self):
        return sum(1 for s in self.w.subs if s.owner == self.m.i and s.role == "I" and s.live)

    def fp(self, c):
        pass


def refused(base):
    """The failure of a subscription must be reported; what is delivered besides is not judged."""
    class Refused(AnyOutput):
        guarded = base.guarded

        def saw(self, k, v):
            if k == "e":
                self.m.settle(v)
            elif k == "c" and self.m.owed and not self.m.relaxed:
                self.w.violate(("lost", self.m.iso), f"the sequence completes although {self.m.owed[0][1]} failed")
    return Refused


class Pass(Spec):
    """e and c pass through; `value` says what becomes of a value."""

    def inn(self, s, k, v):
        if k == "n":
            if not self.m.fin:
                self.value(v)
        else:
            self.emit(k, v)


class Elementwise(Pass):
    guarded = False
    sink_raise = "producer"
    unbuffered = ("S",)


class Mirror(Elementwise):
    def value(self, v):
        self.emit("n", v)


class Map(Elementwise):
    def args(self, v):
        return (v,)

    def value(self, v):
        d = self.uf("f", *self.args(v))
        if d[0] == "ret":
            self.emit("n", d[1])


class StarMap(Map):
    def args(self, v):
        return tuple(v)


class Filter(Elementwise):
    def args(self, v):
        return (v,)

    def value(self, v):
        d = self.uf("f", *self.args(v))
        if d[0] == "ret" and d[1]._kind == "val":
            self.emit("n", v)


class StarFilter(Filter):
    def args(self, v):
        return tuple(v)


class Choose(Elementwise):
    def value(self, v):
        d = self.uf("f", v)
        if d[0] == "ret":
            for x in d[1].to_list():
                self.emit("n", x)


class MapI(Pass):
    def init(self):
        self.i = 0

    def base(self):
        return self.i

    def value(self, v):
        d = self.uf("f", v, self.i)
        self.i += 1
        if d[0] == "ret":
            self.emit("n", d[1])


class FilterI(MapI):
    def value(self, v):
        d = self.uf("f", v, self.i)
        self.i += 1
        if d[0] == "ret" and d[1]._kind == "val":
            self.emit("n", v)


def ZipSeq(items):
    class Z(Pass):
        def init(self):
            self.i = 0

        def value(self, v):
            xs = self.w.extra
            if self.i < len(xs):
                self.emit("n", (v, xs[self.i]))
                self.i += 1
            else:
                self.emit("c")
    return Z


class ZipPull(Pass):
    """zip_seq with a user's iterable that may end or fail when it is pulled."""

    def init(self):
        self.wait = []

    def value(self, v):
        self.wait.append(v)

    def pulled(self, k, z=None):
        if self.m.fin:
            return
        if not self.wait:
            self.w.violate(("values", self.m.iso), "the iterable is read without an element to pair")
            return
        v = self.wait.pop(0)
        if k == "n":
            self.emit("n", (v, z))
        else:
            self.emit(k, z)

    def quiet(self):
        if self.wait and not self.m.fin:
            self.w.violate(("values", self.m.iso), f"the iterable is not read for {show(self.wait[0])}")


def Take(n):
    class T(Pass):
        def init(self):
            self.left = n

        def value(self, v):
            if self.left > 0:
                self.left -= 1
                self.emit("n", v)
                if self.left == 0:
                    self.emit("c")
    return T


def Skip(n):
    class T(Pass):
        def init(self):
            self.left = n

        def value(self, v):
            if self.left > 0:
                self.left -= 1
            else:
                self.emit("n", v)
    return T


def TakeLast(n):
    class T(Spec):
        def init(self):
            self.q = []

        def inn(self, s, k, v):
            if self.m.fin:
                return
            if k == "n":
                self.q.append(v)
                if len(self.q) > n:
                    self.q.pop(0)
            elif k == "e":
                self.emit("e", v)
            else:
                for x in self.q:
                    self.emit("n", x)
                self.q = []
                self.emit("c")
    return T


def SkipLast(n):
    class T(Pass):
        def init(self):
            self.q = []

        def value(self, v):
            self.q.append(v)
            if len(self.q) > n:
                self.emit("n", self.q.pop(0))
    return T


def Slice(start, stop, step):
    """Values as Python slicing selects them; delivered no later than known.

    The order of values is exact; when they are delivered is decided by the
    operator, so a value that may still be dropped is only expected at the end.
    """
    class T(Spec):
        guarded = (start or 0) != 0 or stop is not None or (step or 1) > 1
        sink_raise = "terminal" if guarded else "any"

        def init(self):
            self.seen = []       # values not yet decided (bounded by |start|, |stop|)
            self.n = 0           # elements so far
            self.cnt = 0         # selected so far (for the step)
            self._st = step or 1

        def fp(self, c):
            c.go(self.seen)
            c.out.append((min(self.n, 8 + (self.n - 8) % (2 * self._st) if self.n > 8 else self.n), self.cnt % self._st))

        def pick(self, v):
            if self.cnt % self._st == 0:
                self.emit("n", v)
            self.cnt += 1

        def inn(self, s, k, v):
            if self.m.fin:
                return
            a, b = start or 0, stop
            if k == "e":
                self.emit("e", v)
                return
            if k == "c":
                if a < 0:
                    xs = self.seen if b is None else self.seen[:b]
                    for x in xs:
                        self.pick(x)
                self.seen = []
                self.emit("c")
                return
            i = self.n
            self.n += 1
            if a < 0:
                # only the last |a| elements matter (b is None or negative here)
                self.seen.append(v)
                if len(self.seen) > -a:
                    self.seen.pop(0)
                return
            if i < a:
                return
            if b is None:
                self.pick(v)
            elif b >= 0:
                if i < b:
                    self.pick(v)
                    if i == b - 1:
                        self.emit("c")
            else:
                self.seen.append(v)
                if len(self.seen) > -b:
                    self.pick(self.seen.pop(0))
    return T


class Distinct(Pass):
    def init(self):
        self.last = ()

    def value(self, v):
        try:
            same = bool(self.last) and self.last[0] == v
        except UserError as e:
            self.emit("e", e)
            return
        self.last = (v,)
        if not same:
            self.emit("n", v)


class Scan(Pass):
    guarded = True
    sink_raise = "producer"
    unbuffered = ("S",)
    uf_producer_ok = False

    def init(self):
        self.acc = self.w.extra

    def step(self, v):
        d = self.uf("f", self.acc, v)
        if d[0] == "raise":
            self.emit("e", d[1])
            return False
        self.acc = d[1]
        return True

    def value(self, v):
        if self.step(v):
            self.emit("n", self.acc)


class Reduce(Scan):
    sink_raise = "terminal"
    unbuffered = ()

    def init(self):
        self.acc = self.w.extra
        self.some = False

    def inn(self, s, k, v):
        if self.m.fin:
            return
        if k == "n":
            self.some |= self.step(v)
        elif k == "e":
            self.emit("e", v)
        else:
            if self.some:
                self.emit("n", self.acc)
            self.emit("c")


class TakeUntil(Spec):
    def inn(self, s, k, v):
        if s.role == "O":
            if k == "n":
                self.emit("c")
            elif k == "e":
                self.emit("e", v)
        else:
            self.emit(k, v)


class CombineLatest(Spec):
    def init(self):
        self.a = ()
        self.b = ()

    def inn(self, s, k, v):
        if self.m.fin:
            return
        if k != "n":
            self.emit(k, v)
            return
        if s.role == "S":
            self.a = (v,)
        else:
            self.b = (v,)
        if self.a and self.b:
            self.emit("n", (self.a[0], self.b[0]))


class WithLatest(Spec):
    def init(self):
        self.b = ()

    def inn(self, s, k, v):
        if self.m.fin:
            return
        if k != "n":
            self.emit(k, v)
        elif s.role == "S":
            if self.b:
                self.emit("n", (v, self.b[0]))
        else:
            self.b = (v,)


class Merge(Spec):
    limit = 0
    mapped = None       # name of the user function that yields the inner sequence
    indexed = False

    def init(self):
        self.waiting = []
        self.active = set()
        self.outer_done = False
        self.i = 0
        self.racing = False
        self.full = False       # every slot was taken when an inner sequence failed
        self.setup()

    def setup(self):
        pass

    def base(self):
        return self.i if self.indexed else None

    def fp(self, c):
        c.out.append((len(self.waiting), len(self.active), self.outer_done, self.i if self.indexed else 0, self.racing, self.full))
        for x in self.waiting:
            c.go(x)
        for x in sorted(self.active, key=lambda s: s.idx):
            c.go(x)

    def load(self):
        return len(self.waiting) + len(self.active)

    def subscribed(self, s):
        if s.role != "I" or self.m.relaxed:
            return
        if self.m.fin:
            if self.full:
                self.w.violate(("subs", self.m.iso), f"{s.name()} started although a sequence before it has failed")
            return
        if s.src not in self.waiting:
            self.w.violate(("subs", "values", self.m.iso), f"{s.name()} subscribed although it is not waiting to be started")
            return
        if self.waiting[0] is not s.src:
            self.w.violate(("subs", self.m.iso), f"{s.name()} started before {self.waiting[0].name}")
            return
        if self.limit and len(self.active) >= self.limit:
            self.w.violate(("subs", self.m.iso), f"{s.name()} started while {len(self.active)} sequence(s) run, limit {self.limit}")
            return
        self.waiting.pop(0)
        self.active.add(s)

    def arrive(self, v):
        if self.mapped:
            d = self.uf(self.mapped, v, self.i) if self.indexed else self.uf(self.mapped, v)
            self.i += 1
            if d[0] == "raise":
                return
            v = d[1]
        self.waiting.append(v)

    def done(self):
        if self.outer_done and not self.waiting and not self.active:
            self.emit("c")

    def inn(self, s, k, v):
        if self.m.fin:
            if s.role == "I" and k == "c":
                self.full = False
            if self.racing and s.role == "I" and k != "c" and self.m.exp:
                # the outer error is still on its way through the indexing stage
                self.m.exp.insert(len(self.m.exp) - 1, harness_exp(k, v))
            return
        if s.role == "I":
            if k == "c":
                self.active.discard(s)
                self.done()
            else:
                self.emit(k, v)
                self.full = k == "e" and 0 < self.limit <= len(self.active)
        elif k == "n":
            self.arrive(v)
        elif k == "e":
            self.emit("e", v)
            self.racing = self.indexed
        else:
            self.outer_done = True
            self.done()

    def quiet(self):
        self.racing = False
        if self.m.fin:
            return
        if self.waiting and (not self.limit or len(self.active) < self.limit):
            self.w.violate(("subs", self.m.iso), f"{self.waiting[0].name} is never started")


def MergeOf(limit=0, mapped=None, indexed=False, given=False):
    l, mp, ix = limit, mapped, indexed

    class M(Merge):
        limit = l
        mapped = mp
        indexed = ix

        def setup(self):
            if given:
                self.waiting = list(self.w.extra)
                self.outer_done = True
                self.done()
    return M


class Switch(Spec):
    mapped = None

    def init(self):
        self.latest = None
        self.latest_done = True
        self.latest_sub = None
        self.outer_done = False

    def load(self):
        return sum(1 for s in self.w.subs if s.owner == self.m.i and s.role == "I" and s.live)

    def subscribed(self, s):
        if s.role != "I" or self.m.relaxed or self.m.fin:
            return
        if s.src is self.latest:
            if self.latest_sub is not None:
                self.w.violate(("subs", self.m.iso), f"{s.name()} subscribed twice")
            self.latest_sub = s

    def may_release(self, s):
        return s.role == "I" and s is not self.latest_sub

    def arrive(self, v):
        self.latest, self.latest_done, self.latest_sub = v, False, None

    def uf_returned(self, name, v):
        if not self.m.fin:
            self.arrive(v)

    def done(self):
        if self.outer_done and self.latest_done:
            self.emit("c")

    def inn(self, s, k, v):
        if self.m.fin:
            return
        if s.role == "I":
            if s.src is not self.latest:
                return
            if k == "c":
                self.latest_done = True
                self.done()
            else:
                self.emit(k, v)
        elif k == "n":
            if self.mapped:
                d = self.uf(self.mapped, v)
                if d[0] == "raise":
                    return
                if self.w.ufs[self.mapped].is_async:
                    return          # the sequence arrives when the mapper has finished
                v = d[1]
            self.arrive(v)
        elif k == "e":
            self.emit("e", v)
        else:
            self.outer_done = True
            self.done()

    def quiet(self):
        if self.m.fin:
            return
        for s in self.w.subs:
            if s.owner == self.m.i and s.role == "I" and s.live and s.src is not self.latest:
                self.w.violate(("release_switch", self.m.iso), f"{s.name()} is still subscribed although {self.latest.name} has replaced it")
                return
        if self.latest is not None and self.latest_sub is None:
            self.w.violate(("subs", self.m.iso), f"{self.latest.name} is never subscribed")


class SwitchMap(Switch):
    mapped = "f"


class Catch(Spec):
    guarded = False
    sink_raise = "producer"
    unbuffered = ("S", "F")

    def init(self):
        self.failed = None
        self.next = None
        self.next_sub = None

    def subscribed(self, s):
        if s.role == "F":
            if s.src is not self.next or self.next_sub is not None:
                self.w.violate(("subs", self.m.iso), f"{s.name()} must not be subscribed here")
            self.next_sub = s

    def inn(self, s, k, v):
        if self.m.fin:
            return
        if s.role == "F":
            if s is self.next_sub:
                self.emit(k, v)
            return
        if self.failed is not None:
            return
        if k != "e":
            self.emit(k, v)
            return
        self.failed = s
        d = self.uf("handler", v)
        if d[0] == "raise":
            self.emit("e", d[1])
        else:
            self.next = d[1]

    def quiet(self):
        if self.next is not None and self.next_sub is None and not self.m.relaxed:
            self.w.violate(("subs", "values", self.m.iso), f"{self.next.name} is never subscribed")
        elif self.failed is not None and not self.failed.disposed:
            self.w.violate(("release_failed", self.m.iso), f"the failed {self.failed.name()} is not released")


def Retry(n):
    class R(Spec):
        guarded = False
        sink_raise = "producer"
        unbuffered = ("S",)

        def init(self):
            self.left = n
            self.cur = None
            self.want = 1
            self._failed = []

        def subscribed(self, s):
            if self.m.relaxed:
                return
            if not self.want:
                self.w.violate(("subs", self.m.iso), "the source is subscribed once too often")
                return
            self.want = 0
            self.cur = s

        def inn(self, s, k, v):
            if self.m.fin or s is not self.cur:
                return
            if k != "e" or self.left <= 0:
                self.emit(k, v)
                return
            self._failed.append(s)
            self.left -= 1
            self.want = 1

        def quiet(self):
            if self.want and not self.m.fin:
                self.w.violate(("subs", self.m.iso), "the source is not subscribed again after its error")
            for s in self._failed:
                if not s.disposed:
                    self.w.violate(("release_failed", self.m.iso), "the failed source is not released")
    return R


def Delay(t):
    class D(Spec):
        guarded = False
        sink_raise = "any"

        def inn(self, s, k, v):
            self.emit(k, v, due=self.w.now + t)
    return D


def Debounce(t):
    class D(Spec):
        def inn(self, s, k, v):
            if self.m.fin:
                return
            now = self.w.now
            self.m.drop(lambda e: e.due is not None and e.due > now)
            if k == "n":
                self.emit("n", v, due=now + t)
            else:
                self.emit(k, v)
    return D
