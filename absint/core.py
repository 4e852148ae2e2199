"""Abstract values, the choice oracle and the engine's control signals.

Nothing in this package imports or executes aioreactive: its source is parsed
(ast) and evaluated over the abstract domain defined here.

Domain
  * constants, containers, closures, class instances: the program's own heap;
  * stream elements, user-function results: opaque `Tok`s.  The only things a
    program can learn about a Tok are the facts below; asking for a fact whose
    value is not determined yet forks the analysis (both/all outcomes are
    followed), so a verdict holds for every concrete element.
"""
from __future__ import annotations

import types


class EngineSignal(BaseException):
    """Not visible to the analysed program."""


class Inconclusive(EngineSignal):
    """The analysed code does something outside the abstract domain."""


class Diverged(EngineSignal):
    """The analysed code did not reach quiescence within the step budget."""


class PathCut(EngineSignal):
    """The current path is not worth following (e.g. choice bound reached)."""


KINDS = ("val", "falsy", "none")


class Run:
    """State of one abstract path (one replay)."""

    __slots__ = ("decisions", "trace", "facts", "serials", "next_serial", "steps",
                 "max_steps", "loop", "tokn", "stack", "touched", "entered", "fork_limit",
                 "raise_budget", "user_calls", "dead", "closing", "eqr")

    def __init__(self, decisions=(), max_steps=400_000, fork_limit=400):
        self.decisions = list(decisions)
        self.trace = []          # [(choice, arity, label)]
        self.facts = {}
        self.serials = {}
        self.next_serial = 0
        self.steps = 0
        self.max_steps = max_steps
        self.loop = None
        self.tokn = 0
        self.stack = []
        self.touched = set()
        self.entered = []
        self.fork_limit = fork_limit
        self.raise_budget = 0
        self.user_calls = []
        self.dead = False
        self.closing = 0
        self.eqr = None          # may make the comparison of two elements fail

    def choose(self, n, label):
        i = len(self.trace)
        if n <= 1:
            return 0
        if i < len(self.decisions):
            c = self.decisions[i]
            if c >= n:
                raise PathCut("stale decision")
        else:
            c = 0
        if i >= self.fork_limit:
            raise PathCut("choice bound")
        self.trace.append((c, n, label))
        return c

    def serial(self, obj):
        e = self.serials.get(id(obj))
        if e is None:
            self.next_serial += 1
            e = self.serials[id(obj)] = (self.next_serial, obj)
        return e[0]


RUN: Run = Run()


def set_run(r):
    global RUN
    RUN = r


def run():
    return RUN


def _opaque(name):
    def f(self, *a, **k):
        if any(v for _, v in self._types) or any(v for n, v in self._has if n != "hash"):
            raise Inconclusive(f"operation {name} on an opaque element")
        # elements need not support it
        raise TypeError(f"an arbitrary element does not support __{name}__")
    return f


class Tok:
    """Opaque element. Identity is its provenance."""

    __slots__ = ("name", "_kind", "_types", "_has")

    def __init__(self, name=None):
        if name is None:
            RUN.tokn += 1
            name = f"x{RUN.tokn}"
        object.__setattr__(self, "name", name)
        object.__setattr__(self, "_kind", None)
        object.__setattr__(self, "_types", ())
        object.__setattr__(self, "_has", ())

    # ---- facts
    def has(self, what):
        """Whether the element supports something: undetermined until asked."""
        for n, v in self._has:
            if n == what:
                return v
        v = False if self._kind == "none" and what != "hash" else not RUN.choose(2, f"{self.name} has no {what}")
        object.__setattr__(self, "_has", self._has + ((what, v),))
        return v

    def kind(self):
        if self._kind is None:
            n = 2 if any(v for _, v in self._types) else 3
            object.__setattr__(self, "_kind", KINDS[RUN.choose(n, f"kind of {self.name}")])
        return self._kind

    def isnone(self):
        return self.kind() == "none"

    def isbool(self, b):
        """Whether the element is the constant True or False."""
        if self.kind() != ("val" if b else "falsy") or any(v and not issubclass(bool, t) for t, v in self._types):
            return False
        return self.has("identity with True" if b else "identity with False")

    def __bool__(self):
        return self.kind() == "val"

    def __eq__(self, other):
        if other is self:
            return True
        if isinstance(other, Tok):
            if RUN.eqr is not None:
                RUN.eqr(self)
                RUN.eqr(other)
            return tok_eq(self, other)
        if other is None:
            return self.isnone()
        if isinstance(other, (int, float, str, bytes)) and not isinstance(other, Tok):
            if not other:
                if self.kind() != "falsy":
                    return False
            key = ("eqc", self, type(other).__name__, other)
            f = RUN.facts
            k = ("eqc", id(self), type(other).__name__, other)
            if k not in f:
                f[k] = (bool(RUN.choose(2, f"{self.name}=={other!r}")), self)
            return f[k][0]
        return False

    def __ne__(self, other):
        return not self.__eq__(other)

    def __hash__(self):
        if not self.has("hash"):
            raise TypeError("unhashable element")
        return 77

    def __await__(self):
        if not self.has("__await__"):
            raise TypeError("an arbitrary element can't be used in 'await' expression")
        return Term("result of awaiting", (self,))
        yield

    def __copy__(self):
        return Term("copy of", (self,))

    def __deepcopy__(self, memo):
        return Term("copy of", (self,))

    def _if_typed(self, what, name):
        if any(v for _, v in self._types) or any(v for n, v in self._has if n != "hash"):
            return Term(what, (self,))
        raise TypeError(f"an arbitrary element does not support {name}")

    def __call__(self, *a, **k):
        return self._if_typed("result of calling", "__call__")

    def __iter__(self):
        return iter([self._if_typed("item of", "__iter__")])

    def __len__(self):
        self._if_typed("length of", "__len__")
        return 1

    def __repr__(self):
        return f"<{self.name}>"

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def __getattr__(self, name):
        if name.startswith("__") and name.endswith("__"):
            raise AttributeError(name)
        if not self.has(name):
            raise AttributeError(name)
        raise Inconclusive(f"attribute {name} of an opaque element")

    def __setattr__(self, name, v):
        raise Inconclusive(f"attribute write {name} on an opaque element")


for _n in ("add radd sub rsub mul rmul truediv rtruediv floordiv rfloordiv mod rmod pow "
           "neg pos abs invert lt le gt ge next getitem setitem contains "
           "int float index enter exit aiter anext and or xor rand ror rxor "
           "lshift rshift").split():
    setattr(Tok, f"__{_n}__", _opaque(_n))


class TypeOf:
    """The class of an element: undetermined until asked."""

    def __init__(self, tok):
        self.tok = tok

    def __eq__(self, other):
        if isinstance(other, TypeOf):
            a, b = self.tok, other.tok
            if a is b:
                return True
            k = ("type", *sorted((id(a), id(b))))
            if k not in RUN.facts:
                RUN.facts[k] = (not RUN.choose(2, f"{a.name} and {b.name} are of different classes"), a, b)
            return RUN.facts[k][0]
        return isinstance(other, type) and self.tok.has(f"class {other.__name__}")

    def __hash__(self):
        return 78

    def __getattr__(self, name):
        raise Inconclusive(f"attribute {name} of the class of an opaque element")


def tok_eq(a, b):
    f = RUN.facts
    k = ("eq", id(a), id(b)) if id(a) < id(b) else ("eq", id(b), id(a))
    # deterministic key: order does not matter for the value
    if k in f:
        return f[k][0]
    ka, kb = a._kind, b._kind
    if ka is not None and kb is not None and ka != kb:
        r = False
    elif ka == "none" and kb == "none":
        r = True
    else:
        # transitivity through already known equalities
        known = _known_eq(a, b)
        if known is not None:
            r = known
        else:
            r = RUN.choose(2, f"{a.name}=={b.name}") == 1
    f[k] = (r, a, b)
    if r:
        if ka is None and kb is not None:
            object.__setattr__(a, "_kind", kb)
        elif kb is None and ka is not None:
            object.__setattr__(b, "_kind", ka)
    return r


def _known_eq(a, b):
    f = RUN.facts
    # equivalence classes from positive facts
    cls_a, cls_b = {id(a)}, {id(b)}
    changed = True
    pos = [(v[1], v[2]) for k, v in f.items() if k[0] == "eq" and v[0]]
    while changed:
        changed = False
        for x, y in pos:
            for c in (cls_a, cls_b):
                if (id(x) in c) != (id(y) in c):
                    c.add(id(x)); c.add(id(y)); changed = True
    if id(b) in cls_a:
        return True
    for k, v in f.items():
        if k[0] == "eq" and not v[0]:
            x, y = id(v[1]), id(v[2])
            if (x in cls_a and y in cls_b) or (y in cls_a and x in cls_b):
                return False
    return None


class Term(Tok):
    """Result of an uninterpreted user function: hash-consed f(args)."""

    __slots__ = ("fn", "args")

    def __init__(self, fn, args):
        Tok.__init__(self, f"{fn}({','.join(map(_show, args))})")
        object.__setattr__(self, "fn", fn)
        object.__setattr__(self, "args", args)


def _show(a):
    if isinstance(a, Tok):
        return a.name
    if isinstance(a, tuple):
        return "(" + ",".join(map(_show, a)) + ")"
    return repr(a)


def key_of(v):
    """Hashable provenance key of a value."""
    if isinstance(v, Term):
        return ("T", v.fn, tuple(key_of(a) for a in v.args))
    if isinstance(v, Tok):
        return ("t", id(v))
    if isinstance(v, tuple):
        return ("tup",) + tuple(key_of(a) for a in v)
    if isinstance(v, list):
        return ("lst",) + tuple(key_of(a) for a in v)
    if isinstance(v, (int, float, str, bool, type(None), bytes)):
        return ("c", type(v).__name__, v)
    return ("o", id(v))


def same(a, b):
    return key_of(a) == key_of(b)


def show(v):
    if isinstance(v, tuple):
        return "(" + ", ".join(show(x) for x in v) + ")"
    if isinstance(v, list):
        return "[" + ", ".join(show(x) for x in v) + "]"
    if isinstance(v, BaseException):
        return f"{type(v).__name__}({v.label if isinstance(v, UserError) else ', '.join(map(str, v.args))})"
    try:
        return repr(v)
    except EngineSignal:
        return "<?>"


class UserError(Exception):
    """Raised by an uninterpreted user function / emitted by a source.

    What it carries (arguments, cause) is undetermined until it is looked at."""

    _types = ()
    _facts = ()

    def __init__(self, name):
        self.label = name

    def _fact(self, name, make):
        for n, v in self._facts:
            if n == name:
                return v
        v = make() if RUN is None or RUN.choose(2, f"the exception has {name}") else None
        self._facts += ((name, v),)
        return v

    def __str__(self):
        return self.label

    def message(self):
        """What str() gives in the analysed program: exceptions may have no text."""
        return self._fact("a message", lambda: self.label) or ""

    @property
    def args(self):
        v = self._fact("arguments", Tok)
        return () if v is None else (v,)

    @property
    def __cause__(self):
        c = BaseException.__cause__.__get__(self)
        return c if c is not None else self._fact("a cause", lambda: UserError("cause"))

    @__cause__.setter
    def __cause__(self, v):
        BaseException.__cause__.__set__(self, v)

    @property
    def __context__(self):
        return self._fact("a context", lambda: UserError("context"))

    @__context__.setter
    def __context__(self, v):
        pass


NOT_USER = (StopIteration, StopAsyncIteration)


def _classes(c):
    if isinstance(c, tuple):
        for x in c:
            yield from _classes(x)
    elif isinstance(c, types.UnionType):
        yield from _classes(c.__args__)
    elif isinstance(c, type):
        yield c


def inst(o, c):
    """isinstance of a value of the analysed program: the class of an element or
    of an exception that user code raises is an undetermined fact."""
    if not isinstance(o, Tok):
        if isinstance(o, c):
            return True
        if not isinstance(o, UserError):
            return False
        for k in _classes(c):
            if issubclass(k, Exception) and not issubclass(k, NOT_USER) and _has_type(o, k, "the exception"):
                return True
        return False
    for k in _classes(c):
        if k is object:
            return True
        if k is type(None):
            if o.isnone():
                return True
        elif o._kind == "none":
            if isinstance(None, k):
                return True
        elif _has_type(o, k, o.name):
            return True
    return False


def _has_type(o, k, name):
    for t, v in o._types:
        if v and issubclass(t, k):
            return True
        if not v and issubclass(k, t):
            return False
        if v and not issubclass(k, t):
            return False
    v = bool(RUN.choose(2, f"{name} is a {k.__name__}"))
    object.__setattr__(o, "_types", o._types + ((k, v),))
    return v
