"""The operators under analysis: how a user builds them, and their transducer."""
from __future__ import annotations

from . import models, specs
from .core import Inconclusive, Tok
from .harness import Comp


class Op:
    """An operator in one of its forms.

    form: 'mod' the function of its module, 'top' the function exported by the
    package, 'chain' the method of the chained observable.
    """

    def __init__(self, name, spec, module, fname=None, chain=None, top=None, args=None, star=False, outer="tok",
                 other=None, bare=False, **opts):
        self.name, self.spec, self.module = name, spec, module
        self.fname = fname or name
        self.chain, self.top = chain, top
        self.args = args or (lambda w: ())
        self.outer = "args" if star else outer
        self.other = other
        self.bare = bare
        self.opts = opts

    def forms(self):
        out = ["mod"] if self.module else []
        if self.top:
            out.append("top")
        if self.chain:
            out.append("chain")
        return out

    def default_form(self):
        return "top" if self.top else ("mod" if self.module else "chain")

    def comp(self, form=None, **kw):
        form = form or self.default_form()
        op = self

        def build(w):
            return op.build(w, form)
        name = {"mod": f"{self.module}.{self.fname}", "top": f"aioreactive.{self.top}",
                "chain": f"AsyncRx.{self.chain}"}[form]
        d = dict(self.opts)
        d.update(kw)
        tags = d.pop("tag", "")
        return Comp(name=f"{self.name}[{form}]{tags}", entry=name, spec=d.pop("spec", None) or self.spec, build=build, **d)

    def build(self, w, form):
        src = w.source("S", self.outer, name="source")
        a = self.args(w)
        if form == "chain":
            return getattr(w.rx.AsyncRx(src), self.chain)(*a)
        f = getattr(w.rx, self.top) if form == "top" else getattr(w.mod(self.module), self.fname)
        if self.bare and form == "mod":
            return f(src)
        return f(*a)(src) if not (self.bare == "both") else f(src)


def U(name, kind, is_async=False):
    def args(w):
        return (w.uf(name, kind, is_async).fn(),)
    return args


def other(w):
    return (w.source("O", "tok", name="other"),)


def scan_args(is_async):
    def args(w):
        w.extra = Tok("init")
        return (w.uf("f", "val", is_async).fn(), w.extra)
    return args


def given(n, alias=False):
    def mk(w):
        xs = [w.source("I", "tok", name="seq")] * n if alias else [w.source("I", "tok", name=f"seq{i + 1}") for i in range(n)]
        w.extra = xs
        return xs
    return mk


def op_table():
    T = []

    def add(*a, **k):
        o = Op(*a, **k)
        T.append(o)
        return o
    # element-wise
    add("map", specs.Map, "transform", top="map", chain="map", args=U("f", "val"))
    add("map_async", specs.Map, "transform", top="map_async", args=U("f", "val", True))
    add("starmap", specs.StarMap, "transform", top="starmap", chain="starmap", args=U("f", "val"), star=True)
    add("starmap_async", specs.StarMap, "transform", args=U("f", "val", True), star=True)
    add("filter", specs.Filter, "filtering", top="filter", chain="filter", args=U("f", "pred"))
    add("filter_async", specs.Filter, "filtering", top="filter_async", chain="filter_async", args=U("f", "pred", True))
    add("starfilter", specs.StarFilter, "filtering", top="starfilter", chain="starfilter", args=U("f", "pred"), star=True)
    add("choose", specs.Choose, "filtering", top="choose", chain="choose", args=U("f", "opt"))
    add("choose_async", specs.Choose, "filtering", top="choose_async", chain="choose_async", args=U("f", "opt", True))
    # indexed
    add("mapi", specs.MapI, "transform", top="mapi", args=U("f", "val"))
    add("mapi_async", specs.MapI, "transform", top="mapi_async", args=U("f", "val", True))
    add("filteri", specs.FilterI, "filtering", top="filteri", chain="filteri", args=U("f", "pred"))
    for n in (0, 2):
        def zargs(w, n=n):
            w.extra = [Tok(f"z{i}") for i in range(n)]
            return (list(w.extra),)
        add(f"zip_seq({n} items)", specs.ZipSeq(n), "combine", fname="zip_seq", args=zargs)

    def zpull(w):
        from .special import EnvIterable
        w.extra = EnvIterable(w, 2)
        return (w.extra,)
    add("zip_seq(iterable)", specs.ZipPull, "combine", fname="zip_seq", args=zpull)
    # counting
    for n in (0, 1, 2, 3):
        add(f"take({n})", specs.Take(n), "filtering", fname="take", top="take", chain="take", args=lambda w, n=n: (n,))
        add(f"skip({n})", specs.Skip(n), "filtering", fname="skip", top="skip", chain="skip", args=lambda w, n=n: (n,))
        add(f"take_last({n})", specs.TakeLast(n), "filtering", fname="take_last", top="take_last", chain="take_last", args=lambda w, n=n: (n,))
        add(f"skip_last({n})", specs.SkipLast(n), "filtering", fname="skip_last", top="skip_last", chain="skip_last", args=lambda w, n=n: (n,))
    add("distinct_until_changed", specs.Distinct, "filtering", top="distinct_until_changed", chain="distinct_until_changed", bare="both")
    add("scan", specs.Scan, "transform", top="scan", args=scan_args(False))
    add("scan_async", specs.Scan, "transform", top="scan_async", args=scan_args(True))
    add("reduce", specs.Reduce, "transform", top="reduce", chain="reduce", args=scan_args(False))
    add("reduce_async", specs.Reduce, "transform", top="reduce_async", chain="reduce_async", args=scan_args(True))
    # two sources
    add("take_until", specs.TakeUntil, "filtering", top="take_until", chain="take_until", args=other)
    add("combine_latest", specs.CombineLatest, "combine", top="combine_latest", chain="combine_latest", args=other)
    add("with_latest_from", specs.WithLatest, "combine", top="with_latest_from", chain="with_latest_from", args=other)
    # flattening
    for n in (0, 1, 2):
        add(f"merge_inner({n})", specs.MergeOf(n), "combine", fname="merge_inner", top="merge_inner", args=lambda w, n=n: (n,), outer="inner")
    add("flat_map", specs.MergeOf(0, "f"), "transform", top="flat_map", chain="flat_map", args=U("f", "inner"), elem_makes_inner=True)
    add("flat_map_async", specs.MergeOf(0, "f"), "transform", top="flat_map_async", chain="flat_map_async", args=U("f", "inner", True), elem_makes_inner=True)
    add("flat_mapi", specs.MergeOf(0, "f", True), "transform", top="flat_mapi", args=U("f", "inner"), elem_makes_inner=True)
    add("flat_mapi_async", specs.MergeOf(0, "f", True), "transform", args=U("f", "inner", True), elem_makes_inner=True)
    add("concat_map", specs.MergeOf(1, "f"), "transform", args=U("f", "inner"), elem_makes_inner=True)
    add("switch_latest", specs.Switch, "transform", top="switch_latest", outer="inner", bare=True)
    add("flat_map_latest", specs.SwitchMap, "transform", args=U("f", "inner"), elem_makes_inner=True)
    add("flat_map_latest_async", specs.SwitchMap, "transform", top="flat_map_latest_async", chain="flat_map_latest_async",
        args=U("f", "inner", True), elem_makes_inner=True)
    # errors
    add("catch", specs.Catch, "transform", top="catch", args=U("handler", "fallback"))
    for n in (0, 1, 2, 5):
        add(f"retry({n})", specs.Retry(n), "transform", fname="retry", top="retry", args=lambda w, n=n: (n,))
    # time
    add("delay", specs.Delay(1.5), "timeshift", top="delay", chain="delay", args=lambda w: (1.5,), timed=True)
    add("debounce", specs.Debounce(1.5), "timeshift", top="debounce", chain="debounce", args=lambda w: (1.5,), timed=True)
    return {o.name: o for o in T}


class SeqOp(Op):
    """merge/concat of given sequences."""

    def __init__(self, name, spec, builders, n=2, **opts):
        self.name, self.spec, self.builders, self.n, self.opts = name, spec, builders, n, opts
        self.module = self.top = self.chain = None

    def forms(self):
        return list(self.builders)

    def default_form(self):
        return list(self.builders)[0]

    def comp(self, form=None, **kw):
        form = form or self.default_form()
        entry, fn = self.builders[form]
        d = dict(self.opts)
        d.update(kw)
        tags = d.pop("tag", "")
        n = self.n

        def build(w):
            xs = given(n, w.comp.reuse)(w)
            return fn(w, xs)
        return Comp(name=f"{self.name}[{form}]{tags}", entry=entry, spec=d.pop("spec", None) or self.spec, build=build, **d)


def _chain(w, xs, name):
    a = w.rx.AsyncRx(xs[0])
    return getattr(a, name)(a if xs[1] is xs[0] else xs[1])


def seq_table():
    T = [
        SeqOp("merge", specs.MergeOf(0, given=True), {
            "top": ("aioreactive.merge", lambda w, xs: w.rx.merge(xs[1])(xs[0])),
            "chain": ("AsyncRx.merge", lambda w, xs: _chain(w, xs, "merge"))}),
        SeqOp("merge_seq", specs.MergeOf(0, given=True), {
            "top": ("aioreactive.merge_seq", lambda w, xs: w.rx.merge_seq(xs))}),
        SeqOp("concat", specs.MergeOf(1, given=True), {
            "top": ("aioreactive.concat", lambda w, xs: w.rx.concat(xs[1])(xs[0])),
            "chain": ("AsyncRx.concat", lambda w, xs: _chain(w, xs, "concat"))}),
        SeqOp("concat_seq", specs.MergeOf(1, given=True), {
            "top": ("aioreactive.concat_seq", lambda w, xs: w.rx.concat_seq(xs)),
            "mod": ("combine.concat_seq", lambda w, xs: w.mod("combine").concat_seq(xs))}, n=3),
    ]
    for n in (0, 1, 4):
        T.append(SeqOp(f"merge_seq({n} sequences)", specs.MergeOf(0, given=True), {
            "top": ("aioreactive.merge_seq", lambda w, xs: w.rx.merge_seq(xs))}, n=n))
        T.append(SeqOp(f"concat_seq({n} sequences)", specs.MergeOf(1, given=True), {
            "top": ("aioreactive.concat_seq", lambda w, xs: w.rx.concat_seq(xs))}, n=n))
    return {o.name: o for o in T}


def slice_op(a, b, c):
    name = f"slice({a},{b},{c})"
    given = (a, b, c)
    while given and given[-1] is None:         # an omitted argument is left out, so that its default is what is judged
        given = given[:-1]
    o = Op(name, specs.Slice(a, b, c), "filtering", fname="slice", args=lambda w: given)

    def build(w, form, orig=o.build):
        if form == "chain":
            src = w.source("S", "tok", name="source")
            return w.rx.AsyncRx(src)[a:b:c]
        return orig(w, form)
    o.build = build
    o.chain = "__getitem__"
    return o


def count_op(name, n):
    spec = dict(take=specs.Take, skip=specs.Skip, take_last=specs.TakeLast, skip_last=specs.SkipLast)[name]
    return Op(f"{name}({n})", spec(n), "filtering", fname=name, top=name, chain=name, args=lambda w: (n,))


def merge_op(n):
    return Op(f"merge_inner({n})", specs.MergeOf(n), "combine", fname="merge_inner", top="merge_inner", args=lambda w: (n,), outer="inner")


def merge_default():
    """The limit left out."""
    return Op("merge_inner()", specs.MergeOf(0), "combine", fname="merge_inner", top="merge_inner", args=lambda w: (), outer="inner")


def seqs_op(name, n):
    f = lambda w, xs: getattr(w.rx, name)(xs)
    return SeqOp(f"{name}({n} sequences)", specs.MergeOf(1 if name == "concat_seq" else 0, given=True), {"top": (f"aioreactive.{name}", f)}, n=n)


def retry_op(n):
    return Op(f"retry({n})", specs.Retry(n), "transform", fname="retry", top="retry", args=lambda w: (n,))


def time_op(name, t, tick):
    spec = dict(delay=specs.Delay, debounce=specs.Debounce)[name]
    return Op(f"{name}({t:g})", spec(t), "timeshift", fname=name, top=name, chain=name, args=lambda w: (t,), timed=True, tickd=tick)


def index_op(i):
    o = Op(f"[{i}]", specs.Slice(i, i + 1, None), "filtering", fname="slice")
    o.build = lambda w, form: w.rx.AsyncRx(w.source("S", "tok", name="source"))[i]
    o.chain = "__getitem__"
    return o


OPS = op_table()
SEQS = seq_table()
