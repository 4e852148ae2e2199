"""Which configurations decide which property.

A job is one component configuration of the most general client together with
the violation categories that belong to the property, and the bounds of the
quick and the thorough tier.
"""
from __future__ import annotations

from . import extras, ops, special, specs

ALL = {**ops.OPS, **ops.SEQS}
FACT, TIMERS, SUBJ, ITERS, AWAIT = special.FACTORIES, special.TIMERS, special.SUBJECTS, special.ITERS, special.AWAIT

ALWAYS = {"crash", "stuck", "hang"}


class Job:
    def __init__(self, make, cats, depth=12, runs=1500, tdepth=None, truns=None, thorough_only=False):
        self.make = make
        self.cats = frozenset(cats) | ALWAYS
        self.depth, self.runs = depth, runs
        self.tdepth = tdepth or depth + 6
        self.truns = truns or runs * 20
        self.thorough_only = thorough_only
        self.name = None


def J(op, cats, form=None, depth=12, runs=1500, tdepth=None, truns=None, thorough_only=False, **opts):
    o = ALL[op] if isinstance(op, str) else op
    tag = opts.pop("tag", None)
    if tag is None:
        tag = " " + ",".join(f"{k}={v if not isinstance(v, type) else v.__name__}" for k, v in sorted(opts.items())) if opts else ""
    return Job(lambda: o.comp(form, tag=tag, **opts), cats, depth, runs, tdepth, truns, thorough_only)


def sel(*prefixes):
    return [n for n in ALL if any(n == p or n.startswith(p + "(") for p in prefixes)]


ELEMENT = sel("map", "map_async", "starmap", "starmap_async", "filter", "filter_async", "starfilter", "choose", "choose_async")
INDEXED = sel("mapi", "mapi_async", "filteri", "flat_mapi", "flat_mapi_async", "zip_seq")
COUNT = sel("take", "skip", "take_last", "skip_last")
SCAN = sel("scan", "scan_async")
REDUCE = sel("reduce", "reduce_async")
MERGE = sel("merge_inner", "flat_map", "flat_map_async", "flat_mapi", "flat_mapi_async", "merge", "merge_seq")
CONCAT = sel("concat", "concat_seq", "concat_map", "merge_inner(1)")
SWITCH = sel("switch_latest", "flat_map_latest", "flat_map_latest_async")
COMBINE = sel("combine_latest", "with_latest_from")
TIME = sel("delay", "debounce")
ERR = sel("catch", "retry")
GUARDED = sel("mapi", "mapi_async", "filteri", "zip_seq", "take", "skip", "take_last", "skip_last", "distinct_until_changed",
              "take_until", "combine_latest", "with_latest_from", "merge_inner", "flat_map", "flat_map_async", "flat_mapi",
              "flat_mapi_async", "concat_map", "switch_latest", "flat_map_latest", "flat_map_latest_async", "debounce",
              "reduce", "reduce_async", "merge", "merge_seq", "concat", "concat_seq")
SEQS_ = set(ops.SEQS)
FLAT = set(MERGE) | set(CONCAT) | set(SWITCH)
TWO = FLAT | set(COMBINE) | set(ERR) | {"take_until"}
UFS = [n for n in ALL if n in ELEMENT or n in INDEXED and not n.startswith("zip") or n in SCAN or n in REDUCE or n in SWITCH[1:]
       or n in ("flat_map", "flat_map_async", "concat_map", "catch")]
SLICES = [(None, None, None), (0, None, None), (1, None, None), (2, None, None), (None, 0, None), (None, 1, None),
          (None, 3, None), (1, 3, None), (2, 2, None), (3, 1, None), (0, 1, 1), (None, None, 2), (None, None, 3), (1, None, 2),
          (1, 5, 2), (0, 4, 3), (-1, None, None), (-2, None, None), (None, -1, None), (None, -2, None), (1, -1, None),
          (-3, -1, None), (-2, -1, None), (-1, -2, None), (-3, None, 2), (2, -2, None), (0, -1, 2), (-3, -1, 2)]


def burst(n):
    return n in FLAT


def std(names, cats, *, base=True, slow=True, bursts=True, eager=True, slowsub=False, raise_=False, runs=1200, depth=12, **opts):
    """The usual variations of the client around every operator."""
    out = []
    for n in names:
        if base:
            out.append(J(n, cats, depth=depth, runs=runs, **opts))
        if slow:
            out.append(J(n, cats, depth=depth, sink="slow", runs=runs, **opts))
        if bursts:
            out.append(J(n, cats, depth=2, tdepth=3, bursts=3, runs=runs, **opts))
            if slow:
                out.append(J(n, cats, depth=2, tdepth=3, bursts=2, sink="slow", slow_term=True, runs=runs, **opts))
            if n in TWO:
                # two events close together anywhere in a longer history
                out.append(J(n, cats, depth=4, tdepth=6, bursts=3, max_bursts=1, runs=2 * runs, **opts))
        if slow:
            # a source that does not wait for its earlier events
            out.append(J(n, cats, conc=2, sink="slow", slow_term=True, depth=5, tdepth=7, runs=runs // 2, **opts))
        if eager:
            out.append(J(n, cats, eager=2, depth=5, runs=runs // 2, **opts))
        if not slowsub and n in TWO:
            out.append(J(n, cats, gatesub=True, depth=6, tdepth=8, runs=runs // 2, **opts))
        if slowsub:
            out.append(J(n, cats, slowsub=True, eager=1, depth=5, runs=runs, **opts))
            out.append(J(n, cats, slowsub=True, bursts=3, depth=2, tdepth=3, runs=runs, **opts))
            out.append(J(n, cats, gatesub=True, depth=6, tdepth=8, runs=runs, **opts))
            out.append(J(n, cats, gatesub=True, bursts=2, depth=2, tdepth=3, runs=runs, **opts))
        if raise_:
            out.append(J(n, cats, sink="raise", raises=1, depth=8, runs=runs, **opts))
    return out


def deep(names, cats, depth=9, runs=1500, slow=True, **opts):
    """Longer histories and more sequences at once, of a client that neither fails nor disposes."""
    o = dict(errors=False, dispose=False, max_inner=4)
    o.update(opts)
    out = [J(n, cats, depth=depth, runs=runs, **o) for n in names]
    if slow:
        out += [J(n, cats, depth=depth, runs=runs, sink="slow", **{**o, "max_inner": 3}) for n in names]
    return out


def reuse(names, cats, runs=600):
    """Every inner sequence is the same object."""
    out = []
    for n in names:
        forms = [f for f in ALL[n].forms() if f == "chain"] if n in SEQS_ else []
        for form in [None] + forms:
            out.append(J(n, cats, form=form, reuse=True, depth=8, runs=runs))
            out.append(J(n, cats, form=form, reuse=True, sink="slow", depth=7, runs=runs))
    return out


def pending(names, cats, runs=500, fail=False):
    """Asynchronous user functions take any time: further events happen before they answer."""
    kw = dict(gateuf=True, dispose=False, runs=runs)
    if fail:
        kw.update(uf_raise=True, raises=1)
    out = []
    for n in names:
        if n.split("(")[0].endswith("_async"):
            out.append(J(n, cats, depth=7, tdepth=9, **kw))
            out.append(J(n, cats, depth=6, tdepth=8, sink="slow", **kw))
            out.append(J(n, cats, depth=2, tdepth=3, bursts=2, **kw))
    return out


LONG = 1100


def long(names, cats, n=LONG):
    """One history far longer than any bound of the implementation (counters, recursion, buffers)."""
    out = []
    for x in names:
        if x.startswith(("take(", "zip_seq(")) or x in SEQS_:
            continue
        v = ("r", "n", "S")
        if x in FLAT:
            cyc, k = (v, ("r", "n", "I"), ("r", "c", "I")), n // 2
        elif x in COMBINE:
            cyc, k = (v, ("r", "n", "O")), n // 2
        elif x in TIME:
            cyc, k = (v, ("tick", 1.0), ("tick", 1.0)), n // 2
        else:
            cyc, k = (v,), 450 if x in SCAN + REDUCE else n
        out.append(J(x, cats, depth=0, tdepth=0, prefix=cyc * k, linear=True, dispose=False, tag=f" {k} rounds"))
    return out


def many(name, cats, n=40):
    """Many given sequences."""
    i, d = ("r", "n", "I"), ("r", "c", "I")
    return [J(ops.seqs_op(name, n), cats, depth=0, tdepth=0, prefix=(i, i, d) * n, linear=True, dispose=False, max_inner=n + 1, tag="")]


def waiting(names, cats, n=270):
    """Many inner sequences at once: most of them wait, then they run one after another."""
    v, i, d, c = ("r", "n", "S"), ("r", "n", "I"), ("r", "c", "I"), (("r", "c", "S"),)
    out = []
    for x in names:
        if not isinstance(x, str) or x not in SEQS_:
            for tag, pre in (("", (v,) * n + (i, i, d) * n + c), (", source ended", (v,) * n + c + (i, d) * n)):
                out.append(J(x, cats, depth=0, tdepth=0, prefix=pre, linear=True, dispose=False, max_inner=n + 1, tag=f" {n} at once{tag}"))
    return out


def steady(names, cats, n=30, runs=100):
    """Events close together after a long history, with an observer that is slow."""
    out = []
    for x in names:
        if x.startswith(("take(", "zip_seq(")) or x in SEQS_ or x in TIME:
            continue
        v = ("r", "n", "S")
        if x in FLAT:
            pre, cyc = (v,), (("r", "n", "I"), ("ready",))
        else:
            pre, cyc = (), (v, ("ready",)) + ((("r", "n", "O"), ("ready",)) if x in COMBINE else ())
        out.append(J(x, cats, depth=2, tdepth=2, prefix=pre + cyc * n, sink="slow", dispose=False, linear=True, runs=runs, tag=f" after {n} rounds"))
    return out


def alike(names, cats, runs=300):
    """All elements are one and the same object."""
    return [J(n, cats, same_elem=True, depth=5, tdepth=7, runs=runs) for n in names]


def history(o, cats, cyc, k, prelude=(), close=False, **opts):
    return J(o, cats, depth=0, tdepth=0, prefix=tuple(prelude) + tuple(cyc) * k + ((("r", "c", "S"),) if close else ()), linear=True, budget=40_000, max_steps=4_000_000, tag=f" {k} rounds", **opts)


# delays from none to more than a day, with the step of the clock
SPANS = [(0, 1.0), (0.0005, 0.0005), (2.0**-6, 2.0**-7), (0.25, 0.25), (1, 1.0), (2, 0.5), (90, 60.0), (100000.5, 60000.25)]
V = {"values", "calls", "grammar", "missing", "late_n", "late_e", "late_c", "single", "isolation"}
PROPS = {}


def prop(pid):
    def deco(f):
        PROPS[pid] = f
        return f
    return deco


@prop("C01")
def c01():
    g = {"grammar", "overlap", "late_n", "late_e", "late_c"}
    out = []
    for n in GUARDED:
        out.append(J(n, g, ill=True, sink="slow", slow_term=True, spec=specs.AnyOutput, depth=5, runs=700))
        out.append(J(n, g, sink="slow", slow_term=True, spec=specs.AnyOutput, bursts=2, depth=2, tdepth=3, runs=700))
        out.append(J(n, g | {"error", "values", "complete", "lost"}, sink="raise", raises=1, depth=7, runs=700))
        out.append(J(n, g | {"error", "values", "complete", "lost"}, sink="raise", raises=1, depth=2, bursts=2, tdepth=3, runs=500))
    gf = g | {"error", "values", "complete", "lost"}
    for n in ("from_iterable(3 items)", "from_iterable(iterable)", "single", "from_async"):
        out.append(J(FACT[n], gf, sink="slow", slow_term=True))
        out.append(J(FACT[n], gf, sink="slow", slow_term=True, bursts=2, depth=2, tdepth=3))
        out.append(J(FACT[n], gf, sink="raise", raises=1))
        out.append(J(FACT[n], gf, sink="raise", raises=1, bursts=2, depth=2, tdepth=3))
    out += steady(GUARDED, gf)
    for n in GUARDED:
        out.append(J(n, g, sink="raise_term", raises=1, depth=5, runs=300))
    for n in GUARDED:
        if n in TWO:
            out.append(J(n, g, gatesub=True, sink="slow", slow_term=True, spec=specs.AnyOutput, depth=5, runs=300))
    for s in [(1, 3, None), (None, -1, None), (-2, None, None), (None, None, 2), (None, 0, None)]:
        out.append(J(ops.slice_op(*s), g, ill=True, sink="slow", slow_term=True, spec=specs.AnyOutput, depth=5, runs=500))
    return out


@prop("C02")
def c02():
    out = std(GUARDED, {"release_term"}, raise_=True, slowsub=True, runs=500)
    for n in GUARDED:
        out.append(J(n, {"release_term"}, sink="raise_term", raises=1, depth=5, runs=300))
    return out


@prop("C03")
def c03():
    c = {"release_dispose", "late"}
    out = std(list(ALL), c, slowsub=True, runs=350)
    for n in ALL:
        out.append(J(n, c, sink="dispose", depth=6, runs=400))
    for n in FACT:
        out += [J(FACT[n], c), J(FACT[n], c, sink="dispose"), J(FACT[n], c, sink="slow", bursts=2, depth=2, tdepth=3), J(FACT[n], c, bursts=3, depth=2, tdepth=3)]
    for n in TIMERS:
        out += [J(TIMERS[n], c, depth=5, runs=600), J(TIMERS[n], c, sink="dispose", depth=6, runs=600), J(TIMERS[n], c, depth=2, bursts=2, tdepth=3)]
    for n in extras.PASS:
        out.append(J(extras.PASS[n], c, runs=300))
    return out


@prop("C04")
def c04():
    c = {"error", "late_e"}
    return std(list(ALL), c, runs=400) + [J(x, c, runs=300) for x in extras.PASS.values()]


@prop("C05")
def c05():
    c = {"complete", "late_c"}
    return std(list(ALL), c, runs=400) + [J(x, c, runs=300) for x in extras.PASS.values()]


@prop("C06")
def c06():
    out = []
    for n in UFS:
        out.append(J(n, {"lost", "values", "error", "complete", "grammar"}, uf_raise=True, raises=1, runs=800))
        out.append(J(n, {"lost", "values", "error", "complete", "grammar"}, uf_raise=True, raises=1, sink="slow", runs=800))
    c = {"lost", "values", "error", "complete", "grammar"}
    for n in UFS:
        out.append(J(n, c, uf_raise=True, raises=1, bursts=2, depth=2, tdepth=3, runs=400))
        out.append(J(n, c, uf_raise=True, raises=1, eager=2, depth=4, runs=300))
    out += pending(UFS, c, fail=True)
    for kw in (dict(), dict(sink="slow"), dict(bursts=2, depth=2, tdepth=3), dict(eager=2, depth=4)):
        out.append(J("zip_seq(iterable)", c, runs=500, **kw))
        out.append(J("distinct_until_changed", c, eq_raise=True, raises=1, runs=500, **kw))
    for n in ("from_iterable(iterable)", "from_async_iterable", "from_async", "defer"):
        for form in FACT[n].forms():
            out.append(J(FACT[n], c, form=form, uf_raise=True, raises=1))
            out.append(J(FACT[n], c, form=form, uf_raise=True, raises=1, sink="slow"))
    return out


@prop("C07")
def c07():
    out = []
    for n in ALL:
        out.append(J(n, {"isolation"}, nsubs=2, depth=6, runs=900, truns=12000, tdepth=9))
    for n in FACT:
        if n not in ("from_async", "from_async_iterable(2 items)"):
            out.append(J(FACT[n], {"isolation"}, nsubs=2, depth=6, runs=900))
            out.append(J(FACT[n], {"isolation"}, nsubs=2, sink="slow", depth=6, runs=900))
            out.append(J(FACT[n], {"isolation"}, nsubs=2, bursts=3, depth=2, tdepth=3, runs=900))
    for n in ALL:
        out.append(J(n, {"isolation"}, nsubs=2, sink="slow", depth=5, runs=400, truns=12000, tdepth=7))
    for n in [n for n in ALL if n in TWO]:
        out.append(J(n, {"isolation"}, nsubs=2, gatesub=True, depth=5, runs=250, truns=6000, tdepth=7))
    for n in TIMERS:
        out.append(J(TIMERS[n], {"isolation"}, nsubs=2, depth=5, runs=600))
        out.append(J(TIMERS[n], {"isolation"}, nsubs=2, sink="slow", depth=5, runs=600))
    for n in extras.PASS:
        out.append(J(extras.PASS[n], {"isolation"}, nsubs=2, depth=4, runs=300))
    return out


@prop("C08")
def c08():
    return std(ELEMENT, V) + [J(n, V, uf_raise=True, raises=1) for n in ELEMENT] + long(ELEMENT, V) + alike(ELEMENT, V) + pending(ELEMENT, V)


@prop("C09")
def c09():
    cats = V | {"complete", "error"}
    out = std(COUNT, cats, slow=False, bursts=False, depth=8)
    out += [J(n, cats, sink="slow", depth=8) for n in COUNT]
    for n in (5, 8, 21):
        for o in ("take", "skip", "take_last", "skip_last"):
            out.append(J(ops.count_op(o, n), cats, errors=False, dispose=False, depth=2 * n + 3, runs=2000))
        for a in ((n, None, None), (None, n, None), (-n, None, None), (None, -n, None), (n - 3, n, 2), (1, 2 * n, n)):
            out.append(J(ops.slice_op(*a), cats, form="chain", errors=False, dispose=False, depth=2 * n + 3, runs=2000))
    out += long(COUNT, cats) + alike(COUNT, cats)
    for n in (130, LONG):
        for o in ("take", "skip", "take_last", "skip_last"):
            out.append(history(ops.count_op(o, n), cats, (("r", "n", "S"),), n + 30, close=o != "take", dispose=False))
        for a in ((n, None, None), (None, n, None), (-n, None, None), (None, -n, None), (None, None, n), (n - 9, None, 4), (-n, -3, 7)):
            out.append(history(ops.slice_op(*a), cats, (("r", "n", "S"),), n + 30, close=a[1] != n, dispose=False))
    for n in (0, 1, 2, 3, 7):
        out.append(J(ops.index_op(n), cats, form="chain", depth=n + 4, runs=500))
    for s in SLICES:
        out.append(J(ops.slice_op(*s), cats, depth=9, runs=900))
        out.append(J(ops.slice_op(*s), cats, form="chain", depth=7, runs=500))
    return out


@prop("C10")
def c10():
    cats = V | {"complete"}
    return std(INDEXED, cats) + [J(n, cats, nsubs=2, depth=5, runs=700) for n in INDEXED] + long(INDEXED, cats) + alike(INDEXED, cats) + pending(INDEXED, cats)


@prop("C11")
def c11():
    c = V | {"complete", "error"}
    return std(["distinct_until_changed"], c, depth=10) + [J("distinct_until_changed", c, eq_raise=True, raises=1)] + long(["distinct_until_changed"], c) + alike(["distinct_until_changed"], c)


@prop("C12")
def c12():
    c = V | {"complete", "error", "release_term", "lost"}
    names = SCAN + REDUCE
    return std(names, c) + [J(n, c, uf_raise=True, raises=1, sink=s) for n in names for s in ("ok", "slow")] + \
        [J(n, c, uf_raise=True, raises=1, conc=2, sink="slow", slow_term=True, depth=5, tdepth=7, runs=500) for n in names] + long(names, c) + alike(names, c) + pending(names, c)


@prop("C13")
def c13():
    c = V | {"complete", "subs"}
    return std(MERGE, c, slowsub=True, runs=900) + deep(MERGE, c) + reuse(MERGE, c) + long(MERGE, c) + alike(MERGE, c) + waiting(MERGE + [ops.merge_op(3)], c) + many("merge_seq", c) + \
        pending(MERGE, c, runs=400) + [J(ops.merge_default(), c, form=f, depth=5, tdepth=7, runs=900) for f in ops.merge_default().forms()]


@prop("C14")
def c14():
    c = V | {"complete", "error", "subs"}
    return std(CONCAT, c, slowsub=True, runs=900) + deep(CONCAT, c) + reuse(CONCAT, c) + long(CONCAT, c) + alike(CONCAT, c) + waiting(CONCAT, c) + many("concat_seq", c)


@prop("C15")
def c15():
    c = V | {"complete", "error", "subs", "release_switch"}
    return std(SWITCH, c, slowsub=True, runs=1200) + deep(SWITCH, c) + reuse(SWITCH, c) + long(SWITCH, c) + alike(SWITCH, c) + pending(SWITCH, c)


@prop("C16")
def c16():
    c = V | {"complete", "error"}
    return std(COMBINE, c, slowsub=True) + long(COMBINE, c) + alike(COMBINE, c)


@prop("C17")
def c17():
    c = V | {"complete", "error", "release_term"}
    return std(["take_until"], c, slowsub=True, raise_=True) + long(["take_until"], c) + alike(["take_until"], c)


@prop("C18")
def c18():
    return std(ERR, V | {"complete", "error", "subs", "release_failed", "lost"}, slowsub=True) + \
        [J("catch", V | {"error", "lost"}, uf_raise=True, raises=1)] + long(ERR, V) + alike(ERR, V) + \
        [history(ops.retry_op(40), V | {"error", "subs"}, (("r", "n", "S"), ("r", "e", "S")), 41, dispose=False)] + reuse(["catch"], V)


@prop("C19")
def c19():
    c = V | {"complete", "error", "lost", "subs", "stuck"}
    out = []
    for n, f in FACT.items():
        for form in f.forms():
            out.append(J(f, c, form=form))
            out.append(J(f, c, form=form, sink="slow"))
            out.append(J(f, c, form=form, sink="tick"))
        out.append(J(f, c, uf_raise=True, raises=1))
        out.append(J(f, c, bursts=3, depth=2, tdepth=3))
        if n not in ("from_async", "from_async_iterable(2 items)"):
            out.append(J(f, c, nsubs=2, depth=6, runs=900))
    for a in (False, True):
        out.append(history(special.long_seq(LONG, a), c, (), 1, dispose=False))
    for e in (0, 1):
        for form in FACT["create"].forms():
            out.append(J(FACT["create"], c, form=form, eager=e, slowsub=True))
    return out


@prop("C20")
def c20():
    c = V | {"complete", "error", "timing", "timers", "late", "release_dispose"}
    out = []
    for n, f in TIMERS.items():
        for form in f.forms():
            out.append(J(f, c, form=form, depth=6, runs=1500))
        out.append(J(f, c, sink="slow", depth=6, runs=1500))
        out.append(J(f, c, sink="dispose", depth=6, runs=1500))
        out.append(J(f, c, bursts=3, depth=3, tdepth=4, runs=1500))
        out.append(J(f, c, nsubs=2, depth=5, runs=600))
    out.append(history(TIMERS["interval(0.5,1.0)"], c, (("tick", 1.0),), LONG, dispose=False))
    return out


@prop("C21")
def c21():
    c = V | {"order", "disposed", "complete", "error", "late", "stuck", "isolation"}
    s = SUBJ["AsyncSubject"]
    return [J(s, c, depth=6, tdepth=9, runs=4000), J(s, c, nsubs=3, depth=5, tdepth=7, runs=4000),
            J(s, c, sink="slow", depth=6, tdepth=8, runs=4000), J(s, c, sink="slow", slow_term=True, nsubs=3, depth=5, tdepth=7, runs=4000),
            J(s, c, eq_sinks=True, nsubs=3, depth=5, tdepth=7, runs=2000),
            J(s, c, bursts=3, depth=3, tdepth=4, runs=4000), J(s, c, bursts=3, nsubs=3, depth=3, tdepth=4, runs=4000),
            J(s, c, sink="slow", bursts=2, depth=3, tdepth=4, runs=4000), J(s, c, sink="tick", bursts=4, depth=3, tdepth=4, runs=4000),
            J(s, c, form=None, nsubs=1, depth=8, runs=3000), J(s, c, sink="dispose", nsubs=3, depth=5, tdepth=7, runs=3000)] + [
            J(s, c, sink="slow", slow_term=True, conc=n, nsubs=k, mon_class=special.ConcMon, depth=6, tdepth=8, runs=3000)
            for n, k in ((2, 1), (2, 2), (3, 1))] + [history(s, c, (("n",),), LONG, prelude=(("sub",), ("sub",)), nsubs=2),
            J(s, c, depth=0, tdepth=0, linear=True, nsubs=41, tag=" 40 observers", prefix=(("sub",),) * 40 + (
                ("n",), ("dispose", 20), ("n",), ("dispose", 0), ("dispose", 39), ("n",), ("sub",), ("n",), ("c",)))]


@prop("C22")
def c22():
    c = V | {"order", "disposed", "complete", "error", "late", "stuck", "backpressure", "grammar", "overlap"}
    s = SUBJ["AsyncSingleSubject"]
    return [J(s, c, depth=8, tdepth=11, runs=4000), J(s, c, sink="slow", max_prods=1, depth=8, tdepth=11, runs=4000),
            J(s, c, sink="slow", slow_term=True, max_prods=1, bursts=2, depth=3, tdepth=4, runs=4000),
            J(s, c, sink="raise", raises=1, max_prods=1, depth=7, runs=4000),
            J(s, c, bursts=4, depth=3, tdepth=4, runs=6000), J(s, c, max_prods=3, depth=6, runs=3000),
            J(s, c, quit=2, max_prods=3, depth=6, runs=2000), J(s, c, quit=1, bursts=4, depth=3, tdepth=4, runs=4000),
            J(s, c, bursts=2, max_prods=3, depth=3, tdepth=4, runs=4000), J(s, c, sink="dispose", depth=7, runs=3000)] + [
            J(s, c, sink="slow", slow_term=True, conc=n, mon_class=special.ConcMon, depth=7, tdepth=9, runs=3000) for n in (2, 3)] + [
            history(s, c, (("n",),), LONG, prelude=(("sub",),))]


@prop("C23")
def c23():
    c = V | {"stuck", "backpressure", "subs", "release_dispose", "error", "complete"}
    out = []
    for n, f in ITERS.items():
        out += [J(f, c, depth=10), J(f, c, bursts=4, depth=5, tdepth=9, runs=2500), J(f, c, max_prods=4, bursts=1, depth=6, tdepth=9, runs=1500),
                J(f, c, slowsub=True, bursts=3, depth=5, tdepth=9, runs=1500), J(f, c, eager=1, depth=6),
                J(f, c, give_up=2, depth=8, runs=2000), J(f, c, give_up=1, bursts=4, depth=4, tdepth=6, runs=2500),
                J(f, c, quit=2, depth=8, runs=2000), J(f, c, quit=1, bursts=4, depth=4, tdepth=6, runs=2500),
                J(f, c, quit=1, give_up=1, depth=7, runs=1500),
                *([] if n == "AsyncIteratorObserver" else [J(f, c, twice=True, depth=9, runs=2000)]),
                history(f, c, (("pull",), ("n",)), 400), history(f, c, (("n",), ("pull",)), 400, prelude=(("pull",), ("n",)))]
    return out


@prop("C24")
def c24():
    c = V | {"error", "complete", "timing", "release_term", "release_dispose", "subs", "stuck"}
    out = []
    for n, f in AWAIT.items():
        for form in f.forms():
            out += [J(f, c, form=form, depth=7, runs=2500)]
            if n.startswith("run"):
                out += [J(f, c, form=form, eager=2, depth=5, runs=1500), J(f, c, form=form, slowsub=True, eager=1, depth=5, runs=1500)]
            else:
                out += [J(f, c, form=form, after=3, depth=7, runs=2500), J(f, c, form=form, give_up=True, after=3, depth=7, runs=2500)]
                if f.name == "AsyncAwaitableObserver":
                    out += [J(f, c, form=form, slowcb=True, after=2, depth=7, runs=2500), J(f, c, form=form, slowcb="term", after=2, depth=7, runs=2500)]
    return out


@prop("C25")
def c25():
    c = V | {"complete", "error", "timing", "late"}
    return [J("delay", c, depth=7, tdepth=10, runs=3000), J("delay", c, depth=6, tdepth=9, sink="slow", runs=2000),
            J("delay", c, depth=2, tdepth=3, bursts=2, runs=2000)] + long(["delay"], c) + alike(["delay"], c) + \
        [J(ops.time_op("delay", t, d), c, depth=6, tdepth=9, runs=1500) for t, d in SPANS] + \
        [J("delay", c, sink="dispose", depth=6, runs=1500), J("delay", c, nsubs=2, depth=5, runs=1500)]


@prop("C26")
def c26():
    c = V | {"complete", "error", "timing", "late"}
    return [J("debounce", c, depth=7, tdepth=10, runs=3000), J("debounce", c, depth=6, tdepth=9, sink="slow", runs=2000),
            J("debounce", c, depth=2, tdepth=3, bursts=2, runs=2000)] + long(["debounce"], c) + alike(["debounce"], c) + \
        [J(ops.time_op("debounce", t, d), c, depth=6, tdepth=9, runs=1500) for t, d in SPANS] + \
        [J("debounce", c, sink="dispose", depth=6, runs=1500), J("debounce", c, nsubs=2, depth=5, runs=1500)]


@prop("C27")
def c27():
    """Every facade form against the transducer of the operator of that name."""
    c = V | {"complete", "error", "subs", "timing", "lost", "release_term", "release_dispose", "late", "grammar", "overlap"}
    out = []
    for t in (ALL, FACT, TIMERS, extras.PASS):
        for n, o in t.items():
            for form in o.forms():
                out.append(J(o, c, form=form, depth=4, tdepth=7, runs=250))
    for n, o in ALL.items():
        if n in UFS:
            for form in o.forms():
                out.append(J(o, c, form=form, uf_raise=True, raises=1, depth=4, tdepth=7, runs=250))
    for f in ops.merge_default().forms():
        out.append(J(ops.merge_default(), c, form=f, depth=4, tdepth=7, runs=400))
    for a in SLICES:
        out.append(J(ops.slice_op(*a), c, form="chain", depth=5, tdepth=8, runs=300))
    for i in (0, 1, 2):
        out.append(J(ops.index_op(i), c, form="chain", depth=5, tdepth=8, runs=300))
    for i in (5, 130):
        out.append(J(ops.index_op(i), c, form="chain", depth=0, tdepth=0, prefix=(("r", "n", "S"),) * (i + 2), linear=True, dispose=False, tag=""))
    out += reuse(list(ops.SEQS), c, runs=250)
    return out


@prop("C28")
def c28():
    f = extras.VLOOP["VirtualTimeEventLoop"]
    c = {"clock", "order", "missing"}
    return [J(f, c, depth=4, tdepth=5, runs=9000, truns=150000), J(f, c, acts=0, depth=5, tdepth=6, runs=6000, truns=60000),
            J(f, c, acts=2, depth=3, tdepth=5, runs=5000, truns=60000), J(f, c, debug=True, depth=3, tdepth=4, runs=4000),
            J(f, c, many=True, depth=3, tdepth=4, runs=2000)]


@prop("C29")
def c29():
    c = {"backpressure", "lost"}
    out = []
    for n in ELEMENT + SCAN + ERR:
        for kw in (dict(sink="slow"), dict(sink="slow", slow_term=True), dict(sink="raise", raises=1), dict(sink="tick")):
            out.append(J(n, c, depth=8, runs=900, **kw))
        out.append(J(n, c, sink="slow", bursts=2, depth=2, tdepth=3, runs=500))
        out.append(J(n, c, sink="slow", eager=2, depth=4, runs=500))
        out.append(J(n, c, sink="raise_term", raises=1, depth=6, runs=300))
    for n, f in SUBJ.items():
        kw = dict(max_prods=1) if n == "AsyncSingleSubject" else {}
        out += [J(f, c, sink="slow", slow_term=True, depth=6, runs=2500, **kw), J(f, c, sink="raise", raises=2, depth=6, runs=2500, **kw),
                J(f, c, sink="raise_term", raises=2, depth=6, runs=1500, **kw),
                J(f, c, sink="tick", depth=6, runs=1500, **kw), J(f, c, sink="slow", bursts=2, depth=2, tdepth=3, runs=1500, **kw)]
    for f in extras.PASS.values():
        out += [J(f, c, sink="slow", depth=5, runs=300), J(f, c, sink="raise", raises=1, depth=5, runs=300)]
    for form in FACT["create"].forms():
        out += [J(FACT["create"], c, form=form, sink="slow", depth=5, runs=300), J(FACT["create"], c, form=form, sink="raise", raises=1, depth=5, runs=300)]
    return out


@prop("C30")
def c30():
    return [J(extras.NOTES["Notification"], {"values", "lost"}, depth=3)]


@prop("C31")
def c31():
    c = V | {"timing", "complete", "error", "late"}
    t = extras.TESTING
    out = [J(t["AsyncTestObserver"], c, depth=5), J(t["AsyncTestObserver()"], c, depth=8),
           J(t["AsyncTestObserver"], c, slowcb=True, depth=7, runs=2500)]
    for n in ("AsyncTestSubject", "AsyncTestSingleSubject"):
        out += [J(t[n], c, depth=5, tdepth=7, runs=3000), J(t[n], c, cap=2, bursts=1, depth=4, runs=2000)]
    return out


@prop("C32")
def c32():
    c = V | {"complete", "error", "release_dispose", "release_term", "late", "subs", "stuck"}
    f = extras.BRIDGE["to_observable"]
    return [J(f, c), J(f, c, bursts=4, depth=4), J(f, c, bursts=4, slowsub=True, depth=4), J(f, c, nsubs=2, bursts=2, depth=4, runs=2500), J(f, c, nsubs=2, slowsub=True, bursts=2, depth=4, runs=2500),
            J(f, c, eager=2, depth=5), J(f, c, eager=1, slowsub=True, bursts=3, depth=4), J(f, c, gatesub=True, bursts=3, depth=4),
            J(f, c, nsubs=2, gatesub=True, depth=6, runs=2500)]


@prop("C33")
def c33():
    c = V | {"complete", "error", "late", "release_dispose", "release_term", "lost", "backpressure"}
    out = []
    masks = ["nec", "ne", "nc", "ec", "n", "e", "c", ""]
    for f in [*extras.PASS.values(), FACT["create"], FACT["from_iterable(3 items)"], FACT["single"], FACT["empty"], FACT["fail"]]:
        for fm in f.forms():
            if f.name == "subscribe_async":
                continue
            for mk in masks:
                out.append(J(f, c, form=fm, via="functions", mask=mk, depth=6, runs=300))
            out.append(J(f, c, form=fm, via="functions", sink="slow", depth=5, runs=300))
            out.append(J(f, c, form=fm, via="functions", sink="raise", raises=1, depth=5, runs=300))
    for n in ("map", "filter", "scan", "take(2)", "skip(1)", "merge", "flat_map", "switch_latest", "combine_latest", "distinct_until_changed",
              "debounce", "delay", "catch", "take_until"):
        for fm in ALL[n].forms():
            for mk in ("nec", "n", "ec"):
                out.append(J(n, c, form=fm, via="functions", mask=mk, depth=5, runs=250))
    for n, f in SUBJ.items():
        for mk in masks:
            out.append(J(f, c | {"disposed", "order"}, via="functions", mask=mk, nsubs=1, depth=5, runs=800))
        out.append(J(f, c, via="functions", depth=5, runs=1500))
    return out


def jobs(pid, thorough=False):
    out = PROPS[pid]()
    if not thorough:
        out = [j for j in out if not j.thorough_only]
    return out


@prop("C36")
def c36():
    """Subscribing to any source or inner sequence may fail, once."""
    c = {"lost", "leak", "release_term", "grammar", "overlap"}
    out = []
    for n, o in ALL.items():
        kw = dict(sub_fail=True, raises=1, spec=specs.refused(o.spec))
        out.append(J(o, c, depth=6, tdepth=9, runs=300, **kw))
        if n in TWO:
            out.append(J(o, c, depth=6, tdepth=9, runs=500, sink="slow", **kw))
            out.append(J(o, c, depth=2, tdepth=3, bursts=3, runs=400, **kw))
            out.append(J(o, c, depth=5, tdepth=7, slowsub=True, runs=500, **kw))
            out.append(J(o, c, depth=2, tdepth=3, bursts=2, slowsub=True, runs=500, **kw))
            out.append(J(o, c, depth=6, tdepth=8, gatesub=True, runs=500, **kw))
        out.append(J(o, c, depth=4, tdepth=6, eager=1, runs=300, **kw))
    for f in [FACT["defer"], *extras.BRIDGE.values()]:
        kw = dict(sub_fail=True, raises=1, spec=specs.refused(f.spec))
        for fm in f.forms():
            out += [J(f, c, form=fm, depth=5, tdepth=8, runs=300, slowsub=s, **kw) for s in (False, True)]
    for f in [*ITERS.values(), AWAIT["run"], AWAIT["run(observer,3)"]]:
        out += [J(f, c, depth=5, tdepth=8, runs=300, slowsub=s, sub_fail=True, raises=1) for s in (False, True)]
    return out
