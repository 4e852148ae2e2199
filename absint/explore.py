"""Worklist exploration of the abstract states of one component.

A state is represented by the sequence of environment events and the outcomes
of the undetermined facts that lead to it (coroutine states cannot be copied,
so a state is re-established by re-interpreting that sequence); it is
identified by its canonical form (heap.py).
"""
from __future__ import annotations

import gc
import sys
import time
import traceback
import warnings
from collections import deque

from . import aio, core, heap, interp, models
from .core import Diverged, EngineSignal, Inconclusive, PathCut

warnings.filterwarnings("ignore", category=RuntimeWarning)

REPO_ROOT = "/repo"


class ProgramCache:
    """The parsed and loaded program; reloaded per path when it keeps module state."""

    def __init__(self, root):
        self.root = root
        self.stateful = False
        self.prog = None
        self.fp0 = None
        self.snap = None
        self.lost = 0

    def get(self):
        if self.prog is None or self.stateful and not self.restore():
            self.load()
        return self.prog

    def restore(self):
        """Put the state of the modules back; False if that does not give the initial state."""
        if self.snap is None or self.lost > 20:
            return False
        self.snap.restore()
        if heap.module_state(self.prog) == self.fp0:
            return True
        self.lost += 1
        return False

    def load(self):
        r = core.RUN
        boot = core.Run()
        boot.loop = aio.Loop()
        core.set_run(boot)
        p = interp.Program(self.root, models=models.build_all())
        for m in MODULES:
            if p.find("aioreactive." + m) or m == "":
                p.load("aioreactive" + ("." + m if m else ""))
        self.prog = p
        self.boot = boot
        self.fp0 = heap.module_state(p)
        self.snap = heap.Snapshot(p)
        core.set_run(r)

    def after_run(self):
        if not self.stateful and heap.module_state(self.prog) != self.fp0:
            self.stateful = True
            return True
        return False


MODULES = ["", "types", "notification", "msg", "utils", "observers", "observables", "subject", "create", "combine",
           "transform", "filtering", "timeshift", "leave", "subscription", "iterable", "iterable.to_async_observable",
           "testing", "testing.observer", "testing.subject", "testing.utils", "testing.virtual_events"]


class Result:
    def __init__(self, name):
        self.name = name
        self.states = 0
        self.transitions = 0
        self.paths = 0
        self.steps = 0
        self.inconclusive = {}
        self.violations = []
        self.known = []
        self.closed = False
        self.bounded_by = None
        self.max_depth = 0
        self.functions = set()
        self.samples = []
        self.facts = 0
        self.wall = 0.0
        self.cut = 0

    def export(self):
        d = dict(self.__dict__)
        d["functions"] = sorted(self.functions)
        return d


def fn_name(node, prog_files):
    return node


def in_program(e):
    """Was it raised by the analysed code (as opposed to the analysis itself)?"""
    t = e.__traceback__
    while t is not None:
        if t.tb_frame.f_code.co_filename.startswith("absint/evaluator"):
            return True
        t = t.tb_next
    return False


class Explorer:
    def __init__(self, comp, cache, cats, max_states=4000, max_depth=12, time_limit=60.0, max_runs=20000, known=None):
        self.known = known or (lambda v: False)
        self.comp = comp
        self.cache = cache
        self.cats = cats
        self.max_states = max_states
        self.max_depth = max_depth
        self.time_limit = time_limit
        self.max_runs = max_runs
        self.res = Result(comp.name)

    def run_path(self, events, decisions, check_from):
        """Re-establish a state.  Returns (world, run, status)."""
        prog = self.cache.get()
        comp = self.comp
        r = core.Run(decisions, max_steps=comp.max_steps, fork_limit=100_000 if comp.linear else 400)
        r.loop = aio.Loop()
        aio.OWNER[0] = None
        core.set_run(r)
        w = comp.world(prog, r)
        w.cats = self.cats
        status = "ok"
        i = -1
        try:
            comp.start(w)
            r.loop.drain(comp.budget)
            comp.check(w)
            for i, e in enumerate(events):
                if w.violations:
                    break
                w.note(f"event {comp.show_event(w, e)}")
                w.mark = len(w.log)
                r.entered.clear()
                comp.apply(w, e)
                r.loop.drain(comp.budget)
                comp.check(w)
        except PathCut:
            status = "cut"
        except Inconclusive as e:
            status = "inconclusive"
            w.why = str(e)
        except Diverged as e:
            w.violate(("hang",), f"no quiescence: {e}")
        except RecursionError:
            status = "inconclusive"
            w.why = "host recursion limit"
        except (KeyboardInterrupt, MemoryError):
            raise
        except Exception as e:
            if in_program(e):
                w.violate(("crash",), f"{'putting the sequence together' if i < 0 else 'the last event'} failed with {type(e).__name__}: {e}")
            else:
                status = "inconclusive"
                w.why = "analysis error: " + "".join(traceback.format_exception(e)[-3:])[-600:]
        w.at_event = i
        return w, r, status

    def key(self, w, r):
        c = heap.Canon(base=w.base(), now=r.loop._now)
        c.rel = self.comp.rel(w)
        for x in self.comp.roots(w):
            c.go(x)
        c.go(r.loop)
        if self.cache.stateful:
            return c.key(), heap.module_state(self.cache.prog)
        return c.key()

    def explore(self):
        res = self.res
        t0 = time.time()
        seen = set()
        queue = deque()
        # initial states
        pending = [(tuple(self.comp.prefix), ())]      # (events, decisions of the accepted prefix)
        stop = False
        while pending or queue:
            if stop:
                break
            if not pending:
                events, dec, evs = queue.popleft()
                if len(events) - len(self.comp.prefix) >= (self.max_depth if self.comp.max_depth is None else self.comp.max_depth):
                    res.bounded_by = res.bounded_by or "depth"
                    continue
                for e in evs:
                    pending.append((events + (e,), dec))
                continue
            events, dec = pending.pop()
            if res.paths >= self.max_runs:
                res.bounded_by = "paths"
                break
            if time.time() - t0 > self.time_limit:
                res.bounded_by = "time"
                break
            w, r, status = self.run_path(events, dec, 0)
            res.paths += 1
            res.steps += r.steps
            res.facts += max(0, len(r.trace) - len(dec))
            for n in r.touched:
                res.functions.add(f"{n[0]}:{n[1]}")
            # alternatives of the undetermined facts met in the last event
            tr = r.trace
            for j in range(len(tr) - 1, len(dec) - 1, -1) if not self.comp.linear else ():
                c, n, _ = tr[j]
                if j >= len(dec):
                    pre = tuple(x[0] for x in tr[:j])
                    for alt in range(c + 1, n):
                        pending.append((events, pre + (alt,)))
            if self.cache.after_run():
                # module-level state: restart with a fresh program per path
                return self.restart()
            if status == "inconclusive":
                res.inconclusive[w.why] = res.inconclusive.get(w.why, 0) + 1
                continue
            if status == "cut":
                res.cut += 1
                continue
            res.transitions += 1
            bad = [v for v in w.violations if self.cats is None or self.cats & set(v["cats"])]
            if bad:
                v = bad[0]
                v = dict(
                    component=self.comp.name, entry=self.comp.entry, cats=sorted(set(v["cats"]) if self.cats is None else self.cats & set(v["cats"])),
                    message=v["msg"], site=v["site"], events=[self.comp.show_event(w, e) for e in events],
                    facts=[f"{x[2]} -> {x[0]}" for x in tr], log=w.log[-60:],
                    functions=v["functions"])
                if self.known(v):
                    res.known.append(v)
                    continue
                res.violations.append(v)
                stop = True
                break
            if w.violations:
                continue        # another property's concern; do not go on from a broken state
            k = self.key(w, r)
            if k in seen:
                continue
            seen.add(k)
            res.max_depth = max(res.max_depth, len(events))
            if len(res.samples) < 2 and len(events) >= 2:
                res.samples.append(dict(events=[self.comp.show_event(w, e) for e in events], log=w.log[-12:]))
            if len(seen) >= self.max_states:
                res.bounded_by = "states"
                break
            evs = self.comp.events(w)
            if evs:
                queue.append((events, tuple(x[0] for x in tr), evs))
        res.states = len(seen)
        res.closed = not stop and res.bounded_by is None
        res.wall = time.time() - t0
        return res

    def restart(self):
        wall = self.res.wall
        self.res = Result(self.comp.name)
        return self.explore()
