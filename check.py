#!/usr/bin/env python3
"""python3 check.py <property> [--thorough]

Decides one property of the tree at $AIORX_REPO (default /repo) by abstract
interpretation of its source; see DESIGN.md.
"""
from __future__ import annotations

import argparse
import hashlib
import json
import multiprocessing as mp
import os
import resource
import sys
import threading
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

ROOT = os.environ.get("AIORX_REPO", "/repo")
LEVEL = "other"


def work(args):
    pid, idx, thorough, limit = args
    box = {}

    def body():
        try:
            box["r"] = one(pid, idx, thorough, limit)
        except BaseException as e:      # reported, never hidden
            box["r"] = dict(fatal="".join(traceback.format_exception(e))[-3000:], idx=idx)
    t = threading.Thread(target=body)
    t.start()
    t.join()
    return box["r"]


CACHE = None


def one(pid, idx, thorough, limit):
    global CACHE
    from absint import explore, props, report
    known = report.load_known(HERE)
    if CACHE is None:
        CACHE = explore.ProgramCache(ROOT)
    j = props.jobs(pid, thorough)[idx]
    comp = j.make()
    ex = explore.Explorer(comp, CACHE, set(j.cats), time_limit=limit, max_depth=j.tdepth if thorough else j.depth,
                          max_states=10 ** 6, max_runs=j.truns if thorough else j.runs,
                          known=lambda v: any(report.known(k, pid, v) for k in known))
    r = ex.explore().export()
    r["idx"] = idx
    r["entry"] = comp.entry
    r["cats"] = sorted(j.cats)
    return r


def init():
    sys.setrecursionlimit(100_000)
    threading.stack_size(512 * 1024 * 1024)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--thorough", action="store_true")
    ap.add_argument("--jobs", type=int, default=os.cpu_count() or 4)
    ap.add_argument("--time", type=float, default=None, help="per-component time limit in seconds (safety net)")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--all", action="store_true", help="do not stop at the first violation")
    a = ap.parse_args()
    pid = a.property
    thorough = a.thorough or os.environ.get("VERIF_TIER") == "thorough"
    t0 = time.time()
    init()
    from absint import props
    if pid not in props.PROPS:
        print(f"no check for {pid}")
        return 2
    js = props.jobs(pid, thorough)
    limit = a.time or (600 if thorough else 120)
    overall = 3000 if thorough else 600
    order = sorted(range(len(js)), key=lambda i: -js[i].runs)
    res = []
    truncated = 0
    with mp.get_context("fork").Pool(min(a.jobs, len(js)) or 1, init) as pool:
        it = pool.imap_unordered(work, [(pid, i, thorough, limit) for i in order])
        last = time.time()
        while True:
            try:
                r = it.next(5)
            except StopIteration:
                break
            except mp.TimeoutError:
                # out of time, or a worker was lost (out of memory)
                if time.time() - t0 > overall or time.time() - last > limit + 60:
                    truncated = len(js) - len(res)
                    pool.terminate()
                    break
                continue
            last = time.time()
            res.append(r)
            if a.v:
                if "fatal" in r:
                    print(r["fatal"])
                else:
                    print(f"{r['name']:60} states={r['states']} paths={r['paths']} depth={r['max_depth']} closed={r['closed']} "
                          f"{r['bounded_by'] or ''} t={r['wall']:.2f} inc={sum(r['inconclusive'].values())} viol={len(r['violations'])}", flush=True)
            if "fatal" not in r and r["violations"] and not a.all:
                pool.terminate()
                break
            if time.time() - t0 > overall:
                truncated = len(js) - len(res)
                pool.terminate()
                break
    from absint import report
    return report.finish(HERE, ROOT, pid, thorough, js, res, truncated, time.time() - t0, LEVEL)


if __name__ == "__main__":
    sys.exit(main())
