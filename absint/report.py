"""Verdict, replay file and evidence of one run."""
from __future__ import annotations

import json
import os

TRUSTED = [
    "the summaries of asyncio (loop, tasks, futures, locks, handles) and of the `expression` library in absint/aio.py and absint/models.py",
    "the evaluation rules of absint/interp.py agree with CPython for the constructs met (anything else is reported as inconclusive)",
    "elements, results of user functions and exceptions are opaque: the code treats them parametrically except through ==, truth and identity, which are case-split",
]


def load_known(here):
    p = os.path.join(here, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get("findings", [])


def known(k, pid, v):
    """A listed finding: same property, same component, same failing event sequence, same message."""
    return (k.get("property") == pid and v["component"] in k.get("components", [k.get("component")]) and k.get("message") == v["message"]
            and ("events" not in k or k["events"] == v["events"]))


def finish(here, root, pid, thorough, js, res, truncated, wall, level):
    fatal = [r for r in res if "fatal" in r]
    ok = [r for r in res if "fatal" not in r]
    ok.sort(key=lambda r: r["idx"])
    findings = load_known(here)
    bad = []
    seen_known = []
    for r in ok:
        bad += r["violations"]
        for v in r["known"]:
            k = next(k for k in findings if known(k, pid, v))
            if k not in seen_known:
                seen_known.append(k)
    ev = os.path.join(here, "evidence")
    os.makedirs(ev, exist_ok=True)
    inconclusive = {}
    for r in ok:
        for k, n in r["inconclusive"].items():
            inconclusive[k[:300]] = inconclusive.get(k[:300], 0) + n
    fns = sorted({f for r in ok for f in r["functions"]})
    closed = [r for r in ok if r["closed"]]
    samples = [dict(component=r["name"], **s) for r in ok for s in r["samples"][:1]][:4]
    doc = dict(
        property=pid, tier="thorough" if thorough else "quick", seed=int(os.environ.get("VERIF_SEED", "1") or 1), level=level,
        coverage=dict(
            explanation="Abstract interpretation of the source of the operators under their most general client: every client event "
                        "sequence up to the stated depth is followed through the code over opaque elements and user functions, joining "
                        "states that are isomorphic; a component is closed when no new abstract state is reachable (the verdict then "
                        "holds for event sequences of any length within its configuration), otherwise it is bounded by depth or paths.",
            rule=f"violation categories {sorted(set().union(*[set(r['cats']) for r in ok]) if ok else set())}",
            components=len(js), components_analysed=len(ok), components_closed=len(closed),
            components_bounded=len(ok) - len(closed), components_not_reached=truncated,
            abstract_states=sum(r["states"] for r in ok), obligations=sum(r["transitions"] for r in ok),
            abstract_paths=sum(r["paths"] for r in ok), steps=sum(r["steps"] for r in ok),
            undetermined_facts=sum(r["facts"] for r in ok),
            functions_analysed=len(fns), functions=fns,
            entry_points=sorted({r["entry"] for r in ok}),
            inconclusive_paths=sum(inconclusive.values()), inconclusive_reasons=inconclusive,
            per_component=[dict(name=r["name"], states=r["states"], paths=r["paths"], depth=r["max_depth"], closed=r["closed"],
                                bounded_by=r["bounded_by"], inconclusive=sum(r["inconclusive"].values())) for r in ok],
            known_findings=[k["what"] for k in seen_known],
            samples=samples),
        assumptions=TRUSTED, wall_s=round(wall, 2), violations=len(bad))
    if fatal:
        doc["coverage"]["analysis_errors"] = [f["fatal"][-600:] for f in fatal][:3]
    json.dump(doc, open(os.path.join(ev, f"{pid}.json"), "w"), indent=1, default=str)
    for k in seen_known:
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    c = doc["coverage"]
    print(f"{pid}: {c['components_analysed']}/{c['components']} components, {c['components_closed']} closed, "
          f"{c['abstract_states']} states, {c['abstract_paths']} paths, {c['functions_analysed']} functions, "
          f"{c['inconclusive_paths']} inconclusive, {wall:.1f}s")
    if bad:
        v = bad[0]
        path = os.path.join(ev, f"{pid}.violation.json")
        json.dump(dict(property=pid, root=root, violations=bad), open(path, "w"), indent=1, default=str)
        print(f"  {v['entry']} ({v['component']}): {v['message']}")
        print(f"  at {v['site']}")
        print(f"  events: {'; '.join(v['events'])}")
        for l in v["log"][-14:]:
            print("    " + l)
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    if fatal:
        print(fatal[0]["fatal"])
        print(f"{pid}: {len(fatal)} components could not be analysed")
        if len(fatal) >= len(ok):
            return 2
    if not ok or sum(r["paths"] for r in ok) <= sum(inconclusive.values()):
        print(f"{pid}: nothing could be analysed: {list(inconclusive)[:3]}")
        return 2
    return 0
