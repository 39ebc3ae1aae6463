#!/usr/bin/env python3
"""check.py PROPERTY: decide one property on /repo's current source."""
import json
import multiprocessing
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.join(HERE, "analyzer"))
sys.setrecursionlimit(20000)

import build
import registry

_tasks = []


def run_one(i, tier):
    t = _tasks[i]
    try:
        v = t.run(tier)
        return {"name": t.name, "status": v.status, "stats": v.stats, "secs": round(v.secs, 3),
                "bodies": sorted("%s::%s" % b for b in v.bodies),
                "alarms": [(a.kind, a.msg, a.where, a.trace) for a in v.alarms[:3]],
                "undecided": v.undecided[:6], "anchor": v.ob.anchor if v.ob else t.name,
                "bare": getattr(v, "bare", False)}
    except Exception:
        return {"name": t.name, "status": "undecided", "stats": {}, "secs": 0, "bodies": [], "alarms": [],
                "undecided": ["analyser error: " + " / ".join(traceback.format_exc().strip().split("\n")[-3:])], "anchor": t.name}


def run_task(a):
    return a[0], run_one(*a)


BUDGET = {"quick": 600, "thorough": 6000}


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    spec = registry.PROPS[pid]
    with build.Lock():
        try:
            tasks = spec()
        except registry.Missing as e:
            print("ERROR: %s" % e)
            return 2
        except build.BuildError as e:
            sys.stderr.write(e.log[-6000:] + "\n")
            print("ERROR: %s" % e.what)
            return 2
    _tasks.extend(tasks)
    floor = registry.FLOOR.get(pid, 1)
    if len(tasks) < floor:
        print("ERROR: %d obligations of %s, expected at least %d" % (len(tasks), pid, floor))
        return 2
    known = registry.known_findings(pid)
    got, stopped = {}, False
    budget = BUDGET[tier] - (time.time() - t0)
    with multiprocessing.get_context("fork").Pool(min(8, len(tasks))) as pool:
        it = pool.imap_unordered(run_task, [(i, tier) for i in range(len(tasks))], chunksize=1)
        end = time.time() + budget
        while len(got) < len(tasks):
            try:
                i, r = it.next(max(0.1, end - time.time()))
            except multiprocessing.TimeoutError:
                stopped = True
                break
            got[i] = r
            if r["status"] == "error" or r["status"] == "violated" and registry.finding_key(pid, r) not in known and tier != "thorough":
                stopped = True          # one new violation settles the verdict
                break
        pool.terminate()
    settled = any(r["status"] == "violated" for r in got.values())
    res = []
    for i, t in enumerate(tasks):
        if i not in got:
            got[i] = {"name": t.name, "status": "skipped" if settled else "undecided", "stats": {}, "secs": 0, "bodies": [], "alarms": [],
                      "undecided": ["not reached: " + ("a violation was found before" if settled else "out of time")], "anchor": t.name}
        res.append(got[i])
    bad, und, hold, skip = [], [], [], []
    for t, r in zip(tasks, res):
        for c in (t.needs if r["status"] in ("holds", "violated") and not r.get("bare") else ()):
            if not any(b.startswith(c + "::") for b in r["bodies"]):
                print("ERROR: obligation %s analysed no function of %s" % (r["name"], c))
                return 2
        {"violated": bad, "undecided": und, "holds": hold, "skipped": skip}[r["status"]].append(r)
    new = []
    for r in bad:
        k = registry.finding_key(pid, r)
        if k in known:
            print("KNOWN-FINDING: property=%s %s" % (pid, known[k]))
        else:
            new.append(r)
    bodies = sorted({b for r in res for b in r["bodies"]})
    tot = {}
    for r in res:
        for k, n in r["stats"].items():
            if isinstance(n, (int, float)):
                tot[k] = tot.get(k, 0) + n
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": registry.explain(pid) if pid in registry.RULE else registry.explain(pid) + " Every obligation quantifies over all inputs, literals, element "
            "counts and component outcomes; 'partitions' counts the splits on undecided facts, 'nodes' the program points of "
            "the fixpoint, 'joins' the joins taken there, 'ends' the abstract outcomes compared.",
            "obligations": len(res), "discharged": len(hold), "undecided": len(und), "not_reached": len(skip),
            "totals": tot,
            "functions_analysed": [b for b in bodies if not b.startswith(("wit::", "dwit::s_"))],
            "functions_analysed_count": len(bodies),
            "per_obligation": [{k: r[k] for k in ("name", "anchor", "status", "secs", "stats")} for r in res],
            "undecided_detail": [{"name": r["name"], "why": r["undecided"]} for r in und],
        },
        "assumptions": registry.ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    evdir = os.environ.get("NOMMY_EVIDENCE", os.path.join(HERE, "evidence"))
    os.makedirs(evdir, exist_ok=True)
    with open(os.path.join(evdir, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for r in und:
        print("UNDECIDED obligation %s: %s" % (r["name"], "; ".join(r["undecided"])[:600]))
    print("%s: %d obligations, %d hold, %d undecided, %d violated (%.1f s)" % (pid, len(res), len(hold), len(und), len(bad), ev["wall_s"]))
    if new:
        d = os.path.join(build.OUT, "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, pid + ".txt")
        with open(path, "w") as f:
            for r in new:
                f.write("property %s, obligation %s\nanchor: %s\n" % (pid, r["name"], r["anchor"]))
                for kind, msg, where, trace in r["alarms"]:
                    f.write("  rule violated: %s\n  %s\n  at: %s\n  on the path where:\n" % (kind, msg, where))
                    for l in trace:
                        f.write("    - %s\n" % l)
                f.write("\n")
        for r in new:
            kind, msg, where, trace = r["alarms"][0]
            print("  %s: %s: %s [%s]" % (r["name"], kind, msg, where))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        print("ERROR: the analyser failed")
        rc = 2
    sys.exit(rc)
