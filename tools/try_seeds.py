#!/usr/bin/env python3
"""try_seeds.py [-a] [ID..]: run the checks against seeded bugs, each in a scratch copy of /repo (-a: every check, not only the bug's own)"""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
allc = "-a" in args
base = "seeded"
ids = [a for a in args if a != "-a"] or sorted(os.listdir(os.path.join(V, base)))
claimed = [c["property"] for c in json.load(open(os.path.join(V, "MANIFEST.json")))["checks"]]
def one(sid):
    src = sid if os.path.isdir(sid) else os.path.join(V, base, sid)
    d = tempfile.mkdtemp(prefix="seed-")
    try:
        subprocess.run("git -C /repo archive HEAD | tar x -C %s && cp /repo/Cargo.lock %s/ && cd %s && patch -p1 -s < %s/patch.diff" % (d, d, d, src), shell=True, check=True)
        prop = json.load(open(os.path.join(src, "meta.json")))["property"]
        out = []
        env = dict(os.environ, NOMMY_REPO=d, NOMMY_BUILD=d + "/mb", NOMMY_EVIDENCE=d + "/ev", VERIF_SEED="1", VERIF_TIER="quick")
        for c in (claimed if allc or prop is None else [prop] if prop in claimed else []):
            r = subprocess.run(["python3", os.path.join(V, "check.py"), c], cwd=V, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            out.append((c, r.returncode, [l for l in r.stdout.split("\n") if l.startswith(("  ", "ERROR", "UNDEC", "error"))]))
        return sid, prop, out
    finally:
        shutil.rmtree(d)
with ThreadPoolExecutor(4) as ex:
    for sid, prop, out in ex.map(one, ids):
        own = [r for r in out if r[0] == prop]
        print(os.path.basename(sid.rstrip("/")), "->", "CAUGHT" if own and own[0][1] == 1 else "missed" if own else "no check", " ".join("%s:%d" % (c, r) for c, r, _ in out if r))
        for c, r, ls in out:
            if r or c == prop:
                for l in ls[:3]:
                    print("    ", c, l.strip()[:260])
        sys.stdout.flush()
