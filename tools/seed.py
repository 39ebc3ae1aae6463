#!/usr/bin/env python3
"""seed.py SPEC.py [ID..]: turn bug specifications into seeded/<id>/ after confirming each in a scratch copy of /repo.

SPEC.py defines SEEDS = {id: dict(property, needs, breaks, edits=[(file, old, new)], demo=rust test source)}."""
import json, os, shutil, subprocess, sys, tempfile
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = """#!/bin/bash
# builds demo.rs as a test of a scratch crate that depends on the repository in the current directory
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
. /opt/vp/env.sh
cd "$repo" || exit 97
d=$(mktemp -d) || exit 97
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src" "$d/tests"
printf '[package]\\nname = "demo"\\nversion = "0.0.0"\\nedition = "2018"\\n[dependencies]\\nnommy = { path = "%s/nommy" }\\n[workspace]\\n' "$repo" > "$d/Cargo.toml"
: > "$d/src/lib.rs"
cp "$here/demo.rs" "$d/tests/demo.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$d/Cargo.lock"
cd "$d" || exit 97
mkdir -p "$d/cargo" && cp "$CARGO_HOME/config.toml" "$d/cargo/"
export CARGO_INCREMENTAL=0 CARGO_HOME="$d/cargo" CARGO_TARGET_DIR="$d/target"
timeout 280 cargo test --offline --test demo
"""
FAIL = DEMO.replace("# builds demo.rs as a test of a scratch crate that depends", "# demo.rs, the library of a scratch crate, must be refused by the compiler, and good.rs accepted; it depends").replace(
    ': > "$d/src/lib.rs"\ncp "$here/demo.rs" "$d/tests/demo.rs"\n', 'cp "$here/good.rs" "$d/src/lib.rs"\n').replace(
    "timeout 280 cargo test --offline --test demo\n", """timeout 140 cargo check --offline || exit 96
cp "$here/demo.rs" "$d/src/lib.rs"
touch "$d/src/lib.rs"
timeout 140 cargo check --offline
[ $? -eq 101 ]
""")
def sh(cmd, cwd, t=900):
    return subprocess.run(["bash", "-c", cmd], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    want = sys.argv[2:]
    for sid, s in ns["SEEDS"].items():
        if want and sid not in want:
            continue
        dst = os.path.join(VERIF, "seeded", sid)
        shutil.rmtree(dst, ignore_errors=True)
        sh("git -C /repo checkout -- .", "/repo")
        ok = True
        for f, old, new in s["edits"]:
            p = os.path.join("/repo", f)
            txt = open(p).read()
            if txt.count(old) < 1:
                print(sid, "edit not found in", f, repr(old[:60])); ok = False; break
            open(p, "w").write(txt.replace(old, new, s.get("count", 1)))
        diff = sh("git -C /repo diff", "/repo").stdout
        sh("git -C /repo checkout -- .", "/repo")
        if not ok:
            continue
        os.makedirs(dst)
        open(os.path.join(dst, "patch.diff"), "w").write(diff)
        open(os.path.join(dst, "demo.rs"), "w").write(s["demo"])
        open(os.path.join(dst, "demo.sh"), "w").write(FAIL if "good" in s else DEMO)
        if "good" in s:
            open(os.path.join(dst, "good.rs"), "w").write(s["good"])
        os.chmod(os.path.join(dst, "demo.sh"), 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(dst, "meta.json"), "w"), indent=1)
        try:
            r = sh("bash %s/demo.sh" % dst, "/repo")
            if r.returncode != 0:
                print(sid, "demo fails on the unchanged tree\n", r.stdout[-2500:]); raise ValueError
            a = sh("git -C /repo apply %s/patch.diff" % dst, "/repo")
            os.path.exists("/tmp/seed_out.json") and os.remove("/tmp/seed_out.json")
            b = sh("bash /opt/vp/build.sh && bash /opt/vp/test.sh " + os.path.join(tempfile.gettempdir(), "seed_out.json"), "/repo")
            if not os.path.exists("/tmp/seed_out.json"):
                print(sid, "does not build", b.stdout[-1500:]); raise ValueError
            base = json.load(open("/opt/vp/BASELINE.json"))
            out = json.load(open(os.path.join(tempfile.gettempdir(), "seed_out.json")))
            need, got = set(base["stable"]), set(out["passed"])
            if b.returncode != 0 and not got or need - got:
                print(sid, "tests fail with the patch", sorted(need - got)[:5], b.stdout[-1500:] if not got else ""); raise ValueError
            r = sh("bash %s/demo.sh" % dst, "/repo")
            if r.returncode == 0:
                print(sid, "demo passes with the patch"); raise ValueError
            if "good" not in s and "error[" in r.stdout or "could not compile" in r.stdout:
                print(sid, "NOTE: demo does not compile with the patch", r.stdout[-800:])
            print(sid, "ok")
        except ValueError:
            shutil.rmtree(dst, ignore_errors=True)
        finally:
            sh("git -C /repo checkout -- .", "/repo")
main()
