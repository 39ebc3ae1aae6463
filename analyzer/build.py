"""Builds the witness crates against /repo's current working tree and hands out their MIR."""
import fcntl
import glob
import os
import re
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("NOMMY_REPO", "/repo")
OUT = os.environ.get("NOMMY_BUILD", os.path.join(VERIF, "build"))


class BuildError(Exception):
    def __init__(self, what, log):
        Exception.__init__(self, what)
        self.what, self.log = what, log


def cargo_home():
    """cargo's own files go under OUT; the vendored sources stay where the project has them"""
    d = os.path.join(OUT, "cargo-home")
    os.makedirs(d, exist_ok=True)
    shutil.copyfile("/opt/vp/cargo-home/config.toml", os.path.join(d, "config.toml"))
    return d


def cargo(crate, target, args=("build",), flags="--emit=mir -Zmir-opt-level=0 -Zspan-free-formats", secs=None):
    """run cargo on a witness crate with the project's own toolchain settings"""
    cmd = ('. /opt/vp/env.sh; cd "%s" || exit 97; export RUSTFLAGS="%s" CARGO_TARGET_DIR="%s" CARGO_INCREMENTAL=0 CARGO_HOME="%s"; '
           'cargo %s --offline' % (crate, flags, target, cargo_home(), " ".join(args)))
    return subprocess.run(["bash", "-c", cmd], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=secs)


def put(p, txt):
    if not os.path.exists(p) or open(p).read() != txt:
        open(p, "w").write(txt)


def stage(name, drop=()):
    """a copy of witness crate `name` whose path dependencies point at REPO"""
    src = os.path.join(VERIF, "witness", name)
    dst = os.path.join(OUT, "stage", name)
    os.makedirs(os.path.join(dst, "src"), exist_ok=True)
    for base, _, files in os.walk(src):
        rel = os.path.relpath(base, src)
        os.makedirs(os.path.join(dst, rel), exist_ok=True)
        for f in files:
            txt = open(os.path.join(base, f)).read()
            if f == "Cargo.toml":
                txt = txt.replace("/repo/", REPO.rstrip("/") + "/")
            p = os.path.join(dst, rel, f)
            put(p, txt)
    if name == "derive":
        put(os.path.join(dst, "src", "models.rs"), open(os.path.join(VERIF, "witness", "core", "src", "models.rs")).read())
        import gen_derive
        put(os.path.join(dst, "src", "cases.rs"), gen_derive.source([c for c in gen_derive.cases() if c.name not in drop]))
    return dst


def forget(target):
    """drop everything cargo remembers about the project's crates and ours"""
    for prof in glob.glob(os.path.join(target, "*")):
        for sub in (".fingerprint", "deps", "incremental", "build"):
            for p in glob.glob(os.path.join(prof, sub, "*")):
                b = os.path.basename(p)
                b = b[3:] if b.startswith("lib") else b
                if b.split("-")[0] in ("nommy", "nommy_derive", "wit", "dwit", "fwit") or b.startswith("nommy-derive-"):
                    if os.path.isdir(p):
                        shutil.rmtree(p, ignore_errors=True)
                    else:
                        os.remove(p)


class Lock:
    def __enter__(self):
        os.makedirs(OUT, exist_ok=True)
        self.f = open(os.path.join(OUT, "lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)
        return self

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)
        self.f.close()


def errors(log, file):
    """[(line of `file`, message)] of the compiler errors reported there"""
    out = []
    for blk in re.split(r"\n(?=error|warning)", log):
        if blk.startswith("error"):
            m = re.search(r"--> (\S*/)?%s:(\d+):" % re.escape(file), blk)
            if m:
                out.append((int(m.group(2)), blk.split("\n")[0]))
    return out


def witness_mir(name, rounds=14):
    """-> (directory of the staged crate, [(mir path, crate)], {case dropped: compiler error})"""
    target = os.path.join(OUT, "target")
    forget(target)
    dropped = {}
    while True:
        d = stage(name, dropped)
        r = cargo(d, target)
        if r.returncode == 0:
            break
        rounds -= 1
        new = {}
        if name == "derive" and rounds:
            import gen_derive
            lines = gen_derive.lines([c for c in gen_derive.cases() if c.name not in dropped])
            for line, msg in errors(r.stdout, "src/cases.rs"):
                for c, lo, hi in lines:
                    if lo <= line < hi:
                        new.setdefault(c, msg)
        if not new:
            raise BuildError("witness crate %s does not build" % name, r.stdout)
        dropped.update(new)
    res = []
    for crate in ("nommy", {"core": "wit", "derive": "dwit"}[name]):
        g = glob.glob(os.path.join(target, "debug", "deps", crate + "-*.mir"))
        if len(g) != 1:
            raise BuildError("expected one MIR dump of %s, found %d" % (crate, len(g)), r.stdout)
        res.append((g[0], crate))
    return d, res, dropped
