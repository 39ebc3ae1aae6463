"""Compile-fail witnesses (D06): every mistaken declaration has to be refused by the compiler, at its
own lines; its correct twins have to pass."""
import collections
import os
import re
import shutil
import subprocess

import build
import gen_fail
from analysis import Verdict
from product import Alarm

SECS = 700


def check(items):
    """one compiler run over the declarations -> {index: [error]}"""
    src = os.path.join(build.VERIF, "witness", "fail")
    d = os.path.join(build.OUT, "stage", "fail")
    os.makedirs(os.path.join(d, "src"), exist_ok=True)
    for f in ("Cargo.toml", "src/comp.rs"):
        txt = open(os.path.join(src, f)).read()
        build.put(os.path.join(d, f), txt.replace("/repo/", build.REPO.rstrip("/") + "/") if f == "Cargo.toml" else txt)
    txt, at = gen_fail.source(items)
    lib = os.path.join(d, "src", "lib.rs")
    open(lib, "w").write(txt)
    try:
        r = build.cargo(d, os.path.join(build.OUT, "target"), ("check", "--message-format=short"), flags="", secs=SECS)
    except subprocess.TimeoutExpired:
        raise build.BuildError("the compiler does not come back on the mistaken declarations", "")
    got = collections.defaultdict(list)
    for line in r.stdout.split("\n"):
        m = re.match(r"src/lib\.rs:(\d+):\d+: error(.*)", line)
        if m:
            i = at.get(int(m.group(1)))
            if i is None:
                raise build.BuildError("an error outside the declarations", r.stdout)
            got[i].append(m.group(2).lstrip(": "))
    if r.returncode and not got:
        raise build.BuildError("the crate of declarations does not build", r.stdout)
    if not r.returncode and got:
        raise build.BuildError("errors reported, yet it builds", r.stdout)
    return got


def rejected(items):
    """-> {index: [error]}; what is missing is accepted even without the mistakes the compiler sees first"""
    got, rest = {}, list(items)
    while rest:
        new = check(rest)
        if not new:
            break
        got.update(new)
        rest = [x for x in rest if x[0] not in got]
    return got


class Mistakes:
    def __init__(self):
        build.forget(os.path.join(build.OUT, "target"))
        good = list(enumerate(gen_fail.good()))
        self.lost = {}
        for i, errs in rejected(good).items():
            self.lost.setdefault(good[i][1].pos, (good[i][1], errs[0]))
        items = list(enumerate(gen_fail.bad(build.REPO)))
        got = rejected(items)
        self.groups = {}
        for i, b in items:
            self.groups.setdefault((b.pos, b.cls), []).append((b, got.get(i)))

    def verdict(self, pos, cls):
        v = Verdict(None)
        v.name, v.bare = "%s: %s" % (pos, cls), True
        g = self.groups[pos, cls]
        v.stats = {"declarations": len(g), "rejected": sum(1 for b, e in g if e)}
        for b, e in g:
            if not e:
                v.alarms.append(Alarm("accepted", "this declaration compiles, although its %s is wrong" % (
                    "attribute" if b.attr else "kind"), " ".join(("#[derive(Parse)] " + b.decl).split()), []))
        v.status = "violated" if v.alarms else "holds"
        if not v.alarms and pos in self.lost:
            b, e = self.lost[pos]
            v.status = "undecided"
            v.undecided = ["the correct twin does not compile: %s: %s" % (b.decl, e)]
        return v
