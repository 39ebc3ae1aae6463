"""Relational abstract interpretation of two MIR programs.

A = the repository's code, B = the reference body it must agree with, run over one shared
fact base.  The state space is partitioned only where a statement depends on an undecided
fact; loop heads are program points of a fixpoint (join = anti-unification that keeps the
affine relations between the two sides plus template inequalities).  A property is decided
"holds" only by a fixpoint without alarms.  An alarm of the fixpoint may be an artefact of
the join, so it is re-examined on the join-free partitions (each loop unrolled a few
times); only an alarm that persists there is reported.
"""
import itertools
import re
import time
from fractions import Fraction

from lin import Lin, sym, ZERO
from facts import Facts, Need, E, clen, blen
from machine import Machine, successors, loop_heads, loop_body, live_at, norm_segs, seg_len, Stuck, OP, INTS
from join import (flatten, write_back, Gen, gen_value, gen_list, match_value, match_list, solve_pending,
                  norm_lin, is_rigid, NoGen)

STEP_LIMIT = 40000


class PState:
    __slots__ = ("a", "b", "fx", "trace", "roots_a", "roots_b", "visits", "soft", "turn", "path", "hits", "habit", "odd")

    def copy(self):
        s = PState.__new__(PState)
        s.a = self.a.copy()
        s.b = self.b.copy() if self.b is not None else None
        s.fx = self.fx.copy()
        s.trace = list(self.trace)
        s.roots_a, s.roots_b = self.roots_a, self.roots_b
        s.visits = dict(self.visits)
        s.soft = self.soft
        s.turn = self.turn
        s.path = self.path
        s.hits, s.habit, s.odd = dict(self.hits), dict(self.habit), self.odd
        return s


class Alarm:
    def __init__(self, kind, msg, where, trace):
        self.kind, self.msg, self.where, self.trace = kind, msg, where, trace

    def key(self):
        return (self.kind, self.where, self.msg.split(" [")[0])


class Outcome:
    def __init__(self):
        self.alarms = []          # confirmed or fixpoint alarms
        self.undecided = []
        self.stats = {"partitions": 0, "nodes": 0, "joins": 0, "steps": 0, "ends": 0, "excused_panics": 0}
        self.bodies = set()
        self.constants = set()
        self.sites = set()
        self.ranked = {}


# ------------------------------------------------------------------ comparison
class Mismatch(Exception):
    kind = "value"

    def __init__(self, msg, kind=None):
        Exception.__init__(self, msg)
        if kind:
            self.kind = kind


class Unknown(Exception):
    pass


class Cmp:
    def __init__(self, st):
        self.st = st
        self.fx = st.fx

    def val(self, a, b, where):
        A, B, fx = self.st.a, self.st.b, self.fx
        n = 0
        while a[0] == "r" and n < 20:
            a = A.get_path(A.mem[a[1]], a[2])
            n += 1
        while b[0] == "r" and n < 40:
            b = B.get_path(B.mem[b[1]], b[2])
            n += 1
        if a[0] == "op" and b[0] == "op":
            return
        if a[0] in ("?", "op") or b[0] in ("?", "op"):
            raise Unknown("%s: value not tracked (%s / %s)" % (where, a, b))
        if a[0] == "u" or b[0] == "u":
            if a[0] == b[0] or self.empty(a) or self.empty(b):
                return
            raise Unknown("%s: uninitialised" % where)
        if a[0] in ("l", "sp", "sl") and b[0] in ("l", "sp", "sl"):
            return self.seq(A.as_segs(a), B.as_segs(b), where)
        if a[0] == "i" and b[0] == "i":
            if not fx.eq(a[1], b[1]):
                raise Mismatch("%s: %r differs from the expected %r" % (where, a[1], b[1]))
            return
        if a[0] == "it" and b[0] == "it":
            if not fx.eq(a[1], b[1]):
                raise Mismatch("%s: item at %r instead of the item at %r" % (where, a[1], b[1]))
            return
        if {a[0], b[0]} == {"it", "c"}:
            it, c = (a, b) if a[0] == "it" else (b, a)
            ivs = fx.lookup_pos(fx.items, it[1])
            if ivs == ((c[1], c[1]),):
                return
            raise Mismatch("%s: item at %r against constant %r" % (where, it[1], chr(c[1])))
        if {a[0], b[0]} == {"it", "el"}:
            it, e = (a, b) if a[0] == "it" else (b, a)
            m = fx.lcp_of(e[1], it[1] - e[2])
            if fx.ge0(m - e[2] - 1):
                return
            raise Unknown("%s: item against literal element" % where)
        if a[0] != b[0]:
            raise Mismatch("%s: %s instead of %s" % (where, self.descr(a), self.descr(b)))
        if a[0] == "a":
            if a[1] != b[1]:
                raise Mismatch("%s: %s instead of %s" % (where, self.descr(a), self.descr(b)))
            if a[2] and a[2][0][0][0] == "Err" or b[2] and b[2][0][0][0] == "Err":
                return
            da, db = dict(a[2]), dict(b[2])
            for k in sorted(set(da) | set(db)):
                x, y = da.get(k, ("u",)), db.get(k, ("u",))
                self.val(x, y, "%s.%s" % (where, k[1]))
            return
        if a[0] == "t":
            return self.term(a, b, where)
        if a[0] in ("b", "c"):
            if a[1] != b[1]:
                raise Mismatch("%s: %r instead of %r" % (where, a[1], b[1]))
            return
        if a[0] == "el":
            if a[1] == b[1] and fx.eq(a[2], b[2]):
                return
            raise Mismatch("%s: different literal elements" % where)
        if a == b:
            return
        if a[0] in ("buf", "cur", "src"):
            pa = a[1] if a[0] != "cur" else a[1] + a[2]
            pb = b[1] if b[0] != "cur" else b[1] + b[2]
            return self.pos(pa, pb, where)
        raise Unknown("%s: comparison of %s" % (where, a[0]))

    def empty(self, v):
        return v[0] == "a" and v[1] is None and not v[2]

    def descr(self, v):
        if v[0] == "a" and v[1] is not None:
            return {0: "Ok/None/0", 1: "Err/Some/1"}.get(v[1], "variant %s" % v[1])
        return str(v[0])

    def term(self, a, b, where):
        if a[1] != b[1]:
            raise Mismatch("%s: value %s instead of %s" % (where, tshow(a), tshow(b)))
        if a[1] == "val":
            if a[2][0] != b[2][0]:
                raise Mismatch("%s: value of %s instead of %s" % (where, a[2][0], b[2][0]))
            if not self.fx.same_pos(a[2][1], b[2][1]):
                raise Mismatch("%s: value of %s parsed at %r instead of %r" % (where, a[2][0], a[2][1], b[2][1]))
            return
        if len(a[2]) != len(b[2]):
            raise Mismatch("%s: different terms" % where)
        for x, y in zip(a[2], b[2]):
            if isinstance(x, Lin) and isinstance(y, Lin):
                if not self.fx.eq(x, y):
                    raise Mismatch("%s: %r instead of %r" % (where, x, y))
            elif isinstance(x, tuple) and isinstance(y, tuple) and x and isinstance(x[0], str) and len(x) > 1:
                self.val(x, y, where)
            elif x != y:
                raise Mismatch("%s: %s instead of %s" % (where, tshow(a), tshow(b)))

    def pos(self, a, b, where):
        if not self.fx.same_pos(a, b):
            raise Mismatch("%s: left at %r instead of %r" % (where, a, b), "position")

    def seq(self, sa, sb, where):
        fx = self.fx
        sa = [s for s in norm_segs(sa) if not fx.eq(seg_len(s), ZERO)]
        sb = [s for s in norm_segs(sb) if not fx.eq(seg_len(s), ZERO)]
        sa, sb = self.merge(sa), self.merge(sb)
        if len(sa) != len(sb):
            la, lb = sum_len(sa), sum_len(sb)
            if fx.eq(la, lb) and any(s[0] == "L" for s in sa + sb):
                raise Unknown("%s: sequences of different structure" % where)
            raise Mismatch("%s: sequence of length %r instead of %r" % (where, la, lb))
        for i, (x, y) in enumerate(zip(sa, sb)):
            if x[0] != y[0]:
                if {x[0], y[0]} == {"R", "S"}:
                    r, s = (x, y) if x[0] == "R" else (y, x)
                    m = fx.lcp_of(s[1], r[1] - s[2])
                    if fx.eq(r[2], s[3]) and fx.ge0(m - s[2] - s[3]):
                        continue
                if x[0] in ("e", "R", "S") and y[0] in ("e", "R", "S"):
                    raise Unknown("%s: sequences %s / %s" % (where, x[0], y[0]))
                raise Unknown("%s: sequences of different structure" % where)
            if x[0] == "e":
                self.val(x[1], y[1], "%s[%d]" % (where, i))
            elif x[0] == "R":
                if not fx.eq(x[1], y[1]) or not fx.eq(x[2], y[2]):
                    raise Mismatch("%s: items %r..%r instead of %r..%r" % (where, x[1], x[1] + x[2], y[1], y[1] + y[2]))
            elif x[0] == "S":
                if x[1] != y[1] or not fx.eq(x[2], y[2]) or not fx.eq(x[3], y[3]):
                    raise Mismatch("%s: different literal text" % where)
            elif x[0] == "U":
                if not fx.eq(x[1], y[1]):
                    raise Mismatch("%s: different unfilled length" % where)
            else:
                if x[1] != y[1]:
                    raise Mismatch("%s: different sequences (%s, %s)" % (where, x[1], y[1]))
                if not fx.eq(x[2], y[2]):
                    raise Mismatch("%s: sequences of length %r / %r" % (where, x[2], y[2]))

    def merge(self, segs):
        """join ranges that are adjacent under the facts"""
        out = []
        for s in segs:
            if out and s[0] == "R" and out[-1][0] == "R" and self.fx.eq(out[-1][1] + out[-1][2], s[1]):
                out[-1] = ("R", out[-1][1], out[-1][2] + s[2])
                continue
            out.append(s)
        return out


def sum_len(segs):
    n = ZERO
    for s in segs:
        n = n + seg_len(s)
    return n


def tshow(v):
    if isinstance(v, tuple) and v and v[0] == "t":
        return "%s(%s)" % (v[1], ", ".join(tshow(x) for x in v[2]))
    return str(v)


# ------------------------------------------------------------------ exploration
class Explorer:
    def __init__(self, ob, mode, unroll=3, budget=20000, max_secs=200, join_budget=40, kinds=None, lazy=False, slack=False, windows=None, nested=False):
        self.nested = nested        # unroll a loop within a loop anew on each trip round the outer one
        self.windows = windows      # at which trips round a loop decisions are open again; all others repeat the last one
        ob.slack = slack            # bounds that are off by one are kept as well
        self.lazy = lazy            # only arrivals over a back edge are points of the fixpoint
        self.kinds = kinds          # the kinds of alarm asked for (None: all)
        self.enough = 1 if mode == "unroll" else 12
        self.ob = ob
        self.mode = mode            # 'fix' | 'unroll'
        self.unroll = unroll
        self.out = Outcome()
        self.nodes = {}
        self.work = []
        self.budget = budget
        self.deadline = time.process_time() + max_secs
        self.join_budget = join_budget
        self.joins = {}
        self.names, self.nameid = [], {}
        self.arrivals = {}

    # ---- driving one state to its next node / end; pushes successors
    def drive(self, st):
        out = self.out
        n = 0
        while True:
            n += 1
            out.stats["steps"] += 1
            if n > STEP_LIMIT:
                out.undecided.append("step limit at %s" % (st.a.where or ctl(st.a)))
                return
            a = st.a
            if a.status == "run":
                if a.at_head() and st.turn != "left" and self.lazy and first(a):
                    if self.ob.term:
                        solve_equalities(st, self.ob.rigid)
                        self.progress(st)
                    st.turn = "left"
                    continue
                if a.at_head() and st.turn != "left":
                    r = self.catch_up(st)
                    if r is False:
                        return
                    self.node(st)
                    return
                turn, st.turn = st.turn, None
                self.note(a)
                f = a.frames[-1]
                k = (f.body, f.bb)
                try:
                    a.step(st.fx)
                except Need as nd:
                    st.turn = turn          # the loop head has still been left
                    self.fork(st, nd)
                    return
                if a.frames and (a.frames[-1].body, a.frames[-1].bb) != k:
                    f = a.frames[-1]
                    st.path = hash((st.path, len(a.frames), f.body.name, f.bb))
                continue
            if a.status == "stuck":
                out.undecided.append("%s (%s)" % (a.result, a.where))
                return
            if a.status == "breach":
                self.alarm(st, "breach", a.result, a.where)
                return
            if a.status == "ub":
                self.alarm(st, "ub", a.result, a.where)
                return
            if a.status == "panic":
                if st.fx.zero:
                    out.stats["excused_panics"] += 1
                    return
                self.alarm(st, "panic", a.result, a.where)
                return
            # A is done
            b = st.b
            if b is None:
                out.stats["ends"] += 1
                self.ob.check_single(self, st)
                return
            if b.status == "run":
                if b.at_head() and st.turn != "bleft" and not (self.lazy and first(b)):
                    self.node(st)
                    return
                turn, st.turn = st.turn, None
                try:
                    b.step(st.fx)
                except Need as nd:
                    st.turn = turn
                    self.fork(st, nd)
                    return
                continue
            if b.status == "done":
                self.end(st)
                return
            out.undecided.append("reference: %s %s (%s)" % (b.status, b.result, b.where))
            return

    def note(self, m):
        f = m.frames[-1]
        k = (f.body.crate, f.body.name)
        if k not in self.out.bodies:
            self.out.bodies.add(k)
            self.out.constants |= constants(f.body)

    def catch_up(self, st):
        b = st.b
        if b is None or st.fx.zero:
            return True
        n = 0
        while b.status == "run":
            n += 1
            if n > 3000:
                self.out.undecided.append("reference does not settle")
                return False
            try:
                b.step(st.fx)
            except Need:
                return True
        if b.status in ("stuck", "ub", "panic"):
            self.out.undecided.append("reference: %s %s (%s)" % (b.status, b.result, b.where))
            return False
        return True

    def fork(self, st, nd):
        self.out.stats["partitions"] += 1
        options = list(enumerate(nd.options))
        if self.windows is not None:
            at = st.a.control() if st.a.status == "run" else (st.b.control() if st.b is not None else None)
            n = st.hits[at] = st.hits.get(at, 0) + 1
            if n not in self.windows and at in st.habit:
                i = st.habit[at]
                if i < len(nd.options) and st.fx.possible(nd.options[i][1]):
                    if st.fx.apply(nd.options[i][1]):
                        self.work.append(st)
                    return
            if st.a.status != "run":        # the reference goes on alone: rather not for long
                options.reverse()
        for i, (label, ops) in options:
            c = st.copy()
            if self.windows is not None:
                c.odd += n <= 2 and at in c.habit and c.habit[at] != i and st.a.status == "run"
                c.habit[at] = i
            if c.fx.apply(ops):
                c.trace.append(label)
                if any(o[0] == "pred" and o[1][0] == "elemeq" for o in ops):
                    c.soft = True
                self.work.append(c)

    def alarm(self, st, kind, msg, where):
        if self.kinds is not None and kind not in self.kinds:
            self.out.stats["other_alarms"] = self.out.stats.get("other_alarms", 0) + 1
            return
        if st.soft or any(k[0] == "elemeq" for k in st.fx.pred):      # these may contradict what else is known of the string
            self.out.undecided.append("imprecise: %s %s" % (kind, msg))
            return
        if not same_bytes(st.fx):
            return
        self.out.alarms.append(Alarm(kind, msg, where, list(st.trace)))

    def end(self, st):
        self.out.stats["ends"] += 1
        try:
            self.ob.compare(st)
        except Mismatch as e:
            self.alarm(st, e.kind, str(e), self.ob.anchor)
        except (Unknown, Stuck) as e:
            self.out.undecided.append(str(e))
        except Need as e:
            self.fork_done(st, e)

    def fork_done(self, st, nd):
        self.fork(st, nd)

    def anew(self, st):
        """forgets the trips round the loops within the one at whose head this state is"""
        i = 0 if st.a.status == "run" else 1
        m = st.b if i else st.a
        here, body = m.control(), m.frames[-1].body
        inside = loop_body(body, here[-1][2])
        d = len(here) - 1
        for k in list(st.visits):
            c = k[i]
            if c and len(c) > d and c[:d] == here[:d] and c[d][:2] == here[d][:2] and c[d][2] in inside and c[d] != here[d]:
                del st.visits[k]

    # ---- program points of the fixpoint
    def node(self, st):
        solve_equalities(st, self.ob.rigid)
        mark = "left" if st.a.status == "run" else "bleft"
        if st.a.status == "run":
            st.path = 0
            if self.ob.term:
                if self.progress(st):
                    return
        if self.mode == "unroll":
            k = (st.a.control(), st.b.control() if st.a.status == "done" and st.b else None)
            v = st.visits.get(k, 0) + 1
            st.visits[k] = v
            if v > self.unroll:
                return
            if self.nested:
                self.anew(st)
            st.turn = mark
            if len(st.a.mem) > 300:
                st.a.collect(st.roots_a)
            if st.b is not None and len(st.b.mem) > 300:
                st.b.collect(st.roots_b)
            self.work.append(st)
            return
        fa = flatten(st.a, st.roots_a, "A")
        fb = flatten(st.b, st.roots_b, "B") if st.b is not None else ((), [], [], 0)
        key = (fa[0], fb[0], st.fx.zero, st.fx.bad, st.fx.work, st.path, self.ob.extra_key(st))
        cur = self.nodes.get(key)
        self.out.stats["nodes"] = len(self.nodes)
        if cur is None:
            self.nodes[key] = st.copy()
            st.turn = mark
            self.work.append(st)
            return
        if subsumes(self.ob, cur, st, fa, fb):
            return
        n = self.joins.get(key, 0) + 1
        self.joins[key] = n
        self.out.stats["joins"] += 1
        if n > self.join_budget:
            self.out.undecided.append("fixpoint did not stabilise at %s" % ctl(st.a))
            return
        j = join(self.ob, cur, st, fa, fb, n)
        if j is None:
            self.out.undecided.append("join failed at %s" % ctl(st.a))
            return
        self.nodes[key] = j.copy()
        j.turn = mark
        self.work.append(j)

    # ---- progress of loops
    def progress(self, st):
        """at a loop head: compare with the previous visit of the same activation.
        -> True when the trip provably repeats itself for ever"""
        a = st.a
        f = a.frames[-1]
        h = f.bb
        body = loop_body(f.body, h)
        again = h in f.gh and f.prev in body
        for g in [g for g in f.gh if g != h and h not in loop_body(f.body, g)]:
            del f.gh[g]
            f.rec.pop(g, None)
        cur = self.measures(st)
        if again:
            prev = {}
            for k, v in a.mem[f.gh[h]][2]:
                prev[self.names[k[1]]] = v[1]
            if self.mode == "fix":
                self.arrival(st, prev, cur)
            elif self.recurs(st, f, h):
                self.alarm(st, "loop", "the loop repeats itself without end: nothing it depends on changes from one trip to the next",
                           "%s bb%d" % (f.body.name, h))
                return True
        else:
            f.rec.pop(h, None)
        if self.mode != "fix" and h not in f.rec:
            self.recurs(st, f, h)
        vals = []
        for n in sorted(cur, key=repr):
            if n not in self.nameid:
                self.nameid[n] = len(self.names)
                self.names.append(n)
            vals.append((("", self.nameid[n]), ("i", cur[n])))
        f.gh[h] = a.alloc(("a", None, tuple(sorted(vals))))
        return False

    def recurs(self, st, f, h):
        save = dict(f.gh)
        f.gh.clear()
        key, leaves, _, _ = flatten(st.a, st.roots_a, "A")
        f.gh.update(save)
        old = f.rec.get(h)
        n = 0
        if old is not None and old[0] == key and old[2] == len(st.trace) and len(old[1]) == len(leaves):
            lists = False
            same = True
            for (k, x), (_, y) in zip(old[1], leaves):
                if k == "l":
                    lists = lists or x != y
                elif not st.fx.eq(x, y):
                    same = False
            if same and not (lists and old[3] != st.a.lenread and self.ob.term == "finite"):
                n = old[4] + 1
        f.rec[h] = (key, leaves, len(st.trace), st.a.lenread, n)
        return n >= 3

    def measures(self, st):
        m = st.a
        f = m.frames[-1]
        out = {}
        seen = set()
        lens = self.ob.term == "finite"

        def walk(v, name, depth=0):
            k = v[0]
            if k == "i":
                out[name] = v[1]
            elif k in ("buf", "src"):
                out[name + ("pos",)] = v[1]
            elif k == "cur":
                out[name + ("pos",)] = v[1] + v[2]
            elif k == "l":
                if lens:
                    n = ZERO
                    for s in v[1]:
                        n = n + seg_len(s)
                    out[name + ("len",)] = n
            elif k == "a":
                for kk, x in v[2]:
                    walk(x, name + (kk,), depth)
            elif k == "cl":
                for kk, x in v[3]:
                    walk(x, name + (kk,), depth)
            elif k == "r":
                if (v[1], v[2]) not in seen and depth < 8:
                    seen.add((v[1], v[2]))
                    try:
                        w = m.get_path(m.mem[v[1]], v[2])
                    except Exception:
                        return
                    walk(w, name + ("*",), depth + 1)
        for nm, c in st.roots_a:
            seen.add((c, ()))
            walk(m.mem[c], ("root", nm))
        for l in sorted(live_at(f.body, f.bb, f.i)):
            c = f.loc.get(l)
            if c is not None:
                walk(m.mem[c], (str(l),))
        return out

    def arrival(self, st, prev, cur):
        """which candidate ranking expressions decrease on this trip?"""
        fx = st.fx
        key = st.a.control()
        got = {}
        common = [n for n in cur if n in prev]
        finite = self.ob.term == "finite"
        bounds = [E] + ([sym(x) for x in sorted(self.ob.rigid) if x not in ("E", "p0")] if finite else [])
        if finite:
            bounds += sorted({sym(s) for c in fx.cons for s in c.syms() if s.startswith(("chars(", "bytes("))}, key=repr)
        same = {n for n in common if fx.eq(cur[n], prev[n])}
        for n in common:
            d = cur[n] - prev[n]
            up = fx.ge0(d)
            down = fx.ge0(-d)
            if up:
                strict = not down and fx.ge0(d - 1)
                if not strict:
                    got[("up", n)] = "W"
                elif any(fx.ge0(b - cur[n]) for b in bounds):
                    got[("up", n)] = "S"
                else:
                    for o in same:
                        if o != n and finite and fx.ge0(cur[o] - cur[n]):
                            got[("up", n, o)] = "S"
            if down and finite:
                got[("down", n)] = "S" if fx.ge0(-d - 1) and fx.ge0(cur[n]) else "W"
        for k in list(got):
            if len(k) == 3 and k[:2] not in got:
                got[k[:2]] = "S"       # bounded by something the loop does not change
        if finite and not any(v == "S" for v in got.values()):
            for x, y in itertools.permutations(common, 2):
                r0, r1 = prev[x] - prev[y], cur[x] - cur[y]
                if fx.ge0(r0 - r1 - 1) and fx.ge0(r1):
                    got[("diff", x, y)] = "S"
        self.arrivals.setdefault(key, []).append((got, list(st.trace)))

    def rank(self):
        """a lexicographic ranking for each loop, or an alarm"""
        for key, arr in self.arrivals.items():
            todo = list(arr)
            while todo:
                cands = set().union(*[set(g) for g, _ in todo])
                best = None
                for c in sorted(cands, key=repr):
                    if all(c in g for g, _ in todo):
                        k = sum(1 for g, _ in todo if g[c] == "S")
                        if k and (best is None or k > best[0]):
                            best = (k, c)
                if best is None:
                    break
                self.out.ranked.setdefault(str(key[-1][1]) + " bb%d" % key[-1][2], []).append(repr(best[1]))
                todo = [x for x in todo if x[0][best[1]] != "S"]
            self.out.stats["loops"] = self.out.stats.get("loops", 0) + 1
            if todo:
                g, tr = todo[0]
                self.out.alarms.append(Alarm("loop", "no progress towards a bound shown for a trip round the loop",
                                             "%s bb%d" % (key[-1][1], key[-1][2]), tr))

    def run(self):
        for st in self.ob.initial():
            if self.mode == "fix" and st.fx.work is not None:
                st.fx.work_cap = 40
            st.fx.unit = self.windows is not None
            self.work.append(st)
        n = 0
        while self.work:
            n += 1
            if n > self.budget or time.process_time() > self.deadline:
                self.out.undecided.append("exploration budget")
                break
            if self.windows is not None:        # those that break with their habits least
                i = min(range(len(self.work)), key=lambda j: (self.work[j].odd, len(self.work[j].fx.cons) // 100, -j))
                st = self.work.pop(i)
            elif self.mode == "unroll" and self.ob.term:      # fewest decisions first
                i = min(range(len(self.work)), key=lambda j: (len(self.work[j].trace), -j))
                st = self.work.pop(i)
            elif self.mode == "fix":
                keys = [order(w) for w in self.work]
                i = min(range(len(keys)), key=lambda j: (keys[j], -j))
                st = self.work.pop(i)
            else:
                st = self.work.pop()
            self.drive(st)
            if len(self.out.alarms) >= self.enough:
                break
        self.out.stats["nodes"] = len(self.nodes)
        if self.mode == "fix" and self.ob.term:
            self.rank()
        return self.out


def same_bytes(fx):
    """text that repeats a literal, or a part of it, has its bytes: is this compatible with what is known?"""
    known = [(k[1], r) for k, r in fx.pred.items() if k[0] == "bytelen" and k[1][0] == "R"]
    fx = fx.copy() if known else fx
    for (_, pos, n), r in known:
        for (name, at), m in list(fx.lcp.items()):
            if not fx.eq(at, pos):
                continue
            if fx.ge0(m - n) and fx.ge0(clen(name) - n):
                fx.add(blen(name) - r - clen(name) + n)
                fx.add((clen(name) - n).scale(4) + r - blen(name))
            elif fx.ge0(m - clen(name)) and fx.ge0(n - clen(name)):
                fx.add(r - blen(name) - n + clen(name))
                fx.add((n - clen(name)).scale(4) + blen(name) - r)
    return not known or fx.feasible()


def constants(body):
    """the numbers a body compares or counts with, and those at which its narrow counters overflow"""
    text = repr(body.blocks)
    got = {int(x or y) for x, y in re.findall(r"'const', '(\d+)_[iu]\w+'|\((\d+), \d+\)", text)}
    narrow = {n for t in body.locals.values() for n in re.findall(r"^\(([iu]\d+), bool\)$", t)}
    narrow |= set(re.findall(r"\b([iu](?:8|16))(?:>?::MAX|>::(?:wrapping|saturating|checked|overflowing)_)", text))
    narrow |= {to for n, to in re.findall(r"\('cast', \('(?:copy|move)', \((\d+), \(\)\)\), '([iu](?:8|16))'", text)
               if re.match(r"[iu](\d\d|size)", body.locals.get(int(n), ""))}
    return got | {INTS[n][1] for n in narrow if n in INTS}


def rank_of(body):
    """block -> its place in an order that finishes a loop before what follows it"""
    r = body._order
    if r is not None:
        return r
    heads = [h for h in loop_heads(body)]
    bodies = {h: loop_body(body, h) for h in heads}
    depth = {b: sum(1 for h in heads if b in bodies[h]) for b in body.blocks}
    post, seen = [], {0}
    stack = [(0, iter(sorted(successors(body, 0), key=lambda x: depth.get(x, 0))))]
    while stack:
        b, it = stack[-1]
        for x in it:
            if x not in seen:
                seen.add(x)
                stack.append((x, iter(sorted(successors(body, x), key=lambda y: depth.get(y, 0)))))
                break
        else:
            post.append(b)
            stack.pop()
    r = {b: i for i, b in enumerate(reversed(post))}
    body._order = r
    return r


def order(st):
    """work nearer to the entry first: a loop is stable before what follows it is explored"""
    if st.a.status == "run":
        return (0,) + tuple(rank_of(f.body).get(f.bb, 0) for f in st.a.frames)
    if st.b is not None and st.b.status == "run":
        return (1,) + tuple(rank_of(f.body).get(f.bb, 0) for f in st.b.frames)
    return (2,)


def first(m):
    """the loop head is entered from outside its loop"""
    f = m.frames[-1]
    return f.prev not in loop_body(f.body, f.bb)


def ctl(m):
    if not m.frames:
        return m.status
    f = m.frames[-1]
    return "%s bb%d" % (f.body.name, f.bb)


# ------------------------------------------------------------------ equalities
def deep_subst(v, m):
    if isinstance(v, Lin):
        return norm_lin(v.subst(m))
    if isinstance(v, tuple):
        r = tuple(deep_subst(x, m) for x in v)
        return v if all(x is y for x, y in zip(v, r)) else r
    return v


def solve_equalities(st, rigid):
    """replace symbols that the facts determine by what they are equal to"""
    fx = st.fx
    m = {}
    for c in sorted(fx.cons, key=repr):
        d = norm_lin(c.subst(m)) if m else c
        if not d.t or (-c) not in fx.cons:
            continue
        for s, k in d.t:
            if not is_rigid(s, rigid) and k in (1, -1):
                e = norm_lin((sym(s).scale(k) - d).scale(k))
                m = {x: norm_lin(y.subst({s: e})) for x, y in m.items()}
                m[s] = e
                break
    if not m:
        return
    for mc in (st.a, st.b):
        if mc is None:
            continue
        for c in mc.mem:
            mc.mem[c] = deep_subst(mc.mem[c], m)
        mc.result = deep_subst(mc.result, m)
        for f in mc.frames:
            if f.dest is not None:
                f.dest = deep_subst(f.dest, m)
    fx.subst(m)


# ------------------------------------------------------------------ join / subsumption
def join(ob, n, s, fa, fb, count):
    na = flatten(n.a, n.roots_a, "A")
    nb = flatten(n.b, n.roots_b, "B") if n.b is not None else ((), [], [], 0)
    j = PState.__new__(PState)
    j.a = n.a.copy()
    j.b = n.b.copy() if n.b is not None else None
    j.trace = list(n.trace) + ["(loop, any number of times)"]
    j.roots_a, j.roots_b = n.roots_a, n.roots_b
    j.visits, j.hits, j.habit, j.odd = {}, {}, {}, 0
    j.soft = n.soft or s.soft
    j.turn = None
    j.path = n.path
    fx = Facts()
    fx.n = max(n.fx.n, s.fx.n)
    fx.zero = n.fx.zero
    fx.bad = n.fx.bad
    fx.work, fx.work_cap = n.fx.work, n.fx.work_cap
    j.fx = fx
    rigid = ob.rigid
    g = Gen((n.fx, s.fx), rigid, lambda hint: fx.fresh("%s~" % hint))
    la, lb = na[1] + nb[1], fa[1] + fb[1]
    if [x[0] for x in la] != [x[0] for x in lb]:
        return None
    if ob.cfg.concrete_buffers:
        la = [(k, filled(n.fx, x)) if k == "l" else (k, x) for k, x in la]
        lb = [(k, filled(s.fx, x)) if k == "l" else (k, x) for k, x in lb]
        g.places = {i: (x, y) for i, ((k, x), (_, y)) in enumerate(zip(la, lb)) if k == "p"}
    vals = [None] * len(la)
    try:
        for i, ((k, x), (_, y)) in enumerate(zip(la, lb)):
            if k != "l":
                vals[i] = g.lin(x, y, k)
        for i, ((k, x), (_, y)) in enumerate(zip(la, lb)):
            if k == "l":
                g.at = i
                vals[i] = gen_list(g, x, y)
    except NoGen:
        return None
    it = iter(vals)
    write_back(j.a, na[2], na[3], it)
    if j.b is not None:
        write_back(j.b, nb[2], nb[3], it)
    # facts about components
    f1, f2 = n.fx, s.fx
    live = () if ob.cfg.concrete_buffers else live_positions(j)
    past = {}

    def gone(e):
        """no buffer or cursor of either side can come back to e"""
        if e not in past:
            past[e] = bool(live) and all(all_ge(g, f1, f2, x - e - 1) for x in live)
        return past[e]
    for (nm, p1), r1 in f1.orc.items():
        for (m2, p2), r2 in f2.orc.items():
            if nm != m2 or r1[0] != r2[0]:
                continue
            e = g.span(p1, p2)
            if e is None or (nm, e) in fx.orc or gone(e):
                continue
            if r1[0] == "ok":
                fx.orc[(nm, e)] = ("ok", g.lin(r1[1], r2[1], "len"))
            else:
                fx.orc[(nm, e)] = ("fail", g.lin(r1[1], r2[1], "junk"), g.lin(r1[2], r2[2], "junk"))
    for p1, v1 in f1.items.items():
        for p2, v2 in f2.items.items():
            e = g.span(p1, p2)
            if e is None or e in fx.items or gone(e):
                continue
            u = union_iv(v1, v2)
            fx.items[e] = u
    for tn in ("mem", "lcp", "first"):
        t1, t2, t = getattr(f1, tn), getattr(f2, tn), getattr(fx, tn)
        for (nm, p1), r1 in t1.items():
            for (m2, p2), r2 in t2.items():
                if nm != m2:
                    continue
                e = g.span(p1, p2)
                if e is None or (nm, e) in t or gone(e):
                    continue
                if tn == "mem":
                    if r1 == r2:
                        t[(nm, e)] = r1
                else:
                    m = t[(nm, e)] = g.lin(r1, r2, tn)
                    # what holds of every such length
                    fx.add(m)
                    fx.add(clen(nm) - m)
                    if tn == "lcp":
                        fx.add(E - e - m)
    for k, r in f1.conv.items():
        if f2.conv.get(k) == r and rigid_only(k, rigid):
            fx.conv[k] = r
    for k1, r1 in f1.conv.items():
        for k2, r2 in f2.conv.items():
            if r1 is not r2:
                continue
            e = span_key(g, k1, k2)
            if e is not None and e not in fx.conv:
                fx.conv[e] = r1
    for k1, r1 in f1.pred.items():
        for k2, r2 in f2.pred.items():
            if isinstance(r1, bool) and r1 is r2:
                e = span_key(g, k1, k2)
                if e is not None and e not in fx.pred:
                    fx.pred[e] = r1
    # numeric relations: rigid constraints common to both, then templates
    for c in f1.cons:
        if all(is_rigid(x, rigid) for x in c.syms()) and f2.ge0(c):
            fx.add(c)
    for c in f2.cons:
        if all(is_rigid(x, rigid) for x in c.syms()) and f1.ge0(c):
            fx.add(c)
    newsyms = list(g.new)
    rig = [r for r in sorted(set(rigid) | {x for c in (f1.cons | f2.cons) for x in c.syms() if is_rigid(x, rigid)})]
    terms = [(sym(x), g.new[x][0], g.new[x][1]) for x in newsyms]
    rterms = [(sym(x), sym(x), sym(x)) for x in rig]
    zero = (ZERO, ZERO, ZERO)

    def tmpl(x, y):
        d, d1, d2 = x[0] - y[0], x[1] - y[1], x[2] - y[2]
        if not d.t:
            return
        if f1.ge0(d1 - 1) and f2.ge0(d2 - 1):
            fx.add(d - 1)
        elif f1.ge0(d1) and f2.ge0(d2):
            fx.add(d)
        elif ob.slack and f1.ge0(d1 + 1) and f2.ge0(d2 + 1):
            fx.add(d + 1)
    for x in terms:
        tmpl(x, zero)
        tmpl(zero, x)
        for y in rterms:
            tmpl(x, y)
            tmpl(y, x)
    for x, y in itertools.permutations(terms, 2):
        tmpl(x, y)
    # sums / differences that occur in the state (e.g. position + remaining <= end)
    sums = list(composite(vals, la, lb, newsyms))
    if ob.cfg.concrete_buffers:         # how far apart counters are
        for w in {sg[2] for v in vals if isinstance(v, tuple) for sg in v if sg[0] == "R"}:
            if len(w.syms()) > 1 and all(w != x[0] for x in sums):
                sums.append((w,) + tuple(norm_lin(w.subst({x: p[i] for x, p in g.new.items()})) for i in (0, 1)))
        for x, y in itertools.permutations(sums, 2):
            tmpl(x, y)
    for (v, x, y) in sums:
        for z in rterms + [zero] + (terms if ob.cfg.concrete_buffers else []):
            tmpl(z, (v, x, y))
            tmpl((v, x, y), z)
    for v in vals:              # runs of items have a length and lie within the input
        for sg in v if isinstance(v, tuple) else ():
            if sg[0] == "R" and sg[2].t:
                for d in (sg[2], E - sg[1] - sg[2]):
                    if d.t and all_ge(g, f1, f2, d):
                        fx.add(d)
    if ob.cfg.concrete_buffers:         # counts of items, as places
        p0 = sym("p0")
        for t in terms:
            w = tuple(x + p0 for x in t)
            for u in terms + rterms:
                if u != t:
                    tmpl(u, w)
                    tmpl(w, u)
    if ob.term:                 # where cursors stand, against everything new
        for v in cursor_places(j):
            w = (v, norm_lin(v.subst({x: p[0] for x, p in g.new.items()})), norm_lin(v.subst({x: p[1] for x, p in g.new.items()})))
            for t in terms:
                tmpl(w, t)
                tmpl(t, w)
    for (nm, e), r in list(fx.orc.items()):
        if r[0] == "ok":
            if all_ge(g, f1, f2, E - e - r[1]):
                fx.add(E - e - r[1])
    fx.reduce()
    return j


def filled(fx, segs):
    """without the parts that are known to be empty"""
    return tuple(x for x in segs if x[0] != "R" or not fx.eq(x[2], ZERO))


def cursor_places(st):
    out = set()

    def walk(v):
        if isinstance(v, tuple) and v:
            if v[0] == "cur":
                if len(v[1].syms()) and len(v[2].syms()):
                    out.add(v[1] + v[2])
                return
            for x in v:
                walk(x)
    for v in st.a.mem.values():
        walk(v)
    return sorted(out, key=repr)


def live_positions(st):
    """where the buffers and cursors still in reach stand (their bases); empty when that is not known"""
    out = set()

    def walk(v):
        if isinstance(v, tuple) and v:
            if v[0] in ("buf", "src", "cur"):
                out.add(v[1])
                return
            for x in v:
                walk(x)
    for m in (st.a, st.b):
        if m is None:
            continue
        for v in m.mem.values():
            walk(v)
        if m.status == "done" and m.result is not None:
            walk(m.result)
    return out


def all_ge(g, f1, f2, l):
    """does l >= 0 hold on both sides?"""
    s1 = {x: p[0] for x, p in g.new.items()}
    s2 = {x: p[1] for x, p in g.new.items()}
    return f1.ge0(norm_lin(l.subst(s1))) and f2.ge0(norm_lin(l.subst(s2)))


def composite(vals, la, lb, newsyms):
    ns = set(newsyms)
    seen = set()
    for v, (k, x), (_, y) in zip(vals, la, lb):
        if k == "l" or v in seen:
            continue
        seen.add(v)
        if len([s for s in v.syms()]) > 1 and any(s in ns for s in v.syms()):
            yield (v, x, y)


def union_iv(a, b):
    out = []
    for l, h in sorted(a + b):
        if out and l <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(h, out[-1][1]))
        else:
            out.append((l, h))
    return tuple(out)


def rigid_only(k, rigid):
    if isinstance(k, Lin):
        return all(is_rigid(s, rigid) for s in k.syms())
    if isinstance(k, tuple):
        return all(rigid_only(x, rigid) for x in k)
    return True


def span_key(g, a, b):
    """generalise two fact keys without introducing new symbols"""
    if isinstance(a, Lin):
        return g.span(a, b) if isinstance(b, Lin) else None
    if isinstance(a, tuple):
        if not isinstance(b, tuple) or len(a) != len(b):
            return None
        out = []
        for x, y in zip(a, b):
            if isinstance(x, (Lin, tuple)):
                e = span_key(g, x, y)
                if e is None:
                    return None
                out.append(e)
            elif x == y:
                out.append(x)
            else:
                return None
        return tuple(out)
    return a if a == b else None


def subsumes(ob, n, s, fa, fb):
    """is every concretisation of s one of n?"""
    rigid = ob.rigid
    na = flatten(n.a, n.roots_a, "A")
    nb = flatten(n.b, n.roots_b, "B") if n.b is not None else ((), [], [], 0)
    la, lb = na[1] + nb[1], fa[1] + fb[1]
    sigma, lsig, pend = {}, {}, []
    if len(la) != len(lb):
        return False
    for (k, x), (k2, y) in zip(la, lb):
        if k != k2:
            return False
        if k == "l":
            if not match_list(sigma, lsig, x, filled(s.fx, y) if ob.cfg.concrete_buffers else y, pend):
                return False
        else:
            pend.append((x, y))
    fx = s.fx
    todo = [p for p in pend]
    if not solve_pending(sigma, todo, rigid, fx):
        return False
    # facts of n must hold in s
    orc = list(n.fx.orc.items())
    ch = True
    while orc and ch:
        ch = False
        rest = []
        for (nm, p), r in orc:
            if not bound(p, sigma, rigid):
                rest.append(((nm, p), r))
                continue
            q = norm_lin(p.subst(sigma))
            got = fx.lookup(fx.orc, nm, q)
            if got is None or got[0] != r[0]:
                return False
            ok = True
            pp = list(zip(r[1:], got[1:]))
            if not solve_pending(sigma, pp, rigid, fx):
                return False
            ch = True
        orc = rest
    if orc:
        return False
    for p, iv in n.fx.items.items():
        if not bound(p, sigma, rigid):
            return False
        got = fx.lookup_pos(fx.items, norm_lin(p.subst(sigma)))
        if got is None or not all(any(l2 <= l and h <= h2 for l2, h2 in iv) for l, h in got):
            if iv != ((0, 0x10FFFF),):
                return False
    for (nm, p), r in n.fx.mem.items():
        if not bound(p, sigma, rigid) or fx.lookup(fx.mem, nm, norm_lin(p.subst(sigma))) is not r:
            return False
    for tn in ("lcp", "first"):
        for (nm, p), r in getattr(n.fx, tn).items():
            if not bound(p, sigma, rigid):
                return False
            got = fx.lookup(getattr(fx, tn), nm, norm_lin(p.subst(sigma)))
            if got is None:
                return False
            if not solve_pending(sigma, [(r, got)], rigid, fx):
                return False
    for tn in ("conv", "pred"):
        tab = getattr(fx, tn)
        for k, r in getattr(n.fx, tn).items():
            k2 = subst_key(k, sigma)
            if tab.get(k2) != r:
                return False
    for c in n.fx.cons:
        if not bound(c, sigma, rigid):
            # a symbol no leaf mentions: it can only weaken; require the constraint to be vacuous
            return False
        if not fx.ge0(norm_lin(c.subst(sigma))):
            return False
    return True


def subst_key(k, sigma):
    if isinstance(k, Lin):
        return norm_lin(k.subst(sigma))
    if isinstance(k, tuple):
        return tuple(subst_key(x, sigma) for x in k)
    return k


def bound(l, sigma, rigid):
    return all(x in sigma or is_rigid(x, rigid) for x in l.syms())
