"""Configuration of an analysis run: program, axioms, obligations."""
import glob
import os
import re
import time

import rtypes
from rtypes import canon, canon_name, show
from lin import Lin, sym
from facts import Facts, E, clen, blen, Need
from machine import Machine, I, U, TRUE, FALSE, Stuck, Breach, UNIT
from program import Program
from product import Explorer, PState, Cmp, Mismatch, Unknown
import calls

NO_FALLIBLE = ()


def load_program(mirs, root="/"):
    p = Program(root)
    for path, crate in mirs:
        p.load(path, crate)
    p.index()
    return p


class Cfg:
    def __init__(self, program):
        self.program = program
        self.int_params = {"N", "max"}
        self.byte_params = {"BLIT"}
        self.spec_crates = {"wit"}
        self.concrete_buffers = False
        self.errors = False            # follow what errors say
        self.oracles = set()           # names that are always component parsers
        self.zero_ok = True
        self.infallible_pairs = set()
        self.spec_intrinsics = {"upcoming": lit_upcoming, "items": lit_items, "has": lit_has,
                                "pick": buf_pick, "number": buf_number, "total": buf_total, "drawn": buf_drawn,
                                "is_item": buf_is_item, "same": buf_same, "claim": buf_claim}
        self._models = {}
        for (cr, n), b in program.bodies.items():
            if cr == "wit" and "src/models" in (b.file or "") and re.match(r"(models::)?\w+$", n):
                self._models[n.split("::")[-1]] = b
        self._defaults = {}

    # ---- types
    def localise(self, t, f):
        return t

    def const_item(self, s):
        m = re.sub(r"::<.*$", "", s)
        last = m.split("::")[-1]
        for b in self.program.byname.get(last, []) + self.program.byname.get(m, []):
            if getattr(b, "kind", "") in ("const", "static"):
                return b
        return None

    def default_method(self, trait, meth):
        k = (trait, meth)
        if k not in self._defaults:
            r = None
            for b in self.program.bodies.values():
                if re.search(r"(^|::)%s::%s$" % (re.escape(trait), re.escape(meth)), b.name):
                    r = b
            self._defaults[k] = r
        return self._defaults[k]

    def parser_body(self, selfty, meth, targs):
        name = calls.oracle_name(selfty)
        if name in self.oracles or selfty[0] == "path" and not selfty[2] and re.match(r"[A-Z][a-z]?$|Self$", selfty[1]):
            return None, None
        got = self.program.trait_impl("Parse", selfty, meth, targs or None)
        if got is None:
            return None, None
        im, body, env = got
        if body is not None:
            return body, dict(env)
        d = self.default_method("Parse", meth)
        if d is None:
            raise Stuck("no body for Parse::%s of %s" % (meth, name))
        e = dict(env)
        e["Self"] = selfty
        return d, e

    def component(self, m, selfty):
        """is this parser to be treated as a component here?"""
        return False

    def allow_zero(self, name):
        if isinstance(self.zero_ok, dict):
            return self.zero_ok.get(name, False)
        return self.zero_ok

    def opaque_conv(self, cs, cd):
        return False

    def infallible(self, cs, cd):
        return (show(cs), show(cd)) in self.infallible_pairs

    def model_fn(self, name):
        b = self._models.get(name)
        if b is None:
            raise Stuck("no model " + name)
        return b

    def model_fn_opt(self, name):
        return self._models.get(name)

    def fn_label(self, body):
        return body.name

    def variant_index(self, c):
        return None


def string_name(m, v):
    v = m.load(v)
    if v[0] != "sp":
        raise Stuck("literal parameter expected")
    return v[1]


def lit_upcoming(cx, margs, args):
    m = cx.m
    n = string_name(m, args[0])
    v = m.load(args[1])
    p = calls.abs_pos(v)
    l = m.fx.lcp_of(n, p)
    return cx.ret(("b", m.fx.need_ge0(l - clen(n), "%s is upcoming at %r" % (n, p))))


def lit_items(cx, margs, args):
    return cx.ret(I(clen(string_name(cx.m, args[0]))))


def lit_has(cx, margs, args):
    m = cx.m
    n = string_name(m, args[0])
    v = m.load(args[1])
    if v[0] != "it":
        raise Stuck("lit::has on %s" % v[0])
    return cx.ret(("b", m.fx.member(n, v[1])))


# ---- most general clients of the buffers (witness/core/src/buf.rs)
def buf_pick(cx, margs, args):
    """an arbitrary choice: forgotten as soon as it has been made"""
    fx = cx.m.fx
    k = args[0][1]
    if args[0][0] != "i" or k.t:
        raise Stuck("choice among an unknown number")
    r = fx.pred.pop(("pick",), None)
    if r is None:
        raise Need("choice", [("choice %d" % i, [("pred", ("pick",), i)]) for i in range(int(k.c))])
    return cx.ret(I(r))


def buf_number(cx, margs, args):
    n = cx.m.fx.fresh("any")
    cx.m.fx.add(n)
    return cx.ret(I(n))


def buf_total(cx, margs, args):
    return cx.ret(I(E - sym("p0")))


def source_place(m, v, seen=()):
    """the place of the source in a buffer or cursor value"""
    v = m.load(v)
    if v[0] == "src":
        return v[1]
    if v[0] in ("a", "cl"):
        for _, x in v[-1]:
            r = source_place(m, x)
            if r is not None:
                return r
    return None


def buf_drawn(cx, margs, args):
    p = source_place(cx.m, args[0])
    if p is None:
        raise Stuck("no source in this value")
    return cx.ret(I(p - sym("p0")))


def item_place(m, v):
    """the place of the item in an Option, None when there is none"""
    v = m.load(v)
    if v[0] != "a" or v[1] not in (0, 1):
        raise Stuck("option expected")
    if v[1] == 0:
        return None
    x = m.load(v[2][0][1])
    if x[0] != "it":
        raise Stuck("item expected, not %s" % x[0])
    return x[1]


def buf_is_item(cx, margs, args):
    m, fx = cx.m, cx.m.fx
    p = item_place(m, args[0])
    q = args[1][1] + sym("p0")
    if p is None:
        return cx.ret(("b", not fx.need_ge0(E - q - 1, "the source has an item at %r" % q)))
    return cx.ret(("b", fx.need_eq(p, q, "item %r is the one at %r" % (p, q))))


def buf_same(cx, margs, args):
    m, fx = cx.m, cx.m.fx
    p, q = item_place(m, args[0]), item_place(m, args[1])
    if p is None or q is None:
        return cx.ret(("b", p is None and q is None))
    return cx.ret(("b", fx.need_eq(p, q, "item %r is the item %r" % (p, q))))


def buf_claim(cx, margs, args):
    v = args[0]
    if v[0] != "b":
        raise Stuck("claim of %s" % v[0])
    if not v[1]:
        w = cx.m.load(args[1])
        raise Breach("%s is wrong" % (w[1] if w[0] == "sl" else "a result"))
    return cx.ret(UNIT)


# --------------------------------------------------------------------- obligations
class Obligation:
    """A (repository side) against B (reference side) from one abstract input position"""
    patience = 1                    # how much longer to look for long paths

    def __init__(self, cfg, name, a, b, anchor, args=(), zero_ok=True, agree=False, rigid=(), setup=None, roots=None, term=None, check=None):
        self.term = term            # None | 'finite' | 'progress'
        self.check = check
        self.agree = agree          # compare success and position only
        self.roots = roots
        self.cfg = cfg
        self.name = name
        self.a_body, self.b_body = a, b
        self.anchor = anchor
        self.args = args
        self.zero_ok = zero_ok
        self.rigid = {"E", "p0", "N", "max", "usize::MAX"} | set(rigid)
        self.setup = setup

    def base_facts(self):
        fx = Facts()
        fx.add(E)
        fx.add(sym("p0"))
        fx.add(E - sym("p0"))
        fx.add(sym("N"))
        fx.add(sym("max"))
        fx.add(sym("usize::MAX") - sym("max"))
        fx.add(sym("usize::MAX") - E - 1)
        for s in ("LIT", "BLIT"):
            fx.add(clen(s))
            fx.add(blen(s) - clen(s))
            fx.add(clen(s).scale(4) - blen(s))
        return fx

    def machine(self, body):
        m = Machine(self.cfg)
        buf = m.alloc(("buf", sym("p0")))
        args = []
        for a in self.args:
            args.append(("r", buf, ()) if a == "buf" else ("src", sym("p0")) if a == "src" else a)
        m.push(body, args, {}, None, None)
        return m, [("in", buf)]

    def initial(self):
        self.cfg.zero_ok = self.zero_ok
        st = PState.__new__(PState)
        st.a, st.roots_a = self.machine(self.a_body)
        st.b, st.roots_b = self.machine(self.b_body) if self.b_body is not None else (None, [])
        st.fx = self.base_facts()
        st.trace = []
        st.visits = {}
        st.hits, st.habit, st.odd = {}, {}, 0
        st.soft = False
        st.turn = None
        st.path = 0
        if self.setup:
            self.setup(st)
        return [st]

    def extra_key(self, st):
        return None

    def check_single(self, ex, st):
        if self.check:
            self.check(self, ex, st)

    def compare(self, st):
        c = Cmp(st)
        ra, rb = st.a.result, st.b.result
        if st.fx.work is not None:
            if st.fx.work < 0:
                raise Mismatch("applies component parsers %d times more often than attempts are called for" % -st.fx.work, "work")
            return
        ga, gb = success(ra), success(rb)
        if ga and not gb:
            raise Mismatch("succeeds where it must fail", "accepts")
        if gb and not ga:
            raise Mismatch("fails where it must succeed", "rejects")
        if not self.agree:
            if not ga and self.cfg.errors:
                self.compare_errors(st, ra, rb)
            c.val(ra, rb, "result")
        if ga:
            for (nm, ca), (_, cb) in zip(st.roots_a, st.roots_b):
                c.val(st.a.mem[ca], st.b.mem[cb], "input position after success")


def success(v):
    if v[0] == "b":
        return v[1]
    return not (v[0] == "a" and v[1] == 1)


class Verdict:
    def __init__(self, ob):
        self.ob = ob
        self.name = ob.name if ob else ""
        self.status = "holds"
        self.alarms = []
        self.undecided = []
        self.stats = {}
        self.bodies = set()
        self.secs = 0.0


FAR = 70000


def long_paths(ob, constants, v, unroll, max_secs, kinds):
    """one more kind of join-free path: many trips round a loop, all alike but those around a number the code mentions"""
    far = sorted(c for c in constants if max(unroll) - 1 <= c <= FAR)
    if not far or ob.term:
        return []
    if max(far) > 3000:
        max_secs *= 2.5
    max_secs *= 2 * ob.patience
    w = {1, 2} | {c + d for c in far for d in (0, 1, 2)}
    o = Explorer(ob, "unroll", unroll=max(w) + 1, max_secs=max_secs, kinds=kinds, windows=w, budget=1000000).run()
    v.stats["long_partitions"] = v.stats.get("long_partitions", 0) + o.stats["partitions"]
    return o.alarms


def decide(ob, max_secs=120, unroll=(2, 3), kinds=None, deep=False):
    """fixpoint first; what it cannot exclude is looked for on the join-free partitions"""
    t = time.time()
    v = Verdict(ob)
    ex = Explorer(ob, "fix", max_secs=max_secs, kinds=kinds)
    out = ex.run()
    v.stats = out.stats
    v.bodies = out.bodies
    v.constants = out.constants
    clean = not out.alarms and not out.undecided
    # other fixpoints: each is a proof of its own
    for lazy, slack in ((True, False),) + (((False, True), (True, True)) if ob.cfg.concrete_buffers else ()):
        if not clean:
            o2 = Explorer(ob, "fix", max_secs=max_secs / 2.0, kinds=kinds, lazy=lazy, slack=slack).run()
            if not o2.alarms and not o2.undecided:
                v.stats, clean = o2.stats, True
                v.bodies |= o2.bodies
    if not clean or deep:
        v.undecided = list(dict.fromkeys(out.undecided))
        fixal = out.alarms
        for k, nested in [(k, False) for k in unroll] + [(unroll[-1], True)]:
            if nested and clean:
                continue
            ex2 = Explorer(ob, "unroll", unroll=k, max_secs=max_secs / 2.0, kinds=kinds, nested=nested)
            o2 = ex2.run()
            v.bodies = v.bodies | o2.bodies
            v.stats["join_free_partitions"] = v.stats.get("join_free_partitions", 0) + o2.stats["partitions"]
            if o2.alarms:
                v.alarms = o2.alarms
                break
        if not v.alarms and not clean:
            v.alarms = long_paths(ob, out.constants, v, unroll, max_secs, kinds)
        if v.alarms:
            v.status = "violated"
        elif not clean:
            v.status = "undecided"
            v.undecided = ["fixpoint alarm not confirmed: %s %s [%s]" % (a.kind, a.msg, a.where) for a in fixal] + v.undecided
    v.secs = time.time() - t
    return v


def decide_agreement(parse_ob, peek_ob, direct, max_secs=120, unroll=(2, 3), deep=False):
    """parse and peek agree: both refine references that agree; if not, compare them directly"""
    vp, vk = decide(parse_ob, max_secs, unroll), decide(peek_ob, max_secs, unroll)
    v = Verdict(direct)
    v.stats = {k: vp.stats.get(k, 0) + vk.stats.get(k, 0) for k in set(vp.stats) | set(vk.stats)}
    v.bodies = vp.bodies | vk.bodies
    if vp.status == "holds" and vk.status == "holds" and not deep:
        v.secs = vp.secs + vk.secs
        return v
    for k, nested in [(k, False) for k in unroll] + [(unroll[-1], True)]:
        o = Explorer(direct, "unroll", unroll=k, max_secs=max_secs / 2.0, kinds=("accepts", "rejects", "position"), nested=nested).run()
        if o.alarms:
            v.alarms = o.alarms
            v.status = "violated"
            break
    else:
        if vp.status != "holds" or vk.status != "holds":
            v.alarms = long_paths(direct, vp.constants | vk.constants, v, unroll, max_secs, ("accepts", "rejects", "position"))
        if v.alarms:
            v.status = "violated"
        elif vp.status != "holds" or vk.status != "holds":
            v.status = "undecided"
            v.undecided = ["parse: %s, peek: %s; no disagreement on the join-free partitions" % (vp.status, vk.status)]
    v.secs = vp.secs + vk.secs
    return v
