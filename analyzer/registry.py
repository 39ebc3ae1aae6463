"""Which obligations decide which property."""
from lin import sym
from lin import Lin
from machine import I, Breach, field
from analysis import success, Cfg, Obligation, Verdict, decide, decide_agreement, load_program
from product import Alarm
from derive import Derive
import build
import fail

MAX = I(sym("max"))
FUNCTIONAL = ("accepts", "rejects", "value", "position", "panic")
LISTS = ("pv", "pvs", "pvt", "pvm")
LEAVES = ("ttag", "btag", "tone", "bone", "tany", "tany1", "twn1", "bany1", "space", "eol", "ws")
ENTRY = ("entry", "entry_all")
COMBS = ("option", "vec", "vec1", "array", "box")

# where each obligation is anchored in the repository
ANCHOR = {
    "option": "nommy/src/impls.rs <Option<P> as Parse>::parse", "vec": "nommy/src/impls.rs <Vec<P> as Parse>::parse",
    "vec1": "nommy/src/impls.rs <Vec1<P> as Parse>::parse", "array": "nommy/src/impls.rs <[P; N] as Parse>::parse",
    "entry": "nommy/src/lib.rs parse", "entry_all": "nommy/src/lib.rs parse_terminated",
    "box": "nommy/src/impls.rs <Box<P> as Parse>::parse", "default_peek": "nommy/src/lib.rs Parse::peek",
    "pv": "nommy/src/vec.rs parse_vec", "pvs": "nommy/src/vec.rs parse_vec_seperated_by",
    "pvt": "nommy/src/vec.rs parse_vec_seperated_by_trailing",
    "pvm": "nommy/src/vec.rs parse_vec_seperated_by_maybe_trailing",
    "ttag": "nommy/src/text/tag.rs <Tag as Parse>::parse", "btag": "nommy/src/bytes/tag.rs <Tag as Parse>::parse",
    "tone": "nommy/src/text/one_of.rs <OneOf as Parse>::parse", "bone": "nommy/src/bytes/one_of.rs <OneOf as Parse>::parse",
    "tany": "nommy/src/text/many.rs <AnyOf as Parse>::parse", "tany1": "nommy/src/text/many.rs <AnyOf1 as Parse>::parse",
    "twn1": "nommy/src/text/many.rs <WhileNot1 as Parse>::parse",
    "bany1": "nommy/src/bytes/many.rs <AnyOf1 as Parse>::parse",
    "space": "nommy/src/text/mod.rs <Space as Parse>::parse", "eol": "nommy/src/text/mod.rs <LineEnding as Parse>::parse",
    "ws": "nommy/src/text/mod.rs <WhiteSpace as Parse>::parse",
    "number": "nommy/src/text/many.rs <usize as TryFrom<AnyOf1>>::try_from",
}
ZERO = {"array": {"P": "quiet"}}
ZERO.update({n: {"S": "quiet"} for n in LISTS})


def arguments(n):
    return (MAX, "buf") if n in LISTS else ("src",) if n in ENTRY else ("buf",)


def anchor(n):
    if n.endswith("_peek") and n[:-5] in ANCHOR:
        return ANCHOR[n[:-5]].replace("::parse", "::peek")
    return ANCHOR.get(n, n)


class Missing(Exception):
    pass


class Task:
    """one obligation of one property: run() -> Verdict"""

    def __init__(self, name, run, needs=("nommy",)):
        self.name, self.run, self.needs = name, run, needs


class Core:
    def __init__(self):
        d, mirs, _ = build.witness_mir("core")
        self.program = load_program(mirs, [d])
        self.cfg = Cfg(self.program)
        self.buffers = Cfg(self.program)
        self.buffers.concrete_buffers = True

    def body(self, n):
        b = self.program.bodies.get(("wit", n))
        if b is None:
            raise Missing("no MIR body for witness function " + n)
        return b

    def ob(self, n, a=None, b=None, **kw):
        z = ZERO.get(n.replace("_peek", ""), True)
        args = arguments(n)
        kw.setdefault("zero_ok", z)
        return Obligation(self.cfg, n, self.body(a or "a_" + n), self.body(b or "s_" + n), anchor(n), args=args, **kw)

    def task(self, n, kinds=FUNCTIONAL, tag="", **kw):
        ob = self.ob(n, **kw)
        return Task(n + tag, lambda tier: decide(ob, kinds=kinds, **effort(tier)))

    def agree(self, n):
        p = self.ob(n) if n != "default" else None
        k = self.ob(n + "_peek")
        d = Obligation(self.cfg, n + " parse/peek", self.body("a_" + n), self.body("a_" + n + "_peek"),
                       anchor(n + "_peek"), args=("buf",), zero_ok=ZERO.get(n, True), agree=True)
        return Task(n + " parse/peek", lambda tier: decide_agreement(p, k, d, **effort(tier)))

    def alone(self, n, kinds, tag, term=None, check=None, setup=None, zero=None, unroll=None, a=None):
        """the repository side on its own"""
        args = arguments(n)
        z = ZERO.get(n.replace("_peek", ""), True) if zero is None else zero
        ob = Obligation(self.cfg, n + tag, self.body(a or "a_" + n), None, anchor(n), args=args, zero_ok=z, term=term,
                        check=check, setup=setup)

        def run(tier):
            e = effort(tier)
            if unroll:
                e["unroll"] = unroll
            return decide(ob, kinds=kinds, **e)
        return Task(n + tag, run)

    def self_check(self, n):
        """the two references agree with one another"""
        ob = Obligation(self.cfg, n + " references", self.body("s_" + n), self.body("s_" + n + "_peek"),
                        "reference", args=("buf",), zero_ok=ZERO.get(n, True), agree=True)
        return Task(n + " references", lambda tier: decide(ob, **effort(tier)), needs=())


def effort(tier):
    if tier == "thorough":
        return {"max_secs": 400, "unroll": (2, 3, 4), "deep": True}
    return {"max_secs": 60, "unroll": (2, 3)}


def derive_task(c, what, fn, **kw):
    """an obligation on one declaration; if the derive does not even compile for it, that is the violation"""
    d = derived()
    name = "derive %s %s" % (c.name, what)
    if c.name in d.dropped:
        v = Verdict(None)
        v.name, v.status, v.bare = name, "violated", True
        v.alarms = [Alarm("compile", "this declaration does not compile: " + d.dropped[c.name], " ".join(c.decl().split()), [])]
        return Task(name, lambda tier: v)
    return Task(name, fn, needs=("dwit",))


def dparse(c, peek=False, kinds=FUNCTIONAL):
    def run(tier):
        return decide(derived().ob(c, peek), kinds=kinds, **effort(tier))
    return derive_task(c, "peek" if peek else "parse", run)


def dmessage(c):
    """what the errors say"""
    return derive_task(c, "messages", lambda tier: decide(derived().ob(c, errors=True, tag=" messages"), kinds=("message",), **effort(tier)))


def dboth(c):
    return [dparse(c), dparse(c, True)]


def dagree(c):
    return derive_task(c, "parse/peek", lambda tier: decide_agreement(*derived().agreement(c), **effort(tier)))


def dalone(c, kinds, tag, peek=False, unroll=None, **kw):
    def run(tier):
        e = effort(tier)
        if unroll:
            e["unroll"] = unroll
        return decide(derived().ob(c, peek, alone=True, tag=" " + tag, **kw), kinds=kinds, **e)
    return derive_task(c, ("peek " if peek else "") + tag, run)


def select(pid):
    """the declarations that exercise a property"""
    out = []
    for c in derived().cases.values():
        bodies = c.all_bodies()
        outer = c.outer
        lists = any(f.inner for b in bodies for f in b.fields)
        ign = any(b.ignore for b in bodies) or outer and outer.ignore
        on = {
            "D01": c.body and not lists,
            "D02": bool(outer),
            "D03": ign,
            "D05": lists,
            "D08": outer and (outer.ignore or outer.parse_type or outer.prefix or outer.suffix),
            "V04": c.conversions(),
        }.get(pid, False)
        if on or pid in c.props:
            out.append(c)
    return out


def skippers(c):
    """only the ignore parsers may succeed without consuming (elements are decided on the list helpers)"""
    z = derived().zero(c)
    for b in c.all_bodies() + ([c.outer] if c.outer else []):
        z.update({i: True for i in b.ignore})
    return z


def every():
    return list(derived().cases.values())


_derive = []


def derived():
    if not _derive:
        _derive.append(Derive())
    return _derive[0]


_fail = []


def mistakes():
    if not _fail:
        _fail.append(fail.Mistakes())
    m = _fail[0]
    return [Task("%s: %s" % k, lambda tier, k=k: m.verdict(*k), needs=()) for k in m.groups]


_core = []


def core():
    if not _core:
        _core.append(Core())
    return _core[0]


def both(names):
    return [x for n in names for x in (n, n + "_peek")]


# ---- length limits
def limit_setup(st):
    """count the elements parsed; no attempt may be made once the count is at the limit"""
    a = st.a
    cell = a.alloc(I(0))
    st.roots_a = st.roots_a + [("elements", cell)]

    def attempt(m, name, meth):
        g = m.mem[cell][1]
        if not m.fx.need_ge0(sym("max") - g - 1, "%r below the maximum" % g):
            raise Breach("an element is attempted after the maximum has been reached")

    def got(m, name, meth):
        m.mem[cell] = I(m.mem[cell][1] + 1)
    a.ghost = {("P", "parse"): attempt, ("P", "peek"): attempt, ("P", "parse", "ok"): got}


def limit_check(ob, ex, st):
    r = st.a.result
    if success(r):
        v = st.a.load(field(r, 0, "Ok"))
        n = st.a.length(v)
        if not st.fx.ge0(sym("max") - n):
            raise_alarm(ex, st, "limit", "returns %r elements with a maximum of max" % n, ob)


def zero_setup(st):
    st.fx.add_eq(sym("max"), Lin(0))


def zero_check(ob, ex, st):
    r = st.a.result
    if not success(r):
        return raise_alarm(ex, st, "limit", "fails with a maximum of zero", ob)
    if not st.fx.eq(st.a.length(st.a.load(field(r, 0, "Ok"))), Lin(0)):
        return raise_alarm(ex, st, "limit", "returns elements with a maximum of zero", ob)
    if not st.fx.eq(st.a.mem[st.roots_a[0][1]][1], sym("p0")):
        raise_alarm(ex, st, "limit", "consumes input with a maximum of zero", ob)


def conv_check(ob, ex, st):
    if st.fx.bad and success(st.a.result):
        raise_alarm(ex, st, "swallowed", "succeeds although a conversion failed", ob)


def raise_alarm(ex, st, kind, msg, ob):
    ex.alarm(st, kind, msg, ob.anchor)


def large_max(st):
    """no limit to speak of"""
    st.fx.add_eq(sym("max"), sym("usize::MAX"))
    st.fx.add(sym("usize::MAX") - 1000000)


def limits():
    c = core()
    out = []
    for n in LISTS:
        out.append(c.alone(n, ("limit", "breach"), " limit", setup=limit_setup, check=limit_check))
        out.append(c.alone(n, ("limit", "breach"), " zero", setup=zero_setup, check=zero_check))
    return out


# ---- work done twice
def count_work(st):
    """count the applications of component parsers: the reference's less the repository's"""
    st.a.side, st.b.side = -1, 1
    st.fx.work = 0


def works(names):
    return [core().task(n, kinds=("work",), tag=" work", setup=count_work) for n in names]


def dwork(c, peek):
    def run(tier):
        return decide(derived().ob(c, peek, tag=" work", setup=count_work), kinds=("work",), **effort(tier))
    return derive_task(c, ("peek" if peek else "parse") + " work", run)


# ---- the buffers themselves
CLIENTS = {
    "B01": ("reads", "reads_nth", "reads_count", "reads_hint"),
    "B02": ("discards", "skips", "skips_after_cursor", "discards_cursor", "skips_cursor"),
    "B03": ("peeks", "peeks_cursor", "peeks_lazy", "cursor_lazy", "making_lazy"),
    "B04": ("cursor_quiet", "nested_quiet", "nested_root", "deeply_nested_quiet"),
    "B05": ("cursor_reads", "nested_reads", "thrice_nested_reads", "commits", "commits_nested"),
}


def client(n):
    """any history of operations on the repository's buffers, with claims about what they return"""
    c = core()
    ob = Obligation(c.buffers, "client " + n, c.body(n), None, "nommy/src/buffer.rs", args=("src",))
    ob.patience = 2                 # they are few
    return Task("client " + n, lambda tier: decide(ob, kinds=("breach", "panic"), **effort(tier)))


def clients(pid):
    return lambda: [client(n) for n in CLIENTS[pid]]


REPETITION = both(("vec", "vec1")) + list(LISTS)


def tasks(names, **kw):
    return lambda: [core().task(n, **kw) for n in names]


PROPS = {
    "B01": clients("B01"),
    "B02": clients("B02"),
    "B03": clients("B03"),
    "B04": clients("B04"),
    "B05": clients("B05"),
    "L01": tasks(both(("ttag", "btag"))),
    "L02": tasks(both(("tone", "bone", "space"))),
    "L03": tasks(both(("eol", "ws"))),
    "L04": tasks(both(("tany", "tany1", "twn1", "bany1"))),
    "L05": lambda: [core().agree(n) for n in LEAVES],
    "L06": tasks(("tone", "bone", "tany", "tany1", "twn1", "bany1", "number", "vec1"), kinds=("value", "accepts", "rejects", "panic")),
    "C01": tasks(both(("option",))),
    "C02": tasks(both(("vec", "vec1")) + ["vec1_views"]),
    "C03": tasks(both(("array",))),
    "C04": tasks(both(("box",))),
    "C05": lambda: [core().agree(n) for n in COMBS] + [core().task("default_peek")],
    "C06": tasks(("array",), kinds=("ub",)),
    "T01": tasks(ENTRY),
    "V01": tasks(("pv",)),
    "V02": tasks(("pvs", "pvt", "pvm")),
    "V03": limits,
    "V04": lambda: [core().alone(n, ("swallowed",), " conversions", check=conv_check) for n in LISTS] +
    [dalone(c, ("swallowed", "panic"), "conversions", check=conv_check) if c.body else dparse(c, kinds=("accepts", "panic"))
     for c in select("V04")],
    "C07": lambda: [core().alone(n, ("loop",), " progress", term="progress", zero=True, unroll=(6, 16),
                                 setup=large_max if n in LISTS else None) for n in REPETITION] +
    [dalone(c, ("loop",), "progress", peek=k, term="progress", zero_ok=skippers(c), unroll=(6,)) for c in select("D03") for k in (False, True)],
    "C08": lambda: [core().alone(n, ("panic",), " panics") for n in both(COMBS + LEAVES) + list(LISTS + ENTRY) + ["number"]] +
    [dalone(c, ("panic",), "panics", peek=k) for c in every() for k in (False, True)],
    "C09": lambda: [core().alone(n, ("loop",), " terminates", term="finite", unroll=(6,))
                    for n in both(COMBS + LEAVES) + list(LISTS + ENTRY) + ["number"]] +
    [dalone(c, ("loop",), "terminates", peek=k, term="finite", unroll=(6,)) for c in every() if c in select("D03") + select("D05") for k in (False, True)],
    "D01": lambda: [dparse(c) for c in select("D01")],
    "D02": lambda: [dparse(c) for c in select("D02")],
    "D03": lambda: [t for c in select("D03") for t in dboth(c)],
    "D04": lambda: [dagree(c) for c in every()],
    "D05": lambda: [t for c in select("D05") for t in dboth(c)],
    "D06": mistakes,
    "D07": lambda: [t for c in select("D07") for t in dboth(c)],
    "D08": lambda: [t for c in select("D08") for t in dboth(c)],
    "D09": lambda: [t for c in select("D09") for t in dboth(c)],
    "P01": lambda: [dparse(c, kinds=("accepts", "value")) for c in every()],
    "P05": lambda: works(both(COMBS) + list(LISTS + ENTRY) + ["default_peek"]) + [dwork(c, k) for c in every() for k in (False, True)],
    "P04": lambda: [dmessage(c) for c in every()],
}

# counted by hand on the current tree
FLOOR = {"L01": 4, "L02": 6, "L03": 4, "L04": 8, "L05": 11, "L06": 8, "C01": 2, "C02": 5, "C03": 2, "C04": 2, "C05": 6,
         "C06": 1, "T01": 2, "V01": 1, "V02": 3, "V03": 8, "D01": 60, "D02": 61, "D03": 210, "D04": 196, "D05": 186, "D06": 103, "D07": 134, "D08": 90,
         "D09": 76, "P01": 196, "P04": 196, "P05": 409, "V04": 76, "C07": 218, "C08": 431, "C09": 321, "B01": 4, "B02": 5, "B03": 5, "B04": 4, "B05": 5}

RULE = {"D06": "Compile-fail witnesses: every class of mistake at every place an attribute can stand, each in a module of its own, "
               "handed to the compiler with /repo's derive; each has to be refused at its own lines, and the correct twins have to pass. "
               "An obligation is one class at one place; 'declarations' counts its witnesses."}
CLIENTS_TECH = "abstract interpretation (relational dataflow fixpoint) of rustc MIR of most general clients of the buffers, with ghost positions"
TECHNIQUE = {
    "D06": "compile-fail witnesses (type-level rejection of every mistaken declaration by the compiler running the derive)",
    "B01": CLIENTS_TECH,
    "B02": CLIENTS_TECH,
    "B03": CLIENTS_TECH,
    "B04": CLIENTS_TECH,
    "B05": CLIENTS_TECH,
    "P05": "abstract interpretation of rustc MIR, attempts at component parsers counted against the reference's (cost relation)",
    "P04": "abstract interpretation of rustc MIR, propagation of error messages and causes against a labelled reference",
    "V03": "abstract interpretation of rustc MIR with a ghost element counter (typestate on the attempt/limit order)",
    "V04": "abstract interpretation of rustc MIR, error-propagation (taint of failed conversions)",
    "C06": "abstract interpretation of rustc MIR with an initialisation/ownership domain",
    "C07": "abstract interpretation of rustc MIR, progress ranking on every loop",
    "C08": "abstract interpretation of rustc MIR, reachability of panics",
    "C09": "abstract interpretation of rustc MIR, lexicographic ranking of every loop",
}
LEVEL_NOTE = {}

ASSUMPTIONS = [
    "the element type's Clone copies its value; the source iterator stays at its end once it has reported it",
    "component parsers are functions of the upcoming input (same place, same outcome) and look ahead consistently",
    "no position or length reaches usize::MAX",
    "rustc's MIR for the witness build is the meaning of the source; the standard-library models in witness/core/src/models.rs "
    "and analyzer/calls.py are as documented by std",
]


def explain(pid):
    return RULE.get(pid, "Abstract interpretation of the compiler's intermediate representation (MIR) of the repository's functions, "
                         "run in lock step with a reference body over one shared base of facts (affine relations between positions, "
                         "lengths and counts, outcomes of component parsers per position, classes of items); loop heads are points of a "
                         "fixpoint, outcomes are compared for acceptance, value and position.")


def known_findings(pid):
    import json
    import os
    out = {}
    p = os.path.join(build.VERIF, "known_findings.json")
    for e in json.load(open(p)).get("known", []):
        if e["property"] == pid:
            out[(e["obligation"], e["kind"])] = e["what"]
    return out


def finding_key(pid, r):
    return (r["name"], r["alarms"][0][0])
