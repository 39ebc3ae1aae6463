"""Obligations about derived parsers: the code the macro generates for the declarations of gen_derive
is analysed against the reference each declaration stands for."""
import re

import build
import gen_derive
import rtypes
from rtypes import canon, show, try_type
from analysis import Cfg, Obligation, load_program, decide, decide_agreement
from machine import Stuck, field
from product import Mismatch
import calls


LABEL = "part "


def flat(n):
    """a body name as one path segment (file names keep their slashes)"""
    return n.replace("::", "|")


class Zero(dict):
    """parsers used repeatedly (list elements, ignores) consume something when they succeed; others need not"""

    def get(self, k, d=None):
        return dict.get(self, k, "quiet")


class DeriveCfg(Cfg):
    def __init__(self, program):
        Cfg.__init__(self, program)
        self.spec_crates = {"dwit", "wit"}
        self.recursive = None
        self.locals_ = {}
        for (cr, n), b in program.bodies.items():
            if "src/models" in (b.file or "") and re.match(r"(models::)?\w+$", n):
                self._models[n.split("::")[-1]] = b

    # ---- types declared inside generated functions
    def localise(self, t, f):
        if not isinstance(t, tuple):
            return t
        if t and t[0] == "proj" and "::" in t[3]:
            return self.local_of(self.method_prefix(t[1], t[2], t[3].split("::")[0]), t[3].split("::")[1:], t)
        if t and t[0] == "path" and "::" in t[1]:
            segs = t[1].split("::")
            for i in range(1, len(segs) - 1):
                b = self.helper(segs[:i], segs[i])
                if b is not None:
                    return self.local_of(b, segs[i + 1:], t)
        return tuple(self.localise(x, f) if isinstance(x, tuple) else x for x in t)

    def method_prefix(self, selfty, trait, meth):
        if trait is None or trait[0] != "path":
            return self.helper(show(selfty).split("<")[0].split("::"), meth)
        got = self.program.trait_impl(rtypes.canon_name(trait[1]), selfty, meth)
        return got[1] if got else None

    def helper(self, ty, meth):
        c = self.program.inherent("::".join(ty), meth)
        return c[0][1] if len(c) == 1 else None

    def local_of(self, body, rest, t):
        if body is None or len(rest) != 1:
            return t
        return ("path", "local@%s@%s@%s" % (body.crate, flat(body.name), rest[0]), ())

    def parser_body(self, selfty, meth, targs):
        if selfty[0] == "path" and selfty[1].startswith("local@"):
            p = selfty[1].split("@")
            return self.nested(p[1], "@".join(p[2:-1]), p[-1], meth), {"Self": selfty}
        if canon(selfty)[0] == "path" and canon(selfty)[1] == "Pair":
            return None, None
        return Cfg.parser_body(self, selfty, meth, targs)

    def nested(self, crate, owner, name, meth):
        key = (crate, owner, meth)
        if key in self.locals_:
            return self.locals_[key]
        found = []
        for (cr, n), b in self.program.bodies.items():
            if cr != crate:
                continue
            if flat(n).startswith(owner + "|<impl at ") and re.search(r">::%s$" % re.escape(meth), n) and flat(n)[len(owner) + 1:].count("<impl at") == 1:
                found.append(b)
        if len(found) > 1 or any(getattr(b, "dup", False) for b in found):
            raise Stuck("several local implementations of %s in %s" % (meth, owner))
        if not found:
            r = self.default_method("Parse", meth)
            if r is None:
                raise Stuck("no local implementation of " + meth)
        else:
            r = found[0]
        self.locals_[key] = r
        return r

    def component(self, m, selfty):
        return self.recursive is not None and len(m.frames) > 1 and canon(selfty)[0] == "path" and canon(selfty)[1] == self.recursive

    def opaque_conv(self, cs, cd):
        return bool(re.match(r"M\d+$", show(cd)))

    def infallible(self, cs, cd):
        return self.smooth

    smooth = False


class DeriveObligation(Obligation):
    def __init__(self, case, *a, smooth=False, errors=False, **k):
        Obligation.__init__(self, *a, **k)
        self.case, self.smooth, self.errors = case, smooth, errors

    def initial(self):
        self.cfg.recursive = self.case.name if self.case.recursive else None
        self.cfg.smooth = self.smooth
        self.cfg.errors = self.errors
        return Obligation.initial(self)

    def compare_errors(self, st, ra, rb):
        """the reference's error says which words the other one has to contain, and what failed underneath"""
        ea, eb = field(ra, 0, "Err"), field(rb, 0, "Err")
        if not calls.is_error(eb) or not eb[2][0].startswith(LABEL):
            return
        if not calls.is_error(ea):
            raise Stuck("what the error says is not a constant")
        want = eb[2][0].split("\n")[0][len(LABEL):]
        for w in want.split(" "):
            w = w[2:] if w.startswith("r#") else w
            w = r"(?<!\d)%s(?!\d)" % w if w.isdigit() else r"(?<!\w)%s(?!\w)" % re.escape(w)
            if not re.search(w, ea[2][0]):
                raise Mismatch("the error for %s says `%s`" % (want, ea[2][0].strip().replace("\n", ": ")), "message")
        ca, cb = ea[2][1], eb[2][1]
        if cb[0] == "t" and not (ca[0] == "t" and ca[2][0] == cb[2][0] and st.fx.eq(ca[2][1], cb[2][1])):
            raise Mismatch("the error for %s does not carry the failure of %s underneath" % (want, cb[2][0]), "message")


class Derive:
    def __init__(self):
        d, mirs, self.dropped = build.witness_mir("derive")
        self.program = load_program(mirs, [d])
        self.cfg = DeriveCfg(self.program)
        self.cases = {c.name: c for c in gen_derive.cases()}

    def body(self, n):
        return self.program.bodies.get(("dwit", n)) or self.program.bodies[("dwit", "cases::" + n)]

    def zero(self, c):
        return Zero({n: False for n in c.names() | c.repeated()})

    def ob(self, c, peek=False, alone=False, tag="", **kw):
        s = c.low + ("_peek" if peek else "")
        kw.setdefault("zero_ok", self.zero(c))
        return DeriveObligation(c, self.cfg, "derive %s%s%s" % (c.name, " peek" if peek else "", tag), self.body("a_" + s),
                                None if alone else self.body("s_" + s),
                                "nommy-derive: %s of %s" % ("peek" if peek else "parse", " ".join(c.decl().split())), args=("buf",), **kw)

    def agreement(self, c):
        z = self.zero(c)
        d = DeriveObligation(c, self.cfg, "derive %s parse/peek" % c.name, self.body("a_" + c.low), self.body("a_" + c.low + "_peek"),
                             "nommy-derive: peek of %s" % " ".join(c.decl().split()), args=("buf",), zero_ok=z, agree=True, smooth=True)
        return self.ob(c), self.ob(c, True), d
