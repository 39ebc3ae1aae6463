"""Derive cases: declarations paired with the reference parser the documentation gives them.

A case is described once (parts in declared order); `rust()` writes the declaration with its
attributes and, separately, the reference functions.  The reference never looks at the derive's
output."""
import itertools
import random
import re

STYLE_ONE, STYLE_MANY, STYLE_REV, STYLE_REV_MANY = range(4)


class Fld:
    def __init__(self, ty, name=None, parser=None, prefix=None, suffix=None, inner=None, elem=None, sep=None, trailing=None,
                 style=STYLE_ONE, vis="", spell=None, notes=("", "")):
        self.notes = notes                # attributes that are not the derive's, before and after its own
        self.ty, self.name, self.parser, self.prefix, self.suffix = ty, name, parser, prefix, suffix
        self.inner, self.elem, self.sep, self.trailing, self.style = inner, elem or inner, sep, trailing, style
        self.vis = vis
        self.spell = spell or {}          # option -> how it is spelled in the attribute
        if inner and ty is None:
            self.ty = "Vec<%s>" % self.elem

    def options(self):
        o = []
        for k, v in (("prefix", self.prefix), ("parser", self.parser), ("inner_parser", self.inner), ("seperated_by", self.sep),
                     ("suffix", self.suffix)):
            if v is not None:
                o.append("%s = %s" % (k, self.spell.get(k, v)))
        if self.trailing is not None:
            o.append('trailing = "%s"' % self.trailing)
        return self.notes[0] + attrs(o, self.style) + self.notes[1]


def attrs(o, style):
    if not o:
        return ""
    if style in (STYLE_REV, STYLE_REV_MANY):
        o = o[::-1]
    if style in (STYLE_ONE, STYLE_REV):
        return "#[nommy(%s)] " % ", ".join(o)
    return "".join("#[nommy(%s)] " % x for x in o)


class Body:
    """the fields of a struct or variant with its own prefix, suffix and ignore parsers"""

    def __init__(self, kind, fields=(), prefix=None, suffix=None, ignore=(), style=STYLE_ONE, parse_type=None, spell=None, notes=("", "")):
        self.notes = notes
        self.kind, self.fields, self.prefix, self.suffix, self.ignore = kind, list(fields), prefix, suffix, list(ignore)
        self.style, self.parse_type = style, parse_type
        self.spell = spell or {}
        if kind == "named":
            for i, f in enumerate(self.fields):
                if f.name is None:
                    f.name = "f%d" % i

    def options(self):
        o = []
        for k, v in (("prefix", self.prefix), ("suffix", self.suffix)):
            if v is not None:
                o.append("%s = %s" % (k, self.spell.get(k, v)))
        for v in self.ignore:
            o.append("ignore = %s" % self.spell.get("ignore", v) if "ignore" in self.spell else "ignore = %s" % v)
        if self.parse_type:
            o.append("parse_type = %s" % self.parse_type)
        return self.notes[0] + attrs(o, self.style) + self.notes[1]

    def decl(self, vis):
        fs = [f.options() + f.vis + ("%s: " % f.name if self.kind == "named" else "") + f.ty for f in self.fields]
        if self.kind == "named":
            return " { %s }" % ", ".join(fs)
        if self.kind == "tuple":
            return "(%s)" % ", ".join(fs)
        return ""


class Case:
    def __init__(self, name, body=None, variants=None, outer=None, generics="", gargs=(), props=("D01",), recursive=False, item=None, made=()):
        """a struct (body) or an enum (outer, variants)"""
        self.made = made          # (type, kind) that a macro which writes the declaration is handed
        self.name, self.body, self.variants, self.outer = name, body, variants, outer
        self.generics, self.gargs = generics, list(gargs)
        self.props = set(props)
        self.recursive = recursive
        self.item = item or (body or outer).parse_type or "T"

    def all_bodies(self):
        return [self.body] if self.body else [b for _, b in self.variants]

    @property
    def low(self):
        return self.name.lower()

    def ty(self):
        return self.name + ("<%s>" % ", ".join(self.gargs) if self.gargs else "")

    # ---- declaration
    def decl(self):
        d, params, args = self.plain(), [], []
        for i, (t, kind) in enumerate(self.made):
            d = re.sub(r"(?<!\w)%s(?![\w<])" % re.escape(t), "$$m%d" % i, d)
            params.append("$m%d:%s" % (i, kind))
            args.append(t)
        if not params:
            return d
        return "macro_rules! %s { (%s) => {\n%s\n} }\nmake_%s!(%s);" % ("make_" + self.low, ", ".join(params), d.replace("$$", "$"), self.low, ", ".join(args))

    def plain(self):
        g = "<%s>" % ", ".join(self.gargs) if self.gargs else ""
        if self.body:
            b = self.body
            return "#[derive(Parse)]\n%spub struct %s%s%s%s" % (b.options(), self.name, g, b.decl("pub "), "" if b.kind == "named" else ";")
        vs = ["    %s%s%s," % (b.options(), n, b.decl("")) for n, b in self.variants]
        return "#[derive(Parse)]\n%spub enum %s%s {\n%s\n}" % (self.outer.options(), self.name, g, "\n".join(vs))

    # ---- reference
    def ig(self, ignore):
        if not ignore:
            return "No"
        return {1: "One", 2: "Two", 3: "Three", 4: "Four", 5: "Five", 6: "Six"}[len(ignore)] + "<" + ", ".join(ignore) + ">"

    def steps(self, body, ig, name, peek):
        T = self.item
        out = []
        skip = "    <%s as Skip<%s>>::skip(input);\n" % (ig, T)

        def need(p, what):
            if p is not None:
                if peek:
                    out.append("    if !<%s as Parse<%s>>::peek(input) { return false; }\n" % (p, T))
                else:
                    out.append("    need::<%s, %s, _>(input, \"part %s\")?;\n" % (p, T, what))
                out.append(skip)
        need(body.prefix, "prefix " + name)
        for i, f in enumerate(body.fields):
            label = f.name or str(i)
            need(f.prefix, "prefix " + label)
            if f.inner:
                fn = {None: "between", "no": "between", "yes": "after", "maybe": "around"}[f.trailing] if f.sep else "plain"
                a = [f.inner, f.elem] + ([f.sep] if f.sep else []) + [ig, T, "_"]
                call = "%s::<%s>(input)" % (fn, ", ".join(a))
                if peek:
                    out.append("    if %s.is_err() { return false; }\n" % call)
                else:
                    out.append("    let v%d: Vec<%s> = %s?;\n" % (i, f.elem, call))
            else:
                p = (f.parser or f.ty).replace("Self", self.ty())
                if peek:
                    out.append("    if !<%s as Parse<%s>>::peek(input) { return false; }\n" % (p, T))
                elif f.parser and f.parser != f.ty:
                    out.append("    let v%d: %s = match part(<%s as Parse<%s>>::parse(input), \"part %s\")?.try_into() { Ok(q) => q, Err(_) => return fail() };\n" % (i, f.ty, p, T, label))
                else:
                    out.append("    let v%d = part(<%s as Parse<%s>>::parse(input), \"part %s\")?;\n" % (i, p, T, label))
            out.append(skip)
            need(f.suffix, "suffix " + label)
        need(body.suffix, "suffix " + name)
        return "".join(out)

    def make(self, path, body):
        if body.kind == "named":
            return "%s { %s }" % (path, ", ".join("%s: v%d" % (f.name, i) for i, f in enumerate(body.fields)))
        if body.kind == "tuple":
            return "%s(%s)" % (path, ", ".join("v%d" % i for i in range(len(body.fields))))
        return path

    def ignored(self, body):
        """ignore parsers in the order they are written"""
        return body.ignore[::-1] if body.style in (STYLE_REV, STYLE_REV_MANY) else body.ignore

    def rust(self):
        T = self.item
        gl = [g for g in self.gargs]
        head = ([] if T != "T" else ["T"]) + ["%s: Parse<%s>" % (g, T) for g in gl]
        sig = "<%s>" % ", ".join(head + ["Bf: Buffer<%s>" % T])
        call = "::<%s>" % ", ".join(([] if T != "T" else ["T"]) + gl + ["_"])
        o = [self.decl(), "\n"]
        me = "<%s as Parse<%s>>" % (self.ty(), T)
        bound = self.where()
        o.append("pub fn a_%s%s(input: &mut Bf) -> Res<%s>%s { %s::parse(input) }\n" % (self.low, sig, self.ty(), bound, me))
        o.append("pub fn a_%s_peek%s(input: &mut Bf) -> bool%s { %s::peek(input) }\n" % (self.low, sig, bound, me))
        if self.body:
            ig = self.ig(self.ignored(self.body))
            o.append("pub fn s_%s%s(input: &mut Bf) -> Res<%s>%s {\n%s    Ok(%s)\n}\n" % (
                self.low, sig, self.ty(), bound, self.steps(self.body, ig, self.name, False), self.make(self.name, self.body)))
            o.append("pub fn s_%s_peek%s(input: &mut Bf) -> bool%s {\n%s    true\n}\n" % (self.low, sig, bound, self.steps(self.body, ig, self.name, True)))
            return "".join(o)
        oig = self.ig(self.ignored(self.outer))
        for i, (n, b) in enumerate(self.variants):
            ig = self.ig(self.ignored(b) + self.ignored(self.outer))
            o.append("fn v_%s_%d%s(input: &mut Bf) -> Res<%s>%s {\n%s    Ok(%s)\n}\n" % (
                self.low, i, sig, self.ty(), bound, self.steps(b, ig, n, False), self.make(self.name + "::" + n, b)))
            o.append("fn v_%s_%d_peek%s(input: &mut Bf) -> bool%s {\n%s    true\n}\n" % (self.low, i, sig, bound, self.steps(b, ig, n, True)))

        def fix(p, peek, what=""):
            if p is None:
                return ""
            if peek:
                r = "    if !<%s as Parse<%s>>::peek(input) { return false; }\n" % (p, T)
            else:
                r = "    need::<%s, %s, _>(input, \"part %s %s\")?;\n" % (p, T, what, self.name)
            return r + "    <%s as Skip<%s>>::skip(input);\n" % (oig, T)
        s = fix(self.outer.prefix, False, "prefix")
        chain = "    return fail_as(\"part %s\");\n" % self.name
        pchain = "    return false;\n"
        s += "    let out;\n"
        ps = fix(self.outer.prefix, True)
        for i in range(len(self.variants)):
            s += "    let mut c = input.cursor();\n    if let Ok(v) = v_%s_%d%s(&mut c) { let n = c.position(); input.fast_forward(n); out = v; } else {\n" % (self.low, i, call)
            ps += "    let mut c = input.cursor();\n    if v_%s_%d_peek%s(&mut c) { let n = c.position(); input.fast_forward(n); } else {\n" % (self.low, i, call)
        s += chain + "    }" * len(self.variants) + "\n" + fix(self.outer.suffix, False, "suffix") + "    Ok(out)\n"
        ps += pchain + "    }" * len(self.variants) + "\n" + fix(self.outer.suffix, True) + "    true\n"
        if not self.variants:
            s, ps = "    fail()\n", "    false\n"
        o.append("pub fn s_%s%s(input: &mut Bf) -> Res<%s>%s {\n%s}\n" % (self.low, sig, self.ty(), bound, s))
        o.append("pub fn s_%s_peek%s(input: &mut Bf) -> bool%s {\n%s}\n" % (self.low, sig, bound, ps))
        return "".join(o)

    def where(self):
        return ""

    def conversions(self):
        """(from, to) pairs that are not the identity"""
        r = set()
        for b in self.all_bodies():
            for f in b.fields:
                if f.inner and f.elem != f.inner:
                    r.add((f.inner, f.elem))
                if not f.inner and f.parser and f.parser != f.ty:
                    r.add((f.parser, f.ty))
        return r

    def repeated(self):
        """component parsers repeated inside a field's own type"""
        z = set()
        for b in self.all_bodies():
            for f in b.fields:
                for x in (f.ty, f.parser, f.prefix, f.suffix):
                    for k in re.findall(r"(?:Vec|Option)<(?:Box<)?([^<>]*)>", x or ""):
                        z.add(k)
        return z

    def names(self):
        """component parsers that an ignore or list position uses (a success consuming nothing is an error of the user there)"""
        z = set()
        for b in self.all_bodies() + ([self.outer] if self.outer else []):
            z |= set(b.ignore)
            for f in b.fields:
                if f.inner:
                    z.add(f.inner)
        return z


F = Fld


def cases():
    out = []

    def add(*a, **k):
        out.append(Case(*a, **k))
    # ---- structs: order of the parts
    full = lambda: [F("A", prefix="P"), F("B", suffix="Q"), F("C", prefix="R", suffix="S"), F("D")]
    for kind in ("named", "tuple"):
        k = kind[0]
        add("S1" + k, Body(kind, [F("A"), F("B"), F("C")]))
        add("S2" + k, Body(kind, full()))
        add("S3" + k, Body(kind, full(), prefix="U", suffix="V"))
        add("S4" + k, Body(kind, [F("A"), F("A"), F("A", prefix="A"), F("A", suffix="A")], prefix="A"))
        add("S5" + k, Body(kind, [], prefix="P", suffix="Q"))
        add("S6" + k, Body(kind, []))
        add("S7" + k, Body(kind, [F("A"), F("M1", parser="B"), F("M2", parser="C", prefix="P"), F("D")]), props=("D01", "V04", "P01"))
        add("S8" + k, Body(kind, [F("Option<A>"), F("Vec<B>"), F("Box<C>")], suffix="P"))
        add("S9" + k, Body(kind, [F("A", prefix="P", suffix="Q")]))
        add("I1" + k, Body(kind, full(), ignore=["I"]), props=("D03", "D01"))
        add("I2" + k, Body(kind, full(), prefix="U", suffix="V", ignore=["I", "J"]), props=("D03", "D01"))
        add("I3" + k, Body(kind, [F("A"), F("B", suffix="Q")], prefix="U", ignore=["I", "J", "K"]), props=("D03",))
        add("I4" + k, Body(kind, [F("A"), F("Option<B>"), F("C")], suffix="W", ignore=["I"]), props=("D03",))
    add("S1u", Body("unit"))
    add("S2u", Body("unit", prefix="P"))
    add("S3u", Body("unit", suffix="Q"))
    add("S4u", Body("unit", prefix="P", suffix="Q"))
    add("I1u", Body("unit", prefix="P", suffix="Q", ignore=["I"]), props=("D03", "D01"))
    add("I2u", Body("unit", suffix="Q", ignore=["I", "J"]), props=("D03",))
    # ---- lists
    modes = [(None, None), ("S", None), ("S", "no"), ("S", "yes"), ("S", "maybe")]
    for i, (sep, tr) in enumerate(modes):
        for kind in ("named", "tuple"):
            for ig in ([], ["I"]):
                add("L%d%s%d" % (i, kind[0], len(ig)), Body(kind, [F(None, inner="A", elem="A", sep=sep, trailing=tr), F("B")], ignore=ig),
                    props=("D05",) + (("D03",) if ig else ()))
        add("L%dc" % i, Body("tuple", [F(None, inner="A", elem="M1", sep=sep, trailing=tr, prefix="P", suffix="Q"), F("B")], prefix="U"),
            props=("D05", "V04", "P01"))
        add("L%di" % i, Body("named", [F("B"), F(None, inner="A", elem="M1", sep=sep, trailing=tr, prefix="P", suffix="Q")], ignore=["I", "J"], suffix="W"),
            props=("D05", "D03", "V04"))
    add("L5", Body("tuple", [F(None, inner="A", sep="S"), F(None, inner="B", sep="S", trailing="maybe")]), props=("D05",))
    # ---- enums
    add("E1", outer=Body("unit"), variants=[("Aa", Body("tuple", [F("A")])), ("Bb", Body("tuple", [F("B"), F("C")])), ("Cc", Body("named", [F("D")]))], props=("D02",))
    add("E2", outer=Body("unit", prefix="P", suffix="Q"), variants=[("Aa", Body("tuple", [F("A")])), ("Bb", Body("unit", prefix="B")), ("Cc", Body("named", [F("D"), F("E")]))], props=("D02", "D08"))
    add("E3", outer=Body("unit", ignore=["I"]), variants=[("Aa", Body("tuple", [F("A"), F("B")])), ("Bb", Body("unit", prefix="B")), ("Cc", Body("named", [F("D"), F("E", prefix="A")]))], props=("D08", "D03"))
    add("E4", outer=Body("unit", ignore=["I"], prefix="P", suffix="Q"), variants=[("Aa", Body("tuple", [F("A"), F("B")], ignore=["J"])), ("Bb", Body("unit", prefix="B", suffix="C", ignore=["K"])), ("Cc", Body("named", [F("D"), F("E")]))], props=("D08", "D02", "D03"))
    add("E5", outer=Body("unit"), variants=[("Aa", Body("tuple", [F("A", prefix="P"), F("B", suffix="Q")], prefix="R", suffix="S")), ("Bb", Body("named", [F("A", prefix="P"), F("B", suffix="Q")], prefix="R", suffix="V")), ("Cc", Body("unit", prefix="U", suffix="V")), ("Dd", Body("unit"))], props=("D02",))
    add("E6", outer=Body("unit", ignore=["I"]), variants=[("Aa", Body("tuple", [F(None, inner="A", sep="S", trailing="yes"), F("B")])), ("Bb", Body("named", [F("C"), F(None, inner="A", elem="M1", sep="S", trailing="maybe")])), ("Cc", Body("tuple", [F("M2", parser="C")]))], props=("D05", "D08", "P01", "V04"))
    add("E7", outer=Body("unit"), variants=[("Only", Body("tuple", [F("A")]))], props=("D02",))
    add("E8", outer=Body("unit", prefix="P"), variants=[("Ee", Body("unit")), ("Aa", Body("tuple", [F("A")]))], props=("D02",))
    add("E9", outer=Body("unit", suffix="W"), variants=[(n, Body("tuple", [F(t)])) for n, t in (("Aa", "A"), ("Bb", "B"), ("Cc", "C"), ("Dd", "D"), ("Ff", "E"))], props=("D02",))
    add("E10", outer=Body("unit", ignore=["I", "J"], suffix="W"), variants=[("Aa", Body("named", [F("A"), F("B")])), ("Bb", Body("tuple", [F("A"), F("C")]))], props=("D08", "D03", "D02"))
    add("E11", outer=Body("unit"), variants=[("Aa", Body("tuple", [F("A"), F("B")], ignore=["I"])), ("Bb", Body("tuple", [F("A"), F("C")])), ("Cc", Body("named", [F("A")], ignore=["J", "K"]))], props=("D08", "D03"))
    add("E12", outer=Body("unit", prefix="P", ignore=["I"]), variants=[("Aa", Body("tuple", [F("M1", parser="A")])), ("Bb", Body("tuple", [F("A")]))], props=("D02", "P01", "D08"))
    # ---- item types, generics, recursion
    add("T1", Body("tuple", [F("A"), F("B")], parse_type="u8", prefix="P"), props=("D09",))
    add("T2", outer=Body("unit", parse_type="char", ignore=["I"]), variants=[("Aa", Body("tuple", [F("A")])), ("Bb", Body("named", [F("B"), F("C")]))], props=("D08", "D09"))
    add("T3", Body("named", [F("A"), F(None, inner="B", sep="S")], parse_type="(u8, char)", ignore=["I"]), props=("D09", "D05"))
    add("T4", Body("unit", parse_type="Vec<u8>", prefix="P", suffix="Q", ignore=["I"]), props=("D09",))
    add("G1", Body("tuple", [F("X"), F("A"), F("Y")]), gargs=["X", "Y"], props=("D09",))
    add("G2", Body("named", [F("A"), F(None, inner="Y", sep="X", trailing="yes"), F("X")], suffix="X"), gargs=["X", "Y"], props=("D09", "D05"))
    add("G3", outer=Body("unit"), variants=[("Aa", Body("tuple", [F("X")])), ("Bb", Body("named", [F("Y"), F("X")]))], gargs=["X", "Y"], props=("D09", "D02"))
    add("G4", Body("named", [F("Vec<X>"), F("Option<Y>"), F("M4", parser="A")]), gargs=["X", "Y"], props=("D09",))
    add("R1", outer=Body("unit"), variants=[("Aa", Body("tuple", [F("A"), F("Box<R1>"), F("B")])), ("Bb", Body("tuple", [F("C")]))], recursive=True, props=("D09", "D02"))
    add("R2", outer=Body("unit", ignore=["I"]), variants=[("Aa", Body("tuple", [F("A", prefix="P")])), ("Bb", Body("named", [F(None, inner="R2", sep="S", trailing="maybe", prefix="P", suffix="Q")]))], recursive=True, props=("D09", "D05"))
    add("R3", Body("named", [F("A"), F("Option<Box<R3>>")]), recursive=True, props=("D09",))
    # ---- names
    hostile = ["input", "cursor", "result", "pos", "list", "ok", "err", "this", "x", "value", "output", "__input", "__cursor", "__result",
               "nommy", "std", "parse", "peek", "r#type", "r#fn", "r#match", "buf", "t", "e", "q"]
    for i in range(0, len(hostile), 5):
        add("N1x%d" % i, Body("named", [F("A", name=n) for n in hostile[i:i + 5]], ignore=["I"] if i % 2 else []), props=("D09",))
    add("N2", Body("named", [F(None, name="list", inner="A", sep="S"), F("B", name="input"), F(None, name="r#loop", inner="C")], prefix="P"), props=("D09",))
    add("N3", outer=Body("unit"), variants=[("r#Type", Body("named", [F("A", name="input"), F("B", name="r#fn")])), ("aa", Body("tuple", [F("B")])), ("AA", Body("tuple", [F("C")])), ("Aa", Body("unit", prefix="P")), ("aA", Body("named", [F("D", name="result")]))], props=("D09", "D02"))
    add("N4", outer=Body("unit", ignore=["I"]), variants=[("parse", Body("tuple", [F("A")])), ("peek", Body("tuple", [F("B")])), ("Parse", Body("unit", prefix="P")), ("Peek", Body("tuple", [F("C")]))], props=("D09",))
    # types with the names the generated code (or nommy) uses
    # ---- attribute spelling
    for st in (STYLE_MANY, STYLE_REV, STYLE_REV_MANY):
        add("Q1x%d" % st, Body("named", [F("A", prefix="P", suffix="Q", style=st), F("M1", parser="B", prefix="R", suffix="S", style=st)], prefix="U", suffix="V", ignore=["I", "J"], style=st), props=("D07",))
        add("Q2x%d" % st, Body("tuple", [F(None, inner="A", elem="M1", sep="S", trailing="yes", prefix="P", suffix="Q", style=st), F(None, inner="B", sep="S", trailing="maybe", style=st)], style=st), props=("D07",))
        add("Q3x%d" % st, outer=Body("unit", prefix="P", suffix="Q", ignore=["I"], style=st, parse_type="u8"), variants=[("Aa", Body("tuple", [F("A", prefix="R", suffix="S", style=st)], prefix="U", suffix="V", ignore=["J"], style=st)), ("Bb", Body("unit", prefix="B", suffix="C", style=st))], props=("D07",))
    add("Q4", Body("tuple", [F("Pair<A, B>", prefix="Pair<B, A>", suffix="Pair<C, Pair<A, B>>"), F("M3", parser="Pair<A, C>", prefix="P")], prefix="Pair<P, Q>", suffix="Pair<Q, P>", ignore=["Pair<I, J>", "K"]), props=("D07",))
    add("Q5", Body("tuple", [F(None, inner="Pair<A, B>", sep="Pair<S, S>", trailing="maybe", suffix="Q"), F("B")]), props=("D07",))
    add("Q6", Body("named", [F("A", prefix="P", suffix="Q", spell={"prefix": "crate::comp::P", "suffix": "self::Q"}), F("M1", parser="B", spell={"parser": "crate::comp::B"})],
                   prefix="U", suffix="V", spell={"prefix": "crate::comp::U", "suffix": "(V)"}), props=("D07",))
    add("Q7", Body("tuple", [F("[A; 2]", prefix="[P; 2]"), F("Vec<M9>", parser="Vec<A>") if False else F("Option<A>", prefix="Option<P>", suffix="Vec<Q>")]), props=("D07", "D01"))
    # ---- attributes that are none of the derive's business
    doc, lint = ("/** Documented: prefix = P. */ ", ""), ("#[allow(dead_code)] ", "#[doc(hidden)] /** And after. */ ")
    add("O1", Body("named", [F("A", notes=doc), F("M1", parser="B", prefix="P", notes=lint), F(None, inner="C", sep="S", notes=doc)], suffix="Q", ignore=["I"], notes=lint), props=("D09",))
    add("O2", Body("tuple", [F("A", notes=lint), F("B", suffix="Q", notes=doc)], prefix="P", notes=doc), props=("D09",))
    add("O3", outer=Body("unit", prefix="P", ignore=["I"], notes=lint), variants=[("Aa", Body("tuple", [F("A", notes=doc)], suffix="Q", notes=doc)), ("Bb", Body("named", [F("B", notes=lint)], notes=lint)), ("Cc", Body("unit", prefix="C", notes=lint))], props=("D09", "D02"))
    add("O4", Body("unit", prefix="P", suffix="Q", notes=doc), props=("D09",))
    # ---- the derive's own view of field types
    add("O8", Body("tuple", [F("X"), F("(Y)"), F("Pair<A, Z>"), F("crate::comp::Pair<B, Option<W>>")]), gargs=["X", "Y", "Z", "W"], props=("D09",))
    add("R8", outer=Body("unit"), variants=[("Aa", Body("tuple", [F("A"), F("std::boxed::Box<R8>"), F("B")])), ("Bb", Body("tuple", [F("C")]))], recursive=True, props=("D09",))
    add("R9", outer=Body("unit"), variants=[("Aa", Body("tuple", [F("Pair<A, (Box<R9>)>")])), ("Bb", Body("tuple", [F("C"), F("(Box<R9>)")])), ("Cc", Body("unit", prefix="D"))], recursive=True, props=("D09",))
    add("O9", Body("named", [F("A"), F("[X; 1]")]), gargs=["X"], props=("D09",))
    add("RA", outer=Body("unit"), variants=[("Aa", Body("tuple", [F("A"), F("[Box<RA>; 1]")])), ("Bb", Body("unit", prefix="B"))], recursive=True, props=("D09",))
    # ---- written by a macro, which hands on types it was given
    add("O5", Body("tuple", [F("A", prefix="P"), F("M1", parser="B"), F(None, inner="C", elem="M2", sep="S", trailing="maybe"), F("Option<D>")], suffix="Q", ignore=["I"]), made=[(x, "ty") for x in ("A", "P", "B", "C", "M2", "S", "Option<D>", "Q", "I")], props=("D09", "D07"))
    add("O6", Body("named", [F("X"), F("Option<Y>"), F(None, inner="A", sep="Y")], prefix="X"), gargs=["X", "Y"], made=[("Option<Y>", "ty"), ("A", "path")], props=("D09",))
    add("R6", outer=Body("unit"), variants=[("Aa", Body("tuple", [F("A"), F("Box<R6>"), F("B")])), ("Bb", Body("tuple", [F("C")]))], recursive=True, made=[("Box<R6>", "ty"), ("C", "ty")], props=("D09", "D02"))
    add("R7", outer=Body("unit"), variants=[("Aa", Body("named", [F("A"), F("Option<Box<R7>>"), F("B")])), ("Bb", Body("tuple", [F("C")]))], recursive=True, made=[("Box<R7>", "ty")], props=("D09",))
    add("O7", outer=Body("unit", prefix="P", ignore=["I"]), variants=[("Aa", Body("named", [F("A", suffix="Q")])), ("Bb", Body("unit", prefix="R"))], made=[("P", "path"), ("I", "ty"), ("A", "tt"), ("Q", "ty"), ("R", "tt"), ("Bb", "ident"), ("f0", "ident")], props=("D09",))
    # ---- sizes
    add("W1", Body("tuple", [F("A"), F("M1", parser="A")] + [F("B")] * 9 + [F("M1", parser="A"), F("C")], ignore=["I"]), props=("D09", "D01"))
    add("W2", outer=Body("unit"), variants=[("Aa", Body("tuple", [F("M1", parser="A")] + [F("B")] * 10 + [F("M1", parser="A")]))] +
        [("V%d" % i, Body("unit", prefix="ABCDE"[i % 5])) for i in range(10)] + [("Zz", Body("named", [F("D", prefix="E"), F("E")], suffix="Q"))], props=("D09", "D02"))
    add("W3", Body("named", [F("A", name="g%d" % i) for i in range(12)], prefix="P"), props=("D09", "D01"))
    # ---- the type being derived, spelled in other ways
    add("R4", outer=Body("unit"), variants=[("Aa", Body("tuple", [F("A"), F("Box<self::R4>")])), ("Bb", Body("tuple", [F("C")]))], recursive=True, props=("D09",))
    add("R5", outer=Body("unit"), variants=[("Aa", Body("named", [F("A"), F("Box<Self>")])), ("Bb", Body("unit", prefix="B"))], recursive=True, props=("D09",))
    return out + covering()


# ---- declarations that cover the combinations of options
def fields_of(r, n):
    out = []
    for _ in range(n):
        x = r.random()
        k = dict(prefix=r.choice((None, None, "R")), suffix=r.choice((None, None, "S")), style=r.choice((0, 0, 1, 2)))
        if x < 0.5:
            out.append(F(r.choice("ABCDE"), **k))
        elif x < 0.62:
            out.append(F("M1", parser=r.choice("AB"), **k))
        elif x < 0.7:
            out.append(F(r.choice(("Option<B>", "Box<C>", "Vec<D>")), **k))
        else:
            sep, tr = r.choice(((None, None), ("W", None), ("W", "no"), ("W", "yes"), ("W", "maybe")))
            out.append(F(None, inner="A", elem=r.choice(("A", "M1")), sep=sep, trailing=tr, **k))
    return out


def body_of(r, kinds=("named", "tuple", "unit"), most=6):
    kind = r.choice(kinds)
    n = r.choice((0, 1, 1, 2, 2, 3, 4, 5, 6)) if kind != "unit" else 0
    ig = ("I", "J", "K")[:r.choice((0, 0, 1, 1, 2, 3))]
    return Body(kind, fields_of(r, min(n, most)), prefix=r.choice((None, "P")), suffix=r.choice((None, "Q")), ignore=ig,
                style=r.choice((STYLE_ONE, STYLE_ONE, STYLE_MANY, STYLE_REV, STYLE_REV_MANY)))


def field_kind(f):
    if f.inner:
        return "list %s %s %s" % (f.sep, f.trailing, f.elem != f.inner)
    return "conv" if f.parser else "nested" if "<" in f.ty else "plain"


def features(b):
    """combinations of choices: three at a time for the body, three at a time for each of its fields in its place"""
    top = [("kind", b.kind), ("fields", min(len(b.fields), 5)), ("prefix", b.prefix), ("suffix", b.suffix), ("ignore", len(b.ignore))]
    out = set(itertools.combinations(top, 3))
    for i, f in enumerate(b.fields):
        out |= set(itertools.combinations([("fkind", field_kind(f)), ("fprefix", f.prefix), ("fsuffix", f.suffix),
                                           ("ignored", bool(b.ignore)), ("place", "last" if i == len(b.fields) - 1 else "first" if i == 0 else "inner")], 3))
    return out


def enum_features(outer, vs):
    o = [("oprefix", outer.prefix), ("osuffix", outer.suffix), ("oignore", len(outer.ignore))]
    out = set()
    for i, (_, b) in enumerate(vs):
        out |= set(itertools.combinations(o + [("kind", b.kind), ("prefix", b.prefix), ("suffix", b.suffix), ("ignore", bool(b.ignore)),
                                               ("place", "last" if i == len(vs) - 1 else "first" if i == 0 else "inner")], 3))
    return out


def covering(structs=40, enums=30):
    r = random.Random(20210829)
    out = []
    seen = set()
    for i in range(structs):
        best = max((body_of(r) for _ in range(60)), key=lambda b: len(features(b) - seen))
        seen |= features(best)
        out.append(Case("X%d" % i, best, props=("D07",) if best.style else ()))
    seen = set()
    for i in range(enums):
        def one():
            o = body_of(r, ("unit",))
            o.prefix, o.suffix = o.prefix and "U", o.suffix and "V"
            return o, [("Vv%d" % k, body_of(r, most=2)) for k in range(r.choice((1, 2, 2, 3, 3)))]
        def light(x):
            """lists amid many ignores take long, and do not meet anything new in an enum"""
            return all(sum(bool(f.inner) for f in b.fields) * (len(x[0].ignore) + len(b.ignore)) < 4 for _, b in x[1])
        o, vs = max(filter(light, (one() for _ in range(90))), key=lambda x: len(enum_features(*x) - seen))
        seen |= enum_features(o, vs)
        out.append(Case("Y%d" % i, outer=o, variants=vs, props=("D07",) if o.style or any(b.style for _, b in vs) else ()))
    return out


def prelude(cs):
    conv = set()
    for c in cs:
        conv |= c.conversions()
    o = ["//! generated by analyzer/gen_derive.py\nuse crate::comp::*;\nuse crate::lists::*;\nuse nommy::{eyre, Buffer, Parse};\nuse std::convert::{TryFrom, TryInto};\n"]
    o.append("#[derive(Debug)]\npub struct Unfit;\nimpl std::fmt::Display for Unfit { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { loop {} } }\nimpl std::error::Error for Unfit {}\n")
    for t in sorted({b for _, b in conv}):
        o.append("pub struct %s;\n" % t)
    for a, b in sorted(conv):
        o.append("impl TryFrom<%s> for %s { type Error = Unfit; fn try_from(_: %s) -> Result<Self, Unfit> { loop {} } }\n" % (a, b, a))
    return "".join(o)


def source(cs):
    return prelude(cs) + "".join(c.rust() + "\n" for c in cs)


def lines(cs):
    """[(case, first line, line after the last)] of source(cs)"""
    n = prelude(cs).count("\n") + 1
    out = []
    for c in cs:
        k = c.rust().count("\n") + 1
        out.append((c.name, n, n + k))
        n += k
    return out


if __name__ == "__main__":
    print(source(cases()))
