"""Declarations the derive has to reject, and their correct twins (D06).

A mistake is rejected because of what it is, not where it stands: every class of mistake is tried at
every position an attribute can have.  Names that are not options: variations of the options, and
every word the derive's own sources mention."""
import glob
import os
import re

HEAD = """#![allow(dead_code)]
pub mod comp;
"""

# option -> example of its value
GLOBAL = {"ignore": "P", "prefix": "P", "suffix": "P", "parse_type": "char"}
FIELD = {"prefix": "P", "suffix": "P", "parser": "Vec<P>", "inner_parser": "P"}
FLAGS = ("debug",)
LISTOPTS = ("inner_parser", "seperated_by", "trailing")
MODES = ("yes", "no", "maybe")

# position -> (kind, declaration with {} where the attribute goes)
POSITIONS = {
    "named struct": ("g", "{} pub struct S {{ pub a: P, pub b: Q }}"),
    "tuple struct": ("g", "{} pub struct S(pub P, pub Q);"),
    "unit struct": ("g", "{} pub struct S;"),
    "generic struct": ("g", "{} pub struct S<G>(pub G);"),
    "enum": ("g", "{} pub enum S {{ Va(P), Vb {{ b: Q }}, #[nommy(prefix = Q)] Vc }}"),
    "tuple variant": ("g", "pub enum S {{ {} Va(P), Vb(Q) }}"),
    "named variant": ("g", "pub enum S {{ Va(P), {} Vb {{ b: Q }} }}"),
    "unit variant": ("g", "pub enum S {{ Va(P), {} Vc }}"),
    "field of a named struct": ("f", "pub struct S {{ pub a: P, {} pub b: Vec<P> }}"),
    "first field of a named struct": ("f", "pub struct S {{ {} pub a: Vec<P>, pub b: Q }}"),
    "field of a tuple struct": ("f", "pub struct S(pub P, {} pub Vec<P>);"),
    "only field": ("f", "pub struct S({} pub Vec<P>);"),
    "field of a named variant": ("f", "pub enum S {{ Va(P), Vb {{ {} b: Vec<P>, c: Q }} }}"),
    "field of a tuple variant": ("f", "pub enum S {{ Va(P, {} Vec<P>), Vb(Q) }}"),
}


def options(kind):
    return GLOBAL if kind == "g" else FIELD


def words(repo):
    """every word in a string literal, and every name, in the derive's sources"""
    got = set()
    for p in sorted(glob.glob(os.path.join(repo, "nommy-derive", "src", "**", "*.rs"), recursive=True)):
        txt = open(p).read()
        for lit in re.findall(r'"((?:[^"\\\n]|\\.)*)"', txt):
            got.update(re.findall(r"[A-Za-z_]\w*", lit))
        got.update(re.findall(r"\bpub (?:\w+ )?(\w+):", txt))
    return got


KEYWORDS = set("as break const continue crate else enum extern false fn for if impl in let loop match mod move mut pub ref return "
               "self Self static struct super trait true type unsafe use where while async await dyn abstract become box do final "
               "macro override priv typeof unsized virtual yield try union".split())


def variations(names):
    out = set()
    for n in names:
        out |= {n + "s", n + "_", "_" + n, n + "1", n[:-1], n[1:], n.upper(), n.capitalize(), n + "_with", n + "ed", "no_" + n, n[:3],
                n.replace("_", ""), n + "_by", "x" + n, n[0] + n}
        out |= {n[:i] + n[i + 1:] for i in range(1, len(n) - 1)}
        out |= {n[:i] + n[i + 1] + n[i] + n[i + 2:] for i in range(len(n) - 1)}
    return out


def unknown(kind, repo):
    known = set(GLOBAL) | set(FLAGS) if kind == "g" else set(FIELD) | set(LISTOPTS)
    names = set(GLOBAL) | set(FIELD) | set(FLAGS) | set(LISTOPTS)
    mentioned = words(repo)
    got = names | variations(names) | mentioned | {w + "foo" for w in mentioned} | {"foo" + w for w in mentioned} | {
        "separated_by", "separator", "seperator", "sep", "count", "min", "max", "skip", "with", "default", "rename", "parse", "bogus", "ty",
        "terminated", "delimiter", "until", "nommy", "trailing_sep", "x", "name", "parser_type", "token", "error", "doc", "cfg", "a", "b"}
    return sorted(n for n in got if n not in known and n not in KEYWORDS and re.match(r"[A-Za-z_]\w*$", n) and n != "_" and n.isascii())


class Bad:
    def __init__(self, pos, cls, attr, decl=None):
        self.pos, self.cls, self.attr = pos, cls, attr
        self.decl = decl if decl is not None else POSITIONS[pos][1].format(attr)


def bad(repo):
    out = []
    for pos, (kind, _) in POSITIONS.items():
        opts = options(kind)
        flags = FLAGS if kind == "g" else ()

        def add(cls, inner):
            out.append(Bad(pos, cls, "#[nommy(%s)]" % inner))

        def raw(cls, attr):
            out.append(Bad(pos, cls, attr))
        # ---- names that are not options here
        for i, n in enumerate(unknown(kind, repo)):
            v = {"debug": "", "trailing": ' = "yes"'}.get(n, (" = P", "")[i % 2])
            add("unknown name", n + v)
        for n in ("bogus", "igonre", "prefixes"):
            for v in ("", " = P", ' = "yes"', "(P)", " = 5", " P"):
                add("unknown name", n + v)
        # ---- where the mistake stands
        good = "suffix = Q"
        for b in ("bogus = P", "bogus", "prefix", "prefix = P P"):
            for t in ("%s, " + good, good + ", %s", good + ", %s, prefix = P"):
                add("beside a correct option", t % b)
            add("beside a correct option", "suffix = Two<P, Q>, " + b)
            add("beside a correct option", "suffix = <P as Is>::It, " + b)
            raw("in one of several attributes", "#[nommy(%s)] #[nommy(%s)]" % (good, b))
            raw("in one of several attributes", "#[nommy(%s)] #[nommy(%s)]" % (b, good))
            raw("in one of several attributes", "/// text\n#[nommy(%s)] #[allow(unused)]" % b)
        # ---- malformed values
        for o, v in list(opts.items()) + ([("seperated_by", "Q")] if kind == "f" else []):
            ctx = "inner_parser = P, " if o == "seperated_by" else ""
            for m in ("%s", "%s %s", "%s(%s)", "%s: %s", "%s =", "%s = %s %s", "%s = 5", '%s = "%s"', "%s %s =", "%s == %s", "%s = %s = %s",
                      "%s += %s", '"%s" = %s', "%s => %s", "%s = %s; debug", "%s = 'a'", "%s = %s Q",
                      "%s = {%s}", "%s = %s ?", "%s[%s]", "%s - %s", "%s = = %s", "%s = @%s", "%s = %s @"):
                n = m.count("%s")
                add("malformed value", ctx + m % ((o, v, v)[:n]))
            add("malformed value", "%s= %s suffix = Q" % (ctx + o, v))
        for o in flags:
            for m in ("%s = P", "%s = true", "%s(P)", "%s %s", "%s = ", "%s: P", "%s P", "%s 5", '"%s"', "%s!", "%s; prefix = P"):
                add("malformed flag", m % ((o, o)[:m.count("%s")]))
        # ---- malformed lists of arguments
        for m in ("= P", "5", '"prefix = P"', ", prefix = P", "prefix = P,, suffix = Q", "prefix = P; suffix = Q", "(prefix = P)", "{prefix = P}",
                  "[prefix = P]", "prefix.x = P", "-prefix = P", "!debug", "&prefix = P", "#prefix = P", "prefix::x = P", "P", "prefix, suffix",
                  "prefix, suffix = Q", "suffix = Q, prefix", "'a", "..", "*", ","):
            add("malformed list of arguments", m)
        for m in ("#[nommy[prefix = P]]", "#[nommy{prefix = P}]", '#[nommy = "prefix"]', '#[nommy = "P"]', "#[nommy = 5]", "#[nommy[]]", "#[nommy{}]",
                  "#[nommy{debug}]", "#[nommy[bogus]]"):
            raw("malformed list of arguments", m)
        # ---- lists
        if kind == "f":
            for m in ("seperated_by = Q", "parser = Vec<P>, seperated_by = Q", "prefix = P, seperated_by = Q", "seperated_by = Q, suffix = P"):
                add("separator without an element parser", m)
                for y in MODES:
                    add("trailing mode without an element parser", '%s, trailing = "%s"' % (m, y))
                    add("trailing mode without an element parser", 'trailing = "%s", %s' % (y, m))
            raw("separator without an element parser", "#[nommy(parser = Vec<P>)] #[nommy(seperated_by = Q)]")
            for y in MODES:
                for m in ("%s", "prefix = P, %s", "%s, parser = Vec<P>"):
                    add("trailing mode without an element parser", m % ('trailing = "%s"' % y))
                for m in ("inner_parser = P, %s", "%s, inner_parser = P"):
                    add("trailing mode without a separator", m % ('trailing = "%s"' % y))
            for y in ['"Yes"', '"YES"', '"true"', '""', '"always"', '"maybe "', '" yes"', '"yes,no"', "yes", "true", "5", "'y'", '"yes" "no"', '"yes" no',
                      'b"yes"', "no", "maybe", '("yes")', '["yes"]', '= "yes"', "", '"y"', '"n"', '"m"', '"optional"', '"never"', '"none"', '"may"', '"nope"',
                      '"yess"', '"ye"', '"false"', '"allowed"', '"No"', '"Maybe"', '"required"', '-1', '"yes" = "no"', '"yes".x', '"yes";', "P"] + \
                    ['"%s"' % w for w in sorted(words(repo)) if w not in MODES]:
                add("unknown trailing mode", "inner_parser = P, seperated_by = Q, trailing = " + y)
            for m in ("trailing", 'trailing "yes"', 'trailing: "yes"', 'trailing("yes")', "trailing yes", 'trailing + "yes"'):
                add("unknown trailing mode", "inner_parser = P, seperated_by = Q, " + m)
                add("unknown trailing mode", m + ", inner_parser = P, seperated_by = Q")
    for d in ("pub union S {{ a: u8 }}", "{} pub union S {{ a: u8, b: i8 }}", "pub union S {{ {} a: u8, b: i8 }}",
              "pub union S<G: Copy> {{ a: G, b: u8 }}", "pub union S {{ a: P2, b: P2 }}"):
        out.append(Bad("union", "union", "", d.format("#[nommy(prefix = P)]")))
    return out


def good():
    """what the mistakes above are mistakes for"""
    out = []
    for pos, (kind, _) in POSITIONS.items():
        opts = options(kind)
        for o, v in opts.items():
            extra = ""
            if o == "parse_type" and ("variant" in pos or "generic" in pos):
                continue
            out.append(Bad(pos, "correct", "#[nommy(%s = %s%s)]" % (o, v, extra)))
        out.append(Bad(pos, "correct", "#[nommy(prefix = P, suffix = Q)]"))
        out.append(Bad(pos, "correct", "#[nommy(suffix = Two<P, Q>, prefix = P)]"))
        out.append(Bad(pos, "correct", "#[nommy(suffix = <P as Is>::It, prefix = P)]"))
        out.append(Bad(pos, "correct", "#[nommy(prefix = P)] #[nommy(suffix = Q)]"))
        if kind == "g":
            out.append(Bad(pos, "correct", "#[nommy(prefix = P)]"))
        else:
            out.append(Bad(pos, "correct", "#[nommy(inner_parser = P, seperated_by = Q)]"))
            for y in MODES:
                out.append(Bad(pos, "correct", '#[nommy(inner_parser = P, seperated_by = Q, trailing = "%s")]' % y))
                out.append(Bad(pos, "correct", '#[nommy(trailing = "%s", inner_parser = P, seperated_by = Q)]' % y))
    return out


def source(items, derive=True):
    """-> text of the crate, {line: index}"""
    lines = HEAD.rstrip("\n").split("\n")
    at = {}
    for i, b in items:
        txt = "pub mod m%d {\n use crate::comp::*;\n %s\n %s\n}" % (i, "#[derive(nommy::Parse)]" if derive else "", b.decl)
        n = len(lines) + 1
        new = txt.split("\n")
        for k in range(len(new)):
            at[n + k] = i
        lines += new
    return "\n".join(lines) + "\n", at
