"""Program database: MIR bodies of the analysed crates, the impl table (read from
the source spans recorded in the MIR) and callee resolution."""
import os
import re

import mirparse
import rtypes
from rtypes import canon, canon_name, try_type, parse_type, unify, subst

IMPL_AT = re.compile(r"<impl at ([^>]*?):(\d+):(\d+): (\d+):(\d+)>")


class Impl:
    __slots__ = ("key", "gens", "trait", "trait_ty", "selfty", "methods", "file", "line", "derive", "text", "assoc")

    def __repr__(self):
        return "impl<%s> %s for %s {%s}" % (",".join(self.gens), self.trait, self.selfty and rtypes.show(self.selfty),
                                            ",".join(self.methods))


def balanced_angle(s, i):
    """s[i]=='<' ; index just after its match"""
    d = 0
    while i < len(s):
        c = s[i]
        if c == '"':
            i += 1
            while s[i] != '"':
                if s[i] == "\\":
                    i += 1
                i += 1
        elif c == "<":
            d += 1
        elif c == ">" and s[i - 1] not in "-=":
            d -= 1
            if d == 0:
                return i + 1
        i += 1
    raise ValueError("angle")


def generic_names(txt):
    """'P: Parse<T>, T, const N: usize, 'a' -> names"""
    out = []
    for p in mirparse.split_top(txt):
        p = p.strip()
        if not p or p.startswith("'"):
            continue
        m = re.match(r"(const\s+)?([A-Za-z_]\w*)", p)
        if m:
            out.append(m.group(2))
    return out


def strip_rust_comments(s):
    out = []
    i = 0
    while i < len(s):
        if s.startswith("//", i):
            j = s.find("\n", i)
            j = len(s) if j < 0 else j
            i = j
            continue
        if s.startswith("/*", i):
            j = s.find("*/", i)
            i = len(s) if j < 0 else j + 2
            out.append(" ")
            continue
        if s[i] == '"':
            j = i + 1
            while j < len(s) and s[j] != '"':
                if s[j] == "\\":
                    j += 1
                j += 1
            out.append(s[i:j + 1])
            i = j + 1
            continue
        m = re.compile(r"'(\\.[^']*|[^'\\])'").match(s, i)
        if m:
            out.append(m.group(0))
            i = m.end()
            continue
        out.append(s[i])
        i += 1
    return "".join(out)


def item_after(txt):
    """first struct/enum item in txt (after derive attributes): (kind, name, generics)"""
    for n in (3000, 20000, len(txt)):
        r = _item_after(strip_rust_comments(txt[:n]))
        if r or n >= len(txt):
            return r


def _item_after(txt):
    m = re.search(r"\b(struct|enum|union)\s+((?:r#)?[A-Za-z_]\w*)\s*", txt)
    if not m:
        return None
    gens = []
    if m.end() >= len(txt):
        return None
    if txt[m.end()] == "<":
        try:
            e = balanced_angle(txt, m.end())
        except (ValueError, IndexError):
            return None
        gens = generic_names(txt[m.end() + 1:e - 1])
    return m.group(1), m.group(2), gens


def shorthand(t, gens):
    """T::Item of a parameter T is <T as _>::Item"""
    if isinstance(t, tuple):
        if len(t) == 3 and t[0] == "path" and isinstance(t[1], str):
            segs = t[1].split("::")
            if len(segs) == 2 and (segs[0] in gens or segs[0] == "Self"):
                return ("proj", ("path", segs[0], ()), None, segs[1])
        return tuple(shorthand(x, gens) for x in t)
    return t


class Program:
    def __init__(self, root):
        self.root = root            # cwd of the build for relative spans
        self.bodies = {}            # (crate, name) -> Body
        self.byname = {}            # name -> [Body]
        self.impls = []
        self.closures = {}          # closure key -> Body
        self.files = {}
        self.fns = {}               # last segment -> [Body] of free functions
        self.enums = {}
        self.warnings = []

    def source(self, f):
        if f not in self.files:
            self.files[f] = ""
            for root in (self.root if isinstance(self.root, (list, tuple)) else [self.root]):
                p = f if os.path.isabs(f) else os.path.join(root, f)
                try:
                    self.files[f] = open(p, encoding="utf-8").read()
                    break
                except OSError:
                    pass
        return self.files[f]

    def at(self, f, line, col):
        src = self.source(f)
        lines = src.split("\n")
        if line - 1 >= len(lines):
            return ""
        return "\n".join([lines[line - 1][col - 1:]] + lines[line:])

    def load(self, path, crate):
        for b in mirparse.parse_file(path, crate):
            b.dup = (crate, b.name) in self.bodies
            self.bodies[(crate, b.name)] = b
            self.byname.setdefault(b.name, []).append(b)
            if re.search(r"\{closure#\d+\}$", b.name):
                self.closures[(crate, b.name)] = b

    def index(self):
        seen = {}
        for (crate, name), b in list(self.bodies.items()):
            if "promoted[" in name or re.search(r"\{closure#\d+\}", name):
                continue
            ms = list(IMPL_AT.finditer(name))
            if not ms:
                self.fns.setdefault(name.split("::")[-1], []).append(b)
                continue
            m = ms[-1]
            rest = name[m.end():]
            mm = re.match(r"::((?:r#)?\w+)$", rest)
            if not mm:
                # a function nested in a method
                self.fns.setdefault(name.split("::")[-1], []).append(b)
                continue
            meth = mm.group(1)
            key = (crate, name[:m.end()])
            im = seen.get(key)
            if im is None:
                im = self.make_impl(crate, name[:m.end()], m, len(ms) > 1)
                if im is None:
                    continue
                seen[key] = im
                self.impls.append(im)
            if meth in im.methods and im.derive:
                # several impls expanded from one derive share a span; keep a list
                im.methods[meth + "#%d" % len(im.methods)] = b
            else:
                im.methods[meth] = b

    def module_types(self, f):
        """(module, names of the types defined there) for files of the text / bytes modules"""
        m = re.search(r"/src/(.*/)?(text|bytes)(/[^/]*)*\.rs$|/src/(.*/)?(text|bytes)\.rs$", "/" + f)
        if not m:
            return None, ()
        mod = m.group(2) or m.group(5)
        key = ("types", mod)
        if key not in self.files:
            names = set()
            full = f if os.path.isabs(f) else os.path.join(self.root[0] if isinstance(self.root, (list, tuple)) else self.root, f)
            base = full[:full.rindex("/" + mod) + 1 + len(mod)]
            cand = [base + ".rs"]
            for d, _, fs in os.walk(base):
                cand += [os.path.join(d, x) for x in fs if x.endswith(".rs")]
            for p in cand:
                names |= set(re.findall(r"\b(?:struct|enum|union|type)\s+(\w+)", strip_rust_comments(self.source(p)) if os.path.exists(p) else ""))
            self.files[key] = names
        return mod, self.files[key]

    def qualify(self, t, f):
        """give unqualified names of a text/bytes file their module"""
        mod, names = self.module_types(f)
        if mod is None or t is None:
            return t

        def q(t):
            if isinstance(t, tuple):
                if len(t) == 3 and t[0] == "path":
                    n = t[1]
                    if "::" not in n and n in names:
                        n = mod + "::" + n
                    return ("path", n, tuple(q(a) for a in t[2]))
                return tuple(q(a) for a in t)
            return t
        return q(t)

    def make_impl(self, crate, prefix, m, nested):
        f, l, c = m.group(1), int(m.group(2)), int(m.group(3))
        txt = self.at(f, l, c)
        im = Impl()
        im.key = (crate, prefix)
        im.methods = {}
        im.file, im.line = f, l
        im.derive = False
        im.gens = []
        im.trait = None
        im.trait_ty = None
        im.selfty = None
        im.text = txt[:60].split("\n")[0]
        im.assoc = {}
        if re.match(r"(unsafe\s+)?impl\b", txt):
            try:
                hdr = strip_rust_comments(txt[:4000])
                hdr = re.sub(r"^(unsafe\s+)?impl\s*", "", hdr)
                if hdr.startswith("<"):
                    e = balanced_angle(hdr, 0)
                    im.gens = generic_names(hdr[1:e - 1])
                    hdr = hdr[e:]
                # up to '{' or where
                e = find_body(hdr)
                for am in re.finditer(r"\btype\s+(\w+)\s*=\s*([^;]+);", hdr[e:block_end(hdr, e)]):
                    im.assoc[am.group(1)] = canon(shorthand(parse_type(am.group(2).strip()), im.gens))
                hdr = hdr[:e].strip()
                hdr = re.split(r"\bwhere\b", hdr)[0].strip()
                parts = split_for(hdr)
                if len(parts) == 2:
                    im.trait_ty = self.qualify(canon(shorthand(parse_type(parts[0]), im.gens)), f)
                    im.trait = canon_name(im.trait_ty[1])
                    im.selfty = self.qualify(canon(parse_type(parts[1])), f)
                else:
                    im.selfty = self.qualify(canon(parse_type(parts[0])), f)
            except (ValueError, IndexError, AttributeError) as ex:
                self.warnings.append("impl header %s:%d: %s" % (f, l, ex))
                return None
            return im
        # derive: span is the trait name inside #[derive(..)]
        dm = re.match(r"[A-Za-z_]\w*", txt)
        if not dm:
            self.warnings.append("impl span %s:%d:%d not understood" % (f, l, c))
            return None
        im.derive = True
        im.trait = dm.group(0)
        if nested:
            im.trait = "nested"
            return im
        # text after the attribute's closing bracket
        item = item_after(txt[dm.end():])
        if not item:
            return None
        im.gens = item[2]
        im.selfty = self.qualify(("path", item[1], tuple(("path", g, ()) for g in item[2])), f)
        return im

    # ---------------------------------------------------------------- resolution
    def normalise(self, t):
        """replace <X as Trait>::Name by the type the matching impl gives it"""
        if not isinstance(t, tuple) or not t:
            return t
        t = tuple(self.normalise(x) if isinstance(x, tuple) else x for x in t)
        if t[0] == "proj" and (t[2] is None or t[2][0] == "path"):
            for im in self.impls:
                if (im.trait is not None if t[2] is None else im.trait == canon_name(t[2][1])) and im.selfty is not None and t[3] in im.assoc:
                    env = {}
                    if unify(im.selfty, canon(t[1]), im.gens, env):
                        env["Self"] = t[1]
                        r = subst(im.assoc[t[3]], env)
                        return self.normalise(r) if r != t else t
        return t

    def trait_impl(self, trait, selfty, method, trait_args=None):
        """-> (Body, env) or None.  Handles derives and inherent-method helpers."""
        selfty_c = canon(selfty)
        cands = []
        for im in self.impls:
            if im.trait != trait or im.selfty is None:
                continue
            if method not in im.methods:
                # still relevant for defaulted methods
                env = {}
                if unify(im.selfty, selfty_c, im.gens, env) and self._trait_args(im, trait_args, env):
                    cands.append((im, None, env))
                continue
            env = {}
            if unify(im.selfty, selfty_c, im.gens, env) and self._trait_args(im, trait_args, env):
                cands.append((im, im.methods[method], env))
        if not cands:
            return None
        # prefer the most specific (fewest bare-parameter self types)
        cands.sort(key=lambda c: (c[0].selfty[0] == "path" and c[0].selfty[1] in c[0].gens))
        return cands[0]

    def _trait_args(self, im, targs, env):
        if targs is None or im.trait_ty is None or im.trait_ty[0] != "path":
            return True
        pa = im.trait_ty[2]
        if len(pa) != len(targs):
            return True
        return all(a[0] == "proj" or unify(a, canon(b), im.gens, env) for a, b in zip(pa, targs))

    def nested_impl(self, parent_body, method):
        """impl of a trait for a type local to parent_body's function"""
        pre = parent_body.name + "::<impl at"
        c = [b for n, b in ((b.name, b) for (cr, n), b in self.bodies.items() if cr == parent_body.crate)
             if n.startswith(pre) and re.search(r">::%s$" % re.escape(method), n)]
        return c[0] if len(c) == 1 else None

    def inherent(self, tyname, method):
        out = []
        cn = canon_name(tyname)
        for im in self.impls:
            if im.selfty is None or im.selfty[0] != "path":
                continue
            if canon_name(im.selfty[1]) != cn:
                continue
            if im.trait is not None and not im.derive:
                continue
            if method in im.methods:
                out.append((im, im.methods[method]))
        return out

    def free_fn(self, path):
        segs = path.split("::")
        last = segs[-1]
        best = []
        for b in self.fns.get(last, []):
            if b.name.startswith("?"):
                continue
            full = b.name.split("::")
            mods = []
            if b.file and "/src/" in "/" + b.file:
                mods = re.sub(r"\.rs$", "", ("/" + b.file).split("/src/")[-1]).split("/")
                mods = [x for x in mods if x not in ("lib", "mod", "main")]
            names = [full, mods + full, [b.crate] + full, [b.crate] + mods + full]
            if len(full) > 1 and full[0] in mods:
                names.append([b.crate] + full)
            if segs in names:
                best.append((3, b))
            elif len(segs) > 1 and any(n[-len(segs):] == segs for n in names):
                best.append((2, b))
            elif len(full) == 1 and len(segs) > 1 and segs[0] == b.crate:
                best.append((1, b))          # re-exported
            elif len(full) == 1:
                best.append((0, b))          # printed without its module
        if not best:
            return None
        top = max(x for x, _ in best)
        c = [b for x, b in best if x == top]
        return c[0] if len(c) == 1 else None

    def fn_generics(self, body):
        """names of a function's own generic parameters, from its source text"""
        if body.file is None:
            return []
        last = body.name.split("::")[-1]
        key = (body.file, last, body.line)
        if key in self.enums:
            return self.enums[key]
        src = self.source(body.file).split("\n")
        out = []
        # search backwards from the first recorded line, then forwards
        n = body.line - 1
        order = list(range(n, max(-1, n - 60), -1)) + list(range(n + 1, min(len(src), n + 5)))
        pat = re.compile(r"\bfn\s+%s\s*(<)?" % re.escape(last))
        for i in order:
            if i < 0 or i >= len(src):
                continue
            m = pat.search(src[i])
            if m:
                if m.group(1):
                    txt = "\n".join(src[i:i + 60])
                    txt = strip_rust_comments(txt)
                    m2 = pat.search(txt)
                    e = balanced_angle(txt, m2.end() - 1)
                    out = generic_names(txt[m2.end():e - 1])
                break
        self.enums[key] = out
        return out


def find_body(h):
    """index of the '{' opening an impl body (outside <> and ())"""
    d = 0
    i = 0
    while i < len(h):
        c = h[i]
        if c == '"':
            i += 1
            while h[i] != '"':
                if h[i] == "\\":
                    i += 1
                i += 1
        elif c in "<([":
            d += 1
        elif c in ")]" or (c == ">" and h[i - 1] not in "-="):
            d -= 1
        elif c == "{":
            if d == 0:
                return i
            # const expr
            j = h.index("}", i)
            i = j
        i += 1
    return len(h)


def block_end(h, i):
    """index just after the block opening at h[i] == '{'"""
    d = 0
    while i < len(h):
        if h[i] == "{":
            d += 1
        elif h[i] == "}":
            d -= 1
            if d == 0:
                return i + 1
        i += 1
    return len(h)


def split_for(h):
    d = 0
    i = 0
    while i < len(h):
        c = h[i]
        if c in "<([":
            d += 1
        elif c in ")]" or (c == ">" and h[i - 1] not in "-="):
            d -= 1
        elif d == 0 and re.compile(r"\bfor\b").match(h, i) and (i == 0 or h[i - 1].isspace()) and not h[i + 3:].startswith("<"):
            return [h[:i].strip(), h[i + 3:].strip()]
        i += 1
    return [h.strip()]
