"""Parser for the type syntax that rustc prints in MIR and in impl headers.

Types are tuples:
  ('path', name, (args...))      name has '::' separators, generics removed
  ('proj', selfty, trait|None, name)     <T as Trait>::Name / <T>::Name
  ('ref', mut, ty) ('ptr', mut, ty) ('tuple', (tys)) ('array', ty, lenstr)
  ('slice', ty) ('closure', key) ('impl', str) ('dyn', str) ('fn', str)
  ('never',) ('const', str) ('fndef', path str)
"""
import re


class TP:
    def __init__(self, s):
        self.s = s
        self.i = 0

    def ws(self):
        while self.i < len(self.s) and self.s[self.i].isspace():
            self.i += 1

    def peek(self, t):
        self.ws()
        return self.s.startswith(t, self.i)

    def eat(self, t):
        if self.peek(t):
            self.i += len(t)
            return True
        return False

    def err(self, m=""):
        raise ValueError("type parse error %s at %d in %r" % (m, self.i, self.s))

    def balanced(self, open_, close):
        """self.i just after an opening delimiter; return text up to its match and skip it"""
        depth = 1
        st = self.i
        while self.i < len(self.s):
            ch = self.s[self.i]
            if ch == '"':
                self.i += 1
                while self.s[self.i] != '"':
                    if self.s[self.i] == '\\':
                        self.i += 1
                    self.i += 1
            elif ch in "([{":
                depth += 1
            elif ch in ")]}":
                depth -= 1
                if depth == 0:
                    r = self.s[st:self.i]
                    self.i += 1
                    return r
            self.i += 1
        self.err("unbalanced")

    def ty(self):
        self.ws()
        s = self.s
        if self.eat("&"):
            self.ws()
            m = re.compile(r"'[A-Za-z_][A-Za-z0-9_]*\s*").match(s, self.i)
            if m:
                self.i = m.end()
            mut = bool(re.compile(r"mut\b").match(s, self.i))
            if mut:
                self.i += 3
            return ("ref", mut, self.ty())
        if self.eat("*"):
            mut = self.peek("mut")
            self.i += 3 if mut else 5
            return ("ptr", mut, self.ty())
        if self.eat("!"):
            return ("never",)
        if self.peek("[closure@") or self.peek("[generator@"):
            self.ws()
            self.i += 1
            return ("closure", self.balanced("[", "]"))
        if self.eat("["):
            t = self.ty()
            if self.eat(";"):
                st = self.i
                body = self.balanced("[", "]")
                return ("array", t, body.strip())
            if not self.eat("]"):
                self.err("]")
            return ("slice", t)
        if self.eat("("):
            out = []
            while not self.eat(")"):
                out.append(self.ty())
                self.eat(",")
            if len(out) == 1 and s[:self.i].rstrip(" )").endswith(",") is False and not s[:self.i - 1].rstrip().endswith(","):
                return out[0]
            return ("tuple", tuple(out))
        if self.peek("for<"):
            self.i = self.s.index(">", self.i) + 1
            return self.ty()
        m = re.compile(r"(unsafe |extern \"[^\"]*\" )*fn\(").match(s, self.i)
        if m:
            self.i = m.end()
            st = m.start()
            self.balanced("(", ")")
            if self.eat("->"):
                self.ty()
            self.ws()
            if self.i < len(s) and s[self.i] == "{":
                self.i += 1
                body = self.balanced("{", "}")
                return ("fndef", body)
            return ("fn", s[st:self.i])
        m = re.compile(r"(impl|dyn)\b").match(s, self.i)
        if m:
            st = self.i
            self.i = m.end()
            while True:
                self.eat("?")
                self.ws()
                if self.eat("'"):
                    self.i = re.compile(r"\w+").match(s, self.i).end()
                elif self.peek("for<"):
                    self.i = self.s.index(">", self.i) + 1
                    self.ty()
                else:
                    self.ty()
                if not self.eat("+"):
                    break
            return (m.group(1), s[st:self.i])
        if self.peek('"') or self.peek('b"'):
            m = re.compile(r'b?"(\\.|[^"\\])*"').match(s, self.i)
            self.ws()
            m = re.compile(r'b?"(\\.|[^"\\])*"').match(s, self.i)
            self.i = m.end()
            return ("const", m.group(0))
        if self.eat("{"):
            return ("const", "{" + self.balanced("{", "}") + "}")
        m = re.compile(r"-?\d[\w]*").match(s, self.i)
        if m:
            self.i = m.end()
            return ("const", m.group(0))
        m = re.compile(r"b?'(\\.|[^'\\])'").match(s, self.i)
        if m:
            self.i = m.end()
            return ("const", m.group(0))
        m = re.compile(r"'[A-Za-z_]\w*").match(s, self.i)
        if m:
            self.i = m.end()
            return ("life", m.group(0))
        if self.eat("<"):
            if re.compile(r"impl at ").match(s, self.i):
                self.err("impl at")
            selft = self.ty()
            tr = None
            self.ws()
            if re.compile(r"as\b").match(s, self.i):
                self.i += 2
                tr = self.ty()
            if not self.eat(">"):
                self.err(">")
            segs = []
            base = None
            while self.eat("::"):
                seg, args = self.seg()
                segs.append((seg, args))
            return ("proj", selft, tr, "::".join(x for x, _ in segs))
        return self.path()

    def seg(self):
        self.ws()
        m = re.compile(r"\{[^{}]*\}(#\d+)?").match(self.s, self.i)
        if m:
            self.i = m.end()
            return m.group(0), ()
        if self.peek("<impl "):
            # e.g. core::str::<impl str>::len
            self.i += 1
            st = self.i
            depth = 1
            while depth:
                ch = self.s[self.i]
                if ch == "<":
                    depth += 1
                elif ch == ">" and self.s[self.i - 1] != "-":
                    depth -= 1
                self.i += 1
            if not self.s.startswith("::", self.i):
                # generic arguments that begin with an `impl Trait` type
                self.i = st - 1
            else:
                return "<" + self.s[st:self.i], ()
        if self.eat("<"):
            args = []
            while not self.eat(">"):
                args.append(self.garg())
                self.eat(",")
            return "<>", tuple(args)
        m = re.compile(r"[A-Za-z_$][A-Za-z0-9_]*!?|r#\w+").match(self.s, self.i)
        if not m:
            self.err("segment")
        self.i = m.end()
        return m.group(0).rstrip("!"), ()

    def garg(self):
        self.ws()
        m = re.compile(r"([A-Za-z_]\w*)\s*=\s*").match(self.s, self.i)
        if m:
            self.i = m.end()
            return ("assoc", m.group(1), self.ty())
        return self.ty()

    def path(self):
        segs = []
        args = ()
        self.eat("::")
        while True:
            seg, a = self.seg()
            if seg == "<>":
                args = a
            else:
                segs.append(seg)
                args = ()
            # generics directly attached
            if self.i < len(self.s) and self.s[self.i] == "<" and not self.s.startswith("<impl ", self.i):
                self.i += 1
                args = []
                while not self.eat(">"):
                    args.append(self.garg())
                    self.eat(",")
                args = tuple(args)
            elif self.i < len(self.s) and self.s[self.i] == "(" and segs[-1] in ("Fn", "FnMut", "FnOnce"):
                self.i += 1
                self.balanced("(", ")")
                if self.eat("->"):
                    self.ty()
            if self.s.startswith("::", self.i):
                self.i += 2
                continue
            break
        args = tuple(a for a in args if a[0] != "life")
        return ("path", "::".join(segs), args)


_cache = {}


def parse_type(s):
    s = s.strip()
    r = _cache.get(s)
    if r is None:
        p = TP(s)
        r = p.ty()
        p.ws()
        if p.i != len(s):
            p.err("trailing")
        _cache[s] = r
    return r


def try_type(s):
    try:
        return parse_type(s)
    except (ValueError, AttributeError, IndexError):
        return ("path", "?" + s, ())


def canon_name(n):
    """crate-independent name: leaf modules text/bytes are kept, the rest dropped"""
    segs = n.split("::")
    for m in ("text", "bytes"):
        if m in segs[:-1] and "std" not in segs:
            return m + "::" + segs[-1]
    return segs[-1]


def canon(t):
    """canonicalise a type for comparison (drop module paths, lifetimes, Global allocator)"""
    k = t[0]
    if k == "path":
        n = canon_name(t[1])
        args = tuple(canon(a) for a in t[2] if a[0] not in ("life",))
        if n in ("Vec", "Box", "VecDeque") and len(args) > 1:
            args = args[:1]
        return ("path", n, args)
    if k == "proj":
        return ("proj", canon(t[1]), canon(t[2]) if t[2] else None, t[3])
    if k in ("ref", "ptr"):
        return (k, t[1], canon(t[2]))
    if k == "tuple":
        return ("tuple", tuple(canon(a) for a in t[1]))
    if k == "array":
        return ("array", canon(t[1]), t[2])
    if k == "slice":
        return ("slice", canon(t[1]))
    if k == "assoc":
        return ("assoc", t[1], canon(t[2]))
    return t


def subst(t, env):
    if not env:
        return t
    k = t[0]
    if k == "path":
        if not t[2] and t[1] in env:
            return env[t[1]]
        return ("path", t[1], tuple(subst(a, env) for a in t[2]))
    if k == "impl":
        return env.get(t[1], t)
    if k == "proj":
        return ("proj", subst(t[1], env), subst(t[2], env) if t[2] else None, t[3])
    if k in ("ref", "ptr"):
        return (k, t[1], subst(t[2], env))
    if k == "tuple":
        return ("tuple", tuple(subst(a, env) for a in t[1]))
    if k == "array":
        n = t[2]
        if n in env and env[n][0] == "const":
            n = env[n][1]
        elif n in env and env[n][0] == "path":
            n = env[n][1]
        return ("array", subst(t[1], env), n)
    if k == "slice":
        return ("slice", subst(t[1], env))
    if k == "assoc":
        return ("assoc", t[1], subst(t[2], env))
    return t


def show(t):
    k = t[0]
    if k == "path":
        return t[1] + ("<" + ", ".join(show(a) for a in t[2]) + ">" if t[2] else "")
    if k == "proj":
        return "<" + show(t[1]) + (" as " + show(t[2]) if t[2] else "") + ">::" + t[3]
    if k == "ref":
        return "&" + ("mut " if t[1] else "") + show(t[2])
    if k == "ptr":
        return "*" + ("mut " if t[1] else "const ") + show(t[2])
    if k == "tuple":
        return "(" + ", ".join(show(a) for a in t[1]) + ")"
    if k == "array":
        return "[" + show(t[1]) + "; " + t[2] + "]"
    if k == "slice":
        return "[" + show(t[1]) + "]"
    if k == "assoc":
        return t[1] + "=" + show(t[2])
    if k == "never":
        return "!"
    return str(t[1])


def unify(pat, t, gens, env):
    """match canonical pattern type (with generic parameter names `gens`) against t"""
    if pat[0] == "path" and not pat[2] and pat[1] in gens:
        if pat[1] in env:
            return canon(env[pat[1]]) == canon(t)
        env[pat[1]] = t
        return True
    if pat[0] == "const" and t[0] == "const":
        return pat == t
    if pat[0] != t[0]:
        return False
    k = pat[0]
    if k == "path":
        if canon_name(pat[1]) != canon_name(t[1]):
            return False
        pa = [a for a in pat[2] if a[0] != "life"]
        ta = [a for a in t[2] if a[0] != "life"]
        if canon_name(pat[1]) in ("Vec", "Box", "VecDeque"):
            pa, ta = pa[:1], ta[:1]
        return len(pa) == len(ta) and all(unify(a, b, gens, env) for a, b in zip(pa, ta))
    if k in ("ref", "ptr"):
        return pat[1] == t[1] and unify(pat[2], t[2], gens, env)
    if k == "tuple":
        return len(pat[1]) == len(t[1]) and all(unify(a, b, gens, env) for a, b in zip(pat[1], t[1]))
    if k == "array":
        if not unify(pat[1], t[1], gens, env):
            return False
        if pat[2] in gens:
            env[pat[2]] = ("const", t[2])
            return True
        return pat[2] == t[2]
    if k == "slice":
        return unify(pat[1], t[1], gens, env)
    if k == "proj":
        return unify(pat[1], t[1], gens, env) and pat[3] == t[3]
    return pat == t
