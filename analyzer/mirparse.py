"""Text-MIR reader: rustc --emit=mir output -> bodies with basic blocks."""
import re

COMMENT = re.compile(r";\s*// (scope \d+ )?(in scope|scope|at|in) ")


class Body:
    """a MIR body; statements are parsed when first asked for"""
    __slots__ = ("name", "args", "ret", "_locals", "_blocks", "file", "line", "crate", "_cleanup",
                 "_live", "_heads", "_loops", "_order", "_debug", "src_gens", "raw", "dup")

    def __init__(self):
        self._locals = {}
        self._blocks = {}
        self._cleanup = set()
        self.args = []
        self.file = None
        self.line = 0
        self._debug = {}
        self._live = None
        self._heads = None
        self._loops = self._order = None
        self.raw = None

    def _force(self):
        if self.raw is not None:
            raw, self.raw = self.raw, None
            parse_body(self, raw)

    @property
    def locals(self):
        self._force()
        return self._locals

    @property
    def blocks(self):
        self._force()
        return self._blocks

    @property
    def cleanup(self):
        self._force()
        return self._cleanup

    @property
    def debug(self):
        self._force()
        return self._debug


def strip_comment(l):
    """drop the trailing location comment of a MIR line"""
    # strings may contain '//': the location comment is the last ' // ' group with scope/in scope
    i = l.rfind(" // ")
    while i >= 0:
        tail = l[i + 4:]
        if re.match(r"(in )?scope \d+ at |return place|mir::|ty::", tail):
            return l[:i].rstrip(), tail
        i = l.rfind(" // ", 0, i)
    return l.rstrip(), ""


def split_top(s, sep=","):
    """split on top-level separators, aware of brackets, strings, chars and '->'"""
    out = []
    depth = 0
    cur = []
    i = 0
    n = len(s)
    while i < n:
        c = s[i]
        if c == '"':
            j = i + 1
            while s[j] != '"':
                if s[j] == "\\":
                    j += 1
                j += 1
            cur.append(s[i:j + 1])
            i = j + 1
            continue
        if c == "'":
            m = re.compile(r"'(\\u\{[0-9a-fA-F]+\}|\\x[0-9a-fA-F]{2}|\\.|[^'\\])'").match(s, i)
            if m:
                cur.append(m.group(0))
                i = m.end()
                continue
        if c in "([{<":
            depth += 1
        elif c in ")]}":
            depth -= 1
        elif c == ">" and not (i and s[i - 1] in "-="):
            depth -= 1
        if c == sep and depth == 0:
            out.append("".join(cur).strip())
            cur = []
        else:
            cur.append(c)
        i += 1
    t = "".join(cur).strip()
    if t:
        out.append(t)
    return out


def match_paren(s, i):
    """s[i] is '('; index of matching ')'; aware of strings"""
    depth = 0
    n = len(s)
    while i < n:
        c = s[i]
        if c == '"':
            i += 1
            while s[i] != '"':
                if s[i] == "\\":
                    i += 1
                i += 1
        elif c == "'":
            m = re.compile(r"'(\\u\{[0-9a-fA-F]+\}|\\x[0-9a-fA-F]{2}|\\.|[^'\\])'").match(s, i)
            if m:
                i = m.end() - 1
        elif c in "([{":
            depth += 1
        elif c in ")]}":
            depth -= 1
            if depth == 0:
                return i
        i += 1
    raise ValueError("unbalanced: " + s)


class PP:
    """place / operand / rvalue parser"""

    def __init__(self, s):
        self.s = s
        self.i = 0

    def ws(self):
        while self.i < len(self.s) and self.s[self.i] == " ":
            self.i += 1


def parse_place(s):
    s = s.strip()
    base, proj, j = _place(s, 0)
    if j != len(s):
        raise ValueError("place: " + s)
    return (base, tuple(proj))


def _place(s, i):
    if s[i] == "_":
        m = re.compile(r"_\d+").match(s, i)
        base = int(m.group(0)[1:])
        proj = []
        j = m.end()
    elif s[i] == "(":
        e = match_paren(s, i)
        inner = s[i + 1:e]
        if inner.startswith("*"):
            base, proj, k = _place(inner, 1)
            if k != len(inner):
                raise ValueError("place deref: " + s)
            proj.append(("deref",))
        else:
            base, proj, k = _place(inner, 0)
            rest = inner[k:]
            if rest.startswith("."):
                m = re.match(r"\.(\d+): ", rest)
                proj.append(("field", int(m.group(1)), rest[m.end():]))
            elif rest.startswith(" as "):
                proj.append(("down", rest[4:].strip()))
            else:
                raise ValueError("place: " + s)
        j = e + 1
    else:
        raise ValueError("place: " + s[i:])
    while j < len(s) and s[j] == "[":
        e = match_paren(s, j)
        idx = s[j + 1:e]
        m = re.match(r"_(\d+)$", idx)
        if m:
            proj.append(("index", int(m.group(1))))
        else:
            m = re.match(r"(-?\d+) of (\d+)$", idx)
            if m:
                proj.append(("cindex", int(m.group(1)), int(m.group(2))))
            else:
                proj.append(("subslice", idx))
        j = e + 1
    return base, proj, j


BINOPS = {"Eq", "Ne", "Lt", "Le", "Gt", "Ge", "Add", "Sub", "Mul", "Div", "Rem", "BitAnd", "BitOr",
          "BitXor", "Shl", "Shr", "CheckedAdd", "CheckedSub", "CheckedMul", "Offset"}


def parse_operand(s):
    s = s.strip()
    if s.startswith("const "):
        return ("const", s[6:])
    if s.startswith("move "):
        return ("move", parse_place(s[5:]))
    if s.startswith("_") and re.match(r"_\d+", s) or s.startswith("("):
        try:
            return ("copy", parse_place(s))
        except (ValueError, IndexError, AttributeError):
            pass
    return ("fnconst", s)


def parse_rvalue(s):
    s = s.strip()
    m = re.match(r"&(mut |shallow |raw mut |raw const )?", s)
    if s.startswith("&") and m:
        kind = (m.group(1) or "").strip()
        return ("ref", kind, parse_place(s[m.end():]))
    m = re.match(r"([A-Za-z]+)\(", s)
    if m and s.endswith(")"):
        op = m.group(1)
        inner = s[m.end():-1]
        if op in BINOPS:
            a, b = split_top(inner)
            return ("bin", op, parse_operand(a), parse_operand(b))
        if op in ("Not", "Neg"):
            return ("un", op, parse_operand(inner))
        if op == "Len":
            return ("len", parse_place(inner))
        if op == "discriminant":
            return ("discr", parse_place(inner))
        if op == "Box":
            return ("box", inner)
        if op in ("SizeOf", "AlignOf"):
            return ("size", inner)
    # cast
    m = re.search(r" as (.*) \(([A-Za-z]+(\([A-Za-z(). ]*\))?)\)$", s)
    if m and (s.startswith("move ") or s.startswith("_") or s.startswith("(") or s.startswith("const ")
              or m.group(2).startswith("Pointer")):
        # find the split point of the operand
        k = s.index(" as ") if not s.startswith("move (") and not s.startswith("(") else None
        if k is None:
            st = s.index("(")
            e = match_paren(s, st)
            k = s.index(" as ", e)
        return ("cast", parse_operand(s[:k]), s[k + 4: m.start(2) - 2], m.group(2))
    if s.startswith("["):
        e = match_paren(s, 0)
        if e == len(s) - 1:
            if s.startswith("[closure@"):
                return ("closure", s)
            inner = s[1:-1]
            parts = split_top(inner, ";")
            if len(parts) == 2:
                return ("repeat", parse_operand(parts[0]), parts[1])
            return ("array", tuple(parse_operand(x) for x in split_top(inner)))
    if s.startswith("("):
        try:
            return ("use", ("copy", parse_place(s)))
        except (ValueError, IndexError, AttributeError):
            if s.endswith(")"):
                return ("tuple", tuple(parse_operand(x) for x in split_top(s[1:-1])))
    if s.startswith("move ") or s.startswith("const "):
        return ("use", parse_operand(s))
    if re.match(r"_\d+", s):
        return ("use", parse_operand(s))
    return ("use", ("fnconst", s))


LIT = re.compile(r"\+ literal: Const \{ ty: (.*), val: (.*) \}$")


def callee_of(lits):
    """the resolved callee path in the literal comments of a call"""
    for l in lits:
        m = LIT.search(l)
        if not m:
            continue
        ty, val = m.group(1), m.group(2)
        if "Scalar(<ZST>)" in val and ty.endswith("}") and re.match(r"(for<[^>]*> )?(unsafe |extern \"[^\"]*\" )*fn\(", ty):
            # last top-level {...}
            depth = 0
            for k in range(len(ty) - 1, -1, -1):
                if ty[k] == "}":
                    depth += 1
                elif ty[k] == "{":
                    depth -= 1
                    if depth == 0:
                        return ty[k + 1:-1]
    return None


HEAD = re.compile(r"^(fn |promoted\[\d+\] in |const |static |static mut )")


def parse_file(path, crate):
    bodies = []
    cur = None
    with open(path) as f:
        lines = f.read().split("\n")
    start = 0
    for i, raw in enumerate(lines):
        if cur is None:
            if HEAD.match(raw) and raw.rstrip().endswith("{"):
                cur = Body()
                cur.crate = crate
                start = i + 1
                h = raw.rstrip()[:-1].strip()
                try:
                    if h.startswith("fn "):
                        parse_header(cur, h[3:])
                    elif h.startswith("promoted["):
                        mm = re.match(r"promoted\[(\d+)\] in (.*) =$", h)
                        body = mm.group(2)
                        k = find_type_colon(body)
                        cur.name = body[:k] + "::promoted[%s]" % mm.group(1)
                        cur.ret = body[k + 2:]
                    else:
                        mm = re.match(r"(?:const|static mut|static) (.*) =$", h)
                        body = mm.group(1)
                        k = find_type_colon(body)
                        cur.name = body[:k]
                        cur.ret = body[k + 2:]
                except Exception:
                    cur.name = "?" + h
                    cur.ret = "?"
            continue
        if raw.startswith("}"):
            cur.raw = lines[start:i]
            for l in cur.raw:
                if ".rs:" in l:
                    m = LOC.search(l)
                    if m:
                        cur.file = m.group(1)
                        cur.line = int(m.group(2))
                        break
            bodies.append(cur)
            cur = None
    return bodies


LOC = re.compile(r" // (?:in )?scope \d+ at ([^:\n]+\.rs):(\d+):")


def parse_body(cur, lines):
    block = None
    pend = None       # (text, lits, loc)

    def flush():
        nonlocal pend
        if pend is None:
            return
        text, lits, loc = pend
        pend = None
        st = parse_stmt(text, lits, loc)
        if st is not None:
            cur._blocks[block].append(st)

    for raw in lines:
        s = raw.strip()
        if not s:
            continue
        m = re.match(r"bb(\d+)( \(cleanup\))?: \{$", s)
        if m and raw.startswith("    bb"):
            block = int(m.group(1))
            cur._blocks[block] = []
            if m.group(2):
                cur._cleanup.add(block)
            continue
        if block is None:
            m = re.match(r"let (mut )?_(\d+): (.*)$", s)
            if m:
                t, loc = strip_comment(m.group(3))
                cur._locals[int(m.group(2))] = t.rstrip(";")
            elif s.startswith("debug "):
                t, loc = strip_comment(s)
                mm = re.match(r"debug (\w+) => (.*);$", t)
                if mm:
                    cur._debug.setdefault(mm.group(1), mm.group(2))
            continue
        if s == "}":
            flush()
            continue
        if s.startswith("//"):
            if pend is not None:
                pend[1].append(s)
            continue
        flush()
        t, loc = strip_comment(s)
        pend = (t, [], loc)
    flush()


def find_type_colon(s):
    """index of the ': ' that separates a promoted's owner path from its type"""
    depth = 0
    i = 0
    while i < len(s):
        c = s[i]
        if c in "<([{":
            depth += 1
        elif c in ">)]}" and not (c == ">" and s[i - 1] in "-="):
            depth -= 1
        elif c == ":" and depth == 0:
            if s[i + 1] == ":":
                i += 2
                continue
            return i
        i += 1
    raise ValueError(s)


def parse_header(b, h):
    # NAME(args) -> RET
    i = 0
    depth = 0
    while True:
        c = h[i]
        if c in "<[{":
            depth += 1
        elif c in ">]}" and not (c == ">" and h[i - 1] == "-"):
            depth -= 1
        elif c == "(" and depth == 0:
            break
        i += 1
    b.name = h[:i]
    e = match_paren(h, i)
    for a in split_top(h[i + 1:e]):
        m = re.match(r"_(\d+): (.*)$", a)
        b.args.append(int(m.group(1)))
        b._locals[int(m.group(1))] = m.group(2)
    m = re.match(r"\s*-> (.*)$", h[e + 1:])
    b.ret = m.group(1) if m else "()"


def targets(s):
    """'bb1' or '[return: bb1, unwind: bb2]' -> dict"""
    s = s.strip()
    m = re.match(r"bb(\d+)$", s)
    if m:
        return {"return": int(m.group(1))}
    d = {}
    for p in s.strip("[]").split(","):
        k, v = p.split(":")
        d[k.strip()] = int(v.strip()[2:])
    return d


def parse_stmt(t, lits, loc):
    try:
        return _parse_stmt(t, lits, loc)
    except (ValueError, IndexError, AttributeError, KeyError) as e:
        return ("unsupported", t, str(e), loc)


def _parse_stmt(t, lits, loc):
    t = t.rstrip()
    if t.endswith(";"):
        t = t[:-1]
    if t.startswith("StorageLive(") or t == "nop" or t.startswith("Retag") or t.startswith("FakeRead") \
            or t.startswith("AscribeUserType") or t.startswith("Coverage"):
        return None
    if t.startswith("StorageDead("):
        return ("dead", int(t[13:-1]))
    if t == "return":
        return ("return",)
    if t == "resume":
        return ("resume",)
    if t == "unreachable":
        return ("unreachable",)
    if t == "abort":
        return ("resume",)
    m = re.match(r"goto -> bb(\d+)$", t)
    if m:
        return ("goto", int(m.group(1)))
    if t.startswith("switchInt("):
        e = match_paren(t, 9)
        op = parse_operand(t[10:e])
        body = t[e + 1:].strip()
        body = body[body.index("[") + 1: body.rindex("]")]
        arms = []
        other = None
        for p in split_top(body):
            k = p.rindex(": bb")
            lab, bb = p[:k].strip(), int(p[k + 4:])
            if lab == "otherwise":
                other = bb
            else:
                arms.append((lab, bb))
        return ("switch", op, tuple(arms), other, loc)
    m = re.match(r"drop\((.*)\) -> (.*)$", t)
    if m:
        return ("drop", parse_place(m.group(1)), targets(m.group(2))["return"], loc)
    if t.startswith("assert("):
        e = match_paren(t, 6)
        inner = split_top(t[7:e])
        cond = inner[0]
        exp = True
        if cond.startswith("!"):
            exp = False
            cond = cond[1:]
        tg = targets(t[e + 1:].strip()[2:].strip())
        nxt = tg.get("success", tg.get("return"))
        return ("assert", parse_operand(cond), exp, inner[1] if len(inner) > 1 else "", nxt, loc)
    m = re.match(r"discriminant\((.*)\) = (\d+)$", t)
    if m:
        return ("setdiscr", parse_place(m.group(1)), int(m.group(2)))
    callee = callee_of(lits)
    # diverging call or call statement
    m = re.search(r" -> (bb\d+|\[return: bb\d+, unwind(: bb\d+)?\])$", t)
    if m and has_assign(t):
        lhs, rhs = split_assign(t[:m.start()])
        tg = targets(m.group(1))
        k = call_paren(rhs)
        args = tuple(parse_operand(x) for x in split_top(rhs[k + 1:-1]))
        fexpr = rhs[:k]
        if callee is None or fexpr.startswith("move ") or re.match(r"_\d+$", fexpr):
            return ("call", parse_place(lhs), ("dyn", parse_operand(fexpr)), args, tg["return"], loc)
        return ("call", parse_place(lhs), callee, args, tg["return"], loc)
    if not has_assign(t):
        # diverging call
        lhs = None
        rhs = t
        mm = re.search(r" -> (bb\d+|\[.*\])$", rhs)
        if mm:
            rhs = rhs[:mm.start()]
        k = call_paren(rhs)
        args = tuple(parse_operand(x) for x in split_top(rhs[k + 1:-1]))
        return ("call", None, callee or rhs[:k], args, None, loc)
    lhs, rhs = split_assign(t)
    return ("assign", parse_place(lhs), parse_rvalue(rhs), tuple(lits), loc)


def has_assign(t):
    return bool(re.match(r"_\d+ = ", t)) or (t.startswith("(") and t[match_paren(t, 0) + 1:].startswith(" = "))


def split_assign(t):
    if t.startswith("("):
        e = match_paren(t, 0)
        k = t.index(" = ", e)
    else:
        k = t.index(" = ")
    return t[:k], t[k + 3:]


def call_paren(rhs):
    """index of the '(' opening the argument list (last top-level one)"""
    e = len(rhs) - 1
    if rhs[e] != ")":
        raise ValueError("call: " + rhs)
    # scan forward for paren groups at depth 0 (outside <>), take the last
    i = 0
    depth = 0
    last = None
    while i < len(rhs):
        c = rhs[i]
        if c == '"':
            i += 1
            while rhs[i] != '"':
                if rhs[i] == "\\":
                    i += 1
                i += 1
        elif c in "<[{":
            depth += 1
        elif c in "]}" or (c == ">" and rhs[i - 1] not in "-="):
            depth -= 1
        elif c == "(":
            j = match_paren(rhs, i)
            if depth == 0:
                last = i
            i = j
        i += 1
    return last
