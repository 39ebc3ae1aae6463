"""Abstract interpreter for MIR bodies.

Transfer functions work on an abstract state (frames + abstract memory) against
a fact base (facts.Facts).  A statement whose effect depends on an undecided fact
raises facts.Need; the explorer (product.py) partitions the state on it.

Values (immutable tuples)
  ('i', Lin) ('b', bool) ('a', discr|None, ((variant, idx), v)...) aggregates
  ('r', cell, path) reference/pointer/box      path: ('f', variant, idx) | ('x', Lin)
  ('l', segs) sequences; segs: ('e', v) ('R', start, len) ('L', id, len) ('U', len) ('S', name, start, len)
  ('it', pos) input item      ('c', n) character/byte constant
  ('sp', name) string constant parameter    ('sl', text) literal   ('el', name, i) its element
  ('cl', key, env, fields) closure    ('fn', callee, env) function item
  ('t', head, args) opaque term     ('buf', pos) abstract buffer    ('cur', base, idx) abstract cursor
  ('src', pos) the underlying iterator   ('u',) uninitialised   ('op',) irrelevant   ('?', why) unknown
"""
import re

import mirparse
import rtypes
from lin import Lin, sym
from facts import Need, E, clen, blen
from rtypes import try_type, canon, canon_name, subst

U = ("u",)
OP = ("op",)
UNIT = ("a", None, ())
TRUE = ("b", True)
FALSE = ("b", False)
NONE = ("a", 0, ())


def I(x):
    return ("i", x if isinstance(x, Lin) else Lin(x))


def cased(to, c):
    """does the change of ASCII case move this character?"""
    return 65 <= c <= 90 if to == "lower" else 97 <= c <= 122


def some(v):
    return ("a", 1, ((("Some", 0), v),))


def ok(v):
    return ("a", 0, ((("Ok", 0), v),))


def err(v=OP):
    return ("a", 1, ((("Err", 0), v),))


def tup(*vs):
    return ("a", None, tuple((("", i), v) for i, v in enumerate(vs)))


def field(v, idx, variant=""):
    if v[0] == "a":
        for k, x in v[2]:
            if k == (variant, idx):
                return x
        return U
    if v[0] == "cl":
        for k, x in v[3]:
            if k == (variant, idx):
                return x
        return U
    if v[0] in ("?", "op"):
        return v
    if v[0] == "u":
        return U
    raise Stuck("field of %s" % (v[0],))


def set_field(v, key, x):
    if v[0] == "u":
        v = ("a", None, ())
    if v[0] == "a":
        d = dict(v[2])
        if key[0] != "":
            d = {k: y for k, y in d.items() if k[0] == key[0]}
        d[key] = x
        return ("a", v[1], tuple(sorted(d.items(), key=lambda t: t[0])))
    if v[0] == "cl":
        d = dict(v[3])
        d[key] = x
        return ("cl", v[1], v[2], tuple(sorted(d.items(), key=lambda t: t[0])))
    if v[0] in ("?", "op"):
        return v
    raise Stuck("set field of %s" % (v[0],))


class Stuck(Exception):
    pass


class UB(Exception):
    pass


class Panic(Exception):
    pass


class Breach(Exception):
    """a rule attached to an event does not hold"""


class Frame:
    __slots__ = ("body", "bb", "i", "loc", "env", "dest", "cont", "prev", "gh", "rec")

    def copy(self):
        f = Frame.__new__(Frame)
        f.body, f.bb, f.i, f.env, f.dest, f.cont = self.body, self.bb, self.i, self.env, self.dest, self.cont
        f.loc = dict(self.loc)
        f.prev = self.prev
        f.gh = dict(self.gh)
        f.rec = dict(self.rec)
        return f


# ---------------------------------------------------------------- CFG facts
def successors(body, bb):
    t = body.blocks[bb][-1]
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "call":
        return [t[4]] if t[4] is not None else []
    if k == "switch":
        return [b for _, b in t[2]] + ([t[3]] if t[3] is not None else [])
    if k == "drop":
        return [t[2]]
    if k == "assert":
        return [t[4]] if t[4] is not None else []
    return []


def loop_heads(body):
    if body._heads is not None:
        return body._heads
    heads = set()
    color = {}
    stack = [(0, iter(successors(body, 0)))]
    color[0] = 1
    while stack:
        b, it = stack[-1]
        adv = False
        for s in it:
            if color.get(s, 0) == 1:
                heads.add(s)
            elif color.get(s, 0) == 0:
                color[s] = 1
                stack.append((s, iter(successors(body, s))))
                adv = True
                break
        if not adv:
            color[b] = 2
            stack.pop()
    body._heads = heads
    return heads


def loop_body(body, head):
    """blocks of the natural loop of `head` (empty if it is none)"""
    if body._loops is None:
        body._loops = {}
    memo = body._loops
    if head in memo:
        return memo[head]
    preds = {}
    for b in body.blocks:
        for s in successors(body, b):
            preds.setdefault(s, []).append(b)
    reach = set()             # blocks reachable from head
    work = [head]
    while work:
        b = work.pop()
        for s in successors(body, b):
            if s not in reach:
                reach.add(s)
                work.append(s)
    # strongly connected with head through blocks it dominates
    seen = {head}
    noth = {0} if head != 0 else set()
    work = list(noth)
    while work:
        b = work.pop()
        for s in successors(body, b):
            if s != head and s not in noth:
                noth.add(s)
                work.append(s)
    srcs = [u for u in preds.get(head, []) if u in reach and u not in noth]
    work = [u for u in srcs if u != head]
    if srcs:
        seen |= set(srcs)
        while work:
            b = work.pop()
            for q in preds.get(b, []):
                if q not in seen:
                    seen.add(q)
                    work.append(q)
        r = seen
    else:
        r = set()
    memo[head] = r
    return r


def place_uses(pl, out):
    out.add(pl[0])
    for p in pl[1]:
        if p[0] == "index":
            out.add(p[1])


def op_uses(op, out):
    if op[0] in ("move", "copy"):
        place_uses(op[1], out)


def stmt_use_def(s):
    use, de = set(), set()

    def write(pl):
        if pl[1]:
            place_uses(pl, use)
        else:
            de.add(pl[0])
    k = s[0]
    if k == "assign":
        rv = s[2]
        r = rv[0]
        if r == "use":
            op_uses(rv[1], use)
        elif r in ("ref", "len", "discr"):
            place_uses(rv[-1], use)
        elif r == "bin":
            op_uses(rv[2], use)
            op_uses(rv[3], use)
        elif r == "un":
            op_uses(rv[2], use)
        elif r in ("cast", "repeat"):
            op_uses(rv[1], use)
        elif r in ("array", "tuple"):
            for o in rv[1]:
                op_uses(o, use)
        write(s[1])
    elif k == "call":
        for o in s[3]:
            op_uses(o, use)
        if isinstance(s[2], tuple):
            op_uses(s[2][1], use)
        if s[1] is not None:
            write(s[1])
    elif k in ("switch", "assert"):
        op_uses(s[1], use)
    elif k == "drop":
        place_uses(s[1], use)
    elif k == "setdiscr":
        place_uses(s[1], use)
    elif k == "return":
        use.add(0)
    elif k == "dead":
        de.add(s[1])
    return use, de


def live_in(body):
    """block -> locals live at its start (cleanup edges are not followed)"""
    if body._live is not None:
        return body._live
    ud = {}
    for bb, st in body.blocks.items():
        use, de = set(), set()
        for s in st:
            u, d = stmt_use_def(s)
            use |= (u - de)
            de |= d
        ud[bb] = (use, de)
    live = {bb: set() for bb in body.blocks}
    ch = True
    while ch:
        ch = False
        for bb in sorted(body.blocks, reverse=True):
            out = set()
            for s in successors(body, bb):
                out |= live[s]
            new = ud[bb][0] | (out - ud[bb][1])
            if new != live[bb]:
                live[bb] = new
                ch = True
    body._live = live
    return live


def live_at(body, bb, i):
    out = set()
    for s in successors(body, bb):
        out |= live_in(body)[s]
    for s in reversed(body.blocks[bb][i:]):
        u, d = stmt_use_def(s)
        out = (out - d) | u
    return out


# ---------------------------------------------------------------- callee syntax
class Callee:
    __slots__ = ("text", "kind", "selfty", "trait", "segs", "method", "margs")


_callees = {}


def parse_callee(txt):
    """<S as T>::m::<A>  |  a::b::Ty::<A>::m::<B>"""
    if txt in _callees:
        return _callees[txt]
    c = Callee()
    c.text = txt
    c.selfty = c.trait = None
    c.margs = ()
    p = rtypes.TP(txt)
    segs = []
    if txt.startswith("<"):
        p.i = 1
        c.selfty = p.ty()
        p.ws()
        if re.compile(r"as\b").match(txt, p.i):
            p.i += 2
            c.trait = p.ty()
        if not p.eat(">"):
            p.err(">")
        while p.eat("::"):
            seg, a = p.seg()
            if seg == "<>":
                segs[-1] = (segs[-1][0], a)
            else:
                segs.append((seg, a))
        c.kind = "trait" if c.trait else "proj"
    else:
        while True:
            seg, a = p.seg()
            if seg == "<>":
                segs[-1] = (segs[-1][0], a)
            else:
                segs.append((seg, a))
            if not p.eat("::"):
                break
        c.kind = "path"
    c.segs = tuple(segs)
    c.method = segs[-1][0]
    c.margs = tuple(a for a in segs[-1][1] if a[0] != "life")
    _callees[txt] = c
    return c


RUST_ESC = {"n": 10, "t": 9, "r": 13, "0": 0, "\\": 92, "'": 39, '"': 34}


def unescape(s):
    out = []
    i = 0
    while i < len(s):
        if s[i] == "\\":
            c = s[i + 1]
            if c == "x":
                out.append(chr(int(s[i + 2:i + 4], 16)))
                i += 4
                continue
            if c == "u":
                e = s.index("}", i)
                out.append(chr(int(s[i + 3:e], 16)))
                i = e + 1
                continue
            if c == "\n":
                i += 2
                while i < len(s) and s[i].isspace():
                    i += 1
                continue
            out.append(chr(RUST_ESC[c]))
            i += 2
            continue
        out.append(s[i])
        i += 1
    return "".join(out)


# ---------------------------------------------------------------- sequences
def norm_segs(segs):
    out = []
    for s in segs:
        if s[0] == "e" and s[1][0] == "it":
            s = ("R", s[1][1], Lin(1))
        elif s[0] == "e" and s[1][0] == "el":
            s = ("S", s[1][1], s[1][2], Lin(1))
        if s[0] in ("R", "L", "U", "S"):
            n = s[-1]
            if n.is_const() and n.c == 0:
                continue
        if s[0] == "R" and out and out[-1][0] == "R" and out[-1][1] + out[-1][2] == s[1]:
            out[-1] = ("R", out[-1][1], out[-1][2] + s[2])
            continue
        if s[0] == "S" and out and out[-1][0] == "S" and out[-1][1] == s[1] and out[-1][2] + out[-1][3] == s[2]:
            out[-1] = ("S", s[1], out[-1][2], out[-1][3] + s[3])
            continue
        if s[0] == "U" and out and out[-1][0] == "U":
            out[-1] = ("U", out[-1][1] + s[1])
            continue
        out.append(s)
    return tuple(out)


def seg_len(s):
    return Lin(1) if s[0] == "e" else s[-1]


_long = {}      # long lists: id -> (segments, length, do elements hold references)


def about(segs):
    r = _long.pop(id(segs), None)
    if r is not None and r[0] is segs:
        _long[id(segs)] = r
    else:
        n = Lin(0)
        for s in segs:
            n = n + seg_len(s)
        refs = []
        values_in(segs, refs)
        r = remember(segs, n, bool(refs))
    return r


def remember(segs, n, refs):
    while len(_long) > 12:          # the oldest
        del _long[next(iter(_long))]
    r = _long[id(segs)] = (segs, n, refs)
    return r


def push_seg(segs, s):
    """normalised segments with one more behind"""
    if len(segs) < 32 or s[0] != "e" or s[1][0] in ("it", "el"):
        return norm_segs(segs + (s,))
    _, n, refs = about(segs)
    out = segs + (s,)
    got = []
    values_in(s, got)
    remember(out, n + 1, refs or bool(got))
    return out


def seq_len(v):
    if len(v[1]) >= 32:
        return about(v[1])[1]
    n = Lin(0)
    for s in v[1]:
        n = n + seg_len(s)
    return n


def L(*segs):
    return ("l", norm_segs(segs))


def closure_key(body, t):
    """the closure a place of `body` with type text t holds: (crate, name of its body)"""
    t = t.strip()
    if not t.startswith("[closure@"):
        return None
    m = re.search(r"\{closure#\d+\}\]$", t)
    return (body.crate, body.name + "::" + m.group(0)[:-1]) if m else None


INTS = {"u8": (0, 255), "i8": (-128, 127), "u16": (0, 65535), "i16": (-32768, 32767), "u32": (0, 2 ** 32 - 1), "i32": (-2 ** 31, 2 ** 31 - 1)}
NARROW = ("i8", "u16", "i16")       # u8: a constant, always
INT_TYPES = set(INTS) | {"u64", "i64", "u128", "i128", "usize", "isize", "char"}


def number(ty, n):
    return ("c", n) if ty == "u8" else I(n)


def values_in(v, out):
    """the cells the references inside a value lead to"""
    k = type(v)
    if k is tuple:
        if not v:
            return
        h = v[0]
        if h == "r" and len(v) > 2 and type(v[1]) is int:
            out.append(v[1])
        elif h == "l" and len(v) == 2 and len(v[1]) >= 32 and not about(v[1])[2]:
            return
    elif k is dict:
        v = tuple(v.values())
    elif k is not list:
        return
    for x in v:
        if type(x) in (tuple, list, dict):
            values_in(x, out)


class Machine:
    """one abstract execution (a stack of frames over abstract memory)"""

    def __init__(self, cfg):
        self.cfg = cfg            # analysis configuration (program, atoms, ...)
        self.frames = []
        self.mem = {}
        self.next = 0
        self.status = "run"
        self.result = None
        self.where = ""
        self.path = []            # call sites visited (for reports)
        self.oracle_calls = 0
        self.side = 0             # what an application of a component counts for
        self.ghost = {}           # event -> cell counting it
        self.lenread = 0          # how often the length of a list was asked for

    def copy(self):
        m = Machine.__new__(Machine)
        m.cfg = self.cfg
        m.frames = [f.copy() for f in self.frames]
        m.mem = dict(self.mem)
        m.next = self.next
        m.status = self.status
        m.result = self.result
        m.where = self.where
        m.path = list(self.path)
        m.oracle_calls = self.oracle_calls
        m.ghost = self.ghost
        m.side = self.side
        m.lenread = self.lenread
        return m

    # ------------------------------------------------------------ memory
    def collect(self, roots=()):
        """forget the cells nothing refers to"""
        todo = [c for _, c in roots]
        for f in self.frames:
            todo += f.loc.values()
            todo += f.gh.values()
            if f.dest is not None:
                todo.append(f.dest[0])
            values_in(f.env, todo)
        values_in(tuple(self.ghost.values()), todo)
        todo += [c for c in self.ghost.values() if isinstance(c, int)]
        values_in(self.result, todo)
        seen = set()
        while todo:
            c = todo.pop()
            if c not in seen and c in self.mem:
                seen.add(c)
                values_in(self.mem[c], todo)
        self.mem = {c: v for c, v in self.mem.items() if c in seen}

    def alloc(self, v):
        self.next += 1
        self.mem[self.next] = v
        return self.next

    def cell(self, f, local):
        c = f.loc.get(local)
        if c is None:
            c = self.alloc(U)
            f.loc[local] = c
        return c

    def push(self, body, args, env, dest, cont):
        f = Frame()
        f.body = body
        f.bb = 0
        f.i = 0
        f.loc = {}
        f.env = env
        f.dest = dest
        f.cont = cont
        f.prev = None
        f.gh = {}
        f.rec = {}
        if len(args) != len(body.args):
            raise Stuck("arity of %s" % body.name)
        for a, v in zip(body.args, args):
            f.loc[a] = self.alloc(v)
        self.frames.append(f)
        if len(self.frames) > 60:
            raise Stuck("call depth")

    # ------------------------------------------------------------ paths into values
    def get_path(self, v, path):
        for p in path:
            if p[0] == "f":
                v = field(v, p[2], p[1])
            elif p[0] == "x":
                v = self.nth(v, p[1])
            else:
                raise Stuck("path")
        return v

    def set_path(self, v, path, x):
        if not path:
            return x
        p = path[0]
        if p[0] == "f":
            old = field(v, p[2], p[1]) if v[0] in ("a", "cl") else U
            return set_field(v, (p[1], p[2]), self.set_path(old, path[1:], x))
        if p[0] == "x":
            old = self.nth(v, p[1]) if len(path) > 1 else None
            return self.set_nth(v, p[1], self.set_path(old, path[1:], x))
        raise Stuck("path")

    def nth(self, v, i):
        if v[0] in ("?",):
            return v
        if v[0] == "sp":
            return ("el", v[1], i)
        if v[0] != "l":
            raise Stuck("index of %s" % v[0])
        off = Lin(0)
        fx = self.fx
        for s in v[1]:
            n = seg_len(s)
            if fx.need_ge0(off + n - i - 1, "index %r within %r" % (i, off + n)):
                if s[0] == "e":
                    return s[1]
                if s[0] == "R":
                    return ("it", s[1] + (i - off))
                if s[0] == "U":
                    return U
                if s[0] == "S":
                    return ("el", s[1], s[2] + (i - off))
                return ("t", "nth", (s[1], i - off))
            off = off + n
        raise Panic("index out of bounds")

    def set_nth(self, v, i, x):
        if v[0] != "l":
            raise Stuck("index write into %s" % v[0])
        off = Lin(0)
        fx = self.fx
        segs = list(v[1])
        for k, s in enumerate(segs):
            n = seg_len(s)
            if fx.need_ge0(off + n - i - 1, "index %r within %r" % (i, off + n)):
                if s[0] == "e":
                    new = [("e", x)]
                else:
                    a = i - off
                    b = n - a - 1
                    if x == U and s[0] == "U":
                        new = [s]
                    elif s[0] == "U":
                        new = [("U", a), ("e", x), ("U", b)]
                    elif s[0] == "R":
                        new = [("R", s[1], a), ("e", x), ("R", s[1] + a + 1, b)]
                    else:
                        raise Stuck("write into summarised sequence")
                    if not (a.is_const() and a.c == 0) and fx.eq(a, Lin(0)):
                        new = new[1:]
                    if not (b.is_const() and b.c == 0) and fx.eq(b, Lin(0)):
                        new = new[:-1]
                return ("l", norm_segs(tuple(segs[:k]) + tuple(new) + tuple(segs[k + 1:])))
            off = off + n
        raise Panic("index out of bounds")

    def resolve(self, f, pl):
        """place -> (cell, path)"""
        cell = self.cell(f, pl[0])
        path = ()
        proj = pl[1]
        i = 0
        while i < len(proj):
            p = proj[i]
            if p[0] == "deref":
                v = self.get_path(self.mem[cell], path)
                if v[0] == "r":
                    cell, path = v[1], v[2]
                elif v[0] in ("sp", "sl", "?", "op", "fn", "el"):
                    pass
                elif v[0] == "u":
                    raise UB("dereference of an uninitialised pointer")
                else:
                    raise Stuck("deref of %s" % (v[0],))
            elif p[0] == "down":
                nx = proj[i + 1]
                path = path + (("f", p[1], nx[1]),)
                i += 1
            elif p[0] == "field":
                path = path + (("f", "", p[1]),)
            elif p[0] == "index":
                iv = self.mem[self.cell(f, p[1])]
                if iv[0] != "i":
                    raise Stuck("index value")
                path = path + (("x", iv[1]),)
            elif p[0] == "cindex":
                if p[1] < 0:
                    v = self.get_path(self.mem[cell], path)
                    path = path + (("x", self.length(v) + p[1]),)
                else:
                    path = path + (("x", Lin(p[1])),)
            else:
                raise Stuck("projection %r" % (p,))
            i += 1
        return cell, path

    def read(self, f, pl):
        c, path = self.resolve(f, pl)
        v = self.get_path(self.mem[c], path)
        if v[0] == "u":
            t = None
            if not pl[1]:
                t = f.body.locals.get(pl[0], "")
            elif pl[1][-1][0] == "field":
                t = pl[1][-1][2]
            if t is not None:
                z = self.zst(t, f)
                if z is not None:
                    return z
            if pl[1] and any(p[0] == "deref" for p in pl[1]):
                raise UB("read of uninitialised memory")
        return v

    def zst(self, t, f):
        """value of an (apparently uninitialised) zero-sized place"""
        t = t.strip()
        k = closure_key(f.body, t)
        if k:
            return ("cl", k, f.env, ())
        if t.startswith("std::marker::PhantomData") or t == "()":
            return UNIT
        return None

    def write(self, cell, path, x):
        if path:
            self.mem[cell] = self.set_path(self.mem[cell], path, x)
        else:
            self.mem[cell] = x

    def load(self, ref):
        """value behind a reference (through nested references)"""
        v = ref
        while v[0] == "r":
            v = self.get_path(self.mem[v[1]], v[2])
        return v

    def last_ref(self, ref):
        """innermost reference that points to a non-reference"""
        while True:
            v = self.get_path(self.mem[ref[1]], ref[2])
            if v[0] != "r":
                return ref, v
            ref = v

    def store(self, ref, v):
        self.write(ref[1], ref[2], v)

    def length(self, v):
        self.lenread += 1
        if v[0] == "l":
            return seq_len(v)
        if v[0] == "sp":
            return clen(v[1])
        if v[0] == "sl":
            return Lin(len(v[1]))
        raise Stuck("length of %s" % (v[0],))

    # ------------------------------------------------------------ types
    def ty(self, s, f):
        return self.sub(try_type(s), f)

    def sub(self, t, f):
        r = subst(self.cfg.localise(t, f), f.env)
        return self.cfg.program.normalise(r) if self.cfg.concrete_buffers else r

    # ------------------------------------------------------------ operands
    def operand(self, f, op):
        k = op[0]
        if k == "copy":
            return self.read(f, op[1])
        if k == "move":
            v = self.read(f, op[1])
            c, path = self.resolve(f, op[1])
            if v[0] not in ("sp", "sl"):
                self.write(c, path, U)
            return v
        if k == "const":
            return self.const(f, op[1])
        return ("fn", op[1], tuple(sorted(f.env.items())))

    def const(self, f, s):
        if s == "()":
            return UNIT
        if s in ("true", "false"):
            return ("b", s == "true")
        m = re.match(r"(-?\d+)_([iu](\d+|size))$", s)
        if m:
            return I(int(m.group(1))) if m.group(2) != "u8" else ("c", int(m.group(1)))
        if s.startswith("'"):
            return ("c", ord(unescape(s[1:-1])))
        if s.startswith('"'):
            return ("sl", unescape(s[1:-1]))
        if s.startswith('b"'):
            return ("sl", unescape(s[2:-1]))
        if re.match(r"[A-Z][A-Z0-9_]*$", s) and s in f.env:
            t = f.env[s]
            return self.const_param(t)
        m = re.search(r"::promoted\[(\d+)\]$", s)
        if m:
            return self.promoted(f, int(m.group(1)))
        if s.startswith("{transmute("):
            return UNIT
        m = re.match(r"(?:std::|core::)?(?:num::<impl )?([iu](?:8|16|32|64|128|size))>?::(MAX|MIN)$", s)
        if m:
            if m.group(1) in INTS:
                return number(m.group(1), INTS[m.group(1)][m.group(2) == "MAX"])
            if m.group(2) == "MIN":
                return I(0) if m.group(1)[0] == "u" else ("?", s)
            return I(sym(m.group(1) + "::MAX"))
        m = re.match(r"[A-Z][A-Z0-9_]*$", s)
        if m:
            # a const generic that is not in the environment: symbolic
            return self.const_param(("path", s, ()))
        if re.match(r"[A-Za-z_]", s) or s.startswith("<"):
            # unit structs, function items, unit variants
            if re.search(r"(^|::)None(::<.*>)?$", s) or re.search(r"::None$", s):
                return NONE
            c = self.cfg.const_item(s)
            if c is not None:
                return self.run_const(c, f.env)
            if re.search(r"(^|::)[A-Z]\w*(::<.*>)?$", s):
                return UNIT
            return ("fn", s, tuple(sorted(f.env.items())))
        return ("?", "constant " + s)

    def const_param(self, t):
        if t[0] == "const":
            m = re.match(r"\{?(\d+)(_?usize)?\}?$", t[1])
            if m:
                return I(int(m.group(1)))
            if t[1].startswith('"'):
                return ("sl", unescape(t[1][1:-1]))
            if t[1].startswith('b"'):
                return ("sl", unescape(t[1][2:-1]))
            if not re.match(r"\w+$", t[1]):
                return ("?", "const argument " + t[1])
            t = ("path", t[1], ())
        if t[0] == "path":
            n = t[1]
            if n in self.cfg.int_params:
                return I(sym(n))
            return ("sp", n)
        return ("?", "const argument")

    def promoted(self, f, n):
        b = self.cfg.program.bodies.get((f.body.crate, f.body.name + "::promoted[%d]" % n))
        if b is None:
            return OP
        return self.run_const(b, f.env)

    def run_const(self, body, env):
        """evaluate a constant body (no facts are consulted)"""
        depth = len(self.frames)
        cell = self.alloc(U)
        self.push(body, [], env, (cell, ()), None)
        n = 0
        try:
            while len(self.frames) > depth:
                self.step1()
                n += 1
                if n > 2000:
                    raise Stuck("constant")
        except (Stuck, Panic):
            del self.frames[depth:]
            return OP
        return self.mem[cell]

    # ------------------------------------------------------------ stepping
    def at(self):
        f = self.frames[-1]
        return f.body, f.bb, f.i

    def at_head(self):
        f = self.frames[-1]
        return f.i == 0 and f.bb in loop_heads(f.body)

    def control(self):
        return tuple((f.body.crate, f.body.name, f.bb, f.i) for f in self.frames)

    def step(self, fx):
        """execute one statement.  Raises Need (state unchanged)."""
        self.fx = fx
        f = self.frames[-1]
        st = f.body.blocks[f.bb][f.i]
        save = None
        k = st[0]
        if k in ("call", "assign", "switch", "assert", "drop"):
            save = (dict(self.mem), self.next, [g.copy() for g in self.frames] if k == "call" else None,
                    dict(f.loc), f.bb, f.i, self.status, self.result, len(self.path))
        try:
            self.step1()
        except Need:
            self.mem, self.next = save[0], save[1]
            if save[2] is not None:
                self.frames = save[2]
            else:
                f.loc, f.bb, f.i = save[3], save[4], save[5]
            self.status, self.result = save[6], save[7]
            del self.path[save[8]:]
            raise
        except Stuck as e:
            self.status = "stuck"
            self.result = str(e)
            self.where = self.pos_text(st)
        except UB as e:
            self.status = "ub"
            self.result = str(e)
            self.where = self.pos_text(st)
        except Breach as e:
            self.status = "breach"
            self.result = str(e)
            self.where = self.pos_text(st)
        except Panic as e:
            self.status = "panic"
            self.result = str(e)
            self.where = self.pos_text(st)

    def pos_text(self, st):
        loc = st[-1] if isinstance(st[-1], str) else ""
        m = re.search(r"at (.*?:\d+:\d+)", loc)
        f = self.frames[-1] if self.frames else None
        return "%s in %s" % (m.group(1) if m else "?", self.cfg.fn_label(f.body) if f else "?")

    def goto(self, f, bb):
        f.prev = f.bb
        f.bb = bb
        f.i = 0

    def step1(self):
        f = self.frames[-1]
        st = f.body.blocks[f.bb][f.i]
        k = st[0]
        if k == "assign":
            self.assign(f, st)
            f.i += 1
        elif k == "dead":
            c = f.loc.pop(st[1], None)
            f.i += 1
        elif k == "goto":
            self.goto(f, st[1])
        elif k == "setdiscr":
            c, path = self.resolve(f, st[1])
            v = self.get_path(self.mem[c], path)
            if v[0] == "a":
                v = ("a", st[2], v[2])
            else:
                v = ("a", st[2], ())
            self.write(c, path, v)
            f.i += 1
        elif k == "switch":
            self.switch(f, st)
        elif k == "return":
            self.do_return()
        elif k == "drop":
            c, path = self.resolve(f, st[1])
            if any(p[0] == "deref" for p in st[1][1]) and "MaybeUninit<" not in f.body.locals.get(st[1][0], ""):
                v = self.get_path(self.mem[c], path)
                if v[0] == "u":
                    raise UB("drop of uninitialised memory")
            self.goto(f, st[2])
        elif k == "assert":
            v = self.operand(f, st[1])
            b = self.truth(v)
            if b != st[2]:
                raise Panic("assertion: " + st[3])
            self.goto(f, st[4])
        elif k == "call":
            self.call(f, st)
        elif k == "unreachable":
            raise Stuck("unreachable reached")
        elif k == "resume":
            raise Stuck("unwinding")
        else:
            raise Stuck("statement %r" % (st[:2],))

    def do_return(self):
        f = self.frames.pop()
        v = self.mem[self.cell(f, 0)]
        if v[0] == "u":
            z = self.zst(f.body.ret or "", f)
            v = z if z is not None else v
            if v[0] == "u" and (f.body.locals.get(0) or f.body.ret) not in ("()", "!"):
                v = UNIT          # zero-sized value
            elif v[0] == "u":
                v = UNIT
        if not self.frames and f.dest is None:
            self.status = "done"
            self.result = v
            return
        if f.dest is not None:
            self.write(f.dest[0], f.dest[1], v)
        if self.frames and f.cont is not None:
            self.goto(self.frames[-1], f.cont)

    def truth(self, v):
        if v[0] == "b":
            return v[1]
        if v[0] == "?":
            raise Stuck("unknown condition: " + str(v[1]))
        if v[0] == "i" and v[1].is_const():
            return v[1].c != 0
        raise Stuck("condition %s" % (v[0],))

    def switch(self, f, st):
        v = self.operand(f, st[1])
        arms, other = st[2], st[3]
        if v[0] == "b":
            n = 1 if v[1] else 0
            for lab, bb in arms:
                if lab in ("false", "true"):
                    if (lab == "true") == v[1]:
                        return self.goto(f, bb)
                elif int(re.match(r"-?\d+", lab).group(0)) == n:
                    return self.goto(f, bb)
            return self.goto(f, other)
        if v[0] == "i":
            for lab, bb in arms:
                m = re.match(r"(-?\d+)_", lab)
                if self.fx.need_eq(v[1], Lin(int(m.group(1))), "%r == %s" % (v[1], m.group(1))):
                    return self.goto(f, bb)
            return self.goto(f, other)
        if v[0] in ("it", "c", "el"):
            for lab, bb in arms:
                if lab.startswith("'"):
                    n = ord(unescape(lab[1:-1]))
                else:
                    n = int(re.match(r"\d+", lab).group(0))
                if self.eq_val(v, ("c", n)):
                    return self.goto(f, bb)
            return self.goto(f, other)
        if v[0] == "?":
            raise Stuck("branch on unknown: " + str(v[1]))
        raise Stuck("switch on %s" % (v[0],))

    # ------------------------------------------------------------ assignments
    def assign(self, f, st):
        pl, rv = st[1], st[2]
        t = None
        if len(pl[1]) == 1 and pl[1][0][0] == "field":
            lt = f.body.locals.get(pl[0], "")
            ck = closure_key(f.body, lt)
            if ck:
                c = self.cell(f, pl[0])
                if self.mem[c][0] == "u":
                    self.mem[c] = ("cl", ck, f.env, ())
        v = self.rvalue(f, rv, st, "" if pl[1] else f.body.locals.get(pl[0], ""))
        c, path = self.resolve(f, pl)
        self.write(c, path, v)

    def rvalue(self, f, rv, st, ty=""):
        k = rv[0]
        if k == "use":
            op = rv[1]
            if op[0] == "fnconst":
                return self.aggregate(f, op[1], st)
            return self.operand(f, op)
        if k == "ref":
            pl = rv[2]
            # reborrow of a reference to a string constant
            if pl[1] and pl[1][-1][0] == "deref":
                v = self.read_noub(f, (pl[0], pl[1][:-1]))
                if v[0] in ("sp", "sl", "?", "op", "el"):
                    return v
            c, path = self.resolve(f, pl)
            return ("r", c, path)
        if k == "discr":
            v = self.read(f, rv[1])
            if v[0] == "a":
                if v[1] is None:
                    raise Stuck("discriminant of a struct")
                return I(v[1])
            if v[0] == "?":
                return v
            if v[0] == "r":
                raise Stuck("discriminant of reference")
            return ("?", "discriminant of %s" % (v,))
        if k == "bin":
            return self.binop(rv[1], self.operand(f, rv[2]), self.operand(f, rv[3]), ty)
        if k == "un":
            v = self.operand(f, rv[2])
            if rv[1] == "Not" and v[0] == "b":
                return ("b", not v[1])
            return v if v[0] == "?" else ("?", "unary %s" % rv[1])
        if k == "len":
            v = self.read(f, rv[1])
            return I(self.length(v))
        if k == "cast":
            v = self.operand(f, rv[1])
            if v[0] == "fn":
                return v if "Pointer" in rv[3] and "Debug" not in rv[2] and "Display" not in rv[2] else v
            if rv[2] in INT_TYPES and v[0] in ("i", "c"):
                return self.as_int(v, rv[2])
            if rv[2] in INT_TYPES and v[0] == "b":
                return number(rv[2], int(v[1]))
            if rv[3].startswith("Pointer") or rv[3].startswith("Misc"):
                if v[0] == "it" and not rv[2] in ("u8", "char"):
                    return ("?", "cast of item")
                return v
            return ("?", "cast")
        if k == "box":
            return ("r", self.alloc(U), ())
        if k == "array":
            return L(*[("e", self.operand(f, o)) for o in rv[1]])
        if k == "tuple":
            return tup(*[self.operand(f, o) for o in rv[1]])
        if k == "repeat":
            v = self.operand(f, rv[1])
            n = self.const(f, rv[2].replace("const ", "")) if not re.match(r"\d+$", rv[2]) else I(int(rv[2]))
            if n[0] == "i" and n[1].is_const() and n[1].c <= 8:
                return L(*[("e", v)] * int(n[1].c))
            if v[0] == "u":
                return L(("U", n[1]))
            return ("?", "array repeat")
        if k == "closure":
            return ("cl", closure_key(f.body, rv[1]), f.env, ())
        if k == "size":
            return ("?", "size_of")
        raise Stuck("rvalue %s" % k)

    def read_noub(self, f, pl):
        try:
            return self.read(f, pl)
        except (Stuck, UB):
            return OP

    def aggregate(self, f, s, st):
        """struct / enum constructor written as text (not deaggregated)"""
        m = re.match(r"(.*?)\s*\{(.*)\}$", s)
        if m and not s.startswith("<"):
            vals = []
            for part in mirparse.split_top(m.group(2)):
                vals.append(self.operand(f, mirparse.parse_operand(part[part.index(":") + 1:])))
            return tup(*vals)
        return ("fn", s, tuple(sorted(f.env.items())))

    def arith(self, op, x, y, ty):
        """sums, differences and products; overflow of the types too narrow to count what memory can hold is modelled"""
        m = re.match(r"\(?([iu](?:8|16|32|64|128|size))\b", ty)
        ty = m.group(1) if m else "usize"
        checked = op.startswith("Checked")
        if op.endswith("Mul"):
            if not x.is_const() and not y.is_const():
                return tup(("?", "product"), FALSE) if checked else ("?", "product")
            r = x.scale(y.c) if y.is_const() else y.scale(x.c)
        else:
            r = x + y if op.endswith("Add") else x - y
        o = False
        if ty in NARROW:
            o = not self.fits(r, ty)
        elif ty[0] == "u" and op.endswith("Sub"):
            o = not self.fx.need_ge0(r, "%r >= %r" % (x, y))
        if checked:
            return tup(I(r) if not o else ("?", "overflow"), ("b", o))
        return I(r) if not o else ("?", "overflow")

    def fits(self, x, ty):
        lo, hi = INTS[ty]
        what = "%r fits %s" % (x, ty)
        return self.fx.need_ge0(hi - x, what) and self.fx.need_ge0(x - lo, what)

    def as_int(self, v, ty):
        """a number converted with `as`"""
        x = Lin(v[1]) if v[0] == "c" else v[1]
        if x.is_const() and ty in INTS:
            lo, hi = INTS[ty]
            return number(ty, (int(x.c) - lo) % (hi - lo + 1) + lo)
        if ty == "u8" or ty in NARROW and not self.fits(x, ty):
            return ("?", "cast to " + ty)
        if ty == "char":
            return ("c", int(x.c)) if x.is_const() else ("?", "cast to char")
        return I(x)

    def binop(self, op, a, b, ty=""):
        if a[0] == "?" or b[0] == "?":
            u = a if a[0] == "?" else b
            if op.startswith("Checked"):
                return tup(u, FALSE)
            return u
        fx = self.fx
        if a[0] == "i" and b[0] == "i":
            x, y = a[1], b[1]
            if op in ("Add", "Sub", "Mul", "CheckedAdd", "CheckedSub", "CheckedMul"):
                return self.arith(op, x, y, ty)
            if op == "Eq":
                return ("b", fx.need_eq(x, y, "%r == %r" % (x, y)))
            if op == "Ne":
                return ("b", not fx.need_eq(x, y, "%r == %r" % (x, y)))
            if op == "Lt":
                return ("b", fx.need_ge0(y - x - 1, "%r < %r" % (x, y)))
            if op == "Le":
                return ("b", fx.need_ge0(y - x, "%r <= %r" % (x, y)))
            if op == "Gt":
                return ("b", fx.need_ge0(x - y - 1, "%r > %r" % (x, y)))
            if op == "Ge":
                return ("b", fx.need_ge0(x - y, "%r >= %r" % (x, y)))
            if op in ("BitOr", "BitAnd", "BitXor"):
                return self.bits(op, x, y)
            return ("?", "operator " + op)
        if op == "BitAnd" and b[0] == "c" and a[0] in ("it", "el", "c") and b[1] <= 255:
            if a[0] == "c":
                return ("c", a[1] & b[1])
            if ty == "u8" and b[1] == 255:
                return a
            if ty == "u8":
                return ("t", "masked", (b[1], a))
        if op == "BitAnd" and a[0] == "c" and b[0] in ("it", "el"):
            return self.binop(op, b, a, ty)
        if a[0] == "b" and b[0] == "b":
            if op in ("BitAnd",):
                return ("b", a[1] and b[1])
            if op == "BitOr":
                return ("b", a[1] or b[1])
            if op in ("BitXor", "Ne"):
                return ("b", a[1] != b[1])
            if op == "Eq":
                return ("b", a[1] == b[1])
        if op == "Eq":
            return ("b", self.eq_val(a, b))
        if op == "Ne":
            return ("b", not self.eq_val(a, b))
        if a[0] == "c" and b[0] == "c" and op in ("Add", "Sub", "Mul", "CheckedAdd", "CheckedSub", "CheckedMul"):
            r = a[1] + b[1] if op.endswith("Add") else a[1] - b[1] if op.endswith("Sub") else a[1] * b[1]
            r, o = ("c", r % 256), ("b", not 0 <= r <= 255)
            return tup(r, o) if op.startswith("Checked") else r
        if a[0] == "c" and b[0] == "c" and op in ("Lt", "Le", "Gt", "Ge"):
            return ("b", {"Lt": a[1] < b[1], "Le": a[1] <= b[1], "Gt": a[1] > b[1], "Ge": a[1] >= b[1]}[op])
        if a[0] == "it" and b[0] == "c" and op in ("Lt", "Le", "Gt", "Ge"):
            n = b[1]
            iv = {"Lt": ((0, n - 1),), "Le": ((0, n),), "Gt": ((n + 1, 0x10FFFF),), "Ge": ((n, 0x10FFFF),)}[op]
            iv = tuple(x for x in iv if x[0] <= x[1])
            return ("b", fx.item_in(a[1], iv, "%s %d" % (op, n)))
        if a[0] == "c" and b[0] == "it" and op in ("Lt", "Le", "Gt", "Ge"):
            return self.binop({"Lt": "Gt", "Le": "Ge", "Gt": "Lt", "Ge": "Le"}[op], b, a)
        return ("?", "operator %s on %s,%s" % (op, a[0], b[0]))

    def bits(self, op, x, y):
        """bit operation on two sizes: exact on constants and zero, bounded otherwise"""
        fx = self.fx
        if x.is_const() and y.is_const():
            return I(Lin({"BitOr": x.c | y.c, "BitAnd": x.c & y.c, "BitXor": x.c ^ y.c}[op]))
        if fx.need_eq(x, Lin(0), "%r == 0" % x):
            return I(Lin(0) if op == "BitAnd" else y)
        if fx.need_eq(y, Lin(0), "%r == 0" % y):
            return I(Lin(0) if op == "BitAnd" else x)
        key = (op, x, y)
        r = fx.pred.get(key)
        if r is None:
            r = fx.fresh(op)
            fx.pred[key] = r
            fx.add(r)
            if op == "BitAnd":
                fx.add(x - r)
                fx.add(y - r)
            else:
                fx.add(x + y - r)
                if op == "BitOr":
                    fx.add(r - x)
                    fx.add(r - y)
        return I(r)

    def eq_masked(self, a, b):
        """equality where a is the image of an element under a mask or a change of case"""
        kind, x = a[2]
        if b[0] == "c" and x[0] == "it":
            if a[1] == "masked":
                iv = [v for v in range(256) if v & kind == b[1]]
            else:
                iv = [v for v in range(0x110000 if b[1] > 127 else 128) if v == b[1] and not cased(kind, v)]
                iv += [v for v in range(128) if cased(kind, v) and v ^ 32 == b[1]]
            return self.fx.item_in(x[1], tuple((v, v) for v in sorted(iv)), "%s equals %r" % (a[1], b[1])) if iv else False
        if b[0] == "t" and b[1] == a[1] and b[2][0] == kind:
            if x == b[2][1]:
                return True
            if {x[0], b[2][1][0]} == {"it", "el"} and self.eq_val(x, b[2][1]):
                return True
        return self.fx.predicate(("eq",) + tuple(sorted((a, b), key=repr)), "%s equal" % a[1])

    # ------------------------------------------------------------ equality
    def eq_val(self, a, b):
        """structural equality of two values (references are followed)"""
        a, b = self.load(a), self.load(b)
        if a[0] == "?" or b[0] == "?":
            raise Stuck("comparison with unknown value")
        if a[0] == "i" and b[0] == "i":
            return self.fx.need_eq(a[1], b[1], "%r == %r" % (a[1], b[1]))
        if a[0] == "b" and b[0] == "b":
            return a[1] == b[1]
        if a[0] == "c" and b[0] == "c":
            return a[1] == b[1]
        if a[0] == "c" and b[0] in ("it", "el"):
            a, b = b, a
        if a[0] == "it" and b[0] == "c":
            return self.fx.item_in(a[1], ((b[1], b[1]),), "equals %r" % chr(b[1]))
        if a[0] == "el" and b[0] == "it":
            a, b = b, a
        if a[0] == "it" and b[0] == "el":
            return self.fx.elem_eq(b[1], b[2], a[1])
        if a[0] == "it" and b[0] == "it":
            if self.fx.eq(a[1], b[1]):
                return True
            if self.fx.need_eq(a[1], b[1], "%r == %r" % (a[1], b[1])):
                return True
            return self.fx.predicate(("same item",) + tuple(sorted((a, b), key=repr)), "items at %r and %r are equal" % (a[1], b[1]))
        if a[0] == "a" and b[0] == "a":
            if a[1] != b[1]:
                return False
            if len(a[2]) != len(b[2]):
                raise Stuck("comparison of differently shaped aggregates")
            for (k1, x), (k2, y) in zip(a[2], b[2]):
                if k1 != k2:
                    raise Stuck("comparison of differently shaped aggregates")
                if not self.eq_val(x, y):
                    return False
            return True
        if a[0] in ("l", "sp", "sl") and b[0] in ("l", "sp", "sl"):
            return self.eq_seq(a, b)
        if a[0] == "t" and b[0] == "t" and a == b:
            return True
        if a[0] == "t" and b[0] == "t" and a[1] == b[1] == "bytes":
            return self.eq_seq(a[2][0], b[2][0])
        for x, y in ((a, b), (b, a)):
            if x[0] == "t" and x[1] in ("masked", "cased") and y[0] in ("c", "it", "el", "t"):
                return self.eq_masked(x, y)
        raise Stuck("comparison of %s and %s" % (a[0], b[0]))

    def as_segs(self, v):
        if v[0] == "l":
            return list(v[1])
        if v[0] == "sp":
            return [("S", v[1], Lin(0), clen(v[1]))]
        return [("e", ("c", ord(c))) for c in v[1]]

    def eq_seq(self, a, b):
        sa, sb = self.as_segs(a), self.as_segs(b)
        fx = self.fx
        la = Lin(0)
        for s in sa:
            la = la + seg_len(s)
        lb = Lin(0)
        for s in sb:
            lb = lb + seg_len(s)
        if not fx.need_eq(la, lb, "length %r == %r" % (la, lb)):
            return False
        if fx.eq(la, Lin(0)):
            return True
        sa, sb = norm_segs(sa), norm_segs(sb)
        sa = tuple(s for s in sa if not fx.eq(seg_len(s), Lin(0)))
        sb = tuple(s for s in sb if not fx.eq(seg_len(s), Lin(0)))
        if sa == sb:
            return True
        if len(sa) == 1 and len(sb) == 1:
            x, y = sa[0], sb[0]
            if x[0] == "R" and y[0] == "S":
                x, y = y, x
            if x[0] == "S" and y[0] == "R" and fx.eq(x[2], Lin(0)):
                m = fx.lcp_of(x[1], y[1])
                return fx.need_ge0(m - x[3], "%s matches at %r" % (x[1], y[1]))
            if x[0] == "S" and y[0] == "R":
                if fx.eq(y[1], x[2]) or fx.ge0(fx.lcp_of(x[1], y[1] - x[2]) - x[2] - x[3]):
                    return fx.need_ge0(fx.lcp_of(x[1], y[1] - x[2]) - x[2] - x[3], "%s matches" % x[1])
                return fx.predicate(("subeq", x, y), "%s from %r matches at %r" % (x[1], x[2], y[1]))
            if x[0] == y[0] == "R" and fx.eq(x[1], y[1]):
                return True
            if x[0] == y[0] == "S" and x[1] == y[1] and fx.eq(x[2], y[2]):
                return True
        # element by element when one side is explicit
        if all(s[0] == "e" for s in sa) or all(s[0] == "e" for s in sb):
            n = len(sa) if all(s[0] == "e" for s in sa) else len(sb)
            va, vb = ("l", tuple(sa)), ("l", tuple(sb))
            for i in range(n):
                if not self.eq_val(self.nth(va, Lin(i)), self.nth(vb, Lin(i))):
                    return False
            return True
        raise Stuck("comparison of sequences")

    # ------------------------------------------------------------ calls
    def call(self, f, st):
        from calls import do_call
        do_call(self, f, st)
