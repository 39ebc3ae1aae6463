"""Canonical form, subsumption and widening join of product states.

A state is flattened into  key (control + concrete shape)  and  leaves (everything
numeric or summarised: integers, positions, sequences).  Two states with the same
key are joined leaf by leaf; linear relations between leaves that hold on both
sides are kept (affine hull), inequalities are kept from a fixed template set.
"""
from fractions import Fraction

from lin import Lin, sym, ONE
from facts import Facts, E
from machine import live_at, live_in, loop_body, norm_segs, seg_len, U

RIGID_PREFIX = ("chars(", "bytes(")


def is_rigid(s, rigid):
    return s in rigid or s.startswith(RIGID_PREFIX)


# --------------------------------------------------------------------- flattening
class Flat:
    __slots__ = ("key", "leaves", "order")


def flatten(m, roots_extra, tag):
    """-> (key parts, leaves, cells in canonical order)"""
    order = []
    num = {}
    shape = []
    leaves = []

    def visit_cell(c):
        if c in num:
            return num[c]
        num[c] = len(order)
        order.append(c)
        return num[c]

    def walk(v):
        k = v[0]
        if k == "i":
            leaves.append(("i", v[1]))
            return ("i",)
        if k == "it":
            leaves.append(("p", v[1]))
            return ("it",)
        if k in ("buf", "src"):
            leaves.append(("p", v[1]))
            return (k,)
        if k == "cur":
            leaves.append(("p", v[1]))
            leaves.append(("i", v[2]))
            return ("cur",)
        if k == "l":
            leaves.append(("l", v[1]))
            # references held in the elements keep cells alive
            for s in v[1]:
                if s[0] == "e" and has_ref(s[1]):
                    return ("l",) + tuple(walk(x[1]) if x[0] == "e" else (x[0],) for x in v[1])
            return ("l",)
        if k == "a":
            return ("a", v[1], tuple((kk, walk(x)) for kk, x in v[2]))
        if k == "cl":
            return ("cl", v[1], tuple((kk, walk(x)) for kk, x in v[3]))
        if k == "r":
            path = []
            for p in v[2]:
                if p[0] == "x":
                    leaves.append(("i", p[1]))
                    path.append(("x",))
                else:
                    path.append(p)
            return ("r", visit_cell(v[1]), tuple(path))
        if k == "t":
            return ("t", v[1], tuple(walk_arg(x) for x in v[2]))
        if k == "el":
            leaves.append(("i", v[2]))
            return ("el", v[1])
        if k == "?":
            return ("?",)
        return v

    def walk_arg(x):
        if isinstance(x, Lin):
            leaves.append(("p", x))
            return ("lin",)
        if isinstance(x, tuple) and x and isinstance(x[0], str) and x[0] in VALS:
            return walk(x)
        return x

    control = []
    n = len(m.frames)
    for fi, f in enumerate(m.frames):
        if fi == n - 1:
            lv = live_at(f.body, f.bb, f.i)
        else:
            st = f.body.blocks[f.bb][f.i]
            lv = set(live_in(f.body)[st[4]]) if st[4] is not None else set()
        control.append((f.body.crate, f.body.name, f.bb, f.i))
        for l in sorted(lv):
            c = f.loc.get(l)
            if c is not None and m.mem[c][0] != "u":
                shape.append((fi, l, visit_cell(c)))
        for h in sorted(f.gh):
            if f.bb in loop_body(f.body, h):
                shape.append((fi, "ghost", h, visit_cell(f.gh[h])))
        if f.dest is not None and fi > 0:
            shape.append((fi, "dest", visit_cell(f.dest[0]), f.dest[1] if not any(p[0] == "x" for p in f.dest[1]) else None))
    for nm, c in roots_extra:
        shape.append((nm, visit_cell(c)))
    cells = []
    i = 0
    while i < len(order):
        cells.append(walk(m.mem[order[i]]))
        i += 1
    n_first = i
    res = walk(m.result) if m.status == "done" and m.result is not None else None
    while i < len(order):
        cells.append(walk(m.mem[order[i]]))
        i += 1
    return (tag, m.status, tuple(control), tuple(shape), tuple(cells), res), leaves, order, n_first


VALS = {"i", "b", "a", "r", "l", "it", "c", "sp", "sl", "el", "cl", "fn", "t", "buf", "cur", "src", "u", "op", "?"}


def has_ref(v):
    if v[0] == "r":
        return True
    if v[0] in ("a",):
        return any(has_ref(x) for _, x in v[2])
    return False


def rebuild(m, order, it):
    """write generalised leaves (iterator `it`, in flatten order) back into machine m"""
    def walk(v):
        k = v[0]
        if k == "i":
            return ("i", next(it))
        if k == "it":
            return ("it", next(it))
        if k in ("buf", "src"):
            return (k, next(it))
        if k == "cur":
            b = next(it)
            return ("cur", b, next(it))
        if k == "l":
            segs = next(it)
            for s in v[1]:
                if s[0] == "e" and has_ref(s[1]):
                    return ("l", tuple(("e", walk(x[1])) if x[0] == "e" else x for x in v[1]))
            return ("l", segs)
        if k == "a":
            return ("a", v[1], tuple((kk, walk(x)) for kk, x in v[2]))
        if k == "cl":
            return ("cl", v[1], v[2], tuple((kk, walk(x)) for kk, x in v[3]))
        if k == "r":
            return ("r", v[1], tuple(("x", next(it)) if p[0] == "x" else p for p in v[2]))
        if k == "t":
            return ("t", v[1], tuple(walk_arg(x) for x in v[2]))
        if k == "el":
            return ("el", v[1], next(it))
        return v

    def walk_arg(x):
        if isinstance(x, Lin):
            return next(it)
        if isinstance(x, tuple) and x and isinstance(x[0], str) and x[0] in VALS:
            return walk(x)
        return x
    keep = set(order)
    done_result = m.status == "done" and m.result is not None
    # flatten visits: cells reachable before the result, then the result, then the rest.
    return keep, walk, done_result


def write_back(m, order, n_first, it):
    keep, walk, done = rebuild(m, order, it)
    new = {}
    for c in order[:n_first]:
        new[c] = walk(m.mem[c])
    if done:
        m.result = walk(m.result)
    for c in order[n_first:]:
        new[c] = walk(m.mem[c])
    m.mem = new
    for f in m.frames:
        f.loc = {l: c for l, c in f.loc.items() if c in new}
        f.gh = {h: c for h, c in f.gh.items() if c in new}


# --------------------------------------------------------------------- affine generaliser
def eliminations(fx, rigid):
    """what the equalities among the facts say symbols are equal to"""
    m = {}
    for c in sorted(fx.cons, key=repr):
        if -c not in fx.cons:
            continue
        d = norm_lin(c.subst(m)) if m else c
        cand = [(is_rigid(s, rigid), s == "p0", s) for s, k in d.t if k in (1, -1)]
        if cand:
            s = min(cand)[2]
            k = d.coef(s)
            e = norm_lin((sym(s).scale(k) - d).scale(k))
            m = {x: norm_lin(y.subst({s: e})) for x, y in m.items()}
            m[s] = e
    return m


class Gen:
    def __init__(self, fxs, rigid, fresh):
        self.rigid = rigid
        self.fresh = fresh
        self.rows = []          # (vector dict, Lin expression) in echelon form by pivot
        self.new = {}           # fresh symbol -> (Lin1, Lin2)
        self.memo = {}
        self.lists = []         # ((segs1, segs2), segs)
        self.places = {}        # leaf -> positions on the two sides: an empty run of items lies where the other one ends
        self.at = 0
        self.elim = [eliminations(fx, rigid) for fx in fxs]
        self.add_gen({("c", 1): Fraction(1), ("c", 2): Fraction(1)}, ONE)
        self.seen_rigid = set()

    def near(self):
        """positions, those closest to the current leaf first"""
        return [self.places[i] for i in sorted(self.places, key=lambda i: abs(i - self.at))]

    def vec(self, l1, l2):
        for l in (l1, l2):
            for s in l.syms():
                if is_rigid(s, self.rigid) and s not in self.seen_rigid:
                    self.seen_rigid.add(s)
                    self.add_gen(self.vec(sym(s), sym(s)), sym(s))
        for i, l in enumerate((l1, l2)):
            if self.elim[i] and any(s in self.elim[i] for s in l.syms()):
                l = norm_lin(l.subst(self.elim[i]))
                for s in l.syms():
                    if is_rigid(s, self.rigid) and s not in self.seen_rigid:
                        self.seen_rigid.add(s)
                        self.add_gen(self.vec(sym(s), sym(s)), sym(s))
                l1, l2 = (l, l2) if i == 0 else (l1, l)
        v = {}
        if l1.c:
            v[("c", 1)] = Fraction(l1.c)
        if l2.c:
            v[("c", 2)] = Fraction(l2.c)
        for side, l in ((1, l1), (2, l2)):
            for s, k in l.t:
                v[(s, side)] = Fraction(k)
        return v

    def reduce(self, v):
        v = dict(v)
        expr = Lin(0)
        for piv, row, ex in self.rows:
            k = v.get(piv)
            if k:
                for a, b in row.items():
                    nv = v.get(a, 0) - k * b
                    if nv:
                        v[a] = nv
                    else:
                        v.pop(a, None)
                expr = expr + ex.scale(k)
        return v, expr

    def add_gen(self, v, ex):
        r, e = self.reduce(v)
        if not r:
            return
        piv = min(r, key=lambda x: (str(x)))
        k = r[piv]
        row = {a: b / k for a, b in r.items()}
        ex2 = (ex - e).scale(Fraction(1) / k)
        # back-substitute to keep rows reduced against each other
        self.rows.append((piv, row, ex2))
        new = []
        for p, rw, x in self.rows[:-1]:
            c = rw.get(piv)
            if c:
                rw = dict(rw)
                for a, b in row.items():
                    nv = rw.get(a, 0) - c * b
                    if nv:
                        rw[a] = nv
                    else:
                        rw.pop(a, None)
                x = x - ex2.scale(c)
            new.append((p, rw, x))
        self.rows = new + [self.rows[-1]]

    def span(self, l1, l2):
        r, e = self.reduce(self.vec(l1, l2))
        if r:
            return None
        return norm_lin(e)

    def lin(self, l1, l2, hint="t"):
        k = (l1, l2)
        if k in self.memo:
            return self.memo[k]
        e = self.span(l1, l2)
        if e is None:
            t = self.fresh(hint)
            self.add_gen(self.vec(l1, l2), t)
            self.new[t.syms()[0]] = (l1, l2)
            e = t
        self.memo[k] = e
        return e


def norm_lin(l):
    def n(x):
        x = Fraction(x)
        return int(x) if x.denominator == 1 else x
    return Lin(n(l.c), tuple((s, n(k)) for s, k in l.t))


def gen_value(g, a, b, fail):
    """anti-unify two values (inside sequences / terms)"""
    if a == b and not isinstance(a, Lin):
        return gen_same(g, a)
    if isinstance(a, Lin) and isinstance(b, Lin):
        return g.lin(a, b, "p")
    if not isinstance(a, tuple) or not isinstance(b, tuple) or not a or not b or a[0] != b[0]:
        raise fail
    k = a[0]
    if k in ("i", "it", "buf", "src"):
        return (k, g.lin(a[1], b[1], k))
    if k == "a":
        if a[1] != b[1] or len(a[2]) != len(b[2]):
            raise fail
        out = []
        for (k1, x), (k2, y) in zip(a[2], b[2]):
            if k1 != k2:
                raise fail
            out.append((k1, gen_value(g, x, y, fail)))
        return ("a", a[1], tuple(out))
    if k == "t":
        if a[1] != b[1] or len(a[2]) != len(b[2]):
            raise fail
        return ("t", a[1], tuple(gen_arg(g, x, y, fail) for x, y in zip(a[2], b[2])))
    if k == "l":
        return ("l", gen_list(g, a[1], b[1]))
    if k == "el" and a[1] == b[1]:
        return ("el", a[1], g.lin(a[2], b[2]))
    raise fail


def gen_arg(g, x, y, fail):
    if isinstance(x, Lin) and isinstance(y, Lin):
        return g.lin(x, y, "p")
    if isinstance(x, tuple) and x and isinstance(x[0], str) and x[0] in VALS:
        return gen_value(g, x, y, fail)
    if x == y:
        return x
    raise fail


def gen_same(g, a):
    """identical values still mention old symbols: generalise their Lins with themselves"""
    if isinstance(a, Lin):
        return g.lin(a, a, "p")
    if isinstance(a, tuple):
        return tuple(gen_same(g, x) for x in a)
    return a


class NoGen(Exception):
    pass


def gen_list(g, s1, s2):
    for (p, q), r in g.lists:
        if p == s1 and q == s2:
            return r
    r = None
    # element-wise when the structures agree
    if len(s1) == len(s2):
        try:
            snap = (list(g.rows), dict(g.new), dict(g.memo), set(g.seen_rigid), list(g.lists))
            out = []
            for x, y in zip(s1, s2):
                if x[0] != y[0]:
                    raise NoGen()
                if x[0] == "e":
                    out.append(("e", gen_value(g, x[1], y[1], NoGen())))
                elif x[0] == "R":
                    out.append(("R", g.lin(x[1], y[1], "p"), g.lin(x[2], y[2], "n")))
                elif x[0] == "U":
                    out.append(("U", g.lin(x[1], y[1], "n")))
                elif x[0] == "S" and x[1] == y[1]:
                    out.append(("S", x[1], g.lin(x[2], y[2], "n"), g.lin(x[3], y[3], "n")))
                elif x[0] == "L" and x[1] == y[1]:
                    out.append(("L", x[1], g.lin(x[2], y[2], "n")))
                else:
                    raise NoGen()
            r = tuple(out)
        except NoGen:
            g.rows, g.new, g.memo, g.seen_rigid, g.lists = snap
            r = None
    # ranges, one side empty
    if r is None and (is_range(s1) and is_range(s2)):
        a1, n1, a2, n2 = range_of(s1) + range_of(s2)
        if a1 is None and a2 is not None:
            a1 = next((x for x, y in g.near() if y == a2 + n2), a2)
        elif a2 is None and a1 is not None:
            a2 = next((y for x, y in g.near() if x == a1 + n1), a1)
        kind = (s1 or s2)[0]
        if a1 is not None:
            if kind[0] == "R":
                r = (("R", g.lin(a1, a2, "p"), g.lin(n1, n2, "n")),)
            else:
                r = (("S", kind[1], g.lin(a1, a2, "n"), g.lin(n1, n2, "n")),)
    # partially filled arrays: generalise the filled prefix and the unfilled rest separately
    if r is None and (s1 and s1[-1][0] == "U" or s2 and s2[-1][0] == "U"):
        u1 = s1[-1][1] if s1 and s1[-1][0] == "U" else Lin(0)
        u2 = s2[-1][1] if s2 and s2[-1][0] == "U" else Lin(0)
        p1 = s1[:-1] if s1 and s1[-1][0] == "U" else s1
        p2 = s2[:-1] if s2 and s2[-1][0] == "U" else s2
        r = gen_list(g, p1, p2) + (("U", g.lin(u1, u2, "n")),)
    # extension of an already generalised pair by explicit elements
    if r is None:
        for (p, q), base in sorted(g.lists, key=lambda t: -len(t[0][0])):
            d1, d2 = strip_prefix(p, s1), strip_prefix(q, s2)
            if d1 is None or d2 is None or len(d1) != len(d2) or not d1:
                continue
            try:
                tail = tuple(("e", gen_value(g, x[1], y[1], NoGen())) for x, y in zip(d1, d2)
                             if x[0] == "e" and y[0] == "e")
                if len(tail) == len(d1):
                    r = norm_segs(base + tail)
                    break
            except NoGen:
                pass
    if r is None:
        n1, n2 = Lin(0), Lin(0)
        for s in s1:
            n1 = n1 + seg_len(s)
        for s in s2:
            n2 = n2 + seg_len(s)
        n = g.lin(n1, n2, "len")
        g.count = getattr(g, "count", 0) + 1
        r = (("L", g.fresh("seq").syms()[0], n),)
    g.lists.append(((s1, s2), r))
    return r


def strip_prefix(p, s):
    if len(p) <= len(s) and s[:len(p)] == p:
        return s[len(p):]
    return None


def is_range(s):
    return len(s) == 0 or (len(s) == 1 and s[0][0] in ("R", "S"))


def range_of(s):
    if not s:
        return (None, Lin(0))
    return (s[0][-2], s[0][-1])


# --------------------------------------------------------------------- subsumption
def match_lin(sigma, pat, val, pend):
    """pattern Lin over generalised symbols; bind single unbound symbols, postpone the rest"""
    pend.append((pat, val))
    return True


def solve_pending(sigma, pend, rigid, fx):
    """bind generalised symbols from pat == val equations; then verify all"""
    ch = True
    todo = list(pend)
    while ch and todo:
        ch = False
        rest = []
        for pat, val in todo:
            p = pat.subst(sigma)
            free = [s for s in pat.syms() if s not in sigma and not is_rigid(s, rigid)]
            if not free:
                if not fx.eq(norm_lin(p), val):
                    return False
                ch = True
                continue
            if len(free) == 1:
                s = free[0]
                k = Fraction(pat.coef(s))
                # p = k*s + r  where r has no free generalised symbols
                r = Lin(0)
                for q, kk in pat.t:
                    if q != s:
                        r = r + (sigma[q] if q in sigma else sym(q)).scale(kk)
                r = r + pat.c
                sigma[s] = norm_lin((val - r).scale(Fraction(1) / k))
                ch = True
                continue
            rest.append((pat, val))
        todo = rest
    return not todo


def match_value(sigma, lsig, pat, val, pend):
    if isinstance(pat, Lin):
        if not isinstance(val, Lin):
            return False
        pend.append((pat, val))
        return True
    if isinstance(pat, tuple):
        if not isinstance(val, tuple):
            return False
        if pat and pat[0] == "l" and val and val[0] == "l":
            return match_list(sigma, lsig, pat[1], val[1], pend)
        if len(pat) != len(val):
            return False
        return all(match_value(sigma, lsig, x, y, pend) for x, y in zip(pat, val))
    return pat == val


def match_list(sigma, lsig, pat, val, pend):
    if len(pat) == 1 and pat[0][0] == "L":
        i = pat[0][1]
        if i in lsig:
            if lsig[i] != val:
                return False
        else:
            lsig[i] = val
        n = Lin(0)
        for s in val:
            n = n + seg_len(s)
        pend.append((pat[0][2], n))
        return True
    if len(pat) > 1 and pat[0][0] == "L":
        t = len(pat) - 1
        # the tail of explicit elements must match
        if any(s[0] == "R" for s in val[-t:]) or len(val) < t:
            return False
        if not match_list(sigma, lsig, pat[:1], val[:len(val) - t], pend):
            return False
        return all(x[0] == y[0] and match_value(sigma, lsig, x, y, pend) for x, y in zip(pat[1:], val[len(val) - t:]))
    if len(pat) == 1 and pat[0][0] in ("R", "S") and len(val) == 0:
        pend.append((pat[0][-1], Lin(0)))
        return True
    if pat and pat[-1][0] == "U":
        vu = val[-1][1] if val and val[-1][0] == "U" else Lin(0)
        pend.append((pat[-1][1], vu))
        return match_list(sigma, lsig, pat[:-1], val[:-1] if val and val[-1][0] == "U" else val, pend)
    if len(pat) != len(val):
        return False
    return all(x[0] == y[0] and match_value(sigma, lsig, x, y, pend) for x, y in zip(pat, val))
