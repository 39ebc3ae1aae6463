"""Linear-inequality abstract domain.

`Lin` is a linear expression with rational coefficients over named symbols.
`Facts` (see facts.py) keeps a conjunction of `Lin >= 0` constraints; entailment
is decided by Fourier-Motzkin elimination with integer tightening.  Everything
here is ordinary numeric-domain machinery of an abstract interpreter.
"""
from fractions import Fraction
from functools import lru_cache
from math import gcd


class Lin:
    __slots__ = ("c", "t", "_h")

    def __init__(self, c=0, t=()):
        self.c = c
        self.t = t          # sorted tuple of (sym, coef), coef != 0
        self._h = hash((c, t))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Lin) and self._h == o._h and self.c == o.c and self.t == o.t

    def __add__(self, o):
        if not isinstance(o, Lin):
            return Lin(self.c + o, self.t)
        if not o.t:
            return Lin(self.c + o.c, self.t)
        d = dict(self.t)
        for s, k in o.t:
            v = d.get(s, 0) + k
            if v:
                d[s] = v
            else:
                d.pop(s, None)
        return Lin(self.c + o.c, tuple(sorted(d.items())))

    def __neg__(self):
        return Lin(-self.c, tuple((s, -k) for s, k in self.t))

    def __sub__(self, o):
        if not isinstance(o, Lin):
            return Lin(self.c - o, self.t)
        return self + (-o)

    def scale(self, k):
        if k == 0:
            return Lin(0)
        return Lin(self.c * k, tuple((s, v * k) for s, v in self.t))

    def is_const(self):
        return not self.t

    def syms(self):
        return [s for s, _ in self.t]

    def coef(self, s):
        for x, k in self.t:
            if x == s:
                return k
        return 0

    def subst(self, m):
        """m: sym -> Lin"""
        if not any(s in m for s, _ in self.t):
            return self
        r = Lin(self.c)
        rest = []
        for s, k in self.t:
            if s in m:
                r = r + m[s].scale(k)
            else:
                rest.append((s, k))
        return r + Lin(0, tuple(rest))

    def __repr__(self):
        out = []
        for s, k in self.t:
            if k == 1:
                out.append("+" + s)
            elif k == -1:
                out.append("-" + s)
            else:
                out.append("%+s*%s" % (k, s))
        if self.c or not out:
            out.append("%+d" % self.c if self.c == int(self.c) else "%+s" % self.c)
        r = "".join(out)
        return r[1:] if r.startswith("+") else r


def sym(name):
    return Lin(0, ((name, 1),))


ZERO = Lin(0)
ONE = Lin(1)


def tighten(l):
    """normalise  l >= 0  to integer coprime coefficients, flooring the constant"""
    if not l.t:
        return Lin(0) if l.c >= 0 else Lin(-1)
    if type(l.c) is int and all(type(k) is int for _, k in l.t):
        g = gcd(*[k for _, k in l.t])
        return l if g == 1 else Lin(l.c // g, tuple((s, k // g) for s, k in l.t))
    den = 1
    for _, k in l.t:
        k = Fraction(k)
        den = den * k.denominator // gcd(den, k.denominator)
    ks = [int(Fraction(k) * den) for _, k in l.t]
    g = 0
    for k in ks:
        g = gcd(g, abs(k))
    c = Fraction(l.c) * den / g
    c = c.numerator // c.denominator
    return Lin(c, tuple((s, k // g) for (s, _), k in zip(l.t, ks)))


@lru_cache(maxsize=200000)
def eliminate(cons, many=False):
    """cons: frozenset of Lin meaning Lin >= 0; integer-tightened Fourier-Motzkin.
    -> (no solution, integer solutions)"""
    cur = set()
    for c in cons:
        c = tighten(c)
        if not c.t:
            if c.c < 0:
                return True, ()
            continue
        cur.add(c)
    steps = []
    while cur:
        # keep the strongest constraint per linear part
        best = {}
        for c in cur:
            k = c.t
            if k not in best or c.c < best[k].c:
                best[k] = c
        cur = set(best.values())
        # opposite pairs
        cnt = {}
        for c in cur:
            for s, k in c.t:
                p = cnt.setdefault(s, [0, 0])
                p[0 if k > 0 else 1] += 1
        # eliminate the cheapest symbol
        s = min(cnt, key=lambda x: (cnt[x][0] * cnt[x][1] - cnt[x][0] - cnt[x][1], x))
        pos, neg, rest = [], [], set()
        for c in cur:
            k = c.coef(s)
            if k > 0:
                pos.append((k, c))
            elif k < 0:
                neg.append((-k, c))
            else:
                rest.add(c)
        if len(pos) * len(neg) > 400:
            return False, ()
        steps.append((s, pos, neg))
        for kp, p in pos:
            for kn, n in neg:
                r = tighten(p.scale(kn) + n.scale(kp))
                if not r.t:
                    if r.c < 0:
                        return True, ()
                    continue
                rest.add(r)
        cur = rest
        if len(cur) > 300:
            return False, ()
    return False, [solution(steps)] if not many else [solution(steps, i) for i in range(12)]


def solution(steps, seed=0):
    """back through the eliminated symbols"""
    m = {}
    x = seed
    for s, pos, neg in reversed(steps):
        m[s] = 0
        lo = hi = None
        for k, c in pos:
            v = -(value(c, m) // k)
            lo = v if lo is None or v > lo else lo
        for k, c in neg:
            v = value(c, m) // k
            hi = v if hi is None or v < hi else hi
        if lo is None and hi is None:
            continue
        x = (x * 1103515245 + 12345) % 2147483648
        away = (x >> 16) % 40 if seed else 1
        if lo is None:
            v = hi - away
        elif hi is None:
            v = lo + away
        elif lo > hi:
            return None
        else:
            v = (lo + hi) // 2 if not seed else lo + (x >> 16) % (hi - lo + 1)
        m[s] = v
    return m


def value(c, m):
    v = c.c
    for s, k in c.t:
        v += k * m.get(s, 0)
    return v


def edge(c):
    """x - y + k >= 0 (or one of the two is zero) -> (y, x, k): y is at most x + k"""
    if type(c.c) is not int or len(c.t) > 2:
        return None
    if len(c.t) == 1:
        (s, k), = c.t
        return ("", s, c.c) if k == 1 else (s, "", c.c) if k == -1 else None
    (s, k), (u, h) = c.t
    return (u, s, c.c) if (k, h) == (1, -1) else (s, u, c.c) if (k, h) == (-1, 1) else None


def reach(out, u, v, skip, most):
    """is there a way from u to v of at most that length, without `skip`?"""
    dist, todo, steps = {u: 0}, [u], 0
    while todo:
        x = todo.pop(0)
        for y, k in out.get(x, ()):
            if (x, y) != skip:
                d = dist[x] + k
                if y not in dist or d < dist[y]:
                    dist[y] = d
                    if y == v and d <= most:
                        return True
                    todo.append(y)
                    steps += 1
                    if steps > 2000:
                        return False
    return False


@lru_cache(maxsize=2000)
def graph(cons):
    out = {}
    for c in cons:
        e = edge(c)
        if e is not None:
            out.setdefault(e[0], []).append((e[1], e[2]))
    return out


@lru_cache(maxsize=20000)
def distances(cons, u):
    """how far at most everything is above u, by chains of differences"""
    out = graph(cons)
    dist, todo, steps = {u: 0}, [u], 0
    while todo:
        x = todo.pop(0)
        for y, k in out.get(x, ()):
            d = dist[x] + k
            if y not in dist or d < dist[y]:
                dist[y] = d
                todo.append(y)
                steps += 1
                if steps > 3000:        # every value is a bound all the same
                    return dist
    return dist


def reduced(cons):
    """without those differences that others imply"""
    if len(cons) < 30:
        return cons
    edges = {}
    for c in sorted(cons, key=repr):
        e = edge(c)
        if e is not None and (e[:2] not in edges or edges[e[:2]][0] > e[2]):
            edges[e[:2]] = (e[2], c)
    out = {}
    for (u, v), (k, _) in edges.items():
        out.setdefault(u, []).append((v, k))
    keep = {c for c in cons if edge(c) is None}
    for (u, v), (k, c) in edges.items():
        if edges.get((v, u), (1,))[0] != -k and reach(out, u, v, (u, v), k):
            out[u].remove((v, k))
        else:
            keep.add(c)
    return frozenset(keep)


def infeasible(cons):
    return eliminate(cons)[0]


def relevant(cons, goal):
    """constraints transitively sharing symbols with goal"""
    want = set(goal.syms())
    left = list(cons)
    out = []
    changed = True
    while changed:
        changed = False
        nl = []
        for c in left:
            if not c.t or any(s in want for s in c.syms()):
                out.append(c)
                for s in c.syms():
                    if s not in want:
                        want.add(s)
                        changed = True
            else:
                nl.append(c)
        left = nl
    return out


def entails(cons, goal):
    """does the conjunction of cons (>=0) imply goal >= 0 ?  -> (answer, values that refute it)"""
    if not goal.t:
        return goal.c >= 0, ()
    e = edge(goal)
    if e is not None and distances(cons, e[0]).get(e[1], e[2] + 1) <= e[2]:
        return True, ()
    neg = -goal - 1
    return eliminate(frozenset(relevant(cons, goal)) | {neg})
