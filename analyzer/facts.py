"""The shared fact base of a (product) abstract state.

  cons      linear constraints  l >= 0
  orc       outcome of applying a component parser P at an absolute position:
              (P, pos) -> ('fail', junk) | ('ok', advance)
            pos is a Lin; the advance a Lin >= 0
  items     what is known about the input item at a position: pos -> intervals of code points
  mem       (string parameter, pos) -> bool     membership of the item at pos in the string
  conv      outcome of an opaque fallible conversion: key -> bool
  lcp       (string parameter, pos) -> Lin      length of the longest common prefix
"""
from lin import Lin, sym, entails, infeasible, value, eliminate, reduced

E = sym("E")          # number of items in the input
TOP = ((0, 0x10FFFF),)


class Need(Exception):
    """an undecided fact: `options` is a list of (label, [fact operations])"""

    def __init__(self, what, options):
        Exception.__init__(self, what)
        self.what = what
        self.options = options


def isect(a, b):
    out = []
    for (l1, h1) in a:
        for (l2, h2) in b:
            l, h = max(l1, l2), min(h1, h2)
            if l <= h:
                out.append((l, h))
    return tuple(sorted(out))


def compl(a, top=TOP):
    out = []
    lo = top[0][0]
    hi = top[-1][1]
    cur = lo
    for l, h in sorted(a):
        if l > cur:
            out.append((cur, l - 1))
        cur = max(cur, h + 1)
    if cur <= hi:
        out.append((cur, hi))
    return tuple(out)


class Facts:
    __slots__ = ("cons", "orc", "items", "mem", "conv", "lcp", "first", "labels", "n", "_cache", "points", "zero", "unit", "pred", "bad", "work", "work_cap")

    def __init__(self):
        self.cons = frozenset()
        self.orc = {}
        self.items = {}
        self.mem = {}
        self.conv = {}
        self.lcp = {}
        self.first = {}
        self.pred = {}
        self.labels = []
        self.n = 0
        self.unit = False      # one particular choice of what components consume
        self._cache = {}
        self.points = []       # integer solutions of cons: what one of them refutes is not entailed
        self.bad = False       # a conversion failed
        self.work = None       # attempts the reference has made less those the repository has made (None: not counted)
        self.work_cap = None   # saturates at +-work_cap: at least that many to spare / unknown for good
        self.zero = False      # an element succeeded without consuming anything

    def worked(self, by):
        cap = self.work_cap
        if cap is None:
            self.work += by
        elif self.work > -cap:
            self.work = min(self.work + by, cap)

    def copy(self):
        f = Facts.__new__(Facts)
        f.cons = self.cons
        f.orc = dict(self.orc)
        f.items = dict(self.items)
        f.mem = dict(self.mem)
        f.conv = dict(self.conv)
        f.lcp = dict(self.lcp)
        f.first = dict(self.first)
        f.pred = dict(self.pred)
        f.labels = list(self.labels)
        f.n = self.n
        f.unit = self.unit
        f._cache = {}
        f.points = self.points
        f.zero = self.zero
        f.bad = self.bad
        f.work, f.work_cap = self.work, self.work_cap
        return f

    def subst(self, m):
        def d(v):
            if isinstance(v, Lin):
                l = v.subst(m)
                return l
            if isinstance(v, tuple):
                return tuple(d(x) for x in v)
            return v
        self.cons = frozenset(x for x in (c.subst(m) for c in self.cons) if x.t)
        for t in ("orc", "items", "mem", "conv", "lcp", "first", "pred"):
            setattr(self, t, {d(k): (v if t == "items" else d(v)) for k, v in getattr(self, t).items()})
        self._cache = {}
        self.points = [p for p in self.points if all(value(c, p) >= 0 for c in self.cons)]

    # ------------------------------------------------------------- numeric part
    def fresh(self, tag):
        self.n += 1
        return sym("%s#%d" % (tag, self.n))

    def add(self, l):
        if not l.t:
            return
        if self.unit:       # many of the same kind
            same = [c for c in self.cons if c.t == l.t]
            if any(c.c <= l.c for c in same):
                return
            self.cons = self.cons - frozenset(same)
        self.cons = self.cons | {l}
        self._cache = {}
        self.points = [p for p in self.points if value(l, p) >= 0]

    def reduce(self):
        self.cons = reduced(self.cons)

    def add_eq(self, a, b):
        self.add(a - b)
        self.add(b - a)

    def ge0(self, l):
        """entailed l >= 0 ?"""
        if not l.t:
            return l.c >= 0
        r = self._cache.get(l)
        if r is None:
            neg = -l - 1
            if any(value(neg, p) >= 0 for p in self.points):
                r = False
            else:
                r, m = entails(self.cons, l)
                for x in m:
                    self.point(x)
            self._cache[l] = r
        return r

    def point(self, m):
        """m solves the constraints that share symbols with its own"""
        if m is None or len(self.points) > 60:
            return
        if not self.points:
            self.points = [x for x in eliminate(self.cons, True)[1] if x is not None and all(value(c, x) >= 0 for c in self.cons)]
        if self.points:
            m = {**self.points[0], **m}
            if all(value(c, m) >= 0 for c in self.cons):
                self.points = self.points + [m]

    def eq(self, a, b):
        if a == b:
            return True
        d = a - b
        if not d.t:
            return d.c == 0
        return self.ge0(d) and self.ge0(-d)

    def decide_ge0(self, l):
        if self.ge0(l):
            return True
        if self.ge0(-l - 1):
            return False
        return None

    def feasible(self):
        return not infeasible(self.cons)

    def need_ge0(self, l, what):
        r = self.decide_ge0(l)
        if r is None:
            raise Need(what, [("%s" % what, [("ge0", l)]), ("not(%s)" % what, [("ge0", -l - 1)])])
        return r

    def need_eq(self, a, b, what):
        if self.eq(a, b):
            return True
        d = a - b
        if self.ge0(d - 1) or self.ge0(-d - 1):
            return False
        raise Need(what, [("%s: equal" % what, [("ge0", d), ("ge0", -d)]),
                          ("%s: less" % what, [("ge0", -d - 1)]),
                          ("%s: greater" % what, [("ge0", d - 1)])])

    # ------------------------------------------------------------- positions
    def same_pos(self, a, b):
        """equal, or both at/after the end of the input"""
        if self.eq(a, b):
            return True
        return self.ge0(a - E) and self.ge0(b - E)

    def lookup(self, table, name, pos):
        r = table.get((name, pos))
        if r is not None:
            return r
        if self.unit and not self.ge0(pos - E):     # places are p0 and a number here
            return None
        for (n, p), v in table.items():
            if n == name and self.same_pos(p, pos):
                return v
        return None

    def lookup_pos(self, table, pos):
        r = table.get(pos)
        if r is not None:
            return r
        for p, v in table.items():
            if self.eq(p, pos):
                return v
        return None

    def has_item(self, pos):
        """is there an item at pos (pos < E)?"""
        return self.need_ge0(E - pos - 1, "input has an item at %r" % pos)

    def oracle(self, name, pos, zero=True):
        r = self.lookup(self.orc, name, pos)
        if r is not None:
            return r
        opts = [("%s fails at %r" % (name, pos), [("orc", name, pos, "fail")])]
        if self.decide_ge0(E - pos - 1) is not False:
            opts.append(("%s succeeds at %r" % (name, pos), [("orc", name, pos, "ok")]))
        if zero and not self.unit:
            opts.append(("%s succeeds at %r consuming nothing" % (name, pos),
                         [("orc", name, pos, "ok0q" if zero == "quiet" else "ok0")]))
        raise Need("outcome of %s at %r" % (name, pos), opts)

    def item_in(self, pos, ivs, what):
        cur = self.lookup_pos(self.items, pos) or TOP
        inter = isect(cur, ivs)
        rest = isect(cur, compl(ivs))
        if not inter:
            return False
        if not rest:
            return True
        raise Need(what, [("item at %r %s" % (pos, what), [("item", pos, inter)]),
                          ("item at %r not %s" % (pos, what), [("item", pos, rest)])])

    def member(self, name, pos):
        r = self.lookup(self.mem, name, pos)
        if r is not None:
            return r
        f = self.lookup(self.first, name, pos)
        if f is not None:
            r = self.decide_ge0(clen(name) - f - 1)
            if r is not None:
                return r
        if self.ge0(-clen(name)):
            return False
        raise Need("membership", [("item at %r is in %s" % (pos, name), [("mem", name, pos, True)]),
                                  ("item at %r is not in %s" % (pos, name), [("mem", name, pos, False)])])

    def lcp_of(self, name, pos):
        m = self.lookup(self.lcp, name, pos)
        if m is None:
            m = self.fresh("lcp(%s)" % name)
            self.lcp[(name, pos)] = m
            self.add(m)
            self.add(clen(name) - m)
            self.add(E - pos - m)
        return m

    def elem_eq(self, name, i, pos):
        """is the i-th element of the string parameter equal to the item at pos?"""
        # longest-common-prefix theory, alignment pos - i
        m = self.lcp_of(name, pos - i)
        if self.ge0(m - i - 1):
            return True
        if self.eq(m, i):
            return False
        f = self.lookup(self.first, name, pos)
        if f is None:
            f = self.fresh("first(%s)" % name)
            self.first[(name, pos)] = f
            self.add(f)
            self.add(clen(name) - f)
            mm = self.lookup(self.mem, name, pos)
            if mm is True:
                self.add(clen(name) - f - 1)
            elif mm is False:
                self.add(f - clen(name))
        if self.ge0(f - i - 1):
            return False
        if self.eq(f, i):
            return True
        t = [("elem %r of %s equals item at %r" % (i, name, pos), [])]
        n = [("elem %r of %s differs from item at %r" % (i, name, pos), [])]
        known = False
        if self.ge0(m - i):
            t[0][1].append(("ge0", m - i - 1))
            n[0][1].append(("ge0", i - m))
            known = True
        if self.ge0(f - i):
            t[0][1].append(("ge0", i - f))
            n[0][1].append(("ge0", f - i - 1))
            known = True
        key = ("elemeq", name, i, pos)
        r = self.pred.get(key)
        if r is not None:
            return r
        if not known:
            t[0][1].append(("pred", key, True))
            n[0][1].append(("pred", key, False))
        raise Need("elem", t + n)

    def predicate(self, key, what):
        r = self.pred.get(key)
        if r is not None:
            return r
        raise Need(what, [(what, [("pred", key, True)]), ("not " + what, [("pred", key, False)])])

    def convert(self, key, what):
        r = self.conv.get(key)
        if r is not None:
            return r
        raise Need(what, [(what + " succeeds", [("conv", key, True)]), (what + " fails", [("conv", key, False)])])

    # ------------------------------------------------------------- applying an option
    def possible(self, ops):
        """is no part of the option, taken alone, excluded?"""
        for op in ops:
            l = op[1] if op[0] == "ge0" else E - op[2] - 1 if op[0] == "orc" and op[3] == "ok" else None
            if l is not None and self.decide_ge0(l) is False:
                return False
        return True

    def apply(self, ops):
        """-> False if the option is inconsistent with what is known"""
        for op in ops:
            k = op[0]
            if k == "ge0":
                self.add(op[1])
            elif k == "orc":
                _, name, pos, res = op
                if self.unit and res in ("fail", "ok"):
                    self.orc[(name, pos)] = ("fail", Lin(2), Lin(3)) if res == "fail" else ("ok", Lin(1))
                    if res == "ok":
                        self.add(E - pos - 1)
                elif res == "fail":
                    j = self.fresh("junk(%s)" % name)
                    self.add(j)
                    j2 = self.fresh("pjunk(%s)" % name)
                    self.add(j2)
                    self.orc[(name, pos)] = ("fail", j, j2)
                elif res == "ok":
                    s = self.fresh("len(%s)" % name)
                    self.add(s - 1)
                    self.add(E - pos - s)
                    self.orc[(name, pos)] = ("ok", s)
                else:
                    if res == "ok0":
                        self.zero = True
                    self.orc[(name, pos)] = ("ok", Lin(0))
            elif k == "item":
                self.items[op[1]] = op[2]
            elif k == "mem":
                self.mem[(op[1], op[2])] = op[3]
                if op[3]:
                    self.add(clen(op[1]) - 1)
                f = self.lookup(self.first, op[1], op[2])
                if f is not None:
                    self.add(clen(op[1]) - f - 1 if op[3] else f - clen(op[1]))
            elif k == "pred":
                self.pred[op[1]] = op[2]
            elif k == "conv":
                self.conv[op[1]] = op[2]
                if op[2] is False:
                    self.bad = True
            else:
                raise AssertionError(op)
        return self.feasible()


def clen(name):
    return sym("chars(%s)" % name)


def blen(name):
    return sym("bytes(%s)" % name)
