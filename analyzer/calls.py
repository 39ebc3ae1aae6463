"""Transfer functions for calls: the Buffer/Parse axioms, inlining of MIR bodies
(repository, witness and model crates) and leaf operations of the standard library."""
import re

import rtypes
from rtypes import canon, canon_name, subst, show, try_type
from lin import Lin, sym
from facts import Need, E, clen, blen
from machine import (INTS, NARROW, INT_TYPES, number, U, OP, UNIT, TRUE, FALSE, NONE, I, L, some, ok, err, tup, field, set_field, seq_len, seg_len,
                     norm_segs, push_seg, Stuck, UB, Panic, parse_callee, cased)

STD_PREFIX = ("std", "core", "alloc", "eyre")


def ctrl_continue(v):
    return ("a", 0, ((("Continue", 0), v),))


def ctrl_break(v):
    return ("a", 1, ((("Break", 0), v),))


def is_buflike(v):
    return v[0] in ("buf", "cur", "src")


def abs_pos(v):
    if v[0] == "buf" or v[0] == "src":
        return v[1]
    return v[1] + v[2]


def advanced(v, n):
    if v[0] in ("buf", "src"):
        return (v[0], v[1] + n)
    return ("cur", v[1], v[2] + n)


class Ctx:
    """one call being executed"""

    def __init__(self, m, f, st):
        self.m, self.f, self.st = m, f, st
        self.dest = m.resolve(f, st[1]) if st[1] is not None else None
        self.cont = st[4]

    def ret(self, v):
        m, f = self.m, self.f
        if self.dest is None or self.cont is None:
            raise Panic("diverging call")
        m.write(self.dest[0], self.dest[1], v)
        m.goto(f, self.cont)

    def inline(self, body, args, env):
        if self.cont is None and self.dest is None:
            self.dest = (self.m.alloc(U), ())
        self.m.push(body, args, env, self.dest, self.cont)


def do_call(m, f, st):
    callee = st[2]
    cx = Ctx(m, f, st)
    if isinstance(callee, str) and callee.startswith("alloc::alloc::box_free"):
        return cx.ret(UNIT)
    args = [m.operand(f, a) for a in st[3]]
    if isinstance(callee, tuple):
        fv = m.operand(f, callee[1])
        return call_value(cx, fv, args)
    call_named(cx, callee, args, f)


def call_value(cx, fv, args):
    """call a closure / function value with explicit arguments"""
    m = cx.m
    fv = m.load(fv) if fv[0] == "r" else fv
    if fv[0] == "cl":
        body = m.cfg.program.closures.get(fv[1])
        if body is None:
            raise Stuck("closure body not found")
        t = body.locals.get(body.args[0], "")
        if t.startswith("&"):
            c = m.alloc(fv)
            self_arg = ("r", c, ())
        else:
            self_arg = fv
        return cx.inline(body, [self_arg] + args, fv[2])
    if fv[0] == "fn":
        fr = FakeFrame(cx.f, dict(fv[2]))
        return call_named(cx, fv[1], args, fr, ctor=True)
    raise Stuck("call of %s" % (fv[0],))


class FakeFrame:
    def __init__(self, f, env):
        self.body = f.body
        self.env = env


def call_named(cx, callee, args, f, ctor=False):
    m = cx.m
    cfg = m.cfg
    try:
        c = parse_callee(callee)
    except (ValueError, IndexError, AttributeError):
        raise Stuck("callee syntax: " + callee)
    meth = c.method
    if c.kind in ("trait", "proj"):
        selfty = m.sub(c.selfty, f)
        trait = canon_name(c.trait[1]) if c.trait and c.trait[0] == "path" else None
        targs = tuple(m.sub(a, f) for a in c.trait[2]) if c.trait and c.trait[0] == "path" else ()
        margs = tuple(m.sub(a, f) for a in c.margs)
        return call_trait(cx, selfty, trait, targs, meth, margs, args)
    margs = tuple(m.sub(a, f) for a in c.margs)
    segs = c.segs
    tyname = segs[-2][0] if len(segs) > 1 else None
    tyargs = tuple(m.sub(a, f) for a in segs[-2][1] if a[0] != "life") if len(segs) > 1 else ()
    first = segs[0][0]
    # ---- constructors used as functions
    if meth in ("Some",) and tyname in ("Option", None) or meth == "Some":
        return cx.ret(some(args[0]))
    if meth == "Ok":
        return cx.ret(ok(args[0]))
    if meth == "Err":
        return cx.ret(err(args[0]))
    # ---- abstract buffer and cursor axioms
    if tyname == "Buf" and meth == "new" and args and args[0][0] == "src" and not cfg.concrete_buffers:
        return cx.ret(("buf", args[0][1]))
    if tyname == "Cursor" and args:
        v = m.load(args[0])
        if v[0] == "cur":
            if meth == "position":
                return cx.ret(I(v[2]))
            if meth == "reset_internal":
                ref, _ = m.last_ref(args[0])
                m.store(ref, ("cur", v[1], Lin(0)))
                return cx.ret(TRUE)
    # ---- trait method written through a concrete type path: Vec::<P>::parse etc. is printed as <Vec<P> as Parse>
    # ---- repository / witness bodies
    std = first in STD_PREFIX
    if not std:
        if tyname is not None and not (segs[-2][0].startswith("<impl")):
            cands = cfg.program.inherent("::".join(s for s, _ in segs[:-1]), meth)
            if len(cands) > 1:
                cands = [x for x in cands if x[1].crate == cands[0][1].crate]
            if cands:
                selfty = ("path", "::".join(s for s, _ in segs[:-1]), tyargs)
                best = None
                for im, body in cands:
                    env = {}
                    if rtypes.unify(im.selfty, canon(selfty), im.gens, env) or not tyargs:
                        best = (im, body, env)
                        break
                if best is None:
                    best = (cands[0][0], cands[0][1], {})
                im, body, env = best
                return inline_fn(cx, body, args, dict(env), margs)
        body = cfg.program.free_fn("::".join(s for s, _ in segs))
        if body is not None:
            h = cfg.spec_intrinsics.get(body.name.split("::")[-1]) if body.crate in cfg.spec_crates else None
            if h is not None:
                return h(cx, margs, args)
            return inline_fn(cx, body, args, {}, margs)
        if ctor and re.match(r"[A-Z]", meth):
            # tuple-struct / variant constructor as a function value
            d = cfg.variant_index(c)
            if d is None:
                return cx.ret(tup(*args))
            return cx.ret(("a", d, tuple(((meth, i), v) for i, v in enumerate(args))))
    # ---- models and leaf operations
    key = std_key(segs)
    return call_std(cx, key, meth, tyargs, margs, args, callee)


def std_key(segs):
    if len(segs) < 2:
        return ""
    t = segs[-2][0]
    if t.startswith("<impl"):
        inner = t[5:].rstrip(">").strip()
        if inner.startswith("["):
            return "slice"
        return re.match(r"\w+", inner).group(0) if re.match(r"\w+", inner) else inner
    return t


def inline_fn(cx, body, args, env, margs, extra=None):
    g = cx.m.cfg.program.fn_generics(body)
    for n, a in zip(g, margs):
        env[n] = a
    if extra:
        env.update(extra)
    cx.inline(body, args, env)


# ------------------------------------------------------------------- traits
def call_trait(cx, selfty, trait, targs, meth, margs, args):
    m = cx.m
    cfg = m.cfg
    if trait == "Parse":
        return call_parse(cx, selfty, targs, meth, args)
    if trait in ("Fn", "FnMut", "FnOnce"):
        fv = args[0]
        packed = args[1] if len(args) > 1 else UNIT
        if packed[0] != "a":
            raise Stuck("call arguments")
        return call_value(cx, fv, [v for _, v in packed[2]])
    if trait in ("Buffer", "Iterator", "It", "IntoBuf", "IntoIterator") and args:
        v = m.load(args[0])
        if is_buflike(v) and not (trait == "It" and meth != "next"):
            r = buffer_op(cx, v, trait, meth, args)
            if r is not NotImplemented:
                return r
    if trait in ("Into", "TryInto", "From", "TryFrom"):
        return call_convert(cx, selfty, trait, targs, meth, args)
    # repository / witness impls
    got = cfg.program.trait_impl(trait, selfty, meth, targs or None)
    if got is not None and got[1] is not None:
        im, body, env = got
        return inline_fn(cx, body, args, dict(env), margs)
    if got is not None and got[1] is None:
        d = cfg.default_method(trait, meth)
        if d is not None:
            return inline_fn(cx, d, args, {"Self": selfty, **{}}, margs)
    if trait in ("Iterator", "It", "IntoIterator", "DoubleEndedIterator", "ExactSizeIterator"):
        return call_iterator(cx, selfty, meth, margs, args)
    return call_std_trait(cx, selfty, trait, targs, meth, margs, args)


def buffer_op(cx, v, trait, meth, args):
    m, fx = cx.m, cx.m.fx
    if meth == "into_iter" or meth == "by_ref":
        return cx.ret(args[0])
    if meth == "into_buf" and v[0] == "src":      # what a buffer over the source is: B01 to B05
        return NotImplemented if m.cfg.concrete_buffers else cx.ret(("buf", v[1]))
    if meth == "next":
        ref, _ = m.last_ref(args[0])
        p = abs_pos(v)
        if fx.has_item(p):
            m.store(ref, advanced(v, Lin(1)))
            return cx.ret(some(("it", p)))
        return cx.ret(NONE)
    if v[0] == "src":
        return NotImplemented
    if meth == "cursor":
        return cx.ret(("cur", abs_pos(v), Lin(0)))
    if meth == "fast_forward":
        if args[1][0] != "i":
            raise Stuck("fast_forward by unknown amount")
        ref, _ = m.last_ref(args[0])
        m.store(ref, advanced(v, args[1][1]))
        return cx.ret(UNIT)
    if meth == "peek_ahead":
        if args[1][0] != "i":
            raise Stuck("peek_ahead at unknown index")
        p = abs_pos(v) + args[1][1]
        if fx.has_item(p):
            return cx.ret(some(("it", p)))
        return cx.ret(NONE)
    return NotImplemented


def oracle_name(t):
    return show(canon(t))


def call_parse(cx, selfty, targs, meth, args):
    m, fx, cfg = cx.m, cx.m.fx, cx.m.cfg
    body, env = (None, None) if cfg.component(m, selfty) else cfg.parser_body(selfty, meth, targs)
    if body is not None:
        return cx.inline(body, args, env)
    # component parser: axiomatic outcome
    v = m.load(args[0])
    if not is_buflike(v) or v[0] == "src":
        if v[0] == "a" and cfg.concrete_buffers:
            raise Stuck("component parser on a concrete buffer")
        raise Stuck("component parser applied to %s" % (v[0],))
    name = oracle_name(selfty)
    p = abs_pos(v)
    m.path.append("%s::%s" % (name, meth))
    if (name, meth) in m.ghost:
        m.ghost[(name, meth)](m, name, meth)
    m.oracle_calls += 1
    r = fx.oracle(name, p, cfg.allow_zero(name))
    if fx.work is not None and m.side:
        fx.worked(m.side)
    ref, _ = m.last_ref(args[0])
    if r[0] == "ok":
        m.store(ref, advanced(v, r[1]))
        if (name, meth, "ok") in m.ghost:
            m.ghost[(name, meth, "ok")](m, name, meth)
        if meth == "parse":
            return cx.ret(ok(("t", "val", (name, p))))
        return cx.ret(TRUE)
    m.store(ref, advanced(v, r[1] if meth == "parse" else r[2]))
    if meth == "parse" and cfg.errors:
        return cx.ret(err(error("", ("t", "cause", (name, p)))))
    return cx.ret(err() if meth == "parse" else FALSE)


def error(text, cause=OP):
    """an error value: what its messages say, outermost first, and the component failure underneath"""
    return ("t", "er", (text, cause))


def is_error(v):
    return v[0] == "t" and v[1] == "er"


def kept(e):
    return e if is_error(e) else OP


def worded(cx, e, msg):
    """error e under another message"""
    msg = cx.m.load(msg) if msg is not None else OP
    if not cx.m.cfg.errors or not is_error(e) or msg[0] != "sl":
        return OP
    return error(msg[1] + "\n" + e[2][0], e[2][1])


def call_convert(cx, selfty, trait, targs, meth, args):
    m, fx, cfg = cx.m, cx.m.fx, cx.m.cfg
    v = args[0]
    if trait in ("Into", "TryInto"):
        src, dst = selfty, (targs[0] if targs else None)
    else:
        dst, src = selfty, (targs[0] if targs else None)
    fallible = trait.startswith("Try")
    if dst is None or src is None:
        raise Stuck("conversion types")
    cs, cd = canon(src), canon(dst)
    if canon_name(show(cd)) in ("Report",) or show(cd).endswith("Report"):
        return cx.ret(v if is_error(v) else OP)
    if cs == cd:
        return cx.ret(ok(v) if fallible else v)
    if not cfg.opaque_conv(cs, cd):
        for tr in (("TryFrom", "From") if fallible else ("From",)):
            got = cfg.program.trait_impl(tr, dst, "try_from" if tr == "TryFrom" else "from", (src,))
            if got is not None and got[1] is not None:
                if fallible and tr == "From":
                    # Ok(From::from(v)) through the model wrapper
                    w = cfg.model_fn("wrap_from")
                    return inline_fn(cx, w, [v], {}, (src, dst))
                return inline_fn(cx, got[1], args, dict(got[2]), ())
        for tr in (("TryInto", "Into") if fallible else ("Into",)):
            got = cfg.program.trait_impl(tr, src, meth, (dst,))
            if got is not None and got[1] is not None and trait == tr:
                return inline_fn(cx, got[1], args, dict(got[2]), ())
    # one number type to another
    ns, nd = (t[1] if t[0] == "path" else "" for t in (cs, cd))
    if ns in INT_TYPES and nd in INT_TYPES and v[0] in ("i", "c"):
        x = Lin(v[1]) if v[0] == "c" else v[1]
        if nd == "char" and not x.is_const() or nd == "u8" and not x.is_const():
            raise Stuck("conversion of a number")
        fits = nd not in INTS or (nd not in NARROW and not x.is_const()) or m.fits(x, nd)
        if not fits:
            return cx.ret(err())
        w = m.as_int(v, nd)
        return cx.ret(ok(w) if fallible else w)
    # opaque conversion
    key = (show(cs), show(cd), v)
    val = ("t", "conv", (show(cd), v))
    if v[0] == "?":
        return cx.ret(("?", "conversion"))
    if not fallible or cfg.infallible(cs, cd):
        return cx.ret(ok(val) if fallible else val)
    if fx.convert(key, "conversion of %s to %s" % (show(cs), show(cd))):
        return cx.ret(ok(val))
    return cx.ret(err())


# ------------------------------------------------------------------- iterators
def call_iterator(cx, selfty, meth, margs, args):
    m, fx, cfg = cx.m, cx.m.fx, cx.m.cfg
    name = canon_name(selfty[1]) if selfty[0] == "path" else selfty[0]
    if meth == "into_iter":
        v = args[0]
        if v[0] == "r":
            w = m.load(v)
            if w[0] in ("l", "sp", "sl"):
                return cx.ret(tup(v, I(0)))
            return cx.ret(v)
        if v[0] in ("l", "sp", "sl"):
            return cx.ret(tup(v, I(0)))
        if name == "Option":
            return cx.ret(v)
        return cx.ret(v)
    if meth == "next" and name in ("Iter", "IterMut", "Chars", "IntoIter", "Drain", "Option"):
        ref, it = m.last_ref(args[0])
        seq, idx = field(it, 0), field(it, 1)
        if it[0] == "a" and it[1] is not None:      # Option's IntoIter
            m.store(ref, NONE)
            return cx.ret(it)
        content = m.load(seq)
        n = m.length(content)
        if not fx.need_ge0(n - idx[1] - 1, "iterator not finished"):
            return cx.ret(NONE)
        m.store(ref, tup(seq, I(idx[1] + 1)))
        if name in ("Iter", "IterMut"):
            if content[0] == "l" and seq[0] == "r":
                r0, _ = m.last_ref(seq)
                return cx.ret(some(("r", r0[1], r0[2] + (("x", idx[1]),))))
            return cx.ret(some(("r", m.alloc(m.nth(content, idx[1])), ())))
        return cx.ret(some(m.nth(content, idx[1])))
    if meth in ("collect", "from_iter"):
        t = margs[0] if meth == "collect" else selfty
        k = canon_name(t[1]) if t[0] == "path" else t[0]
        fn = {"Vec": "collect_vec", "String": "collect_string", "VecDeque": "collect_vec",
              "Result": "collect_result", "Option": "collect_option"}.get(k)
        if fn is None:
            raise Stuck("collect into " + show(t))
        it = selfty if meth == "collect" else (margs[0] if margs else ("path", "?", ()))
        return inline_fn(cx, cfg.model_fn(fn), args, {}, (it,))
    if meth in ("by_ref",):
        return cx.ret(args[0])
    if meth == "rev" and name in ("Iter", "Chars", "IntoIter") and args[0][0] == "a" and args[0][1] is None and len(args[0][2]) == 2:
        return cx.ret(tup(field(args[0], 0), field(args[0], 1), I(m.length(m.load(field(args[0], 0))))))
    if meth == "next" and name == "Rev":
        ref, it = m.last_ref(args[0])
        seq, lo, hi = field(it, 0), field(it, 1), field(it, 2)
        content = m.load(seq)
        if not fx.need_ge0(hi[1] - lo[1] - 1, "iterator not finished"):
            return cx.ret(NONE)
        m.store(ref, tup(seq, lo, I(hi[1] - 1)))
        x = m.nth(content, hi[1] - 1)
        inner = selfty[2][0] if selfty[0] == "path" and len(selfty) > 2 and selfty[2] else None
        byref = inner is not None and inner[0] == "path" and canon_name(inner[1]) == "Iter"
        return cx.ret(some(("r", m.alloc(x), ()) if byref else x))
    if meth == "count" and name in ("Iter", "IterMut", "Chars", "IntoIter") and args[0][0] == "a" and args[0][1] is None:
        return cx.ret(I(m.length(m.load(field(args[0], 0))) - field(args[0], 1)[1]))
    got = cfg.program.trait_impl("It", selfty, meth)
    if got is not None:
        im, body, env = got
        if body is not None:
            return inline_fn(cx, body, args, dict(env), margs)
    got = cfg.program.trait_impl("Iterator", selfty, meth)
    if got is not None and got[1] is not None:
        return inline_fn(cx, got[1], args, dict(got[2]), margs)
    d = cfg.default_method("It", meth)
    if d is not None and meth != "next":
        return inline_fn(cx, d, args, {"Self": selfty}, margs)
    raise Stuck("iterator operation %s on %s" % (meth, show(selfty)))


# ------------------------------------------------------------------- std traits
def call_std_trait(cx, selfty, trait, targs, meth, margs, args):
    m, fx, cfg = cx.m, cx.m.fx, cx.m.cfg
    name = canon_name(selfty[1]) if selfty[0] == "path" else selfty[0]
    if trait == "Try" and meth == "branch":
        v = args[0]
        if v[0] == "a":
            if name == "Option":
                return cx.ret(ctrl_continue(field(v, 0, "Some")) if v[1] == 1 else ctrl_break(NONE))
            if name == "Result":
                return cx.ret(ctrl_continue(field(v, 0, "Ok")) if v[1] == 0 else ctrl_break(err(kept(field(v, 0, "Err")))))
            if name == "ControlFlow":
                return cx.ret(v if v[1] == 0 else ctrl_break(v))
        raise Stuck("? on %s" % (v[0],))
    if trait == "Try" and meth == "from_output":
        return cx.ret(some(args[0]) if name == "Option" else ok(args[0]))
    if trait == "FromResidual":
        if name == "Option":
            return cx.ret(NONE)
        if name == "ControlFlow":
            return cx.ret(args[0])
        return cx.ret(err(kept(field(args[0], 0, "Err")) if args[0][0] == "a" else OP))
    if trait in ("WrapErr", "Context") or meth in ("wrap_err", "wrap_err_with", "with_context"):
        v = args[0]
        if v[0] == "a" and v[1] == 1 and cfg.errors and meth in ("wrap_err", "context"):
            return cx.ret(err(worded(cx, field(v, 0, "Err"), args[1])))
        return cx.ret(v if v[0] != "a" or v[1] == 0 else err())
    if trait in ("ContextCompat",):
        v = args[0]
        return cx.ret(ok(field(v, 0, "Some")) if v[1] == 1 else err())
    if trait == "PartialEq":
        r = m.eq_val(args[0], args[1])
        return cx.ret(("b", r if meth == "eq" else not r))
    if trait == "PartialOrd" and meth in ("lt", "le", "gt", "ge"):
        a, b = m.load(args[0]), m.load(args[1])
        return cx.ret(m.binop({"lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge"}[meth], a, b))
    if trait == "Ord" and meth in ("min", "max"):
        a, b = args
        if a[0] == "i" and b[0] == "i":
            le = fx.need_ge0(b[1] - a[1], "%r <= %r" % (a[1], b[1]))
            return cx.ret((a if le else b) if meth == "min" else (b if le else a))
    if trait in ("Clone", "ToOwned") and meth in ("clone", "to_owned"):
        v = m.load(args[0])
        if v[0] == "l" or v[0] in ("it", "i", "b", "c", "t", "sp", "sl", "cl", "fn", "op", "el", "a"):
            if v[0] == "sp":
                return cx.ret(L(("S", v[1], Lin(0), clen(v[1]))) if meth == "to_owned" else v)
            return cx.ret(v)
        raise Stuck("clone of %s" % (v[0],))
    if trait in ("Deref", "DerefMut", "AsRef", "AsMut", "Borrow", "BorrowMut"):
        v = args[0]
        if v[0] == "r":
            inner = m.get_path(m.mem[v[1]], v[2])
            if inner[0] == "r":
                return cx.ret(inner)
        return cx.ret(v)
    if trait == "Default" and meth == "default":
        if name in ("Vec", "String", "VecDeque"):
            return cx.ret(L())
        if name in ("usize", "u32", "u64"):
            return cx.ret(I(0))
        if name == "bool":
            return cx.ret(FALSE)
        if name == "Option":
            return cx.ret(NONE)
    if trait in ("Index", "IndexMut"):
        ref, v = m.last_ref(args[0]) if args[0][0] == "r" else (None, args[0])
        i = args[1]
        if i[0] == "i":
            if v[0] == "l":
                n = m.length(v)
                if not fx.need_ge0(n - i[1] - 1, "index in bounds"):
                    raise Panic("index out of bounds")
                return cx.ret(("r", ref[1], ref[2] + (("x", i[1]),)))
            if v[0] == "sp":
                return cx.ret(("r", m.alloc(m.nth(v, i[1])), ()))
        raise Stuck("index")
    if trait == "Extend" and meth == "extend":
        it, ty = args[1], margs[0] if margs else ("path", "?", ())
        content = m.load(it) if it[0] == "r" else it
        if content[0] in ("l", "sp", "sl"):
            it, ty = tup(L(*m.as_segs(content)), I(0)), ("path", "IntoIter", ())
        return inline_fn(cx, cfg.model_fn("extend_vec"), (args[0], it), {}, (("path", "?", ()), ty))
    if trait == "FromIterator":
        return call_iterator(cx, selfty, "from_iter", margs, args)
    if trait == "FromStr" and meth == "from_str":
        return parse_number(cx, selfty, args[0])
    if trait == "ToString" and meth == "to_string":
        v = m.load(args[0])
        if v[0] in ("l", "sl", "sp"):
            return cx.ret(L(*m.as_segs(v)))
        if v[0] in ("it", "c"):
            return cx.ret(L(("e", v)))
    if trait in ("BitAnd", "BitOr", "BitXor") and len(args) == 2:
        return cx.ret(m.binop(trait, m.load(args[0]), m.load(args[1]), "u8" if "u8" in show(selfty) else "usize"))
    if trait in ("Not",) and args[0][0] == "b":
        return cx.ret(("b", not args[0][1]))
    if trait in ("AddAssign",) and args[0][0] == "r" and args[1][0] == "i":
        v = m.load(args[0])
        ref, _ = m.last_ref(args[0])
        m.store(ref, I(v[1] + args[1][1]))
        return cx.ret(UNIT)
    if trait in ("Display", "Debug"):
        return cx.ret(ok(UNIT))
    raise Stuck("call <%s as %s>::%s" % (show(selfty), trait, meth))


def parse_number(cx, ty, arg):
    m, fx = cx.m, cx.m.fx
    v = m.load(arg)
    if v[0] == "?":
        raise Stuck("number from unknown")
    key = ("from_str", show(canon(ty)), v)
    val = ("t", "number", (show(canon(ty)), v))
    if fx.convert(key, "text is a valid %s" % show(canon(ty))):
        return cx.ret(ok(val))
    return cx.ret(err())


# ------------------------------------------------------------------- std functions
WS_CHARS = tuple(sorted([(9, 13), (32, 32), (0x85, 0x85), (0xA0, 0xA0), (0x1680, 0x1680), (0x2000, 0x200A),
                         (0x2028, 0x2029), (0x202F, 0x202F), (0x205F, 0x205F), (0x3000, 0x3000)]))
PREDS = {
    "is_whitespace": WS_CHARS,
    "is_ascii_whitespace": ((9, 10), (12, 13), (32, 32)),
    "is_ascii_digit": ((48, 57),),
    "is_ascii": ((0, 127),),
    "is_ascii_alphabetic": ((65, 90), (97, 122)),
    "is_ascii_lowercase": ((97, 122),),
    "is_ascii_uppercase": ((65, 90),),
    "is_ascii_alphanumeric": ((48, 57), (65, 90), (97, 122)),
    "is_ascii_control": ((0, 31), (127, 127)),
    "is_control": ((0, 31), (127, 159)),
    "is_ascii_punctuation": ((33, 47), (58, 64), (91, 96), (123, 126)),
    "is_ascii_graphic": ((33, 126),),
    "is_ascii_hexdigit": ((48, 57), (65, 70), (97, 102)),
}

PANICS = ("begin_panic", "panic", "panic_fmt", "begin_panic_fmt", "panic_str", "unreachable_display", "panic_display",
          "expect_failed", "unwrap_failed", "panic_bounds_check", "unimplemented", "assert_failed", "panic_any")


def remove_front(m, v, n):
    """drop the first n elements of a sequence (n entailed <= length)"""
    fx = m.fx
    segs = list(v[1])
    while segs:
        s = segs[0]
        k = seg_len(s)
        if fx.need_ge0(n - k, "%r >= %r" % (n, k)):
            n = n - k
            segs.pop(0)
            continue
        if fx.need_eq(n, Lin(0), "%r == 0" % n):
            break
        segs[0] = suffix(s, n)
        break
    return ("l", norm_segs(segs))


def suffix(s, n):
    if s[0] in ("R",):
        return ("R", s[1] + n, s[2] - n)
    if s[0] == "S":
        return ("S", s[1], s[2] + n, s[3] - n)
    if s[0] == "U":
        return ("U", s[1] - n)
    raise Stuck("split of summarised sequence")


def prefix(s, n):
    if s[0] == "R":
        return ("R", s[1], n)
    if s[0] == "S":
        return ("S", s[1], s[2], n)
    if s[0] == "U":
        return ("U", n)
    raise Stuck("split of summarised sequence")


def take_front(m, v, n):
    """first n elements (n entailed <= length)"""
    fx = m.fx
    out = []
    for s in v[1]:
        k = seg_len(s)
        if fx.need_ge0(n - k, "%r >= %r" % (n, k)):
            out.append(s)
            n = n - k
            continue
        if not fx.need_eq(n, Lin(0), "%r == 0" % n):
            out.append(prefix(s, n))
        break
    return ("l", norm_segs(out))


def contains_uninit(m, v):
    if v[0] == "u":
        return True
    if v[0] == "l":
        for s in v[1]:
            if s[0] == "U" and not m.fx.need_eq(s[1], Lin(0), "unfilled %r == 0" % s[1]):
                return True
            if s[0] == "e" and contains_uninit(m, s[1]):
                return True
    return False


def call_std(cx, ty, meth, tyargs, margs, args, callee):
    m, fx, cfg = cx.m, cx.m.fx, cx.m.cfg
    # ---- panics, errors, formatting
    if meth in PANICS and (ty in ("panicking", "rt", "panic", "result", "option", "", "std") or "panic" in callee):
        raise Panic(meth)
    if "fmt" in callee.split("::")[:2] or ty in ("ArgumentV1", "Arguments", "fmt", "Formatter", "DebugTuple"):
        return cx.ret(OP)
    if (ty in ("private", "Report", "Error", "eyre") or "Report>::" in callee) and callee.startswith(("eyre", "nommy::eyre")):
        if cfg.errors:
            if meth in ("wrap_err", "context") and len(args) == 2:
                return cx.ret(worded(cx, args[0], args[1]))
            if meth in ("new_adhoc", "msg") and len(args) == 1:
                return cx.ret(worded(cx, error(""), args[0]))
        return cx.ret(OP)
    if meth in ("box_free", "dealloc", "drop_in_place"):
        return cx.ret(UNIT)
    if callee.startswith("alloc::alloc::") or callee.startswith("std::alloc::"):
        return cx.ret(OP)
    a0 = args[0] if args else None
    # ---- memory primitives
    if ty == "MaybeUninit":
        if meth in ("uninit_array",):
            n = m.const_param(margs[0]) if margs else ("?", "")
            if n[0] != "i":
                raise Stuck("array length")
            return cx.ret(L(("U", n[1])))
        if meth == "uninit":
            return cx.ret(U)
        if meth == "zeroed":
            return cx.ret(U)
        if meth == "new":
            return cx.ret(a0)
        if meth in ("as_mut_ptr", "as_ptr", "assume_init_mut", "assume_init_ref", "as_mut", "slice_as_mut_ptr"):
            if meth.startswith("assume_init"):
                if contains_uninit(m, m.get_path(m.mem[a0[1]], a0[2])):
                    raise UB("assume_init on unfilled storage")
            return cx.ret(a0)
        if meth == "write":
            m.store(a0, args[1])
            return cx.ret(a0)
        if meth in ("assume_init", "array_assume_init"):
            if contains_uninit(m, a0):
                raise UB("%s on storage that is not completely filled" % meth)
            return cx.ret(a0)
        if meth == "assume_init_read":
            v = m.get_path(m.mem[a0[1]], a0[2])
            if contains_uninit(m, v):
                raise UB("read of unfilled storage")
            return cx.ret(v)
        if meth == "assume_init_drop":
            v = m.get_path(m.mem[a0[1]], a0[2])
            if contains_uninit(m, v):
                raise UB("drop of unfilled storage")
            return cx.ret(UNIT)
    if ty in ("ptr", "mem", "mut_ptr", "const_ptr") or callee.startswith(("std::ptr::", "std::mem::", "core::ptr::")):
        if meth == "write":
            m.store(a0, args[1])
            return cx.ret(UNIT)
        if meth == "read":
            v = m.get_path(m.mem[a0[1]], a0[2])
            if v[0] == "u":
                raise UB("read of uninitialised memory")
            return cx.ret(v)
        if meth == "replace":
            v = m.get_path(m.mem[a0[1]], a0[2])
            m.store(a0, args[1])
            return cx.ret(v)
        if meth == "swap":
            v, w = m.get_path(m.mem[a0[1]], a0[2]), m.get_path(m.mem[args[1][1]], args[1][2])
            m.store(a0, w)
            m.store(args[1], v)
            return cx.ret(UNIT)
        if meth == "take":
            v = m.get_path(m.mem[a0[1]], a0[2])
            if v[0] == "l":
                m.store(a0, L())
            elif v[0] == "a" and v[1] is not None:
                m.store(a0, NONE)
            elif v[0] == "b":
                m.store(a0, FALSE)
            elif v[0] == "i":
                m.store(a0, I(0))
            else:
                raise Stuck("mem::take")
            return cx.ret(v)
        if meth in ("forget", "drop"):
            return cx.ret(UNIT)
        if meth == "transmute_copy":
            v = m.load(a0)
            if contains_uninit(m, v):
                raise UB("transmute of unfilled storage")
            return cx.ret(v)
        if meth == "transmute":
            if contains_uninit(m, a0):
                raise UB("transmute of unfilled storage")
            return cx.ret(a0)
    if meth in ("transmute",) and "intrinsics" in callee:
        if contains_uninit(m, a0):
            raise UB("transmute of unfilled storage")
        return cx.ret(a0)
    # ---- boxes
    if ty == "Box" and meth in ("new", "pin"):
        return cx.ret(("r", m.alloc(a0), ()))
    if meth == "into_vec" and a0[0] == "r":
        return cx.ret(m.load(a0))
    # ---- sequences
    seqty = ty in ("Vec", "String", "VecDeque", "slice", "str", "array")
    if seqty:
        r = seq_op(cx, ty, meth, tyargs, margs, args)
        if r is not NotImplemented:
            return r
    if ty in ("char", "u8") and meth in PREDS:
        v = m.load(a0)
        if v[0] == "c":
            return cx.ret(("b", any(l <= v[1] <= h for l, h in PREDS[meth])))
        if v[0] == "it":
            return cx.ret(("b", fx.item_in(v[1], PREDS[meth], meth)))
        raise Stuck(meth)
    if ty == "char" and meth in ("is_alphabetic", "is_numeric", "is_alphanumeric", "is_lowercase", "is_uppercase"):
        v = m.load(a0)
        if v[0] == "it":
            return cx.ret(("b", fx.predicate((meth, v[1]), "item at %r %s" % (v[1], meth))))
    if ty in ("char", "u8") and meth in ("to_ascii_lowercase", "to_ascii_uppercase"):
        return cx.ret(change_case(m, meth[9:14], m.load(a0)))
    if ty in ("char", "u8") and meth == "eq_ignore_ascii_case":
        x, y = m.load(a0), m.load(args[1])
        return cx.ret(("b", m.eq_val(x, y) or m.eq_val(change_case(m, "lower", x), change_case(m, "lower", y))))
    if ty == "char" and meth == "len_utf8":
        raise Stuck("len_utf8")
    if ty in INT_TYPES and ty != "char":
        r = int_op(cx, ty, meth, args)
        if r is not NotImplemented:
            return r
    if ty == "RangeInclusive" and meth == "new":
        return cx.ret(tup(args[0], args[1], FALSE))
    # ---- closures over Option/Result/iterators: Rust models
    body = cfg.model_fn_opt("%s_%s" % (ty.lower(), meth))
    if body is not None:
        full = tuple(tyargs) + tuple(margs)
        return inline_fn(cx, body, args, {}, full if len(cfg.program.fn_generics(body)) == len(full) else margs)
    if ty in ("iter", "sources", "") or callee.startswith("std::iter::"):
        body = cfg.model_fn_opt("iter_%s" % meth)
        if body is not None:
            return inline_fn(cx, body, args, {}, margs)
    raise Stuck("call " + callee)


def change_case(m, to, x):
    if x[0] == "c":
        return ("c", x[1] ^ 32) if cased(to, x[1]) else x
    if x[0] == "it":
        up = ((65, 90),) if to == "lower" else ((97, 122),)
        return ("t", "cased", (to, x)) if m.fx.item_in(x[1], up, "is an ASCII letter that is not %s case" % to) else x
    if x[0] == "el":
        return ("t", "cased", (to, x))
    raise Stuck("change of case")


def affix(m, ty, v, w, end):
    """does the sequence start (end) with the element or sequence w?"""
    fx, n = m.fx, m.length(v)
    if w[0] in ("it", "c", "el"):
        if fx.need_eq(n, Lin(0), "%r == 0" % n):
            return False
        return m.eq_val(m.nth(v, n - 1 if end else Lin(0)), w)
    if w[0] not in ("l", "sp", "sl"):
        raise Stuck("starts_with by pattern")
    k = m.length(w)
    if not fx.need_ge0(n - k, "%r >= %r" % (n, k)):
        return False
    if fx.need_eq(k, Lin(0), "%r == 0" % k):
        return True
    lv = L(*m.as_segs(v))
    r = m.eq_seq(remove_front(m, lv, n - k) if end else take_front(m, lv, k), w)
    if r and ty in ("str", "String") and v[0] == "sp" and w[0] == "l":
        fx.add(blen(v[1]) - byte_len(m, w) - (n - k))
    return r


def trim(cx, v, meth, pat):
    """drop the matching elements at one end (or both)"""
    m, fx = cx.m, cx.m.fx
    if pat is None:
        iv, what = WS_CHARS, "white space"
    elif pat[0] == "c":
        iv, what = ((pat[1], pat[1]),), "%r" % chr(pat[1])
    elif pat[0] == "fn" and str(pat[1]).split("::")[-1] in PREDS:
        what = str(pat[1]).split("::")[-1]
        iv = PREDS[what]
    else:
        raise Stuck("trim by pattern")
    lv = L(*m.as_segs(v))
    for end in ((True,) if "end" in meth else (False,) if "start" in meth else (True, False)):
        n = m.length(lv)
        if fx.need_eq(n, Lin(0), "%r == 0" % n):
            return lv
        x = m.nth(lv, n - 1 if end else Lin(0))
        if x[0] == "c":
            hit = any(a <= x[1] <= b for a, b in iv)
        elif x[0] == "it":
            hit = fx.item_in(x[1], iv, "is " + what)
        elif x[0] in ("el", "t"):
            hit = fx.predicate(("is", what, x), "element is " + what)
        else:
            raise Stuck("trim of %s" % x[0])
        if not hit:
            continue
        key = ("trim", end, what, lv)
        k = fx.pred.get(key)
        if k is None:
            k = fx.fresh("trimmed")
            fx.pred[key] = k
            fx.add(k)
            fx.add(n - 1 - k)
        lv = take_front(m, lv, k) if end else remove_front(m, lv, n - k)
    return lv


def int_op(cx, ty, meth, args):
    m, fx = cx.m, cx.m.fx
    k = meth.split("_")
    if len(args) == 2 and k[-1] in ("add", "sub", "mul") and k[0] in ("wrapping", "saturating", "checked", "overflowing"):
        a, b = args
        if a[0] == "c" and b[0] == "c":
            r = m.binop("Checked" + k[-1].capitalize(), a, b)
        elif a[0] == "i" and b[0] == "i":
            r = m.arith("Checked" + k[-1].capitalize(), a[1], b[1], ty)
        else:
            return NotImplemented
        v, o = r[2][0][1], r[2][1][1][1]
        if k[0] == "overflowing":
            return cx.ret(r)
        if k[0] == "checked":
            return cx.ret(NONE if o else some(v))
        if k[0] == "wrapping":
            if v[0] == "?" and ty in INTS and a[1].is_const() and b[1].is_const():
                x, y = a[1], b[1]
                return cx.ret(m.as_int(I(x + y if k[1] == "add" else x - y if k[1] == "sub" else x.scale(y.c)), ty))
            return cx.ret(v)
        if not o:
            return cx.ret(v)
        if ty[0] == "i":
            return NotImplemented
        return cx.ret(I(0) if k[1] == "sub" and ty != "u8" else number(ty, 0 if k[1] == "sub" else INTS[ty][1]))
    if any(a[0] != "i" for a in args):
        return NotImplemented
    a = args[0][1]
    b = args[1][1] if len(args) > 1 else None
    if meth in ("min", "max"):
        le = fx.need_ge0(b - a, "%r <= %r" % (a, b))
        return cx.ret(I((a if le else b) if meth == "min" else (b if le else a)))
    return NotImplemented


def seq_op(cx, ty, meth, tyargs, margs, args):
    m, fx, cfg = cx.m, cx.m.fx, cx.m.cfg
    a0 = args[0] if args else None
    if meth in ("new", "with_capacity") and ty in ("Vec", "String", "VecDeque"):
        return cx.ret(L())
    if a0 is None:
        return NotImplemented
    if a0[0] == "r":
        ref, v = m.last_ref(a0)
    else:
        ref, v = None, a0
    if v[0] == "?":
        raise Stuck("sequence operation on unknown value")
    if v[0] == "t" and v[1] == "bytes":
        if meth == "len":
            return cx.ret(I(byte_len(m, v[2][0])))
        if meth == "is_empty":
            n = m.length(v[2][0])
            return cx.ret(("b", fx.need_eq(n, Lin(0), "%r == 0" % n)))
        raise Stuck("%s of the bytes of text" % meth)
    if v[0] not in ("l", "sp", "sl"):
        return NotImplemented
    if meth == "len":
        if ty == "str" and v[0] == "sp":
            return cx.ret(I(blen(v[1])))
        if ty in ("str", "String") and v[0] == "l":
            return cx.ret(I(byte_len(m, v)))
        if ty in ("str", "String") and v[0] == "sl":
            return cx.ret(I(len(v[1].encode())))
        return cx.ret(I(m.length(v)))
    if meth == "is_empty":
        n = m.length(v)
        return cx.ret(("b", fx.need_eq(n, Lin(0), "%r == 0" % n)))
    if meth in ("reserve", "reserve_exact", "shrink_to_fit", "make_contiguous"):
        return cx.ret(UNIT if meth != "make_contiguous" else a0)
    if meth in ("as_slice", "as_mut_slice", "as_str", "as_mut_str", "as_ref", "as_mut", "deref", "borrow"):
        return cx.ret(a0)
    if meth == "as_bytes":
        if v[0] == "sp" and v[1] in cfg.byte_params:
            return cx.ret(a0)
        return cx.ret(("r", m.alloc(("t", "bytes", (L(*m.as_segs(v)),))), ()))
    if meth in ("push", "push_back"):
        m.store(ref, ("l", push_seg(v[1], ("e", args[1]))))
        return cx.ret(UNIT)
    if meth == "push_front":
        m.store(ref, ("l", norm_segs((("e", args[1]),) + v[1])))
        return cx.ret(UNIT)
    if meth == "push_str":
        w = m.load(args[1])
        m.store(ref, ("l", norm_segs(tuple(v[1]) + tuple(m.as_segs(w)))))
        return cx.ret(UNIT)
    if meth == "append":
        r2, w = m.last_ref(args[1])
        m.store(ref, ("l", norm_segs(v[1] + w[1])))
        m.store(r2, L())
        return cx.ret(UNIT)
    if meth == "clear":
        m.store(ref, L())
        return cx.ret(UNIT)
    if meth == "pop_front":
        n = m.length(v)
        if fx.need_eq(n, Lin(0), "%r == 0" % n):
            return cx.ret(NONE)
        x = m.nth(v, Lin(0))
        m.store(ref, remove_front(m, v, Lin(1)))
        return cx.ret(some(x))
    if meth in ("pop", "pop_back"):
        n = m.length(v)
        if fx.need_eq(n, Lin(0), "%r == 0" % n):
            return cx.ret(NONE)
        x = m.nth(v, n - 1)
        m.store(ref, take_front(m, v, n - 1))
        return cx.ret(some(x))
    if meth == "truncate":
        n = args[1][1]
        if ty == "String":
            if not fx.need_ge0(n - byte_len(m, v), "%r bytes or less" % n):
                m.store(ref, front_bytes(m, v, n))
            return cx.ret(UNIT)
        k = m.length(v)
        if not fx.need_ge0(n - k, "%r >= %r" % (n, k)):
            m.store(ref, take_front(m, v, n))
        return cx.ret(UNIT)
    if meth in ("rotate_left", "rotate_right"):
        n = args[1][1]
        k = m.length(v)
        if not fx.need_ge0(k - n, "%r <= %r" % (n, k)):
            raise Panic("rotate beyond length")
        if meth == "rotate_right":
            n = k - n
        m.store(ref, ("l", norm_segs(remove_front(m, v, n)[1] + take_front(m, v, n)[1])))
        return cx.ret(UNIT)
    if ty in ("String", "str") and (meth in ("split_off", "insert", "remove", "get", "get_mut", "split_at") or meth == "drain" and not (margs and margs[-1][0] == "path" and canon_name(margs[-1][1]) == "RangeFull")):
        raise Stuck("byte offset into text")
    if meth in ("split_off",):
        n = args[1][1]
        k = m.length(v)
        if not fx.need_ge0(k - n, "%r <= %r" % (n, k)):
            raise Panic("split_off beyond length")
        t = remove_front(m, v, n)
        m.store(ref, take_front(m, v, n))
        return cx.ret(t)
    if meth == "drain":
        rt = canon_name(margs[-1][1]) if margs and margs[-1][0] == "path" else ""
        k = m.length(v)
        if rt == "RangeFull":
            lo, hi = Lin(0), k
        elif rt == "RangeTo":
            lo, hi = Lin(0), field(args[1], 0)[1]
        elif rt == "Range":
            lo, hi = field(args[1], 0)[1], field(args[1], 1)[1]
        elif rt == "RangeFrom":
            lo, hi = field(args[1], 0)[1], k
        else:
            raise Stuck("drain range")
        if not fx.need_ge0(k - hi, "%r <= %r" % (hi, k)) or not fx.need_ge0(hi - lo, "%r <= %r" % (lo, hi)):
            raise Panic("drain out of range")
        front = take_front(m, v, lo)
        rest = remove_front(m, v, lo)
        mid = take_front(m, rest, hi - lo)
        m.store(ref, ("l", norm_segs(front[1] + remove_front(m, rest, hi - lo)[1])))
        return cx.ret(tup(mid, I(0)))
    if meth in ("get", "get_mut"):
        i = args[1]
        if i[0] != "i":
            raise Stuck("get by range")
        n = m.length(v)
        if not fx.need_ge0(n - i[1] - 1, "index %r in bounds" % i[1]):
            return cx.ret(NONE)
        return cx.ret(some(elem_ref(m, ref, v, i[1])))
    if meth in ("first", "front", "last", "back", "front_mut", "back_mut", "first_mut", "last_mut"):
        n = m.length(v)
        if fx.need_eq(n, Lin(0), "%r == 0" % n):
            return cx.ret(NONE)
        return cx.ret(some(elem_ref(m, ref, v, Lin(0) if meth.startswith("f") else n - 1)))
    if meth in ("iter", "iter_mut", "chars"):
        return cx.ret(tup(a0, I(0)))
    if meth == "bytes":
        raise Stuck("bytes of text")
    if meth == "into_iter":
        return cx.ret(tup(a0, I(0)))
    if meth == "contains":
        x = m.load(args[1])
        if v[0] == "sp" and x[0] == "it":
            return cx.ret(("b", fx.member(v[1], x[1])))
        if v[0] == "sp" and x[0] == "t" and x[1] in ("cased", "masked"):
            return cx.ret(("b", fx.predicate(("mem", v[1], x), "%s is in %s" % (x[1], v[1]))))
        if v[0] == "sl" and x[0] == "it":
            iv = tuple(sorted((ord(c), ord(c)) for c in set(v[1])))
            return cx.ret(("b", fx.item_in(x[1], iv, "in %r" % v[1]) if iv else False))
        if v[0] == "l" and all(s[0] == "e" for s in v[1]):
            for s in v[1]:
                if m.eq_val(s[1], x):
                    return cx.ret(TRUE)
            return cx.ret(FALSE)
        raise Stuck("contains")
    if meth in ("starts_with", "ends_with"):
        return cx.ret(("b", affix(m, ty, v, m.load(args[1]), meth == "ends_with")))
    if meth in ("trim", "trim_end", "trim_start", "trim_matches", "trim_end_matches", "trim_start_matches"):
        return cx.ret(("r", m.alloc(trim(cx, v, meth, args[1] if len(args) > 1 else None)), ()))
    if meth in ("strip_prefix", "strip_suffix"):
        w = m.load(args[1])
        end = meth == "strip_suffix"
        if not affix(m, ty, v, w, end):
            return cx.ret(NONE)
        k = Lin(1) if w[0] in ("it", "c", "el") else m.length(w)
        lv = L(*m.as_segs(v))
        rest = take_front(m, lv, m.length(lv) - k) if end else remove_front(m, lv, k)
        return cx.ret(some(("r", m.alloc(rest), ())))
    if meth == "eq_ignore_ascii_case":
        w = m.load(args[1])
        if m.eq_seq(v, w):
            return cx.ret(TRUE)
        if not fx.need_eq(m.length(v), m.length(w), "same length"):
            return cx.ret(FALSE)
        return cx.ret(("b", fx.predicate(("eq ignoring case", v, w), "equal up to case")))
    if meth == "find" and v[0] == "sp":
        x = m.load(args[1])
        if x[0] == "it":
            if not fx.member(v[1], x[1]):
                return cx.ret(NONE)
            key = ("find", v[1], x[1])
            r = fx.pred.get(key)
            if r is None:
                r = fx.fresh("found")
                fx.pred[key] = r
                fx.add(r)
                fx.add(blen(v[1]) - r - 1)
            return cx.ret(some(I(r)))
    if meth == "swap_remove" and ty == "Vec":
        i, n = args[1][1], m.length(v)
        if not fx.need_ge0(n - i - 1, "index"):
            raise Panic("swap_remove out of bounds")
        x, y = m.nth(v, i), m.nth(v, n - 1)
        front = take_front(m, v, i)
        if fx.need_eq(i, n - 1, "%r is the last" % i):
            m.store(ref, front)
        else:
            rest = take_front(m, remove_front(m, remove_front(m, v, i), Lin(1)), n - i - 2)
            m.store(ref, ("l", norm_segs(front[1] + (("e", y),) + rest[1])))
        return cx.ret(x)
    if meth == "swap" and len(args) == 3:
        i, j = args[1][1], args[2][1]
        n = m.length(v)
        if not fx.need_ge0(n - i - 1, "index") or not fx.need_ge0(n - j - 1, "index"):
            raise Panic("swap out of bounds")
        x, y = m.nth(v, i), m.nth(v, j)
        m.store(("r", ref[1], ref[2] + (("x", i),)), y)
        m.store(("r", ref[1], ref[2] + (("x", j),)), x)
        return cx.ret(UNIT)
    if meth == "reverse":
        n = m.length(v)
        if fx.need_eq(n, Lin(0), "%r == 0" % n) or fx.need_eq(n, Lin(1), "%r == 1" % n):
            return cx.ret(UNIT)
        if not all(g[0] == "e" for g in v[1]):
            raise Stuck("reverse")
        m.store(ref, ("l", norm_segs(tuple(reversed(v[1])))))
        return cx.ret(UNIT)
    if meth in ("to_vec", "to_owned", "to_string", "into_string", "into_bytes", "into_boxed_slice", "into_boxed_str", "clone"):
        return cx.ret(L(*m.as_segs(v)))
    if meth in ("extend_from_slice",):
        w = m.load(args[1])
        m.store(ref, ("l", norm_segs(tuple(v[1]) + tuple(m.as_segs(w)))))
        return cx.ret(UNIT)
    if meth in ("split_at",):
        raise Stuck("split_at")
    if meth == "parse":
        return parse_number(cx, margs[0] if margs else ("path", "?", ()), v)
    if meth in ("insert", "remove"):
        if meth == "remove":
            i = args[1][1]
            n = m.length(v)
            if not fx.need_ge0(n - i - 1, "index"):
                raise Panic("remove out of bounds")
            x = m.nth(v, i)
            front = take_front(m, v, i)
            rest = remove_front(m, remove_front(m, v, i), Lin(1))
            m.store(ref, ("l", norm_segs(front[1] + rest[1])))
            return cx.ret(some(x) if ty == "VecDeque" else x)
        i = args[1][1]
        n = m.length(v)
        if not fx.need_ge0(n - i, "index"):
            raise Panic("insert out of bounds")
        m.store(ref, ("l", norm_segs(take_front(m, v, i)[1] + (("e", args[2]),) + remove_front(m, v, i)[1])))
        return cx.ret(UNIT)
    if meth == "map" and ty == "array":
        raise Stuck("array map")
    if meth == "capacity":
        return cx.ret(("?", "capacity"))
    return NotImplemented


def elem_ref(m, ref, v, i):
    if v[0] == "l" and ref is not None:
        return ("r", ref[1], ref[2] + (("x", i),))
    return ("r", m.alloc(m.nth(v, i)), ())


def front_bytes(m, v, n):
    """the first n bytes of collected text, fewer than it has"""
    fx = m.fx
    if fx.need_eq(n, Lin(0), "%r == 0" % n):
        return L()
    before = Lin(0)
    for j, g in enumerate(v[1]):
        if g[0] == "R":
            for key, r in list(fx.pred.items()):
                if key[0] == "bytelen" and key[1][0] == "R" and fx.eq(key[1][1], g[1]) and fx.ge0(g[2] - key[1][2]) and fx.eq(before + r, n):
                    return ("l", norm_segs(v[1][:j] + (key[1],)))
        before = before + seg_bytes(m, g)
        if fx.eq(before, n):
            return ("l", v[1][:j + 1])
    k = fx.fresh("front")
    fx.add(k - 1)
    fx.add(n - k)
    fx.add(k.scale(4) - n)
    fx.add(m.length(v) - 1 - k)
    w = take_front(m, v, k)
    if len(w[1]) == 1 and w[1][0][0] == "R":
        fx.pred[("bytelen", w[1][0])] = n
    return w


def byte_len(m, v):
    """length in bytes of collected text"""
    r = Lin(0)
    for g in v[1]:
        r = r + seg_bytes(m, g)
    return r


def seg_bytes(m, g):
    """at least one, at most four per character; what has the same first characters differs by the others"""
    fx = m.fx
    if g[0] == "e" and g[1][0] == "c":
        return Lin(len(chr(g[1][1]).encode("utf-8", "surrogatepass")))
    if g[0] == "S" and fx.eq(g[2], Lin(0)) and fx.eq(g[3], clen(g[1])):
        return blen(g[1])
    if g[0] == "e" and g[1][0] == "it":
        g = ("R", g[1][1], Lin(1))
    key = ("bytelen", g)
    r = fx.pred.get(key)
    if r is None:
        n = seg_len(g)
        r = fx.fresh("bytelen")
        same = [(k[1], x) for k, x in fx.pred.items() if k[0] == "bytelen" and k[1][0] == g[0] == "R" and fx.eq(k[1][1], g[1])]
        fx.pred[key] = r
        fx.add(r - n)
        fx.add(n.scale(4) - r)
        for h, x in same:
            for a, b, d in ((r, x, n - h[2]), (x, r, h[2] - n)):
                if fx.ge0(d):
                    fx.add(a - b - d)
                    fx.add(d.scale(4) - a + b)
    return r
