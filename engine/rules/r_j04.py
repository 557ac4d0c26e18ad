"""J04: the integers of JSON."""
import itertools
import re
from fractions import Fraction
from common import *
import codec as K
import evalterm as ET
import models as M
import r_j01 as S
from panics import Sites

LEVEL = "proof"
EXPLANATION = (
    "The abstract interpretation of the readers of JSON integers over texts with unknown digits, signs, fractions and exponents gives the "
    "conditions of every path and the number it returns in terms of these bytes. Both are decided for every value of these bytes: a number "
    "of RFC 8259 has to be read as the number it is if this is an integer of the type, and to be refused otherwise.")

INT = "musli::json::parser::integer::"
NUM = re.compile(rb"(-?)(0|[1-9][0-9]*)(?:\.([0-9]+))?(?:[eE]([+-]?[0-9]+))?")
BASE = re.compile(rb"(-?)(0|[1-9][0-9]*)")


def exact(m):
    sign, base, frac, e = (m.groups() + (None, None))[:4]
    v = Fraction(int(base + (frac or b"")), 10 ** len(frac or b""))
    v *= Fraction(10) ** int(e or 0)
    return -v if sign else v


def number(text, ty, full):
    """a number of a type at the start of a text -> it and its length, or None"""
    text, n = trim(text)
    m = (NUM if full else BASE).match(text)
    if m is None:
        return None
    v = exact(m)
    lo, hi = trange(ty)
    if ty[0] == "uint" and m.group(1) or v.denominator != 1 or not lo <= v <= hi:
        return None
    return int(v), n + m.end()


def trim(text):
    r = text.lstrip(b" \t\r\n")
    return r, len(text) - len(r)


def fits(text, t):
    """whether the digits before the point and the exponent fit the type"""
    m = BASE.match(trim(text)[0])
    return m is None or int(m.group(2)) <= trange(("uint", "u" + t[1][1:]))[1]


def strict(text):
    """whether a text is a number of RFC 8259 and something which is no part of one"""
    text = trim(text)[0]
    m = NUM.match(text)
    if m is None:
        # what is no number whatever follows it
        return not re.match(rb"-?[0-9]", text)
    return not re.match(rb"[0-9.eE]", text[m.end():])


def models():
    ms = {}

    def checked_pow(I, c, st):
        b, e = c.args
        r = trange(c.tys[0])
        if not isc(b) or b[1] != 10 or r is None:
            return None
        if isc(e):
            v = 10 ** e[1]
            return M.ret(st, M.some(C(v)) if v <= r[1] else M.NONE)
        k = len(str(r[1])) - 1
        outs = []
        for s, ok in I.branch(st, ("ge0", sub(C(k), e))):
            v = I.fresh(("pow10", e), c.tys[0])
            if ok:
                s.lin = s.lin.with_(sub(v, ONE))
            outs.append((s, M.some(v) if ok else M.NONE))
        return outs
    for t in ("u8", "u16", "u32", "u64", "u128", "usize"):
        ms["core::num::<impl %s>::checked_pow" % t] = checked_pow
    return ms


def other(c, t):
    if t[0] == "pow10":
        return "10**%s" % c.src(t[1])
    return None


def parser(I, st, tmpl, ty):
    s, bs = S.text(I, st, tmpl)
    sp = ("L", ("parser",), 0)
    I.root_types[sp] = ("adt", ty, ())
    if ty.endswith("MutSliceParser"):
        sl = ("L", ("slice",), 0)
        I.root_types[sl] = ("ref", ("slice", S.U8), False)
        st.mem[sl] = s
        st.mem[sp] = ("agg", ty, 0, (("ref", sl, (), True, ()),))
        left = lambda s2: sub(C(len(tmpl)), I.slen(I.load(s2, sl, ())))
    else:
        st.mem[sp] = ("agg", ty, 0, (s, ZERO))
        left = lambda s2: I.load(s2, sp, (("f", None, 1),))
    p = ("ref", sp, (), True, ())
    I.term_types[p] = ("ref", ("adt", ty, ()), True)
    return p, bs, left


def interp(db):
    I = S.interp(db)
    I.extra_models.update(models())
    I.extra_models["core::slice::<impl [T]>::copy_from_slice"] = copied
    I.sites = Sites(I, db)
    return I


def copied(I, c, st):
    """a copy of bytes which are known"""
    d, b = c.args[0], S.items(I, st, c.args[1])
    lo, hi = 0, None
    while d[0] in ("unsz", "sub"):
        if d[0] == "sub":
            if not isc(d[2]) or not isc(d[3]):
                return None
            lo, hi = lo + d[2][1], lo + d[3][1]
        d = d[1]
    if b is None or d[0] != "ref":
        return None
    old = S.items(I, st, d)
    if old is None or len(old[lo:hi]) != len(b):
        return None
    new = old[:lo] + tuple(b) + (old[hi:] if hi is not None else ())
    I.store(st, d[1], d[2], d[4] if len(d) > 4 else None, ("agg", "array", 0, new))
    return M.ret(st, UNIT)


def whole(tmpl, p):
    p = list(p)
    return bytes(p.pop(0) if x is None else x for x in tmpl)


def reads(rep, who, fname, t, tmpl, alpha, pty, full):
    f = rep.db.find(INT + fname)
    if not rep.ob("anchor", f is not None, fname, "not found"):
        return
    rep.fn(f)
    I, st = interp(rep.db), State()
    p, bs, left = parser(I, st, tmpl, pty)
    cx = I.fresh(("cx",), ("param", "C"))
    outs = I.run(f, [cx, p], st, {"T": t, "P": ("ref", ("adt", pty, ()), True)})
    rep.analysed(I)
    I.sites.report(rep, "%s of %s as %s" % (who, text(tmpl), tyname(t)))

    def result(comp, s, v):
        if not K.is_ok(v):
            return None
        return "(%s,%s)" % (comp.src(v[3][0]), comp.src(left(s)))
    pts = [q for q in itertools.product(alpha, repeat=len(bs)) if strict(whole(tmpl, q)) and fits(whole(tmpl, q), t)]
    S.decide(rep, "read", "%s of %s as %s" % (who, text(tmpl), tyname(t)), I, outs, bs, pts,
             lambda q: number(whole(tmpl, q), t, full), result, other)


def skips(rep, who, tmpl, alpha, pty):
    f = rep.db.find(INT + "skip_number")
    if not rep.ob("anchor", f is not None, "skip_number", "not found"):
        return
    rep.fn(f)
    I, st = interp(rep.db), State()
    p, bs, left = parser(I, st, tmpl, pty)
    cx = I.fresh(("cx",), ("param", "C"))
    outs = I.run(f, [cx, p], st, {"P": ("ref", ("adt", pty, ()), True)})
    rep.analysed(I)
    I.sites.report(rep, "%s of %s" % (who, text(tmpl)))
    pts = [q for q in itertools.product(alpha, repeat=len(bs)) if strict(whole(tmpl, q))]

    def expect(q):
        r, n = trim(whole(tmpl, q))
        m = NUM.match(r)
        return m and n + m.end()
    S.decide(rep, "skipped", "%s of %s" % (who, text(tmpl)), I, outs, bs, pts, expect,
             lambda comp, s, v: comp.src(left(s)) if K.is_ok(v) else None, other)


def visits(rep, tmpl, alpha):
    """a number is visited as what it is, in a type it fits"""
    pty = S.PARSERS[0][1]
    f = rep.db.find("musli::json::parser::parser::Parser::parse_number")
    if not rep.ob("anchor", f is not None, "parse_number", "not found"):
        return
    rep.fn(f)
    I, st = interp(rep.db), State()
    op = I.opaque
    V = "musli_core::de::visitor::Visitor"
    I.opaque = lambda c: op(c) or c.tr == V
    p, bs, left = parser(I, st, tmpl, pty)
    cx, vis = I.fresh(("cx",), ("param", "C")), I.fresh(("visitor",), ("param", "V"))
    for n in ("u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize", "f64"):
        I.extra_models[V + "::visit_" + n] = visited(n)
    outs = I.run(f, [p, cx, vis], st, {"Self": ("adt", pty, ())})
    rep.analysed(I)
    I.sites.report(rep, text(tmpl))

    def result(comp, s, v):
        if v[0] == "visited":
            comp.env["fits"] = lambda n, x, e: (x if trange(n)[0] <= x <= trange(n)[1] else "%s as %s" % (x, tyname(n)), e)
            if v[1][0] == "float":
                return "('float',%s)" % comp.src(left(s))
            return "fits(%s,%s,%s)" % (comp.const(v[1]), comp.src(v[2]), comp.src(left(s)))
        return None
    pts = [q for q in itertools.product(alpha, repeat=len(bs)) if strict(whole(tmpl, q))]

    def expect(q):
        w, n = trim(whole(tmpl, q))
        m = NUM.match(w)
        if m is None:
            return None
        big = ("int" if m.group(1) else "uint", "i128" if m.group(1) else "u128")
        return number(w, big, True) or ("float", n + m.end())
    S.decide(rep, "visited", text(tmpl), I, outs, bs, pts, expect, result, other)


def visited(n):
    t = ("float" if n[0] == "f" else "uint" if n[0] == "u" else "int", n)

    def f(I, c, st):
        return M.ret(st, ("visited", t, c.args[2]))
    return f


def text(tmpl):
    return "".join("_" if x is None else chr(x) for x in tmpl)


def tm(s):
    return tuple(None if x == "_" else ord(x) for x in s)


ANY = b"019.eE+-a, "
DIG = b"0123456789"
EDGE = b"0123456789.e,"
UNSIGNED = ("u8", "u16", "u32", "u64", "u128", "usize")
SIGNED = ("i8", "i16", "i32", "i64", "i128", "isize")


def texts(t):
    """texts for a type, and what unknown bytes are"""
    lo, hi = trange(("uint" if t[0] == "u" else "int", t))
    small = t in ("u8", "i8")
    out = [("__", range(256)), ("___", ANY if small else DIG)]
    for v in (hi, lo) if lo else (hi,):
        s = str(v)
        out += [(s[:-1] + "_", EDGE), (s[:-2] + "__", EDGE), (s + "_", EDGE), (s[:-1] + "_._", DIG), (s[:-1] + "_e_", DIG),
                (s[:-1] + "_0e-_", DIG), (s[:-2] + "." + s[-2] + "_e_", DIG)]
    for sg in ("", "-") if lo else ("",):
        out += [(sg + "_e_", DIG), (sg + "_e__", DIG), (sg + "__e-_", DIG), (sg + "_._e_", DIG), (sg + "_.__e_", DIG), (sg + "_.0_e_", DIG),
                (sg + "_.__", DIG), (sg + "_.00e_", DIG), (sg + "__._e+_", DIG), (sg + "0_", EDGE), (sg + "0._e-_", DIG), (sg + "0e-__", DIG),
                (sg + "_00e-_", DIG), (sg + "_.e_"[:0] + "_.0_0_e_", b"0159")]
        if small:
            out += [(sg + "1___", EDGE[:10]), (sg + "9___", EDGE[:10]), (sg + "__._0", DIG), (sg + "1_0e-_", DIG)]
    return out


def cases(db):
    out = []
    P = S.PARSERS[0][1]
    for ts, kind, n in ((UNSIGNED, "uint", "unsigned"), (SIGNED, "int", "signed")):
        for t in ts:
            for s, alpha in texts(t):
                if not (t.endswith("size") and len(s) < 8):
                    out.append(("%s %s" % (t, s), reads, ("parse_%s_full" % n, "parse_%s_full" % n, (kind, t), tm(s), alpha, P, True)))
                if "." not in s and "e" not in s:
                    out.append(("base %s %s" % (t, s), reads, ("parse_%s_base" % n, "parse_%s_base" % n, (kind, t), tm(s), alpha, P, False)))
            if t in ("u16", "i16"):
                for s in ("-__"[n == "unsigned":], "__e_,", "_._e1", " __,"):
                    Q = S.PARSERS[1][1]
                    out.append(("%s mut %s" % (t, s), reads, ("MutSliceParser", "parse_%s_full" % n, (kind, t), tm(s.strip()), DIG, Q, True)))
    for n, p in S.PARSERS:
        for s, alpha in (("__", range(256)), ("___", ANY), ("-__,", ANY), ("_.___", DIG + b"e,"), ("1e__,", ANY), ("1.5__", ANY), ("1.5E_1_", ANY), ("120__", ANY)):
            out.append(("skip %s %s" % (n, s), skips, (n, tm(s), alpha, p)))
    for s in ("_", "-_", "___", "-___", "6553_", "-3276_", "429496729_", "-214748364_", "1844674407370955161_", "-922337203685477580_",
              "_._", "_e_", "-_e_", "_.5e_", "-1.2_e_"):
        out.append(("visit %s" % s, visits, (tm(s), DIG)))
    return out


def check(rep):
    rep.jobs(cases(rep.db))
