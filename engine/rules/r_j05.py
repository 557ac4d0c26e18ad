"""J05: the bytes of JSON are told apart."""
import itertools
from common import *
import codec as K
import models as M
import r_j01 as S
import r_j04 as N
from panics import Sites

LEVEL = "proof"
EXPLANATION = (
    "The primitives which every JSON decoder is made of (peek, read, skip, skip_whitespace, lex, parse_exact, consume_while) are "
    "interpreted abstractly for both parsers over texts of unknown bytes. The conditions of every path, what it returns and how much "
    "of the text it consumes are decided for every value of these bytes against RFC 8259.")
P = "musli::json::parser::parser::Parser"
TOK = "musli::json::parser::token::Token"
WS = b" \t\r\n"
TOKENS = {b",": "Comma", b":": "Colon", b"{": "OpenBrace", b"}": "CloseBrace", b"[": "OpenBracket", b"]": "CloseBracket",
          b'"': "String", b"n": "Null", b"t": "True", b"f": "False"}
for _d in b"-0123456789":
    TOKENS[bytes([_d])] = "Number"
VALUES = {"String", "Number", "Null", "True", "False", "OpenBrace", "OpenBracket"}
SOME = b" \t\r\n\x0b\x00\xa0x{}"


def method(db, pty, name):
    fs = [f for i, f in db.method(P, lambda t: t[0] == "adt" and t[1] == pty, name)]
    return fs[0] if len(fs) == 1 else db.find(P + "::" + name)


def start(rep, name, pty, tmpl, ref=False):
    f = method(rep.db, pty, name)
    if not rep.ob("anchor", f is not None, name, "not found"):
        return None
    rep.fn(f)
    I, st = N.interp(rep.db), State()
    p, bs, left = N.parser(I, st, tmpl, pty)
    return f, I, st, p, bs, left


def sub_of(pty):
    return {"Self": ("adt", pty, ())}


def token(I, v):
    if v[0] == "agg" and v[1] == TOK:
        n = I.db.adts[TOK]["variants"][v[2]]["n"]
        # white space which isn't that of RFC 8259 starts nothing either
        return "Error" if n == "Whitespace" else n
    raise S.ET.Unknown(v)


def lexes(rep, who, tmpl, alpha, pty):
    x = start(rep, "lex", pty, tmpl)
    if not x:
        return
    f, I, st, p, bs, left = x
    outs = I.run(f, [p, I.fresh(("cx",), ("param", "C"))], st, sub_of(pty))
    rep.analysed(I)
    I.sites.report(rep, "%s: lex of %s" % (who, N.text(tmpl)))

    def expect(q):
        w = N.whole(tmpl, q)
        r, n = N.trim(w)
        return (TOKENS.get(r[:1], "Error") if r else "Eof", n)
    S.decide(rep, "lex", "%s: %s" % (who, N.text(tmpl)), I, outs, bs, itertools.product(alpha, repeat=len(bs)), expect,
             lambda comp, s, v: "(%r,%s)" % (token(I, v), comp.src(left(s))))


def blank(rep, who, tmpl, alpha, pty):
    x = start(rep, "skip_whitespace", pty, tmpl)
    if not x:
        return
    f, I, st, p, bs, left = x
    outs = I.run(f, [p, I.fresh(("cx",), ("param", "C"))], st, sub_of(pty))
    rep.analysed(I)
    S.decide(rep, "blank", "%s: %s" % (who, N.text(tmpl)), I, outs, bs, itertools.product(alpha, repeat=len(bs)),
             lambda q: N.trim(N.whole(tmpl, q))[1], lambda comp, s, v: comp.src(left(s)))


def bytes_eq(ne):
    """whether known numbers of bytes are the same"""
    def f(I, c, st):
        xs = []
        for a in c.args[:2]:
            for _ in range(3):
                b = S.items(I, st, a)
                if b is not None and len(b) == 1 and b[0][0] in ("ref", "sub", "unsz", "kref", "sptr"):
                    a = b[0]
                elif b is None and a[0] == "ref":
                    a = I.load(st, a[1], a[2], a[4] if len(a) > 4 else None)
                else:
                    break
            xs.append(b)
        if None in xs:
            return None
        same, diff = [st.copy()], []
        if len(xs[0]) != len(xs[1]):
            same, diff = [], [st.copy()]
        else:
            for p, q in zip(*xs):
                nxt = []
                for s in same:
                    for s2, ok in I.branch(s, I.compare(s, "Eq", p, q, U8)):
                        (nxt if ok else diff).append(s2)
                same = nxt
        return [(s, ZERO if ne else ONE) for s in same] + [(s, ONE if ne else ZERO) for s in diff]
    return f


EQ = {}
for _n in ("eq", "ne"):
    for _p in ("core::cmp::PartialEq", "core::cmp::impls::<impl core::cmp::PartialEq<&B> for &A>", "core::cmp::impls::<impl core::cmp::PartialEq<&B> for &mut A>",
               "core::cmp::impls::<impl core::cmp::PartialEq<&mut B> for &A>", "core::cmp::impls::<impl core::cmp::PartialEq<&mut B> for &mut A>",
               "core::slice::cmp::<impl core::cmp::PartialEq<[U]> for [T]>"):
        EQ[_p + "::" + _n] = bytes_eq(_n == "ne")


def exact(rep, who, tmpl, alpha, pty, want):
    x = start(rep, "parse_exact", pty, tmpl)
    if not x:
        return
    f, I, st, p, bs, left = x
    I.extra_models.update(EQ)
    outs = I.run(f, [p, I.fresh(("cx",), ("param", "C")), ("bytes_ref", want)], st, sub_of(pty))
    rep.analysed(I)
    I.sites.report(rep, "%s: parse_exact" % who)
    S.decide(rep, "exact", "%s: %s as %s" % (who, N.text(tmpl), want.decode()), I, outs, bs, itertools.product(alpha, repeat=len(bs)),
             lambda q: len(want) if N.whole(tmpl, q).startswith(want) else None,
             lambda comp, s, v: comp.src(left(s)) if K.is_ok(v) else None)


def peeks(rep, who, tmpl, alpha, pty, name):
    x = start(rep, name, pty, tmpl)
    if not x:
        return
    f, I, st, p, bs, left = x
    cx = I.fresh(("cx",), ("param", "C"))
    outs = I.run(f, [p] if name == "peek" else [p, cx], st, sub_of(pty))
    rep.analysed(I)
    k = 1 if name == "read_byte" else 0

    def result(comp, s, v):
        if name == "peek":
            if v[0] == "agg" and v[1] == OPTION and v[2] == 0:
                return "(None,%s)" % comp.src(left(s))
        elif not K.is_ok(v):
            return None
        return "(%s,%s)" % (comp.src(v[3][0]), comp.src(left(s)))
    S.decide(rep, "byte", "%s: %s of %s" % (who, name, N.text(tmpl)), I, outs, bs, itertools.product(alpha, repeat=len(bs)),
             lambda q: (N.whole(tmpl, q)[0], k) if tmpl else None if k else (None, 0), result)


def skips(rep, who, tmpl, pty, n):
    x = start(rep, "skip", pty, tmpl)
    if not x:
        return
    f, I, st, p, bs, left = x
    outs = I.run(f, [p, I.fresh(("cx",), ("param", "C")), C(n)], st, sub_of(pty))
    rep.analysed(I)
    I.sites.report(rep, "%s: skip" % who)
    S.decide(rep, "skip", "%s: %d of %d" % (who, n, len(tmpl)), I, outs, bs, itertools.product(b"a", repeat=len(bs)),
             lambda q: n if n <= len(tmpl) else None, lambda comp, s, v: comp.src(left(s)) if K.is_ok(v) else None)


def reads(rep, who, tmpl, pty, n):
    x = start(rep, "read", pty, tmpl)
    if not x:
        return
    f, I, st, p, bs, left = x
    b = ("L", ("readbuf",), 0)
    I.root_types[b] = ("array", U8, ("ci", n))
    st.mem[b] = ("agg", "array", 0, (ZERO,) * n)
    r = ("ref", b, (), True, ())
    I.term_types[r] = ("ref", ("array", U8, ("ci", n)), True)
    outs = I.run(f, [p, I.fresh(("cx",), ("param", "C")), ("unsz", r, C(n))], st, sub_of(pty))
    rep.analysed(I)
    I.sites.report(rep, "%s: read" % who)

    def result(comp, s, v):
        if not K.is_ok(v):
            return None
        got = s.mem[b]
        return "(%s%s)" % ("".join("%s," % comp.src(y) for y in got[3]), comp.src(left(s)))
    S.decide(rep, "read", "%s: %d of %d" % (who, n, len(tmpl)), I, outs, bs, itertools.product(b"ab\xff", repeat=len(bs)),
             lambda q: N.whole(tmpl, q)[:n] and tuple(N.whole(tmpl, q)[:n]) + (n,) if n <= len(tmpl) else None, result)


def values(rep):
    f = rep.db.find(TOK + "::is_value")
    if not rep.ob("anchor", f is not None, "is_value", "not found"):
        return
    rep.fn(f)
    for i, v in enumerate(rep.db.adts[TOK]["variants"]):
        I, st = N.interp(rep.db), State()
        root = ("L", ("token",), 0)
        st.mem[root] = ("agg", TOK, i, ())
        I.root_types[root] = ("adt", TOK, ())
        r = ("ref", root, (), False, ())
        I.term_types[r] = ("ref", ("adt", TOK, ()), False)
        outs = I.run(f, [r], st, {})
        rep.analysed(I)
        got = {x for _, x in outs}
        rep.ob("value", got == {ONE if v["n"] in VALUES else ZERO}, v["n"], "%s: %s is %s" % (loc(f), v["n"], sorted(map(str, got))), exact=all(isc(x) for x in got))


def cases():
    out = [("is_value", values, ())]
    for n, p in S.PARSERS:
        for s in ("", "_", " _", "\n\t_", "_x", "\r__"):
            out.append(("%s lex %r" % (n, s), lexes, (n, N.tm(s), range(256) if s.count("_") < 2 else SOME + b",n1", p)))
        for s, a in (("", b""), ("_", range(256)), ("__", SOME), ("___", SOME), (" _a", range(256)), ("\n  \t_", range(256))):
            out.append(("%s blank %r" % (n, s), blank, (n, N.tm(s), a, p)))
        for w in (b"true", b"false", b"null"):
            t = tuple(w)
            for k in range(len(t)):
                out.append(("%s exact %s %d" % (n, w, k), exact, (n, t[:k] + (None,) + t[k + 1:] + (44,), range(256), p, w)))
                out.append(("%s exact %s to %d" % (n, w, k), exact, (n, t[:k], b"", p, w)))
            out.append(("%s exact %s" % (n, w), exact, (n, t, b"", p, w)))
        for s in ("", "_", "_x"):
            out.append(("%s peek %r" % (n, s), peeks, (n, N.tm(s), range(256), p, "peek")))
            out.append(("%s read_byte %r" % (n, s), peeks, (n, N.tm(s), range(256), p, "read_byte")))
        for k in (0, 1, 2, 3, 4, 7):
            for l in (0, 1, 3):
                out.append(("%s skip %d of %d" % (n, k, l), skips, (n, (None,) * l, p, k)))
                if k in (1, 2, 3, 4):
                    out.append(("%s read %d of %d" % (n, k, l), reads, (n, (None,) * l, p, k)))
    return out


def check(rep):
    rep.jobs(cases())
