"""D01: decoding never panics."""
from common import *
import r_j01 as J1
from panics import *

LEVEL = "proof"
EXPLANATION = (
    "Every function of the library which decoding consists of (implementations of the decoder, reader, parser and visitor "
    "traits, of Decode for the types of the library and of the witness crate, and the functions for numbers and strings) "
    "is interpreted abstractly for unknown arguments. Every overflow, bounds, division and unwrap check, every explicit "
    "panic and every slicing operation it reaches has to be proven not to fail.")

ROOTS = ("musli_core::de::", "musli::reader::Reader", "musli::json::parser::parser::Parser", "musli::int::")
CUT = ROOTS + ("musli_core::context", "musli_core::alloc::alloc")
SP = "musli::json::parser::slice_parser::SliceParser"
MP = "musli::json::parser::mut_slice_parser::MutSliceParser"
SA = "musli::json::parser::string::SliceAccess"
CONT = "musli::int::continuation::decode"
INT = "musli::json::parser::integer::"
MAX = C((1 << 63) - 1)
# reached by decoding, but not decided here: reading floats, and the collections of std
OUT = ("musli::dec2flt::", "alloc::collections::")
# an allocation is at most isize::MAX bytes
# a reader calls the visitor with what was requested: decided by R01
# the number of bytes of a chunk of elements is bounded by a constant of their size
NOT = (("overflow", "musli_core::alloc::vec::Vec"),
       ("overflow Mul", "::decode_slice"),
       ("std core::slice::<impl [T]>::copy_from_slice", "musli::reader::Reader::read::Visitor"),
       ("std core::slice::<impl [T]>::copy_from_slice", "musli::reader::Reader::read_array::Visitor"),
       )




def opaque(*cut):
    def f(c):
        if c.n == "size_hint" and not (c.tr and c.path.startswith(c.tr)):
            return False
        return c.tr is not None and c.tr.startswith(CUT) or c.path.startswith(cut + OUT) or c.path == CONT and CONT not in cut
    return f


# ---- contracts
def moves(I, c, st):
    """moves the position in a string forward"""
    t = c.tys[0][1] if c.tys[0] and c.tys[0][0] == "ref" else None
    if t is None or t[0] != "adt" or t[1] != SA:
        return None
    r, p, tys = I.deref(c.args[0], t)
    v = I.load(st, r, p, tys)
    a, n = I.proj(v, ("f", None, 2), USIZE), I.proj(v, ("f", None, 1), ("ref", ("slice", U8), False))
    out = []
    for k in (0, 1):
        s = st.copy()
        b = I.settype(("to", c.ctx, len(st.trace), k), USIZE)
        s.lin = s.lin.with_(sub(b, a)).with_(sub(I.slen(n), b))
        I.store(s, r, p + (("f", None, 2),), tys + (USIZE,) if isinstance(tys, tuple) else tys, b)
        x = I.fresh(("res", c.ctx, len(st.trace)), c.rty[2][k] if c.rty and c.rty[0] == "adt" and c.rty[1] == "core::result::Result" else ("param", "X"))
        s.ev("moved", b)
        out.append((s, M.ok(x) if k == 0 else M.err(x)))
    return out


def float_of(I, c, st):
    """how much of the text was read"""
    n = I.settype(("read", c.ctx, len(st.trace)), USIZE)
    s = st.copy()
    s.lin = s.lin.with_(sub(I.slen(c.args[0]), n))
    s.ev("float", n)
    v = I.fresh(("value", c.ctx, len(st.trace)), ("float", "f64"))
    return [(s, M.some(("agg", "tuple", 0, (v, n)))), (st.copy(), M.NONE)]


def from_u32(I, c, st):
    """by what it is"""
    a = c.args[0]
    out = []
    for lo, hi, ok in ((0, 0xD7FF, True), (0xD800, 0xDFFF, False), (0xE000, 0x10FFFF, True), (0x110000, (1 << 32) - 1, False)):
        s = st.copy()
        s.lin = s.lin.with_(sub(a, C(lo))).with_(sub(C(hi), a))
        if s.lin.feasible():
            s.ev("char", lo)
            out.append((s, M.some(I.settype(("char_of", a), ("char",))) if ok else M.NONE))
    return out


INNER = ("parse_hex_escape", "parse_escape", "skip_escape", "next")


class Values(J1.Sorted):
    """keeps what is known of entries of tables"""


def models(f):
    ms = {"musli::dec2flt::dec2flt": float_of}
    if SA not in f.d:
        for n in ("parse_string", "skip_string"):
            ms[SA + "::<'de, C>::" + n] = moves
    for n in ("core::char::convert::from_u32", "core::char::methods::<impl char>::from_u32"):
        ms[n] = from_u32
    for n in INNER:
        ms[SA + "::<'de, C>::" + n] = moves
    return ms


# ---- arguments
INV = {SP: (0, 1), SA: (1, 2)}


def start(I, f, st, subst, short):
    """unknown arguments, for which the invariants of their types hold, and where they are"""
    out, inv = [], []
    for i in range(f.args):
        t = f.locals[i + 1]
        if t[0] == "param" and t[1] in subst:
            t = subst[t[1]]
        p = t[1] if t[0] == "ref" else t
        x = I.fresh(("arg", f.name, i), t)
        if p[0] == "adt" and p[1] == MP and t[0] == "ref":
            sl, root = ("L", ("slice", i), 0), ("L", ("self", i), 0)
            v = I.settype(("arg", "slice", i), ("ref", ("slice", U8), False))
            I.root_types[sl], I.root_types[root] = ("ref", ("slice", U8), False), p
            st.mem[sl] = v
            st.mem[root] = ("agg", MP, 0, (("ref", sl, (), True, ()),))
            st.lin = st.lin.with_(sub(C(short) if short else MAX, I.slen(v)))
            x = ("ref", root, (), True, (p,))
        if p[0] == "adt" and p[1] in INV:
            sl, ix = INV[p[1]]
            n = 1 + max(sl, ix)
            fs = [I.fresh(("field", j), ("param", "C")) for j in range(n)]
            fs[sl] = I.settype(("arg", "slice", i), ("ref", ("slice", U8), False))
            fs[ix] = I.settype(("arg", "index", i), USIZE)
            st.lin = st.lin.with_(sub(I.slen(fs[sl]), fs[ix])).with_(sub(C(short) if short else MAX, I.slen(fs[sl])))
            if short:
                fs[ix] = C(0)
            v = ("agg", p[1], 0, tuple(fs))
            if t[0] == "ref":
                root = ("L", ("self", i), 0)
                I.root_types[root] = p
                st.mem[root] = v
                inv.append((root, sl, ix))
                x = ("ref", root, (), True, (p,))
            else:
                x = v
        out.append(x)
    return out, inv


def interp(rep, f, cut, unroll=None):
    I = (Values if SA in f.d else Interp)(rep.db, opaque=opaque(*cut), models=models(f))
    if SA in f.d and f.name == "parse_hex_escape":
        unroll = 8
    if unroll:
        I.unroll = unroll
    return I


def one(rep, f, who, cut, subst=None, unroll=None, short=None, again=None):
    I = interp(rep, f, cut, unroll)
    S = Sites(I, rep.db)
    if again:
        S.bad = again
    st = State()
    args, inv = start(I, f, st, subst or {}, short)
    try:
        outs = I.run(f, args, st, subst or {})
    except Budget as e:
        if again:
            return S.report(rep, who, NOT)
        return rep.undecided("analysis", who, "%s: %s" % (who, e))
    if not again and any(not known(s, ()) and not out(k) for k, s in S.bad.items()):
        # the first iterations of its loops by themselves
        return one(rep, f, who, cut, subst, 3, short, S.bad)
    if I.incomplete and not again:
        rep.undecided("analysis", who, "%s: %s" % (who, I.incomplete[0]))
    for s, v in outs:
        for root, sl, ix in inv:
            a = I.load(s, root, (("f", None, sl),))
            b = I.load(s, root, (("f", None, ix),))
            rep.ob("invariant", s.lin.entails(sub(I.slen(a), b)), who, "%s: the position may be behind the end" % who, exact=known(s, (a, b)))
    S.report(rep, who, NOT)
    rep.fn(f)
    rep.analysed(I)


def out(k):
    return any(k[1].startswith(n) and p in k[0] for n, p in NOT)


def roots(db):
    """[(name, function, what is not opaque, types, iterations)]"""
    out, seen = [], set()
    for tr, imps in sorted(db.impl_by_trait.items()):
        if not tr.startswith(ROOTS):
            continue
        for imp in imps:
            for nm, it in sorted(imp["items"].items()):
                f = db.get(it["h"]) if it.get("h") else None
                if f is None or f.blocks is None or not f.span or "zerocopy" in str(f.span) or f.kind == "const":
                    continue
                if f.h in seen:
                    continue
                seen.add(f.h)
                out.append((f.d, f, (INT,), None, None))
    own = {f.d for _, f, _, _, _ in out}
    for f0 in list(db.fns.values()):
        if f0.d.startswith(SA + "::<") and "{" not in f0.d:
            f = db.get(f0.h)
            if f is not None and f.blocks is not None:
                out.append((f.d, f, (), None, None))
        if f0.d == CONT:
            f = db.get(f0.h)
            for t in ("u8", "u16", "u32", "u64", "u128", "usize"):
                out.append(("%s::<%s>" % (f.d, t), f, (), {"T": ("uint", t)}, 24))
        if "::{closure#" in f0.d and f0.d[:f0.d.index("::{closure#")] in own:
            # which is called by someone else
            f = db.get(f0.h)
            if f is not None and f.blocks is not None:
                out.append((f.d, f, (INT,), None, None))
    return out


def check(rep):
    rep.jobs([(who, one, (f, who, cut, sub_, n)) for who, f, cut, sub_, n in roots(rep.db)])
