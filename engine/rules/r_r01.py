from common import *

LEVEL = "proof"
EXPLANATION = (
    "Every method of every implementation of musli::reader::Reader is interpreted abstractly with unknown arguments; "
    "on each path the memory it reads, the amount by which the position moves and the amount reported through "
    "Context::advance are compared with the amount requested, using linear facts about lengths and addresses."
)
READER = "musli::reader::Reader"


def leaf_view(I, st, selfv, ty):
    """(start, remaining) of a reader which owns a pointer into memory"""
    r, p, tys = I.deref(selfv, ty)
    v = I.load(st, r, p, tys)
    I.settype(v, ty)
    return value_view(I, v, ty)


def value_view(I, v, ty):
    if ty[0] == "ref" and ty[1] == ("slice", U8):
        return view_slice(I, v)
    if ty[0] == "adt":
        fs = I.fields_of(ty)
        for i, f in enumerate(fs):
            if f and f[0] == "adt" and f[1] == "core::ops::range::Range":
                r = I.proj(v, ("f", None, i), f)
                a = I.proj(r, ("f", None, 0), PTRU8)
                b = I.proj(r, ("f", None, 1), PTRU8)
                return a, sub(I.addr(b), I.addr(a))
            if f == ("ref", ("slice", U8), False):
                return view_slice(I, I.proj(v, ("f", None, i), f))
    return None


def limit_fields(I, ty):
    fs = I.fields_of(ty)
    rem = [i for i, f in enumerate(fs) if f == USIZE]
    inner = [i for i, f in enumerate(fs) if f and f[0] == "param"]
    return (rem[0], inner[0]) if len(rem) == 1 and len(inner) == 1 else None


METHODS = ["skip", "read", "read_bytes", "read_bytes_uninit", "read_byte", "read_array", "peek", "is_eof", "try_clone"]


def amount(I, f, name):
    # positions are those of the trait's signature
    if name == "skip":
        return ("arg", f.name, 2)
    if name == "read":
        return I.slen(("arg", f.name, 2))
    if name == "read_bytes":
        return ("arg", f.name, 2)
    if name == "read_bytes_uninit":
        return ("arg", f.name, 3)
    if name == "read_byte":
        return ONE
    if name == "read_array":
        return I.const_term(("cp", "N"))
    return None


def has_visitor_error(st):
    return any(e[0] == "call" and e[1].rpartition("::")[2].startswith("visit_") and
               st.var.get(e[4]) == frozenset([1]) for e in st.trace)


def check_leaf(rep, imp, name):
    db = rep.db
    I = Interp(db, opaque=lambda c: c.tr in ("musli_core::context::Context",) or (
        c.tr == "musli_core::de::unsized_visitor::UnsizedVisitor" and c.targs and c.targs[0][0] == "param"))
    f, sub_ = method_of(I, imp, READER, name)
    if f is None:
        return rep.ob("reader-contract", False, "%s::%s" % (imp["self"], name), "no body")
    ty = imp["self"]
    who = "%s::%s" % (tyname(ty), name)
    asserts = []
    I.on_assert = lambda fr, b, t, st, p: asserts.append((fr.fn.d, b, t, p))
    st = State()
    selfv = I.fresh(("arg", f.name, 0), ("ref", ty, True))
    I.root_types[("D", selfv)] = ty
    v0 = leaf_view(I, st, selfv, ty)
    if v0 is None:
        return rep.ob("reader-contract", False, who, "the reader's position could not be located")
    start, rem = v0
    st.lin = st.lin.with_(rem)
    outs = I.run(f, [selfv], st, dict(sub_ or {}))
    rep.analysed(I)
    n = amount(I, f, name)
    ok = True
    for (d, b, t, p) in asserts:
        ok &= rep.ob("no-panic-in-reader", p, "%s in %s" % (t[1] if t[0] == "std" else t[3][0], short(d)),
                     "%s may panic or access out of bounds (%s)" % (short(d), loc(f)))
    if name in ("peek", "is_eof", "try_clone"):
        return check_query(rep, I, f, outs, ty, who, selfv, start, rem, name)
    seen_ok = seen_err = False
    for s, var, fs in outcomes(I, outs, f_ret(I, f, sub_)):
        p1, r1 = leaf_view(I, s, selfv, ty)
        adv = [e[3][1] for e in evs(s, "advance")]
        total = ZERO
        for a in adv:
            total = add(total, a)
        if var == 0:
            seen_ok = True
            rep.ob("reads-within-bounds", s.lin.entails(sub(rem, n)), who,
                   "%s succeeds without having established that the requested length is available (%s)" % (who, loc(f)))
            rep.ob("consumes-exactly", ieq(s, sub(rem, r1), n) and peq(I, s, p1, I.padd(start, n)), who,
                   "%s succeeds but the position does not move by exactly the requested length (%s)" % (who, loc(f)))
            rep.ob("advance-matches", ieq(s, total, n), who,
                   "%s reports a different amount to Context::advance than it consumes (%s)" % (who, loc(f)))
            rep.ob("returns-the-bytes-read", data_ok(I, s, f, name, fs[0], start, n), who,
                   "%s does not hand out exactly the bytes which it consumes (%s)" % (who, loc(f)))
        else:
            seen_err = True
            if not has_visitor_error(s):
                rep.ob("refuses-only-when-short", s.lin.entails(sub(sub(n, rem), ONE)), who,
                       "%s fails although enough bytes remain (%s)" % (who, loc(f)))
                rep.ob("failure-does-not-consume", ieq(s, rem, r1) and peq(I, s, p1, start), who,
                       "%s moves its position although it fails (%s)" % (who, loc(f)))
    rep.ob("both-outcomes", seen_ok and seen_err, who, "%s never %s" % (who, "succeeds" if not seen_ok else "fails"))


def f_ret(I, f, sub_):
    return I.norm(f.locals[0], sub_ or {})


def data_ok(I, s, f, name, val, start, n):
    if name == "skip":
        return True
    if name == "read_byte":
        p = byte_ptr(I, val)
        if p is not None and peq(I, s, p, start):
            return True
        # through an array of one byte
        return val[0] == "idx" and from_start(I, s, val[1], start, n)
    if name == "read_array":
        return from_start(I, s, val, start, n)
    if name == "read":
        buf = ("arg", f.name, 2)
        return copied_into(I, s, M.sptr(buf), buf, start, n)
    if name == "read_bytes_uninit":
        return copied_into(I, s, ("arg", f.name, 2), None, start, n)
    if name == "read_bytes":
        v = [e for e in s.trace if e[0] == "call" and e[1].rpartition("::")[2] in ("visit_borrowed", "visit_ref")]
        if len(v) != 1:
            return False
        e = v[0]
        return sl_eq(I, s, e[3][2], start, n) and val == I.proj(e[4], ("f", 0, 0))
    return False


def from_start(I, s, val, start, n):
    if val[0] == "copied":
        return peq(I, s, val[1], start) and ieq(s, val[2], n)
    if val[0] == "copyof":
        return sl_eq(I, s, val[1], start, n)
    if val[0] == "raw_part":
        return peq(I, s, val[3], start) and ieq(s, val[4], n)
    if val[0] == "deref" and val[1][0] == "asarr":
        return sl_eq(I, s, val[1][1], start, n)
    return False


def copied_into(I, s, dst, dslice, start, n):
    c = [e for e in s.trace if e[0] in ("rawcopy", "copy")]
    if len(c) != 1:
        return False
    e = c[0]
    if e[0] == "rawcopy":
        return peq(I, s, e[1], dst) and peq(I, s, e[2], start) and ieq(s, e[3], n)
    return dslice is not None and e[1] == dslice and e[2][0] == "copyof" and sl_eq(I, s, e[2][1], start, n)


def check_query(rep, I, f, outs, ty, who, selfv, start, rem, name):
    for s, v in outs:
        if name != "try_clone":
            p1, r1 = leaf_view(I, s, selfv, ty)
            rep.ob("query-does-not-consume", ieq(s, rem, r1) and peq(I, s, p1, start), who,
                   "%s moves the position (%s)" % (who, loc(f)))
        if name == "is_eof":
            for s2, b in I.branch(s, v):
                want = s2.lin.eq0(rem) if b else s2.lin.entails(sub(rem, ONE))
                rep.ob("eof-iff-empty", want, who, "%s does not tell exactly whether bytes remain (%s)" % (who, loc(f)))
        elif name == "peek":
            for s2, i, fs in I.split(s, v, ("adt", OPTION, (U8,))):
                if i == 1:
                    p = byte_ptr(I, fs[0])
                    rep.ob("peek-in-bounds", s2.lin.entails(sub(rem, ONE)) and p is not None and peq(I, s2, p, start), who,
                           "%s does not return the byte at the position, or reads it although none remains (%s)" % (who, loc(f)))
                else:
                    rep.ob("peek-none-iff-empty", s2.lin.eq0(rem), who, "%s returns nothing although bytes remain (%s)" % (who, loc(f)))
        else:
            if v[0] == "agg" and v[1] == OPTION and v[2] == 1:
                x = value_view(I, v[3][0], ty)
                rep.ob("clone-same-position", x is not None and peq(I, s, x[0], start) and ieq(s, x[1], rem), who,
                       "%s does not keep the position (%s)" % (who, loc(f)))


# what an inner reader is asked for by each of its methods
def inner_amount(I, e):
    n = e[1].rpartition("::")[2]
    a = e[3]
    if n == "skip" or n == "read_bytes":
        return a[2]
    if n == "read":
        return I.slen(a[2])
    if n == "read_bytes_uninit":
        return a[3]
    if n == "read_byte":
        return ONE
    if n == "read_array":
        return I.const_term(("cp", "N"))
    return None


def check_delegate(rep, imp, name, limit):
    db = rep.db
    ty = imp["self"]
    I = Interp(db, opaque=lambda c: c.tr in ("musli_core::context::Context",))
    f, sub_ = method_of(I, imp, READER, name)
    who = "%s::%s" % (tyname(ty), name)
    if f is None:
        return rep.ob("reader-contract", False, who, "no body")
    st = State()
    selfv = I.fresh(("arg", f.name, 0), ("ref", ty, True))
    I.root_types[("D", selfv)] = ty
    root = ("D", selfv)
    rem = None
    if limit:
        lf = limit_fields(I, ty)
        if lf is None:
            return rep.ob("reader-contract", False, who, "the limit could not be located")
        ri, ii = lf
        rem = I.load(st, root, (("f", None, ri),), (USIZE,))
    outs = I.run(f, [selfv], st, dict(sub_ or {}))
    rep.analysed(I)
    n = amount(I, f, name)
    for s, v in outs:
        inner = [e for e in s.trace if e[0] == "call" and e[1].startswith("musli::reader::Reader::")]
        rem1 = I.load(s, root, (("f", None, ri),), (USIZE,)) if limit else None
        if name in ("peek", "is_eof", "try_clone"):
            if limit and name != "try_clone":
                rep.ob("query-does-not-consume", ieq(s, rem, rem1), who, "%s changes the limit (%s)" % (who, loc(f)))
            if limit and name == "is_eof":
                for s2, b in I.branch(s, v):
                    if not b:
                        rep.ob("limit-respected", s2.lin.entails(sub(rem, ONE)) and len(inner) == 1, who,
                               "%s is false although the limit is reached (%s)" % (who, loc(f)))
            elif limit and name == "peek":
                for s2, i, fs in I.split(s, v, ("adt", OPTION, (U8,))):
                    if i == 1:
                        rep.ob("limit-respected", s2.lin.entails(sub(rem, ONE)) and len(inner) == 1 and
                               inner[0][1].endswith("::peek") and s2_is(v, inner[0][4], fs), who,
                               "%s looks past the limit (%s)" % (who, loc(f)))
            elif limit and name == "try_clone":
                if v[0] == "agg" and v[1] == OPTION and v[2] == 1:
                    c = I.proj(v[3][0], ("f", None, ri), USIZE)
                    rep.ob("clone-same-limit", ieq(s, c, rem), who, "%s does not keep the limit (%s)" % (who, loc(f)))
            else:
                rep.ob("delegates", len(inner) == 1 and inner[0][1].endswith("::" + name) and inner[0][4] == v, who,
                       "%s does not hand the request to the inner reader unchanged (%s)" % (who, loc(f)))
            continue
        if inner:
            e = inner[-1]
            k = inner_amount(I, e)
            same = len(inner) == 1 and k is not None and ieq(s, k, n) and args_passed(I, s, f, name, e)
            rep.ob("delegates", same and (v == e[4] or returns(I, s, v, e[4])), who,
                   "%s does not hand exactly its own request to the inner reader and return what that returns (%s)" % (who, loc(f)))
            if limit:
                rep.ob("limit-respected", s.lin.entails(sub(rem, n)), who,
                       "%s reads past the limit (%s)" % (who, loc(f)))
                rep.ob("limit-decreases-by-amount", ieq(s, sub(rem, rem1), n), who,
                       "%s does not lower the limit by the amount read (%s)" % (who, loc(f)))
        else:
            if not limit:
                rep.ob("delegates", False, who, "%s does not read from the inner reader on some path (%s)" % (who, loc(f)))
                continue
            for s2, i, fs in I.split(s, v, f_ret(I, f, sub_)):
                rep.ob("limit-error", i == 1 and s2.lin.entails(sub(sub(n, rem), ONE)), who,
                       "%s %s without reading (%s)" % (who, "succeeds" if i == 0 else "fails although the limit allows it", loc(f)))
                if i == 1:
                    rep.ob("failure-does-not-consume", ieq(s2, rem, rem1), who, "%s lowers the limit although it fails (%s)" % (who, loc(f)))


def s2_is(v, ev, fs):
    return v == ev or any(x[0] == "fld" and x[1] == ev for x in fs)


def returns(I, s, v, ev):
    """v is the result ev taken apart and put together again"""
    if v[0] == "agg" and v[1] == RESULT:
        return v[3][0] == I.proj(ev, ("f", v[2], 0)) or v[3][0] == UNIT
    return False


def args_passed(I, s, f, name, e):
    m = e[1].rpartition("::")[2]
    if name == "read":
        return m == "read" and e[3][2] == ("arg", f.name, 2)
    if name == "read_bytes":
        return m == "read_bytes" and e[3][3] == ("arg", f.name, 3)
    if name == "read_bytes_uninit":
        return m == "read_bytes_uninit" and e[3][2] == ("arg", f.name, 2)
    return m == name


def check(rep):
    db = rep.db
    impls = db.impl_by_trait.get(READER, [])
    seen = set()
    for imp in impls:
        t = imp["self"]
        if t == ("ref", ("slice", U8), False) or (t[0] == "adt" and t[1] == "musli::reader::SliceReader"):
            kind = "leaf"
        elif t[0] == "adt" and t[1] == "musli::reader::Limit":
            kind = "limit"
        elif t[0] == "ref" and t[2] and t[1][0] == "param":
            kind = "mut"
        else:
            rep.ob("reader-known", False, tyname(t), "an implementation of Reader which is not covered")
            continue
        seen.add(tyname(t))
        for m in METHODS:
            # defaults of delegating readers go through their own methods
            if kind == "leaf":
                check_leaf(rep, imp, m)
            else:
                check_delegate(rep, imp, m, kind == "limit")
    for want in ("&[u8]", "SliceReader", "Limit<R>", "&mut R"):
        rep.ob("anchor", want in seen, want, "no implementation of Reader for %s was found" % want)
    # Reader::limit starts with exactly the limit which it is given
    f = db.find("musli::reader::Reader::limit")
    if rep.ob("anchor", f is not None, "Reader::limit", "not found"):
        I = Interp(db)
        for s, v in I.run(f):
            t = f_ret(I, f, {})
            lf = limit_fields(I, t)
            good = lf is not None and v[0] == "agg" and v[3][lf[0]] == ("arg", "limit", 1) and v[3][lf[1]] == ("arg", "limit", 0)
            rep.ob("limit-construction", good, "Reader::limit", "Reader::limit does not wrap the reader with the limit given (%s)" % loc(f))
        rep.analysed(I)
