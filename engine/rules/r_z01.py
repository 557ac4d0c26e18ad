"""Z01: loading a zero-copy value."""
import zc
from common import *

LEVEL = "proof"
EXPLANATION = (
    "Every function which loads a value out of a buffer is interpreted abstractly for every zero-copy type of the witness "
    "crate and for a type parameter, over an unknown buffer and offset. On every path which returns a value its address is "
    "the offset into the buffer, the constraints of the path entail that all of it is in the buffer and that it is aligned, "
    "and that every bool, char, non-zero number and discriminant of the layout which the compiler has computed is valid. "
    "On every path which returns an error they entail that one of these is not so.")

BUF = "musli_zerocopy::buf::buf::Buf"
OFF = ("arg", "offset", 1)
BUFA = ("arg", "buf", 0)


def fn(db, path):
    if not hasattr(db, "_bypath"):
        db._bypath = {}
        for f in db.fns.values():
            db._bypath.setdefault(f.d, f)
    f = db._bypath.get(path)
    return db.get(f.h) if f else None


def impl_fn(db, tr, name, pred):
    for imp in db.impl_by_trait.get(tr, ()):
        if pred(imp["ta"][0]):
            it = imp["items"].get(name)
            if it and it.get("h"):
                return db.get(it["h"]), imp
    return None, None


def data(mut):
    return ("sptr", ("ref", ("D", BUFA), (("f", None, 0),), mut, (("slice", U8),)))


def blen(I, mut):
    return I.slen(("ref", ("D", BUFA), (("f", None, 0),), mut, (("slice", U8),)))


def start(I):
    """the buffer is the same one, whether it is borrowed mutably or not"""
    st = State()
    for x in (sub(blen(I, True), blen(I, False)), sub(I.addr(data(True)), I.addr(data(False)))):
        st.lin = st.lin.with_(x).with_(scale(x, -1))
    return st


def kind(v):
    """0 for Ok, 1 for Err"""
    return v[2] if v[0] == "agg" and v[1] == "core::result::Result" else None


def judge(rep, I, outs, who, base, n, al, ls, buflen, off, must_ref=True, unaligned=False):
    """`n` bytes at `base`, the leaves of which are `ls`"""
    if I.incomplete:
        rep.undecided("analysis", who, "%s: %s" % (who, I.incomplete[0]))
        return
    some = 0
    for s, v in outs:
        k = kind(v)
        if k == 0:
            some += 1
            p = v[3][0]
            at = I.addr(p[1] if p[0] == "unsz" else p) if must_ref else None
            if must_ref:
                x = pointer(I, p)
                rep.ob("pointer", x is not None and s.lin.eq0(sub(x, base)), who, "%s: the value returned is not at the offset asked for" % who,
                       exact=x is not None)
            end = add(off, n)
            rep.ob("bounds", s.lin.entails(sub(buflen, end)), who, "%s: a value which is not in the bounds of the buffer is returned" % who)
            if not unaligned and al is not None:
                rep.ob("alignment", zc.aligned(I, s, base, al), who, "%s: a value which may not be aligned by %s is returned" % (who, al))
            if ls is not None:
                r = zc.valid(I, s, base, ls)
                rep.ob("validity", r is None, who, "%s: a value is returned and %s may not be valid" % (who, r))
            if isc(n):
                for e in s.trace:
                    if e[0] == "mread":
                        w = zc.size(I, e[2])
                        rep.ob("reads", 0 <= e[1] and w is not None and e[1] + w <= n[1], who,
                               "%s: reads %s at %d, which is outside of the value" % (who, e[2], e[1]), exact=w is not None)
        elif k == 1:
            oob = s.lin.entails(sub(add(off, n), add(buflen, ONE))) or not s.lin.with_(sub(buflen, add(off, n))).feasible()
            mis = not unaligned and al is not None and zc.misaligned(I, s, base, al)
            bad = ls is not None and zc.invalid(I, s, base, ls)
            rep.ob("refusal", oob or mis or bad, who, "%s: an error where the value is in bounds, aligned and valid" % who)
        else:
            rep.undecided("analysis", who, "%s: an outcome which is not told: %s" % (who, str(v)[:80]))
    rep.ob("loads", some > 0, who, "%s: never returns a value" % who)
    if unaligned:
        for o, t in I.derefs:
            rep.ob("alignment", zc.align(I, t) == 1, who, "%s: a reference to %s at %d, which may not be aligned" % (who, tyname(t), o))


def pointer(I, p):
    if p[0] in ("unsz",):
        return None
    if p[0] in ("sub", "slice_at", "sl"):
        pass
    try:
        return I.addr(p)
    except Exception:
        return None


def sized(rep, name, t):
    db = rep.db
    for m in ("load_at", "load_at_mut", "load_at_unaligned"):
        f = fn(db, BUF + "::" + m)
        if not rep.ob("anchor", f is not None, m, "no Buf::%s" % m):
            continue
        mut = "mut" in m
        I0 = Interp(db)
        base = add(I0.addr(data(mut)), OFF)
        I = zc.interp(db, base)
        panics(rep, I, "%s of %s" % (m, name))
        ls = zc.leaves(I, t)
        if ls is None:
            rep.undecided("analysis", name, "layout of %s" % name)
            return
        outs = I.run(f, [BUFA, OFF], start(I), {"T": t})
        judge(rep, I, outs, "%s of %s" % (m, name), base, C(zc.size(I, t)), zc.align(I, t), ls, blen(I, mut), OFF,
              must_ref="unaligned" not in m, unaligned="unaligned" in m)
        rep.analysed(I)


def panics(rep, I, who):
    def on(fr, b, t, s, cannot):
        rep.ob("panic", cannot, who, "%s: %s at %s can fail" % (who, t[3][0] if isinstance(t[3], tuple) else "assertion", fr.fn.d))
    I.on_assert = on


def generic(rep):
    """of any type"""
    db = rep.db
    T = ("param", "T")
    for m in ("load_at", "load_at_mut", "load_at_unaligned"):
        f = fn(db, BUF + "::" + m)
        if not rep.ob("anchor", f is not None, m, "no Buf::%s" % m):
            continue
        mut = "mut" in m
        base = add(Interp(db).addr(data(mut)), OFF)
        I = zc.interp(db, base, opaque=lambda c: (c.tr or "") == zc.ZC and c.targs and c.targs[0] == T, models={
            zc.ZC + "::validate": validate_any})
        bases = [add(I.addr(data(x)), OFF) for x in (True, False)]
        who = "%s of any type" % m
        outs = I.run(f, [BUFA, OFF], start(I), {})
        if I.incomplete:
            rep.undecided("analysis", who, who)
            continue
        n = ("sizeof", T)
        un = "unaligned" in m
        for s, v in outs:
            if kind(v) == 0:
                rep.ob("bounds", s.lin.entails(sub(blen(I, mut), add(OFF, n))), who, "%s: a value which is not in the bounds of the buffer is returned" % who)
                vs = [e for e in s.trace if e[0] == "validate"]
                any_ = ("const", zc.ZC + "::ANY_BITS", (T,))
                free = s.bl.get(any_) is True or s.lin.entails(sub(any_, ONE))
                rep.ob("validity", free or any(e[1] is not None and s.lin.eq0(sub(e[1], base)) for e in vs), who,
                       "%s: a value is returned without validating what is at its address" % who)
                if not un:
                    x = pointer(I, v[3][0])
                    rep.ob("pointer", x is not None and s.lin.eq0(sub(x, base)), who, "%s: the value returned is not at the offset asked for" % who, exact=x is not None)
                    a = ("alignof", T)
                    ok = any(s.lin.eq0(t) for b in bases for t in zc.remainders(b, a))
                    rep.ob("alignment", ok, who, "%s: a value which may not be aligned is returned" % who)
            elif kind(v) == 1 and not any(e[0] == "validate" for e in s.trace):
                a = ("alignof", T)
                mis = not un and any(zc.infeasible(s, [t]) for b in bases for t in zc.remainders(b, a))
                rep.ob("refusal", mis or not s.lin.with_(sub(blen(I, mut), add(OFF, n))).feasible(), who, "%s: an error where the value is in bounds and aligned" % who)
        rep.analysed(I)


def validate_any(I, c, st):
    """of a type parameter"""
    if not c.targs or c.targs[0][0] != "param":
        return None
    t = c.tys[0]
    v = c.args[0]
    at = None
    try:
        vt = t[1]
        r, p, tys = I.deref(v, vt)
        x = I.load(st, r, p, tys)
        fs = I.fields_of(vt)
        if fs:
            # a pointer at the start of the value, and nothing has been validated so far
            parts = [I.proj(x, ("f", None, i), fs[i]) for i in range(len(fs))]
            ptrs = [q for q, ft in zip(parts, fs) if ft[0] in ("ptr", "ref") or ft[0] == "adt" and ft[1].endswith("NonNull")]
            nums = [q for q, ft in zip(parts, fs) if ft[0] == "uint"]
            if len(ptrs) == 1:
                at = I.addr(ptrs[0])
                for q in nums:
                    at = add(at, q)
    except Exception:
        at = None
    out = []
    s = st.copy()
    s.ev("validate", at)
    out.append((s, M.ok(M.UNIT if hasattr(M, "UNIT") else UNIT)))
    s = st.copy()
    s.ev("validate", at)
    out.append((s, M.err(("invalid",))))
    return out


def ref_of(pointee, meta):
    return ("agg", zc.REF, 0, (OFF, meta, UNIT))


RP = ("arg", "ref", 9)


def slices(rep, name, t, n):
    """a slice of `n` elements, None for any number of them"""
    db = rep.db
    E, O = ("adt", zc.Z + "endian::Little", ()), ("uint", "usize")
    for tr, m in (("Load", "load"), ("LoadMut", "load_mut")):
        if t is None:
            f, imp = impl_fn(db, zc.Z + "buf::load::" + tr, m, lambda s: adt_is(s, zc.REF) and s[2][0] == ("str",))
            sub_, who = {"E": E, "O": O}, "%s of a str" % m
        else:
            f, imp = impl_fn(db, zc.Z + "buf::load::" + tr, m, lambda s: adt_is(s, zc.REF) and s[2][0][0] == "slice")
            sub_, who = {"T": t, "E": E, "O": O}, "%s of [%s] of %s" % (m, name, "any length" if n is None else n)
        if not rep.ob("anchor", f is not None, who, "no %s for Ref of a slice" % tr):
            continue
        mut = "Mut" in tr
        base = add(Interp(db).addr(data(mut)), OFF)
        I = zc.interp(db, base, unroll=0 if n is None else 70, models=utf8_models(base))
        if n is not None:
            panics(rep, I, who)
        st = start(I)
        meta = I.settype(("arg", "len", 2), USIZE) if n is None else C(n)
        st.mem[("D", RP)] = ref_of(t, meta)
        I.settype(OFF, USIZE)
        outs = I.run(f, [RP, BUFA], st, sub_)
        k = zc.size(I, t) if t is not None else 1
        al = zc.align(I, t) if t is not None else 1
        if t is None:
            string(rep, I, outs, who, base, meta, blen(I, mut))
        elif n is None:
            for s, v in outs:
                if kind(v) == 0:
                    p = v[3][0]
                    rep.ob("bounds", s.lin.entails(sub(blen(I, mut), add(OFF, scale(meta, k)))), who, "%s: elements which are not in the bounds of the buffer are returned" % who)
                    rep.ob("alignment", zc.aligned(I, s, base, al), who, "%s: elements which may not be aligned are returned" % who)
                    ln = I.slen(p)
                    rep.ob("length", ln is not None and s.lin.eq0(sub(ln, meta)), who, "%s: the slice does not have as many elements as the reference" % who)
                elif kind(v) == 1 and not zc.restricted(zc.leaves(I, t)):
                    big = (1 << 64) - 1
                    oob = not s.lin.with_(sub(blen(I, mut), add(OFF, scale(meta, k)))).feasible()
                    rep.ob("refusal", oob or zc.misaligned(I, s, base, al), who, "%s: an error where the elements are in bounds and aligned" % who)
        else:
            ls = zc.spread(I, [(i * k, t) for i in range(n)], 0, n * k)
            for s, v in outs:
                if kind(v) == 0:
                    ln = I.slen(v[3][0])
                    rep.ob("length", ln is not None and s.lin.eq0(sub(ln, C(n))), who, "%s: the slice does not have as many elements as the reference" % who)
            judge(rep, I, outs, who, base, C(n * k), al, ls, blen(I, mut), OFF, must_ref=False)
        rep.analysed(I)


def utf8_models(base):
    def from_utf8(I, c, st):
        a = c.args[0]
        try:
            at, n = I.addr(a[1] if a[0] == "raw" else ("sptr", a)), I.slen(a)
        except Exception:
            at = n = None
        s1, s2 = st.copy(), st.copy()
        s1.ev("utf8", at, n)
        s2.ev("notutf8", at, n)
        return [(s1, M.ok(("str_of", a))), (s2, M.err(("utf8err", a)))]
    return {"core::str::converts::from_utf8": from_utf8, "core::str::converts::from_utf8_mut": from_utf8}


def string(rep, I, outs, who, base, n, ln):
    for s, v in outs:
        if kind(v) == 0:
            rep.ob("bounds", s.lin.entails(sub(ln, add(OFF, n))), who, "%s: a string which is not in the bounds of the buffer is returned" % who)
            ok = any(e[0] == "utf8" and e[1] is not None and s.lin.eq0(sub(e[1], base)) and s.lin.eq0(sub(e[2], n)) for e in s.trace)
            rep.ob("validity", ok, who, "%s: a string is returned whose bytes have not been checked to be UTF-8" % who)
            m = I.slen(v[3][0])
            rep.ob("length", m is not None and s.lin.eq0(sub(m, n)), who, "%s: the string is not as long as the reference" % who, exact=m is not None)
        elif kind(v) == 1:
            bad = any(e[0] == "notutf8" and e[1] is not None and s.lin.eq0(sub(e[1], base)) and s.lin.eq0(sub(e[2], n)) for e in s.trace)
            rep.ob("refusal", bad or not s.lin.with_(sub(ln, add(OFF, n))).feasible(), who, "%s: an error where the string is in bounds and valid" % who)


def check(rep):
    db = rep.db
    ts = zc.types(db)
    jobs = [("sized " + n, sized, (n, t)) for n, t in ts]
    jobs.append(("generic", generic, ()))
    for n, t in ts:
        if n in ("()",):
            continue
        jobs.append(("slices " + n, slices, (n, t, None)))
        jobs.append(("slices2 " + n, slices, (n, t, 1 if t[0] == "array" else 2)))
        jobs.append(("slices0 " + n, slices, (n, t, 0)))
    jobs.append(("str", slices, ("str", None, None)))
    rep.jobs(jobs)
    rep.ob("anchor", len(ts) > 60, "types", "only %d zero-copy types" % len(ts))
