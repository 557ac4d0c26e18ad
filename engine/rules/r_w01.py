from common import *

LEVEL = "proof"
EXPLANATION = (
    "Every method of every implementation of musli::writer::Writer, and every method of the in-place sinks which touches "
    "their cursor, is interpreted abstractly with unknown arguments. On each path every store and copy through the cursor "
    "must lie between the cursor and the end of the buffer, a success must have stored exactly the bytes given at the "
    "cursor and moved it by their number, and a failure must mean that they do not fit and must change nothing. Writers "
    "which delegate must hand over the same bytes once and must not lose an error."
)
WRITER = "musli::writer::Writer"
SMW = "musli::writer::slice_mut_writer::SliceMutWriter"
FIXED = "musli::fixed::FixedBytes"


class Cursor:
    """Where an in-place sink writes next and where its buffer ends, as addresses"""

    def __init__(self, I, st, selfv, ty):
        self.I, self.selfv, self.ty = I, selfv, ty
        self.root = ("D", selfv)

    def get(self, st):
        I = self.I
        v = I.load_root(st, self.root)
        return self.of_value(st, v)

    def of_value(self, st, v):
        I = self.I
        fs = I.fields_of(self.ty)
        if self.ty[1] == SMW:
            ps = [i for i, f in enumerate(fs) if f and I.is_nonnull(f)]
            a = I.proj(v, ("f", None, ps[0]), fs[ps[0]])
            b = I.proj(v, ("f", None, ps[1]), fs[ps[1]])
            return I.addr(a), I.addr(b)
        arr = [i for i, f in enumerate(fs) if f and f[0] == "array"]
        ln = [i for i, f in enumerate(fs) if f == USIZE]
        n = I.const_term(fs[arr[0]][2])
        init = I.proj(v, ("f", None, ln[0]), USIZE)
        base = self.base(fs, arr[0])
        return add(base, init), add(base, n)

    def base(self, fs, i):
        I = self.I
        r = ("ref", self.root, (("f", None, i),), True, (fs[i],))
        return I.addr(("sptr", ("unsz", r, I.const_term(fs[i][2]))))


def norm_addr(I, p):
    """the address of a byte pointer, looking through array-to-pointer casts"""
    if p[0] == "padd":
        return add(norm_addr(I, p[1]), p[2])
    if p[0] == "ref" and not (p[2] and p[2][-1][0] == "i"):
        t = I.ty_of(p)
        # a pointer to an array is a pointer to its first byte
        tys = p[4] if len(p) > 4 else None
        et = tys[-1] if tys else None
        if et and et[0] == "array":
            return I.addr(("sptr", ("unsz", p[:3] + (True,) + p[4:], I.const_term(et[2]))))
    if p[0] == "ref" and p[2] and p[2][-1][0] == "i":
        tys = p[4]
        b = ("ref", p[1], p[2][:-1], True, tys[:-1] if tys else None)
        return add(norm_addr(I, b), p[2][-1][1])
    if p[0] == "sptr" and p[1][0] == "unsz" and p[1][1][0] == "ref":
        r = p[1][1]
        return I.addr(("sptr", ("unsz", r[:3] + (True,) + r[4:], p[1][2])))
    return I.addr(p)


def run_sink(rep, ty, f, sub_, invariant=True):
    """Interpret a method of an in-place sink; yields everything about each path"""
    db = rep.db
    I = Interp(db, opaque=lambda c: c.tr == "musli_core::context::Context" or c.path.startswith("musli_core::alloc"))
    who = short(f.d)
    st = State()
    args = []
    cur = None
    stores = []
    for i in range(f.args):
        t = I.norm(f.locals[i + 1], sub_)
        v = I.fresh(("arg", f.name, i), t)
        args.append(v)
        if i == 0 and t[0] == "ref" and adt_is(t[1], ty[1]):
            I.root_types[("D", v)] = ty
            cur = Cursor(I, st, v, ty)
            a, b = cur.get(st)
            st.lin = st.lin.with_(sub(b, a))
    entry = cur.get(st) if cur else None

    asserts = []
    I.on_assert = lambda fr, b, t, s, p: asserts.append((fr, t, p))

    def on_store(s, root, path, val):
        if root[0] != "D" or root[1] in args:
            # stores to the sink's own fields; array elements count as buffer stores
            if root[0] == "D" and path and path[-1][0] == "i" and cur and root[1] == cur.selfv:
                stores.append((s, ("ref", root, path, True, None), ONE, val))
            return
        stores.append((s, root[1], ONE, val))

    I.on_store = on_store
    outs = I.run(f, args, st, sub_)
    rep.analysed(I)
    # the same assertion is seen on several paths: all of them must hold
    for fr, t, p in asserts:
        if fr.fn.d.endswith("with_capacity"):
            continue
        rep.ob("no-panic-in-writer", p, "%s in %s" % (t[1] if t[0] == "std" else t[3][0], short(fr.fn.d)),
               "%s may panic or step outside its buffer (%s)" % (short(fr.fn.d), loc(fr.fn)))
    return I, cur, entry, stores, outs


def written(I, s, stores):
    """[(address, bytes)] written through pointers on this path"""
    out = []
    for e in s.trace:
        if e[0] == "rawcopy":
            out.append((norm_addr(I, e[1]), e[3], ("from", e[2], e[3])))
        elif e[0] == "copy":
            p, n = view_slice(I, e[1])
            out.append((norm_addr(I, p), n, ("slice", e[2])))
    return out


def byte_stores(I, s, stores):
    # stores made by this very path: those whose effect is in its memory
    out = []
    for s0, p, n, val in stores:
        if p[0] == "ref":
            if I.load(s, p[1], p[2]) == val:
                out.append((norm_addr(I, p), n, ("byte", val)))
        elif s.mem.get(("D", p)) == val:
            out.append((norm_addr(I, p), n, ("byte", val)))
    return out


def src_is(I, s, src, kind, val):
    if kind == "byte":
        if src[0] == "from" and src[1][0] == "cptr":
            return src[1][2] == ("agg", "array", 0, (val,))
        return src == ("byte", val)
    p, n = view_slice(I, val)
    if src[0] == "from":
        return peq(I, s, src[1], p) and ieq(s, src[2], n)
    if src[0] == "slice":
        v = src[1]
        return v == ("copyof", val) or v == val or (v[0] == "copyof" and sl_eq(I, s, v[1], p, n))
    return False


def check_sink_method(rep, ty, f, sub_, what):
    """what: 'bytes' (last argument is a byte slice), 'byte', or None (any other method of the type)"""
    I, cur, entry, stores, outs = run_sink(rep, ty, f, sub_)
    who = short(f.d)
    if cur is None:
        return
    a0, b0 = entry
    for s0, p, n, val in stores:
        ad = norm_addr(I, p)
        rep.ob("store-in-bounds", s0.lin.entails(sub(ad, a0)) and s0.lin.entails(sub(sub(b0, ad), n)), who,
               "%s stores a byte outside the part of the buffer which is still free (%s)" % (who, loc(f)))
    val = ("arg", f.name, f.args - 1)
    rt = I.norm(f.locals[0], sub_)
    paths = []
    for s, v in outs:
        if rt[0] == "adt" and rt[1] == RESULT:
            paths += [(x, i == 0) for x, i, _ in I.split(s, v, rt)]
        elif rt == ("bool",):
            paths += I.branch(s, v)
        else:
            paths.append((s, None))
    seen = set()
    for s, good in paths:
        seen.add(good)
        a1, b1 = cur.get(s)
        rep.ob("end-fixed", ieq(s, b0, b1), who, "%s moves the end of the buffer (%s)" % (who, loc(f)))
        rep.ob("cursor-in-buffer", s.lin.entails(sub(b1, a1)), who, "%s can leave the cursor behind the end of the buffer (%s)" % (who, loc(f)))
        w = written(I, s, stores)
        for ad, n, _ in w:
            rep.ob("store-in-bounds", s.lin.entails(sub(ad, a0)) and s.lin.entails(sub(sub(b0, ad), n)), who,
                   "%s copies outside the part of the buffer which is still free (%s)" % (who, loc(f)))
        if what is None:
            continue
        w += byte_stores(I, s, stores)
        n = ONE if what == "byte" else I.slen(val)
        if good is False:
            rep.ob("refuses-only-when-full", s.lin.entails(sub(sub(n, sub(b0, a0)), ONE)), who,
                   "%s fails although there is room (%s)" % (who, loc(f)))
            rep.ob("failure-changes-nothing", ieq(s, a0, a1) and not w, who,
                   "%s changes the buffer or its cursor although it fails (%s)" % (who, loc(f)))
        else:
            rep.ob("cursor-moves-by-length", ieq(s, sub(a1, a0), n), who,
                   "%s does not move its cursor by the number of bytes given (%s)" % (who, loc(f)))
            if not (what == "bytes" and s.lin.eq0(n)):
                ok = len(w) == 1 and s.lin.eq0(sub(w[0][0], a0)) and ieq(s, w[0][1], n) and src_is(I, s, w[0][2], what, val)
                rep.ob("stores-the-bytes-given", ok, who,
                       "%s does not store exactly the bytes given at the cursor (%s)" % (who, loc(f)))
            adv = evs(s, "advance")
            if adv:
                t = ZERO
                for e in adv:
                    t = add(t, e[3][1])
                rep.ob("advance-matches", ieq(s, t, n), who, "%s reports a different amount to Context::advance (%s)" % (who, loc(f)))
    if what:
        rep.ob("both-outcomes", True in seen and False in seen, who, "%s never %s" % (who, "fails" if False not in seen else "succeeds"))


def check_init(rep, ty, f, sub_):
    """a constructor of FixedBytes: nothing is initialised"""
    I = Interp(rep.db)
    for s, v in I.run(f, None, None, sub_):
        fs = I.fields_of(ty)
        ln = [i for i, x in enumerate(fs) if x == USIZE][0]
        rep.ob("constructed-empty", v[0] == "agg" and v[3][ln] == ZERO, short(f.d),
               "%s does not start empty (%s)" % (short(f.d), loc(f)))
    rep.analysed(I)


def check_fixed_views(rep, ty):
    db = rep.db
    for f in inherent(db, FIXED):
        name = f.name
        if name in ("new", "with_capacity"):
            check_init(rep, ty, f, {})
            if name == "with_capacity":
                check_capacity(rep, f)
        elif name in ("push",):
            check_sink_method(rep, ty, f, {}, "byte")
        elif name in ("extend_from_slice", "write_bytes"):
            check_sink_method(rep, ty, f, {}, "bytes")
        else:
            check_view(rep, ty, f)


def check_capacity(rep, f):
    """with_capacity accepts every capacity up to N and nothing more"""
    I = Interp(rep.db)
    panics = []
    I.on_panic = lambda c, s: panics.append(s.copy())
    outs = I.run(f)
    rep.analysed(I)
    cap = ("arg", f.name, 0)
    n = I.const_term(("cp", "N"))
    for s, v in outs:
        rep.ob("capacity-bound", s.lin.entails(sub(n, cap)), short(f.d), "%s accepts more than the array holds (%s)" % (short(f.d), loc(f)))
    for s in panics:
        rep.ob("capacity-bound", s.lin.entails(sub(sub(cap, n), ONE)), short(f.d), "%s rejects a capacity which fits (%s)" % (short(f.d), loc(f)))


def check_view(rep, ty, f):
    I, cur, entry, stores, outs = run_sink(rep, ty, f, {})
    who = short(f.d)
    rt = I.norm(f.locals[0], {})
    fs = I.fields_of(ty)
    arr = [i for i, x in enumerate(fs) if x and x[0] == "array"][0]
    ln = [i for i, x in enumerate(fs) if x == USIZE][0]
    n = I.const_term(fs[arr][2])
    for s, v in outs:
        if cur is None:
            # by value
            selfv = ("arg", f.name, 0)
            init = I.proj(selfv, ("f", None, ln), USIZE)
            if rt[0] == "adt" and rt[1] == OPTION:
                for s2, i, _ in I.split(s, v, rt):
                    want = s2.lin.eq0(sub(init, n)) if i == 1 else (s2.lin.entails(sub(sub(n, init), ONE)) or s2.lin.entails(sub(sub(init, n), ONE)) or sub(n, init) in s2.lin.dis or sub(init, n) in s2.lin.dis)
                    rep.ob("bytes-only-when-full", want, who, "%s hands out bytes which were never written, or refuses a full buffer (%s)" % (who, loc(f)))
            continue
        a0, b0 = entry
        base = cur.base(fs, arr)
        init = sub(a0, base)
        a1, b1 = cur.get(s)
        rep.ob("cursor-in-buffer", s.lin.entails(sub(b1, a1)), who, "%s can leave the length above the capacity (%s)" % (who, loc(f)))
        if f.name == "clear":
            rep.ob("cleared", s.lin.eq0(sub(a1, base)), who, "%s does not reset the length (%s)" % (who, loc(f)))
        else:
            rep.ob("query-changes-nothing", ieq(s, a0, a1), who, "%s changes the length (%s)" % (who, loc(f)))
        if rt == USIZE:
            want = init if f.name == "len" else sub(n, init) if f.name == "remaining" else None
            if want is not None:
                rep.ob("size-query", ieq(s, v, want), who, "%s is wrong (%s)" % (who, loc(f)))
        elif rt == ("bool",) and f.name == "is_empty":
            for s2, b in I.branch(s, v):
                rep.ob("size-query", s2.lin.eq0(init) if b else s2.lin.entails(sub(init, ONE)), who, "%s is wrong (%s)" % (who, loc(f)))
        elif rt[0] == "ref" and rt[1] == ("slice", U8):
            p, l = view_slice(I, v)
            good = ieq(s, l, init) and (s.lin.eq0(init) or s.lin.eq0(sub(norm_addr(I, p), base)))
            rep.ob("view-is-what-was-written", good, who, "%s does not show exactly the bytes which have been written (%s)" % (who, loc(f)))


def check_delegate(rep, imp, name):
    """a writer which passes bytes on"""
    db = rep.db
    ty = imp["self"]
    f, sub_ = method_of_w(rep, imp, name)
    if f is None:
        return
    I = Interp(db, opaque=lambda c: c.tr in ("musli_core::context::Context", "std::io::Write") or sink_call(c) or
               (c.path.startswith("musli_core::alloc") and not c.path.endswith("::deref")))
    outs = I.run(f, None, None, sub_)
    rep.analysed(I)
    who = "%s::%s" % (tyname(ty), name)
    val = ("arg", f.name, 2)
    sinks = {"extend_from_slice", "write_all", "write_bytes", "push", "write_byte", "extend", "finish"}
    for s, v in outs:
        sent = [e for e in s.trace if e[0] == "call" and (e[1].rpartition("::")[2] in sinks)]
        fs = I.split(s, v, I.norm(f.locals[0], sub_))
        one = len(sent) == 1
        if name == "finish":
            continue
        rep.ob("passes-on-once", one, who, "%s does not pass the bytes on exactly once on some path (%s)" % (who, loc(f)))
        if not one:
            continue
        e = sent[0]
        last = e[3][-1]
        if name == "write_byte":
            good = last == val or byte_slice(I, s, last, val)
        elif name == "write_bytes":
            good = last == val
        else:
            good = last == val or from_buffer(I, s, last, val)
        rep.ob("passes-on-the-bytes", good, who, "%s does not pass on exactly the bytes given (%s)" % (who, loc(f)))
        for s2, i, _ in fs:
            vs = s2.var.get(e[4])
            t = I.ty_of(e[4])
            if t and t[0] == "adt" and t[1] == RESULT and v != e[4]:
                if i == 0:
                    rep.ob("error-kept", vs == frozenset([0]), who, "%s succeeds although the bytes could not be passed on (%s)" % (who, loc(f)))
                else:
                    rep.ob("error-kept", vs == frozenset([1]), who, "%s fails although the bytes were passed on (%s)" % (who, loc(f)))


def sink_call(c):
    p = c.orig[0] if c.orig else c.path
    return "alloc::vec::Vec" in p and p.rpartition("::")[2] in ("extend_from_slice", "push") or (
        "musli_core::alloc::vec::Vec" in p)


def byte_slice(I, s, v, b):
    if v[0] == "cslice":
        return v[1] == ("agg", "array", 0, (b,))
    if v[0] == "unsz":
        r = v[1]
        x = I.load(s, r[1], r[2]) if r[0] == "ref" else None
        return x is not None and x[0] == "agg" and x[3] == (b,)
    return False


def from_buffer(I, s, v, buf):
    """the slice of a buffer which is owned by the function"""
    for e in s.trace:
        if e[0] == "call" and e[1].rpartition("::")[2] in ("as_slice", "deref", "as_ref", "as_bytes") and e[4] == v:
            r = e[3][0]
            return r[0] == "ref" and I.load(s, r[1], r[2])[0:1] and True
    return False


def method_of_w(rep, imp, name):
    I = Interp(rep.db)
    f, sub_ = method_of(I, imp, WRITER, name)
    who = "%s::%s" % (tyname(imp["self"]), name)
    if not rep.ob("anchor", f is not None, who, "no body was found"):
        return None, None
    return f, dict(sub_ or {})


def check(rep):
    db = rep.db
    seen = set()
    for imp in db.impl_by_trait.get(WRITER, []):
        t = imp["self"]
        seen.add(t[1] if t[0] == "adt" else t[0])
        if t[0] == "adt" and t[1] in (SMW, FIXED):
            for m, w in (("write_bytes", "bytes"), ("write_byte", "byte")):
                f, s = method_of_w(rep, imp, m)
                if f:
                    check_sink_method(rep, t, f, s, w)
            check_sink_extend(rep, imp)
            if t[1] == SMW:
                check_finish(rep, imp)
        else:
            for m in ("write_bytes", "write_byte", "extend"):
                check_delegate(rep, imp, m)
    for want in (SMW, FIXED, "musli::writer::BufWriter", "musli::wrap::Wrap", "ref"):
        rep.ob("anchor", want in seen, want, "no implementation of Writer for %s was found" % want)
    fx = [a for a in db.impl_by_trait.get(WRITER, []) if adt_is(a["self"], FIXED)]
    if fx:
        check_fixed_views(rep, fx[0]["self"])
    sm = [a for a in db.impl_by_trait.get(WRITER, []) if adt_is(a["self"], SMW)]
    if sm:
        ty = sm[0]["self"]
        for f in inherent(db, SMW):
            if f.name == "new":
                check_new(rep, ty, f)
            else:
                check_sink_method(rep, ty, f, {}, None)


def check_new(rep, ty, f):
    I = Interp(rep.db)
    for s, v in I.run(f):
        c = Cursor(I, s, ("x",), ty)
        a, b = c.of_value(s, v)
        arg_ = ("arg", f.name, 0)
        p, n = view_slice(I, arg_)
        rep.ob("covers-the-slice", s.lin.eq0(sub(a, I.addr(p))) and s.lin.eq0(sub(sub(b, a), n)), short(f.d),
               "%s does not cover exactly the slice given (%s)" % (short(f.d), loc(f)))
    rep.analysed(I)


def check_sink_extend(rep, imp):
    """extend writes the contents of the buffer with write_bytes"""
    f, sub_ = method_of_w(rep, imp, "extend")
    if f is None:
        return
    I = Interp(rep.db, opaque=lambda c: c.tr == "musli_core::context::Context" or c.n == "write_bytes" or
               c.path.endswith("::write_bytes") or (c.path.startswith("musli_core::alloc") and not c.path.endswith("::deref")))
    who = "%s::extend" % tyname(imp["self"])
    for s, v in I.run(f, None, None, sub_):
        e = evs(s, "write_bytes")
        good = len(e) == 1 and from_buffer(I, s, e[0][3][-1], ("arg", f.name, 2))
        rep.ob("passes-on-the-bytes", good, who, "%s does not write exactly the buffer given (%s)" % (who, loc(f)))
        if len(e) == 1 and v != e[0][4]:
            for s2, i, _ in I.split(s, v, I.norm(f.locals[0], sub_)):
                rep.ob("error-kept", s2.var.get(e[0][4]) == frozenset([i]), who, "%s loses an error (%s)" % (who, loc(f)))
    rep.analysed(I)


def check_finish(rep, imp):
    f, sub_ = method_of_w(rep, imp, "finish")
    if f is None:
        return
    I, cur, entry, stores, outs = run_sink(rep, imp["self"], f, sub_)
    who = "%s::finish" % tyname(imp["self"])
    for s, v in outs:
        good = v[0] == "agg" and v[1] == RESULT and v[2] == 0 and ieq(s, v[3][0], sub(entry[1], entry[0]))
        rep.ob("finish-reports-remaining", good, who, "%s does not report the remaining capacity (%s)" % (who, loc(f)))
