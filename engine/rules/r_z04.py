"""Z04: buffers which zero-copy values are stored in."""
import zc
from common import *
import r_z01 as Z1
import r_z02 as Z2

LEVEL = "proof"
EXPLANATION = (
    "Every function of OwnedBuf and SliceMut which changes the buffer is interpreted abstractly over a buffer of unknown "
    "contents, length and capacity. A typestate of its allocation follows every path: writes stay inside what is allocated, "
    "an allocation is released once and with the layout it was made with, what was stored before is kept, the length only "
    "covers bytes which have been written, and the reference returned is the aligned place of the value, whose padding is zero.")

OWNED = "musli_zerocopy::buf::owned_buf::OwnedBuf"
SLICE = "musli_zerocopy::buf::slice_mut::SliceMut"
STORE = "musli_zerocopy::buf::store_buf::StoreBuf"
NATIVE = ("adt", zc.Z + "endian::Little", ())
LAYOUT = "core::alloc::layout::Layout"
DATA = ("data", 0)
PTR = ("ptr", U8, True)
SELFR = ("L", ("selfbuf",), 0)
VAL = ("arg", "value", 1)
MAX = (1 << 63) - 1


# ---- allocation
def from_size(I, c, st):
    n, a = c.args
    v = ("agg", LAYOUT, 0, (n, a))
    if c.path.endswith("unchecked"):
        st.ev("layout", n, a)
        return M.ret(st, v)
    s = st.copy()
    out = []
    s.lin = s.lin.with_(sub(C(MAX + 1), add(n, a)))
    if s.lin.feasible():
        out.append((s, M.ok(v)))
    s = st.copy()
    s.lin = s.lin.with_(sub(add(n, a), C(MAX + 2)))
    if s.lin.feasible():
        out.append((s, M.err(("layouterr",))))
    return out


def part(i):
    def f(I, c, st):
        v = c.args[0]
        t = c.tys[0]
        if t and t[0] == "ref":
            r, p, tys = I.deref(v, t[1])
            v = I.load(st, r, p, tys)
        if v[0] == "agg" and v[1] == LAYOUT:
            return M.ret(st, v[3][i])
        return None
    return f


def alloc(I, c, st):
    """either a new allocation or null"""
    p = I.settype(("newdata", len(st.trace)), PTR)
    out = []
    s = st.copy()
    s.lin = s.lin.with_(sub(I.addr(p), ONE)).with_(sub(C(1 << 62), I.addr(p)))
    old = c.args[0] if len(c.args) == 3 else None
    s.ev("alloc", p, old, c.args[-2] if old else c.args[0], c.args[-1] if old else None)
    out.append((s, p))
    s = st.copy()
    s.ev("alloc", ZERO, None, None, None)
    out.append((s, ZERO))
    return out


def is_null(I, c, st):
    a = I.addr(c.args[0]) if c.args[0][0] != "c" else c.args[0]
    if st.lin.eq0(a):
        return M.ret(st, ONE)
    if st.lin.entails(sub(a, ONE)):
        return M.ret(st, ZERO)
    return None


def dealloc(I, c, st):
    st.ev("dealloc", c.args[0], c.args[1])
    return M.ret(st, UNIT)


def reader(I, c, st):
    """reads of bytes which have been copied are reads of what they were copied from"""
    p = c.args[0]
    pt = c.tys[0]
    t = pt[1] if pt and pt[0] in ("ptr", "ref") else pt[2][0] if pt and pt[0] == "adt" and pt[1].endswith("NonNull") else None
    return None if t is None else source(I, c, st, p, t)


def source(I, c, st, p, t):
    a = I.addr(p)
    for e in reversed(st.trace):
        if e[0] != "rawcopy":
            continue
        o = sub(a, I.addr(e[1]))
        if isc(o) and o[1] >= 0:
            b = sub(add(I.addr(e[2]), o), I.base)
            if isc(b):
                return M.ret(st, zc.sym(I, I.base, b[1], t))
    return None


class Stored(zc.Separate):
    def deref_init(self, p):
        return Interp.deref_init(self, p)


def interp(db, value, many=False):
    ms = {
        LAYOUT + "::from_size_align": from_size, LAYOUT + "::from_size_align_unchecked": from_size,
        LAYOUT + "::size": part(0), LAYOUT + "::align": part(1),
        "alloc::alloc::alloc": alloc, "alloc::alloc::realloc": alloc, "alloc::alloc::alloc_zeroed": alloc, "alloc::alloc::dealloc": dealloc,
    }
    for n in zc.READS:
        ms[n] = reader
    for n in ("mut_ptr::<impl *mut T>", "const_ptr::<impl *const T>"):
        ms["core::ptr::%s::is_null" % n] = is_null
    base = Interp(db).addr(("sptr", value) if many else value)
    I = zc.interp(db, base, models=ms)
    return I


# ---- the buffer
class Buf:
    """one of unknown contents"""

    def __init__(self, I, adt, a, r, m, empty=False):
        self.adt, self.a, self.r, self.m = adt, a, r, m
        self.owned = adt == OWNED
        self.cap = ZERO if empty else I.settype(("cap",), USIZE)
        q = I.settype(("len", "q"), USIZE)
        st = State()
        if empty:
            self.len = ZERO
        else:
            self.len = add(scale(q, m[1]), C(m[0]))
            st.lin = st.lin.with_(self.len).with_(sub(self.cap, self.len)).with_(sub(C(MAX - a + 1), self.cap))
            if self.owned:
                st.lin = st.lin.with_(sub(self.cap, ONE))
        I.settype(DATA, PTR)
        st.lin = st.lin.with_(sub(I.addr(DATA), ONE)).with_(sub(C(1 << 62), I.addr(DATA)))
        if self.owned and a > 1:
            for t in zc.remainders(I.addr(DATA), C(a)):
                st.lin = st.lin.with_(t).with_(scale(t, -1))
        fs = [DATA, self.len, self.cap, C(r)] + ([C(a)] if self.owned else []) + [("agg", "core::marker::PhantomData", 0, ())]
        st.mem[SELFR] = ("agg", adt, 0, tuple(fs))
        self.st = st

    def ref(self, t):
        return ("ref", SELFR, (), True, (t,))


def buf_ty(adt, o=("uint", "u32")):
    return ("adt", adt, (NATIVE, o))


class Life:
    """of the allocation of a buffer, along a path"""

    def __init__(self, I, b, s, size, why):
        self.I, self.b, self.s, self.why = I, b, s, why
        self.live = {DATA: (b.cap, C(b.a))} if b.owned and b.cap != ZERO else {}
        self.mem = {DATA: [(ZERO, b.len, "old")]}   # written: from, to, what
        self.size = size
        self.bounds = {DATA: b.cap}
        self.writes = []
        self.walk()

    def bad(self, what, exact=True):
        self.why.append((what, exact))

    def base(self, p):
        a = self.I.addr(p)
        for d in self.bounds:
            o = sub(a, self.I.addr(d))
            if all(not (x[0] in ("addr", "data", "newdata") or x == self.I.addr(d)) for x, _ in parts(o)[1]):
                return d, o
        return None, None

    def le(self, a, b):
        return self.s.lin.entails(sub(b, a))

    def owns(self, p, l, what):
        if p not in self.live:
            return self.bad("%s of what is not allocated" % what)
        n, a = self.live[p]
        if not (l[0] == "agg" and l[1] == LAYOUT):
            return self.bad("%s with an unknown layout" % what, False)
        if not (self.s.lin.eq0(sub(l[3][0], n)) and self.s.lin.eq0(sub(l[3][1], a))):
            return self.bad("%s with another layout than it was allocated with" % what)

    def walk(self):
        lin = self.s.lin
        for e in self.s.trace:
            if e[0] == "alloc":
                p, old, l, n = e[1:]
                if p == ZERO:
                    self.bounds[p] = ZERO
                    continue
                if old is None:
                    size, al = l[3] if l[0] == "agg" else (None, None)
                    self.mem[p] = []
                else:
                    self.owns(old, l, "reallocation")
                    size, al = n, l[3][1] if l[0] == "agg" else None
                    k = self.mem.get(old, [])
                    self.mem[p] = [x for x in k if self.le(x[1], size)]
                    self.live.pop(old, None)
                    self.bounds.pop(old, None)
                if size is None:
                    self.bad("allocation of unknown size", False)
                    continue
                if not lin.entails(sub(size, ONE)):
                    self.bad("allocation of no bytes")
                self.live[p] = (size, al)
                self.bounds[p] = size
            elif e[0] == "dealloc":
                d = self.base(e[1])[0]
                self.owns(d, e[2], "deallocation")
                self.live.pop(d, None)
                self.bounds.pop(d, None)
            elif e[0] in ("rawcopy", "rawfill"):
                n = e[3]
                if lin.eq0(n):
                    continue
                d, o = self.base(e[1])
                if d not in self.mem:
                    self.bad("a write to what is not the buffer", False)
                    continue
                if not (self.le(ZERO, o) and self.le(add(o, n), self.bounds[d])):
                    self.bad("a write of %s bytes at %s is not inside of what is allocated" % (show(n), show(o)))
                if e[0] == "rawcopy":
                    f, k = self.base(e[2])
                    if f is not None:
                        what = ("from", f, k)
                        got = self.has(f, k, add(k, n))
                        if not got:
                            self.bad("a copy of what has not been written or is gone")
                        if got == "old" and k == o:
                            what = "old"
                    else:
                        what = ("value", e[2])
                        if self.size is not None and not self.le(add(sub(self.I.addr(e[2]), self.I.base), n), self.size):
                            self.bad("a copy of more than the value")
                else:
                    what = ("fill", e[2])
                self.mem[d].append((o, add(o, n), what))
                if what != "old" and not self.le(self.b.len, o):
                    self.bad("a write over what was stored before")

    def has(self, d, a, b):
        """what is written from a to b: "old", True or False"""
        for x in self.mem.get(d, ()):
            if self.le(x[0], a) and self.le(b, x[1]):
                return "old" if x[2] == "old" else True
        # in parts
        at = a
        ws = list(self.mem.get(d, ()))
        moved = True
        while moved and not self.le(b, at):
            moved = False
            for w in ws:
                if self.le(w[0], at) and not self.le(w[1], at):
                    at = w[1]
                    ws.remove(w)
                    moved = True
                    break
        return self.le(b, at)


def show(t):
    c, xs = parts(t)
    return str(c) if not xs else "(..)" if c == 0 else "(..%+d)" % c


def final(I, s):
    v = s.mem.get(SELFR)
    return v[3] if v is not None and v[0] == "agg" else None


def settled(L, b, s, I, fs, why, clear=False):
    """what holds of every buffer"""
    d, n, cap, req = fs[:4]
    lin = s.lin
    x = L.base(d)[0] if d not in L.bounds else d
    if b.owned:
        if lin.eq0(cap):
            if L.live:
                why.append(("an allocation is lost", True))
        elif x not in L.live:
            why.append(("the buffer is not what is allocated", lin.entails(sub(cap, ONE))))
        else:
            k, al = L.live[x]
            if not (lin.eq0(sub(k, cap)) and lin.eq0(sub(al, fs[4]))):
                why.append(("the capacity or alignment is not that of the allocation", True))
            if len(L.live) > 1:
                why.append(("an allocation is lost", True))
    elif d != DATA or cap != b.cap:
        why.append(("the slice is another one", True))
    if not lin.entails(sub(cap, n)):
        why.append(("the length is more than the capacity", True))
    if not lin.eq0(n) and not L.has(x, ZERO, n):
        why.append(("the length covers bytes which have not been written", True))
    if not (isc(req) and req[1] >= b.r and req[1] & (req[1] - 1) == 0):
        why.append(("the requested alignment is reduced", isc(req)))


def placed(L, b, I, s, fs, off, al, size, why):
    """a value of `size` bytes is at `off`"""
    lin = s.lin
    n = fs[1]
    pad = sub(off, b.len)
    if not (isc(pad) and 0 <= pad[1] < al):
        why.append(("the value is not next to what was there", isc(pad)))
    elif (b.m[0] + pad[1]) % al:
        why.append(("the value is not aligned", True))
    if not lin.eq0(sub(n, add(off, size))):
        why.append(("the length is not the end of the value", True))
    if not (isc(fs[3]) and fs[3][1] >= al):
        why.append(("the alignment of the type is not requested", True))
    if isc(pad) and pad[1] > 0 and not any(e[0] == "rawfill" and L.base(e[1])[1] == b.len and e[2] == ZERO and e[3] == pad for e in s.trace):
        why.append(("the bytes before the value are not zero", True))


def zeroed(L, s, I, off):
    got = {}
    for e in s.trace:
        if e[0] == "rawfill":
            o = sub(L.base(e[1])[1] or ("?",), off)
            if isc(o) and o[1] >= 0 and isc(e[3]):
                for i in range(o[1], o[1] + e[3][1]):
                    got[i] = e[2]
    return got


def ends(rep, rule, who, I, outs, mk, more=None):
    if I.incomplete:
        rep.undecided("analysis", who, "%s: %s" % (who, I.incomplete[0]))
        return
    n = 0
    for s, v in outs:
        if s.trace and s.trace[-1][0] == "unreachable":
            continue
        n += 1
        why = []
        mk(s, v, why)
        for w, exact in why[:3]:
            rep.ob(rule, False, "%s: %s" % (who, w), "%s: %s" % (who, w), exact=exact)
        if not why:
            rep.ob(rule, True, who, who)
    rep.ob("returns", n > 0, who, "%s: never returns" % who, exact=False)
    rep.analysed(I)


def adt_name(adt):
    return short(adt).split("::")[-1]


def variant_of(adt):
    return ((1, 1), (8, 8), (1, 16), (8, 16)) if adt == OWNED else ((1, 1), (1, 8), (1, 16))


def find(rep, adt, name, trait=False):
    db = rep.db
    if trait:
        fs = [f for imp, f in db.method(STORE, lambda t: adt_is(t, adt), name)]
    else:
        fs = [f for f in db.fns.values() if f.d.startswith(adt + "::") and f.name == name and f.d.endswith(">::" + name)]
    f = db.get(fs[0].h) if fs else None
    rep.ob("anchor", f is not None, "%s::%s" % (adt, name), "no %s::%s" % (adt_name(adt), name))
    return f


def subst(t=None, o=("uint", "u32")):
    m = {"E": NATIVE, "O": o}
    if t is not None:
        m["T"] = t
    return m


def offset_of(I, s, v):
    """of a reference"""
    if v[0] == "agg" and v[1] == zc.REF:
        return v[3][0]
    return None


def store(rep, adt, name, t, trait, how):
    """a value of the type `t`"""
    db = rep.db
    f = find(rep, adt, name, trait)
    if f is None:
        return
    I0 = interp(db, VAL)
    n, al, ls = zc.size(I0, t), zc.align(I0, t), zc.leaves(I0, t)
    if n is None or ls is None:
        return rep.undecided("analysis", tyname(t), "layout of %s" % tyname(t))
    for a, r in variant_of(adt) if how == "all" else variant_of(adt)[-2:-1]:
        for res in range(al) if how == "all" else {0, 1 % al, al - 1}:
            for empty in (False, True) if res == 0 and adt == OWNED else (False,):
                I = interp(db, VAL)
                b = Buf(I, adt, a, r, (res, al), empty)
                who = "%s::%s::<%s> at %d mod %d, aligned to %d of %d%s" % (adt_name(adt), name, tyname(t), res, al, a, r, ", empty" if empty else "")
                I.settype(VAL, ("ref", t, False))
                self_ = b.ref(buf_ty(adt))
                value = name == "store"
                outs = I.run(f, [self_, VAL] if value else [self_], b.st, subst(t))

                def mk(s, v, why):
                    fs = final(I, s)
                    if fs is None:
                        return why.append(("the buffer is not known", False))
                    L = Life(I, b, s, C(n), why)
                    settled(L, b, s, I, fs, why)
                    off = v if name == "next_offset" else fs[1] if name == "request_align" else offset_of(I, s, v)
                    if off is None:
                        return why.append(("the reference is not known", False))
                    placed(L, b, I, s, fs, off, al, ZERO if name in ("next_offset", "request_align") else C(n), why)
                    z = zeroed(L, s, I, off)
                    if name in ("next_offset", "request_align"):
                        # room for the value
                        if not s.lin.entails(sub(fs[2], add(off, C(n)))):
                            why.append(("there is no room for the value", True))
                    elif name == "store_uninit":
                        if any(z.get(i) != ZERO for i in range(n)):
                            why.append(("the bytes of the value are not zero", True))
                    elif n:
                        stored(L, I, s, off, n, ls, z, why)
                ends(rep, "stored", who, I, outs, mk)


def stored(L, I, s, off, n, ls, z, why):
    got = [e for e in s.trace if e[0] == "rawcopy" and L.base(e[2])[0] is None]
    if not any(s.lin.eq0(sub(I.addr(e[2]), I.base)) and s.lin.eq0(sub(e[3], C(n))) and s.lin.eq0(sub(L.base(e[1])[1] or ("?",), off)) for e in got):
        why.append(("the bytes of the value are not copied", True))
    want = Z2.variants(I, s, I.base, ls)
    if want == "any":
        return
    if want is None:
        return why.append(("which padding there is, is not known", False))
    if any(z.get(i) != ZERO for i in want):
        why.append(("padding is not zeroed", True))
    if set(z) & (set(range(n)) - want):
        why.append(("what is not padding is zeroed", True))


def many(rep, adt, name, t, trait):
    """a slice of some values of the type, or a string"""
    db = rep.db
    f = find(rep, adt, name, trait)
    if f is None:
        return
    I0 = interp(db, VAL)
    el = U8 if t == ("str",) else t
    n, al, ls = zc.size(I0, el), zc.align(I0, el), zc.leaves(I0, el)
    if n is None or ls is None:
        return rep.undecided("analysis", tyname(t), "layout of %s" % tyname(t))
    pad = zc.padded(ls)
    tagged = any(l[0] == "tag" for l in ls)
    for a, r in variant_of(adt)[-2:-1 if pad else None]:
        for res in {0, al - 1} if pad else range(al):
            for count in ((0, 1) if tagged else (0, 1, 3)) if pad else (None,):
                I = interp(db, VAL, True)
                b = Buf(I, adt, a, r, (res, al))
                who = "%s::%s::<%s> at %d mod %d, aligned to %d of %d%s" % (
                    adt_name(adt), name, tyname(t), res, al, a, r, ", %d values" % count if count is not None else "")
                I.settype(VAL, ("ref", ("str",) if t == ("str",) else ("slice", t), False))
                ln = I.slen(VAL)
                st = b.st
                if count is None:
                    st.lin = st.lin.with_(sub(C(MAX // max(n, 1)), ln))
                else:
                    st.lin = st.lin.with_(sub(C(count), ln)).with_(sub(ln, C(count)))
                whole = scale(ln, n)
                g = subst(t)
                if name == "store_unsized":
                    g["T"] = ("str",) if t == ("str",) else ("slice", t)
                outs = I.run(f, [b.ref(buf_ty(adt)), VAL], st, g)

                def mk(s, v, why):
                    fs = final(I, s)
                    if fs is None:
                        return why.append(("the buffer is not known", False))
                    L = Life(I, b, s, whole, why)
                    settled(L, b, s, I, fs, why)
                    off = offset_of(I, s, v)
                    if off is None:
                        return why.append(("the reference is not known", False))
                    placed(L, b, I, s, fs, off, al, whole, why)
                    if not s.lin.eq0(sub(v[3][1], ln)):
                        why.append(("the length of the slice is not that of the reference", True))
                    cp = [e for e in s.trace if e[0] == "rawcopy" and L.base(e[2])[0] is None]
                    if not s.lin.eq0(whole) and not any(s.lin.eq0(sub(I.addr(e[2]), I.base)) and s.lin.eq0(sub(e[3], whole)) and s.lin.eq0(sub(L.base(e[1])[1] or ("?",), off)) for e in cp):
                        why.append(("the bytes of the values are not copied", True))
                    if pad:
                        z = zeroed(L, s, I, off)
                        for i in range(count):
                            w = Z2.variants(I, s, I.base, zc.leaves(I, el, i * n))
                            if w == "any" or w is None:
                                return
                            if any(z.get(k) != ZERO for k in w):
                                why.append(("the padding of value %d is not zeroed" % i, True))
                            if set(z) & (set(range(i * n, i * n + n)) - w):
                                why.append(("what is not padding of value %d is zeroed" % i, True))
                ends(rep, "stored", who, I, outs, mk)


def bytewise(rep, adt, name, trait):
    """what adds bytes or room"""
    db = rep.db
    f = find(rep, adt, name, trait)
    if f is None:
        return
    for a, r in variant_of(adt):
        for empty in (False, True) if adt == OWNED else (False,):
            I = interp(db, VAL, True)
            b = Buf(I, adt, a, r, (0, 1), empty)
            st = b.st
            who = "%s::%s, aligned to %d of %d%s" % (adt_name(adt), name, a, r, ", empty" if empty else "")
            self_ = b.ref(buf_ty(adt))
            k = I.settype(("count",), USIZE)
            if name == "extend_from_slice":
                I.settype(VAL, ("ref", ("slice", U8), False))
                k = I.slen(VAL)
                args = [self_, VAL]
            elif name == "fill":
                args = [self_, I.settype(("byte",), U8), k]
            elif name in ("reserve", "truncate"):
                args = [self_, k]
            else:
                args = [self_]
            if name not in ("reserve", "truncate"):
                st.lin = st.lin.with_(sub(C(MAX), k))
            if name == "drop" and adt == OWNED:
                pass
            outs = I.run(f, args, st, subst())

            def mk(s, v, why):
                L = Life(I, b, s, k if name == "extend_from_slice" else None, why)
                if name == "drop":
                    if L.live:
                        why.append(("an allocation is lost", True))
                    return
                fs = final(I, s)
                if fs is None:
                    return why.append(("the buffer is not known", False))
                settled(L, b, s, I, fs, why)
                n = fs[1]
                want = {"extend_from_slice": add(b.len, k), "fill": add(b.len, k), "reserve": b.len, "align_in_place": b.len, "clear": ZERO}.get(name)
                if want is not None and not s.lin.eq0(sub(n, want)):
                    why.append(("the length is another one", True))
                if name == "truncate" and not (s.lin.entails(sub(b.len, k)) and s.lin.eq0(sub(n, k)) or s.lin.entails(sub(k, b.len)) and n == b.len):
                    why.append(("the length is another one", True))
                if name == "reserve" and not s.lin.entails(sub(fs[2], add(b.len, k))):
                    why.append(("there is no room", True))
                if name == "align_in_place" and adt == OWNED:
                    d = fs[0]
                    x = L.base(d)[0]
                    al = fs[4] if L.live else None
                    if not (zc.aligned(I, s, I.addr(d), r) or al is not None and isc(al) and al[1] >= r and x in L.live or d[0] == "transmute" and isc(d[1]) and d[1][1] % r == 0):
                        why.append(("the buffer is not aligned", True))
                if name in ("extend_from_slice", "fill") and not s.lin.eq0(k):
                    kind = "rawcopy" if name == "extend_from_slice" else "rawfill"
                    if not any(e[0] == kind and s.lin.eq0(sub(L.base(e[1])[1] or ("?",), b.len)) and s.lin.eq0(sub(e[3], k)) for e in s.trace):
                        why.append(("the bytes are not written", True))
            ends(rep, "kept", who, I, outs, mk)


def made(rep, adt, name, call):
    """what makes a buffer, or replaces it by another"""
    db = rep.db
    if call == "own":
        f = find(rep, adt, name)
    else:
        f = Z1.fn(db, call)
        rep.ob("anchor", f is not None, call, "no %s" % call)
    if f is None:
        return
    new = name.startswith("with_capacity")
    for a, r in variant_of(adt):
        if new and a != r:
            continue
        for empty in (False, True) if adt == OWNED and not new else (False,):
            I = interp(db, VAL, True)
            I.inline_drop = True
            b = Buf(I, adt, a, r, (0, 1), empty)
            who = "%s::%s, aligned to %d of %d%s" % (adt_name(adt), name, a, r, ", empty" if empty else "")
            k = I.settype(("count",), USIZE)
            g = subst()
            if new:
                g["T"] = ("uint", "u%d" % (8 * a))
                args = [k, C(a)] if name.endswith("custom_alignment") else [k]
                if name == "with_capacity":
                    g["T"] = ("uint", "usize")
            elif name in ("with_size", "with_byte_order"):
                g["U"] = ("uint", "u64") if name == "with_size" else NATIVE
                args = [b.st.mem[SELFR]]
            elif name in ("drop", "load_uninit_mut"):
                args = [b.ref(buf_ty(adt))]
            else:
                args = [("ref", SELFR, (), False, (buf_ty(adt),))]
            outs = I.run(f, args, b.st, g)

            def mk(s, v, why):
                if new:
                    b2 = Buf.__new__(Buf)
                    b2.__dict__.update(b.__dict__)
                    b2.cap = b2.len = ZERO
                    L = Life(I, b2, s, None, why)
                else:
                    L = Life(I, b, s, None, why)
                if name == "drop":
                    if L.live:
                        why.append(("an allocation is lost", True))
                    return
                if name in ("as_slice", "as_mut_slice", "deref", "deref_mut"):
                    if not sl_eq(I, s, v, DATA, b.len):
                        why.append(("it is not the bytes which are stored", v[0] in ("raw", "unsz", "sub", "ref")))
                    return
                fs = v[3] if v[0] == "agg" and v[1] == adt else None
                if fs is None:
                    return why.append(("the buffer is not known", False))
                if name == "clone":
                    if b.owned and not s.lin.eq0(b.cap) and DATA not in L.live:
                        why.append(("the buffer itself is gone", True))
                    L.live.pop(DATA, None)
                    if not s.lin.eq0(sub(fs[1], b.len)) or not s.lin.eq0(sub(fs[3], C(b.r))):
                        why.append(("the clone has another length or alignment", True))
                    d = L.base(fs[0])[0]
                    if not s.lin.eq0(b.len) and d == DATA:
                        why.append(("the clone is the buffer itself", True))
                    if not any(x[2] == ("from", DATA, ZERO) and x[0] == ZERO and s.lin.eq0(sub(x[1], b.len)) or x[2] == "old" and s.lin.eq0(sub(x[1], b.len)) for x in L.mem.get(d, ())) and not s.lin.eq0(b.len):
                        why.append(("the contents are not copied", True))
                settled(L, b if not new else b2, s, I, fs, why)
                if name == "with_capacity" or new:
                    if not s.lin.eq0(fs[1]) or not s.lin.entails(sub(fs[2], k)):
                        why.append(("it is not empty or has no room", True))
                elif name != "clone" and (fs[:len(b.st.mem[SELFR][3]) - 1] != b.st.mem[SELFR][3][:-1]):
                    why.append(("it is another one", True))
            ends(rep, "made", who, I, outs, mk)


def uninit(rep, adt, t):
    """a reference to a value which is not initialised"""
    db = rep.db
    f = find(rep, adt, "load_uninit_mut")
    if f is None:
        return
    I = interp(db, VAL)
    n = zc.size(I, t)
    b = Buf(I, adt, 1, 16, (0, 1))
    g = subst(t)
    g.update({"U": NATIVE, "I": ("uint", "u32")})
    who = "%s::load_uninit_mut::<%s>" % (adt_name(adt), tyname(t))
    o = I.settype(("off",), ("uint", "u32"))
    r = ("agg", zc.REF, 0, (o, UNIT, ("agg", "core::marker::PhantomData", 0, ())))
    refused = []
    I.on_panic = lambda c, s: refused.append(s.copy())
    outs = I.run(f, [b.ref(buf_ty(adt)), r], b.st, g)
    for s in refused:
        rep.ob("uninit", not s.lin.with_(sub(b.len, add(o, C(n)))).feasible(), who + ": refused",
               "%s: panics for a reference to what is stored" % who)

    def mk(s, v, why):
        x = sub(I.addr(v), I.addr(DATA))
        if not (s.lin.entails(x) and s.lin.entails(sub(b.len, add(x, C(n))))):
            why.append(("it is not inside of what is stored", True))
        if not s.lin.eq0(sub(x, o)):
            why.append(("it is not where the reference points", True))
    ends(rep, "uninit", who, I, outs, mk)


def simple(rep, adt, name):
    """what a buffer says of itself"""
    f = find(rep, adt, name)
    if f is None:
        return
    I = interp(rep.db, VAL)
    b = Buf(I, adt, 1, 8, (0, 1))
    b.st.mem[SELFR] = b.st.mem[SELFR]
    who = "%s::%s" % (adt_name(adt), name)
    n = I.settype(("count",), USIZE)
    g = subst(("uint", "u32"))
    if name in ("new", "with_alignment"):
        x = I.settype(("bytes",), ("ref", ("slice", U8), True))
        outs = I.run(f, [x], b.st, g)
    elif name == "advance":
        b.st.lin = b.st.lin.with_(sub(b.cap, add(b.len, n)))
        outs = I.run(f, [b.ref(buf_ty(adt)), n], b.st, g)
    else:
        outs = I.run(f, [("ref", SELFR, (), False, (buf_ty(adt),))], b.st, g)

    def mk(s, v, why):
        if name in ("new", "with_alignment"):
            fs = v[3] if v[0] == "agg" and v[1] == adt else None
            if fs is None:
                return why.append(("the buffer is not known", False))
            if not s.lin.eq0(sub(I.addr(fs[0]), I.addr(("sptr", x)))):
                why.append(("it is somewhere else", False))
            if not s.lin.eq0(fs[1]) or not s.lin.eq0(sub(fs[2], I.slen(x))):
                why.append(("it is not empty, or not as large as the slice", True))
            want = C(4) if name == "with_alignment" else ONE
            if not s.lin.eq0(sub(fs[3], want)):
                why.append(("another alignment is requested", True))
        elif name == "advance":
            fs = final(I, s)
            if not s.lin.eq0(sub(fs[1], add(b.len, n))):
                why.append(("the length is not advanced by as much", True))
        elif name == "is_empty":
            for e in (True, False):
                s2 = s.copy()
                s2.lin = s2.lin.with_(scale(b.len, -1) if e else sub(b.len, ONE))
                if not s2.lin.feasible():
                    continue
                for _, r in [(s2, bool(v[1]))] if isc(v) else I.branch(s2, v):
                    if r is not e:
                        why.append(("says %s of a buffer which is%s empty" % (r, "" if e else " not"), True))
        else:
            want = {"len": b.len, "capacity": b.cap, "requested": C(b.r)}[name]
            if not s.lin.eq0(sub(v, want)):
                why.append(("not what it is", True))
    ends(rep, "says", who, I, outs, mk)


SOME = [("uint", "u8"), ("uint", "u16"), ("uint", "u32"), ("uint", "u64"), ("uint", "u128")]


def check(rep):
    db = rep.db
    js = []
    ts = zc.types(db)
    for adt in (OWNED, SLICE):
        nm = adt_name(adt)
        for name, tr in (("store", False), ("store", True), ("store_uninit", False), ("next_offset", False), ("next_offset", True), ("request_align", False)):
            for n, t in [(tyname(t), t) for t in SOME]:
                js.append(("%s %s %s %s" % (nm, name, n, tr), store, (adt, name, t, tr, "all")))
        for n, t in ts:
            js.append(("%s store %s" % (nm, n), store, (adt, "store", t, False, "some")))
        for name, tr in (("store_unsized", False), ("store_unsized", True), ("store_slice", False)):
            for t in SOME + ([("str",)] if name == "store_unsized" else []):
                js.append(("%s %s %s %s" % (nm, name, tyname(t), tr), many, (adt, name, t, tr)))
        for n, t in ts:
            I = zc.interp(db, ("none",))
            ls = zc.leaves(I, t)
            if ls and zc.padded(ls):
                js.append(("%s store_slice %s" % (nm, n), many, (adt, "store_slice", t, False)))
        for name, tr in (("extend_from_slice", False), ("fill", False), ("fill", True), ("reserve", False), ("clear", False), ("truncate", True), ("align_in_place", True)):
            js.append(("%s %s %s" % (nm, name, tr), bytewise, (adt, name, tr)))
        for n, t in [(tyname(t), t) for t in SOME[::2]]:
            js.append(("%s load_uninit_mut %s" % (nm, n), uninit, (adt, t)))
        for name in ("len", "is_empty", "requested", "advance") + (("capacity",) if adt == OWNED else ("with_alignment",)):
            js.append(("%s %s" % (nm, name), simple, (adt, name)))
        for name in ("with_size", "with_byte_order", "as_slice", "as_mut_slice"):
            js.append(("%s %s" % (nm, name), made, (adt, name, "own")))
    for name, call in (("clone", "<%s<E, O> as core::clone::Clone>::clone" % OWNED), ("drop", "<%s<E, O> as core::ops::drop::Drop>::drop" % OWNED),
                       ("with_capacity", OWNED + "::with_capacity"), ("with_capacity_and_alignment", OWNED + "::with_capacity_and_alignment"),
                       ("with_capacity_and_custom_alignment", "own")):
        js.append(("OwnedBuf %s" % name, made, (OWNED, name, call)))
    js.append(("OwnedBuf align_in_place", bytewise, (OWNED, "align_in_place", False)))
    rep.jobs(js)
