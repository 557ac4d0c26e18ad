"""Zero-copy types: their layouts, and what a buffer they are loaded from holds."""
from common import *

W = "vwitness::zc::"
Z = "musli_zerocopy::"
NZ = "core::num::nonzero::NonZero"
ZC = Z + "traits::ZeroCopy"
NUM = ("uint", "int", "float")
PRIMS = [("uint", n) for n in ("u8", "u16", "u32", "u64", "u128", "usize")] + \
    [("int", n) for n in ("i8", "i16", "i32", "i64", "i128", "isize")] + \
    [("float", "f32"), ("float", "f64"), ("bool",), ("char",), ("tuple", ())]


def nz(t):
    return ("adt", NZ, (t,))


def opt(t):
    return ("adt", "core::option::Option", (t,))


def types(db):
    """every type which is looked at, by name"""
    out = [(tyname(t) if t[0] in NUM else {"bool": "bool", "char": "char"}.get(t[0], "()"), t) for t in PRIMS]
    for t in PRIMS[:12]:
        out.append(("NonZero<%s>" % t[1], nz(t)))
        out.append(("Option<NonZero<%s>>" % t[1], opt(nz(t))))
    seen = {t for _, t in out}
    for t, l in db.layout.items():
        if t[0] in ("adt", "array") and "size" in l and t not in seen and "vwitness::zc" in str(t) and "Uses" not in str(t):
            if t[0] == "array" or t[1].startswith((W, Z)):
                out.append((tyname(t), t))
                seen.add(t)
    u = db.adts.get(W + "Uses")
    if u:
        for _, t in u["variants"][0]["fields"]:
            if t not in seen:
                out.append((tyname(t), t))
                seen.add(t)
    if not hasattr(db, "_filled"):
        db._filled = True
        I = Interp(db)
        for _, t in out:
            fill(I, t)
    return [(n, t) for n, t in out if zerocopy(db, t)]


def fill(I, t, seen=None):
    """layouts of the types of fields"""
    seen = seen if seen is not None else set()
    if t in seen or t[0] not in ("adt", "array"):
        return
    seen.add(t)
    fs = [t[1]] if t[0] == "array" else [f for v in range(len((I.db.adts.get(t[1]) or {"variants": ()})["variants"])) for f in I.variant_fields(t, v) or ()]
    for f in fs:
        fill(I, f, seen)
    l = I.db.layout.get(t)
    if t[0] == "adt" and (l is None or "size" not in l) and t[1].startswith(Z) and not enum_of(I, t):
        p = placed(I, t)
        if p:
            I.db.layout[t] = {"size": p[0], "align": p[1], "sized": True, "offs": [o for o, _ in p[2]] if t[1] != REF else [], "nd": False}


def zerocopy(db, t):
    """has an implementation"""
    if t[0] == "array":
        return zerocopy(db, t[1])
    if t[0] == "adt" and t[1] not in (NZ, "core::option::Option", "core::num::wrapping::Wrapping", "core::marker::PhantomData"):
        return any(adt_is(i["self"], t[1]) for i in db.impl_by_trait.get(ZC, []))
    return True


def size(I, t):
    import mem
    n = mem.size_of(I, t)
    if n is None and t[0] == "adt":
        l = placed(I, t)
        return l[0] if l else None
    return n


REF = Z + "pointer::r#ref::Ref"


def placed(I, t):
    """(size, align, [(offset, field)]) of a `repr(C)` struct the compiler did not lay out for us"""
    fs = I.fields_of(t)
    if not fs:
        return None
    if t[1] == REF and len(t[2]) == 3:
        fs = [t[2][2]] * (2 if t[2][0][0] in ("slice", "str") else 1)
    at = al = 0
    out = []
    for f in fs:
        n, a = size(I, f), align(I, f)
        if n is None:
            return None
        at = -(-at // a) * a
        out.append((at, f))
        at += n
        al = max(al, a)
    return -(-at // al) * al, al, out


def align(I, t):
    l = I.db.layout.get(t)
    if l and "align" in l:
        return l["align"]
    if t[0] == "array":
        return align(I, t[1])
    if t[0] in NUM:
        return BITS[t[1]] // 8 if t[1] in BITS else int(t[1][1:]) // 8
    if t[0] == "adt" and t[1] in (NZ, "core::option::Option", "core::num::wrapping::Wrapping"):
        return align(I, t[2][0])
    if t[0] == "adt" and I.fields_of(t) and size(I, t):
        r = placed(I, t)
        return r[1] if r else 1
    return {"bool": 1, "char": 4}.get(t[0], 1)


def leaves(I, t, off=0):
    """what the bytes of a value are: ("int"|"bool"|"char"|"nz"|"pad", offset,
    size, type) and ("tag", offset, size, type, {discriminant: leaves}), by offset;
    None where the layout is not known"""
    n = size(I, t)
    if n is None:
        return None
    if n == 0:
        return []
    if t[0] in NUM:
        return [("int", off, n, t)]
    if t[0] in ("bool", "char"):
        return [(t[0], off, n, t)]
    if t[0] == "adt" and t[1] == NZ:
        return [("nz", off, n, t[2][0])]
    if t[0] == "adt" and t[1] == "core::option::Option" and t[2][0][:2] == ("adt", NZ):
        return [("int", off, n, t[2][0][2][0])]
    l = I.db.layout.get(t) or {}
    if "tag" in l:
        a = I.db.adts.get(t[1])
        o, k, _, _, direct = l["tag"]
        if not direct or not a or len(l["vars"]) != len(a["variants"]):
            return None
        vs = {}
        for i, (d, offs) in enumerate(l["vars"]):
            fs = I.variant_fields(t, i)
            if len(fs) != len(offs):
                return None
            r = spread(I, [(off + p, f) for p, f in zip(offs, fs)], off + o + k, off + n)
            if r is None:
                return None
            vs[int(d)] = r
        return [("tag", off + o, k, None, vs)]
    if t[0] == "array":
        m = I.const_term(t[2])
        k = size(I, t[1])
        if not isc(m) or m[1] > 64:
            return None
        return spread(I, [(off + i * k, t[1]) for i in range(m[1])], off, off + n)
    fs = I.fields_of(t)
    if fs is not None and (t[1] == REF or not l.get("offs")):
        p = placed(I, t)
        if p is None or p[0] != n:
            return None
        return spread(I, [(off + o, f) for o, f in p[2]], off, off + n)
    if fs is None or len(l.get("offs", ())) != len(fs):
        return None
    return spread(I, [(off + p, f) for p, f in zip(l["offs"], fs)], off, off + n)


def spread(I, fs, at, end):
    out = []
    for o, f in sorted(fs, key=lambda x: x[0]):
        k = size(I, f)
        if k is None:
            return None
        if k == 0:
            continue
        if o > at:
            out.append(("pad", at, o - at, None))
        x = leaves(I, f, o)
        if x is None:
            return None
        out += x
        at = o + k
    if at < end:
        out.append(("pad", at, end - at, None))
    return out


def padded(ls):
    return any(l[0] == "pad" or l[0] == "tag" and any(padded(v) for v in l[4].values()) for l in ls)


def restricted(ls):
    """not all bytes are a value"""
    for l in ls:
        if l[0] in ("bool", "char", "nz"):
            return True
        if l[0] == "tag":
            if len(l[4]) < 1 << 8 * l[2] or any(restricted(v) for v in l[4].values()):
                return True
    return False


# ---- memory
def sym(I, base, off, t):
    return I.settype(("mread", base, off, t), t)


def infeasible(st, eqs):
    lin = st.lin
    for t in eqs:
        lin = lin.with_(t).with_(scale(t, -1))
    if not lin.feasible():
        return True
    return any(lin.eq0(d) for d in lin.dis)


def ints(k):
    n = 8 * k
    r = [("uint", "u%d" % n), ("int", "i%d" % n)]
    return r + ([("uint", "usize"), ("int", "isize")] if k == 8 else [])


def signed(d, t):
    b = BITS[t[1]]
    return d - (1 << b) if t[0] == "int" and d >> (b - 1) else d


def valid(I, st, base, ls):
    """the leaf which this path does not make sure is valid, or None"""
    for l in ls:
        k, o, n, t = l[:4]
        if k == "bool":
            x = sym(I, base, o, U8)
            if not (st.lin.entails(x) and st.lin.entails(sub(ONE, x))):
                return "the bool at %d" % o
        elif k == "nz":
            x = sym(I, base, o, t)
            if not (infeasible(st, [x]) or any(infeasible(st, [sym(I, base, o, u)]) for u in ints(n))):
                return "the non-zero number at %d" % o
        elif k == "char":
            x = sym(I, base, o, ("uint", "u32"))
            if not any(e[0] == "ischar" and e[1] == x for e in st.trace):
                return "the char at %d" % o
        elif k == "tag":
            for u in ints(n):
                x = sym(I, base, o, u)
                d = [v for v in l[4] if st.lin.eq0(sub(x, C(signed(v, u))))]
                if d:
                    break
            else:
                if not all(valid(I, st, base, v) is None for v in l[4].values()) or not tagged(I, st, base, l):
                    return "the discriminant at %d" % o
                continue
            r = valid(I, st, base, l[4][d[0]])
            if r:
                return r
    return None


def tagged(I, st, base, l):
    """one of the discriminants, if not a known one"""
    for u in ints(l[2]):
        x = sym(I, base, l[1], u)
        ds = sorted(signed(v, u) for v in l[4])
        if len(ds) == ds[-1] - ds[0] + 1 and st.lin.entails(sub(x, C(ds[0]))) and st.lin.entails(sub(C(ds[-1]), x)):
            return True
    return False


def invalid(I, st, base, ls):
    """some leaf cannot be valid on this path"""
    for l in ls:
        k, o, n, t = l[:4]
        if k == "bool":
            x = sym(I, base, o, U8)
            if st.lin.entails(sub(x, C(2))):
                return True
        elif k == "nz":
            if any(st.lin.eq0(sym(I, base, o, u)) for u in ints(n)):
                return True
        elif k == "char":
            x = sym(I, base, o, ("uint", "u32"))
            if any(e[0] == "notchar" and e[1] == x for e in st.trace):
                return True
        elif k == "tag":
            for u in ints(n):
                x = sym(I, base, o, u)
                if all(infeasible(st, [sub(x, C(signed(d, u)))]) or st.lin.eq0(sub(x, C(signed(d, u)))) and invalid(I, st, base, v)
                       for d, v in l[4].items()):
                    return True
    return False


def remainders(a, m):
    """what is zero where `a` is a multiple of `m`"""
    k = sub(m, ONE)
    return ("and", a, k), ("and", k, a), ("rem", a, m)


def aligned(I, st, a, n):
    if n == 1:
        return True
    m = n
    while m <= 4096:
        for t in remainders(a, C(m)):
            if st.lin.eq0(t):
                return True
        m *= 2
    return False


def misaligned(I, st, a, n):
    m = n
    while m > 1:
        for t in remainders(a, C(m)):
            if st.lin.entails(sub(t, ONE)) or infeasible(st, [t]):
                return True
        m //= 2
    return False


# ---- interpretation
def reader(base):
    """reads of the memory from `base` on are symbols by offset and type"""
    def read(I, c, st):
        p = c.args[0]
        t = c.targs[-1] if c.targs else None
        pt = c.tys[0]
        if pt and pt[0] in ("ptr", "ref"):
            t = pt[1]
        elif pt and pt[0] == "adt" and pt[1].endswith("NonNull"):
            t = pt[2][0]
        o = sub(I.addr(p), base)
        if not isc(o) or t is None:
            return None
        return reading(I, c, st, o[1], t)

    def reading(I, c, st, o, t):
        st.ev("mread", o, t)
        if t[0] in ("uint", "int"):
            return M.ret(st, sym(I, base, o, t))
        return M.ret(st, I.settype(("mread", base, o, t), t))
    return read


def from_u32(I, c, st):
    a = c.args[0]
    out = []
    s = st.copy()
    s.lin = s.lin.with_(sub(C(0x10FFFF), a))
    if s.lin.feasible():
        s.ev("ischar", a)
        ch = I.settype(("char_of", a), ("char",))
        out.append((s, M.some(ch) if "from_u32" in c.path else M.ok(ch)))
    s = st.copy()
    s.ev("notchar", a)
    out.append((s, M.NONE if "from_u32" in c.path else M.err(("charerr",))))
    return out


def range_next(I, c, st):
    """of a range of numbers"""
    t = c.tys[0][1] if c.tys[0] else None
    if t is None or t[0] != "adt" or t[1] != "core::ops::range::Range":
        return None
    r, p, tys = I.deref(c.args[0], t)
    v = I.load(st, r, p, tys)
    a, b = I.proj(v, ("f", None, 0), t[2][0]), I.proj(v, ("f", None, 1), t[2][0])
    out = []
    s = st.copy()
    s.lin = s.lin.with_(sub(sub(b, a), ONE))
    if s.lin.feasible():
        I.store(s, r, p, tys, ("agg", t[1], 0, (add(a, ONE), b)))
        out.append((s, M.some(a)))
    s = st.copy()
    s.lin = s.lin.with_(sub(a, b))
    if s.lin.feasible():
        out.append((s, M.NONE))
    return out


def from_fn(I, c, st):
    """an array of what a function returns for each index"""
    t = c.rty
    if not t or t[0] != "array":
        return None
    n = I.const_term(t[2])
    if not isc(n) or n[1] > 16:
        return None
    root = ("L", ("fn", c.ctx, len(st.trace)), 0)
    st = st.copy()
    st.mem[root] = c.args[0]
    todo = [(st, ())]
    for i in range(n[1]):
        nxt = []
        for s, vs in todo:
            k = Call()
            for a in Call.__slots__:
                setattr(k, a, getattr(c, a, None))
            k.args = [("ref", root, (), True, ()), ("agg", "tuple", 0, (C(i),))]
            k.tys = [("ref", c.tys[0], True), ("tuple", (USIZE,))]
            k.rty = t[1]
            k.ctx = I.ctx(c.ctx, "elem", i)
            r = I.call_closure(k, s)
            if r is None:
                return None
            nxt += [(s2, vs + (v,)) for s2, v in r]
        todo = nxt
    out = []
    for s, vs in todo:
        s.mem.pop(root, None)
        out.append((s, ("agg", "array", 0, vs)))
    return out


class Separate(Interp):
    """does not join what is known after different branches; reads through
    references to the value are symbols as well"""
    base = None
    derefs = ()

    def deref_init(self, p):
        if self.base is not None and p[0] in ("padd", "sptr", "ref"):
            t = self.ty_of(p)
            o = sub(self.addr(p), self.base)
            if isc(o) and t and t[0] in ("ref", "ptr") and t[1][0] in ("uint", "int"):
                self.derefs.append((o[1], t[1]))
                return sym(self, self.base, o[1], t[1])
        return Interp.deref_init(self, p)

    def merge(self, outs):
        return outs


READS = ("core::ptr::read", "core::ptr::read_unaligned", "core::ptr::const_ptr::<impl *const T>::read", "core::ptr::mut_ptr::<impl *mut T>::read",
         "core::ptr::const_ptr::<impl *const T>::read_unaligned", "core::ptr::mut_ptr::<impl *mut T>::read_unaligned",
         "core::ptr::non_null::NonNull::<T>::read", "core::ptr::non_null::NonNull::<T>::read_unaligned")


def interp(db, base, unroll=70, **kw):
    r = reader(base)
    ms = {n: r for n in READS}
    for n in ("core::char::convert::from_u32", "core::char::methods::<impl char>::from_u32",
              "core::char::convert::<impl core::convert::TryFrom<u32> for char>::try_from",
              "<char as core::convert::TryFrom<u32>>::try_from"):
        ms[n] = from_u32
    ms["core::iter::range::RangeIteratorImpl::spec_next"] = range_next
    import codec as K
    ms["core::iter::traits::collect::IntoIterator::into_iter"] = K.iter_array
    ms["core::iter::traits::iterator::Iterator::next"] = K.iter_next
    ms["core::array::from_fn"] = from_fn
    ms.update(kw.pop("models", {}))
    kw.setdefault("depth", 64)
    I = Separate(db, models=ms, **kw)
    I.unroll = unroll
    I.base = base
    I.derefs = []
    I.rec = 8
    return I


# ---- values
def enum_of(I, t):
    if t[0] != "adt" or t[1] in (NZ, "core::option::Option"):
        return None
    a = I.db.adts.get(t[1])
    return a if a and a["k"] == "enum" else None


def prim(t):
    return t[0] in NUM or t[0] in ("bool", "char") or t[0] == "adt" and t[1] in (NZ, "core::option::Option", "core::marker::PhantomData")


def build(I, t, n=(), pick=0):
    """values of a type which differ in the variants of its enums"""
    if prim(t):
        x = I.settype(("x",) + n, t)
        return [x]
    if t[0] == "array":
        k = I.const_term(t[2])
        return [("agg", "array", 0, fs) for fs in combine([build(I, t[1], n + (i,)) for i in range(k[1])])]
    if t == ("tuple", ()):
        return [M.UNIT if hasattr(M, "UNIT") else UNIT]
    a = enum_of(I, t)
    out = []
    for v in range(len(a["variants"]) if a else 1):
        ft = I.variant_fields(t, v) if a else I.fields_of(t)
        if ft is None:
            return None
        fs = [build(I, f, n + (v, i)) for i, f in enumerate(ft)]
        if any(f is None for f in fs):
            return None
        out += [("agg", t[1], v, f) for f in combine(fs)]
    return out


def combine(fs):
    """at least each of the values of each field"""
    m = max([len(f) for f in fs] + [1])
    return [tuple(f[i % len(f)] for f in fs) for i in range(m)]


SELF = (REF, Z + "endian::endian::Endian")


def bswap(x, n):
    return x if n <= 8 else ("bswap", x, n)


def swapped(I, t, x):
    """the value the bytes of whose numbers are reversed, or None"""
    if t[0] in ("uint", "int"):
        return bswap(x, BITS[t[1]])
    if t[0] == "float":
        return ("frombits", ("bswap", ("tobits", x), int(t[1][1:])))
    if t[0] in ("bool", "char") or t == ("tuple", ()) or t[0] == "adt" and t[1] in SELF + ("core::marker::PhantomData",):
        return x
    if t[0] == "adt" and t[1] == NZ:
        n = BITS[t[2][0][1]]
        return x if n <= 8 else ("nz", bswap(("nzget", x), n))
    if t[0] == "adt" and t[1] == "core::option::Option":
        u = t[2][0][2][0]
        n = BITS[u[1]]
        y = ("transmute", bswap(("transmute", x, u), n), t)
        return y if n > 8 else x
    if t[0] == "array":
        es = [swapped(I, t[1], e) for e in x[3]]
        return None if any(e is None for e in es) else ("agg", "array", 0, tuple(es))
    a = enum_of(I, t)
    v = x[2]
    w = v
    if a:
        l = I.db.layout.get(t)
        if not l or "tag" not in l:
            return None
        n = l["tag"][1]
        ds = [int(d) for d, _ in l["vars"]]
        r = int.from_bytes(ds[v].to_bytes(n, "little"), "big")
        if r not in ds:
            return None
        w = ds.index(r)
    ft = I.variant_fields(t, v) if a else I.fields_of(t)
    fs = [swapped(I, f, e) for f, e in zip(ft, x[3])]
    if any(f is None for f in fs):
        return None
    return ("agg", t[1], w, tuple(fs))


def same(I, t, a, b):
    """two forms of a value"""
    if a == b:
        return True
    if t[0] == "adt" and t[1] == "core::option::Option" or t[0] == "adt" and t[1] == NZ or t[0] in NUM:
        return plain(a) == plain(b)
    if a[0] == "agg" and b[0] == "agg" and a[1:3] == b[1:3] and len(a[3]) == len(b[3]):
        if t[0] == "array":
            return all(same(I, t[1], p, q) for p, q in zip(a[3], b[3]))
        ft = I.variant_fields(t, a[2]) if enum_of(I, t) else I.fields_of(t)
        return all(same(I, f, p, q) for f, p, q in zip(ft, a[3], b[3]))
    return False


def plain(x):
    """without what only changes how the bits are looked at"""
    if isinstance(x, tuple) and x:
        if x[0] in ("transmute", "nz", "nzget", "tobits", "frombits"):
            return plain(x[1])
        if x[0] == "bswap":
            y = plain(x[1])
            return y[1] if y[0] == "bswap" and y[2] == x[2] else ("bswap", y, x[2])
    return x
