"""Encode, then decode: the abstract effect of an encoder (the tape) is the
input of the abstract interpretation of the decoder."""
import hashlib

from absint import *
import models as M
import tape as T
import bits as BT

CONTEXT = "musli_core::context::Context"
U8 = ("uint", "u8")
USIZE = ("uint", "usize")
BYTES = ("slice", U8)


def mode(n):
    return ("adt", "musli_core::mode::" + n, ())


def adt(n, *a):
    return ("adt", n, tuple(a))


# ---------------------------------------------------------------- invoking
def invoke(I, c, st, trait, name, args, argtys, gens, rty, tag):
    """Call a trait method from within a model."""
    d = I.db.traits[trait][name]
    n = Call()
    n.args, n.tys, n.frame, n.block, n.site = list(args), list(argtys), c.frame, c.block, c.site
    n.ctx = I.ctx(c.ctx, tag)
    n.rty = rty
    I.resolve_into(n, {"d": trait + "::" + name, "h": d["h"], "a": tuple(gens), "tr": trait, "n": name}, c.frame, True)
    return I.call(n, st)


UV = "musli_core::de::unsized_visitor::UnsizedVisitor"


def read_bytes(I, c, st):
    """Reader::read_bytes::<C, V>(reader, cx, n, visitor)"""
    items = T.items_for(I, c, st)
    n = c.args[2]
    if not items or items[0][0] == "end":
        if st.lin.eq0(n):
            s = ("unsz", ("ref", ("K", ("agg", "array", 0, ())), (), False, ()), C(0))
            return visit(I, c, st, s)
        return T.short(I, c, st, items, "bytes are read where %s was written")
    it = items[0]
    if it[0] == "chunk" and it[1][0] == "copyof":
        if n == it[2] or st.lin.eq0(sub(n, it[2])):
            T.put(st, items[1:], T.root(I, c, st))
            return visit(I, c, st, it[1][1])
        if not isc(n):
            if len(items) > 1 and items[1][0] == "chunk":
                return None
            return T.read_err(I, c, st, "a different number of bytes is read than was written")
        if not isc(it[2]):
            return T.read_err(I, c, st, "a different number of bytes is read than was written")
    if isc(n):
        out = []
        for _ in range(n[1]):
            if items:
                items = T.explode(I, st, items)
                if items[0][0] != "byte":
                    items = T.known(st, items)
            if not items or items[0][0] != "byte":
                return T.short(I, c, st, items, "bytes are read where %s was written")
            out.append(items[0][1])
            items = items[1:]
        T.put(st, items, T.root(I, c, st))
        root = ("L", ("tmpbytes", c.ctx, len(st.trace)), 0)
        st.mem[root] = ("agg", "array", 0, tuple(out))
        return visit(I, c, st, ("unsz", ("ref", root, (), False, ()), C(n[1])))
    if it[0] == "chunk":
        return None
    return T.read_err(I, c, st, "bytes are read where %s was written" % it[0])


def visit(I, c, st, s):
    cx, vis = c.args[1], c.args[3]
    vt = c.tys[3]
    return invoke(I, c, st, UV, "visit_borrowed" if I.borrowed else "visit_ref", [vis, cx, s],
                  [vt, c.tys[1], ("ref", BYTES, False)], [vt, c.tys[1], BYTES], c.rty, "visit")


def from_utf8(I, c, st):
    """what was a string is one again"""
    s = c.args[0]
    t = I.ty_of(s)
    if t and t[0] == "ref" and t[1] == ("str",):
        return M.ret(st, M.ok(s))
    return None


def to_owned(I, c, st):
    return M.ret(st, ("agg", "owned", 0, (c.args[0],)))


def owned_view(I, c, st):
    s = c.args[0]
    v = s
    if s[0] == "ref":
        v = I.load(st, s[1], s[2])
    elif ("D", s) in st.mem:
        v = st.mem[("D", s)]
    if v[0] == "agg" and v[1] == "owned":
        return M.ret(st, v[3][0])
    return None


def settable(I, st, r):
    """the abstract list behind a reference, or None"""
    v = None
    if r[0] == "ref":
        v = I.load(st, r[1], r[2])
    elif ("D", r) in st.mem:
        v = st.mem[("D", r)]
    if v is not None and v[0] == "agg" and v[1] == "array":
        return v
    return None


def setlist(I, st, r, v):
    if r[0] == "ref":
        I.store(st, r[1], r[2], r[4] if len(r) > 4 else None, v)
    else:
        st.mem[("D", r)] = v


def lst(*xs):
    return ("agg", "array", 0, tuple(xs))


def l_new(I, c, st):
    return M.ret(st, lst())


def l_push(I, c, st):
    v = settable(I, st, c.args[0])
    if v is None:
        return None
    setlist(I, st, c.args[0], lst(*(v[3] + (c.args[1],))))
    return M.ret(st, UNIT)


def l_insert2(I, c, st):
    v = settable(I, st, c.args[0])
    if v is None:
        return None
    setlist(I, st, c.args[0], lst(*(v[3] + (("agg", "tuple", 0, (c.args[1], c.args[2])),))))
    return M.ret(st, M.NONE)


def l_insert1(I, c, st):
    l_push(I, c, st)
    return M.ret(st, C(1))


def l_noop(I, c, st):
    return M.ret(st, UNIT)


def l_len(I, c, st):
    v = settable(I, st, c.args[0])
    if v is None:
        return None
    return M.ret(st, C(len(v[3])))


def l_slice(I, c, st):
    v = settable(I, st, c.args[0])
    if v is None:
        return None
    r = c.args[0]
    if r[0] != "ref":
        r = ("ref", ("D", r), (), False, ())
    return M.ret(st, ("unsz", r, C(len(v[3]))))


# ---- iteration over what is known to be a list
def elems(I, st, s, t=None):
    """references to the elements of a slice of known length"""
    t = t or I.ty_of(s)
    inner = t[1] if t and t[0] == "ref" else None
    et = inner[1] if inner and inner[0] in ("slice", "array") else None
    r, n = s, None
    if s[0] == "unsz":
        r, n = s[1], s[2]
    else:
        v = settable(I, st, s)
        if v is not None:
            n = C(len(v[3]))
        elif inner and inner[0] == "array":
            n = I.const_term(inner[2])
        else:
            n = I.slen(s)
    if not isc(n) or n[1] > 64:
        return None
    root, path, tys = I.deref(r, inner)
    out = []
    for i in range(n[1]):
        e = ("ref", root, path + (("i", C(i)),), False)
        e += ((tys or ()) + (et,),) if et is not None and len(tys or ()) == len(path) else ()
        if et is not None:
            I.term_types.setdefault(e, ("ref", et, False))
        out.append(e)
    return tuple(out)


def iter_slice(I, c, st):
    es = elems(I, st, c.args[0], c.tys[0])
    if es is None:
        return None
    return M.ret(st, ("agg", "listiter", 0, (("agg", "rest", 0, es),)))


def iter_pairs(I, c, st):
    """the entries of a map, by reference"""
    es = elems(I, st, c.args[0], c.tys[0])
    if es is None:
        return None
    prs = tuple(("agg", "tuple", 0, tuple(("ref", e[1], e[2] + (("f", None, k),), False) for k in (0, 1))) for e in es)
    return M.ret(st, ("agg", "listiter", 0, (("agg", "rest", 0, prs),)))


def iter_array(I, c, st):
    v = c.args[0]
    if v[0] != "agg" or v[1] != "array":
        return None
    return M.ret(st, ("agg", "listiter", 0, (("agg", "rest", 0, v[3]),)))


def iter_next(I, c, st):
    r = c.args[0]
    if r[0] == "ref":
        v = I.load(st, r[1], r[2])
    else:
        v = st.mem.get(("D", r))
    if v is None or v[0] != "agg" or v[1] != "listiter":
        return None
    es = v[3][0][3]
    if not es:
        return M.ret(st, M.NONE)
    setlist(I, st, r, ("agg", "listiter", 0, (("agg", "rest", 0, es[1:]),)))
    return M.ret(st, M.some(es[0]))


def iter_len(I, c, st):
    r = c.args[0]
    v = I.load(st, r[1], r[2]) if r[0] == "ref" else st.mem.get(("D", r))
    if v is None or v[0] != "agg" or v[1] != "listiter":
        return None
    return M.ret(st, C(len(v[3][0][3])))


def identity(I, c, st):
    return M.ret(st, c.args[0])


def iter_any(I, c, st):
    """into_iter, by what is iterated over"""
    a = c.args[0]
    if a[0] == "agg":
        if a[1] == "array":
            return iter_array(I, c, st)
        return identity(I, c, st)
    t = c.tys[0]
    if not t or t[0] != "ref":
        return None
    t = t[1]
    if t[0] == "adt" and "Map" in t[1]:
        return iter_pairs(I, c, st)
    if t[0] in ("array", "slice") or t[0] == "adt" and settable(I, st, a) is not None:
        return iter_slice(I, c, st)
    return None


def as_ref(I, c, st):
    """a view of a list as a slice"""
    a, t = c.args[0], c.tys[0]
    n = 0
    while t and t[0] == "ref" and t[1][0] == "ref":
        # & & [T]
        if a[0] == "ref":
            a = I.load(st, a[1], a[2])
        elif ("D", a) in st.mem:
            a = st.mem[("D", a)]
        else:
            a = ("deref", a)
        t = t[1]
    if a[0] == "unsz":
        return M.ret(st, a)
    if not t or t[0] != "ref":
        return None
    if t[1][0] == "slice":
        return M.ret(st, a)
    v = settable(I, st, a)
    if v is not None:
        k = len(v[3])
    elif t[1][0] == "array":
        k = I.const_term(t[1][2])
        if not isc(k):
            return None
        k = k[1]
    else:
        return None
    if a[0] != "ref":
        a = ("ref", ("D", a), (), False, ())
        I.root_types.setdefault(a[1], t[1])
    r = ("unsz", a, C(k))
    et = t[1][1] if t[1][0] == "array" else t[1][2][0] if t[1][0] == "adt" and t[1][2] else None
    if et:
        I.term_types.setdefault(r, ("ref", ("slice", et), False))
    return M.ret(st, r)


def ip_from(I, c, st):
    if c.targs and c.targs[0][0] == "adt" and c.targs[0][1] in ("core::net::ip_addr::Ipv4Addr", "core::net::ip_addr::Ipv6Addr"):
        return M.ret(st, ("agg", c.targs[0][1], 0, (c.args[0],)))
    return None


def default(I, c, st):
    t = c.rty
    if t[0] in ("uint", "int", "float", "bool", "char"):
        return M.ret(st, C(0))
    if t[0] == "adt" and t[1] == OPTION:
        return M.ret(st, M.NONE)
    return None


def type_id(I, c, st):
    """a number which no other type has"""
    t = c.targs[0] if c.targs else None
    if t is None or t[0] != "adt" or t[2]:
        return None
    return M.ret(st, C(int.from_bytes(hashlib.sha256(t[1].encode()).digest()[:15], "big")))


STDVEC = "alloc::vec::Vec::<T>::"
STDVECA = "alloc::vec::Vec::<T, A>::"
CODEC = dict(T.INTS)
CODEC.update({
    "core::any::TypeId::of": type_id,
    T.R + "read_bytes": read_bytes,
    "core::str::converts::from_utf8": from_utf8,
    "musli::str::from_utf8": from_utf8,
    "alloc::borrow::ToOwned::to_owned": to_owned,
    "alloc::str::<impl alloc::borrow::ToOwned for str>::to_owned": to_owned,
    "alloc::slice::<impl alloc::borrow::ToOwned for [T]>::to_owned": to_owned,
    "alloc::string::String::as_str": owned_view,
    "<alloc::string::String as core::ops::deref::Deref>::deref": owned_view,
    STDVEC + "new": l_new,
    STDVEC + "with_capacity": l_new,
    STDVECA + "push": l_push,
    STDVECA + "reserve": l_noop,
    STDVECA + "len": l_len,
    STDVECA + "as_slice": l_slice,
    "<alloc::vec::Vec<T, A> as core::ops::deref::Deref>::deref": l_slice,
    "core::slice::<impl [T]>::iter": iter_slice,
    "core::convert::AsRef::as_ref": as_ref,
    "core::iter::traits::collect::IntoIterator::into_iter": iter_any,
    "core::iter::traits::iterator::Iterator::next": iter_next,
    "core::iter::traits::exact_size::ExactSizeIterator::len": iter_len,
    "core::convert::From::from": ip_from,
    "core::default::Default::default": default,
})


CODEC.update(l_insert1=l_insert1, l_insert2=l_insert2, l_push=l_push)
import stdlib
CODEC.update(stdlib.models(CODEC))


def interp(db, json=False, buffers=False, **kw):
    """`buffers`: the containers of musli_core::alloc are the things they
    contain, where formats which buffer what they write in one must not be"""
    ms = dict(CODEC, **kw)
    if json or buffers:
        import corealloc
        ms.update(corealloc.models(CODEC))
    if json:
        import jsontape
        ms.update(jsontape.MODELS)
    I = Interp(db, opaque=lambda c: c.tr == CONTEXT, models=ms, depth=60)
    if json:
        I.defaults = ("musli::json::parser::parser::Parser",)
    I.use_bits = True
    I.unroll = 40
    I.rec = 4
    I.borrowed = True
    return I


# ---------------------------------------------------------------- comparing
def same(I, s, v, x, ty):
    """v, which was decoded, is x, which was encoded"""
    if v == x:
        return True
    if v[0] == "nz" and ty and ty[0] == "adt" and ty[2]:
        t = ty[2][0]
        y = I.settype(("nzget", x), t)
        if t[0] == "int":
            v = ("nz", ("smod2", trange(t)[1].bit_length() + 1, v[1]))
        return same(I, s, v[1], y, t)
    if v[0] == x[0] == "agg" and v[1] == x[1] == "boxed":
        return same(I, s, v[3][0], x[3][0], ty[2][0] if ty and ty[0] == "adt" else None)
    if v[0] == x[0] == "agg" and v[1] == x[1] == "deque":
        v, x = (("agg", "array", 0, d[3][0][3] + d[3][1][3]) for d in (v, x))
    v, ty1 = v, ty
    if v[0] == "agg" and v[1] == "array" and ty and ty[0] == "adt" and ty[1] == "alloc::vec::Vec" and v[3] and all(
            e[0] == "byteat" and e[1] == v[3][0][1] and e[2] == i for i, e in enumerate(v[3])) and len(v[3]) == 2:
        v = ("agg", "owned", 0, (v[3][0][1],))
    if v[0] == "agg" and v[1] == "array" and not v[3] and ty and ty[0] == "adt" and ty[1] == "alloc::vec::Vec" and x[0] != "agg":
        return s.lin.eq0(("fld", x, None, 1))
    if v[0] == "agg" and v[1] == "owned" and v[3][0][0] == "raw" and ty and ty[0] == "adt" and ty[1] == "alloc::vec::Vec":
        # a copy of the contents of a vector
        p, n = v[3][0][1], v[3][0][2]
        while p[0] == "fld" and p != x:
            p = p[1]
        return p == x and n == ("fld", x, None, 1)
    if v[0] == "agg" and v[1] == "owned":
        v = v[3][0]
        if x[0] == "agg" and x[1] == "owned":
            x = x[3][0]
        return v == x
    if v[0] == "agg" and v[1] == "array" and x[0] == "agg" and x[1] == "array":
        et = ty[1] if ty and ty[0] in ("array", "slice") else (ty[2][0] if ty and ty[0] == "adt" and ty[2] else None)
        if ty and ty[0] == "adt" and "Map" in ty[1]:
            et = ("tuple", (ty[2][0], ty[2][1]))
        return len(v[3]) == len(x[3]) and all(same(I, s, p, q, et) for p, q in zip(v[3], x[3]))
    if ty is None:
        return False
    if ty[0] == "ref":
        return content(I, s, v) == content(I, s, x)
    if ty[0] == "array" and v[0] == "agg":
        n = len(v[3])
        return all(same(I, s, v[3][i], I.proj(x, ("i", C(i)), ty[1]), ty[1]) for i in range(n))
    fs = I.fields_of(ty)
    if fs is not None:
        return all(same(I, s, I.proj(v, ("f", None, i), t), I.proj(x, ("f", None, i), t), t) for i, t in enumerate(fs))
    if ty[0] == "adt" and I.db.adts.get(ty[1], {}).get("k") == "enum":
        for s1, i, f1 in I.split(s, v, ty):
            for s2, j, f2 in I.split(s1, x, ty):
                if i != j:
                    return False
                ts = I.variant_fields(ty, i)
                if not all(same(I, s2, p, q, t) for p, q, t in zip(f1, f2, ts)):
                    return False
        return True
    if ty[0] == "bool":
        a, b = I.decide(s, v), I.decide(s, x)
        return a is not None and a == b
    if ty[0] == "char" and v[0] == "char_of":
        v = v[1]
    if ty[0] in ("int", "uint", "char", "float"):
        if s.lin.eq0(sub(v, x)):
            return True
        B = BT.of_state(s)
        return B.of(v, 136) == B.of(x, 136)
    return False


def content(I, s, v):
    return v


def events(st, n0):
    """opaque calls in a trace which are not calls of the context"""
    out = []
    for e in st.trace[n0:]:
        if e[0] == "call" and e[1].rpartition("::")[0] != CONTEXT:
            out.append(e[1])
    return out


def is_ok(v):
    return v[0] == "agg" and v[1] == RESULT and v[2] == 0


class Fmt:
    def __init__(self, db, name, opt=None, m="Binary"):
        self.name, self.m, self.opt = name, m, opt
        if name == "json":
            p = "musli::json::encoding::Encoding::<M>::"
        else:
            p = "musli::%s::encoding::Encoding::<OPT, M>::" % name
        self.enc, self.dec = db.find(p + "encode_with"), db.find(p + "decode_with")
        self.sub = {"M": mode(m)}
        if opt is not None:
            self.sub["OPT"] = ("ci", opt)

    def label(self):
        return self.name


def value(I, st, ty, name):
    """An unknown value of a type, behind a reference."""
    x = I.fresh(("arg", "x", name), ("ref", ty, False))
    xv = I.settype(("deref", x), ty)
    return x, xv


def encode(I, f, st, x, ty):
    return I.run(f.enc, [None, None, None, x], st, dict(f.sub, T=ty))


def decode(I, f, st, ty):
    return I.run(f.dec, None, st, dict(f.sub, T=ty))
