"""The bytes of a value in memory, by its layout."""
from absint import *
import models as M

NONZERO = "core::num::nonzero::NonZero"
U8 = ("uint", "u8")


def size_of(I, t):
    l = I.db.layout.get(t)
    if l and "size" in l:
        return l["size"]
    if t[0] in ("uint", "int", "float"):
        return BITS[t[1]] // 8 if t[1] in BITS else int(t[1][1:]) // 8
    if t[0] == "bool":
        return 1
    if t[0] == "char":
        return 4
    if t[0] == "array":
        n, k = I.const_term(t[2]), size_of(I, t[1])
        if isc(n) and k is not None:
            return n[1] * k
    if t == ("tuple", ()) or t[0] == "adt" and t[1].endswith("PhantomData"):
        return 0
    return None


def parts_of(I, t):
    """[(offset, step, type)] of the fields of a struct-like type in memory
    order, or None"""
    if t[0] == "array":
        n, k = I.const_term(t[2]), size_of(I, t[1])
        if not isc(n) or k is None or n[1] > 4096:
            return None
        return [(i * k, ("i", C(i)), t[1]) for i in range(n[1])]
    fs = I.fields_of(t)
    l = I.db.layout.get(t)
    if fs is None or not l:
        return None
    if not fs:
        return []
    if "offs" not in l or len(l["offs"]) != len(fs):
        return None
    return sorted(((o, ("f", None, i), ft) for (i, ft), o in zip(enumerate(fs), l["offs"])), key=lambda x: x[0])


def plain(t):
    """any bytes are a value of it"""
    return t[0] in ("uint", "int", "float") or t[0] == "array" and plain(t[1])


def flatten(I, st, v, t):
    """tape items of the bytes of v: t; None where that is not followed"""
    n = size_of(I, t)
    if n is None:
        return None
    if t[0] == "bool":
        return [("bool", v)]
    if t in (U8, ("int", "i8")):
        return [("byte", v)]
    if t[0] in ("uint", "int", "float", "char"):
        if v[0] == "char_of":
            v = v[1]
        return [("chunk", ("tobytes", v, n, "little"), C(n))]
    if t[0] == "adt" and t[1] == NONZERO:
        # the integer it holds
        if v[0] == "nz":
            g = v[1]
        else:
            g = I.settype(("nzget", v), t[2][0])
            if t[2][0][0] == "uint":
                st.lin = st.lin.with_(sub(g, ONE))
            else:
                st.lin = st.lin.with_ne(g)
        return flatten(I, st, g, t[2][0])
    if t[0] == "array" and plain(t) and n > 512:
        # too many to take one by one
        return [("chunk", ("memof", v, t), C(n))]
    ps = parts_of(I, t)
    if ps is None:
        return None
    out, at = [], 0
    for o, step, ft in ps:
        k = size_of(I, ft)
        if k is None:
            return None
        if k == 0:
            continue
        if o > at:
            out.append(("pad", o - at))
        x = flatten(I, st, I.proj(v, step, ft), ft)
        if x is None:
            return None
        out += x
        at = o + k
    if at < n:
        out.append(("pad", n - at))
    return out


def assemble(I, st, items, t, explode):
    """(value of type t, the items after it); None where that is not followed,
    a string where there is no such value"""
    n = size_of(I, t)
    if n is None:
        return None
    if n == 0 and t[0] != "adt":
        return (UNIT if t == ("tuple", ()) else I.fresh(("zst", t), t)), items
    if t[0] == "adt" and t[1] == NONZERO:
        r = assemble(I, st, items, t[2][0], explode)
        if r is None or isinstance(r, str):
            return r
        if r[0][0] == "nzget":
            return (r[0][1], r[1])
        return (("nz", r[0]), r[1]) if isc(r[0]) and r[0][1] else "bytes which need not be a NonZero"
    if t[0] == "array" and plain(t) and n > 512:
        if items and items[0][0] == "chunk" and items[0][1][0] == "memof" and items[0][1][2] == t:
            return items[0][1][1], items[1:]
        return None
    if t[0] in ("uint", "int", "float", "char", "bool"):
        if items and items[0][0] == "chunk" and items[0][2] == C(n) and items[0][1][0] == "tobytes" and items[0][1][3] == "little":
            v = items[0][1][1]
            if t[0] == "char" and not (I.ty_of(v) or ("",))[0] == "char":
                return "bytes which need not be a char"
            return v, items[1:]
        bs = []
        for _ in range(n):
            if not items:
                return "past what was written"
            items = explode(I, st, items)
            if items[0][0] != "byte":
                return "%s is read as memory" % items[0][0]
            bs.append(items[0][1])
            items = items[1:]
        if t[0] == "bool":
            b = bs[0]
            if isc(b) and b[1] in (0, 1) or (I.ty_of(b) or ("",))[0] == "bool":
                return b, items
            return "a byte which need not be a bool"
        if t[0] == "char":
            return "bytes which need not be a char"
        if n == 1:
            return bs[0], items
        if all(isc(b) for b in bs):
            return C(sum(b[1] << 8 * i for i, b in enumerate(bs))), items
        if all(b[0] == "byteof" and b[1] == bs[0][1] and b[2] == i for i, b in enumerate(bs)):
            return bs[0][1], items
        return I.fresh(("membytes",) + tuple(bs), t), items
    ps = parts_of(I, t)
    if ps is None:
        return None
    fs, at = {}, 0
    for o, step, ft in ps:
        k = size_of(I, ft)
        if k is None:
            return None
        if k == 0:
            fs[step] = UNIT if ft == ("tuple", ()) else I.fresh(("zst", ft), ft)
            continue
        if o > at:
            r = take_pad(items, o - at)
            if r is None:
                return "padding is read where something else was written"
            items = r
        r = assemble(I, st, items, ft, explode)
        if r is None or isinstance(r, str):
            return r
        fs[step], items = r
        at = o + k
    if at < n:
        items = take_pad(items, n - at)
        if items is None:
            return "padding is read where something else was written"
    if t[0] == "array":
        return ("agg", "array", 0, tuple(fs[("i", C(i))] for i in range(len(fs)))), items
    name = "tuple" if t[0] == "tuple" else t[1]
    return ("agg", name, 0, tuple(fs[("f", None, i)] for i in range(len(fs)))), items


def take_pad(items, n):
    if items and items[0] == ("pad", n):
        return items[1:]
    return None


def pointee(I, st, p):
    """(value, type) behind a thin pointer to something sized"""
    if p[0] != "ref":
        t = I.mem_types.get(p) or (I.ty_of(p) or (None, None))[1]
        if t is None or p[0] in ("unsz", "raw", "padd"):
            return None
        r, path, tys = I.deref(p, t)
        return I.load(st, r, path, tys), t
    t = p[4][-1] if len(p) > 4 and p[4] else None
    if t is None and not p[2]:
        t = I.root_types.get(p[1])
    if t is None:
        t = I.mem_types.get(p)
    v = I.load(st, p[1], p[2])
    if t is None:
        t = I.ty_of(v)
    return (v, t) if t is not None else None


def items_of(I, st, s, n):
    """the tape items of a byte slice which is a view of typed memory"""
    if not isc(n):
        return None
    p = s[1] if s[0] == "raw" else s
    if p[0] == "sptr":
        p = p[1]
    if p[0] == "unsz":
        t = I.ty_of(p)
        et = t[1][1] if t and t[0] == "ref" and t[1][0] == "slice" else None
        if et is None or et == U8 or not isc(p[2]):
            return None
        if p[1][0] != "ref":
            return None
        k = size_of(I, et)
        if k is None or k * p[2][1] != n[1]:
            return None
        a = I.load(st, p[1][1], p[1][2])
        out = []
        for i in range(p[2][1]):
            x = flatten(I, st, I.proj(a, ("i", C(i)), et), et)
            if x is None:
                return None
            out += x
        return out
    if s[0] == "raw":
        vt = pointee(I, st, p)
        if vt is None or size_of(I, vt[1]) != n[1]:
            return None
        return flatten(I, st, vt[0], vt[1])
    return None


def as_mut_ptr(I, c, st):
    """MaybeUninit::as_mut_ptr: the place, with the type it has"""
    if c.rty and c.rty[0] == "ptr":
        I.mem_types[c.args[0]] = c.rty[1]
    return M.ret(st, c.args[0])
