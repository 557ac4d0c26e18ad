from absint import *
import db as D
import models as M

U8 = ("uint", "u8")
USIZE = ("uint", "usize")
PTRU8 = ("ptr", U8, False)


def loc(f):
    return "%s:%d" % (f.span[0].replace("/repo/", ""), f.span[1])


def short(path):
    """a stable, line-free name of a function"""
    return path.replace("musli_core::", "").replace("musli_zerocopy::", "zerocopy::").replace("musli::", "")


def is_res(v, k):
    return v[0] == "agg" and v[1] == RESULT and v[2] == k


def outcomes(I, outs, ty):
    """Partition a result: [(state, variant, fields)]"""
    res = []
    for s, v in outs:
        for s2, i, fs in I.split(s, v, ty):
            res.append((s2, i, fs))
    return res


def view_slice(I, s):
    """(start pointer, length) of a byte slice"""
    return M.sptr(s), I.slen(s)


def peq(I, st, a, b):
    """pointer equality"""
    if a == b:
        return True
    return st.lin.eq0(sub(I.addr(a), I.addr(b)))


def ieq(st, a, b):
    return a == b or st.lin.eq0(sub(a, b))


def sl_eq(I, st, s, ptr, n):
    p, l = view_slice(I, s)
    return peq(I, st, p, ptr) and ieq(st, l, n)


def byte_ptr(I, v):
    """the address a loaded byte came from, or None"""
    if v[0] == "idx":
        b = v[1]
        if b[0] == "deref":
            p = M.sptr(b[1])
            return I.padd(p, v[2]) if p[0] != "padd" else ("padd", p[1], add(p[2], v[2]))
    if v[0] == "deref":
        return v[1]
    return None


def evs(st, name):
    return [e for e in st.trace if e[0] == "call" and e[1].rpartition("::")[2] == name]


def impl_of(db, trait, pred):
    return [i for i in db.impl_by_trait.get(trait, []) if pred(i["self"])]


def adt_is(t, name):
    return t[0] == "adt" and t[1] == name


def method_of(I, imp, trait, name):
    """(Fn, substitution) of a trait method for an impl: own or default"""
    db = I.db
    it = imp["items"].get(name)
    if it:
        return db.get(it["h"]), {}
    d = db.traits[trait].get(name)
    if not d:
        return None, None
    f = db.get(d["h"])
    if f is None:
        return None, None
    # Self and the trait's own parameters
    return f, dict(zip(f.gens, imp["ta"]))


def arg(f, i, sub_=None):
    return ("arg", f.name or f.d, i)


def inherent(db, adt):
    """the inherent functions of a type, decoded"""
    for f in list(db.fns.values()):
        if f.d.startswith(adt + "::<") and f.kind != "closure":
            g = db.get(f.h)
            if g is not None and g.blocks is not None:
                yield g


def tyname(t):
    if t[0] == "ref":
        return "&%s%s" % ("mut " if t[2] else "", tyname(t[1]))
    if t[0] == "slice":
        return "[%s]" % tyname(t[1])
    if t[0] in ("uint", "int", "float", "param"):
        return t[1]
    if t[0] == "tuple":
        return "(%s)" % ",".join(tyname(x) for x in t[1])
    if t[0] == "array":
        return "[%s;%s]" % (tyname(t[1]), t[2][1])
    if t[0] == "adt":
        n = t[1].rpartition("::")[2]
        a = [x for x in t[2] if isinstance(x, tuple) and x]
        return n if not a else "%s<%s>" % (n, ",".join(tyname(x) for x in a))
    return str(t[0])
