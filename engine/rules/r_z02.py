"""Z02: what a zero-copy type says of itself, its padding and its byte order."""
import zc
from common import *
import r_z01 as Z1

LEVEL = "proof"
EXPLANATION = (
    "The constants, the initialisation of padding and the byte swapping of every zero-copy type of the witness crate are "
    "interpreted abstractly and compared with the layout the compiler has computed: a type with a byte which is not any "
    "byte does not allow any bits, a type with padding says so and all of its padding, and nothing else, is zeroed for "
    "every variant, and swapping bytes reverses every number of a type which can be swapped and leaves it as it is for "
    "the native order.")

BIG = ("adt", zc.Z + "endian::Big", ())
LITTLE = ("adt", zc.Z + "endian::Little", ())


def const(I, t, name):
    """value of an associated constant"""
    r = I.find_impl(zc.ZC, (t,))
    if not r:
        return None
    imp, m = r
    it = imp["items"].get(name)
    f = I.db.get(it["h"]) if it and it.get("h") else None
    if f is None:
        return None
    vs = {v for s, v in I.run(f, [], State(), dict(m))}
    v = vs.pop() if len(vs) == 1 else None
    return bool(v[1]) if v is not None and isc(v) else None


def tags(ls):
    for l in ls:
        if l[0] == "tag":
            yield l
            for v in l[4].values():
                yield from tags(v)


def consts(rep, name, t):
    db = rep.db
    I = zc.interp(db, ("none",))
    ls = zc.leaves(I, t)
    if ls is None:
        rep.undecided("analysis", name, "layout of %s" % name)
        return
    any_, pad, swap = (const(I, t, c) for c in ("ANY_BITS", "PADDED", "CAN_SWAP_BYTES"))
    if None in (any_, pad, swap):
        rep.undecided("analysis", name, "constants of %s" % name)
    if any_ is not None:
        rep.ob("any bits", not (any_ and zc.restricted(ls)), name, "%s allows any bits, but not all of them are a value" % name)
    if pad is not None:
        rep.ob("padded", pad or not zc.padded(ls), name, "%s has padding, but does not say so" % name)
    if swap is not None:
        ok = not any(l[0] == "char" for l in flat(ls))
        for l in tags(ls):
            n = l[2]
            ok = ok and {int.from_bytes(d.to_bytes(n, "little"), "big") for d in l[4]} == set(l[4])
        rep.ob("swappable", ok or not swap or whole(I, t), name, "%s can be byte swapped, but not all of its values are values when they are" % name)
    rep.analysed(I)


def whole(I, t):
    """not swapped, by definition"""
    return t[0] == "adt" and t[1] in zc.SELF


def flat(ls):
    for l in ls:
        yield l
        if l[0] == "tag":
            for v in l[4].values():
                yield from flat(v)


def variants(I, s, base, ls):
    """padding which is there on this path: a set of bytes, or None"""
    out = set()
    for l in ls:
        if l[0] == "pad":
            out |= set(range(l[1], l[1] + l[2]))
        elif l[0] == "tag":
            d = []
            for u in zc.ints(l[2]):
                x = zc.sym(I, base, l[1], u)
                d = [v for v in l[4] if s.lin.eq0(sub(x, C(zc.signed(v, u))))]
                if d:
                    break
            if d:
                p = variants(I, s, base, l[4][d[0]])
                if p is None:
                    return None
                out |= p
                continue
            ps = [variants(I, s, base, v) for v in l[4].values()]
            if None not in ps and all(p == ps[0] for p in ps):
                out |= ps[0]
                continue
            # one of these, where it is a value at all
            return "any" if not possible(I, s, base, l) else None
    return out


def possible(I, s, base, l):
    for u in zc.ints(l[2]):
        x = zc.sym(I, base, l[1], u)
        if all(zc.infeasible(s, [sub(x, C(zc.signed(v, u)))]) for v in l[4]):
            return False
    return True


def padding(rep, name, t):
    db = rep.db
    SELFP = ("arg", "self", 0)
    base = Interp(db).addr(SELFP)
    I = zc.interp(db, base)
    ls = zc.leaves(I, t)
    if ls is None:
        return
    f = Z1.fn(db, zc.ZC + "::initialize_padding")
    if not rep.ob("anchor", f is not None, name, "no ZeroCopy::initialize_padding"):
        return
    I.settype(SELFP, ("ref", t, True))
    who = "initialize_padding of %s" % name
    outs = I.run(f, [SELFP], State(), {"Self": t})
    if I.incomplete:
        rep.undecided("analysis", who, who)
        return
    n = zc.size(I, t)
    for s, v in outs:
        if s.trace and s.trace[-1][0] == "unreachable":
            continue
        want = variants(I, s, base, ls)
        if want == "any":
            continue
        got = set()
        told = want is not None
        for e in s.trace:
            if e[0] in ("rawfill", "rawcopy", "call", "copy", "fill"):
                if e[0] != "rawfill":
                    told = False
                    continue
                o = sub(I.addr(e[1]), base)
                if not isc(o) or not isc(e[3]):
                    told = False
                    continue
                if e[3][1] and not (isc(e[2]) and e[2][1] == 0):
                    rep.ob("padding", False, who, "%s: writes something else than zero at %d" % (who, o[1]), exact=isc(e[2]))
                got |= set(range(o[1], o[1] + e[3][1]))
        miss = sorted(want - got) if told else []
        extra = sorted(got - want) if told else []
        rep.ob("padding", told and not miss, who, "%s: does not zero the padding at %s" % (who, miss[:4]), exact=told)
        rep.ob("only padding", told and not extra, who, "%s: zeroes %s, which is not padding" % (who, extra[:4]), exact=told)
    rep.ob("pads", bool(outs), who, "%s: never returns" % who)
    rep.analysed(I)


def unknown(v):
    return isinstance(v, tuple) and (bool(v) and v[0] in ("ev", "hav", "phi", "clob") or any(unknown(x) for x in v))


def swapping(rep, name, t):
    db = rep.db
    I = zc.interp(db, ("none",))
    xs = zc.build(I, t)
    r = I.find_impl(zc.ZC, (t,))
    can = const(I, t, "CAN_SWAP_BYTES")
    if xs is None or r is None or can is None:
        rep.undecided("analysis", name, "values of %s" % name)
        return
    imp, m = r
    f = db.get(imp["items"]["swap_bytes"]["h"])
    for E in (LITTLE, BIG):
        who = "swap_bytes::<%s> of %s" % (short(E[1]), name)
        for x in xs:
            outs = I.run(f, [x], State(), dict(m, **{f.gens[-1]: E}))
            if I.incomplete:
                rep.undecided("analysis", who, who)
                return
            want = x if E == LITTLE or whole(I, t) else zc.swapped(I, t, x) if can else None
            for s, v in outs:
                if want is not None:
                    rep.ob("swap", zc.same(I, t, v, want), who, "%s: gives %s and not %s" % (who, str(v)[:120], str(want)[:120]), exact=not unknown(v))
                else:
                    rep.ob("valid", still(I, t, x, v), who, "%s: a value which is not swappable is changed to %s, which may not be valid" % (who, str(v)[:120]),
                           exact=not unknown(v))
            rep.ob("swaps", bool(outs), who, "%s: never returns" % who)
    rep.analysed(I)


def still(I, t, x, v):
    """what cannot be swapped is not"""
    if t[0] in ("char", "bool"):
        return x == v
    if zc.prim(t) or t[0] == "adt" and t[1] in zc.SELF or t == ("tuple", ()):
        return True
    if v[0] != "agg" or v[1] != x[1]:
        return False
    if t[0] == "array":
        return all(still(I, t[1], a, b) for a, b in zip(x[3], v[3]))
    a = zc.enum_of(I, t)
    if a and x[2] != v[2]:
        w = zc.swapped(I, t, x)
        if w is None or w[2] != v[2]:
            return False
    ft = I.variant_fields(t, x[2]) if a else I.fields_of(t)
    return all(still(I, f, p, q) for f, p, q in zip(ft, x[3], v[3]))


def check(rep):
    db = rep.db
    ts = zc.types(db)
    jobs = []
    for n, t in ts:
        jobs += [("constants of " + n, consts, (n, t)), ("padding of " + n, padding, (n, t)), ("swapping of " + n, swapping, (n, t))]
    rep.jobs(jobs)
    rep.ob("anchor", len(ts) > 60, "types", "only %d zero-copy types" % len(ts))
