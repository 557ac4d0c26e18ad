"""Agreement of an encoder and a decoder over an abstract tape."""
from common import *
import bits as BT
import codec as K
import tape as T

# calls which do not change what is decided here: building a message
HARMLESS = ("core::fmt::", "alloc::fmt::", "musli_core::internal::", "core::any::type_name")


def foreign(s, n0=0):
    """calls which are neither followed nor modelled"""
    return [e for e in K.events(s, n0) if not e.startswith(HARMLESS) and not e.startswith("core::fmt")
            and (e != "core::convert::From::from" or not messages(s, n0))]


def messages(s, n0):
    """whether all that is converted are messages"""
    return all(e[3] and e[3][0][:2] == ("ev", "format") for e in s.trace[n0:]
               if e[0] == "call" and e[1] == "core::convert::From::from")


def why(s):
    r = [e[1] for e in s.trace if e[0] == "underrun"]
    return r[-1] if r else None


def show(items):
    out = []
    for i in items[:8]:
        if i[0] == "byte":
            out.append("byte %s" % (i[1][1] if isc(i[1]) else "?"))
        elif i[0] == "chunk":
            out.append("%s bytes" % (i[2][1] if isc(i[2]) else "n"))
        elif i[0] == "cont":
            out.append("%s %s" % (tyname(i[2]), i[1][1] if isc(i[1]) else "?"))
        elif i[0] in ("num", "flt"):
            out.append(tyname(i[2]))
        elif i[0] == "raw":
            out.append("text")
        else:
            out.append(str(i[0]))
    return "[%s%s]" % (", ".join(out), "" if len(items) <= 8 else ", ..")


def leaves(I, v, ty, k, seen=()):
    """k(value, type) of every integer a value consists of, of any variant"""
    if ty[0] in ("uint", "int"):
        k(v, ty)
    elif ty[0] == "adt" and ty not in seen:
        d = I.db.adts.get(ty[1])
        if d and d["k"] == "enum":
            for i in range(len(d["variants"])):
                for j, t in enumerate(I.variant_fields(ty, i) or ()):
                    if t is not None:
                        leaves(I, I.proj(v, ("f", i, j), t), t, k, seen + (ty,))
            return
        for i, t in enumerate(I.fields_of(ty) or ()):
            leaves(I, I.proj(v, ("f", None, i), t), t, k, seen + (ty,))
    elif ty[0] == "tuple":
        for i, t in enumerate(ty[1]):
            leaves(I, I.proj(v, ("f", None, i), t), t, k, seen)


def small(I, st, v, ty):
    def k(v, t):
        if t[0] == "uint":
            st.lin = st.lin.with_(sub(C(40), v))
    leaves(I, v, ty, k)


def large(I, st, v, ty):
    def k(v, t):
        if t[0] == "uint":
            st.lin = st.lin.with_(sub(v, C(100)))
    leaves(I, v, ty, k)


def no_json(s):
    """a float which is not finite has no representation in JSON"""
    return any(b[0] == "finite" and not v for b, v in s.bl.items())


def where(f):
    return "%s / %s" % (loc(f.enc), loc(f.dec))


def agree(rep, fmt, ty, who, dty=None, mk=None, want=None, may_refuse=None, borrowed=True, must=True, pre=None, buffers=False):
    """For every value of `ty`: what is encoded decodes as `dty` to the value
    `want(I, st, x)` says (the same, by default) and leaves nothing behind.

    `mk` builds the value from an unknown; `may_refuse(I, st)` is a path on
    which the encoder may give up."""
    db = rep.db
    I = K.interp(db, json=fmt.name == "json", buffers=buffers)
    I.borrowed = borrowed
    st = State()
    x, xv = K.value(I, st, ty, "v")
    if mk:
        xv = mk(I, st, x)
    if xv[0] == "agg":
        st.mem[("D", x)] = xv
    if pre:
        pre(I, st, xv, ty)
    n = 0
    seen = 0
    for s, v in K.encode(I, fmt, st, x, ty):
        fr = foreign(s)
        ex = not fr and not I.incomplete
        if not K.is_ok(v):
            if may_refuse and may_refuse(I, s) or no_json(s):
                continue
            rep.ob("encodes", False, who, "%s: encoding fails on a path (%s)" % (who, where(fmt)), ex)
            continue
        seen += 1
        tape = T.get(s)
        n0 = len(s.trace)
        for s2, r in K.decode(I, fmt, s.copy(), dty or ty):
            n += 1
            ex2 = ex and not foreign(s2, n0) and not I.incomplete
            if not K.is_ok(r):
                rep.ob("decodes-what-was-encoded", False, who, "%s: decoding %s fails%s (%s)" % (
                    who, show(tape), ": " + why(s2) if why(s2) else "", where(fmt)), ex2)
                continue
            rep.ob("decodes-what-was-encoded", True, who, "")
            got = r[3][0]
            if want:
                same = want(I, s2, got, x, xv)
            else:
                same = K.same(I, s2, got, x if dty and dty[0] == "ref" else xv, dty or ty)
            rep.ob("same-value", same, who, "%s: %s decodes to another value (%s)" % (who, show(tape), where(fmt)), ex2)
            rest = T.left(s2)
            rep.ob("reads-exactly-what-was-written", not rest, who, "%s: of %s, %s is left unread (%s)" % (
                who, show(tape), show(rest), where(fmt)), ex2)
    if must:
        rep.ob("encodes", seen > 0, who, "%s: never encodes" % who, not I.incomplete)
        rep.ob("decodes", n > 0 or not seen, who, "%s: never decodes" % who, not I.incomplete)
    if I.incomplete:
        rep.undecided("bounded", who, str(I.incomplete[:2])[:200])
    rep.analysed(I)
    return n
