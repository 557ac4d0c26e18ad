"""C05: values copied bytewise are what is otherwise written."""
from agree import *
import r_c01 as P
import mem

LEVEL = "proof"
EXPLANATION = (
    "The storage format copies values from and to memory where IS_BITWISE_ENCODE and IS_BITWISE_DECODE say it may. For each "
    "primitive, array, tuple and a crate of packed witness structures with different layouts, the constants are evaluated "
    "from the MIR of the crates. Where the first holds, the bytes of the value by the compiler's layout are compared with the "
    "bytes which the encoder writes when the constant is taken to be false; where the second holds, the layout is walked for "
    "anything of which some bytes are not a value. The encoder is analysed with the constants as they are and taken to be "
    "false, for single values and slices, under each option, and has to write the same; what is written has to decode.")

ENC, DEC = "musli_core::en::encode::Encode", "musli_core::de::decode::Decode"
W = "vwitness::fast::"
U, TUP, ARR = P.U, P.TUP, P.ARR
NZ = lambda n: ("adt", "core::num::nonzero::NonZero", (n,))


def mode(m="Binary"):
    return ("adt", "musli_core::mode::" + m, ())


def sysalloc(db):
    return ("adt", "musli_core::alloc::global::Global", ()) if "musli_core::alloc::global::Global" in db.adts else ("param", "A")


def flag(I, tr, n, ty, m="Binary"):
    """the constant of the implementation for a type"""
    ta = (ty, mode(m)) + ((("param", "A"),) if tr == DEC else ())
    if I.find_impl(tr, ta) is None:
        return None
    f = next(iter(I.db.fns.values()))
    fr = Frame(f, {}, I.ctx("flag", n, ty), {"args": 0, "locals": [("bool",)], "blocks": []}, 0, ())
    d = I.db.traits[tr][n]
    return I.const_operand(fr, State(), {"t": ("bool",), "u": {"d": tr + "::" + n, "h": d["h"], "a": ta, "tr": tr, "n": n}})


def anybits(I, ty):
    """what in a type has bytes which are not a value of it, or None"""
    if ty[0] in ("uint", "int", "float"):
        return None
    if ty[0] == "array":
        return anybits(I, ty[1])
    if ty[0] in ("bool", "char", "ref", "ptr", "fn", "str", "slice", "dyn"):
        return ty[0]
    if ty[0] == "adt":
        d = I.db.adts.get(ty[1])
        if d and d["k"] == "enum" or ty[1].endswith(("NonZero", "NonNull", "Box", "String", "Vec")):
            return tyname(ty)
        if ty[1].endswith("PhantomData"):
            return None
    fs = I.fields_of(ty)
    if fs is None:
        return tyname(ty)
    for t in fs:
        r = anybits(I, t)
        if r:
            return r
    return None


def spread(I, st, items):
    """items with those of known bytes taken apart"""
    out = ()
    for i in items:
        out += T.explode(I, st, (i,))
    return out


def plainer(I, st, items):
    out = []
    for i in items:
        if i[0] == "bool":
            i = ("byte", i[1])
        out.append(i)
    return tuple(out)


def known(st, x):
    if x[0] == "byte" and x[1] in st.bl:
        return ("byte", C(int(st.bl[x[1]])))
    if x[0] == "byte" and x[1][0] == "byteof" and x[1][1][0] == "tobits":
        return ("byte", ("byteof", x[1][1][1], x[1][2]))
    if x[0] == "chunk" and x[1][0] == "tobytes" and x[1][1][0] == "tobits":
        return ("chunk", ("tobytes", x[1][1][1]) + x[1][2:], x[2])
    return x


def eqitems(I, st, a, b):
    a, b = plainer(I, st, spread(I, st, a)), plainer(I, st, spread(I, st, b))
    if a == b:
        return True
    if len(a) != len(b):
        return False
    B = BT.of_state(st)
    for x, y in zip(a, b):
        if x == y:
            continue
        x, y = known(st, x), known(st, y)
        if x == y:
            continue
        if x[0] != y[0] or x[0] not in ("byte", "chunk"):
            return False
        if x[0] == "byte":
            if st.lin.eq0(sub(x[1], y[1])) or B.of(x[1], 8) == B.of(y[1], 8):
                continue
            return False
        if not st.lin.eq0(sub(x[2], y[2])) or x[1] != y[1]:
            return False
    return True


def marked(I, ty):
    """has arrays or things of no size in it, which are written with a length
    where they are not copied; round trips decide those"""
    if ty[0] == "array" or ty == TUP() or ty[0] == "adt" and ty[1].endswith("PhantomData"):
        return True
    if ty[0] in ("adt", "tuple") and not ty[1] in ("core::num::nonzero::NonZero", "core::net::ip_addr::Ipv4Addr"):
        return any(marked(I, t) for t in I.fields_of(ty) or ())
    return False


def slow(I):
    I.consts = {"IS_BITWISE_ENCODE": C(0), "IS_BITWISE_DECODE": C(0)}


def name(t):
    if t[0] in ("bool", "char"):
        return t[0]
    if t[0] == "adt" and t[1].startswith(W):
        return t[1][len(W):] + ("<%s>" % ",".join(name(a) for a in t[2] if isinstance(a, tuple)) if t[2] else "")
    return tyname(t)


def insts(db):
    prims = list(P.PRIMS)
    out = prims + [NZ(U("u8")), NZ(U("u32")), NZ(("int", "i64"))]
    out += [TUP(), TUP(U("u16"), U("u16")), TUP(U("u8"), U("u32"))]
    out += [ARR(t, 2) for t in prims] + [ARR(NZ(U("u16")), 2), ARR(ARR(U("u16"), 2), 3), ARR(("adt", W + "Plain", ()), 2),
                                        ARR(("adt", W + "PadEnd", ()), 2), ARR(("adt", W + "Bools", ()), 2)]
    out += [("adt", "core::num::wrapping::Wrapping", (U("u32"),)), ("adt", "core::num::wrapping::Wrapping", (("bool",),))]
    out += [("adt", "core::net::ip_addr::Ipv4Addr", ())]
    for n in sorted(db.adts):
        if not n.startswith(W) or n.count("::") != 2:
            continue
        s = n[len(W):]
        if s == "Pair":
            out += [("adt", n, (t,)) for t in (U("u16"), ("bool",), NZ(U("u32")), ("char",))]
        elif s == "Marked":
            out += [("adt", n, (U("u64"),))]
        elif s not in ("Lengths", "Uses"):
            out.append(("adt", n, ()))
    return out


def layout(rep, ty, m):
    """what the constants say against the layout"""
    who = "%s %s" % (name(ty), m)
    I = K.interp(rep.db)
    e, d = flag(I, ENC, "IS_BITWISE_ENCODE", ty, m), flag(I, DEC, "IS_BITWISE_DECODE", ty, m)
    if not rep.ob("anchor", e is not None, who, "%s: no implementation of Encode" % who):
        return
    for n, v in (("IS_BITWISE_ENCODE", e), ("IS_BITWISE_DECODE", d)):
        if v is not None and not isc(v):
            rep.undecided("constant", who, "%s of %s is not known" % (n, who))
    if d == C(1):
        bad = anybits(I, ty)
        rep.ob("any-bytes-are-a-value", bad is None, who, "IS_BITWISE_DECODE of %s holds, though not all bytes are a %s" % (who, bad))
        rep.ob("decodes-what-is-copied-only", e == C(1), who, "%s is copied when it is decoded, but not when it is encoded" % who)
    if e == C(1):
        fmt = K.Fmt(rep.db, "storage", NAT, m)
        st = State()
        x, xv = K.value(I, st, ty, "v")
        ms = mem.flatten(I, st, xv, ty)
        if ms is None:
            rep.undecided("layout", who, "the layout of %s is not known" % who)
            return
        rep.ob("no-padding-is-copied", not any(i[0] == "pad" for i in ms), who, "IS_BITWISE_ENCODE of %s holds, though it has padding" % who)
        slow(I)
        for s, v in K.encode(I, fmt, st, x, ty) if not marked(I, ty) else ():
            ex = not foreign(s) and not I.incomplete
            rep.ob("bytes-in-memory-are-what-is-written", K.is_ok(v) and eqitems(I, s, T.get(s), tuple(ms)), who,
                   "IS_BITWISE_ENCODE of %s holds: its memory is %s, otherwise written are %s" % (who, show(ms), show(T.get(s))), ex)
    rep.analysed(I)


NAT = P.opt(1, 0, 2, 4)


def mk_vec(I, ty, n):
    return ("agg", "array", 0, tuple(I.settype(("deref", I.fresh(("arg", "e", i), ("ref", ty, False))), ty) for i in range(n)))


def case(rep, f, o, ty, n, m):
    """the encoder with the constants as they are, and taken to be false"""
    db = rep.db
    fmt = K.Fmt(db, f, o, m)
    if not rep.ob("anchor", fmt.enc is not None and fmt.dec is not None, f, "no Encoding::encode_with"):
        return
    full = ty if n is None else P.VEC(ty)
    who = "%s in %s %s %s" % (name(ty) + ("" if n is None else " x%d" % n), m, f, P.label(o))
    tapes = []
    for s_ in (False, True):
        I = K.interp(db)
        if s_:
            slow(I)
        st = State()
        x, xv = K.value(I, st, full, "v")
        if n is not None:
            xv = ("agg", "array", 0, tuple(I.settype(("deref", I.fresh(("arg", "e", i), ("ref", ty, False))), ty) for i in range(n)))
            st.mem[("D", x)] = xv
        outs = list(K.encode(I, fmt, st, x, full))
        tapes.append([(I, s, v) for s, v in outs])
        rep.analysed(I)
    fast, slow_ = tapes
    if native(o) and marked(I, ty):
        return
    for I, s, v in fast:
        ex = not foreign(s) and not I.incomplete
        if not K.is_ok(v):
            rep.ob("encodes", P_narrow(o), who, "%s: encoding fails" % who, ex)
            continue
        for I2, s2, v2 in slow_:
            both = s.copy()
            for fact in s2.lin.facts:
                both.lin = both.lin.with_(fact)
            for k, b in s2.bl.items():
                if both.bl.get(k, b) != b:
                    break
            else:
                if not both.lin.feasible() or not K.is_ok(v2):
                    continue
                for k, b in s2.bl.items():
                    both.bl[k] = b
                rep.ob("copied-as-otherwise-written", eqitems(I, both, T.get(s), T.get(s2)), who,
                       "%s: writes %s, and %s when nothing is copied (%s)" % (who, show(T.get(s)), show(T.get(s2)), loc(fmt.enc)),
                       ex and not foreign(s2) and not I2.incomplete)


def native(o):
    return (o & 1, o >> 4 & 1, o >> 8 & 3, o >> 12 & 7) == (0, 1, 2, 4)


def P_narrow(o):
    return o >> 12 & 7 not in (0, 4)


def back(rep, f, o, ty, n, m):
    """decodes, and as what it was; also when only the decoder copies"""
    fmt = K.Fmt(rep.db, f, o, m)
    full = ty if n is None else P.VEC(ty)
    who = "%s in %s %s %s" % (name(ty) + ("" if n is None else " x%d" % n), m, f, P.label(o))
    mk = None if n is None else (lambda I, st, x: ("agg", "array", 0, tuple(
        I.settype(("deref", I.fresh(("arg", "e", i), ("ref", ty, False))), ty) for i in range(n))))
    agree(rep, fmt, full, who, None, mk, may_refuse=(lambda I, s: True) if P_narrow(o) else None)


def check(rep):
    db = rep.db
    jobs = []
    for ty in insts(db):
        for m in ("Binary", "Text"):
            jobs.append(("layout %s %s" % (name(ty), m), layout, (ty, m)))
    os_ = [P.opt(), NAT, P.opt(1, 1, 2, 4), P.opt(1, 0, 0, 4), P.opt(1, 0, 2, 3), P.opt(0, 0, 2, 4)]
    if rep.tier != "quick":
        os_ = [P.opt(i, b, fl, w) for i in (0, 1) for b in (0, 1) for fl in (0, 1, 2) for w in range(0, 5)]
    for f in ("storage", "packed"):
        for o in os_:
            for ty in insts(db):
                for n in (None, 2):
                    jobs.append(("%s %s %s %s" % (f, o, name(ty), n), case, (f, o, ty, n, "Binary")))
                    if o in (NAT, P.opt(1, 1, 2, 4)):
                        jobs.append(("back %s %s %s %s" % (f, o, name(ty), n), back, (f, o, ty, n, "Binary")))
    rep.jobs(jobs)
