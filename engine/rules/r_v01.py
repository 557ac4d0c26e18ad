"""V01: dynamic values hold what was encoded into them."""
from agree import *
import r_c01 as P
import r_c02 as C2
import r_k01 as K1
import r_k02 as K2
import r_m01 as M1

LEVEL = "proof"
EXPLANATION = (
    "musli::value::encode is analysed for an unknown value of each type, over each path; what it leaves in the Value is what "
    "musli::value::decode is then analysed with, which has to give the value back on every path. Likewise a value which was "
    "encoded in the descriptive format or in JSON is decoded as a Value and that decoded as the type, and a Value which a type "
    "was encoded into is encoded in the descriptive format or in JSON and decoded as the type. The allocations of a Value are "
    "taken to succeed.")

V = "musli::value::value::Value"
VALUE = ("adt", V, (("proj", "musli_core::context::Context::Allocator", (("param", "C"),)),))


def at(I, s, v, ty):
    p = I.fresh(("arg", "val", len(s.trace)), ("ref", ty, False))
    s.mem[("D", p)] = v
    I.root_types.setdefault(("D", p), ty)
    return p


def hinted(v):
    """a short description of a dynamic value"""
    if v[0] == "agg" and v[1] == V:
        return "variant %d of Value" % v[2]
    return v[0]


def judge(rep, I, outs, ty, dty, who, x, xv, want, n0, ex, f, what):
    n = 0
    for s2, r in outs:
        n += 1
        ex2 = ex and not foreign(s2, n0) and not I.incomplete
        if not rep.ob("decodes-what-was-encoded", K.is_ok(r), who, "%s: decoding %s fails%s (%s)" % (
                who, what, ": " + why(s2) if why(s2) else "", loc(f)), ex2):
            continue
        got = r[3][0]
        same = want(I, s2, got, x, xv) if want else K.same(I, s2, got, x if dty and dty[0] == "ref" else xv, dty or ty)
        rep.ob("same-value", same, who, "%s: %s decodes to another value (%s)" % (who, what, loc(f)), ex2)
    return n


def start(rep, ty, mk, borrowed, json=False, pre=None):
    I = K.interp(rep.db, json=json, buffers=True)
    I.borrowed = borrowed
    st = State()
    x, xv = K.value(I, st, ty, "v")
    if mk:
        xv = mk(I, st, x)
    if xv[0] == "agg":
        st.mem[("D", x)] = xv
    if pre:
        pre(I, st, xv, ty)
    return I, st, x, xv


def fns(rep):
    db = rep.db
    r = [db.find("musli::value::" + n) for n in ("encode", "decode", "decode_with")]
    return r if rep.ob("anchor", all(r), "value", "no musli::value::encode, decode or decode_with") else None


def wants(db, want, ty, dty):
    if want == "kept":
        K2.xv_ty[0] = ty
        return K2.kept
    if want == "version":
        return C2.kept(db, ty, dty)
    return {"inner": K1.inner, "defaults": M1.defaults}.get(want)


def direct(rep, who, m, ty, mk, dty, want, borrowed):
    f = fns(rep)
    if not f:
        return
    enc, dec, decw = f
    want = wants(rep.db, want, ty, dty)
    I, st, x, xv = start(rep, ty, mk, borrowed)
    seen = n = 0
    for s, v in I.run(enc, [x], st, {"T": ("ref", ty, False)}):
        ex = not foreign(s) and not I.incomplete
        if not rep.ob("encodes", K.is_ok(v), who, "%s: encoding fails on a path (%s)" % (who, loc(enc)), ex):
            continue
        seen += 1
        p = at(I, s, v[3][0], VALUE)
        n += judge(rep, I, I.run(dec, [p], s.copy(), {"T": dty or ty}), ty, dty, who, x, xv, want, len(s.trace), ex, dec, hinted(v[3][0]))
    finish(rep, I, who, seen, n)


def finish(rep, I, who, seen, n):
    rep.ob("encodes", seen > 0, who, "%s: never encodes" % who, not I.incomplete)
    rep.ob("decodes", n > 0 or not seen, who, "%s: never decodes" % who, not I.incomplete)
    if I.incomplete:
        rep.undecided("bounded", who, str(I.incomplete[:2])[:200])
    rep.analysed(I)


def through(rep, f, o, who, m, ty, mk, dty, want, borrowed, pre):
    """encoded in a format, decoded as a Value, and that decoded"""
    fs = fns(rep)
    fmt = K.Fmt(rep.db, f, o, m)
    if not fs or not rep.ob("anchor", fmt.enc is not None and fmt.dec is not None, f, "no Encoding::encode_with"):
        return
    decw = fs[2]
    want = wants(rep.db, want, ty, dty)
    I, st, x, xv = start(rep, ty, mk, borrowed, f == "json", pre)
    seen = n = 0
    for s, v in K.encode(I, fmt, st, x, ty):
        if f == "json" and no_json(s) and not K.is_ok(v):
            continue
        ex = not foreign(s) and not I.incomplete
        if not rep.ob("encodes", K.is_ok(v), who, "%s: encoding fails on a path (%s)" % (who, loc(fmt.enc)), ex):
            continue
        seen += 1
        n0 = len(s.trace)
        tape = T.get(s)
        for s2, r in K.decode(I, fmt, s.copy(), VALUE):
            ex2 = ex and not foreign(s2, n0) and not I.incomplete
            if not rep.ob("decodes-as-a-value", K.is_ok(r), who, "%s: decoding %s as a Value fails%s (%s)" % (
                    who, show(tape), ": " + why(s2) if why(s2) else "", loc(fmt.dec)), ex2):
                continue
            rep.ob("reads-exactly-what-was-written", not T.left(s2), who, "%s: of %s, %s is left unread (%s)" % (
                who, show(tape), show(T.left(s2)), loc(fmt.dec)), ex2)
            p = at(I, s2, r[3][0], VALUE)
            n += judge(rep, I, I.run(decw, [None, p], s2.copy(), {"T": dty or ty, "M": K.mode(m)}), ty, dty, who, x, xv, want,
                       len(s2.trace), ex2, decw, hinted(r[3][0]))
    finish(rep, I, who, seen, n)


def onward(rep, f, o, who, ty, mk, dty, want, borrowed, pre):
    """encoded as a Value, which is encoded in a format, and that decoded"""
    fs = fns(rep)
    m = "Binary"
    fmt = K.Fmt(rep.db, f, o, m)
    if not fs or not rep.ob("anchor", fmt.enc is not None and fmt.dec is not None, f, "no Encoding::encode_with"):
        return
    enc = fs[0]
    want = wants(rep.db, want, ty, dty)
    I, st, x, xv = start(rep, ty, mk, borrowed, f == "json", pre)
    seen = n = 0
    for s, v in I.run(enc, [x], st, {"T": ("ref", ty, False)}):
        ex = not foreign(s) and not I.incomplete
        if not rep.ob("encodes", K.is_ok(v), who, "%s: encoding fails on a path (%s)" % (who, loc(enc)), ex):
            continue
        p = at(I, s, v[3][0], VALUE)
        n0 = len(s.trace)
        for s2, v2 in K.encode(I, fmt, s.copy(), p, VALUE):
            if f == "json" and no_json(s2) and not K.is_ok(v2):
                continue
            ex2 = ex and not foreign(s2, n0) and not I.incomplete
            if not rep.ob("encodes", K.is_ok(v2), who, "%s: encoding %s fails on a path (%s)" % (who, hinted(v[3][0]), loc(fmt.enc)), ex2):
                continue
            seen += 1
            tape = T.get(s2)
            outs = list(K.decode(I, fmt, s2.copy(), dty or ty))
            n += judge(rep, I, outs, ty, dty, who, x, xv, want, len(s2.trace), ex2, fmt.dec, show(tape))
            for s3, r in outs:
                if K.is_ok(r):
                    rep.ob("reads-exactly-what-was-written", not T.left(s3), who, "%s: of %s, %s is left unread (%s)" % (
                        who, show(tape), show(T.left(s3)), loc(fmt.dec)), ex2 and not I.incomplete)
    finish(rep, I, who, seen, n)


def cases(db, f):
    """(name, mode, type, value, decoded type, what has to come back, borrowed)"""
    out = []

    def add(who, m, ty, mk=None, dty=None, want=None, borrowed=True):
        out.append((who, m, ty, mk, dty, want, borrowed))
    for t in P.PRIMS:
        for m in ("Binary",):
            add(tyname(t) if t[0] not in ("bool", "char") else t[0], m, t)
    for n, t, mk, dty in P.containers("descriptive"):
        add(n, "Binary", t, mk, dty)
    for n, t, mk, dty, modes, fmts in K1.types():
        for m in modes:
            add(n, m, t, mk, dty, "inner" if dty else None)
    for n in M1.types(db):
        g = (("uint", "u16"),) if n == "Generic" else ()
        for m in ("Binary", "Text"):
            add(n, m, ("adt", M1.W + n, g), None, None, "defaults" if n == "Defaults" else None)
    for n in K2.types(db):
        for m in ("Binary", "Text"):
            add("api " + n, m, ("adt", K2.W + n, ()), None, None, "kept" if n in K2.SKIPS + K2.UNREAD + ("Cloned",) else None)
    T_ = lambda n: ("adt", C2.W + n, ())
    for m in ("Binary", "Text"):
        for n, a, b in (("V1 as V2", "V1", "V2"), ("V2 as V1", "V2", "V1"), ("V3 as V1", "V3", "V1"), ("Three as Middle", "Three", "Middle")):
            add(n, m, T_(a), None, T_(b), "version")
    return out


# written as the bytes of the storage format, which only Value itself decodes as such again
PACKS = ("Packed", "PackedBits", "PackedEnum", "PackedField", "PackedTuple", "SocketAddr", "SocketAddrV4", "SocketAddrV6",
         "api Pack", "api PackFn", "api PackInPack", "api UnreadPack", "api VariantFn")
# fields of several kinds of names in one type: see M01
MIXED = ("Internal", "InternalNumbered")
# JSON has no bytes, no options within options, no variants which differ from maps: without the type, these are not told apart
JSON = ("bool", "()", "&str", "String", "[u16;3]", "[bool;3]", "(u8,i64,bool)", "Vec<u32>/0", "Vec<u32>/3", "Vec<bool>/2",
        "Vec<String>/2", "Vec<Vec<u16>>", "Range", "RangeFrom", "RangeTo", "RangeInclusive", "RangeToInclusive", "Wrapping",
        "Box<u32>", "Box<str>", "Box<[u16]>/3", "VecDeque/2+0", "VecDeque/1+2", "BTreeSet/2", "HashSet/2", "BinaryHeap/2",
        "NameAll", "Transparent", "Unit", "api Empty", "api Sequence", "api SequenceFn", "api SequenceSlices", "api SequenceTry",
        "api Skipped", "api Slice", "api Slices", "api UnreadSequence")
JSON_TEXT = ("DefaultEnum", "Internal", "Moded", "Named", "Patterned", "Strings", "Untagged", "V1", "With", "V1 as V2", "V2 as V1")
NOT_IN_JSON = ("BytesField", "Option<Option<u8>>")


def modes(who, ty, m, f):
    """whether a value is taken through a format, and from a Value to it"""
    if who in PACKS or who in MIXED and not (f == "json" and m == "Text" and who == "Internal"):
        return False, False
    if f != "json":
        return True, m == "Binary"
    ints = ty[0] in ("int", "uint") or who.startswith("NonZero")
    return (ints or who in JSON or m == "Text" and who in JSON_TEXT), m == "Binary" and who not in NOT_IN_JSON


def check(rep):
    db = rep.db
    jobs = []
    for who, m, ty, mk, dty, want, borrowed in cases(db, None):
        w = "%s in %s" % (who, m)
        if m == "Binary":
            jobs.append((w, direct, (w, m, ty, mk, dty, want, borrowed)))
        for f, o in (("descriptive", 0), ("json", None)):
            thr, onw = modes(who, ty, m, f)
            if thr:
                w2 = "%s through %s in %s" % (who, f, m)
                jobs.append((w2, through, (f, o, w2, m, ty, mk, dty, want, borrowed, None)))
            if onw:
                w3 = "%s as a Value to %s" % (who, f)
                jobs.append((w3, onward, (f, o, w3, ty, mk, dty, want, borrowed, None)))
    rep.jobs(jobs)
