"""C01: the encoders and decoders of each binary format agree on the primitive
and container operations, in every configuration."""
from agree import *

LEVEL = "proof"
EXPLANATION = (
    "For each binary format, each configuration of its options and each primitive and container type, the MIR of the "
    "encoder is interpreted abstractly for an unknown value; what it writes is a sequence of unknown bytes and chunks (the "
    "tape), which is then the input of the abstract interpretation of the decoder. Every path of the decoder has to "
    "succeed, produce the value that was encoded, and leave nothing on the tape. An obligation is one (format, options, "
    "type, encoder path, decoder path); loops run to the number of elements of the value, which is fixed per case (0, 1 and 3); "
    "the variable length integer codec is a unit here, which I01 decides.")

U = lambda n: ("uint", n)
G = ("adt", "alloc::alloc::Global", ())
VEC = lambda t: ("adt", "alloc::vec::Vec", (t, G))
OPTION_ = lambda t: ("adt", "core::option::Option", (t,))
RES = lambda t, u: ("adt", "core::result::Result", (t, u))
ARR = lambda t, n: ("array", t, ("ci", n))
TUP = lambda *a: ("tuple", tuple(a))
STR = ("str",)
STRING = ("adt", "alloc::string::String", ())

PRIMS = [("uint", "u%d" % n) for n in (8, 16, 32, 64, 128)] + [("uint", "usize")] + \
    [("int", "i%d" % n) for n in (8, 16, 32, 64, 128)] + [("int", "isize"), ("float", "f32"), ("float", "f64"), ("bool",), ("char",)]


def elems(*ts):
    def mk(I, st, x):
        return ("agg", "array", 0, tuple(I.fresh(("arg", "e", i), t) for i, t in enumerate(ts)))
    return mk


def vec_of(t, n):
    return elems(*([t] * n))


def string(I, st, x):
    return ("agg", "owned", 0, (I.fresh(("arg", "s", "str"), ("ref", STR, False)),))


def strings(n):
    def mk(I, st, x):
        return ("agg", "array", 0, tuple(("agg", "owned", 0, (I.fresh(("arg", "s", i), ("ref", STR, False)),)) for i in range(n)))
    return mk


def nested(*ns):
    def mk(I, st, x):
        return ("agg", "array", 0, tuple(("agg", "array", 0, tuple(I.fresh(("arg", "e", k, i), U("u16")) for i in range(n))) for k, n in enumerate(ns)))
    return mk


def vecopt(I, st, x):
    o = OPTION_(U("u16"))
    return ("agg", "array", 0, (I.fresh(("arg", "o", 0), o), ("agg", "core::option::Option", 0, ()), ("agg", "core::option::Option", 1, (I.fresh(("arg", "o", 2), U("u16")),))))


def containers(fmt):
    cs = [
        ("()", TUP(), None, None),
        ("&str", STR, None, ("ref", STR, False)),
        ("String", STRING, string, None),
        ("Result<u16,bool>", RES(U("u16"), ("bool",)), None, None),
        ("[u16;3]", ARR(U("u16"), 3), None, None),
        ("[bool;3]", ARR(("bool",), 3), None, None),
        ("(u8,i64,bool)", TUP(U("u8"), ("int", "i64"), ("bool",)), None, None),
        ("(u32,(u8,f64))", TUP(U("u32"), TUP(U("u8"), ("float", "f64"))), None, None),
        ("Vec<u32>/0", VEC(U("u32")), vec_of(U("u32"), 0), None),
        ("Vec<u32>/3", VEC(U("u32")), vec_of(U("u32"), 3), None),
        ("Vec<bool>/2", VEC(("bool",)), vec_of(("bool",), 2), None),
        ("Vec<String>/2", VEC(STRING), strings(2), None),
        ("Vec<Vec<u16>>", VEC(VEC(U("u16"))), nested(0, 2), None),
    ]
    # an option which is none is nothing at all in the packed format, which is
    # documented to be supported at the end of it only
    cs.append(("Option<u32>", OPTION_(U("u32")), None, None))
    if fmt != "packed":
        cs += [("Option<Option<u8>>", OPTION_(OPTION_(U("u8"))), None, None),
               ("(Option<u16>,u8)", TUP(OPTION_(U("u16")), U("u8")), None, None),
               ("Vec<Option<u16>>", VEC(OPTION_(U("u16"))), vecopt, None)]
    return cs


def opt(integer=0, bo=0, fl=0, width=0):
    return bo | integer << 4 | fl << 8 | width << 12


def label(o):
    return "%s/%s/float=%s/width=%d" % (("variable", "fixed")[o >> 4 & 1], ("little", "big")[o & 1], ("integer", "variable", "fixed")[o >> 8 & 3], o >> 12 & 7)


def configs(tier):
    out = []
    for f in ("storage", "wire", "descriptive"):
        os_ = [opt(), opt(1, 0, 2, 4), opt(1, 1, 2, 4), opt(0, 1, 2, 0), opt(1, 0, 0, 3)]
        if tier != "quick":
            os_ = [opt(i, b, fl, w) for i in (0, 1) for b in (0, 1) for fl in (0, 1, 2) for w in range(0, 5)]
        for o in os_:
            out.append((f, o))
    return out


def case(rep, f, o, who, ty, mk, dty):
    fmt = K.Fmt(rep.db, f, o, "Binary")
    if not rep.ob("anchor", fmt.enc is not None and fmt.dec is not None, f, "no Encoding::encode_with"):
        return
    agree(rep, fmt, ty, who, dty, mk, 
          # a length which a narrow width cannot hold, as I01 decides
          may_refuse=(lambda I, s: True) if o >> 12 & 7 not in (0, 4) else None)


def check(rep):
    db = rep.db
    jobs = []
    # the packed format is always native and fixed unless it is customised
    cfgs = configs(rep.tier) + [("packed", opt(1, 0, 2, 4)), ("packed", 0)]
    for f, o in cfgs:
        for t in PRIMS:
            who = "%s %s %s" % (f, label(o), tyname(t) if t[0] not in ("bool", "char") else t[0])
            jobs.append((who, case, (f, o, who, t, None, None)))
        for n, t, mk, dty in containers(f):
            who = "%s %s %s" % (f, label(o), n)
            jobs.append((who, case, (f, o, who, t, mk, dty)))
    # elements of which two at a time are copied
    t = ARR(U("u32"), 10000)
    for f in ("storage", "packed"):
        for n in (2, 3):
            who = "%s native fixed Vec<[u32;10000]>/%d" % (f, n)
            jobs.append((who, case, (f, opt(1, 0, 2, 4), who, VEC(t), vec_of(t, n), None)))
    rep.jobs(jobs)
