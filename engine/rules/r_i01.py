from common import *
import tape as T
import bits as BT

LEVEL = "proof"
EXPLANATION = (
    "For every integer type and every combination of the integer, length and byte order options, the abstract effect of "
    "the encoder (a sequence of bytes whose bits are affine combinations of the bits of the value) is the input of the "
    "abstract interpretation of the decoder; every path must yield the value bit for bit, must consume everything and must "
    "not fail. The decoder is then interpreted on its own on unknown bytes: what it accepts must be the sum of its seven-bit "
    "groups without loss, and it must not panic."
)
ENC = "musli::int::encoding::"
TYPES = ("u8", "u16", "u32", "u64", "u128")
SIGNED = ("i8", "i16", "i32", "i64", "i128")


def interp(db):
    I = Interp(db, opaque=lambda c: c.tr == "musli_core::context::Context", models=T.MODELS)
    I.use_bits = True
    I.unroll = 24
    return I


def same_bits(st, a, b, w):
    B = BT.of_state(st)
    return B.of(a, w) == B.of(b, w)


def roundtrip(rep, enc, dec, ty, sub_e, sub_d, who, value_arg, lossless=True):
    db = rep.db
    I = interp(db)
    asserts = []
    I.on_assert = lambda fr, b, t, st, p: asserts.append((fr.fn.d, t, p))
    x = I.fresh(("arg", "x", ty[1]), ty)
    args = [None] * enc.args
    args[value_arg] = x
    n_ok = 0
    for st, v in I.run(enc, args, State(), sub_e):
        if not (v[0] == "agg" and v[2] == 0):
            for s, i, _ in I.split(st, v, I.norm(enc.locals[0], sub_e)):
                if i == 1:
                    # only a value which the configured width cannot hold is refused
                    rep.ob("encoder-refuses-only-what-cannot-fit", not lossless, who, "%s: the encoder fails (%s)" % (who, loc(enc)))
            continue
        n_ok += 1
        for s, r in I.run(dec, None, st.copy(), sub_d):
            good = r[0] == "agg" and r[1] == RESULT and r[2] == 0
            rep.ob("decoder-accepts-what-was-encoded", good, who,
                   "%s: the decoder fails on what the encoder writes (%s)" % (who, loc(dec)))
            if good:
                rep.ob("same-value", same_bits(s, r[3][0], x, 136), who,
                       "%s: decoding does not give back the encoded value (%s)" % (who, loc(dec)))
                rep.ob("consumes-everything", not T.get(s), who,
                       "%s: the decoder leaves bytes of the value unread (%s)" % (who, loc(dec)))
    rep.ob("encodes", n_ok > 0, who, "%s: the encoder never succeeds" % who)
    rep.ob("loops-bounded", not I.incomplete, who, "%s: the number of bytes is not bounded" % who)
    for d, t, p in asserts:
        rep.ob("no-panic", p, "%s in %s" % (t[1] if t[0] == "std" else t[3][0], short(d)), "%s may panic" % short(d))
    rep.analysed(I)
    return n_ok


def stream_models(I):
    """a reader which yields unknown bytes"""
    n = [0]

    def rb(I, c, st):
        i = len([e for e in st.trace if e[0] == "rb"])
        b = I.fresh(("inbyte", i), U8)
        st.ev("rb", i)
        s2 = st.copy()
        s2.ev("eof")
        return [(st, M.ok(b)), (s2, M.err(("eof",)))]
    return {T.R + "read_byte": rb}


def decode_alone(rep, dec, ty, sub_d, who):
    """variable length: what is accepted is the exact sum of the groups"""
    db = rep.db
    I = Interp(db, opaque=lambda c: c.tr == "musli_core::context::Context", models=stream_models(None))
    I.use_bits = True
    I.unroll = 24
    asserts = []
    I.on_assert = lambda fr, b, t, st, p: asserts.append((fr.fn.d, t, p))
    n = 0
    for s, r in I.run(dec, None, State(), sub_d):
        if not (r[0] == "agg" and r[1] == RESULT and r[2] == 0):
            continue
        k = len([e for e in s.trace if e[0] == "rb"])
        n += 1
        B = BT.of_state(s)
        want = []
        for i in range(k):
            want += B.of(("inbyte", i), 8)[:7]
        w = 280
        want = (want + [BT.ZB] * w)[:w]
        got = B.of(r[3][0], w)
        rep.ob("accepts-only-what-fits", want == got, who,
               "%s: accepts a sequence of bytes whose value does not fit the type, or changes it (%s)" % (who, loc(dec)))
        last = B.of(("inbyte", k - 1), 8)[7]
        rep.ob("stops-at-the-last-byte", last == BT.ZB and all(B.of(("inbyte", i), 8)[7] == BT.OB for i in range(k - 1)), who,
               "%s: does not stop exactly at the first byte without the continuation bit (%s)" % (who, loc(dec)))
    rep.ob("decodes", n > 0, who, "%s never succeeds" % who)
    rep.ob("loops-bounded", not I.incomplete, who, "%s: reads an unbounded number of bytes" % who)
    for d, t, p in asserts:
        rep.ob("no-panic", p, "%s in %s" % (t[1] if t[0] == "std" else t[3][0], short(d)), "%s may panic" % short(d))
    rep.analysed(I)


def ty_of(n):
    return ("uint" if n[0] == "u" else "int", n)


def check(rep):
    db = rep.db
    fs = {n: db.find(ENC + n) for n in ("encode_unsigned", "decode_unsigned", "encode_signed", "decode_signed", "encode_usize", "decode_usize")}
    for n, f in fs.items():
        if not rep.ob("anchor", f is not None, n, "not found"):
            return
    for integer in (0, 1):
        for bo in (0, 1):
            opt = ("ci", (integer << 4) | bo)
            label = "%s/%s" % (("variable", "fixed")[integer], ("little", "big")[bo])
            if integer == 0 and bo == 1 and rep.tier == "quick":
                continue
            for n in TYPES + SIGNED:
                k = "unsigned" if n[0] == "u" else "signed"
                ty = ty_of(n)
                roundtrip(rep, fs["encode_" + k], fs["decode_" + k], ty, {"T": ty, "OPT": opt}, {"T": ty, "OPT": opt},
                          "%s %s" % (n, label), 2)
    for width in range(8):
        for bo in (0, 1):
            opt = ("ci", (width << 12) | bo)
            roundtrip(rep, fs["encode_usize"], fs["decode_usize"], ("uint", "usize"), {"OPT": opt}, {"OPT": opt},
                      "usize width=%d/%s" % (width, ("little", "big")[bo]), 2, lossless=width in (0, 4))
    dec = db.find("musli::int::continuation::decode")
    if rep.ob("anchor", dec is not None, "continuation::decode", "not found"):
        for n in TYPES + ("usize",):
            decode_alone(rep, dec, ty_of(n), {"T": ty_of(n)}, "%s variable" % n)
