"""F01: what is decoded as another type is refused or consumed whole."""
from agree import *
import r_c01 as P
import r_c02 as C2

LEVEL = "proof"
EXPLANATION = (
    "For the self-describing binary formats (wire and descriptive), what the encoder of one type writes for an unknown value "
    "is the input of the decoder of another, for the pairs of a list of primitives, containers and derived types. Every path "
    "of the decoder has to either refuse the input, or consume exactly what was encoded; it never reads part of a value as "
    "if it was another one, and never past its end.")

U = P.U
W = "vwitness::"


def list_of(fmt, db):
    out = [(tyname(t) if t[0] not in ("bool", "char") else t[0], t, None, None) for t in P.PRIMS]
    out += P.containers(fmt)
    for n in ("Unit", "Named", "Tuple", "Enum", "Packed", "PackedBits", "Strings", "V1", "V2", "BytesField", "PackedField"):
        out.append((n, ("adt", W + n, ()), None, None))
    return out


# numbers of every size are one thing to the wire format unless they have a fixed size
PICK = ("u8", "u32", "u128", "i16", "f64", "bool", "char", "()", "&str", "[u16;3]", "(u8,i64,bool)", "Vec<u32>/0", "Vec<u32>/3",
        "Vec<Vec<u16>>", "Option<u32>", "Result<u16,bool>", "Named", "Enum", "Packed", "V2", "BytesField", "Strings")


# the inside of a packed value is bytes to everything but the type it is of
RAW = ("&str", "String", "Strings", "BytesField", "Packed", "PackedBits", "PackedField", "Vec<String>/2")


def raw(a, b):
    return a != b and "Packed" in a + b and a in RAW and b in RAW


def case(rep, f, o, m, who, ty, mk, dtys):
    fmt = K.Fmt(rep.db, f, o, m)
    if not rep.ob("anchor", fmt.enc is not None and fmt.dec is not None, f, "no Encoding::encode_with"):
        return
    db = rep.db
    I = K.interp(db)
    st = State()
    x, xv = K.value(I, st, ty, "v")
    if mk:
        xv = mk(I, st, x)
    if xv[0] == "agg":
        st.mem[("D", x)] = xv
    for s, v in K.encode(I, fmt, st, x, ty):
        if not K.is_ok(v):
            continue
        tape = T.get(s)
        n0 = len(s.trace)
        ex = not foreign(s) and not I.incomplete
        for dn, dt in dtys:
            w = "%s decoded as %s" % (who, dn)
            for s2, r in K.decode(I, fmt, s.copy(), dt):
                ex2 = ex and not foreign(s2, n0) and not I.incomplete
                if not K.is_ok(r):
                    y = why(s2)
                    rep.ob("refused-before-it-is-misread", y is None, w, "%s: of %s, %s (%s)" % (w, show(tape), y, where(fmt)), ex2)
                    continue
                rest = T.left(s2)
                rep.ob("consumed-whole", not rest, w, "%s: of %s, %s is left unread (%s)" % (w, show(tape), show(rest), where(fmt)), ex2)
    if I.incomplete:
        rep.undecided("bounded", who, str(I.incomplete[:2])[:200])
    rep.analysed(I)


def check(rep):
    db = rep.db
    NAT = 2 << 8 | 1 << 4 | 4 << 12
    jobs = []
    for f in ("wire", "descriptive"):
        for o in (0, NAT):
            for m in ("Binary", "Text") if rep.tier != "quick" else ("Binary",):
                l = list_of(f, db)
                d = [(n, dt or t) for n, t, mk, dt in l if rep.tier != "quick" or n in PICK]
                for n, t, mk, dt in l:
                    who = "%s in %s %s %s" % (n, m, f, "fixed" if o else "variable")
                    jobs.append((who, case, (f, o, m, who, t, mk, [x for x in d if not raw(n, x[0])])))
    rep.jobs(jobs)
