"""S01: what serde serializes with a format is deserialized again."""
from agree import *
from r_k01 import E

LEVEL = "proof"
EXPLANATION = (
    "Witness types whose implementations of serde are derived or use each method of its interface are encoded and decoded "
    "through musli's serializer and deserializer. The MIR of both, of serde and of the formats is interpreted on an unknown "
    "value: every path of the deserializer over what every path of the serializer wrote has to succeed, give the value back "
    "and leave nothing unread.")

CRATES = ("serde_core",)
W = "vwitness::sd::"


def types(db):
    return sorted(n[len(W):] for n in db.adts if n.startswith(W) and n.count("::") == 2)


# packed says nothing about whether there is an option
# null of JSON is both () and none; its characters are strings and its numbers
# are visited without a sign if they have none
NOT = {"packed": ("Options", "OptionUnit"),
       "json": ("OptionUnit", "AnyChar", "AnyI8", "AnyI16", "AnyI32", "AnyI64", "AnyI128")}


def skipped(I, s, got, x, xv):
    """a field which is skipped has its default"""
    fs = I.fields_of(("adt", W + "Renamed", ()))
    p = lambda v, i: I.proj(v, ("f", None, i), fs[i])
    return p(got, 1) == C(0) and all(K.same(I, s, p(got, i), p(xv, i), fs[i]) for i in (0, 2))


def text(I, s, x):
    return ("agg", W + "Text", 0, (("agg", "owned", 0, (E(I, 0, ("ref", ("str",), False)),)),))


def narrow(I, s, got, x, xv):
    a, b = I.fields_of(("adt", W + "Wide", ())), I.fields_of(("adt", W + "Narrow", ()))
    p = lambda v, i, fs: I.proj(v, ("f", None, i), fs[i])
    return K.same(I, s, p(got, 0, b), p(xv, 2, a), b[0]) and K.same(I, s, p(got, 1, b), p(xv, 0, a), b[1])


def case(rep, f, o, m, n):
    fmt = K.Fmt(rep.db, f, o, m)
    if not rep.ob("anchor", fmt.enc is not None and fmt.dec is not None, f, "no Encoding::encode_with"):
        return
    who = "%s in %s %s %s" % (n, m, f, "fixed" if o else "" if o is None else "variable")
    agree(rep, fmt, ("adt", W + n, ()), who, mk=text if n == "Text" else None,
          want=skipped if n == "Renamed" else None)
    if n == "Wide" and f in ("wire", "descriptive", "json"):
        agree(rep, fmt, ("adt", W + n, ()), who + " as Narrow", dty=("adt", W + "Narrow", ()), want=narrow)


NUMBERS = ("u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize")


def number(rep, n):
    """whatever number is visited is what serde's visitor gets"""
    db = rep.db
    fs = [p for p in db.bypath if p.startswith("<musli::serde::de::AnyVisitor<") and p.endswith("::visit_" + n)]
    if len(fs) != 1:
        rep.undecided("visits-the-number", "visit_" + n, "AnyVisitor has no visit_" + n)
        return
    f = db.find(fs[0])
    f = db.get((f[0] if isinstance(f, list) else f).h)
    I = Interp(db)
    args = [I.fresh(("arg", i), f.locals[i + 1]) for i in range(f.args)]
    st = State()
    for s, v in I.run(f, args, st, {}):
        seen = [e for e in s.trace if e[0] == "call" and e[1].startswith("serde_core::de::Visitor::visit_")]
        ok = len(seen) == 1
        if ok:
            a = seen[0][3][1]
            ok = a == args[2] or K.same(I, s, a, args[2], f.locals[3])
        rep.ob("visits-the-number", ok, "visit_" + n, "AnyVisitor::visit_%s visits %s" % (
            n, [(e[1].rsplit("::", 1)[1], str(e[3][1])[:80]) for e in seen]), exact=not I.incomplete)


def check(rep):
    db = rep.db
    NAT = 2 << 8 | 1 << 4 | 4 << 12
    jobs = []
    for f, os_ in (("storage", (0, NAT)), ("packed", (NAT,)), ("wire", (0, NAT)), ("descriptive", (0, NAT)),
                   ("json", (None,))):
        for o in os_:
            for m in ("Binary", "Text"):
                if m == "Text" and f == "packed":
                    continue
                for n in types(db):
                    if n in NOT.get(f, ()):
                        continue
                    # these need to know what they are
                    if n.startswith("Any") and f not in ("descriptive", "json"):
                        continue
                    jobs.append(("%s %s %s %s" % (n, m, f, o), case, (f, o, m, n)))
    for n in NUMBERS:
        jobs.append(("visit_" + n, number, (n,)))
    rep.jobs(jobs)
