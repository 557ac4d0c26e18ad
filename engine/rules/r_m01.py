"""M01: derived implementations round trip."""
from agree import *

LEVEL = "proof"
EXPLANATION = (
    "The derives are expanded by the compiler over a crate of witness types, one per attribute and shape (named, tuple, "
    "unit, nested, generic and borrowed structs, enums of every tagging, renamed, numbered, transparent, packed, skipped, "
    "defaulted and conditionally encoded fields, `with` modules, byte fields, patterned names, modes), and the MIR of the "
    "expansion is analysed with the encoder and decoder of each format: for an unknown value of the type, every path of the "
    "derived decoder over what every path of the derived encoder wrote has to succeed, give the value back and leave "
    "nothing unread. Fields which are skipped have to come back as their default.")

NOT = {
    # formats a type needs more from than they have to offer
    "Internal": ("storage", "wire", "packed"),
    "InternalNumbered": ("storage", "wire", "packed"),
    # optional fields in the middle of a packed encoding
    "Three": ("packed",), "V3": ("packed",), "V2": ("packed",), "Defaults": ("packed",),
}
W = "vwitness::"


def types(db):
    return sorted(n[len(W):] for n in db.adts if n.startswith(W) and n.count("::") == 1 and n not in (W + "Plus", W + "Wide"))


def defaults(I, s, got, x, xv):
    """fields which are not encoded come back as their default"""
    ty = ("adt", W + "Defaults", ())
    fs = I.fields_of(ty)
    p = lambda v, i: I.proj(v, ("f", None, i), fs[i])
    return p(got, 1) == C(0) and p(got, 2) == C(42) and all(K.same(I, s, p(got, i), p(xv, i), fs[i]) for i in (0, 3, 4))


WANT = {"Defaults": defaults}


def case(rep, f, o, m, n, pre=None):
    fmt = K.Fmt(rep.db, f, o, m)
    if not rep.ob("anchor", fmt.enc is not None and fmt.dec is not None, f, "no Encoding::encode_with"):
        return
    who = "%s of %s in %s %s" % (n, m, f, "fixed" if o else "variable")
    g = (("uint", "u16"),) if n == "Generic" else ()
    agree(rep, fmt, ("adt", W + n, g), who, want=WANT.get(n), pre=pre, buffers=n.startswith("Internal"))


def check(rep):
    db = rep.db
    NAT = 2 << 8 | 1 << 4 | 4 << 12
    jobs = []
    for f, os_ in (("storage", (0, NAT, NAT | 1)), ("packed", (NAT, 0)), ("wire", (0, NAT)), ("descriptive", (0, NAT))):
        for o in os_ if rep.tier != "quick" else os_[:2]:
            for m in ("Binary", "Text"):
                for n in types(db):
                    if f in NOT.get(n, ()):
                        continue
                    if f == "wire" and n in ("Three", "V3"):
                        # every integer is written in one of two ways, which
                        # C01 has all of: here, all in one or all in the other
                        for pre in (small, large):
                            jobs.append(("%s %s %s %s %s" % (n, m, f, o, pre.__name__), case, (f, o, m, n, pre)))
                        continue
                    jobs.append(("%s %s %s %s" % (n, m, f, o), case, (f, o, m, n)))
    rep.jobs(jobs)
