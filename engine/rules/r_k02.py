"""K02: hand-written implementations: each way of using the interface."""
from agree import *
import r_m01 as M

LEVEL = "proof"
EXPLANATION = (
    "A crate of witness types with hand-written Encode and Decode implementations uses every method of the encoder and "
    "decoder traits which formats implement (maps and map entries in each style, remaining entries, sequences by each of "
    "their methods, slices, variants in each style, packs, options, empties, byte arrays, vectored bytes, flattening, cloned "
    "decoders, skipped and unread elements). Its MIR is analysed with each format: for an unknown value every path of the "
    "decoder over what every path of the encoder wrote has to succeed, give the value back and leave nothing unread.")

W = "vwitness::api::"
# what formats do not offer, or (for those which are not self-describing) what
# the protocol does not allow
SKIPS = ("Skipped", "SkippedKey", "SkippedTag")
UNREAD = ("UnreadSequence", "UnreadMap", "UnreadEntries", "UnreadRemaining", "UnreadPack")
NOT = {"storage": SKIPS + UNREAD + ("BytesAsArray",), "packed": SKIPS + UNREAD + ("BytesAsArray", "Opt")}


def types(db):
    return sorted(n[len(W):] for n in db.adts if n.startswith(W) and n.count("::") == 2)


def kept(I, s, got, x, xv):
    """all but b, which was not read"""
    n = xv
    fs = I.fields_of(xv_ty[0])
    p = lambda v, i: I.proj(v, ("f", None, i), fs[i])
    return p(got, 1) == C(0) and all(K.same(I, s, p(got, i), p(xv, i), fs[i]) for i in (0, 2))


xv_ty = [None]


def case(rep, f, o, m, n, pre=None):
    fmt = K.Fmt(rep.db, f, o, m)
    if not rep.ob("anchor", fmt.enc is not None and fmt.dec is not None, f, "no Encoding::encode_with"):
        return
    who = "%s in %s %s %s" % (n, m, f, "fixed" if o else "variable")
    ty = ("adt", W + n, ())
    xv_ty[0] = ty
    agree(rep, fmt, ty, who, want=kept if n in SKIPS + UNREAD + ("Cloned",) else None, pre=pre)


def check(rep):
    db = rep.db
    NAT = 2 << 8 | 1 << 4 | 4 << 12
    jobs = []
    for f, os_ in (("storage", (0, NAT, NAT | 1)), ("packed", (NAT,)), ("wire", (0, NAT)), ("descriptive", (0, NAT))):
        for o in os_ if rep.tier != "quick" else os_[:2]:
            for m in ("Binary", "Text"):
                if m == "Text" and f == "packed":
                    continue
                for n in types(db):
                    if n in NOT.get(f, ()):
                        continue
                    jobs.append(("%s %s %s %s" % (n, m, f, o), case, (f, o, m, n)))
    rep.jobs(jobs)
