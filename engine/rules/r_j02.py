"""J02: what is encoded as JSON decodes as the same thing."""
from agree import *
import r_c01 as P
import r_c02 as C2
import r_k01 as K1
import r_k02 as K2
import r_m01 as M

LEVEL = "proof"
EXPLANATION = (
    "For every primitive, container and standard library type, every derived witness type and every hand-written one, what "
    "the JSON encoder writes for an unknown value (a sequence of characters, numbers and strings) is the input of the abstract "
    "interpretation of the JSON decoder, with its parser; every path of the decoder has to succeed, give the value back and leave "
    "nothing but white space. The textual form of numbers and the escapes of strings are units here, which J01 and J03 decide.")

# JSON has no difference between none and none of none
NOT = ("Option<Option<u8>>",)
NOTK2 = ()
# bytes are an array of numbers, from which nothing can be borrowed
NOTM = ("BytesField", "V3")


def case(rep, m, who, ty, mk, dty, want=None, pre=None, borrowed=True):
    fmt = K.Fmt(rep.db, "json", None, m)
    if not rep.ob("anchor", fmt.enc is not None and fmt.dec is not None, "json", "no Encoding::encode_with"):
        return
    if want == "kept":
        K2.xv_ty[0] = ty
        want = K2.kept
    elif want == "version":
        want = C2.kept(rep.db, ty, dty)
    elif want == "inner":
        want = K1.inner
    elif want == "defaults":
        want = M.defaults
    agree(rep, fmt, ty, who, dty, mk, want, pre=pre, borrowed=borrowed)


def cases(db):
    out = []

    def add(who, m, ty, mk=None, dty=None, **k):
        out.append((who, case, (m, who, ty, mk, dty, k.get("want"), k.get("pre"), k.get("borrowed", True))))
    for t in P.PRIMS:
        add("%s in Text" % (tyname(t) if t[0] not in ("bool", "char") else t[0]), "Text", t)
    for n, t, mk, dty in P.containers("json"):
        if n not in NOT:
            add("%s in Text" % n, "Text", t, mk, dty)
            if t == P.STRING:
                add("%s with escapes in Text" % n, "Text", t, mk, dty, borrowed=False)
    for n, t, mk, dty, modes, fmts in K1.types():
        for m in modes if n not in ("a",) else ():
            add("%s in %s" % (n, m), m, t, mk, dty, want="inner" if dty else None)
            if modes == ("Binary",):
                add("%s in %s" % (n, "Text"), "Text", t, mk, dty, want="inner" if dty else None)
    for n in M.types(db):
        if n in NOTM:
            continue
        g = (("uint", "u16"),) if n == "Generic" else ()
        for m in ("Text", "Binary"):
            add("%s in %s" % (n, m), m, ("adt", M.W + n, g), want="defaults" if n == "Defaults" else None)
    for n in K2.types(db):
        if n in NOTK2:
            continue
        for m in ("Text", "Binary"):
            add("api %s in %s" % (n, m), m, ("adt", K2.W + n, ()), want="kept" if n in K2.SKIPS + K2.UNREAD + ("Cloned",) else None)
    T_ = lambda n: ("adt", C2.W + n, ())
    for m in ("Text", "Binary"):
        v = lambda n, a, b: add("%s in %s" % (n, m), m, T_(a), None, T_(b), want="version")
        v("V1 as V2", "V1", "V2")
        v("V2 as V1", "V2", "V1")
        v("V3 as V1", "V3", "V1")
        v("Three as Middle", "Three", "Middle")
        if m == "Text":
            v("V3 as V2", "V3", "V2")
            v("Named as V1", "Named", "V1")
        for n, t, mk in C2.shapes(db, "json"):
            ty, w = C2.wide(t, mk)
            add("a skipped %s in %s" % (n, m), m, ty, w, T_("Middle"), want="version")
    return out


def check(rep):
    rep.jobs(cases(rep.db))
