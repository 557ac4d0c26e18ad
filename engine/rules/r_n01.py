"""N01: in a self-descriptive format a number decodes as any type that can hold it."""
from agree import *
import r_c01 as P

LEVEL = "proof"
EXPLANATION = (
    "For every pair of numeric types the descriptive encoder's abstract output for an unknown value of the one is the input "
    "of the descriptive decoder for the other. On every path on which decoding succeeds the value is the one encoded, and "
    "on every path on which it fails the constraints of the path entail that the value is outside of the requested type.")

INTS_ = [t for t in P.PRIMS if t[0] in ("uint", "int")]


def fits(I, s, v, ty):
    """False where what the path assumed excludes that the value is one of
    `ty`, None where that is not told"""
    lo, hi = trange(ty)
    for lo, hi in ((lo, -1), (0, hi)):
        if lo < 0 or hi >= 0:
            if maybe(I, s, v, lo, hi):
                return None
    return False


def maybe(I, s, v, lo, hi):
    r = trange(atype.get(v))
    c = s.copy()
    c.lin = c.lin.with_(sub(v, C(lo))).with_(sub(C(hi), v))
    if not c.lin.feasible() or r[1] < lo or r[0] > hi:
        return False
    # what the path assumed, given that
    for b, val in s.bl.items():
        d = I.decide_again(c, b)
        if d is not None and d != val:
            return False
    B = BT.Bits(State().lin.with_(sub(v, C(max(lo, r[0])))).with_(sub(C(min(hi, r[1])), v)))
    return any(BT.has_ops(f) and B.ge0(f) is False for f in s.lin.facts) is False


def case(rep, o, a, b):
    db = rep.db
    fmt = K.Fmt(db, "descriptive", o, "Binary")
    if not rep.ob("anchor", fmt.enc is not None and fmt.dec is not None, "descriptive", "no Encoding::encode_with"):
        return
    who = "%s as %s %s" % (tyname(a), tyname(b), P.label(o))
    I = K.interp(db)
    st = State()
    x, xv = K.value(I, st, a, "v")
    n = 0
    for s, v in K.encode(I, fmt, st, x, a):
        ex = not foreign(s) and not I.incomplete
        if not rep.ob("encodes", K.is_ok(v), who, "%s: encoding fails" % who, ex):
            continue
        n0 = len(s.trace)
        for s2, r in K.decode(I, fmt, s.copy(), b):
            ex2 = ex and not foreign(s2, n0) and not I.incomplete
            if K.is_ok(r):
                n += 1
                g = r[3][0]
                same = s2.lin.eq0(sub(g, xv))
                if not same:
                    B = BT.of_state(s2)
                    same = B.of(g, 136) == B.of(xv, 136)
                rep.ob("same-value", same, who, "%s: decodes to another value (%s)" % (who, where(fmt)), ex2)
                rep.ob("reads-exactly-what-was-written", not T.left(s2), who, "%s: leaves bytes unread (%s)" % (who, where(fmt)), ex2)
            else:
                rep.ob("refuses-only-what-does-not-fit", fits(I, s2, xv, b) is False, who,
                       "%s: refuses a value which fits%s (%s)" % (who, ": " + why(s2) if why(s2) else "", where(fmt)), ex2)
    rep.ob("decodes", n > 0, who, "%s: never decodes" % who, not I.incomplete)
    rep.analysed(I)


def check(rep):
    jobs = []
    for o in (P.opt(), P.opt(1, 0, 2, 4)) if rep.tier == "quick" else (P.opt(), P.opt(1, 0, 2, 4), P.opt(1, 1, 2, 4), P.opt(0, 1, 0, 0)):
        for a in INTS_:
            for b in INTS_:
                jobs.append(("%s as %s" % (tyname(a), tyname(b)), case, (o, a, b)))
    rep.jobs(jobs)
