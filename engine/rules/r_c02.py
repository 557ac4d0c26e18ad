"""C02: formats which can be upgraded tolerate fields which are added, removed
or moved."""
from agree import *
import r_c01 as P

LEVEL = "proof"
EXPLANATION = (
    "For the formats which are upgrade stable (wire and descriptive), what the derived encoder of one version of a type "
    "writes for an unknown value is the input of the derived decoder of another version: every path has to succeed, give "
    "back the fields both have, the defaults of those the encoded version lacks, and consume the whole value. The field "
    "that is not known ranges over every primitive and container type and over the witness types of every shape, so each "
    "kind of encoded value is one that is skipped. Obligations are (format, options, mode, pair, path).")

W = "vwitness::"


def field_names(db, t):
    return [f[0] for f in db.adts[t[1]]["variants"][0]["fields"]]


def kept(db, ty, dty):
    """fields which both have are kept, others are their default"""
    a, b = field_names(db, ty), field_names(db, dty)

    def want(I, s, got, x, xv):
        fa, fb = I.fields_of(ty), I.fields_of(dty)
        for j, n in enumerate(b):
            v = I.proj(got, ("f", None, j), fb[j])
            if n in a:
                i = a.index(n)
                if not K.same(I, s, v, I.proj(xv, ("f", None, i), fa[i]), fa[i]):
                    return False
            elif fb[j][0] == "adt":
                if not (v[0] == "agg" and v[2] == 0):
                    return False
            elif v != C(0):
                return False
        return True
    return want


def wide(t, mk):
    """a value of Wide<T> whose field is built by mk"""
    ty = ("adt", W + "Wide", (t,))

    def f(I, st, x):
        v = ("deref", x)
        fs = I.fields_of(ty)
        p = lambda i: I.proj(v, ("f", None, i), fs[i])
        return ("agg", W + "Wide", 0, (p(0), mk(I, st, x) if mk else p(1), p(2)))
    return ty, f if mk else None


def case(rep, f, o, m, who, ty, dty, mk, pre):
    fmt = K.Fmt(rep.db, f, o, m)
    if not rep.ob("anchor", fmt.enc is not None and fmt.dec is not None, f, "no Encoding::encode_with"):
        return
    agree(rep, fmt, ty, who, dty, mk, want=kept(rep.db, ty, dty), pre=pre)


def string_ref(I, st, x):
    return I.fresh(("arg", "s", "str"), ("ref", ("str",), False))


# the shapes the skipped field takes
def shapes(db, fmt):
    out = [(tyname(t) if t[0] not in ("bool", "char") else t[0], t, None) for t in P.PRIMS]
    for n, t, mk, dty in P.containers(fmt):
        if dty is None:
            out.append((n, t, mk))
    out.append(("&str", ("ref", ("str",), False), string_ref))
    for n in ("Named", "Tuple", "Unit", "Nested", "Enum", "Packed", "PackedBits", "Strings", "Adjacent", "Transparent", "PackedField", "V1", "With"):
        if W + n in db.adts:
            out.append((n, ("adt", W + n, ()), None))
    return out


def check(rep):
    db = rep.db
    NAT = 2 << 8 | 1 << 4 | 4 << 12
    T = lambda n: ("adt", W + n, ())
    jobs = []

    def job(f, o, m, n, ty, dty, mk=None, pre=None):
        who = "%s in %s %s %s%s" % (n, m, f, "fixed" if o else "variable", " " + pre.__name__ if pre else "")
        jobs.append((who, case, (f, o, m, who, ty, dty, mk, pre)))
    for f in ("wire", "descriptive"):
        for o in (0, NAT):
            if o and rep.tier == "quick" and f == "descriptive":
                continue
            for m in ("Binary", "Text"):
                for pre in (small, large) if f == "wire" and not o else (None,):
                    job(f, o, m, "V1 as V2", T("V1"), T("V2"), None, pre)
                    job(f, o, m, "V2 as V1", T("V2"), T("V1"), None, pre)
                    job(f, o, m, "V3 as V1", T("V3"), T("V1"), None, pre)
                    job(f, o, m, "Three as Middle", T("Three"), T("Middle"), None, pre)
                    if m == "Text":
                        job(f, o, m, "V3 as V2", T("V3"), T("V2"), None, pre)
                        job(f, o, m, "Named as V1", T("Named"), T("V1"), None, pre)
                job(f, o, m, "Named as Reordered" if m == "Binary" else "Reordered as itself", T("Named") if m == "Binary" else T("Reordered"), T("Reordered"))
                for n, t, mk in shapes(db, f):
                    ty, w = wide(t, mk)
                    for pre in (small, large) if n == "Nested" and f == "wire" else (None,):
                        job(f, o, m, "a skipped %s" % n, ty, T("Middle"), w, pre)
    rep.jobs(jobs)
