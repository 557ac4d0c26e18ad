"""J03: what is written as JSON is JSON."""
from agree import *
import r_j02 as J

LEVEL = "proof"
EXPLANATION = (
    "For every primitive, container and standard library type, every derived witness type and every hand-written one, the abstract "
    "interpretation of the JSON encoder gives what every path writes for an unknown value: punctuation, numbers and contents of strings. "
    "Each has to be exactly one value of the grammar of RFC 8259, with strings as keys. A number which is formatted is a JSON number if "
    "it is an integer or a finite float; the contents of strings are decided by J01. That the next element of a sequence or an object is preceded by one comma "
    "is shown by induction over the state of its encoder, for any number of elements.")


class Bad(Exception):
    def __init__(self, why, exact=True):
        self.why, self.exact = why, exact


def tokens(I, s, items):
    out, i = [], 0
    items = list(items)
    while i < len(items):
        it = items[i]
        i += 1
        if it[0] == "num":
            out.append("num")
        elif it[0] == "flt":
            if s.bl.get(("finite", it[1])) is not True:
                raise Bad("a %s which may not be finite is written as a number" % tyname(it[2]))
            out.append("num")
        elif it[0] == "byte" and isc(it[1]):
            b = it[1][1]
            if b == 34:
                # one string up to the next quote
                j = i
                while j < len(items) and not (items[j][0] == "byte" and items[j][1] == C(34)):
                    x = items[j]
                    if x[0] == "byte" and isc(x[1]) and (x[1][1] == 92 or x[1][1] < 32):
                        raise Bad("a string with %r in it is written without an escape" % chr(x[1][1]))
                    if x[0] not in ("byte", "raw", "num") or x[0] == "byte" and not isc(x[1]):
                        raise Bad("a string of what is not known", False)
                    j += 1
                if j == len(items):
                    raise Bad("a string is not closed")
                out.append("str")
                i = j + 1
            elif b in b" \t\r\n":
                pass
            elif b in b"{}[],:":
                out.append(chr(b))
            else:
                w = ""
                i -= 1
                while i < len(items) and items[i][0] == "byte" and isc(items[i][1]) and (chr(items[i][1][1]).isalnum() or items[i][1][1] in b"+-."):
                    w += chr(items[i][1][1])
                    i += 1
                if w in ("true", "false", "null"):
                    out.append(w)
                elif number(w):
                    out.append("num")
                else:
                    raise Bad("%r is written" % (w or chr(b)))
        elif it[0] == "raw":
            raise Bad("text is written outside of a string")
        else:
            raise Bad("%s is written" % it[0], False)
    return out


def number(w):
    import re
    return re.fullmatch(r"-?(0|[1-9][0-9]*)(\.[0-9]+)?([eE][+-]?[0-9]+)?", w)


def value(ts, i):
    if i >= len(ts):
        raise Bad("a value is missing at the end")
    t = ts[i]
    if t in ("num", "str", "true", "false", "null"):
        return i + 1
    if t not in "{[":
        raise Bad("a value is missing before %r" % t)
    end = "}" if t == "{" else "]"
    i += 1
    if i < len(ts) and ts[i] == end:
        return i + 1
    while True:
        if t == "{":
            if i >= len(ts) or ts[i] != "str":
                raise Bad("%s is written as a key" % (repr(ts[i]) if i < len(ts) else "nothing"))
            if i + 1 >= len(ts) or ts[i + 1] != ":":
                raise Bad("a key is not followed by a colon")
            i += 2
        i = value(ts, i)
        if i >= len(ts) or ts[i] not in (",", end):
            raise Bad("what is in %s%s is followed by %s" % (t, end, repr(ts[i]) if i < len(ts) else "nothing"))
        if ts[i] == end:
            return i + 1
        i += 1


def case(rep, who, ty, mk, m, pre):
    fmt = K.Fmt(rep.db, "json", None, m)
    if not rep.ob("anchor", fmt.enc is not None, "json", "no Encoding::encode_with"):
        return
    I = K.interp(rep.db, json=True)
    st = State()
    x, xv = K.value(I, st, ty, "v")
    if mk:
        xv = mk(I, st, x)
    if xv[0] == "agg":
        st.mem[("D", x)] = xv
    if pre:
        pre(I, st, xv, ty)
    n = 0
    for s, v in K.encode(I, fmt, st, x, ty):
        ex = not foreign(s) and not I.incomplete
        if not K.is_ok(v):
            continue
        n += 1
        try:
            ts = tokens(I, s, T.get(s))
            e = value(ts, 0)
            if e != len(ts):
                raise Bad("%r follows the value" % ts[e])
            rep.ob("grammar", True, who, "")
        except Bad as b:
            rep.ob("grammar", False, who, "%s: %s (%s)" % (who, b.why, loc(fmt.enc)), ex and b.exact)
    rep.ob("encodes", n > 0, who, "%s: never encodes" % who, not I.incomplete)
    if I.incomplete:
        rep.undecided("bounded", who, str(I.incomplete[:2])[:200])
    rep.analysed(I)


# what asks for the next element: (trait, method, the method of what it returns which writes first)
NEXT = (("musli_core::en::sequence_encoder::SequenceEncoder", "encode_next", None),
        ("musli_core::en::map_encoder::MapEncoder", "encode_entry", ("musli_core::en::entry_encoder::EntryEncoder", "encode_key")),
        ("musli_core::en::entries_encoder::EntriesEncoder", "encode_entry_key", None))


def okay(v):
    """the contents of Ok, or of what is not a result; None for an error"""
    if v[0] == "agg" and v[1].endswith("::Result"):
        return v[3][0] if v[2] == 0 else None
    return v


def call(I, f, st, v, name):
    root = ("L", (name, 0), 0)
    ty = f.locals[1][1]
    I.root_types[root] = ty
    st.mem[root] = v
    return [(s, okay(r)) for s, r in I.run(f, [("ref", root, (), True, (ty,))], st, {}) if okay(r) is not None], root


def step(rep, I, f, g, st, v):
    """[(what is written, the encoder afterwards, state)] for everything which asking for the next element can do"""
    n0 = len(list(st.trace))
    one, root = call(I, f, st, v, "encoder")
    out = []
    for s, o in one:
        for s2 in [x for x, _ in call(I, g, s, o, "entry")[0]] if g else [s]:
            w = []
            for e in list(s2.trace)[n0:]:
                if e[0] == "call" and e[2].rsplit("::", 1)[-1].startswith("write_"):
                    w.append(e[3][-1] if e[2].endswith("::write_byte") else None)
            out.append((w, s2.mem[root], s2))
    return out


def scalars(db, adt):
    return [i for i, (_, t) in enumerate(db.adts[adt]["variants"][0]["fields"]) if t and t[0] in ("uint", "int", "bool")]


def separated(rep, who, adt, f, g, ctors):
    """nothing is written before the first element and one comma before every other, however many there are"""
    db = rep.db
    rep.fn(f)
    I = Interp(db, opaque=lambda c: c.tr in ("musli_core::context::Context", "musli_core::writer::Writer") or c.n.startswith("write_"))
    fields = scalars(db, adt)
    comma = lambda w: len(w) == 1 and w[0] == C(44)
    for c in ctors:
        st = State()
        for s, r in I.run(c, [I.fresh(("arg", "new", i), c.locals[i + 1]) for i in range(c.args)], st, {}):
            v0 = okay(r)
            if v0 is None or v0[0] != "agg":
                continue
            for w1, v1, s1 in step(rep, I, f, g, s, v0):
                rep.ob("separated", w1 == [], "%s: first" % who, "%s: something is written before the first element (%s)" % (who, loc(f)),
                       exact=not I.incomplete)
                for w2, v2, s2 in step(rep, I, f, g, s1, v1):
                    rep.ob("separated", comma(w2), "%s: second" % who, "%s: no comma before the second element (%s)" % (who, loc(f)),
                           exact=not I.incomplete)
                    # what holds after any number of elements
                    fs, inv = list(v2[3]), []
                    for i in fields:
                        a, b = v1[3][i], v2[3][i]
                        if a == b:
                            inv.append((i, "is", a))
                        elif isc(a) and isc(b) and a[1] < b[1]:
                            inv.append((i, "from", a))
                            fs[i] = I.settype(("arg", "count", i), db.adts[adt]["variants"][0]["fields"][i][1])
                            s2.lin = s2.lin.with_(sub(fs[i], a))
                        else:
                            fs[i] = I.settype(("arg", "count", i), db.adts[adt]["variants"][0]["fields"][i][1])
                    for w3, v3, s3 in step(rep, I, f, g, s2, v2[:3] + (tuple(fs),)):
                        kept = all(v3[3][i] == a if how == "is" else s3.lin.entails(sub(v3[3][i], a)) for i, how, a in inv)
                        rep.ob("separated", comma(w3) and kept, "%s: any" % who,
                               "%s: after some number of elements there is no comma before the next (%s)" % (who, loc(f)),
                               exact=not I.incomplete)
    rep.analysed(I)


def sequences(rep):
    db = rep.db
    out = []
    for tr, m, then in NEXT:
        for i, f in db.method(tr, lambda h: h[0] == "adt" and h[1].startswith("musli::json::"), m):
            adt = i["self"][1]
            g = None
            if then:
                t = f.locals[0][2][0]
                g = [x for _, x in db.method(then[0], lambda h: h[0] == "adt" and h[1] == t[1], then[1])] if t[0] == "adt" else []
                if not rep.ob("anchor", len(g) == 1, f.d, "%s returns what writes no key" % f.d):
                    continue
                g = g[0]
            ctors = [c for c in (db.get(h) for h, x in list(db.fns.items()) if x.d.startswith("musli::json::en")) if c.blocks and makes(c, adt)]
            if rep.ob("anchor", bool(ctors), adt, "%s is never made" % adt):
                out.append(("separated %s" % f.d, separated, (f.d, adt, f, g, ctors)))
    return out


def makes(c, adt):
    return any(s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "adt" and s[2][1][1] == adt
               for b in c.blocks if b for s in b[0])


def check(rep):
    out, seen = [], set()
    for name, f, (m, who, ty, mk, dty, want, pre, borrowed) in J.cases(rep.db):
        k = (ty, mk, m, pre)
        if k in seen:
            continue
        seen.add(k)
        out.append((name, case, (who, ty, mk, m, pre)))
    rep.jobs(out + sequences(rep))
