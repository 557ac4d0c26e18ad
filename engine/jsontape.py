"""The JSON format on the abstract tape.

Punctuation and literals are bytes. A number which is formatted is one item,
the contents of a string is one item: what their digits and escapes are is not
decided here."""
from absint import *
import models as M
import tape as T

P = "musli::json::parser::parser::Parser::"
INT = "musli::json::parser::integer::"
TOK = "musli::json::parser::token::Token"
SREF = "musli::json::parser::string::StringReference"
STRREF = ("ref", ("str",), False)
U8 = ("uint", "u8")
NUM = set(b"0123456789+-.eE")
WS = b" \n\t\r"


def variant(I, name, v):
    for i, x in enumerate(I.db.adts[name]["variants"]):
        if x["n"] == v:
            return i
    return None


# ---- writing
def text(kind):
    def f(I, c, st):
        t = c.tys[1]
        r = I.settype((kind, c.args[1], t), STRREF)
        return M.ret(st, r)
    return f


def write_bytes(I, c, st):
    s = I.snapshot(st, c.args[2])
    if s[0] == "numtext":
        T.emit(I, c, st, (("num", s[1], s[2]),))
        return M.ret(st, M.ok(UNIT))
    if s[0] == "flttext":
        T.emit(I, c, st, (("flt", s[1], s[2]),))
        return M.ret(st, M.ok(UNIT))
    b = M.const_bytes(I, st, s) if hasattr(M, "const_bytes") else None
    if s[0] == "bytes_ref":
        b = s[1]
    if b is not None:
        T.emit(I, c, st, tuple(("byte", C(x)) for x in b))
        return M.ret(st, M.ok(UNIT))
    return T.write_bytes(I, c, st)


def encode_string(I, c, st):
    s = I.snapshot(st, c.args[2])
    T.emit(I, c, st, (("byte", C(34)), ("raw", s), ("byte", C(34))))
    return M.ret(st, M.ok(UNIT))


def char_utf8(I, c, st):
    return M.ret(st, I.settype(("chartext", c.args[0]), STRREF))


def chars(I, c, st):
    s = c.args[0]
    if s[0] == "chartext":
        return M.ret(st, ("agg", "listiter", 0, (("agg", "rest", 0, (s[1],)),)))
    return None


# bytes are numbers, so they are taken by how many they are: a slice of bytes
# which is not known has two
BYTES = ("slice", U8)


def bytes_iter(I, c, st):
    import codec as K
    r = K.iter_slice(I, c, st)
    s, t = c.args[0], c.tys[0]
    if r is not None or not t or t != ("ref", BYTES, False) or s[0] == "unsz":
        return r
    n = I.slen(s)
    if st.lin.eq0(sub(n, C(0))):
        return None
    l = tuple(I.settype(("byteat", s, i), U8) for i in range(2))
    root = ("L", ("bytesof", c.ctx, len(st.trace)), 0)
    st.mem[root] = ("agg", "array", 0, l)
    es = tuple(("ref", root, (("i", C(i)),), False) for i in range(2))
    for e in es:
        I.term_types.setdefault(e, ("ref", U8, False))
    return M.ret(st, ("agg", "listiter", 0, (("agg", "rest", 0, es),)))


def bytes_into_iter(I, c, st):
    import codec as K
    r = K.iter_any(I, c, st)
    return r if r is not None else bytes_iter(I, c, st)


def next_back(I, c, st):
    import codec as K
    r = c.args[0]
    v = I.load(st, r[1], r[2]) if r[0] == "ref" else st.mem.get(("D", r))
    if v is None or v[0] != "agg" or v[1] != "listiter":
        return None
    es = v[3][0][3]
    if not es:
        return M.ret(st, M.NONE)
    K.setlist(I, st, r, ("agg", "listiter", 0, (("agg", "rest", 0, es[:-1]),)))
    return M.ret(st, M.some(es[-1]))


# ---- reading
def items_for(I, c, st):
    return T.items_for(I, c, st)


def put(I, c, st, items):
    T.put(st, items, T.root(I, c, st))


def head_byte(items):
    if items and items[0][0] == "byte" and isc(items[0][1]):
        return items[0][1][1]
    return None


def blank(I, c, st):
    """what is left after white space"""
    items = items_for(I, c, st)
    while head_byte(items) is not None and head_byte(items) in WS:
        items = items[1:]
    put(I, c, st, items)
    return items


def skip_whitespace(I, c, st):
    blank(I, c, st)
    return M.ret(st, UNIT)


def lex(I, c, st):
    items = blank(I, c, st)
    if not items:
        return M.ret(st, ("agg", TOK, variant(I, TOK, "Eof"), ()))
    k = items[0][0]
    if k in ("num", "flt"):
        return M.ret(st, ("agg", TOK, variant(I, TOK, "Number"), ()))
    b = head_byte(items)
    if b is None:
        return None
    return list(I.run(I.db.find(TOK + "::from_byte"), [C(b)], st, {}))


def peek(I, c, st):
    items = items_for(I, c, st)
    if not items:
        return M.ret(st, M.NONE)
    b = head_byte(items)
    if b is not None:
        return M.ret(st, M.some(C(b)))
    if items[0][0] in ("num", "flt"):
        # a digit or a sign
        x = I.fresh(("digit", c.ctx), U8)
        st.lin = st.lin.with_(sub(x, C(45))).with_(sub(C(57), x))
        return M.ret(st, M.some(x))
    return None


def skip(I, c, st):
    n = c.args[2]
    items = items_for(I, c, st)
    if not isc(n):
        return None
    for _ in range(n[1]):
        if head_byte(items) is None:
            return T.read_err(I, c, st, "part of %s is skipped" % (items[0][0] if items else "nothing"))
        items = items[1:]
    put(I, c, st, items)
    return M.ret(st, M.ok(UNIT))


def read(I, c, st):
    """read(cx, buf)"""
    s = c.args[2]
    if s[0] != "unsz":
        return None
    n = I.slen(s)
    if not isc(n):
        return None
    items = items_for(I, c, st)
    out = []
    for _ in range(n[1]):
        if head_byte(items) is None:
            return T.read_err(I, c, st, "%s is read as text" % (items[0][0] if items else "the end"))
        out.append(C(items[0][1][1]))
        items = items[1:]
    put(I, c, st, items)
    r = s[1]
    if r[0] != "ref":
        return None
    root, path, tys = I.deref(r, None)
    for i, b in enumerate(out):
        I.store(st, root, path + (("i", C(i)),), None, b)
    return M.ret(st, M.ok(UNIT))


def parse_exact(I, c, st):
    """parse_exact(cx, text)"""
    s = c.args[2]
    if s[0] != "bytes_ref":
        return None
    want = s[1]
    items = items_for(I, c, st)
    for w in want:
        b = head_byte(items)
        if b is None:
            return T.read_err(I, c, st, "%s is read as text" % (items[0][0] if items else "the end"))
        if b != w:
            return M.ret(st, M.err(("unexpected", C(b))))
        items = items[1:]
    put(I, c, st, items)
    return M.ret(st, M.ok(UNIT))


def refuse(I, c, st):
    return M.ret(st, M.err(("refused", "number")))


def apart(items):
    """nothing which would be part of the number follows it"""
    if len(items) < 2:
        return True
    n = items[1]
    return n[0] == "byte" and isc(n[1]) and n[1][1] not in NUM


def number(I, c, st):
    items = blank(I, c, st)
    if not items:
        return None, refuse(I, c, st)
    if items[0][0] not in ("num", "flt"):
        if head_byte(items) is not None and head_byte(items) not in NUM:
            return None, refuse(I, c, st)
        return None, T.read_err(I, c, st, "a number is read where %s was written" % items[0][0])
    if not apart(items):
        return None, T.read_err(I, c, st, "a number is followed by something which is taken for part of it")
    put(I, c, st, items[1:])
    return items[0], None


def parse_int(I, c, st):
    """parse_unsigned and parse_signed"""
    n, r = number(I, c, st)
    if r is not None:
        return r
    t = c.targs[0] if c.targs[0][0] in ("uint", "int") else c.rty[2][0]
    if n[0] == "flt" or n[2][0] == "float":
        # a whole number or not
        return [(st.copy(), M.err(("refused", "float"))), (st, M.ok(I.fresh(("whole", n[1], c.ctx), t)))]
    lo, hi = trange(t)
    a, b = trange(n[2])
    outs = []
    if lo <= a and b <= hi:
        return M.ret(st, M.ok(n[1]))
    for s, ok in I.branch(st, ("band", ("ge0", sub(n[1], C(lo))), ("ge0", sub(C(hi), n[1])))):
        outs.append((s, M.ok(n[1]) if ok else M.err(("refused", "range"))))
    return outs


def parse_float(I, c, st):
    n, r = number(I, c, st)
    if r is not None:
        return r
    t = c.rty[2][0]
    if n[0] == "flt" and n[2] == t:
        return M.ret(st, M.ok(n[1]))
    return M.ret(st, M.ok(I.fresh(("float", n[1], c.ctx), t)))


def skip_number(I, c, st):
    n, r = number(I, rev(c), st)
    return r if r is not None else M.ret(st, M.ok(UNIT))


def rev(c):
    """functions take the context before the parser"""
    n = Call()
    n.args, n.tys, n.frame, n.block, n.site, n.ctx, n.rty = [c.args[1], c.args[0]], [c.tys[1], c.tys[0]], c.frame, c.block, c.site, c.ctx, c.rty
    n.targs = getattr(c, "targs", None)
    return n


def of_rev(f):
    return lambda I, c, st: f(I, rev(c), st)


def string_ref(I, c, st, s):
    v = "Borrowed" if I.borrowed else "Scratch"
    return M.ret(st, M.ok(("agg", SREF, variant(I, SREF, v), (s,))))


def parse_string_inner(I, c, st):
    """what follows the opening quote"""
    items = items_for(I, c, st)
    if items and items[0][0] in ("num", "flt") and items[1:] and head_byte(items[1:]) == 34:
        s = I.settype(("numtext", items[0][1], items[0][2]), STRREF)
    elif items and items[0][0] == "raw" and head_byte(items[1:]) == 34:
        s = items[0][1]
    else:
        out = []
        while items and head_byte(items) not in (34, None, 92):
            out.append(head_byte(items))
            items = items[1:]
        if head_byte(items) != 34:
            return T.read_err(I, c, st, "a string is read where %s was written" % (items[0][0] if items else "nothing"))
        put(I, c, st, items[1:])
        return string_ref(I, c, st, I.settype(("bytes_ref", bytes(out)), STRREF))
    put(I, c, st, items[2:])
    return string_ref(I, c, st, s)


def skip_string_inner(I, c, st):
    r = parse_string_inner(I, c, st)
    return [(s, M.ok(UNIT) if v[2] == 0 else v) for s, v in r]


def str_parse(I, c, st):
    """the number a string is"""
    s, t = I.snapshot(st, c.args[0]), c.targs[0]
    if t[0] not in ("uint", "int"):
        return None
    lo, hi = trange(t)
    if s[0] == "bytes_ref":
        try:
            n = int(s[1].decode())
        except ValueError:
            n = None
        if n is None or not lo <= n <= hi:
            return M.ret(st, M.err(("refused", "number")))
        return M.ret(st, M.ok(C(n)))
    if s[0] != "numtext":
        return None
    outs = []
    for s2, ok in I.branch(st, ("band", ("ge0", sub(s[1], C(lo))), ("ge0", sub(C(hi), s[1])))):
        outs.append((s2, M.ok(s[1]) if ok else M.err(("refused", "range"))))
    return outs


def slice_parser(I, c, st):
    """a parser of the text of a number"""
    s = c.args[0]
    if s[0] != "numtext":
        return None
    v = ("tclone", ("sub", c.ctx, len(st.trace)))
    T.put(st, (("num", s[1], s[2]),), ("T", v))
    return M.ret(st, v)


def decode_signed_full(I, c, st):
    """the parts of a number, which are put together again by compute"""
    n, r = number(I, rev(c), st)
    if r is not None:
        return r
    t = c.targs[0]
    whole = n[0] != "flt" and n[2][0] != "float"
    outs = []
    for s, neg in I.branch(st, ("not", ("ge0", n[1]))) if whole else ((st, True), (st.copy(), False)):
        p = ("agg", INT + "Parts", 0, (("partsof", n[1], n[2], whole),))
        outs.append((s, M.ok(("agg", INT + "SignedPartsFull", 0, (C(1) if neg else C(0), p)))))
    return outs


def compute(I, c, st):
    r = c.args[0]
    v = I.load(st, r[1], r[2]) if r[0] == "ref" else r
    if v[0] == "agg" and v[1] == INT + "SignedPartsFull":
        v = v[3][1]
    if v[0] != "agg" or v[1] != INT + "Parts" or v[3][0][0] != "partsof":
        return None
    _, n, t, whole = v[3][0]
    if not whole:
        # a float may be written like a number which is not one, or which does
        # not fit
        o = c.rty[2][0]
        return [(st.copy(), M.err(("refused", "fraction"))), (st, M.ok(I.fresh(("whole", n, c.ctx), o)))]
    return M.ret(st, M.ok(n))


def compute_float(I, c, st):
    r = c.args[0]
    v = I.load(st, r[1], r[2]) if r[0] == "ref" else r
    if v[0] == "agg" and v[1] == INT + "SignedPartsFull":
        v = v[3][1]
    if v[0] != "agg" or v[1] != INT + "Parts" or v[3][0][0] != "partsof":
        return None
    return M.ret(st, I.fresh(("tofloat", v[3][0][1], c.ctx), ("float", "f64")))


def is_finite(I, c, st):
    return [(s, C(1) if ok else C(0)) for s, ok in I.branch(st, ("finite", c.args[0]))]


MODELS = {
    "core::f32::<impl f32>::is_finite": is_finite,
    "core::f64::<impl f64>::is_finite": is_finite,
    "core::num::<impl f32>::is_finite": is_finite,
    "core::num::<impl f64>::is_finite": is_finite,
    "itoa::Buffer::format": text("numtext"),
    "itoa::Buffer::new": lambda I, c, st: M.ret(st, ("textbuf",)),
    "ryu::Buffer::new": lambda I, c, st: M.ret(st, ("textbuf",)),
    "ryu::buffer::Buffer::new": lambda I, c, st: M.ret(st, ("textbuf",)),
    "ryu::Buffer::format": text("flttext"),
    "ryu::buffer::Buffer::format": text("flttext"),
    "musli::json::en::encode_string": encode_string,
    "core::char::methods::<impl char>::encode_utf8": char_utf8,
    "core::str::<impl str>::chars": chars,
    "musli::writer::Writer::write_bytes": write_bytes,
    P + "skip_whitespace": skip_whitespace,
    P + "lex": lex,
    P + "peek": peek,
    P + "skip": skip,
    P + "read": read,
    P + "parse_exact": parse_exact,
    P + "parse_string_inner": parse_string_inner,
    P + "skip_string_inner": skip_string_inner,
    P + "parse_f32": parse_float,
    P + "parse_f64": parse_float,
    P + "borrow_mut": T.handle,
    P + "try_clone": T.try_clone,
    "musli::json::parser::into_parser::IntoParser::into_parser": T.handle,
    "musli::json::parser::slice_parser::SliceParser::<'de>::new": slice_parser,
    "core::slice::<impl [T]>::iter": bytes_iter,
    "core::iter::traits::collect::IntoIterator::into_iter": bytes_into_iter,
    "core::iter::traits::double_ended::DoubleEndedIterator::next_back": next_back,
    "core::str::<impl str>::parse": str_parse,
    INT + "decode_signed_full": decode_signed_full,
    INT + "SignedPartsFull::<T>::compute": compute,
    INT + "Parts::<T>::compute": compute,
    INT + "SignedPartsFull::<T>::compute_float": compute_float,
    INT + "Parts::<T>::compute_float": compute_float,
    INT + "skip_number": skip_number,
    INT + "parse_unsigned_full": of_rev(parse_int),
    INT + "parse_signed_full": of_rev(parse_int),
    INT + "parse_unsigned_base": of_rev(parse_int),
    INT + "parse_signed_base": of_rev(parse_int),
}
