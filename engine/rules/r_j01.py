"""J01: the strings of JSON."""
import itertools
from common import *
import codec as K
import corealloc
import evalterm as ET
import models as M
import tape as T

LEVEL = "proof"
EXPLANATION = (
    "The abstract interpretation of the writer of strings over strings of unknown bytes, and of the reader of strings and of the "
    "one which skips them over texts with unknown bytes, gives the conditions of every path and what it writes or reads, in terms of "
    "these bytes and of the tables of the source. Both are decided for every value of a byte, of an escape and of a surrogate, against "
    "RFC 8259; a string which is made of bytes without a check has to be made of parts which were checked.")

U8 = ("uint", "u8")
EN = "musli::json::en::encode_string"
PARSERS = (("SliceParser", "musli::json::parser::slice_parser::SliceParser"),
           ("MutSliceParser", "musli::json::parser::mut_slice_parser::MutSliceParser"))
UTF8 = ("core::str::converts::from_utf8", "core::str::<impl str>::from_utf8", "musli::str::from_utf8", "simdutf8::basic::from_utf8")
UNCHECKED = ("core::str::converts::from_utf8_unchecked", "core::str::<impl str>::from_utf8_unchecked")


# ---- RFC 8259
def rfc(text, utf8=True):
    """what follows the opening quote -> the bytes of the string and how long it is, or None"""
    out, i = b"", 0
    esc = {34: 34, 92: 92, 47: 47, 98: 8, 102: 12, 110: 10, 114: 13, 116: 9}

    def hexes(i):
        s = text[i:i + 4]
        if len(s) < 4 or any(c not in b"0123456789abcdefABCDEF" for c in s):
            return None
        return int(s, 16)
    while True:
        if i >= len(text):
            return None
        c = text[i]
        i += 1
        if c == 34:
            break
        if c < 32:
            return None
        if c != 92:
            out += bytes((c,))
            continue
        if i >= len(text):
            return None
        c = text[i]
        i += 1
        if c in esc:
            out += bytes((esc[c],))
            continue
        if c != 117:
            return None
        n = hexes(i)
        if n is None or 0xdc00 <= n <= 0xdfff:
            return None
        i += 4
        if 0xd800 <= n <= 0xdbff:
            if text[i:i + 2] != b"\\u":
                return None
            m = hexes(i + 2)
            if m is None or not 0xdc00 <= m <= 0xdfff:
                return None
            i += 6
            n = 0x10000 + (n - 0xd800 << 10) + (m - 0xdc00)
        out += chr(n).encode()
    if utf8 and not valid(out):
        return None
    return out, i


def valid(b):
    try:
        b.decode()
        return True
    except UnicodeDecodeError:
        return False


# ---- bytes
def items(I, st, s):
    """the bytes of a slice"""
    if s[0] == "bytes_ref":
        return tuple(C(x) for x in s[1])
    if s[0] == "kref" and s[1][0] == "agg":
        return s[1][3]
    if s[0] == "chartext":
        return (("utf8of", s[1]),)
    if s[0] == "unsz":
        return items(I, st, s[1])
    if s[0] == "sub":
        b = items(I, st, s[1])
        if b is None or not isc(s[2]) or not isc(s[3]):
            return None
        return b[s[2][1]:s[3][1]]
    if s[0] == "ref":
        v = I.load(st, s[1], s[2])
        if v[0] == "agg" and v[1] == "array":
            return v[3]
        if v[0] == "rep" and isc(v[2]):
            return (v[1],) * v[2][1]
        if v[0] == "bytes":
            return tuple(C(x) for x in v[1])
    return None


def extend(I, c, st):
    v, b = K.settable(I, st, c.args[0]), items(I, st, c.args[1])
    if v is None or b is None:
        return None
    K.setlist(I, st, c.args[0], ("agg", "array", 0, v[3] + b))
    return M.ret(st, M.ok(UNIT))


def from_utf8(I, c, st):
    b = items(I, st, c.args[0])
    if b is None:
        return None
    outs = []
    for s, ok in I.branch(st, ("utf8", b)):
        outs.append((s, M.ok(c.args[0]) if ok else M.err(("refused", "utf8"))))
    return outs


def unchecked(I, c, st):
    st.ev("unchecked", items(I, st, c.args[0]), c.site)
    return M.ret(st, c.args[0])


def char_utf8(I, c, st):
    return M.ret(st, I.settype(("chartext", c.args[0]), ("ref", ("str",), True)))


def as_bytes(I, c, st):
    if c.args[0][0] == "chartext":
        return M.ret(st, c.args[0])
    return None


def from_u32(I, c, st):
    a = c.args[0]
    if isc(a):
        return None
    return [(s, M.some(I.settype(("char_of", a), ("char",))) if ok else M.NONE) for s, ok in I.branch(st, ("validchar", a))]


def interp(db):
    ms = dict(K.CODEC)
    ms.update(corealloc.models(K.CODEC))
    ms["musli_core::alloc::vec::Vec::<T, A>::extend_from_slice"] = extend
    for n in UTF8:
        ms[n] = from_utf8
    for n in UNCHECKED:
        ms[n] = unchecked
    ms["core::char::methods::<impl char>::encode_utf8"] = char_utf8
    ms["core::str::<impl str>::as_bytes"] = as_bytes
    ms["core::char::methods::<impl char>::from_u32"] = ms["core::char::convert::from_u32"] = from_u32
    I = Sorted(db, opaque=lambda c: c.tr == K.CONTEXT, models=ms, depth=60)
    I.use_bits = True
    I.unroll = 40
    I.rec = 4
    return I


class Sorted(Interp):
    """with the values an entry of a table can still have as a range"""

    def merge(self, outs):
        return outs

    def load_root(self, st, root):
        if root not in st.mem and root[0] == "D" and root[1][0] == "sub":
            b = items(self, st, root[1])
            if b is not None:
                return ("agg", "array", 0, b)
        return Interp.load_root(self, st, root)

    def assume(self, st, b, val):
        if not Interp.assume(self, st, b, val):
            return False
        for t in lookups(b):
            vs = sorted(set(entries(t)))
            if len(vs) > 64:
                continue
            vs = [v for v in vs if st.lin.with_(sub(t, C(v))).with_(sub(C(v), t)).feasible() and
                  not any(d == sub(t, C(v)) or d == sub(C(v), t) for d in st.lin.dis)]
            if not vs:
                return False
            st.lin = st.lin.with_(sub(t, C(vs[0]))).with_(sub(C(vs[-1]), t))
        return True


def entries(t):
    v = t[1]
    if v[0] == "bytes":
        return v[1]
    return [x[1] for x in v[3]]


def lookups(t):
    """the entries of tables of known values in a term"""
    if t[0] == "idx" and (t[1][0] == "bytes" or t[1][0] == "agg" and all(isc(x) for x in t[1][3])):
        return {t}
    out = set()
    for x in t[1:] if t[0] != "lin" else [a for a, _ in t[2]]:
        if isinstance(x, tuple) and x and isinstance(x[0], str):
            out |= lookups(x)
    return out


def text(I, st, tmpl):
    """a slice of bytes, of which None are not known"""
    n, bs, k = len(tmpl), [], 0
    for x in tmpl:
        if x is None:
            bs.append(I.fresh(("byte", k), U8))
            k += 1
        else:
            bs.append(C(x))
    root = ("L", ("text",), 0)
    I.root_types[root] = ("array", U8, ("ci", n))
    st.mem[root] = ("agg", "array", 0, tuple(bs))
    s = ("unsz", ("ref", root, (), False, ()), C(n))
    I.term_types[s] = ("ref", ("slice", U8), False)
    return s, tuple(b for b in bs if not isc(b))


def other(c, t):
    """what else is known of bytes"""
    if t[0] == "utf8":
        c.env["valid"] = valid
        return "valid(%s)" % joined(c, t[1])
    if t[0] == "char_of":
        return c.src(t[1])
    if t[0] == "validchar":
        return "(0<=%s<0xd800 or 0xe000<=%s<0x110000)" % (c.src(t[1]), c.src(t[1]))
    return None


def joined(c, its):
    c.env["char"] = lambda n: chr(n).encode("utf-8", "surrogatepass")
    c.env["bytes"] = bytes
    out = []
    for x in its:
        if x[0] == "utf8of":
            out.append("char(%s)" % c.src(x[1]))
        else:
            out.append("bytes((%s,))" % c.src(x))
    return "+".join(out) or "bytes()"


def decide(rep, rule, who, I, outs, bs, points, expect, result, more=None):
    """every path which is taken for some bytes gives what is expected of them.
    `result`: state, value -> a source, or None for a refusal, or the reason why it is not known"""
    if I.incomplete:
        return rep.undecided(rule, who, "not followed: %s" % (I.incomplete[0],))
    comp = ET.Compiler({b: "b%d" % i for i, b in enumerate(bs)}, lambda c, t: more and more(c, t) or other(c, t))
    paths = []
    for s, v in outs:
        try:
            h, unk = comp.holds(s)
            r = result(comp, s, v)
            r = r if r is None else comp.fn(r)
        except ET.Unknown as e:
            return rep.undecided(rule, who, "%s is not known" % (str(e.args[0])[-200:],))
        paths.append((h, unk, r))
    bad = None
    n = 0
    for p in points:
        n += 1
        want = expect(p)
        taken = 0
        for h, unk, r in paths:
            if not h(*p):
                continue
            taken += 1
            try:
                got = None if r is None else r(*p)
            except (ValueError, OverflowError):
                got = "no character"
            if got != want and not (unk and bad):
                bad = (p, want, got, unk)
        if not taken:
            bad = (p, want, "nothing", ())
        if bad and not bad[3]:
            break
    rep.ob(rule, bad is None, who, bad and "for the bytes %s: %s where %s is expected" % (show(bad[0]), show(bad[2]), show(bad[1])),
           exact=not (bad and bad[3]))
    rep.notes.append("%s %s: %d paths, %d values" % (rule, who, len(paths), n))


def show(v):
    if v is None:
        return "a refusal"
    if isinstance(v, tuple) and v and isinstance(v[0], bytes):
        return "%r after %s bytes" % v
    return repr(v)


# bytes which may be told apart
SOME = (0, 9, 10, 31, 32, 34, 47, 48, 57, 65, 70, 71, 92, 97, 98, 102, 103, 110, 114, 116, 117, 126, 127, 0x80, 0xbf, 0xc2, 0xe0, 0xf0, 0xff)


def points(n, base=(120, 34, 10, 92, 48)):
    """every value of each of n bytes, with some others"""
    if n <= 1:
        yield from itertools.product(range(256), repeat=n)
        return
    if n == 2:
        yield from itertools.product(range(256), repeat=2)
        return
    for i in range(n):
        for o in itertools.product(base, repeat=n - 1):
            for x in range(256):
                yield o[:i] + (x,) + o[i:]


def writes(rep, n):
    I, st = interp(rep.db), State()
    f = rep.db.find(EN)
    if not rep.ob("anchor", f is not None, EN, "the writer of strings is not found"):
        return
    rep.fn(f)
    s, bs = text(I, st, (None,) * n)
    w, cx = I.fresh(("w",), ("param", "W")), I.fresh(("cx",), ("param", "C"))
    outs = I.run(f, [cx, w, I.settype(s, ("ref", ("slice", U8), False))], st, {})
    rep.analysed(I)

    def result(comp, s, v):
        if not K.is_ok(v):
            return None
        out = []
        for it in T.get(s):
            if it[0] == "byte":
                out.append("bytes((%s,))" % comp.src(it[1]))
                comp.env["bytes"] = bytes
                continue
            b = it[1]
            b = items(I, s, b[1]) if it[0] == "chunk" and b[0] == "copyof" else None
            if b is None:
                raise ET.Unknown(it)
            out.append(joined(comp, b))
        comp.env["read"] = read
        return "read(%s)" % "+".join(out)

    def read(b):
        if b[:1] != b'"':
            return b
        r = rfc(b[1:], False)
        return r[0] if r is not None and r[1] == len(b) - 1 else b
    decide(rep, "written", "%d bytes" % n, I, outs, bs, points(n, (120, 34, 10)), lambda p: bytes(p), result)


def readers(db, name):
    out = []
    for n, t in PARSERS:
        fs = db.method("musli::json::parser::parser::Parser", lambda s: s[0] == "adt" and s[1] == t, name)
        out.append((n, t, fs[0][1] if len(fs) == 1 else None))
    return out


def run(rep, I, f, ty, tmpl, skip):
    st = State()
    s, bs = text(I, st, tmpl)
    t = ("adt", ty, ())
    cx = I.fresh(("cx",), ("param", "C"))
    sp = ("L", ("parser",), 0)
    I.root_types[sp] = t
    if ty.endswith("MutSliceParser"):
        sl = ("L", ("slice",), 0)
        I.root_types[sl] = ("ref", ("slice", U8), False)
        st.mem[sl] = s
        st.mem[sp] = ("agg", ty, 0, (("ref", sl, (), True, ()),))
        left = lambda s2: sub(C(len(tmpl)), I.slen(I.load(s2, sl, ())))
    else:
        st.mem[sp] = ("agg", ty, 0, (s, ZERO))
        left = lambda s2: I.load(s2, sp, (("f", None, 1),))
    sc = ("L", ("scratch",), 0)
    st.mem[sc] = ("agg", "array", 0, ())
    args = [("ref", sp, (), True, ()), cx]
    if not skip:
        args += [ONE, ("ref", sc, (), True, ()), I.fresh(("start",), ("adt", "mark", ()))]
    return I.run(f, args, st, {}), bs, left


def reads(rep, n, ty, f, who, tmpl, pts, skip):
    I = interp(rep.db)
    outs, bs, left = run(rep, I, f, ty, tmpl, skip)
    rep.analysed(I)
    rule = "skipped" if skip else "read"

    def result(comp, s, v):
        if not K.is_ok(v):
            return None
        comp.env["bytes"] = bytes
        if skip:
            return comp.src(left(s))
        v = v[3][0]
        b = items(I, s, v[3][0]) if v[0] == "agg" and v[3] else None
        if b is None:
            raise ET.Unknown(v)
        return "(%s,%s)" % (joined(comp, b), comp.src(left(s)))

    def whole(p):
        p = list(p)
        return bytes(p.pop(0) if x is None else x for x in tmpl)

    def expect(p):
        r = rfc(whole(p), not skip)
        return r and (r[1] if skip else r)
    decide(rep, rule, "%s: %s" % (n, who), I, outs, bs, pts, expect, result)
    if not skip:
        made(rep, "%s: %s" % (n, who), outs)


def made(rep, who, outs):
    """a string made of bytes without a check is made of parts which were checked"""
    bad, n = None, 0
    for s, v in outs:
        checked = [b[1] for b, x in s.bl.items() if b[0] == "utf8" and x]
        for e in s.trace:
            if e[0] != "unchecked":
                continue
            n += 1
            b = e[1]
            if b is None:
                return rep.undecided("checked", who, "the bytes of a string are not known")
            if not split(b, checked):
                bad = bad or (e[2], b)
    rep.ob("checked", bad is None, who, bad and "at %s a string is made of bytes which were not checked" % (bad[0],))


def split(b, parts):
    ok = {0}
    for i in range(len(b)):
        if i not in ok:
            continue
        x = b[i]
        if x[0] == "utf8of" or isc(x) and x[1] < 128:
            ok.add(i + 1)
        for p in parts:
            if p and b[i:i + len(p)] == p:
                ok.add(i + len(p))
    return len(b) in ok


def digits():
    """the digits of every number of four, in lower and upper case, and every byte where a digit should be"""
    for n in range(0x10000):
        yield tuple(b"%04x" % n)
    for n in range(0, 0x10000, 0x111):
        yield tuple(b"%04X" % n)
    for i in range(4):
        for o in (b"00e9", b"abCD", b"d83d"):
            for x in range(256):
                yield tuple(o[:i]) + (x,) + tuple(o[i + 1:])


def pairs():
    """two numbers of four digits"""
    edge = (0, 0x20, 0x7f, 0x80, 0xff, 0x7ff, 0x800, 0xd7ff, 0xd800, 0xd801, 0xd83d, 0xdbff, 0xdc00, 0xdc01, 0xde00, 0xdfff, 0xe000, 0xffff)
    for a in edge:
        for b in edge:
            yield tuple(b"%04x%04x" % (a, b))
    for a in range(0xd800, 0xdc00):
        yield tuple(b"%04x%04x" % (a, 0xde15))
    for b in range(0xd000, 0x10000):
        yield tuple(b"%04x%04X" % (0xd83d, b))


Q = 34
N = None
TEXTS = (
    ("nothing", ()),
    ("one byte", (N, Q)),
    ("two bytes", (N, N, Q)),
    ("two bytes and no quote", (N, N)),
    ("a byte and an escape", (N, 92, N, Q)),
    ("an escape and a byte", (92, N, N, Q)),
    ("two escapes", (92, N, 92, N, Q)),
    ("an escape between bytes", (97, 92, 110, N, Q, 97)),
    ("a character of two bytes", (0xc3, N, Q)),
    ("a character around an escape", (0xc3, 92, 110, N, Q)),
    ("text, an escape and text", (97, 98, 92, N, 99, 100, Q)),
    ("half a number", (92, 117, N, N, Q)),
    ("a number and nothing", (92, 117, 48, 48, N, N)),
    ("half a pair", (92, 117, 100, 56, 51, 100, N, N, Q)),
    ("a pair and nothing", (92, 117, 100, 56, 51, 100, 92, 117, 100, N, N)),
    ("a pair without the letter", (92, 117, 100, 56, 51, 100, 92, N, 100, 101, 49, 53, Q)),
)


def jobs(db):
    out = [("written %d" % n, writes, (n,)) for n in range(4)]
    for skip, name in ((False, "parse_string_inner"), (True, "skip_string_inner")):
        for n, ty, f in readers(db, name):
            out.append(("anchor %s" % n, anchor, (n, name, f)))
            if f is None:
                continue
            for who, tmpl in TEXTS:
                out.append(("%s %s %s" % (n, name, who), reads, (n, ty, f, who, tmpl, points(sum(x is None for x in tmpl), (120, 34)), skip)))
            if n == "SliceParser":
                out.append(("%s %s digits" % (n, name), reads, (n, ty, f, "a number", (92, 117, N, N, N, N, Q), digits(), skip)))
                out.append(("%s %s pairs" % (n, name), reads, (n, ty, f, "a pair", (92, 117, N, N, N, N, 92, 117, N, N, N, N, Q), pairs(), skip)))
    return out


def anchor(rep, n, name, f):
    if rep.ob("anchor", f is not None, "%s::%s" % (n, name), "not found"):
        rep.fn(f)


def check(rep):
    rep.jobs(jobs(rep.db))
