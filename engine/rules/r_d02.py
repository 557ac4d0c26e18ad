"""D02: what is allocated in advance is bounded."""
from common import *
import r_d01 as D1
from panics import ours, known

LEVEL = "proof"
EXPLANATION = (
    "Every function which decoding consists of, and every closure in them, is interpreted abstractly for unknown arguments. "
    "Wherever one of them makes room in a collection, the number of elements is proven to be at most a constant, the length "
    "of a slice which is in memory, or the number of elements which fit in the constant of bytes for their size.")

# room for this many bytes is bounded, and so is room for this few elements whatever they are
MANY = C(1 << 20)
FEW = C(1 << 12)
# where room is made: (what ends the path, the argument which is how much)
ROOM = (("::with_capacity_in", 0), ("::with_capacity_and_hasher", 0), ("::with_capacity", 0), ("::try_with_capacity", 0),
        ("::reserve_exact", -1), ("::try_reserve", -1), ("::reserve", -1))


def element(c):
    """the type of what room is made for"""
    if not c.targs:
        return None
    if "::map::" in c.path and len(c.targs) > 1:
        return ("tuple", tuple(c.targs[:2]))
    return c.targs[0]


def bounded(I, st, n, elem):
    """is it at most a constant of bytes, or the length of something"""
    if st.lin.entails(sub(FEW, n)):
        return True
    if elem is not None and st.lin.entails(sub(("div", MANY, ("sizeof", elem)), n)):
        return True
    if elem in (("uint", "u8"), ("int", "i8")) and st.lin.entails(sub(MANY, n)):
        return True
    # a constant of the type which is decoded, or the length of something in memory
    for v in parts(n):
        if isinstance(v, tuple) and v and (v[0] == "len" or by_type(v)) and st.lin.entails(sub(v, n)):
            return True
    for f in st.lin.facts:
        for v in parts(f):
            if isinstance(v, tuple) and v and (v[0] == "len" or by_type(v)) and st.lin.entails(sub(v, n)):
                return True
    return False


def by_type(v):
    """is it made of constants and properties of types"""
    if not isinstance(v, tuple):
        return True
    if v[0] in ("c", "const", "kconst", "uneval", "cparam", "sizeof", "alignof"):
        return True
    if v[0] == "lin":
        return all(by_type(x) for x, _ in v[2])
    if v[0] in ("div", "mul", "rem", "min", "max"):
        return all(by_type(x) for x in v[1:])
    return False


def stored(v):
    """is it kept in something which is only seen by reference"""
    return any(x and x[0] == "deref" for x in parts(v))


def parts(v):
    if isinstance(v, tuple):
        yield v
        for x in v:
            yield from parts(x)


def one(rep, f, who, cut, subst, unroll):
    I = D1.interp(rep, f, cut, unroll)
    st = State()
    args, _ = D1.start(I, f, st, subst or {}, None)
    n = 0

    def on(c, s, *r):
        nonlocal n
        if not ours(c.frame.fn):
            return
        for p, i in ROOM:
            if c.path.endswith(p):
                a = c.args[i]
                n += 1
                rep.ob("bounded", bounded(I, s, a, element(c)), "%s: %s" % (c.frame.fn.d, c.n),
                       "%s: room is made for a number of elements which nothing bounds (from %s)" % (c.frame.fn.d, who),
                       exact=known(s, (a,)) and not stored(a))
                return
    I.on_call = on
    try:
        I.run(f, args, st, subst or {})
    except Budget as e:
        return rep.undecided("analysis", who, "%s: %s" % (who, e))
    if n:
        if I.incomplete:
            rep.undecided("analysis", who, "%s: %s" % (who, I.incomplete[0]))
        rep.fn(f)
        rep.analysed(I)


def check(rep):
    # a builder makes as much room as it is told to
    rep.jobs([(who, one, (f, who, cut, sub_, n)) for who, f, cut, sub_, n in D1.roots(rep.db)
              if " as musli_core::de::decode_slice_builder::DecodeSliceBuilder<" not in who])
