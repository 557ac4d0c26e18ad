"""Z05: what is stored in a reference is what is read from it, in any byte order and size."""
from common import *
from panics import *
import models as M

LEVEL = "proof"
EXPLANATION = """Each function of references, packed slices and byte orders is interpreted for every byte order and size of integer, with
elements of one, three, four, eight and no bytes. The offset and the length are unknown numbers of that size, stored as themselves
or byte-swapped. What is read back from the result (swapping it back) has to be equal to the offset plus the index times the size,
in the linear domain with the facts of the path; where nothing is returned, the facts of the path have to exclude that it fits
and is in range."""
Z = "musli_zerocopy::"
R = Z + "pointer::r#ref::"
REF, ITER, PACKED = R + "Ref", R + "Iter", Z + "slice::packed::Packed"
ORDERS = {"Little": ("adt", Z + "endian::Little", ()), "Big": ("adt", Z + "endian::Big", ())}
SIZES = ("u8", "u16", "u32", "u64", "usize")
BITS = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "u128": 128}
UNIT = ("tuple", ())


def uint(n):
    return ("uint", n)


# what is referenced: [(type, size)]
TYPES = [(uint("u8"), 1), (uint("u32"), 4), (uint("u64"), 8), (("array", uint("u8"), ("ci", 3)), 3), (UNIT, 0)]


def swapped(v, bits):
    if v[0] == "c":
        return C(int.from_bytes(v[1].to_bytes(bits // 8, "little"), "big"))
    if v[0] == "bswap" and v[2] == bits:
        return v[1]
    return ("bswap", v, bits)


class Repr:
    """how a number is stored: its type and its byte order"""

    def __init__(self, order, size):
        self.order, self.size, self.bits = order, size, BITS[size]
        self.max = (1 << self.bits) - 1

    def __str__(self):
        return "%s, %s" % (self.order, self.size)

    def stored(self, I, v):
        if self.order == "Little" or self.bits == 8:
            return v
        return I.settype(swapped(v, self.bits), uint(self.size))

    def read(self, v):
        return v if self.order == "Little" or self.bits == 8 else swapped(v, self.bits)


class Case:
    def __init__(self, rep, who, f, subst, models=None):
        self.rep, self.who, self.f, self.subst = rep, who, f, subst
        self.I = Interp(rep.db, models=models)
        # which of the ways to an outcome it was
        self.I.merge = lambda outs: outs
        self.panics = []
        self.I.on_panic = lambda c, st: self.panics.append(st)
        self.st = State()
        self.n = 0
        # whatever the generic parameters are, the path is about one case
        self.ok = True

    def number(self, name, size):
        return self.I.settype(("of", name, size), uint(size))

    def run(self, args, f=None, st=None, subst=None):
        try:
            outs = self.I.run(f or self.f, args, st or self.st, subst or self.subst)
        except Budget as e:
            self.rep.undecided("analysis", self.who, "%s: %s" % (self.who, e))
            self.ok = False
            return []
        if self.I.incomplete:
            self.rep.undecided("analysis", self.who, "%s: %s" % (self.who, self.I.incomplete[0]))
        return outs

    def ob(self, ok, msg, exact=True):
        self.n += 1
        self.rep.ob("reference", ok, self.who, "%s %s: %s" % (self.who, self.case, msg), exact=exact)

    def same(self, st, v, want, what):
        v = whole(st, v)
        self.ob(eq(st, v, want), "%s is not what it should be (%s)" % (what, str(v)[:120]), exact=plain(v))


def eq(st, a, b):
    if a == b:
        return True
    if not is_num(a) or not is_num(b):
        return False
    return ieq(st, a, b) or entails(st, sub(a, b)) and entails(st, sub(b, a))


def whole(st, v):
    """without the wrapping which does not happen"""
    if isinstance(v, tuple) and v and v[0] == "mod2" and st.lin.entails(v[2]) and st.lin.entails(sub(C((1 << v[1]) - 1), v[2])):
        return whole(st, v[2])
    if isinstance(v, tuple) and v and v[0] == "lin":
        r = C(v[1])
        for a, k in v[2]:
            r = add(r, scale(whole(st, a), k))
        return r
    return v


def is_num(v):
    return isinstance(v, tuple) and bool(v) and v[0] not in ("agg", "ref", "raw")


def plain(v):
    """consists of what the domain computes with exactly"""
    if not isinstance(v, tuple):
        return True
    if v and v[0] in ("lin", "mod2", "div", "rem", "bswap", "mul"):
        return all(plain(x) for x in v[1:])
    if v and v[0] == "of" or not v or isinstance(v[0], tuple):
        return all(plain(x) for x in v)
    return v[0] in ("c", "agg")


def quotients(v, out):
    if isinstance(v, tuple):
        if v and v[0] == "div" and len(v) == 3 and isc(v[2]):
            out.add(v)
        for x in v:
            quotients(x, out)


def possible(st, *facts):
    """whether the facts may hold too"""
    lin = st.lin
    for f in facts:
        lin = lin.with_(f)
    qs = set()
    quotients(tuple(lin.facts), qs)
    for q in qs:
        # of an unsigned number
        rest = sub(q[1], scale(q, q[2][1]))
        lin = lin.with_(rest).with_(sub(C(q[2][1] - 1), rest))
    return not lin.entails(C(-1))


def entails(st, f):
    return st.lin.entails(f) or not possible(st, sub(scale(f, -1), ONE))


def field(I, v, k, ty=USIZE):
    return I.proj(v, ("f", None, k), ty)


def ref(I, rp, off, meta=None):
    """a reference as it is stored"""
    m = ("agg", "tuple", 0, ()) if meta is None else rp.stored(I, meta)
    return ("agg", REF, 0, (rp.stored(I, off), m, ("agg", "core::marker::PhantomData", 0, ())))


def packed(I, ro, rl, off, n):
    return ("agg", PACKED, 0, (ro.stored(I, off), rl.stored(I, n), ("agg", "core::marker::PhantomData", 0, ())))


def options(c, outs):
    """[(state, the value or None)]"""
    for s, v in outs:
        if v[0] == "agg" and v[1].endswith("option::Option"):
            yield s, v[3][0] if v[2] == 1 else None
        elif v[0] == "agg" and v[1].endswith("result::Result"):
            yield s, v[3][0] if v[2] == 0 else None
        else:
            c.ob(False, "what is returned is not known", exact=False)


def fits(n, top):
    return sub(C(top), n)


def element(c, st, r, out, want, what):
    """what refers to one element"""
    c.same(st, out.read(field(c.I, r, 0)), want, what)


# -- what each function has to do ------------------------------------------

def number(c, args, want):
    for s, v in c.run(args):
        c.same(s, v, want, "the number")


def empty(c, args, n, stored):
    for s, v in c.run(args):
        for s2, b in c.I.branch(s, v):
            # the stored number is zero exactly if the number is
            zero = s2.lin.entails(scale(n, -1)) or s2.lin.entails(scale(stored, -1))
            some = not possible(s2, scale(n, -1)) or not possible(s2, scale(stored, -1)) or s2.lin.eq0(stored) is False
            c.ob(zero if b else some, "it is empty exactly if its length is zero", exact=plain(v))


def get(c, args, off, n, size, out, index, checked):
    at = add(off, scale(index, size))
    for s, r in options(c, c.run(args)) if checked else ((s, v) for s, v in c.run(args)):
        if r is None:
            c.ob(not possible(s, sub(sub(n, ONE), index), fits(at, out.max)), "an element which is there is not found")
            continue
        if checked:
            c.ob(entails(s, sub(sub(n, ONE), index)), "an element behind the end is found")
        elif not possible(s, fits(at, out.max)):
            continue
        t = s.copy()
        if not checked:
            t.lin = t.lin.with_(fits(at, out.max))
        elif out.size == "usize" and entails(s, sub(out.read(field(c.I, r, 0)), C((1 << 63) - 1))):
            # behind the end of any buffer, as is the element
            c.ob(not possible(s, fits(at, (1 << 63) - 1)), "an element which is there is not found")
            continue
        element(c, t, r, out, at, "the address of the element")
    for s in c.panics:
        c.ob(not possible(s, fits(at, out.max)), "panics for an element which can be addressed", exact=False)


def split(c, args, off, n, size, read, at):
    for s, v in c.run(args):
        a, b = (field(c.I, v, k, None) for k in (0, 1))
        for x, o, l in ((a, off, at), (b, add(off, scale(at, size)), sub(n, at))):
            c.same(s, read[0](field(c.I, x, 0)), o, "where a part is")
            c.same(s, read[1](field(c.I, x, 1)), l, "the length of a part")
        c.ob(entails(s, sub(n, at)), "splits behind the end")
    top = add(off, scale(at, size))
    for s in c.panics:
        c.ob(not possible(s, sub(n, at), fits(top, read[2])), "panics where it can be split", exact=False)


def iterate(c, args, off, n, size, out, steps):
    """steps: which ends are taken from, in order"""
    db = c.rep.db
    todo = [(s, v, 0, 0) for s, v in c.run(args)]
    # all of the elements can be addressed
    every = fits(sub(add(off, scale(n, size)), C(size)), out.max)
    for k, step in enumerate(steps):
        nxt = []
        for s, it, front, back in todo:
            root = ("L", ("iter", c.case, k), 0)
            s = s.copy()
            if isinstance(it, tuple) and it[0] == "root":
                root = it[1]
            else:
                c.I.root_types[root], s.mem[root] = ("adt", ITER, ()), it
            s.lin = s.lin.with_(every)
            if not possible(s):
                continue
            for s2, r in options(c, c.run([("ref", root, (), True, (("adt", ITER, ()),))], f=db.get(step[0].h), st=s)):
                taken = front + back
                if not possible(s2):
                    continue
                if r is None:
                    c.ob(not possible(s2, sub(sub(n, ONE), C(taken))), "ends too early (%d)" % taken)
                    continue
                c.ob(entails(s2, sub(sub(n, ONE), C(taken))), "does not end (%d)" % taken)
                i = C(front) if step[1] else sub(n, C(back + 1))
                element(c, s2, r, out, add(off, scale(i, size)), "the address of an element")
                nxt.append((s2, ("root", root), front + step[1], back + 1 - step[1]))
        todo = nxt
    c.ob(bool(todo), "yields nothing", exact=False)


def make(c, args, off, meta, read, top, checked):
    """a reference is made of an offset and what else is known"""
    ok = [fits(off, top[0])] + ([fits(meta, top[1])] if meta is not None else [])
    n = 0
    for s, r in options(c, c.run(args)) if checked else list(c.run(args)):
        if r is None:
            c.ob(not possible(s, *ok), "is refused although it fits")
            continue
        n += 1
        c.same(s, read[0](field(c.I, r, 0)), off, "the offset")
        if meta is not None:
            c.same(s, read[1](field(c.I, r, 1)), meta, "the length")
        # what is stored must be what was given
        for f in ok:
            c.ob(entails(s, f), "is made although it does not fit", exact=plain(f))
    c.ob(n > 0, "is never made", exact=False)
    for s in c.panics:
        c.ob(not possible(s, *ok), "panics although it fits", exact=False)


def coerced(c, args, off, rp, total, size, checked):
    """total: the bytes referred to; size: of the new elements, or None"""
    n = 0
    for s, r in options(c, c.run(args)) if checked else list(c.run(args)):
        if size is None:
            if r is None:
                c.ob(not possible(s), "is refused")
                continue
        elif r is None:
            # number of new elements which fits
            k = c.number("k", "usize")
            t = s.copy()
            t.lin = t.lin.with_(fits(k, rp.max)).with_(sub(scale(k, size), total)).with_(sub(total, scale(k, size)))
            c.ob(not possible(t), "is refused although it fits")
            continue
        n += 1
        c.same(s, rp.read(field(c.I, r, 0)), off, "the offset")
        if size is not None:
            m = rp.read(field(c.I, r, 1))
            t = s
            if not checked:
                t = s.copy()
                t.lin = t.lin.with_(fits(total, rp.max * size))
                if not possible(t):
                    continue
            c.same(t, scale(whole(t, m), size), total, "the number of bytes")
    c.ob(n > 0, "is never made", exact=False)


def loaded(c, args, off, total, count):
    """what is returned is what is referred to"""
    n = 0
    for s, v in c.run(args):
        if not (v[0] == "agg" and v[1].endswith("result::Result")):
            c.ob(False, "what is loaded is not known", exact=False)
            continue
        if v[2] != 0:
            continue
        n += 1
        x = v[3][0]
        base = M.sptr(("ref", ("D", args[1]), (("f", None, 0),), False, (("slice", U8),)))
        p = M.sptr(x) if count is not None else x
        p = p[1] if p[0] == "raw" and count is None else p
        try:
            at = sub(c.I.addr(p), c.I.addr(base))
        except Exception:
            c.ob(False, "where it is loaded from is not known", exact=False)
            continue
        c.same(s, at, off, "where it is loaded from")
        if count is not None:
            c.same(s, c.I.slen(x), count, "how much is loaded")
    c.ob(n > 0, "is never loaded", exact=False)


# -- all cases ---------------------------------------------------------------

def cases(orders=tuple(ORDERS), sizes=SIZES):
    return [Repr(e, o) for e in orders for o in sizes]


def fn(db, path):
    f = db.find(path)
    f = f[0] if isinstance(f, list) and f else f
    return db.get(f.h) if f else None


def each(rep, who, f, todo):
    """todo: [(case, subst, call)]"""
    n = 0
    for case, subst, call in todo:
        c = Case(rep, who, f, subst)
        c.case = "<%s>" % case
        call(c)
        n += 1
    rep.fn(f)
    rep.notes.append("%s: %d cases" % (who, n)) if hasattr(rep, "notes") else None


def tname(t):
    return "()" if t == UNIT else "[u8; 3]" if t[0] == "array" else t[1] if t[0] == "uint" else str(t)


def slices(rep, who, f, kind):
    """functions of a slice"""
    todo = []
    of_packed = PACKED in f.d.split(" as ")[0] or "Packed::<" in f.d
    other = [Repr("Big", "u8"), Repr("Big", "u32"), Repr("Little", "usize")]
    for rp in cases():
        for rl in other if of_packed else [rp]:
            rl = Repr(rp.order, rl.size) if of_packed else rp
            for t, size in TYPES:
                names = {"T": t, "O": uint(rp.size), "E": ORDERS[rp.order], "L": uint(rl.size)}
                if "A" in f.gens:
                    names.update(A=ORDERS[rp.order], B=uint(rp.size))
                subst = {k: v for k, v in names.items() if k in f.gens}
                out = Repr(rp.order, "usize") if of_packed else rp

                def call(c, rp=rp, rl=rl, size=size, out=out):
                    off, n = c.number("offset", rp.size), c.number("len", rl.size)
                    x = packed(c.I, rp, rl, off, n) if of_packed else ref(c.I, rp, off, n)
                    i = c.number("index", "usize")
                    if kind == "len":
                        number(c, [x], n)
                    elif kind == "offset":
                        number(c, [x], off)
                    elif kind == "is_empty":
                        empty(c, [x], n, rl.stored(c.I, n))
                    elif kind in ("get", "at", "get_unchecked"):
                        get(c, [x, i], off, n, size, out, i, kind == "get")
                    elif kind == "split_at":
                        split(c, [x, i], off, n, size, (rp.read, rl.read, rp.max), i)
                    elif kind == "load":
                        root = ("L", "slice", 0)
                        c.I.root_types[root], c.st.mem[root] = c.f.locals[1][1], x
                        buf = c.I.fresh("buf", c.f.locals[2])
                        loaded(c, [("ref", root, (), False, (c.f.locals[1][1],)), buf], off, None, n)
                    else:
                        nx, nb = ends(c.rep.db)
                        for steps in ((nx, nx, nx), (nb, nb, nb), (nx, nb, nx), (nb, nx, nb)):
                            iterate(c, [x], off, n, size, out, steps)

                todo.append(("%s, %s, %s" % (tname(t), rp, rl.size), subst, call))
    each(rep, who, f, todo)


def ends(db):
    nx = fn(db, "<%sIter<T, E, O> as core::iter::traits::iterator::Iterator>::next" % R)
    nb = fn(db, "<%sIter<T, E, O> as core::iter::traits::double_ended::DoubleEndedIterator>::next_back" % R)
    return (nx, 1), (nb, 0)


def makes(rep, who, f, kind):
    todo = []
    checked = kind.startswith("try_")
    for rp in cases():
        for given in SIZES if "U" in f.gens else ("usize",):
            for t in (uint("u32"), ("slice", uint("u32")), ("str",)):
                sl = t[0] in ("slice", "str")
                if kind == "new" and sl:
                    continue
                subst = {"T": t, "O": uint(rp.size), "E": ORDERS[rp.order], "U": uint(given)}

                def call(c, rp=rp, given=given, sl=sl):
                    off = c.number("offset", given)
                    meta = c.number("len", "usize") if sl else None
                    args = [off] if kind == "new" else [off, meta if sl else ("agg", "tuple", 0, ())]
                    make(c, args, off, meta, (rp.read, rp.read), (rp.max, rp.max), checked)

                todo.append(("%s, %s from %s" % (tname(t) if t[0] == "uint" else t[0], rp, given), {k: v for k, v in subst.items() if k in f.gens}, call))
    each(rep, who, f, todo)


def parts(rep, who, f, kind):
    """a packed slice of its parts, or of another"""
    todo = []
    checked = kind.startswith("try_")
    of_ref = kind.endswith("from_ref")
    for rp in cases():
        for n in SIZES:
            rl = Repr(rp.order, n)
            for src in (Repr("Big", "u16"), Repr("Little", "usize"), Repr("Big", "u64")) if of_ref else (None,):
                names = {"T": uint("u32"), "O": uint(rp.size), "L": uint(rl.size), "E": ORDERS[rp.order]}
                if src:
                    names.update(A=ORDERS[src.order], B=uint(src.size))

                def call(c, rp=rp, rl=rl, src=src):
                    off, n = c.number("offset", src.size if src else "usize"), c.number("len", src.size if src else "usize")
                    args = [ref(c.I, src, off, n)] if src else [off, n]
                    make(c, args, off, n, (rp.read, rl.read), (rp.max, rl.max), checked)

                todo.append(("%s, %s%s" % (rp, rl.size, " of %s" % src if src else ""), {k: v for k, v in names.items() if k in f.gens}, call))
    each(rep, who, f, todo)


def orders(rep, who, f, kind):
    todo = []
    for rp in cases():
        for other in ORDERS if "U" in f.gens else ({"to_be": "Big", "to_le": "Little", "to_ne": "Little"}[kind],):
            for t in (uint("u32"), ("slice", uint("u32"))):
                sl = t[0] == "slice"
                ro = Repr(other, rp.size)
                subst = {"T": t, "O": uint(rp.size), "E": ORDERS[rp.order], "U": ORDERS[other]}

                def call(c, rp=rp, ro=ro, sl=sl):
                    off, n = c.number("offset", rp.size), c.number("len", rp.size) if sl else None
                    for s, v in c.run([ref(c.I, rp, off, n)]):
                        c.same(s, ro.read(field(c.I, v, 0)), off, "the offset")
                        if sl:
                            c.same(s, ro.read(field(c.I, v, 1)), n, "the length")

                todo.append(("%s, %s to %s" % (t[0], rp, other), {k: v for k, v in subst.items() if k in f.gens}, call))
    each(rep, who, f, todo)


def size_of(t):
    if t[0] in ("uint", "int"):
        return BITS[t[1].replace("i", "u", 1) if t[0] == "int" else t[1]] // 8
    if t[0] == "array" and t[2][0] == "ci":
        n = size_of(t[1])
        return None if n is None else n * t[2][1]
    return None


def coerces(rep, who, f, kind):
    todo = []
    u = lambda n: uint(n)
    arr = lambda n, k: ("array", uint(n), ("ci", k))
    sl = lambda t: ("slice", t)
    pairs = []
    for a in ("u8", "u16", "u32", "u64", "u128"):
        for b in ("u8", "u16", "u32", "u64", "u128"):
            if BITS[b] <= BITS[a]:
                pairs += [(sl(u(a)), sl(u(b))), (u(a), sl(u(b))), (arr(a, 5), sl(u(b)))]
    pairs += [(("str",), sl(u("u8"))), (sl(u("u8")), ("str",)), (u("u32"), arr("u16", 2)), (u("u64"), ("int", "i64")), (sl(u("u32")), sl(("int", "i16")))]
    for rp in cases(sizes=("u8", "u32", "usize")):
        for a, b in pairs:
            subst = {"T": a, "U": b, "O": uint(rp.size), "E": ORDERS[rp.order]}

            def call(c, rp=rp, a=a, b=b):
                off = c.number("offset", rp.size)
                one = lambda t: 1 if t == ("str",) else size_of(t[1])
                n = c.number("len", rp.size) if a[0] in ("slice", "str") else None
                total = scale(n, one(a)) if n is not None else C(size_of(a))
                coerced(c, [ref(c.I, rp, off, n)], off, rp, total, one(b) if b[0] in ("slice", "str") else None, kind == "try_coerce")

            todo.append(("%s to %s, %s" % (label(a), label(b), rp), subst, call))
    each(rep, who, f, todo)


def label(t):
    return "[%s]" % tname(t[1]) if t[0] == "slice" else t[0] if t[0] == "str" else "[%s; %d]" % (tname(t[1]), t[2][1]) if t[0] == "array" else t[1]


def arrays(rep, who, f, kind):
    todo = []
    for rp in cases():
        for n in (0, 1, 3, 200):
            subst = {"T": uint("u32"), "N": ("ci", n), "O": uint(rp.size), "E": ORDERS[rp.order]}

            def call(c, rp=rp, n=n):
                off = c.number("offset", rp.size)
                for s, v in c.run([ref(c.I, rp, off)]):
                    c.same(s, rp.read(field(c.I, v, 0)), off, "the offset")
                    c.same(s, rp.read(field(c.I, v, 1)), C(n), "the length")

            todo.append(("[u32; %d], %s" % (n, rp), subst, call))
    each(rep, who, f, todo)


def values(rep, who, f, kind):
    """a value in a byte order"""
    todo = []
    for size in ("u8", "u16", "u32", "u64", "u128", "usize"):
        for order in ORDERS:
            if kind in ("le", "from_le") and order != "Little" or kind in ("be", "from_be") and order != "Big":
                continue
            subst = {"T": uint(size), "E": ORDERS[order]}

            def call(c, rp=Repr(order, size)):
                v = c.number("value", rp.size)
                if kind in ("new", "le", "be"):
                    for s, x in c.run([v]):
                        c.same(s, rp.read(field(c.I, x, 0)), v, "what is stored")
                elif kind == "to_ne":
                    for s, x in c.run([("agg", Z + "endian::endian::Endian", 0, (rp.stored(c.I, v), ("agg", "core::marker::PhantomData", 0, ())))]):
                        c.same(s, x, v, "the value")
                else:
                    for s, x in c.run([rp.stored(c.I, v)]):
                        c.same(s, x, v, "the value")

            todo.append(("%s, %s" % (size, order), {k: v for k, v in subst.items() if k in f.gens}, call))
    each(rep, who, f, todo)


def singles(rep, who, f, kind):
    """what is behind a reference"""
    todo = []
    for rp in cases():
        for t, size in TYPES[:3]:
            subst = {"T": t, "O": uint(rp.size), "E": ORDERS[rp.order]}

            def call(c, rp=rp):
                off = c.number("offset", rp.size)
                root = ("L", "slice", 0)
                c.I.root_types[root], c.st.mem[root] = c.f.locals[1][1], ref(c.I, rp, off)
                loaded(c, [("ref", root, (), False, (c.f.locals[1][1],)), c.I.fresh("buf", c.f.locals[2])], off, None, None)

            todo.append(("%s, %s" % (tname(t), rp), subst, call))
    each(rep, who, f, todo)


SLICE = " as musli_zerocopy::slice::slice::Slice>::"
LOAD = " as musli_zerocopy::buf::load::Load>::load"
KINDS = ("len", "offset", "is_empty", "get", "get_unchecked", "split_at")


def wanted(db):
    """[(function, rule, kind)]"""
    out = []
    for k in KINDS:
        out.append(("<%sRef<[T], A, B>%s%s" % (R, SLICE, k), slices2, k))
        out.append(("<%s<[T], O, L, E>%s%s" % (PACKED, SLICE, k), slices, k))
        out.append(("%s::<[T], O, L, E>::%s" % (PACKED, k), slices, k))
        if k != "offset":
            out.append(("%sRef::<[T], E, O>::%s" % (R, k), slices, k))
    out.append(("%sRef::<[T], E, O>::iter" % R, slices, "iter"))
    out.append(("%sRef::<T, E, O>::offset" % R, singles2, "offset"))
    out += [("<%sRef<[T], E, O>%s" % (R, LOAD), slices, "load"), ("<%s<[T], O, L, E>%s" % (PACKED, LOAD), slices, "load"), ("<%sRef<T, E, O>%s" % (R, LOAD), singles, "load")]
    for k in ("new", "with_metadata", "try_with_metadata"):
        out.append(("%sRef::<T, E, O>::%s" % (R, k), makes, k))
    for k in ("to_endian", "to_be", "to_le", "to_ne"):
        out.append(("%sRef::<T, E, O>::%s" % (R, k), orders, k))
    for k in ("coerce", "try_coerce"):
        out.append(("%sRef::<T, E, O>::%s" % (R, k), coerces, k))
    out.append(("%sRef::<[T; N], E, O>::array_into_slice" % R, arrays, "array_into_slice"))
    for k in ("from_raw_parts", "try_from_raw_parts"):
        out.append(("%s::<[T], O, L, E>::%s" % (PACKED, k), parts, k))
    for k in ("from_ref", "try_from_ref"):
        out.append(("<%s<[T], O, L, E>%s%s" % (PACKED, SLICE, k), parts, k))
    out.append(("%s::<[T], O, L, E>::from_ref" % PACKED, parts, "from_ref"))
    e = Z + "endian::endian::Endian::<T, "
    out += [(e + "E>::new", values, "new"), (e + "E>::to_ne", values, "to_ne"), (e + Z + "endian::Little>::le", values, "le"), (e + Z + "endian::Big>::be", values, "be")]
    out += [(Z + "endian::" + k, values, k) for k in ("from_be", "from_le", "from_endian")]
    return out


def slices2(rep, who, f, kind):
    """A is its byte order, B its size"""
    todo = []
    for rp in cases():
        for t, size in TYPES:
            subst = {"T": t, "A": ORDERS[rp.order], "B": uint(rp.size)}

            def call(c, rp=rp, size=size):
                off, n, i = c.number("offset", rp.size), c.number("len", rp.size), c.number("index", "usize")
                x = ref(c.I, rp, off, n)
                if kind == "len":
                    number(c, [x], n)
                elif kind == "offset":
                    number(c, [x], off)
                elif kind == "is_empty":
                    empty(c, [x], n, rp.stored(c.I, n))
                elif kind == "split_at":
                    split(c, [x, i], off, n, size, (rp.read, rp.read, rp.max), i)
                else:
                    get(c, [x, i], off, n, size, rp, i, kind == "get")

            todo.append(("%s, %s" % (tname(t), rp), subst, call))
    each(rep, who, f, todo)


def singles2(rep, who, f, kind):
    todo = []
    for rp in cases():
        def call(c, rp=rp):
            off = c.number("offset", rp.size)
            number(c, [ref(c.I, rp, off)], off)

        todo.append((str(rp), {"T": uint("u32"), "O": uint(rp.size), "E": ORDERS[rp.order]}, call))
    each(rep, who, f, todo)


def check(rep):
    jobs = []
    for path, rule, kind in wanted(rep.db):
        f = fn(rep.db, path)
        who = short(path)
        if f is None or f.blocks is None:
            rep.undecided("anchor", who, "%s is not there" % who)
            continue
        jobs.append((who, rule, (who, f, kind)))
    rep.jobs(jobs)
