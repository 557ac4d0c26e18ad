"""Z03: what is found in a table is what is stored under the key."""
from common import *
from panics import *
import models as M

LEVEL = "other"
EXPLANATION = """Every lookup (get, get_entry, contains, contains_key of the maps and sets, bound and by reference) is interpreted with
the comparison of keys as an event which splits the path. Rule key: an outcome which found something follows a comparison which
was equal, of the key of the caller with that of the table; one which found nothing does not. Rule entry: what is returned is
behind the entry whose key was compared. Rule slot: the index computed by a bound table and by its reference are the same term
over the hash, the displacement and the lengths. Rule descent: where a trie searches a second time, it is in the children of the
child whose string was compared, the common prefix is as long as that string, and what is looked for is the rest; the values which
are returned are those of the node which was found."""
Z = "musli_zerocopy::"
SEARCH = Z + "slice::binary_search::"
CUT = (Z + "phf::hashing::hash", Z + "buf::load", "core::hash::", Z + "sip::")
LITTLE = ("adt", Z + "endian::Little", ())


def again(c, **kw):
    k = Call()
    for a in Call.__slots__:
        setattr(k, a, getattr(c, a, None))
    for a, v in kw.items():
        setattr(k, a, v)
    return k


def ident(v):
    """what a reference refers to"""
    return v[1:3] if v[0] == "ref" else (("D", v), ())


def through(I, st, v):
    """behind the references of the caller"""
    for _ in range(6):
        if v[0] != "ref" or v[1][0] != "L":
            return v
        w = I.load(st, v[1], v[2])
        if not isinstance(w, tuple) or w[0] not in ("ref", "target", "arg"):
            return v
        v = w
    return v


def visit(I, c, st):
    """what is visited is handed to the visitor, or it is an error"""
    t = I.fresh(("target", ident(through(I, st, c.args[0]))), None)
    r = I.call_closure(again(c, args=[c.args[2], ("agg", "tuple", 0, (t,))], tys=[c.tys[2], ("tuple", (None,))], rty=None,
                             ctx=I.ctx(c.ctx, "visit", 0), tr="core::ops::function::FnOnce"), st.copy())
    if r is None:
        return None
    return [(s, M.ok(v)) for s, v in r] + [(st.copy(), M.err(I.fresh(("failed", c.ctx), None)))]


def equal(ne):
    def model(I, c, st):
        if "::Target" not in str(c.tys):
            return None
        x = [through(I, st, a) for a in c.args[:2]]
        out = []
        for b in (True, False):
            s = st.copy()
            s.ev("compared", x[0], x[1], b)
            out.append((s, TRUE if b != ne else FALSE))
        return out
    return model


def borrow(I, c, st):
    return [(st, c.args[0])]


def load(I, c, st):
    v = I.fresh(("loaded", c.args[1]), None)
    return [(st.copy(), M.ok(v)), (st.copy(), M.err(I.fresh(("failed", c.ctx), None)))]


def at(I, c, st):
    """the element of a slice, or none"""
    return [(st.copy(), M.some(("element", c.args[0], c.args[1]))), (st.copy(), M.NONE)]


def interp(db, extra=None):
    I = Interp(db, opaque=lambda c: c.path.startswith(CUT) or (c.tr or "").startswith(CUT), models=extra)
    I.tmodels[(Z + "buf::visit::Visit", "visit")] = visit
    I.tmodels[("core::cmp::PartialEq", "eq")] = equal(False)
    I.tmodels[("core::cmp::PartialEq", "ne")] = equal(True)
    I.tmodels[("core::borrow::Borrow", "borrow")] = borrow
    I.models[Z + "buf::buf::Buf::load"] = load
    # Z05 decides which one it is
    I.models[Z + "pointer::r#ref::Ref::<[T], E, O>::get"] = at
    I.models[Z + "pointer::r#ref::Ref::get"] = at
    return I


def compared(st):
    """what was compared last, and whether it is equal"""
    for e in reversed(st.trace):
        if e[0] == "compared":
            return e
    return None


def keys(e):
    """(what one of them is of, what the other is of)"""
    return [v[1] if v[0] == "target" else None for v in e[1:3]]


def refs(v, out):
    """the references which are returned"""
    if isinstance(v, tuple):
        if v and v[0] == "ref":
            out.append((v[1], v[2]))
        elif v and v[0] == "agg":
            for x in v[3]:
                refs(x, out)
        elif v and v[0] in ("fld", "loaded", "deref"):
            out.append((("D", v), ()))


def lookup(rep, f, who):
    """found only if the key is equal to that of what is found"""
    I = interp(rep.db)
    args = [I.fresh(("arg", i), f.locals[i + 1]) for i in range(f.args)]
    key = (("D", args[-1]), ())
    try:
        outs = I.run(f, args, State(), {k: v for k, v in {"E": LITTLE, "O": USIZE}.items() if k in f.gens})
    except Budget as e:
        return rep.undecided("analysis", who, "%s: %s" % (who, e))
    if I.incomplete:
        rep.undecided("analysis", who, "%s: %s" % (who, I.incomplete[0]))
    found = missing = 0
    for s, v in outs:
        if not is_res(v, 0):
            continue
        x = v[3][0]
        e = compared(s)
        if x in (TRUE, FALSE):
            hit, values = x == TRUE, []
        elif x[0] == "agg" and x[1].endswith("option::Option"):
            hit, values = x[2] == 1, []
            refs(x, values)
        else:
            rep.undecided("key", who, "%s: what it returns is not known" % who)
            continue
        if not hit:
            missing += 1
            rep.ob("key", e is None or not e[3], who, "%s: nothing is found although the key is equal" % who)
            continue
        found += 1
        if e is None or not e[3]:
            rep.ob("key", False, who, "%s: something is found without its key being equal" % who)
            continue
        ks = keys(e)
        if key not in ks or None in ks:
            rep.ob("key", None in ks and False, who, "%s: what is compared is not the key which is looked for and one of the table" % who, exact=None not in ks)
            continue
        other = ks[1 - ks.index(key)]
        rep.ob("key", other != key, who, "%s: the key is compared with itself" % who)
        for r in values:
            # of the entry the key of which was compared
            rep.ob("entry", r[0] == other[0] and r[1][:len(other[1]) - 1] == other[1][:-1], who, "%s: what is returned is not of the entry the key of which is equal" % who)
    rep.ob("key", found > 0, who, "%s: nothing is ever found" % who, exact=False)
    rep.ob("key", missing > 0, who, "%s: something is always found" % who, exact=False)
    rep.fn(f)
    rep.analysed(I)


# -- the slot of a key -------------------------------------------------------

def rename(t, names):
    if isinstance(t, tuple):
        if t in names:
            return names[t]
        return tuple(rename(x, names) for x in t)
    return t


def atoms_of(t, out, pred):
    if isinstance(t, tuple):
        if pred(t):
            out.append(t)
            return
        for x in t:
            atoms_of(x, out, pred)


def slots(rep, f, g, who):
    """a bound table looks where its reference does"""
    res = []
    H = Z + "phf::hashing::Hashes"
    names = [n for n, _ in rep.db.adts[H]["variants"][0]["fields"]]
    tys = [t for _, t in rep.db.adts[H]["variants"][0]["fields"]]
    for fn, custom in ((f, False), (g, True)):
        I = interp(rep.db)
        at = []

        def entry(I, c, st, at=at):
            at.append(c.args[1][3][0] if c.args[1][0] == "agg" else c.args[1])
            return [(st, M.ok(M.some(("ref", ("D", ("displacement",)), (), False, (("adt", Z + "phf::entry::Entry", (("uint", "u32"), ("uint", "u32"))),)))))]

        def element(I, c, st, at=at):
            at.append(c.args[1])
            return [(st, M.some(("ref", ("D", ("displacement",)), (), False, (("adt", Z + "phf::entry::Entry", (("uint", "u32"), ("uint", "u32"))),))))]

        st = State()
        hs = ("agg", H, 0, tuple(I.settype(("hash", n), t) for n, t in zip(names, tys)))
        root = ("L", "hashes", 0)
        I.root_types[root], st.mem[root] = ("adt", H, ()), hs
        E = ("adt", Z + "phf::entry::Entry", (("uint", "u32"), ("uint", "u32")))
        er = ("D", ("displacement",))
        I.root_types[er] = E
        st.mem[er] = ("agg", Z + "phf::entry::Entry", 0, tuple(I.settype(("displacement", k), ("uint", "u32")) for k in range(2)))
        n, d = I.settype(("entries",), USIZE), I.settype(("displacements",), USIZE)
        h = ("ref", root, (), False, (("adt", H, ()),))
        if custom:
            I.tmodels[("core::ops::function::FnOnce", "call_once")] = entry
            args = [h, I.fresh(("closure",), ("param", "D")), d, n]
        else:
            sl = ("raw", ("ptr", "displacements"), d)
            I.models["core::slice::[T]::get"] = element
            I.models["core::slice::<impl [T]>::get"] = element
            args = [h, sl, n]
        try:
            outs = I.run(fn, args, st, {})
        except Budget as e:
            return rep.undecided("analysis", who, "%s: %s" % (who, e))
        got = set(v[3][0] for s, v in outs if is_res(v, 0))
        res.append((got, set(at)))
        rep.fn(fn)
        rep.analysed(I)
    (a, ia), (b, ib) = res
    drop = lambda x: {t for t in x if all(p[0] != "ev" for p in pieces(t))}
    ok = lambda x: len(x) == 1 and all(p[0] in KNOWN for t in x for p in pieces(t))
    rep.ob("slot", a == b, who, "%s: a bound table looks elsewhere than its reference" % who, exact=ok(a) and ok(b))
    rep.ob("slot", drop(ia) == drop(ib), who, "%s: a bound table is displaced by something else than its reference" % who, exact=ok(drop(ia)) and ok(drop(ib)))


KNOWN = ("rem", "mod2", "lin", "mul", "hash", "displacement", "entries", "displacements", "c", "and", "xor")


def pieces(t):
    if isinstance(t, tuple):
        if t and isinstance(t[0], str):
            yield t
        for x in t:
            yield from pieces(x)


# -- trie --------------------------------------------------------------------

def prefix(I, c, st):
    n = I.settype(("prefix", c.ctx, len(st.trace)), USIZE)
    s = st.copy()
    s.lin = s.lin.with_(sub(I.slen(c.args[0]), n)).with_(sub(I.slen(c.args[1]), n))
    s.ev("prefix", n, tuple(c.args))
    return [(s, n)]


def captured(v):
    """the bytes which are compared with what is in the table"""
    return [x for x in v[3] if x[0] != "ref"] if v[0] == "agg" and isinstance(v[1], tuple) else []


class Trie:
    """a node is entered only by all of its string, and what is left is looked for in it"""

    def __init__(self, rep, f, who):
        self.rep, self.f, self.who = rep, f, who
        self.n = 0
        ad = rep.db.adts
        node = [n for n, _ in ad[Z + "trie::NodeRef"]["variants"][0]["fields"]] if Z + "trie::NodeRef" in ad else None
        links = [n for n, _ in ad[Z + "trie::LinksRef"]["variants"][0]["fields"]] if Z + "trie::LinksRef" in ad else None
        self.names = node, links

    def below(self, child, what):
        node, links = self.names
        return ("fld", ("fld", ("deref", child), None, node.index("links")), None, links.index(what))

    def child_of(self, a):
        """the child the string of which was loaded"""
        if a[0] == "loaded" and a[1][0] == "fld" and a[1][1][0] == "deref" and a[1][1][1][0] == "loaded" and a[1][3] == self.names[0].index("string"):
            return a[1][1][1]
        return None

    def search(self, I, c, st):
        before = None
        for e in reversed(st.trace):
            if e[0] == "searched":
                before = e
                break
        if before is not None:
            self.descent(I, c, st, before)
        n = I.settype(("found", c.ctx, len(st.trace)), USIZE)
        out = []
        for k, v in (("Found", 0), ("Missing", 1)):
            s = st.copy()
            s.ev("searched", k, n, tuple(c.args), tuple(captured(c.args[2])))
            out.append((s, M.ok(("agg", SEARCH + "BinarySearch", v, (n,)))))
        return out + [(st.copy(), M.err(I.fresh(("failed", c.ctx), None)))]

    def ob(self, ok, msg, exact=True):
        self.rep.ob("descent", ok, self.who, "%s: %s" % (self.who, msg), exact=exact)

    def descent(self, I, c, st, before):
        ps = []
        for e in reversed(st.trace):
            if e[0] == "searched":
                break
            if e[0] == "prefix":
                ps.append(e)
        # the one it is entered by
        hits = [(e, self.child_of(e[2][0])) for e in ps if self.child_of(e[2][0]) is not None and self.below(self.child_of(e[2][0]), "children") == c.args[1]]
        self.n += 1
        if not hits:
            known = all(self.child_of(e[2][0]) is not None for e in ps) and "loaded" in str(c.args[1])
            return self.ob(False, "a node is entered without its string being compared", exact=known and bool(ps))
        e, child = hits[0]
        n = e[1]
        count = I.settype(("count", ("fld", ("deref", child), None, self.names[0].index("string"))), USIZE)
        whole = any(ieq(st, n, x) for x in (count, I.slen(e[2][0])))
        self.ob(whole, "a node is entered by a part of its string")
        old, new = before[4], captured(c.args[2])
        if e[2][1] not in old:
            return self.ob(False, "what is compared with the string of a node is not what is looked for", exact=False)
        want = e[2][1]
        rest = [x for x in new if x not in old]
        if not rest:
            return self.ob(want not in new or st.lin.eq0(n), "what has been compared is looked for again", exact=all(x[0] != "call" for x in new))
        for x in rest:
            try:
                ok = peq(I, st, M.sptr(x), I.padd(M.sptr(want), n)) and ieq(st, I.slen(x), sub(I.slen(want), n))
            except Exception:
                ok = None
            self.ob(bool(ok), "what is looked for in a node is not what is left of it", exact=ok is not None and x[0] == "sub")


def found(t, I, st, v):
    """the values of the node which was found"""
    for e in reversed(st.trace):
        if e[0] == "searched":
            child = ("loaded", ("element", e[3][1], e[2]))
            t.ob(e[1] == "Found", "values of a node which is not the one which is looked for")
            t.ob(v == ("loaded", t.below(child, "values")), "not the values of the node which is found", exact=v[0] == "loaded")
            return
    t.ob(False, "values are found without being looked for", exact=False)


def trie(rep, f, who, unroll):
    t = Trie(rep, f, who)
    if None in t.names:
        return rep.undecided("anchor", who, "the nodes of a trie are not known")
    I = interp(rep.db, {SEARCH + "binary_search_by": t.search, Z + "trie::prefix": prefix})
    S = Z + "slice::slice::Slice"
    I.tmodels[(S, "get_unchecked")] = lambda I, c, st: [(st, ("element", c.args[0], c.args[1]))]
    I.tmodels[(S, "get")] = at
    I.tmodels[(S, "len")] = lambda I, c, st: [(st, I.settype(("count", c.args[0]), USIZE))]
    # the first descents by themselves
    I.unroll = unroll
    I.merge = lambda outs: outs
    args = [I.fresh(("arg", i), f.locals[i + 1]) for i in range(f.args)]
    try:
        outs = I.run(f, args, State(), {})
    except Budget:
        outs = []
    if f.name == "get":
        for s, v in outs:
            if is_res(v, 0) and v[3][0][0] == "agg" and v[3][0][2] == 1:
                found(t, I, s, v[3][0][3][0])
    rep.ob("descent", t.n > 0, who, "%s: no node is ever entered" % who, exact=False)
    rep.fn(f)
    rep.analysed(I)


def wanted(db):
    out = []
    for h, x in sorted(db.fns.items(), key=lambda i: i[1].d):
        if "{" in x.d or not x.d.startswith((Z + "phf::map::", Z + "phf::set::", Z + "swiss::map::Map", Z + "swiss::set::")):
            continue
        if x.name in ("get", "get_entry", "contains", "contains_key"):
            f = db.get(h)
            if f is not None and f.blocks is not None:
                out.append(f)
    return out


def check(rep):
    db = rep.db
    fs = wanted(db)
    rep.ob("anchor", len(fs) >= 12, "lookups", "the lookups of tables (%d)" % len(fs))
    jobs = [(short(f.d), lookup, (f, short(f.d))) for f in fs]
    one, two = (fn(db, Z + "phf::hashing::" + n) for n in ("get_index", "get_custom_index"))
    if one is None or two is None:
        rep.undecided("anchor", "slot", "the slot of a key is not computed where it is expected")
    else:
        jobs.append(("slot", slots, (one, two, "slot")))
    for path, n in (("trie::TrieRef::<T, F>::get", 3), ("trie::walk::Walk::<'a, 'buf, T, F, S>::poll", 2)):
        f = fn(db, Z + path)
        if f is None or f.blocks is None:
            rep.undecided("anchor", path, "%s is not there" % path)
        else:
            jobs.append((short(f.d), trie, (f, short(f.d), n)))
    rep.jobs(jobs)


def fn(db, path):
    f = db.find(path)
    f = f[0] if isinstance(f, list) and f else f
    return db.get(f.h) if f else None
