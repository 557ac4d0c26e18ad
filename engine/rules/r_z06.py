"""Z06: looking things up in untrusted tables does not panic."""
from common import *
from panics import *
import models as M

LEVEL = "proof"
EXPLANATION = """Everything which reads tables, tries, slices and references is interpreted with unknown fields, as they come from
untrusted memory. Each assertion of the compiler (bounds, overflow, division) and each call which panics, in these functions or
anything they call, is an obligation on the facts of the path. Rule invariant: the start of an iterator is not behind its end after
each step. Loading, hashing and documented panics of functions whose argument is the caller's are left out."""
ITER = "musli_zerocopy::pointer::r#ref::Iter"
STACK = "musli_zerocopy::stack::array_stack::ArrayStack"
Z = "musli_zerocopy::"
# decided by Z01: loading never panics; hashing wraps
CUT = (Z + "buf::buf::", Z + "buf::validator::", Z + "buf::load::", Z + "sip::", Z + "traits::", Z + "buf::visit::", "core::hash::", Z + "stack::", "alloc::")
# a constant is evaluated when the program is built
NOT = (("panic", "{constant#"),)


def opaque(c):
    return c.path.startswith(CUT) or c.tr is not None and c.tr.startswith(CUT) or c.path == Z + "phf::hashing::hash"


def get(I, c, st):
    """an element of a slice: its index is less than its length"""
    a, b = st.copy(), st.copy()
    a.lin = a.lin.with_(sub(C((1 << 64) - 2), c.args[1]))
    a.ev("found", c.args[1])
    b.ev("missing", c.args[1])
    t = c.rty[2][0] if c.rty and c.rty[0] == "adt" else ("param", "X")
    return [(a, M.some(I.fresh(("element", c.ctx, len(st.trace)), t))), (b, M.NONE)]


def prefix(I, c, st):
    """of both"""
    n = I.settype(("prefix", c.ctx, len(st.trace)), USIZE)
    s = st.copy()
    s.lin = s.lin.with_(sub(I.slen(c.args[0]), n)).with_(sub(I.slen(c.args[1]), n))
    s.ev("prefix", n, tuple(c.args))
    return [(s, n)]


SEARCH = Z + "slice::binary_search::"


def search(I, c, st):
    """found or missing, somewhere; how it is searched is looked at by itself"""
    n = I.settype(("found", c.ctx, len(st.trace)), USIZE)
    vs = {"Found": 0, "Missing": 1}
    out = []
    for k in ("Found", "Missing"):
        s = st.copy()
        s.ev("searched", k, n, tuple(c.args))
        out.append((s, M.ok(("agg", SEARCH + "BinarySearch", vs[k], (n,)))))
    e = st.copy()
    return out + [(e, M.err(I.fresh(("failed", c.ctx), None)))]


MODELS = {SEARCH + "binary_search_by": search, Z + "slice::slice::Slice::get": get, Z + "trie::prefix": prefix}


def holds(I, st, root, adt, get):
    """what is always so of a value of this type: [at least zero]"""
    if adt == ITER:
        names = [n for n, _ in I.db.adts[adt]["variants"][0]["fields"]]
        if "start" in names and "end" in names:
            return [sub(get(names.index("end")), get(names.index("start")))]
    return []


def halved(v):
    return isinstance(v, tuple) and (bool(v) and v[0] in ("div", "shr") or any(halved(x) for x in v))


class Halves(Sites):
    """which number is half of another is beyond the domain"""

    def report(self, rep, who, out=()):
        for k in sorted({x[:2] for x in self.seen}):
            s = self.bad.get(k)
            if s is not None and any(k[1].startswith(n) and p in k[0] for n, p in out):
                continue
            rep.ob("panic", s is None, "%s: %s" % k, "%s: %s may panic (from %s)" % (k[0], k[1], who),
                   exact=s is None or known(s, ()) and not any(halved(f) for f in s.lin.facts))


def one(rep, f, who, again=None):
    I = Interp(rep.db, opaque=opaque, models=MODELS)
    if again:
        I.unroll = 3
    S = Halves(I, rep.db)
    if again:
        S.bad = again
    st = State()
    args, inv = [], []
    for i in range(f.args):
        t = f.locals[i + 1]
        x = I.fresh(("arg", f.name, i), t)
        if t[0] == "ref" and t[1][0] == "adt" and t[1][1] == ITER:
            fs = rep.db.adts[ITER]["variants"][0]["fields"]
            v = ("agg", ITER, 0, tuple(I.settype(("arg", "field", k), ft) for k, (_, ft) in enumerate(fs)))
            root = ("L", ("self", i), 0)
            I.root_types[root], st.mem[root] = t[1], v
            for h in holds(I, st, root, ITER, lambda k: v[3][k]):
                st.lin = st.lin.with_(h)
            inv.append((root, ITER))
            x = ("ref", root, (), True, (t[1],))
        args.append(x)
    try:
        outs = I.run(f, args, st, {})
    except Budget as e:
        if again:
            return S.report(rep, who, NOT)
        return rep.undecided("analysis", who, "%s: %s" % (who, e))
    if not again and any(not known(s, ()) for s in S.bad.values()):
        # the first iterations of its loops by themselves
        return one(rep, f, who, S.bad)
    if I.incomplete and not again:
        rep.undecided("analysis", who, "%s: %s" % (who, I.incomplete[0]))
    for s, v in outs:
        for root, adt in inv:
            w = s.mem[root]
            for h in holds(I, s, root, adt, lambda k: I.proj(w, ("f", None, k), USIZE)):
                rep.ob("invariant", s.lin.entails(h), who, "%s: the start may be behind the end" % who)
    S.report(rep, who, NOT)
    rep.fn(f)
    rep.analysed(I)


# what reading consists of, by where it is
READ = ("phf/map.rs", "phf/set.rs", "phf/hashing.rs", "phf/mod.rs", "swiss/map.rs", "swiss/set.rs", "trie/mod.rs", "trie/walk.rs", "slice/", "pointer/ref.rs",
        "buf/bind.rs", "buf/load.rs")
# documented to panic for arguments of the caller, or used for building
OUT = ("split_at", "at", "with_metadata", "new", "array_into_slice", "from_raw_parts", "from_ref", "swap_bytes", "validate", "pad", "fmt")


def roots(db):
    out = []
    for h, x in sorted(db.fns.items(), key=lambda i: i[1].d):
        if not x.span or not any("/musli-zerocopy/src/" + r in str(x.span) for r in READ):
            continue
        f = db.get(h)
        if f is None or f.blocks is None or "{" in f.d or f.kind == "const" or x.name in OUT or x.name.isupper():
            continue
        out.append((f.d, f))
    return out


def check(rep):
    rep.jobs([(who, one, (f, who)) for who, f in roots(rep.db)])
