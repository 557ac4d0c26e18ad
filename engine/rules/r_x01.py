"""X01: the context always knows where it is."""
from common import *

LEVEL = "proof"
EXPLANATION = (
    "Typestate dataflow over the control flow graph of every function which enters a part of a value in a context: the stack of "
    "parts which are entered and not left is computed for each block, for all paths; where the function returns and its result is "
    "not an error, the stack has to be empty, and what is left has to be what was entered last. The context itself is interpreted "
    "abstractly for unknown state: each step is pushed, counted when there is no room, and popped exactly once.")
CX = "musli_core::context::Context"
PAIR = {"leave_field": ("enter_named_field", "enter_unnamed_field"), "leave_struct": ("enter_struct",), "leave_enum": ("enter_enum",),
        "leave_variant": ("enter_variant",), "leave_sequence_index": ("enter_sequence_index",), "leave_map_key": ("enter_map_key",)}
ENTER = {e for es in PAIR.values() for e in es}
SWALLOW = {"ok", "unwrap_or", "unwrap_or_default", "unwrap_or_else", "or", "or_else", "map_or", "map_or_else", "into_iter", "is_ok_and"}




def callee(t):
    f = t[1][1].get("fn") if t[1][0] == "k" else None
    return (f.get("tr"), f.get("n"), f["d"]) if f else (None, None, None)


def step(t):
    tr, n, d = callee(t)
    if tr == CX and n in ENTER:
        return ("enter", n)
    if tr == CX and n in PAIR:
        return ("leave", n)
    return None


class Flow:
    """The parts which are entered, for each block of a function and all paths to it"""

    def __init__(self, db, f, sums):
        self.db, self.f, self.sums = db, f, sums
        self._live = None
        self.failed = set()
        self.problems, self.ends, self.over, self.unknown = {}, set(), False, False
        writes = {}
        for b in f.blocks:
            if b is None:
                continue
            for st in b[0]:
                if st[0] == "=":
                    writes.setdefault(st[1][0], []).append(st if not st[1][1] else None)
                elif st[0] == "sd":
                    writes.setdefault(st[1][0], []).append(None)
            if b[1][0] == "call":
                writes.setdefault(b[1][3][0], []).append(None)
        for b in f.blocks:
            if b is not None:
                for st in b[0]:
                    # what is borrowed mutably may change
                    if st[0] == "=" and st[2][0] in ("ref", "addr") and st[2][1] not in ("shared", "const", False):
                        writes.setdefault(st[2][2][0], []).append(None)
        self.writes = writes
        # conditions which are looked at more than once, and results which are looked at
        seen = {}
        self.looked = set()
        for b in f.blocks:
            if b is None:
                continue
            if b[1][0] == "switch" and b[1][1][0] != "k":
                c = self.canon(b[1][1][1])
                seen[c] = seen.get(c, 0) + 1
            for st in b[0]:
                if st[0] == "=" and st[2][0] == "discr":
                    self.looked.add(st[2][1][0])
        self.again = {c for c, n in seen.items() if n > 1 and c is not None}
        self.isres = self.result_local(0)

    def canon(self, pl, n=0):
        """the place a value was copied from, if nothing of it changes"""
        if n > 8:
            return None
        l, pr = pl
        w = self.writes.get(l, [])
        if not w and l <= self.f.args:
            return pl
        if len(w) == 1 and w[0] is not None and not pr:
            rv = w[0][2]
            if rv[0] == "use" and rv[1][0] != "k":
                return self.canon(rv[1][1], n + 1)
        return None

    def live(self, n):
        """locals which may be read from a block on"""
        if self._live is None:
            use, dfn, succ = {}, {}, {}

            def places(x, out):
                if isinstance(x, tuple):
                    if len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], tuple):
                        out.add(x[0])
                        return
                    for y in x:
                        places(y, out)
            for i, b in enumerate(self.f.blocks):
                if b is None:
                    continue
                u, d = set(), set()
                for st in b[0]:
                    if st[0] == "=":
                        r = set()
                        places(st[2], r)
                        if st[1][1]:
                            r.add(st[1][0])
                        u |= r - d
                        if not st[1][1]:
                            d.add(st[1][0])
                t = b[1]
                r = set()
                if t[0] == "switch":
                    places(t[1], r)
                    succ[i] = [x for _, x in t[2]] + [t[3]]
                elif t[0] == "call":
                    places(t[1], r)
                    places(t[2], r)
                    succ[i] = [t[4]]
                elif t[0] == "drop":
                    succ[i] = [t[2]]
                elif t[0] == "assert":
                    succ[i] = [t[4]]
                elif t[0] == "goto":
                    succ[i] = [t[1]]
                elif t[0] == "return":
                    r = {0}
                u |= r - d
                if t[0] == "call" and not t[3][1]:
                    d.add(t[3][0])
                use[i], dfn[i] = u, d
            live = {i: set(u) for i, u in use.items()}
            ch = True
            while ch:
                ch = False
                for i in live:
                    o = set()
                    for x in succ.get(i, ()):
                        o |= live.get(x, set())
                    n2 = use[i] | (o - dfn[i])
                    if n2 != live[i]:
                        live[i] = n2
                        ch = True
            # what is borrowed lives on
            lent = {st[2][2][0] for b in self.f.blocks if b is not None for st in b[0] if st[0] == "=" and st[2][0] in ("ref", "addr")}
            self._live = {i: x | lent for i, x in live.items()}
        return self._live.get(n, ())

    def kinds(self, b, k):
        """which of the results in locals are known to be ok or err"""
        k = dict(k)
        for st in b[0]:
            if st[0] != "=":
                if st[0] == "sd":
                    k.pop(st[1][0], None)
                continue
            (l, pr), rv = st[1], st[2]
            if pr:
                k.pop(l, None)
                continue
            k.pop(l, None)
            if rv[0] == "agg" and rv[1][0] == "adt" and rv[1][1] == RESULT:
                k[l] = rv[1][2]
            elif rv[0] == "use" and rv[1][0] != "k" and not rv[1][1][1] and rv[1][1][0] in k:
                k[l] = k[rv[1][1][0]]
            elif rv[0] == "discr" and not rv[1][1]:
                k[l] = ("of", rv[1][0])
        return k

    def run(self):
        f = self.f
        todo = [(0, (), (), ())]
        seen = set()
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            if len(seen) > 60000:
                self.over = True
                return
            bi, stack, ks, cs = x
            b = f.blocks[bi]
            if b is None:
                continue
            k = self.kinds(b, ks)
            t = b[1]

            def go(n, stack=stack, k=k, cs=cs):
                if n is not None:
                    live = self.live(n)
                    todo.append((n, stack, tuple(sorted(((l, v) for l, v in k.items() if l in live or l == "failed"), key=str)), cs))
            if t[0] == "goto":
                go(t[1])
            elif t[0] == "switch":
                op = t[1]
                of = None
                if op[0] != "k" and not op[1][1]:
                    v = k.get(op[1][0])
                    if isinstance(v, tuple) and v[0] == "of":
                        of = v[1]
                c = self.canon(op[1]) if op[0] != "k" else None
                c = c if c in self.again else None
                known = dict(cs).get(c) if c is not None else None
                vals = [v for v, _ in t[2]]
                for v, n in t[2] + ((None, t[3]),):
                    k2, cs2 = k, cs
                    if of is not None and isinstance(k.get(of), int):
                        if v is None and k[of] in vals or v is not None and k[of] != v:
                            continue
                    elif of is not None and self.result_local(of) and (v is not None or len(vals) == 1):
                        k2 = dict(k)
                        k2[of] = v if v is not None else 1 - vals[0]
                        if k2[of] == 1 and self.fails(of):
                            # recovering from an error: what it entered is still entered
                            k2["failed"] = b[1][4]
                    if c is not None:
                        if known is not None and known != ("other", tuple(vals)) and (known in vals if v is None else known != v):
                            continue
                        if known == ("other", tuple(vals)) and v is not None:
                            continue
                        cs2 = tuple(sorted(dict(cs, **{}).items() | {(c, v if v is not None else ("other", tuple(vals)))}, key=str)) \
                            if known is None else cs
                    go(n, stack, k2, cs2)
            elif t[0] == "drop":
                go(t[2])
            elif t[0] == "assert":
                go(t[4])
            elif t[0] == "call":
                k = dict(k)
                (l, pr) = t[3]
                k.pop(l, None)
                tr, n, d = callee(t)
                if d == "core::ops::try_trait::FromResidual::from_residual" and not pr and self.result_local(l):
                    k[l] = 1
                if self.result_local(l) and not pr and l != 0 and self.fails(l) and t[4] is not None and l not in self.live(t[4]):
                    k["failed"] = t[5]
                if (d or "").startswith("core::result::Result::") and d.rsplit("::", 1)[1] in SWALLOW and t[2][0][0] != "k" and not t[2][0][1][1] \
                        and self.result_local(t[2][0][1][0]) and self.fails(t[2][0][1][0]):
                    k["failed"] = t[5]
                ops = [step(t)] if step(t) else self.sums.get(self.target(t), ())
                if tr == CX and n == "mark" and not pr:
                    k[l] = ("mark",) + stack
                elif tr == CX and n == "restore":
                    m = self.marked(t[2][1], b, k)
                    if m is not None:
                        k.pop("failed", None)
                        go(t[4], m, k)
                        continue
                    self.unknown = True
                if not ops:
                    # what a call is given to be called: the result is its result
                    for a in t[2]:
                        if a[0] != "k" and not a[1][1] and self.f.locals[a[1][0]][0] == "closure":
                            ops = self.sums.get(self.f.locals[a[1][0]][2], ())
                st2 = stack
                for o, n in ops:
                    if o == "enter":
                        st2 = st2 + (n,)
                    elif st2 and st2[-1] in PAIR[n]:
                        st2 = st2[:-1]
                    elif st2 and not st2[-1].startswith("-"):
                        self.problems.setdefault(("%s after %s" % (n, st2[-1])), t[5])
                        st2 = None
                        break
                    else:
                        st2 = st2 + ("-" + n,)
                if st2 is not None and len(st2) < 12:
                    go(t[4], st2, k)
                elif st2 is not None:
                    self.problems.setdefault("more is entered each time around", t[5])
            elif t[0] == "return":
                if not (self.isres and k.get(0) == 1):
                    self.ends.add(stack)
                    if "failed" in k and self.isres:
                        self.failed.add(k["failed"])

    def marked(self, op, b, k, n=0):
        """what was entered where a mark was taken"""
        if op[0] == "k" or n > 6:
            return None
        l, pr = op[1]
        v = k.get(l)
        if isinstance(v, tuple) and v[0] == "mark":
            return v[1:]
        w = self.writes.get(l, [])
        if len(w) == 1 and w[0] is not None:
            rv = w[0][2]
            if rv[0] == "ref":
                return self.marked(("c", rv[2]), b, k, n + 1)
            if rv[0] == "use":
                return self.marked(rv[1], b, k, n + 1)
        return None

    def target(self, t):
        f = t[1][1].get("fn") if t[1][0] == "k" else None
        if not f:
            return None
        return f["r"]["h"] if "r" in f else f["h"]

    def fails(self, l):
        """is this a result of something which was given the context?"""
        e = self.f.locals[l]
        e = e[2][1] if len(e[2]) > 1 else ()
        return e[:1] == ("proj",) and e[1].endswith("::Error") and e[1].startswith("musli")

    def result_local(self, l):
        t = self.f.locals[l]
        return t[0] == "adt" and t[1] == RESULT


def forwards(db, f):
    i = db.item_impl.get(f.h)
    return bool(i and i["tr"] and (i["tr"] == CX or i["tr"].endswith("context::trace::TraceImpl")))


def balance(rep):
    """Rule "balance": whoever enters a part leaves it, on each path which isn't an error"""
    db = rep.db
    fns = [g for g in (db.get(h) for h in list(db.fns)) if g is not None and g.blocks and not forwards(db, g)]
    sums, done = {}, {}
    users = {}
    for f in fns:
        for b in f.blocks:
            if b is not None and b[1][0] == "call":
                g = b[1][1][1].get("fn") if b[1][1][0] == "k" else None
                for a in b[1][2]:
                    if a[0] != "k" and not a[1][1] and f.locals[a[1][0]][0] == "closure":
                        users.setdefault(f.locals[a[1][0]][2], set()).add(f.h)
                if g:
                    users.setdefault(g["r"]["h"] if "r" in g else g["h"], set()).add(f.h)
    todo = [f for f in fns if any(b is not None and b[1][0] == "call" and (step(b[1]) or callee(b[1])[0] == CX) for b in f.blocks)
            or any(t[0] == "adt" and t[1] == RESULT and str(t[2][1]).find("::Error'") > 0 for t in f.locals)]
    byh = {f.h: f for f in fns}
    sites = 0
    rounds = 0
    while todo and rounds < 30000:
        rounds += 1
        f = todo.pop(0)
        fl = Flow(db, f, sums)
        fl.run()
        done[f.h] = fl
        # a helper which enters or leaves for whoever calls it
        if len(fl.ends) == 1 and not fl.problems and not fl.over:
            (end,) = fl.ends
            helper = users.get(f.h) and not f.intrait and not (db.item_impl.get(f.h) or {}).get("tr")
            ops = tuple(("leave", n[1:]) if n.startswith("-") else ("enter", n) for n in end)
            if helper and sums.get(f.h, ()) != ops:
                sums[f.h] = ops
                todo += [byh[h] for h in users[f.h] if h in byh and byh[h] not in todo]
    for h, fl in sorted(done.items(), key=lambda x: x[1].f.d):
        f = fl.f
        rep.fn(f)
        name = short(f.d)
        if fl.over or fl.unknown:
            rep.undecided("balance", name, "the paths are too many to follow")
            continue
        for p, sp in sorted(fl.problems.items()):
            rep.ob("balance", False, "%s: %s" % (name, p), "%s:%d: the context is told %s" % (sp[0].replace("/repo/", ""), sp[1], p))
        for sp in sorted(fl.failed):
            rep.ob("recover", False, name, "%s:%d: goes on after an error without restoring the context" % (sp[0].replace("/repo/", ""), sp[1]))
        ends = fl.ends if not sums.get(h) else set()
        for e in sorted(ends):
            sites += 1
            what = " and ".join("%s which was not entered" % x[1:] if x.startswith("-") else "%s which is not left" % x for x in e)
            rep.ob("balance", not e, "%s: %s" % (name, what), "%s: returns without an error after %s" % (loc(f), what))
    rep.notes.append("%d functions enter or leave parts; %d helpers" % (len(done), sum(1 for x in sums.values() if x)))



# ---- the context itself
TRACE = "musli::context::trace::WithTraceImpl"
ACCESS = "musli::context::access::"
TIMPL = "musli::context::trace::TraceImpl"
VEC = "musli_core::alloc::vec::Vec::<T, A>::"
SELF = ("L", ("cx",), 0)
ORDER = ("mark", "errors", "path", "cap", "include_type", "access")
KIND = {"enter_named_field": "Named", "enter_unnamed_field": "Unnamed", "enter_variant": "Variant", "enter_sequence_index": "Index",
        "enter_map_key": "Key", "enter_struct": "Struct", "enter_enum": "Enum"}


class Cx:
    """A context in an unknown state, held by `held`"""

    def __init__(self, db, held=ZERO):
        self.db = db
        adt = db.adts.get(TRACE)
        self.fields = [f[0] for f in adt["variants"][0]["fields"]] if adt else []
        self.ok = sorted(self.fields) == sorted(ORDER)
        self.I = I = Interp(db, opaque=lambda *a: False, models=self.models(), depth=24, inline_drop=True)
        self.t = ("adt", TRACE, (("param", "A"),))
        self.init = {"mark": I.settype(("cxmark",), USIZE), "errors": ("cxvec", "errors"), "path": ("cxvec", "path"),
                     "cap": I.settype(("cxcap",), USIZE), "include_type": I.settype(("cxtypes",), ("bool",)),
                     "access": ("agg", ACCESS + "Access", 0, (held,))}

    def state(self, st=None, init=None):
        st = st or State()
        st.mem[SELF] = ("agg", TRACE, 0, tuple((init or self.init)[n] for n in self.fields))
        return st

    def get(self, s, name):
        v = s.mem.get(SELF)
        if not v or v[0] != "agg":
            return None
        x = v[3][self.fields.index(name)]
        if name == "access":
            return x[3][0] if x[0] == "agg" else None
        return x

    def which(self, I, c, st):
        v = c.args[0]
        t = c.tys[0]
        if t and t[0] in ("ref", "ptr"):
            r, p, tys = I.deref(v, t[1])
            v = I.load(st, r, p, tys)
        return v[1] if v[0] == "cxvec" else None

    def models(self):
        def vec(op, res):
            def f(I, c, st):
                w = self.which(I, c, st)
                if w is None:
                    return None
                out = []
                for v in res(I, w, st, c):
                    s = st.copy()
                    s.ev("vec", w, op, tuple(c.args[1:]), self.get(st, "access"), v)
                    out.append((s, v))
                return out
            return f

        def length(I, w, st, c):
            return [I.settype(("cxlen", w, len(st.trace)), USIZE)]
        ms = {
            VEC + "push": vec("push", lambda I, w, st, c: [M.ok(UNIT), M.err(("allocerror",))]),
            VEC + "pop": vec("pop", lambda I, w, st, c: [("cxpopped",)]),
            VEC + "truncate": vec("truncate", lambda I, w, st, c: [UNIT]),
            VEC + "clear": vec("clear", lambda I, w, st, c: [UNIT]),
            VEC + "len": vec("len", length),
            VEC + "as_slice": vec("as_slice", lambda I, w, st, c: [("cxslice", w)]),
        }

        def fmt(I, c, st):
            out = []
            for v in (M.ok(UNIT), M.err(("fmterror",))):
                s = st.copy()
                s.ev("fmt", v)
                out.append((s, v))
            return out
        ms["core::fmt::Write::write_fmt"] = fmt
        return ms


def fmt_ok(s):
    e = [e for e in s.trace if e[0] == "fmt"]
    return None if not e else is_res(e[-1][1], 0)


def vecs(s, *skip):
    return [e for e in s.trace if e[0] == "vec" and e[2] not in skip]


def zero(s, a, b):
    return a is not None and b is not None and s.lin.eq0(sub(a, b))


def one(fs):
    return fs[0][1] if len(fs) == 1 else None


def state_rule(rep):
    """Rule "state": each function of a tracing context does to its state what it is for"""
    db = rep.db
    meths = sorted(db.traits.get(TIMPL, {}))
    cx0 = Cx(db)
    if not cx0.ok or not meths:
        rep.ob("anchor", False, "context state", "the state of a tracing context isn't what it was")
        return
    for n in meths:
        if n not in MEANING and db.traits[TIMPL][n].get("k", "fn") in ("fn", "method") and n != "Mark":
            rep.undecided("state", n, "a function of the context which has no rule")
    for name, rule in MEANING.items():
        f = one(db.method(TIMPL, lambda t: t[0] == "adt" and t[1] == TRACE, name))
        if f is None:
            rep.ob("anchor", False, "context %s" % name, "not found")
            continue
        rep.fn(f)
        cx = Cx(db)
        I = cx.I
        args = [SELFREF(cx)] + [SENT(f, i) for i in range(2, f.args + 1)]
        st = cx.state()
        marks = None
        if name in ("restore", "message_at", "custom_at"):
            # the mark is one which was taken when the context was in another state
            g = one(db.method(TIMPL, lambda t: t[0] == "adt" and t[1] == TRACE, "mark"))
            other = dict(cx.init, mark=I.settype(("cxmark0",), USIZE), cap=I.settype(("cxcap0",), USIZE))
            taken = I.run(g, [SELFREF(cx)], cx.state(None, other), {"A": ("param", "A")})
            if len(taken) != 1:
                rep.undecided("state", name, "a mark is taken in more than one way")
                continue
            s0, mk = taken[0]
            marks = {"at": other["mark"], "cap": other["cap"], "len": [e[5] for e in vecs(s0) if e[2] == "len" and e[1] == "path"]}
            st = cx.state(s0)
            st.trace = ()
            st.mem[("L", ("themark",), 0)] = mk
            k = 1 if name == "restore" else 2
            args[k] = ("ref", ("L", ("themark",), 0), ())
        try:
            outs = I.run(f, args, st, {"A": ("param", "A"), "T": ("param", "T")})
        except Exception as e:
            rep.undecided("state", name, "%s: %s" % (type(e).__name__, e))
            continue
        rep.analysed(I)
        why = []
        for s, v in outs:
            if not s.lin.feasible():
                continue
            rule(cx, s, v, args, marks, why)
            held = cx.get(s, "access")
            if not zero(s, held, ZERO):
                why.append(("its state is still held", True))
            for e in vecs(s):
                want = e[4]
                ok = want is not None and (zero(s, want, ONE) or e[2] in ("len", "as_slice") and not s.lin.eq0(want) and
                                           s.lin.entails(sub(C(-1), want)))
                if not ok:
                    why.append(("%s of %s while it is not held" % (e[2], e[1]), True))
        if not outs:
            why.append(("never returns", True))
        # a context which is used by something else, such as an error which was handed out
        cx = Cx(db, ("cxheld",))
        cx.I.settype(("cxheld",), ("int", "isize"))
        for s, v in cx.I.run(f, [SELFREF(cx)] + args[1:], cx.state(marks and taken[0][0]), {"A": ("param", "A"), "T": ("param", "T")}):
            if s.lin.feasible() and vecs(s, "len", "as_slice") and not s.lin.eq0(("cxheld",)):
                why.append(("changes what is used by something else", True))
        seen = {}
        for w, exact in why:
            seen[w] = seen.get(w, False) or exact
        rep.ob("state", not why, short("context %s" % name), "%s: %s: %s" % (loc(f), name, "; ".join(sorted(seen))), all(seen.values()))


def held_rule(rep):
    """Rule "held": what is handed out keeps the state from changing, and lets go of it in the end"""
    db = rep.db
    cx = Cx(db)
    f = [g for g in db.fns.values() if g.name == "errors" and g.d.startswith(TRACE + "::")]
    n = one([(i, g) for i, g in db.method("core::iter::traits::iterator::Iterator", lambda t: t[0] == "adt" and t[1].startswith("musli::context::trace::"), "next")])
    sh = [(i, g) for i, g in db.method("core::ops::drop::Drop", lambda t: t[0] == "adt" and t[1].startswith(ACCESS), "drop")]
    if not cx.ok or len(f) != 1 or n is None or not sh:
        rep.ob("anchor", False, "context errors", "not found")
        return
    f = db.get(f[0].h)
    rep.fn(f)
    I = cx.I
    outs = I.run(f, [SELFREF(cx)], cx.state(), {"A": ("param", "A")})
    for s, v in outs:
        rep.ob("held", zero(s, cx.get(s, "access"), C(-1)) and guards(v) == 1, "context errors",
               "%s: the errors which are handed out don't hold the context" % loc(f))
        st = s.copy()
        st.mem[("L", ("theerrors",), 0)] = v
        for s2, v2 in I.run(n, [("ref", ("L", ("theerrors",), 0), ())], st, {"A": ("param", "A")}):
            if v2[0] == "agg" and v2[2] == 1:
                rep.ob("held", zero(s2, cx.get(s2, "access"), C(-2)) and guards(v2) == 1, "context errors next",
                       "%s: an error which is handed out doesn't hold the context" % loc(n))
    for i, g in sh:
        rep.fn(g)
        kind = i["self"][1].rsplit("::", 1)[1]
        h = I.settype(("cxheld", kind), ("int", "isize"))
        cx2 = Cx(db, h)
        st = cx2.state()
        st.mem[("L", ("theguard",), 0)] = ("agg", i["self"][1], 0, (("ref", SELF, (("f", None, cx2.fields.index("access")),), False,
                                                                   (("adt", ACCESS + "Access", ()),)),))
        ex = kind.startswith("Ex")
        if ex:
            st.lin = st.lin.with_(sub(h, ONE)).with_(sub(ONE, h))
        else:
            st.lin = st.lin.with_(sub(C(-1), h))
        for s, v in cx2.I.run(g, [("ref", ("L", ("theguard",), 0), ())], st, {}):
            if s.lin.feasible():
                rep.ob("held", zero(s, cx2.get(s, "access"), ZERO if ex else add(h, ONE)), "access %s" % kind,
                       "%s: the context is not let go of" % loc(g))
    rep.analysed(I)


def forward_rule(rep):
    """Rule "forward": what the default context is told reaches its trace and what it captures"""
    db = rep.db
    fs = [(i, n) for i in db.impl_by_trait.get(CX, []) for n in i["items"] if "default_context" in i["d"] or "DefaultContext" in str(i["self"])]
    if not fs:
        rep.ob("anchor", False, "default context", "not found")
    capt = set()
    for i, n in fs:
        if n not in db.traits.get(TIMPL, {}) or n not in MEANING:
            continue
        f = db.get(i["items"][n]["h"])
        rep.fn(f)
        I = Interp(db, opaque=lambda c: c.tr in (TIMPL, "musli::context::default_context::ErrorMode") or (c.tr or "").endswith("::Capture"), depth=12)
        args = [("arg", n, k) for k in range(1, f.args + 1)]
        outs = I.run(f, args, State(), {})
        rep.analysed(I)
        why = []
        if not outs:
            why.append(("never returns", True))
        for s, v in outs:
            es = [e for e in s.trace if e[0] == "call" and e[1].startswith(TIMPL)]
            if [last(e) for e in es] != [n]:
                why.append(("the trace is told %s" % (" and ".join(last(e) for e in es) or "nothing"), True))
                continue
            e = es[0]
            for a in args[1:]:
                if not any(holds(x, a) or x[0] == "ref" and holds(s.mem.get(x[1]), a) for x in e[3][1:]):
                    why.append(("the trace isn't told all of it", True))
            if n == "mark" and v != e[4]:
                why.append(("the mark is not that of the trace", True))
            cs = [c for c in s.trace if c[0] == "call" and c not in es]
            if n.split("_")[0] in ("message", "custom"):
                capt.add(len(cs))
                if [last(c) for c in cs] != [n.split("_")[0]]:
                    why.append(("what is captured is %s" % (" and ".join(last(c) for c in cs) or "nothing"), True))
                elif v != cs[0][4]:
                    why.append(("the error is not the one which is captured", True))
                elif not any(holds(x, args[-1]) for x in cs[0][3]):
                    why.append(("what is captured is not what is reported", True))
        seen = {}
        for w, exact in why:
            seen[w] = exact
        rep.ob("forward", not why, "context %s" % n, "%s: %s: %s" % (loc(f), n, "; ".join(sorted(seen))), True)


def last(e):
    return e[1].rsplit("::", 1)[1]


def holds(v, a):
    return v == a or isinstance(v, tuple) and any(holds(x, a) for x in v)


def guards(v):
    if not isinstance(v, tuple):
        return 0
    if v[:1] == ("agg",) and isinstance(v[1], str) and v[1].startswith(ACCESS) and not v[1].endswith("::Access"):
        return 1
    return sum(guards(x) for x in v)


def SELFREF(cx):
    return ("ref", SELF, ())


def SENT(f, i):
    return ("arg", f.d.rsplit("::", 1)[1], i)


def same(cx, s, why, *names):
    for n in names:
        a, b = cx.get(s, n), cx.init[n]
        if not (a == b or a is not None and a[0] not in ("cxvec", "agg") and zero(s, a, b)):
            why.append(("%s changes" % n, True))


def only(s, why, *want):
    """the changes of the collections are these"""
    got = [(e[1], e[2]) for e in vecs(s, "len", "as_slice")]
    if sorted(got) != sorted(want):
        why.append(("does %s rather than %s" % (" and ".join("%s.%s" % x for x in got) or "nothing",
                                              " and ".join("%s.%s" % x for x in want) or "nothing"), True))
        return False
    return True


def m_clear(cx, s, v, a, mk, why):
    only(s, why, ("errors", "clear"), ("path", "clear"))
    for n in ("mark", "cap"):
        if not zero(s, cx.get(s, n), ZERO):
            why.append(("%s is not zero" % n, True))


def m_advance(cx, s, v, a, mk, why):
    only(s, why)
    same(cx, s, why, "cap")
    x = cx.get(s, "mark")
    y = add(cx.init["mark"], a[1])
    if not (zero(s, x, y) or x == ("mod2", 64, y) or wrapped(cx, s, x, y)):
        why.append(("the mark is not moved by what it is given", True))


def wrapped(cx, s, x, y):
    d = sub(x, y)
    return zero(s, d, C(1 << 64)) or zero(s, d, C(-(1 << 64)))


def m_mark(cx, s, v, a, mk, why):
    only(s, why)
    same(cx, s, why, "mark", "cap")


def m_restore(cx, s, v, a, mk, why):
    got = {(e[1], e[2]) for e in vecs(s, "len", "as_slice")}
    if got - {("path", "pop"), ("path", "truncate")}:
        why.append(("does %s" % sorted(got), True))
    if not zero(s, cx.get(s, "mark"), mk["at"]):
        why.append(("the position is not that of the mark", True))
    if not zero(s, cx.get(s, "cap"), mk["cap"]):
        why.append(("what is past the path is not what it was", True))
    if not mk["len"]:
        return why.append(("a mark does not remember the path", True))
    ch = vecs(s)
    ls = [e for e in ch if e[1] == "path"]
    if ls and ls[-1][2] == "truncate" and zero(s, ls[-1][3][0], mk["len"][-1]):
        return
    if not ls or ls[-1][2] != "len" or not s.lin.entails(sub(mk["len"][-1], ls[-1][5])):
        why.append(("the path keeps what was entered after the mark", True))


def text(cx, s):
    return True


def m_error(at):
    def f(cx, s, v, a, mk, why):
        same(cx, s, why, "mark", "cap")
        ok = fmt_ok(s)
        if ok is None:
            why.append(("the message is not written", True))
        if not ok:
            return only(s, why)
        if not only(s, why, ("errors", "push")):
            return
        e = [e for e in vecs(s, "len") if e[1] == "errors"][0]
        x = e[3][0]
        if x[0] != "agg" or x[3][0][0] != "agg":
            return why.append(("what is reported is not known", False))
        lo, hi = x[3][0][3][:2]
        if not zero(s, hi, cx.init["mark"]) or not zero(s, lo, mk["at"] if at else cx.init["mark"]):
            why.append(("what is reported is not where the error is", True))
    return f


def m_enter(name, types):
    def f(cx, s, v, a, mk, why):
        same(cx, s, why, "mark")
        if types and cx.I.decide(s, cx.init["include_type"]) is not True:
            same(cx, s, why, "cap")
            return only(s, why)
        more = add(cx.init["cap"], ONE)
        if name == "enter_map_key" and not fmt_ok(s):
            if not zero(s, cx.get(s, "cap"), more):
                why.append(("a key which can't be written is not counted", True))
            return only(s, why)
        if not only(s, why, ("path", "push")):
            return
        e = [e for e in vecs(s, "len") if e[1] == "path"][0]
        x = e[3][0]
        vs = [q["n"] for q in cx.db.adts["musli::context::trace::Step"]["variants"]] if "musli::context::trace::Step" in cx.db.adts else []
        if x[0] != "agg" or x[2] >= len(vs):
            why.append(("the step is not known", False))
        elif vs[x[2]] != KIND[name]:
            why.append(("enters %s rather than %s" % (vs[x[2]], KIND[name]), True))
        elif name != "enter_map_key" and x[3][0] != a[1] and not zero(s, x[3][0], a[1]):
            why.append(("the step is not what was given", True))
        if not zero(s, cx.get(s, "cap"), cx.init["cap"] if is_res(e[5], 0) else more):
            why.append(("%s" % ("a step is counted which was stored" if is_res(e[5], 0) else "a step which is not stored is not counted"), True))
    return f


def m_leave(types):
    def f(cx, s, v, a, mk, why):
        same(cx, s, why, "mark")
        if types and cx.I.decide(s, cx.init["include_type"]) is not True:
            same(cx, s, why, "cap")
            return only(s, why)
        if s.lin.entails(sub(cx.init["cap"], ONE)):
            if not zero(s, cx.get(s, "cap"), sub(cx.init["cap"], ONE)):
                why.append(("a step which was counted stays counted", True))
            only(s, why)
        elif s.lin.eq0(cx.init["cap"]):
            same(cx, s, why, "cap")
            only(s, why, ("path", "pop"))
        else:
            why.append(("leaves without looking at what was counted", True))
    return f


MEANING = {"clear": m_clear, "advance": m_advance, "mark": m_mark, "restore": m_restore, "message": m_error(False), "custom": m_error(False),
           "message_at": m_error(True), "custom_at": m_error(True)}
for n in KIND:
    MEANING[n] = m_enter(n, n in ("enter_struct", "enter_enum"))
for n in PAIR:
    MEANING[n] = m_leave(n in ("leave_struct", "leave_enum"))


def check(rep):
    rep.jobs([("balance", balance, ()), ("state", state_rule, ()), ("held", held_rule, ()), ("forward", forward_rule, ())])
