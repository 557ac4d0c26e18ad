"""A path-sensitive abstract interpreter over the dumped MIR.

Values are terms (see lin.py for integers). The abstract state holds a memory
from places to terms, linear facts, the possible variants of enum values, known
booleans, and the list of effects performed so far on the path. Branches
partition the state, loops are solved by a fixpoint in which everything the
body changes is replaced by an unknown about which only inductive facts are
kept. Functions of the workspace are inlined; calls which cannot be resolved
(methods of a type parameter, calls named by the rule) are effects.
"""
import ast
import re
import db as D
import bits as BT
from lin import *

UNIT = ("agg", "tuple", 0, ())
TRUE, FALSE = C(1), C(0)
RESULT = "core::result::Result"
OPTION = "core::option::Option"
CF = "core::ops::control_flow::ControlFlow"


class Budget(Exception):
    pass


class Unsupported(Exception):
    pass


class State:
    __slots__ = ("mem", "lin", "var", "bl", "trace")

    def __init__(self, mem=None, lin=None, var=None, bl=None, trace=()):
        self.mem = mem if mem is not None else {}
        self.lin = lin or Lin()
        self.var = var if var is not None else {}
        self.bl = bl if bl is not None else {}
        self.trace = trace

    def copy(self):
        return State(dict(self.mem), self.lin, dict(self.var), dict(self.bl), self.trace)

    def ev(self, *e):
        self.trace = self.trace + (e,)


def low_zeros(t):
    """a power of two which a linear term is a multiple of"""
    if t[0] != "lin":
        return 1
    m = t[1]
    for _, k in t[2]:
        m |= k
    return m & -m if m else 1


class Frame:
    __slots__ = ("fn", "sub", "ctx", "body", "depth", "stack")

    def __init__(self, fn, sub, ctx, body, depth, stack):
        self.fn, self.sub, self.ctx, self.body, self.depth, self.stack = fn, sub, ctx, body, depth, stack


class Call:
    __slots__ = ("path", "h", "tr", "n", "args", "tys", "targs", "rty", "frame", "block", "site", "ctx", "orig")


def loops_of(body):
    """head -> set of blocks"""
    bl = body["blocks"] if isinstance(body, dict) else body.blocks
    n = len(bl)

    def succ(i):
        if bl[i] is None:
            return []
        t = bl[i][1]
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            return [b for _, b in t[2]] + [t[3]]
        if k == "drop":
            return [t[2]]
        if k == "call":
            return [t[4]] if t[4] is not None else []
        if k == "assert":
            return [t[4]]
        return []

    preds = {i: [] for i in range(n)}
    state = {}
    back = []
    order = []
    st = [(0, iter(succ(0)))]
    state[0] = 1
    while st:
        b, it = st[-1]
        adv = False
        for s in it:
            preds[s].append(b)
            if s not in state:
                state[s] = 1
                st.append((s, iter(succ(s))))
                adv = True
                break
            elif state[s] == 1:
                back.append((b, s))
        if not adv:
            state[b] = 2
            order.append(b)
            st.pop()
    loops = {}
    for b, h in back:
        body_ = loops.setdefault(h, {h})
        w = [b]
        while w:
            x = w.pop()
            if x in body_:
                continue
            body_.add(x)
            w.extend(preds[x])
    return loops


def str_lit(t):
    """the bytes of a string constant as the compiler prints it"""
    if not isinstance(t, str) or len(t) < 2 or t[0] != '"' or t[-1] != '"':
        return None
    t = re.sub(r"\\u\{([0-9a-fA-F]+)\}", lambda m: "\\U%08x" % int(m.group(1), 16), t[1:-1]).replace("\\0", "\\x00")
    try:
        return ast.literal_eval('"' + t + '"').encode()
    except (SyntaxError, ValueError):
        return None


class Interp:
    # traits whose default methods are followed where the type is unknown
    defaults = ()
    consts = None

    def __init__(self, db, opaque=None, models=None, depth=24, budget=60000, inline_drop=False):
        self.db = db
        self.opaque = opaque or (lambda call: False)
        self.depth = depth
        self.budget0 = budget
        self.budget = budget
        self.ctxs = {}
        self.root_types = {}
        self.mem_types = {}
        self.term_types = {}
        self.discr_adt = {}
        self.loops = {}
        self.loop_cache = {}
        self.on_assert = None  # (frame, block, msg, state, proved)
        self.on_call = None  # (call, state) -> None, before the call
        self.on_stmt = None
        self.on_panic = None
        self.on_drop = None
        self.on_store = None
        self.inline_drop = inline_drop
        self.extra_models = models or {}
        self.unknown = {}
        self.inlined = set()
        self.steps = 0
        self.merge_after = 6
        # terms are named within one interpreter
        atype.clear()
        BT._cache.clear()
        self.use_bits = False
        self.unroll = 0
        self.rec = 0  # how often a function may be active below itself
        self.incomplete = []
        import models as M
        self.models = M.MODELS
        self.tmodels = M.TRAIT_MODELS

    # ---- naming
    def ctx(self, *k):
        i = self.ctxs.get(k)
        if i is None:
            i = len(self.ctxs) + 1
            self.ctxs[k] = i
        return i

    # ---- types
    def norm(self, t, sub=None):
        t = D.subst(t, sub) if sub else t
        return self.norm_proj(t)

    def norm_proj(self, t):
        if not isinstance(t, tuple) or not t:
            return t
        if t[0] == "proj":
            args = tuple(self.norm_proj(a) for a in t[2])
            tr, _, name = t[1].rpartition("::")
            r = self.find_impl(tr, args)
            if r:
                imp, m = r
                it = imp["items"].get(name)
                if it and it["ty"] is not None:
                    own = args[len(imp["ta"]):]
                    if own:
                        # of a generic associated type
                        ps = []
                        D.params(it["ty"], ps)
                        ps = [p for p in ps if p not in m and p not in imp["g"]]
                        if len(ps) == len(own):
                            m = dict(m)
                            m.update(zip(ps, own))
                    return self.norm_proj(D.subst(it["ty"], m))
            if t[1].endswith("FnOnce::Output") and args and args[0][0] == "closure":
                f = self.db.get(args[0][2])
                if f:
                    return self.norm(f.locals[0], dict(zip(f.gens, args[0][4])))
            return ("proj", t[1], args)
        ch = False
        out = [t[0]]
        for x in t[1:]:
            if isinstance(x, tuple) and x:
                if isinstance(x[0], str):
                    y = self.norm_proj(x)
                else:
                    y = tuple(self.norm_proj(q) for q in x)
                ch = ch or y != x
                out.append(y)
            else:
                out.append(x)
        return tuple(out) if ch else t

    def find_impl(self, tr, args):
        if not args:
            return None
        key = (tr, args)
        c = self.db._resolve.get(key, 0)
        if c != 0:
            return c
        best = None
        if args[0][0] not in ("param", "proj"):
            for imp in self.db.impl_by_trait.get(tr, ()):
                m = {}
                ps = set(imp["g"])
                ia = imp["ta"]
                if len(ia) > len(args):
                    continue
                if all(D.unify(p, a, m, ps) for p, a in zip(ia, args)):
                    if any(self.unsized(m.get(g)) and g + ": core::marker::Sized" in imp["where"] for g in m):
                        continue
                    # prefer the more specific self type
                    if best is None or best[0]["ta"][0][0] == "param":
                        best = (imp, m)
        self.db._resolve[key] = best
        return best

    def unsized(self, ty):
        if not ty:
            return False
        if ty[0] in ("str", "slice", "dyn"):
            return True
        if ty[0] == "adt":
            if ty[1] in ("core::ffi::c_str::CStr", "std::path::Path", "std::ffi::os_str::OsStr"):
                return True
        return False

    def fields_of(self, ty):
        """types of the fields of a struct, or None"""
        if ty is None:
            return None
        if ty[0] == "tuple":
            return ty[1]
        if ty[0] == "closure":
            return ty[3]
        if ty[0] == "adt":
            a = self.db.adts.get(ty[1])
            if a and a["k"] == "struct":
                m = dict(zip(a["g"], ty[2]))
                return tuple(None if t is None else self.norm(t, m) for _, t in a["variants"][0]["fields"])
        return None

    def variant_fields(self, ty, v):
        if ty is None or ty[0] != "adt":
            return None
        a = self.db.adts.get(ty[1])
        if not a or v >= len(a["variants"]):
            return None
        m = dict(zip(a["g"], ty[2]))
        return tuple(None if t is None else self.norm(t, m) for _, t in a["variants"][v]["fields"])

    def struct_tag(self, ty):
        if ty[0] == "tuple":
            return "tuple"
        if ty[0] == "closure":
            return ("closure", ty[2])
        return ty[1]

    def field_index(self, adt, name, variant=0):
        for i, (n, _) in enumerate(self.db.adts[adt]["variants"][variant]["fields"]):
            if n == name:
                return i
        return None

    def settype(self, v, ty):
        if ty is None or not isinstance(v, tuple):
            return v
        k = v[0]
        if k in ("c", "lin", "agg"):
            return v
        if ty[0] in ("uint", "int", "bool", "char"):
            if v not in atype:
                atype[v] = ty
        if v not in self.term_types:
            self.term_types[v] = ty
        return v

    def ty_of(self, v):
        return self.term_types.get(v) or atype.get(v)

    def fresh(self, name, ty):
        v = self.settype(name, ty)
        if ty is not None:
            if ty == ("tuple", ()):
                return UNIT
        return v

    # ---- memory
    def proj(self, v, step, ty=None):
        k = step[0]
        if k == "f":
            if v[0] == "agg":
                if step[1] is not None and v[2] != step[1]:
                    return self.fresh(("dead", v, step), ty)
                if step[2] < len(v[3]):
                    return v[3][step[2]]
                return self.fresh(("fld", v, step[1], step[2]), ty)
            if v[0] == "upd":
                if v[2] == step:
                    return v[3]
                if v[2][0] == "f":
                    return self.proj(v[1], step, ty)
            if v[0] == "transmute" and step[2] == 0 and step[1] is None:
                pass
            return self.fresh(("fld", v, step[1], step[2]), ty)
        if k == "i":
            if v[0] == "agg" and isc(step[1]) and 0 <= step[1][1] < len(v[3]):
                return v[3][step[1][1]]
            if v[0] == "rep":
                return v[1]
            if v[0] == "bytes" and isc(step[1]) and 0 <= step[1][1] < len(v[1]):
                return C(v[1][step[1][1]])
            if v[0] == "aupd":
                if v[2] == step[1]:
                    return v[3]
                if isc(v[2]) and isc(step[1]):
                    return self.proj(v[1], step, ty)
            return self.fresh(("idx", v, step[1]), ty)
        if k == "sub":
            return ("subarr", v, step)
        return self.fresh(("?", v, step), ty)

    def load_root(self, st, root):
        v = st.mem.get(root)
        if v is None:
            if root[0] == "D":
                p = root[1]
                v = self.deref_init(p)
            else:
                v = ("uninit", root)
            ty = self.root_types.get(root)
            if ty is not None:
                self.settype(v, ty)
        return v

    def deref_init(self, p):
        if p[0] == "bytes_ref":
            return ("bytes", p[1])
        if p[0] == "kref":
            return p[1]
        return ("deref", p)

    def load(self, st, root, path, tys=None):
        v = self.load_root(st, root)
        for i, s in enumerate(path):
            v = self.proj(v, s, tys[i] if tys else None)
        return v

    def setp(self, v, path, tys, val, cur_ty):
        if not path:
            return val
        s = path[0]
        t0 = tys[0] if tys else None
        if s[0] == "f":
            if v[0] != "agg":
                fs = self.fields_of(cur_ty) if s[1] is None else None
                if fs is not None and s[2] < len(fs):
                    v = ("agg", self.struct_tag(cur_ty), 0,
                         tuple(self.proj(v, ("f", None, i), fs[i]) for i in range(len(fs))))
                elif s[1] is not None:
                    fs = self.variant_fields(cur_ty, s[1])
                    if fs is not None and s[2] < len(fs):
                        v = ("agg", cur_ty[1], s[1],
                             tuple(self.proj(v, ("f", s[1], i), fs[i]) for i in range(len(fs))))
            if v[0] == "agg" and s[2] < len(v[3]):
                n = self.setp(v[3][s[2]], path[1:], tys[1:] if tys else None, val, t0)
                return ("agg", v[1], v[2], v[3][:s[2]] + (n,) + v[3][s[2] + 1:])
            inner = self.setp(self.proj(v, s, t0), path[1:], tys[1:] if tys else None, val, t0)
            if v[0] == "upd" and v[2] == s:
                return ("upd", v[1], s, inner)
            return ("upd", v, s, inner)
        if s[0] == "i":
            if v[0] == "agg" and isc(s[1]) and 0 <= s[1][1] < len(v[3]):
                i = s[1][1]
                n = self.setp(v[3][i], path[1:], tys[1:] if tys else None, val, t0)
                return ("agg", v[1], v[2], v[3][:i] + (n,) + v[3][i + 1:])
            if v[0] == "rep" and isc(s[1]) and isc(v[2]) and v[2][1] <= 64 and 0 <= s[1][1] < v[2][1]:
                v = ("agg", "array", 0, (v[1],) * v[2][1])
                return self.setp(v, path, tys, val, cur_ty)
            if self.unroll and v[0] != "agg" and isc(s[1]) and cur_ty and cur_ty[0] == "array" and cur_ty[2][0] == "ci" and s[1][1] < cur_ty[2][1] <= 64:
                v = ("agg", "array", 0, tuple(self.proj(v, ("i", C(i)), cur_ty[1]) for i in range(cur_ty[2][1])))
                return self.setp(v, path, tys, val, cur_ty)
            inner = self.setp(self.proj(v, s, t0), path[1:], tys[1:] if tys else None, val, t0)
            return ("aupd", v, s[1], inner)
        return ("updx", v, s, val)

    def store(self, st, root, path, tys, val):
        if self.on_store:
            self.on_store(st, root, path, val)
        if not path:
            st.mem[root] = val
        else:
            v = self.load_root(st, root)
            st.mem[root] = self.setp(v, path, tys, val, self.root_types.get(root))
        if root[0] == "D" and isinstance(root[1], tuple) and root[1] and root[1][0] in ("sub", "unsz"):
            self.clobber_base(st, root[1])

    def clobber_base(self, st, p):
        """A write through a subslice changes what it is a part of."""
        while p[0] in ("sub", "unsz", "asarr"):
            p = p[1]
        if p[0] == "ref":
            n = ("clob", self.load(st, p[1], p[2]), tid(st.mem.get(("D", p), p)))
            self.store(st, p[1], p[2], None, n)
        else:
            st.mem[("D", p)] = ("clob", self.load_root(st, ("D", p)), len(st.trace))

    def eval_place(self, fr, st, place):
        """-> root, path, tys, type"""
        local, projs = place
        root = ("L", fr.ctx, local)
        path, tys = (), ()
        ty = self.norm(fr.body["locals"][local], fr.sub)
        self.root_types.setdefault(root, ty)
        var = None
        for e in projs:
            k = e[0]
            if k == "*":
                p = self.load(st, root, path, tys)
                nt = None
                if ty and ty[0] in ("ref", "ptr"):
                    nt = ty[1]
                elif ty and ty[0] == "adt" and ty[1].endswith("boxed::Box"):
                    nt = ty[2][0]
                root, path, tys = self.deref(p, nt)
                if tys is None or len(tys) != len(path):
                    tys = self.path_types(root, path, nt)
                ty = nt
                var = None
            elif k == "f":
                ft = self.norm(e[2], fr.sub)
                path = path + (("f", var, e[1]),)
                tys = tys + (ft,)
                ty = ft
                var = None
            elif k == "v":
                var = e[1]
            elif k == "i":
                iv = self.load(st, ("L", fr.ctx, e[1]), ())
                et = ty[1] if ty and ty[0] in ("array", "slice") else None
                path = path + (("i", iv),)
                tys = tys + (et,)
                ty = et
            elif k == "ci":
                et = ty[1] if ty and ty[0] in ("array", "slice") else None
                if e[2]:
                    n = self.place_len(st, root, path, ty)
                    iv = sub(n, C(e[1]))
                else:
                    iv = C(e[1])
                path = path + (("i", iv),)
                tys = tys + (et,)
                ty = et
            elif k == "sub":
                path = path + (("sub", e[1], e[2], e[3]),)
                tys = tys + (ty,)
            else:
                path = path + (("?",),)
                tys = tys + (None,)
                ty = None
        return root, path, tys, ty

    def deref(self, p, ty):
        if p[0] == "ref":
            return p[1], p[2], p[4] if len(p) > 4 else None
        if p[0] == "unsz":
            r = self.deref(p[1], None)
            return r
        if p[0] in ("agg",) and isinstance(p[1], str) and (p[1].endswith("boxed::Box") or p[1].endswith("NonNull") or p[1].endswith("Unique")):
            return self.deref(p[3][0], ty)
        if self.unroll and p[0] in ("sptr", "padd"):
            r = self.slot(p, ty)
            if r is not None:
                return r
        root = ("D", p)
        if ty is not None:
            self.root_types.setdefault(root, ty)
        return root, (), ()

    def path_types(self, root, path, last):
        """the types of the places along a path, as far as they are known"""
        t, out = self.root_types.get(root), []
        for e in path:
            if t is None:
                pass
            elif e[0] == "i":
                t = t[1] if t[0] in ("array", "slice") else None
            elif t[0] == "adt" and t[1].endswith("boxed::Box"):
                t = t[2][0]
            else:
                fs = self.fields_of(t) if e[1] is None else self.variant_fields(t, e[1])
                t = fs[e[2]] if fs and e[2] < len(fs) else None
            out.append(t)
        if out and out[-1] is None:
            out[-1] = last
        return tuple(out)

    def slot(self, p, ty):
        """A pointer into an array which is a place of its own."""
        b, off = (p[1], p[2]) if p[0] == "padd" else (p, ZERO)
        if b[0] != "sptr" or b[1][0] != "unsz" or b[1][1][0] != "ref" or ty is None:
            return None
        r = b[1][1]
        tys = r[4] if len(r) > 4 and r[4] else ()
        at = tys[-1] if tys else self.root_types.get(r[1]) if not r[2] else None
        et = at[1] if at is not None and at[0] == "array" else None
        if ty[0] == "array" and off == ZERO and et != ty and not (et and et[0] == "adt" and et[1].endswith("MaybeUninit") and et[2][0] == ty):
            return r[1], r[2], tys
        if et is None:
            return None
        if et != ty and not (et[0] == "adt" and et[1].endswith("MaybeUninit") and et[2][0] == ty):
            return None
        k = None
        if isc(off):
            z = self.db.layout.get(ty, {}).get("size")
            if off[1] == 0:
                k = 0
            elif z and off[1] % z == 0:
                k = off[1] // z
        elif off[0] == "lin" and off[1] == 0 and len(off[2]) == 1 and off[2][0][0][0] == "sizeof":
            k = off[2][0][1]
        elif off[0] == "sizeof":
            k = 1
        if k is None:
            return None
        return r[1], r[2] + (("i", C(k)),), tys + (et,)

    def place_len(self, st, root, path, ty):
        if ty and ty[0] == "array":
            return self.const_term(ty[2])
        if root[0] == "D" and not path:
            return self.slen(root[1])
        return self.fresh(("len", ("ref", root, path, False)), ("uint", "usize"))

    def const_term(self, n):
        if n[0] == "ci":
            return C(n[1])
        if n[0] == "cp":
            return self.fresh(("cparam", n[1]), ("uint", "usize"))
        return self.fresh(("cexpr", n), ("uint", "usize"))

    def slen(self, s):
        k = s[0]
        if k == "sub":
            return sub(s[3], s[2])
        if k == "unsz":
            return s[2]
        if k == "bytes_ref":
            return C(len(s[1]))
        if k == "raw":  # ("raw", ptr, len)
            return s[2]
        if k == "cslice":
            return s[2]
        return self.fresh(("len", s), ("uint", "usize"))

    def mkref(self, root, path, tys, mut, ty):
        if root[0] == "D" and not path:
            return root[1]
        if root[0] == "D" and path and path[-1][0] == "sub":
            f, t, fe = path[-1][1:]
            if len(path) == 1:
                base = root[1]
                n = self.slen(base)
                return ("sub", base, C(f), sub(n, C(t)) if fe else C(t))
        v = ("ref", root, path, mut, tys)
        if ty is not None:
            self.term_types.setdefault(v, ("ref", ty, mut))
        return v

    # ---- constants
    def pointer(self, t):
        """a type which is a pointer that is not null"""
        return t[0] == "ref" or t[0] == "adt" and t[1].endswith(("boxed::Box", "ptr::non_null::NonNull", "rc::Rc", "sync::Arc"))

    def decode_const(self, c, ty, fr):
        if "i" in c:
            v = int(c["i"])
            if ty[0] == "int":
                b = BITS[ty[1]]
                if v >> (b - 1):
                    v -= 1 << b
            if ty[0] in ("int", "uint", "bool", "char"):
                return C(v)
            if ty[0] == "float":
                return ("float", v, ty[1])
            if ty[0] == "adt":
                a = self.db.adts.get(ty[1])
                if ty[1] == OPTION and v == 0 and ty[2][0][0] in ("ref", "adt") and self.pointer(ty[2][0]):
                    return ("agg", OPTION, 0, ())
                if a and a["k"] == "enum" and all(not x["fields"] for x in a["variants"]):
                    for i, x in enumerate(a["variants"]):
                        if x["discr"] is not None and x["discr"] == v:
                            return ("agg", ty[1], i, ())
                if a and a["k"] == "struct":
                    fs = self.fields_of(ty)
                    out = []
                    done = False
                    for f in fs:
                        l = self.db.layout.get(f, {})
                        if l.get("size") == 0:
                            out.append(("zst", f))
                        elif not done:
                            out.append(self.decode_const(c, f, fr))
                            done = True
                        else:
                            return ("kval", v, ty)
                    return ("agg", ty[1], 0, tuple(out))
            return ("kval", v, ty)
        if "z" in c:
            if ty[0] == "fndef":
                return ("fn", ty)
            if ty == ("tuple", ()):
                return UNIT
            if ty[0] == "closure":
                return ("agg", ("closure", ty[2]), 0, ())
            if ty[0] == "adt":
                a = self.db.adts.get(ty[1])
                if a and a["k"] == "struct" and not a["variants"][0]["fields"]:
                    return ("agg", ty[1], 0, ())
            return ("zst", ty)
        if "slice" in c:
            m = c["slice"]
            if "hex" in m and not m.get("rel"):
                b = bytes.fromhex(m["hex"])
                if ty[0] == "ref" and (ty[1] == ("str",) or ty[1] == ("slice", ("uint", "u8"))):
                    return ("bytes_ref", b[: c["len"]])
            return ("cslice", repr(m)[:2000], C(c["len"]))
        if "mem" in c:
            m = c["mem"]
            if "hex" in m:
                return self.decode_mem(bytes.fromhex(m["hex"]), m.get("rel") or {}, 0, ty)
            return ("kmem", repr(m))
        if "ptr" in c:
            m = c["ptr"]
            if "static" in m:
                f = self.db.get(m["h"]) if "h" in m else None
                if f is not None and f.val is not None and ty[0] in ("ref", "ptr") and not ty[2] and self.plain(ty[1]):
                    v = self.decode_const(f.val, ty[1], fr)
                    return ("kref", v)
                return ("static", m["static"])
            if "hex" in m and ty[0] == "ref":
                inner = ty[1]
                b = bytes.fromhex(m["hex"])
                if inner[0] == "array" and inner[1] == ("uint", "u8") and not m.get("rel"):
                    return ("bytes_ref", b)
                v = self.decode_mem(b, m.get("rel") or {}, 0, inner)
                return ("kref", v)
            return ("kptr", repr(m)[:300])
        return ("k?", repr(c)[:200])

    def plain(self, t):
        """without interior mutability, by its type alone"""
        if t[0] in ("array", "slice", "ref"):
            return self.plain(t[1])
        return t[0] in ("uint", "int", "bool", "char", "str", "float")

    def decode_mem(self, b, rel, off, ty):
        db = self.db
        l = db.layout.get(ty, {})
        if ty[0] in ("uint", "int", "bool", "char"):
            n = l.get("size") or (BITS[ty[1]] // 8 if len(ty) > 1 else 4 if ty[0] == "char" else 1)
            return self.decode_const({"i": int.from_bytes(b[off:off + n], "little")}, ty, None)
        if ty[0] == "array" and ty[2][0] == "ci":
            el = db.layout.get(ty[1], {}).get("size")
            if ty[1] == ("uint", "u8"):
                return ("bytes", b[off:off + ty[2][1]])
            if el is not None and ty[2][1] <= 4096:
                return ("agg", "array", 0, tuple(self.decode_mem(b, rel, off + i * el, ty[1]) for i in range(ty[2][1])))
        if ty[0] in ("tuple",) or ty[0] == "adt":
            a = db.adts.get(ty[1]) if ty[0] == "adt" else None
            if ty[0] == "tuple" or (a and a["k"] == "struct"):
                fs = self.fields_of(ty)
                offs = l.get("offs")
                if fs is not None and offs is not None and len(offs) == len(fs):
                    return ("agg", self.struct_tag(ty), 0,
                            tuple(self.decode_mem(b, rel, off + int(o), f) for f, o in zip(fs, offs)))
                if fs == () :
                    return ("agg", self.struct_tag(ty), 0, ())
            if a and a["k"] == "enum" and all(not x["fields"] for x in a["variants"]):
                n = l.get("size", 1)
                v = int.from_bytes(b[off:off + n], "little")
                for i, x in enumerate(a["variants"]):
                    if x["discr"] == v:
                        return ("agg", ty[1], i, ())
                if len(a["variants"]) == 1:
                    return ("agg", ty[1], 0, ())
        if ty[0] == "ref" and str(off) in rel:
            m = rel[str(off)]
            if "hex" in m:
                bb = bytes.fromhex(m["hex"])
                if ty[1] == ("str",) or ty[1] == ("slice", ("uint", "u8")):
                    n = int.from_bytes(b[off + 8:off + 16], "little")
                    return ("bytes_ref", bb[:n])
        return ("kmem", b[off:off + l.get("size", len(b))].hex(), ty)

    def const_operand(self, fr, st, k):
        if "fn" in k:
            f = k["fn"]
            a = tuple(self.norm(x, fr.sub) for x in f["a"])
            return ("fn", ("fndef", f["d"], f["h"], a, f.get("tr"), f.get("n")))
        ty = self.norm(k["t"], fr.sub) if k.get("t") else None
        if self.consts and "u" in k and k["u"].get("n") in self.consts and k["u"].get("tr"):
            return self.consts[k["u"]["n"]]
        if "v" in k:
            if "u" in k and "pr" not in k["u"] and fr.sub:
                pass
            return self.settype(self.decode_const(k["v"], ty, fr), ty)
        if "tc" in k:
            t = D.subst(k["tc"], fr.sub) if fr.sub else k["tc"]
            if t[0] == "ci":
                return self.decode_const({"i": t[1]}, ty, fr)
            if t[0] == "cp":
                return self.fresh(("cparam", t[1]), ty)
            b = str_lit(t[1])
            if b is not None:
                return ("bytes_ref", b)
            return self.fresh(("cexpr", t[1]), ty)
        if "u" in k:
            u = k["u"]
            a = tuple(self.norm(x, fr.sub) for x in u["a"])
            if "pr" in u:
                f = self.db.get(u["h"]) or fr.fn
                if f is None or not f.prom or u["pr"] >= len(f.prom):
                    return ("kprom", u["d"], u["pr"], a)
                sub_ = dict(zip(f.gens, a)) if f is not fr.fn else fr.sub
                body = f.prom[u["pr"]]
                return self.eval_const_body(f, body, sub_, fr, st, ("prom", f.h, u["pr"], a))
            # associated / generic constants
            h, d = u["h"], u["d"]
            f = None
            sub_ = None
            if u.get("tr"):
                ntr = len(self.trait_generics(u["tr"], a))
                r = self.find_impl(u["tr"], a)
                if r and u["n"] in r[0]["items"]:
                    h = r[0]["items"][u["n"]]["h"]
                    f = self.db.get(h)
                    sub_ = r[1]
                elif a and a[0][0] not in ("param", "proj") and r:
                    f = self.db.get(h)
                    sub_ = dict(zip(f.gens, a)) if f else None
            else:
                f = self.db.get(h)
                if f is not None:
                    sub_ = dict(zip(f.gens, a))
            if f is not None:
                if f.val is not None and ty is not None:
                    return self.settype(self.decode_const(f.val, ty, fr), ty)
                return self.eval_const_body(f, {"args": f.args, "locals": f.locals, "blocks": f.blocks}, sub_, fr, st,
                                            ("const", h, a))
            return self.fresh(("const", d, a), ty)
        return FALSE  # run-time checks of the standard library are off

    def eval_const_body(self, f, body, sub_, fr, st, key):
        nf = Frame(f, sub_, self.ctx(*key), body, fr.depth + 1, fr.stack + (f.h,))
        if fr.depth > self.depth:
            return ("kdeep",) + key
        s2 = st.copy()
        n0 = len(s2.trace)
        outs = self.exec_body(nf, s2)
        if len(outs) == 1:
            s3, v = outs[0]
            # keep the memory which the constant refers to
            for r, val in s3.mem.items():
                if r[0] == "L" and r[1] == nf.ctx and r not in st.mem:
                    st.mem[r] = val
            if len(s3.trace) == n0:
                return v
        ty = self.norm(body["locals"][0], sub_)
        return self.fresh(("kconst",) + key, ty)

    def trait_generics(self, tr, a):
        return a[:1]

    # ---- operands and rvalues
    def operand(self, fr, st, o):
        if o[0] == "k":
            return self.const_operand(fr, st, o[1])
        root, path, tys, ty = self.eval_place(fr, st, o[1])
        v = self.load(st, root, path, tys)
        return self.settype(v, ty)

    def op_ty(self, fr, st, o):
        if o[0] == "k":
            t = o[1].get("t")
            return self.norm(t, fr.sub) if t else None
        return self.place_ty(fr, o[1])

    def place_ty(self, fr, place):
        ty = self.norm(fr.body["locals"][place[0]], fr.sub)
        for e in place[1]:
            k = e[0]
            if ty is None and k != "f":
                continue
            if k == "*":
                if ty[0] in ("ref", "ptr"):
                    ty = ty[1]
                elif ty[0] == "adt" and ty[2]:
                    ty = ty[2][0]
                else:
                    ty = None
            elif k == "f":
                ty = self.norm(e[2], fr.sub)
            elif k in ("i", "ci"):
                ty = ty[1] if ty[0] in ("array", "slice") else None
        return ty

    def wrap(self, st, t, ty):
        r = trange(ty)
        if r is None:
            return t
        if st.lin.entails(sub(t, C(r[0]))) and st.lin.entails(sub(C(r[1]), t)):
            return t
        if isc(t):
            b = BITS.get(ty[1], 8) if len(ty) > 1 else 8
            v = t[1] & ((1 << b) - 1)
            if ty[0] == "int" and v >> (b - 1):
                v -= 1 << b
            return C(v)
        if ty[0] == "uint":
            return self.settype(("mod2", BITS[ty[1]], t), ty)
        return self.settype(("smod2", BITS[ty[1]], t), ty)

    def cast_int(self, st, v, fty, tty):
        if isc(v):
            if tty[0] in ("uint", "int"):
                b = BITS[tty[1]]
                x = v[1] & ((1 << b) - 1)
                if tty[0] == "int" and x >> (b - 1):
                    x -= 1 << b
                return C(x)
            return v
        r = trange(tty)
        f = trange(fty)
        if r and f and r[0] <= f[0] and f[1] <= r[1]:
            return v
        if r:
            return self.wrap(st, v, tty)
        return self.settype(("cast", v, tty), tty)

    def binop(self, st, op, a, b, ty, bty=None):
        t = self.binop0(st, op, a, b, ty, bty)
        if self.use_bits and t[0] in BT.OPS:
            return self.simplify(st, t)
        return t

    def simplify(self, st, t):
        """A term of bit operations which is a known number or another value"""
        B = BT.of_state(st)
        bits = B.of(t, 136)
        base = None
        plain = True
        for b in bits:
            for a in b:
                if a == 1:
                    continue
                if len(b) != 1 or (base is not None and a[0] != base):
                    plain = False
                base = a[0]
        if base is None:
            if bits[135] == BT.OB:
                return t
            return C(sum(1 << i for i, b in enumerate(bits) if b == BT.OB))
        if plain and base != t and isinstance(base, tuple) and base[0] not in BT.OPS and bits == B.of(base, 136):
            return base
        # the result may be one of the operands
        work = [t]
        while work:
            x = work.pop()
            for o in x[1:3]:
                if isinstance(o, tuple) and o and o[0] in BT.OPS:
                    if bits == B.of(o, 136):
                        return o
                    work.append(o)
        return t

    def binop0(self, st, op, a, b, ty, bty=None):
        if op in ("Add", "Sub", "Mul", "AddUnchecked", "SubUnchecked", "MulUnchecked", "AddWithOverflow",
                  "SubWithOverflow", "MulWithOverflow"):
            k = op[:3]
            if ty and ty[0] == "float":
                return self.settype(("fop", op, a, b), ty)
            if k == "Add":
                t = add(a, b)
            elif k == "Sub":
                t = sub(a, b)
            elif isc(a):
                t = scale(b, a[1])
            elif isc(b):
                t = scale(a, b[1])
            else:
                t = ("mul",) + tuple(sorted((a, b), key=tid))
            if op.endswith("Unchecked"):
                return t
            if op.endswith("WithOverflow"):
                r = trange(ty)
                if r is None:
                    return ("agg", "tuple", 0, (t, ("ovf", t, ty)))
                lo = st.lin.entails(sub(t, C(r[0])))
                hi = st.lin.entails(sub(C(r[1]), t))
                if lo and hi:
                    return ("agg", "tuple", 0, (t, FALSE))
                if isc(t):
                    return ("agg", "tuple", 0, (self.wrap(st, t, ty), TRUE))
                return ("agg", "tuple", 0, (t, ("ovf", t, ty)))
            return self.wrap(st, t, ty)
        if op in ("Div", "Rem"):
            k = op.lower()
            if isc(a) and isc(b) and b[1] != 0:
                q = abs(a[1]) // abs(b[1])
                if (a[1] < 0) != (b[1] < 0):
                    q = -q
                return C(q if k == "div" else a[1] - q * b[1])
            if k == "div" and b == ONE:
                return a
            if ty and ty[0] == "float":
                return self.settype(("fop", op, a, b), ty)
            return self.settype((k, a, b), ty)
        if op in ("BitAnd", "BitOr", "BitXor"):
            k = op[3:].lower()
            if ty and ty[0] == "bool":
                return self.boolop(k, a, b)
            if isc(a) and isc(b):
                x, y = a[1], b[1]
                return C(x & y if k == "and" else x | y if k == "or" else x ^ y)
            if isc(a):
                a, b = b, a
            if isc(b):
                if k == "and" and b[1] == 0:
                    return ZERO
                if k in ("or", "xor") and b[1] == 0:
                    return a
                if k == "and" and ty and ty[0] == "uint":
                    m = b[1]
                    if m & (m + 1) == 0 and st.lin.entails(sub(C(m), a)) and st.lin.entails(a):
                        return a
                    if m & (m + 1) == 0 and a[0] == "lin" and all(x % (m + 1) == 0 for _, x in a[2]):
                        return C(a[1] & m)
            else:
                if k != "and" and ty and ty[0] == "uint":
                    for x, y in ((a, b), (b, a)):
                        m = low_zeros(x)
                        if m > 1 and st.lin.entails(sub(C(m - 1), y)):
                            return add(x, y)
                if tid(a) > tid(b):
                    a, b = b, a
            return self.settype((k, a, b), ty)
        if op in ("Shl", "Shr", "ShlUnchecked", "ShrUnchecked"):
            k = op[:3].lower()
            bits = BITS.get(ty[1]) if ty and len(ty) > 1 else 64
            if isc(b):
                n = b[1] % bits
                if isc(a):
                    if k == "shl":
                        return self.wrap(st, C(a[1] << n), ty)
                    return C(a[1] >> n)
                if n == 0:
                    return a
                if k == "shl":
                    t = scale(a, 1 << n)
                    r = trange(ty)
                    if st.lin.entails(sub(C(r[1]), t)) and st.lin.entails(sub(t, C(r[0]))):
                        return t
                    return self.settype(("shl", a, b, bits), ty)
                return self.settype(("shr", a, b), ty)
            return self.settype((k, a, b, bits), ty)
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            return self.compare(st, op, a, b, ty)
        if op == "Offset":
            return self.padd(a, b)
        if op == "Cmp":
            return ("cmp", a, b)
        return self.settype(("bin", op, a, b), ty)

    def addr(self, p):
        """the address of a pointer as an integer"""
        if p[0] == "padd":
            return add(self.addr(p[1]), p[2])
        if p == ("nullptr",):
            return ZERO
        return self.settype(("addr", p), ("uint", "usize"))

    def padd(self, p, n):
        if isc(n) and n[1] == 0:
            return p
        if p[0] == "padd":
            n = add(p[2], n)
            p = p[1]
            if isc(n) and n[1] == 0:
                return p
        return ("padd", p, n)

    def intlike(self, ty, *vs):
        if ty and ty[0] in ("uint", "int", "char", "bool"):
            return True
        return any(v[0] in ("c", "lin") for v in vs)

    def compare(self, st, op, a, b, ty):
        if ty and ty[0] == "bool" and op in ("Eq", "Ne"):
            for x, y in ((a, b), (b, a)):
                if isc(x):
                    r = y if x[1] else self.bnot(y)
                    return r if op == "Eq" else self.bnot(r)
        if ty and ty[0] == "ptr" and not self.is_wide(ty):
            a, b = self.addr(a), self.addr(b)
            ty = ("uint", "usize")
        if self.intlike(ty, a, b):
            d = sub(a, b)
            if op in ("Eq", "Ne"):
                if d[0] == "lin" and d[2][0][1] < 0:
                    d = scale(d, -1)
                r = TRUE if d == ZERO else FALSE if isc(d) else ("eq0", d)
                return r if op == "Eq" else self.bnot(r)
            if op == "Lt":
                t = sub(sub(b, a), ONE)
            elif op == "Le":
                t = sub(b, a)
            elif op == "Gt":
                t = sub(d, ONE)
            else:
                t = d
            if isc(t):
                return TRUE if t[1] >= 0 else FALSE
            return ("ge0", t)
        if op in ("Eq", "Ne"):
            if a == b and not (ty and ty[0] == "float"):
                r = TRUE
            else:
                if tid(a) > tid(b):
                    a, b = b, a
                r = ("eq", a, b)
            return r if op == "Eq" else self.bnot(r)
        return ("cmpop", op, a, b)

    def bnot(self, b):
        if isc(b):
            return FALSE if b[1] else TRUE
        if b[0] == "not":
            return b[1]
        if b[0] == "ge0":
            return ("ge0", sub(scale(b[1], -1), ONE))
        return ("not", b)

    def boolop(self, k, a, b):
        for x, y in ((a, b), (b, a)):
            if isc(x):
                if k == "and":
                    return y if x[1] else FALSE
                if k == "or":
                    return TRUE if x[1] else y
                if k == "xor":
                    return self.bnot(y) if x[1] else y
        return ("b" + k, a, b)

    def discr(self, st, v, ty):
        if v[0] == "agg":
            a = self.db.adts.get(v[1]) if isinstance(v[1], str) else None
            if a and a["k"] == "enum":
                return C(a["variants"][v[2]]["discr"])
            return C(v[2])
        if v[0] == "enumof":
            return v[1]
        if ty and ty[0] == "adt":
            self.discr_adt[v] = ty[1]
            vs = self.variants(st, v, ty[1])
            if len(vs) == 1:
                return C(self.db.adts[ty[1]]["variants"][next(iter(vs))]["discr"])
        t = ("discr", v)
        return t

    def eq_variants(self, st, t, val):
        """(enum, its variants) where its discriminant is, or is not, a constant"""
        if t[0] != "lin" or len(t[2]) != 1:
            return None
        a, k = t[2][0]
        if a[0] != "discr" or abs(k) != 1 or a[1] not in self.discr_adt:
            return None
        adt = self.discr_adt[a[1]]
        vs = self.variants(st, a[1], adt)
        d = self.db.adts[adt]["variants"]
        return a[1], frozenset(i for i in vs if (int(d[i]["discr"]) == -t[1] * k) == val)

    def variants(self, st, v, adt):
        s = st.var.get(v)
        if s is None:
            a = self.db.adts.get(adt)
            if not a:
                return frozenset()
            s = frozenset(i for i, x in enumerate(a["variants"]) if not self.uninhabited(v, adt, i))
        return s

    def uninhabited(self, v, adt, i):
        ty = self.ty_of(v)
        if ty is None or ty[0] != "adt" or ty[1] != adt:
            return False
        fs = self.variant_fields(ty, i)
        return any(self.is_uninhabited(f) for f in fs or ())

    def is_uninhabited(self, f):
        if f is None:
            return False
        if f == ("never",):
            return True
        if f[0] == "adt":
            a = self.db.adts.get(f[1])
            if a and a["k"] == "enum" and not a["variants"]:
                return True
        return False

    def set_variant(self, st, v, adt, idx):
        """restrict in place; False if infeasible"""
        if v[0] == "agg":
            return v[2] == idx
        vs = self.variants(st, v, adt)
        if vs and idx not in vs:
            return False
        st.var[v] = frozenset([idx])
        return True

    def split(self, st, v, ty):
        """Partition on the variant of an enum: [(state, variant, fields)]"""
        if v[0] == "agg":
            return [(st, v[2], v[3])]
        adt = ty[1]
        out = []
        for i in sorted(self.variants(st, v, adt)):
            s = st.copy()
            s.var[v] = frozenset([i])
            fs = self.variant_fields(ty, i) or ()
            n = len(self.db.adts[adt]["variants"][i]["fields"])
            if len(fs) < n:
                fs = (None,) * n
            out.append((s, i, tuple(self.proj(v, ("f", i, j), fs[j]) for j in range(n))))
        return out

    # ---- conditions
    def decide(self, st, b):
        k = b[0]
        if k == "c":
            return bool(b[1])
        if k == "not":
            r = self.decide(st, b[1])
            return None if r is None else not r
        if k == "ge0":
            if st.lin.entails(b[1]):
                return True
            if st.lin.entails(sub(scale(b[1], -1), ONE)):
                return False
            if self.use_bits and BT.has_ops(b[1]):
                return BT.of_state(st).ge0(b[1])
            return None
        if k == "eq0":
            t = b[1]
            if t in st.lin.dis or scale(t, -1) in st.lin.dis:
                return False
            if st.lin.entails(sub(t, ONE)) or st.lin.entails(sub(scale(t, -1), ONE)):
                return False
            if t[0] == "idx" and (t[1][0] == "bytes" and all(t[1][1]) or
                                  t[1][:2] == ("agg", "array") and all(isc(x) and x[1] for x in t[1][3])):
                # an entry of a table without zeros
                return False
            if st.lin.eq0(t):
                return True
            while t[0] == "smod2" or t[0] == "mod2" and t[2][0] in ("mod2", "smod2") and t[2][1] >= t[1]:
                t = ("mod2", t[1], t[2][2] if t[2][0] in ("mod2", "smod2") and t[2][1] >= t[1] else t[2])
            if t[0] == "mod2":
                # the bits of a number of as many bits are zero where it is
                r = trange(atype.get(t[2]))
                if r and r[1] - r[0] < 1 << t[1]:
                    return self.decide(st, ("eq0", t[2]))
            n = self.eq_variants(st, t, True)
            if n is not None:
                vs = self.variants(st, n[0], self.discr_adt[n[0]])
                if not n[1]:
                    return False
                if n[1] == vs:
                    return True
            if self.use_bits and BT.has_ops(t):
                return BT.of_state(st).eq0(t)
            return None
        if k == "band":
            x, y = self.decide(st, b[1]), self.decide(st, b[2])
            if x is False or y is False:
                return False
            if x and y:
                return True
        elif k == "bor":
            x, y = self.decide(st, b[1]), self.decide(st, b[2])
            if x or y:
                return True
            if x is False and y is False:
                return False
        elif k == "ovf":
            r = trange(b[2])
            if r and st.lin.entails(sub(b[1], C(r[0]))) and st.lin.entails(sub(C(r[1]), b[1])):
                return False
            if r and (st.lin.entails(sub(b[1], C(r[1] + 1))) or st.lin.entails(sub(C(r[0] - 1), b[1]))):
                return True
        elif k == "isvar":  # ("isvar", v, adt, frozenset)
            vs = self.variants(st, b[1], b[2])
            if vs and vs <= b[3]:
                return True
            if vs and not (vs & b[3]):
                return False
        r = st.bl.get(b)
        return r

    def decide_again(self, st, b):
        """What the constraints of `st` say of a recorded fact, not having recorded it."""
        c = st.copy()
        c.bl = {k: v for k, v in c.bl.items() if k != b}
        return self.decide(c, b)

    def assume(self, st, b, val):
        """Refine in place. False when infeasible."""
        d = self.decide(st, b)
        if d is not None:
            return d == val
        k = b[0]
        if k == "not":
            return self.assume(st, b[1], not val)
        if k == "ge0":
            st.lin = st.lin.with_(b[1] if val else sub(scale(b[1], -1), ONE))
            return True
        if k == "eq0":
            t = b[1]
            n = self.eq_variants(st, t, val)
            if n is not None:
                if not n[1]:
                    return False
                st.var[n[0]] = n[1]
            if val:
                st.lin = st.lin.with_(t).with_(scale(t, -1))
                if self.use_bits and not (self.eq_or(st, t) and self.eq_mods(st, t)):
                    return False
            else:
                st.lin = st.lin.with_ne(t)
            return True
        if k == "band" and val:
            return self.assume(st, b[1], True) and self.assume(st, b[2], True)
        if k == "bor" and not val:
            return self.assume(st, b[1], False) and self.assume(st, b[2], False)
        if k == "isvar":
            vs = self.variants(st, b[1], b[2])
            n = vs & b[3] if val else vs - b[3]
            if vs and not n:
                return False
            st.var[b[1]] = n
            return True
        if k == "ovf":
            r = trange(b[2])
            if r:
                t = b[1]
                if not val:
                    st.lin = st.lin.with_(sub(t, C(r[0]))).with_(sub(C(r[1]), t))
                elif st.lin.entails(sub(t, C(r[0]))):
                    st.lin = st.lin.with_(sub(t, C(r[1] + 1)))
                elif st.lin.entails(sub(C(r[1]), t)):
                    st.lin = st.lin.with_(sub(C(r[0] - 1), t))
            st.bl[b] = val
            return True
        st.bl[b] = val
        if k == "band" and not val:
            if self.decide(st, b[1]) is True:
                return self.assume(st, b[2], False)
            if self.decide(st, b[2]) is True:
                return self.assume(st, b[1], False)
        if k == "bor" and val:
            if self.decide(st, b[1]) is False:
                return self.assume(st, b[2], True)
            if self.decide(st, b[2]) is False:
                return self.assume(st, b[1], True)
        return True

    def eq_or(self, st, t):
        """x | c found to be a constant, where x has none of the bits of c"""
        if t[0] != "lin" or len(t[2]) != 1 or abs(t[2][0][1]) != 1:
            return True
        a = t[2][0][0]
        if a[0] != "or" or not isc(a[2]) or a[2][1] <= 0:
            return True
        c = a[2][1]
        low = c & -c
        if st.lin.entails(a[1]) and st.lin.entails(sub(C(low - 1), a[1])):
            d = sub(a[1], C(-t[2][0][1] * t[1] - c))
            st.lin = st.lin.with_(d).with_(scale(d, -1))
        return True

    def eq_mods(self, st, t):
        """an unknown found to be a constant: so are its low bits"""
        p = t[2] if t[0] == "lin" else ((t, 1),)
        if len(p) != 1 or abs(p[0][1]) != 1 or isc(t):
            return True
        a = p[0][0]
        v = -p[0][1] * (t[1] if t[0] == "lin" else 0)
        ms = {m for f in st.lin.facts for m in atoms(f) if m[0] == "mod2" and m[2] == a}
        for m in ms:
            d = sub(m, C(v % (1 << m[1])))
            st.lin = st.lin.with_(d).with_(scale(d, -1))
        return not ms or st.lin.feasible()

    def branch(self, st, b):
        """[(state, bool)]"""
        d = self.decide(st, b)
        if d is not None:
            return [(st, d)]
        s1 = st.copy()
        out = []
        if self.assume(s1, b, True):
            out.append((s1, True))
        s2 = st.copy()
        if self.assume(s2, b, False):
            out.append((s2, False))
        return out

    # ---- statements
    def rvalue(self, fr, st, r, dty):
        k = r[0]
        if k == "use":
            return self.operand(fr, st, r[1])
        if k == "ref" or k == "addr":
            pl = r[2]
            if pl[1] and pl[1][-1][0] == "*":
                # a reborrow is the same pointer
                root, path, tys, ty = self.eval_place(fr, st, (pl[0], pl[1][:-1]))
                p = self.load(st, root, path, tys)
                if p[0] in ("unsz", "sub", "raw", "bytes_ref"):
                    return p
            root, path, tys, ty = self.eval_place(fr, st, pl)
            return self.mkref(root, path, tys, r[1], ty)
        if k == "bin":
            a = self.operand(fr, st, r[2])
            b = self.operand(fr, st, r[3])
            ty = self.op_ty(fr, st, r[2])
            return self.binop(st, r[1], a, b, ty)
        if k == "un":
            a = self.operand(fr, st, r[2])
            ty = self.op_ty(fr, st, r[2])
            if r[1] == "Not":
                if ty and ty[0] == "bool":
                    return self.bnot(a)
                if ty and ty[0] == "uint":
                    return sub(C((1 << BITS[ty[1]]) - 1), a)
                if ty and ty[0] == "int":
                    return sub(C(-1), a)
                return ("bnot", a)
            if r[1] == "Neg":
                if ty and ty[0] == "float":
                    return self.settype(("fneg", a), ty)
                return self.wrap(st, scale(a, -1), ty)
            if r[1] == "PtrMetadata":
                return self.slen(a)
            return self.settype(("un", r[1], a), ty)
        if k == "discr":
            root, path, tys, ty = self.eval_place(fr, st, r[1])
            v = self.load(st, root, path, tys)
            self.settype(v, ty)
            return self.discr(st, v, ty)
        if k == "agg":
            a = r[1]
            vs = tuple(self.operand(fr, st, o) for o in r[2])
            if a[0] == "adt":
                adt = self.db.adts.get(a[1])
                if a[3] is not None and adt and adt["k"] == "union":
                    return ("union", a[1], a[3], vs)
                return ("agg", a[1], a[2], vs)
            if a[0] == "tuple":
                return ("agg", "tuple", 0, vs)
            if a[0] == "array":
                return ("agg", "array", 0, vs)
            if a[0] == "closure":
                return ("agg", ("closure", a[2]), 0, vs)
            if a[0] == "rawptr":
                if vs[1] == UNIT:
                    return vs[0]
                return ("raw", vs[0], vs[1])
            return ("aggx", a, vs)
        if k == "repeat":
            n = D.subst(r[2], fr.sub) if fr.sub else r[2]
            return ("rep", self.operand(fr, st, r[1]), self.const_term(n))
        if k == "cast":
            return self.cast(fr, st, r[1], self.operand(fr, st, r[2]), self.op_ty(fr, st, r[2]), self.norm(r[3], fr.sub))
        return ("rv?", str(r[1])[:80], fr.ctx)

    def cast(self, fr, st, kind, v, fty, tty):
        if kind == "IntToInt":
            if fty and fty[0] == "adt":
                v = self.discr(st, v, fty)
                return self.cast_int(st, v, None, tty)
            return self.cast_int(st, v, fty, tty)
        if kind in ("IntToFloat", "FloatToInt", "FloatToFloat"):
            return self.settype(("cast", kind, v, tty), tty)
        if "Unsize" in kind:
            if fty and fty[0] in ("ref", "ptr") and fty[1][0] == "array" and tty[1][0] == "slice":
                if v[0] == "bytes_ref":
                    return v
                return ("unsz", v, self.const_term(fty[1][2]))
            return v
        if kind.startswith("PointerCoercion") or kind in ("PtrToPtr", "FnPtrToPtr"):
            if kind == "PtrToPtr" and fty and tty and self.is_wide(fty) and not self.is_wide(tty):
                return ("sptr", v)
            return v
        if kind == "Transmute":
            return self.transmute(st, v, fty, tty)
        if kind.startswith("PointerExpose"):
            return self.addr(v)
        return self.settype(("cast", kind, v, tty), tty)

    def is_wide(self, t):
        return t[0] in ("ref", "ptr") and t[1][0] in ("slice", "str")

    def transmute(self, st, v, fty, tty):
        if fty == tty:
            return v
        if fty and tty:
            if self.is_nonnull(fty) and tty[0] in ("ptr", "ref") or self.is_nonnull(tty) and fty[0] in ("ptr", "ref"):
                return v
            if fty[0] == "ptr" and tty == ("uint", "usize"):
                return self.addr(v)
            if fty[0] in ("ref", "ptr") and tty[0] in ("ref", "ptr"):
                return v
            # newtype structs, both ways
            t = self.peel(fty)
            u = self.peel(tty)
            if t == u or (t[0] in ("ref", "ptr") and u[0] in ("ref", "ptr")):
                x = self.unwrap(v, fty)
                return self.rewrap(x, tty)
            if t[0] in ("uint", "int") and u[0] in ("uint", "int"):
                x = self.unwrap(v, fty)
                return self.rewrap(self.cast_int(st, x, t, u), tty)
            if u[0] == "float" and v[0] == "fbits":
                return self.rewrap(v[1], tty)
        if fty and tty and tty[0] == "adt" and fty[0] in ("uint", "int"):
            a = self.db.adts.get(tty[1])
            if a and a["k"] == "enum" and all(not x["fields"] for x in a["variants"]):
                if isc(v):
                    for i, x in enumerate(a["variants"]):
                        if x["discr"] == v[1]:
                            return ("agg", tty[1], i, ())
                return self.settype(("enumof", v, tty), tty)
        return self.settype(("transmute", v, tty), tty)

    def is_nonnull(self, t):
        return t[0] == "adt" and t[1] == "core::ptr::non_null::NonNull"

    def peel(self, t):
        while t[0] == "adt":
            fs = self.fields_of(t)
            if fs is None:
                return t
            nz = [f for f in fs if f is None or self.db.layout.get(f, {}).get("size") != 0 and not (f[0] == "adt" and f[1].endswith("PhantomData"))]
            if len(nz) != 1 or nz[0] is None:
                return t
            t = nz[0]
        return t

    def unwrap(self, v, t):
        while t[0] == "adt":
            fs = self.fields_of(t)
            if fs is None:
                return v
            nz = [i for i, f in enumerate(fs) if f is None or self.db.layout.get(f, {}).get("size") != 0 and not (f[0] == "adt" and f[1].endswith("PhantomData"))]
            if len(nz) != 1 or fs[nz[0]] is None:
                return v
            v = self.proj(v, ("f", None, nz[0]), fs[nz[0]])
            t = fs[nz[0]]
        return v

    def rewrap(self, v, t):
        if t[0] != "adt":
            return v
        fs = self.fields_of(t)
        if fs is None:
            return v
        nz = [i for i, f in enumerate(fs) if f is None or self.db.layout.get(f, {}).get("size") != 0 and not (f[0] == "adt" and f[1].endswith("PhantomData"))]
        if len(nz) != 1 or fs[nz[0]] is None:
            return v
        return ("agg", t[1], 0, tuple(self.rewrap(v, f) if i == nz[0] else ("zst", f) for i, f in enumerate(fs)))

    def exec_block(self, fr, b, st):
        """Execute a block: ([(target, state)], [(state, value)])"""
        self.steps += 1
        self.budget -= 1
        if self.budget < 0:
            raise Budget(fr.fn.d)
        blk = fr.body["blocks"][b]
        if blk is None:
            return [], []
        stmts, t = blk
        for s in stmts:
            if self.on_stmt:
                self.on_stmt(fr, b, s, st)
            k = s[0]
            if k == "=":
                root, path, tys, ty = self.eval_place(fr, st, s[1])
                v = self.rvalue(fr, st, s[2], ty)
                self.settype(v, ty)
                self.store(st, root, path, tys, v)
            elif k == "sd":
                root, path, tys, ty = self.eval_place(fr, st, s[1])
                v = self.load(st, root, path, tys)
                n = len(self.db.adts[ty[1]]["variants"][s[2]]["fields"]) if ty[0] == "adt" and ty[1] in self.db.adts else 0
                fs = tuple(self.proj(v, ("f", s[2], i)) for i in range(n))
                if v[0] == "upd":
                    pass
                self.store(st, root, path, tys, ("agg", ty[1], s[2], fs))
            elif k == "dead":
                st.mem.pop(("L", fr.ctx, s[1]), None)
            elif k == "assume":
                v = self.operand(fr, st, s[1])
                if not self.assume(st, v, True):
                    return [], []
            elif k == "cno":
                pass
        k = t[0]
        if k == "goto":
            return [(t[1], st)], []
        if k == "return":
            v = self.load(st, ("L", fr.ctx, 0), ())
            rt = self.norm(fr.body["locals"][0], fr.sub)
            if v[0] == "uninit":
                v = UNIT if rt == ("tuple", ()) else ("zst", rt)
            self.settype(v, rt)
            return [], [(st, v)]
        if k == "switch":
            return self.exec_switch(fr, b, t, st), []
        if k == "assert":
            c = self.operand(fr, st, t[1])
            d = self.decide(st, c)
            proved = d is not None and d == t[2]
            if self.on_assert:
                self.on_assert(fr, b, t, st, proved)
            if not self.assume(st, c, t[2]):
                return [], []
            return [(t[4], st)], []
        if k == "drop":
            if self.on_drop:
                self.on_drop(fr, b, t, st)
            if self.inline_drop:
                r = self.exec_drop(fr, b, t, st)
                if r is not None:
                    return [(t[2], s) for s in r], []
            return [(t[2], st)], []
        if k == "call":
            return self.exec_call(fr, b, t, st), []
        if k == "unreachable":
            return [], []
        return [], []

    def exec_drop(self, fr, b, t, st):
        ty = self.norm(t[3], fr.sub)
        if ty[0] != "adt":
            return None
        r = self.find_impl("core::ops::drop::Drop", (ty,))
        if not r:
            return None
        imp, m = r
        f = self.db.get(imp["items"]["drop"]["h"])
        root, path, tys, pty = self.eval_place(fr, st, t[1])
        ref = self.mkref(root, path, tys, True, pty)
        outs = self.inline(f, m, [ref], st, fr, b)
        if outs is None:
            return None
        return [s for s, _ in outs]

    def exec_switch(self, fr, b, t, st):
        v = self.operand(fr, st, t[1])
        ty = self.op_ty(fr, st, t[1])
        out = []
        if isc(v):
            x = v[1]
            for val, tgt in t[2]:
                if self.swval(val, ty) == x or val == x:
                    return [(tgt, st)]
            return [(t[3], st)]
        if v[0] == "discr" and v[1] in self.discr_adt:
            e = v[1]
            adt = self.discr_adt[e]
            av = self.db.adts[adt]["variants"]
            vs = self.variants(st, e, adt)
            for val, tgt in t[2]:
                sel = frozenset(i for i in vs if av[i]["discr"] == self.swval(val, ty) or av[i]["discr"] == val)
                vs = vs - sel
                if sel:
                    s = st.copy()
                    s.var[e] = sel
                    out.append((tgt, s))
            if vs:
                s = st.copy()
                s.var[e] = vs
                out.append((t[3], s))
            return out
        if ty and ty[0] == "bool":
            for s, val in self.branch(st, v):
                x = 1 if val else 0
                for w, tgt in t[2]:
                    if w == x:
                        out.append((tgt, s))
                        break
                else:
                    out.append((t[3], s))
            return out
        cur = st.copy()
        # a value which is a known function of another: split by value
        for val, tgt in t[2]:
            c = self.compare(cur, "Eq", v, C(self.swval(val, ty)), ty or ("uint", "u64"))
            s = cur.copy()
            if self.assume(s, c, True):
                out.append((tgt, s))
            if not self.assume(cur, c, False):
                return out
        out.append((t[3], cur))
        return out

    def swval(self, val, ty):
        if ty and ty[0] == "int":
            b = BITS[ty[1]]
            if val >> (b - 1):
                return val - (1 << b)
        return val

    # ---- calls
    def exec_call(self, fr, b, t, st):
        op, args, dest, target, sp = t[1:6]
        vals = [self.operand(fr, st, a) for a in args]
        tys = [self.op_ty(fr, st, a) for a in args]
        c = Call()
        c.args, c.tys, c.frame, c.block, c.site = vals, tys, fr, b, sp
        c.ctx = self.ctx(fr.ctx, b)
        root, path, ptys, rty = self.eval_place(fr, st, dest)
        c.rty = rty
        f = None
        if op[0] == "k" and "fn" in op[1]:
            f = op[1]["fn"]
            self.resolve_into(c, f, fr)
        else:
            v = self.operand(fr, st, op)
            c.path, c.h, c.tr, c.n, c.targs, c.orig = "<indirect>", None, None, None, (), None
            if v[0] == "fn":
                ft = v[1]
                self.resolve_into(c, {"d": ft[1], "h": ft[2], "a": ft[3], "tr": ft[4], "n": ft[5]}, fr, True)
        outs = self.call(c, st)
        res = []
        for s, v in outs:
            if target is None:
                continue
            r2, p2, ty2, _ = self.eval_place(fr, s, dest)
            self.settype(v, rty)
            self.store(s, r2, p2, ty2, v)
            res.append((target, s))
        return res

    def resolve_into(self, c, f, fr, normed=False):
        a = f["a"] if normed else tuple(self.norm(x, fr.sub) for x in f["a"])
        c.path, c.h, c.tr, c.n, c.targs = f["d"], f["h"], f.get("tr"), f.get("n"), a
        c.orig = (f["d"], a)
        if f.get("r"):
            ra = tuple(self.norm(x, fr.sub) for x in f["r"]["a"])
            c.path, c.h, c.targs = f["r"]["d"], f["r"]["h"], ra
            if c.tr and c.path == f["d"]:
                pass
        elif f.get("tr"):
            r = self.find_impl(f["tr"], a)
            if r:
                imp, m = r
                it = imp["items"].get(f["n"])
                if it and it["h"] in self.db.fns:
                    g = self.db.fns[it["h"]]
                    ni = len(imp["g"])
                    nt = len(imp["ta"])
                    rest = a[nt:]
                    sub_ = [m.get(x, ("param", x)) for x in imp["g"]] + list(rest)
                    c.path, c.h, c.targs = g.d, g.h, tuple(sub_)
                elif f["h"] in self.db.fns:
                    pass

    def call(self, c, st):
        if self.on_call:
            self.on_call(c, st)
        m = self.extra_models.get(c.path) or (c.orig and self.extra_models.get(c.orig[0]))
        if m:
            r = m(self, c, st)
            if r is not None:
                return r
        if self.opaque(c):
            return self.event(c, st)
        # closures
        if c.tr in ("core::ops::function::FnOnce", "core::ops::function::FnMut", "core::ops::function::Fn"):
            r = self.call_closure(c, st)
            if r is not None:
                return r
        m = self.models.get(c.path)
        if m is None and c.orig:
            m = self.models.get(c.orig[0])
        if m:
            r = m(self, c, st)
            if r is not None:
                return r
        if c.tr:
            m = self.tmodels.get((c.tr, c.n))
            if m:
                r = m(self, c, st)
                if r is not None:
                    return r
        if c.path.startswith("core::panicking::") or c.path in ("std::process::abort", "alloc::alloc::handle_alloc_error", "core::option::unwrap_failed", "core::option::expect_failed", "core::result::unwrap_failed"):
            if self.on_panic:
                self.on_panic(c, st)
            return []
        f = self.db.get(c.h) if c.h else None
        if f is not None and f.blocks is not None:
            if c.tr and f.intrait and c.targs and c.targs[0][0] in ("param", "proj") and c.tr not in self.defaults:
                # default method of a trait on an unknown type: may be overridden
                return self.event(c, st)
            sub_ = dict(zip(f.gens, c.targs))
            outs = self.inline(f, sub_, c.args, st, c.frame, c.block)
            if outs is not None:
                return outs
        return self.event(c, st)

    def call_closure(self, c, st):
        callee = c.args[0]
        byref = False
        while callee[0] == "ref" or (callee[0] not in ("agg", "fn") and ("D", callee) in st.mem):
            if callee[0] == "ref":
                callee_ref = callee
                callee = self.load(st, callee[1], callee[2])
            else:
                callee_ref = callee
                callee = st.mem[("D", callee)]
            byref = True
        args = c.args[1]
        if args[0] == "agg" and args[1] == "tuple":
            args = list(args[3])
        else:
            return None
        if callee[0] == "fn":
            ft = callee[1]
            n = Call()
            n.args, n.tys, n.frame, n.block, n.site, n.ctx, n.rty = args, [None] * len(args), c.frame, c.block, c.site, c.ctx, c.rty
            if c.tys[1] and c.tys[1][0] == "tuple":
                n.tys = list(c.tys[1][1])
            # enum / struct constructors
            ctor = self.ctor(ft, args)
            if ctor is not None:
                return [(st, ctor)]
            self.resolve_into(n, {"d": ft[1], "h": ft[2], "a": ft[3], "tr": ft[4], "n": ft[5]}, c.frame, True)
            return self.call(n, st)
        if callee[0] == "agg" and isinstance(callee[1], tuple) and callee[1][0] == "closure":
            f = self.db.get(callee[1][1])
            if f is None:
                return None
            # does the body take self by value or by reference?
            lt = f.locals[1]
            cty = lt[1] if lt[0] == "ref" else lt
            sub_ = None
            t0 = c.tys[0]
            while t0 and t0[0] == "ref":
                t0 = t0[1]
            if t0 and t0[0] == "closure":
                sub_ = dict(zip(f.gens, t0[4]))
            if lt[0] == "ref":
                if byref:
                    self_v = callee_ref
                else:
                    root = ("L", ("tmp", c.ctx), 0)
                    st.mem[root] = callee
                    self_v = ("ref", root, (), True, ())
            else:
                self_v = callee
            return self.inline(f, sub_, [self_v] + args, st, c.frame, c.block)
        return None

    def ctor(self, ft, args):
        d = ft[1]
        a = self.db.adts.get(d)
        if a and a["k"] == "struct":
            return ("agg", d, 0, tuple(args))
        p, _, n = d.rpartition("::")
        a = self.db.adts.get(p)
        if a and a["k"] == "enum":
            for i, v in enumerate(a["variants"]):
                if v["n"] == n:
                    return ("agg", p, i, tuple(args))
        return None

    def inline(self, f, sub_, args, st, fr, b):
        if fr.depth >= self.depth:
            return None
        if fr.stack.count(f.h) > self.rec:
            return None
        self.inlined.add(f.h)
        body = {"args": f.args, "locals": f.locals, "blocks": f.blocks}
        nf = Frame(f, sub_ or {}, self.ctx(fr.ctx, b, f.h), body, fr.depth + 1, fr.stack + (f.h,))
        n = f.args
        if f.kind == "closure" or (len(args) != n):
            # closures: arguments are untupled in MIR
            if len(args) != n:
                return None
        for i, a in enumerate(args):
            root = ("L", nf.ctx, i + 1)
            st.mem[root] = a
            self.root_types.setdefault(root, self.norm(f.locals[i + 1], nf.sub))
        outs = self.exec_body(nf, st)
        res = []
        for s, v in outs:
            self.pop_frame(s, nf, v)
            res.append((s, v))
        if len(res) > 1:
            res = self.merge(res)
        return res

    def pop_frame(self, s, nf, v):
        c = nf.ctx
        dead = [r for r in s.mem if r[0] in "LN" and r[1] == c]
        for r in dead:
            del s.mem[r]

    def merge(self, outs):
        """Join outcomes which agree on everything but what is known about them."""
        g = {}
        order = []
        for s, v in outs:
            k = (v, s.trace, frozenset(s.mem.items()))
            if k not in g:
                g[k] = []
                order.append(k)
            g[k].append(s)
        if len(order) == len(outs):
            return outs
        res = []
        for k in order:
            l = g[k]
            s = l[0]
            for o in l[1:]:
                s = self.join_facts(s, o)
            res.append((s, k[0]))
        return res

    def join_facts(self, a, b):
        n = a.copy()
        facts = frozenset(f for f in a.lin.facts if f in b.lin.facts or b.lin.entails(f)) | \
            frozenset(f for f in b.lin.facts if f not in a.lin.facts and a.lin.entails(f))
        n.lin = Lin(facts, a.lin.dis & b.lin.dis)
        n.bl = {k: v for k, v in a.bl.items() if b.bl.get(k) == v}
        var = {}
        for k, v in a.var.items():
            if k in b.var:
                var[k] = v | b.var[k]
        n.var = var
        return n

    def havoc_arg(self, st, v, tag, seen=None, ty=None):
        """An opaque call may change what it is given a mutable reference to."""
        seen = seen if seen is not None else set()
        if v in seen or not isinstance(v, tuple):
            return
        seen.add(v)
        if v[0] == "ref":
            if v[3]:
                old = self.load(st, v[1], v[2])
                ty = self.ty_of(v)
                inner = ty[1] if ty and ty[0] == "ref" else None
                self.store(st, v[1], v[2], v[4] if len(v) > 4 else None, self.fresh(("hav", tag, tid((v[1], v[2]))), inner))
                self.havoc_arg(st, old, tag, seen)
            else:
                old = self.load(st, v[1], v[2])
                if old[0] in ("agg", "ref"):
                    self.havoc_arg(st, old, tag, seen)
        elif v[0] == "agg":
            for x in v[3]:
                self.havoc_arg(st, x, tag, seen)
        elif v[0] in ("sub", "unsz") :
            b = v
            while b[0] in ("sub", "unsz"):
                b = b[1]
            self.havoc_arg(st, b, tag, seen)
        else:
            t = ty or self.ty_of(v)
            if t is None or (t[0] in ("ref", "ptr") and t[2]):
                if ("D", v) in st.mem or (t and t[0] == "ref"):
                    old = st.mem.get(("D", v))
                    st.mem[("D", v)] = self.fresh(("hav", tag, tid(("D", v))), t[1] if t else None)
                    if old is not None:
                        self.havoc_arg(st, old, tag, seen)

    def snapshot(self, st, a):
        """A slice of a local array, by what it holds"""
        if a[0] == "unsz" and a[1][0] == "ref" and a[1][1][0] == "L":
            return ("cslice", self.load(st, a[1][1], a[1][2]), a[2])
        return a

    def event(self, c, st):
        """A call with unknown effects."""
        name = c.orig[0] if c.orig else c.path
        if self.unroll:
            res = self.fresh(("ev", name.rpartition("::")[2], c.ctx, len(st.trace)), c.rty)
        else:
            res = self.fresh(("ev", name.rpartition("::")[2], c.ctx), c.rty)
        st.ev("call", name, c.path, tuple(self.snapshot(st, a) for a in c.args), res, c.ctx)
        for a, t in zip(c.args, c.tys):
            self.havoc_arg(st, a, c.ctx, None, t)
        if c.rty == ("never",):
            return []
        return [(st, res)]

    # ---- bodies and loops
    def exec_body(self, fr, st):
        body = fr.body
        key = id(body["blocks"])
        lp = self.loop_cache.get(key)
        if lp is None:
            lp = loops_of(body)
            self.loop_cache[key] = lp
        exits, rets, backs = self.explore(fr, 0, st, None, None, lp)
        return rets

    def explore(self, fr, start, st, region, head, lp):
        work = [(start, st, True)]
        exits, rets, backs = [], [], []
        while work:
            b, s, first = work.pop()
            if head is not None and b == head and not first:
                backs.append(s)
                continue
            if region is not None and b not in region:
                exits.append((b, s))
                continue
            if b in lp and self.unroll and head is None:
                k = ("N", fr.ctx, b)
                n = s.mem.get(k, ZERO)
                if n[1] >= self.unroll:
                    self.incomplete.append(fr.fn.d)
                    continue
                s.mem[k] = C(n[1] + 1)
            elif b in lp and not (b == head and first):
                ex, rt = self.run_loop(fr, b, s, lp)
                rets.extend(rt)
                for e in ex:
                    work.append((e[0], e[1], False))
                continue
            succ, rt = self.exec_block(fr, b, s)
            rets.extend(rt)
            for t, s2 in reversed(succ):
                work.append((t, s2, False))
        return exits, rets, backs

    def root_init(self, root):
        if root[0] == "D":
            return self.deref_init(root[1])
        return None

    def diff(self, a, b, path, out):
        if a == b:
            return
        if a[0] == "agg" and b[0] == "agg" and a[1] == b[1] and a[2] == b[2] and len(a[3]) == len(b[3]) and len(a[3]) <= 64:
            for i, (x, y) in enumerate(zip(a[3], b[3])):
                step = ("i", C(i)) if a[1] == "array" else ("f", a[2] if self.is_enum(a[1]) else None, i)
                self.diff(x, y, path + (step,), out)
            return
        out.append(path)

    def is_enum(self, tag):
        a = self.db.adts.get(tag) if isinstance(tag, str) else None
        return bool(a and a["k"] == "enum")

    def path_type(self, root, path):
        ty = self.root_types.get(root)
        for s in path:
            if ty is None:
                return None
            if s[0] == "f":
                fs = self.variant_fields(ty, s[1]) if s[1] is not None else self.fields_of(ty)
                ty = fs[s[2]] if fs and s[2] < len(fs) else None
            elif s[0] == "i":
                ty = ty[1] if ty[0] in ("array", "slice") else None
            else:
                return None
        return ty

    def run_loop(self, fr, h, st, lp):
        region = lp[h]
        key = (fr.ctx, h)
        widened = {}
        for attempt in range(16):
            head = st.copy()
            head.trace = st.trace + (("loop", key),)
            entry_vals = {}
            for (root, path), phi in widened.items():
                old = self.load(st, root, path)
                entry_vals[phi] = old
                if not path:
                    head.mem[root] = phi
                else:
                    v = self.load_root(head, root)
                    head.mem[root] = self.setp(v, path, None, phi, self.root_types.get(root))
            # inductive facts
            cands = self.candidates(st, entry_vals, head) if attempt else []
            base_bl, base_var = head.bl, head.var
            new_mods = None
            vsets = {}
            for phi, e in entry_vals.items():
                if e[0] == "agg" and isinstance(e[1], str) and self.is_enum(e[1]):
                    vsets[phi] = (e[1], {e[2]})
                elif e in st.var:
                    t = self.ty_of(e)
                    if t and t[0] == "adt":
                        vsets[phi] = (t[1], set(st.var[e]))
            for rounds in range(12):
                h2 = head.copy()
                for t in cands:
                    h2.lin = h2.lin.with_(t)
                for phi, (adt, s) in vsets.items():
                    h2.var[phi] = frozenset(s)
                exits, rets, backs = self.explore(fr, h, h2.copy(), region, h, lp)
                # everything which the body changes
                mods = {}
                for s in backs:
                    for root in set(s.mem) | set(h2.mem):
                        if root[0] == "L" and root not in h2.mem:
                            continue
                        a = h2.mem.get(root)
                        bv = s.mem.get(root)
                        if a is None:
                            a = self.root_init(root)
                        if bv is None:
                            continue
                        if a != bv:
                            out = []
                            self.diff(a, bv, (), out)
                            for p in out:
                                mods[(root, p)] = 1
                new_mods = [m for m in mods if m not in widened]
                if new_mods:
                    break
                if attempt == 0:
                    break
                # are the candidates preserved?
                keep = []
                if rounds == 0:
                    extra = self.guard_candidates(backs, h2, entry_vals, st)
                    have = set(cands)
                    pool = cands + [x for x in extra if x not in have]
                else:
                    pool = cands
                for t in pool:
                    ok = True
                    for s in backs:
                        m = {}
                        for (root, path), phi in widened.items():
                            v = self.load(s, root, path)
                            m[phi] = v
                            pt = self.ty_of(phi)
                            if pt and pt[0] == "ref" and pt[1][0] in ("slice", "str"):
                                m[("len", phi)] = self.slen(v)
                        t2 = self.subst_lin(t, m)
                        if t2 is None or not s.lin.entails(t2):
                            ok = False
                            break
                    if ok:
                        keep.append(t)
                vchg = False
                for phi in list(vsets):
                    adt, sset = vsets[phi]
                    loc = [k for k, p in widened.items() if p == phi][0]
                    for s in backs:
                        v = self.load(s, loc[0], loc[1])
                        if v[0] == "agg":
                            add_ = {v[2]}
                        elif v in s.var:
                            add_ = set(s.var[v])
                        else:
                            add_ = set(range(len(self.db.adts[adt]["variants"])))
                        if not add_ <= sset:
                            sset |= add_
                            vchg = True
                if keep == cands and not vchg:
                    break
                cands = keep
            if not new_mods:
                self.loops.setdefault(key, []).append(
                    (h2.trace, [s.trace[len(h2.trace):] for s in backs], [(s, h2) for s in backs]))
                return exits, rets
            for m in new_mods:
                # a widened prefix subsumes
                root, path = m
                for o in list(widened):
                    if o[0] == root and o[1][:len(path)] == path:
                        del widened[o]
                if any(o[0] == root and path[:len(o[1])] == o[1] for o in widened):
                    # below something already widened: widen all of it again (no progress otherwise)
                    for o in list(widened):
                        if o[0] == root and path[:len(o[1])] == o[1]:
                            pass
                    continue
                ty = self.path_type(root, path)
                phi = self.fresh2(("phi", fr.ctx, h, root, path), ty)
                widened[m] = phi
        raise Budget("loop in %s does not stabilise" % fr.fn.d)

    def fresh2(self, v, ty):
        self.settype(v, ty)
        return v

    def subst_lin(self, t, m):
        c, p = parts(t)
        r = C(c)
        for a, k in p:
            x = m.get(a)
            if x is None:
                if any(self.mentions(a, q) for q in m):
                    return None
                x = a
            elif x[0] in ("agg", "ref", "uninit"):
                return None
            r = add(r, scale(x, k))
        return r

    def mentions(self, t, q):
        if t == q:
            return True
        if isinstance(t, tuple):
            return any(self.mentions(x, q) for x in t if isinstance(x, tuple))
        return False

    def int_phi(self, phi):
        ty = atype.get(phi)
        return ty is not None and ty[0] in ("uint", "int")

    def candidates(self, st, entry, head):
        out = []
        ph = [(p, e) for p, e in entry.items() if self.int_phi(p) and e[0] not in ("agg", "uninit", "ref")]
        for p, e in ph:
            out.append(sub(p, e))
            out.append(sub(e, p))
            for f in st.lin.facts:
                if e[0] not in ("c", "lin") and any(a == e for a in atoms(f)):
                    out.append(self.subst_one(f, e, p))
            if e[0] in ("len",) or e[0] not in ("c", "lin"):
                for f in axioms(e):
                    out.append(self.subst_one(f, e, p))
        for i, (p, e) in enumerate(ph):
            for q, g in ph[i + 1:]:
                d = sub(sub(p, q), sub(e, g))
                out.append(d)
                out.append(scale(d, -1))
                s = sub(add(p, q), add(e, g))
                out.append(s)
                out.append(scale(s, -1))
                if isc(sub(g, e)) or True:
                    # order between two counters
                    for x in (sub(p, q), sub(q, p)):
                        y = self.subst_lin(x, entry)
                        if y is not None and st.lin.entails(y):
                            out.append(x)
        # slices which only shrink / keep their length
        for p, e in entry.items():
            ty = self.ty_of(p)
            if ty and ty[0] == "ref" and ty[1][0] in ("slice", "str") and e[0] not in ("agg", "uninit"):
                lp_, le = self.slen(p), self.slen(e)
                out.append(sub(le, lp_))
        res, seen = [], set()
        for t in out:
            if t is None or isc(t) or t in seen:
                continue
            seen.add(t)
            y = self.subst_lin2(t, entry)
            if y is not None and st.lin.entails(y):
                res.append(t)
        return res

    def subst_lin2(self, t, entry):
        """like subst_lin, but also through the length of a slice"""
        m = dict(entry)
        for p, e in entry.items():
            ty = self.ty_of(p)
            if ty and ty[0] == "ref" and ty[1][0] in ("slice", "str"):
                m[("len", p)] = self.slen(e)
        return self.subst_lin(t, m)

    def subst_one(self, f, e, p):
        return self.subst_lin(f, {e: p})

    def guard_candidates(self, backs, head, entry, st):
        out = []
        seen = set()
        for s in backs:
            for f in s.lin.facts - head.lin.facts:
                if not any(a in entry for a in atoms(f)):
                    continue
                for k in (0, 1):
                    t = add(f, C(k))
                    if t in seen:
                        continue
                    seen.add(t)
                    y = self.subst_lin(t, entry)
                    if y is not None and st.lin.entails(y):
                        out.append(t)
        return out

    def wrapbits(self, st, n, b):
        import models
        return models.wrapbits(self, st, n, b)

    # ---- entry
    def run(self, f, args=None, st=None, sub_=None):
        """Analyse a function with unknown arguments."""
        self.budget = self.budget0
        st = st or State()
        body = {"args": f.args, "locals": f.locals, "blocks": f.blocks}
        fr = Frame(f, sub_ or {}, self.ctx("root", f.h), body, 0, (f.h,))
        self.inlined.add(f.h)
        for i in range(f.args):
            root = ("L", fr.ctx, i + 1)
            ty = self.norm(f.locals[i + 1], fr.sub)
            self.root_types[root] = ty
            if args and i < len(args) and args[i] is not None:
                v = args[i]
            else:
                v = self.fresh(("arg", f.name or f.d, i), ty)
            st.mem[root] = v
        rets = self.exec_body(fr, st)
        return rets
