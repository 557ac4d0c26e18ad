"""Loads the compiler's dump of /repo's crates and answers questions about it.

Types are hash-consed tuples, see `Crate.ty`.
"""
import json
import os

CRATES = ["musli_core", "musli", "musli_zerocopy", "vwitness"]


class Fn:
    __slots__ = (
        "d", "h", "kind", "crate", "gens", "name", "args", "locals", "names", "blocks",
        "span", "ph", "inimpl", "intrait", "prom", "val", "unsafe", "pub", "constfn", "mac",
        "_loops", "raw", "retty", "_preds",
    )

    def __repr__(self):
        return "<fn %s>" % self.d


class DB:
    def __init__(self, out, more=()):
        self.types = {}
        self.layout = {}
        self.fns = {}
        self.ext = {}
        self.bypath = {}
        self.impls = []
        self.impl_by_hash = {}
        self.impl_by_trait = {}
        self.traits = {}
        self.adts = {}
        self.item_impl = {}
        for c in CRATES + list(more):
            p = os.path.join(out, c + ".json")
            if os.path.exists(p):
                self.load(json.load(open(p)))
        self._resolve = {}

    # ---- loading
    def load(self, j):
        raw = j["types"]
        memo = [None] * len(raw)
        layout = self.layout
        crate = j["crate"]

        def const(c):
            if isinstance(c, int):
                return ty(c)
            if "p" in c:
                return ("cp", c["p"])
            if "i" in c:
                return ("ci", int(c["i"]))
            return ("cx", c["x"])

        def ty(i):
            t = memo[i]
            if t is not None:
                return t
            r = raw[i]
            memo[i] = ("rec", r["s"])
            k = r["k"]
            if k in ("bool", "char", "str", "never"):
                t = (k,)
            elif k in ("int", "uint", "float"):
                t = (k, r["n"])
            elif k == "adt":
                t = ("adt", r["d"], tuple(const(x) for x in r["a"]))
            elif k == "array":
                t = ("array", ty(r["t"]), const(r["n"]))
            elif k == "slice":
                t = ("slice", ty(r["t"]))
            elif k in ("ptr", "ref"):
                t = (k, ty(r["t"]), r["m"])
            elif k == "tuple":
                t = ("tuple", tuple(ty(x) for x in r["a"]))
            elif k == "param":
                t = ("param", r["n"])
            elif k == "fndef":
                t = ("fndef", r["d"], r["h"], tuple(const(x) for x in r["a"]), r.get("tr"), r.get("n"))
            elif k == "closure":
                t = ("closure", r["d"], r["h"], tuple(ty(x) for x in r["up"]), tuple(const(x) for x in r["a"]))
            elif k == "proj":
                t = ("proj", r["d"], tuple(const(x) for x in r["a"]))
            elif k == "alias":
                t = ("alias", r["s"])
            elif k == "dyn":
                t = ("dyn", r["s"])
            else:
                t = (k, r["s"])
            memo[i] = t
            if "l" in r or "nd" in r:
                x = dict(r.get("l") or {})
                x["nd"] = r.get("nd")
                layout.setdefault(t, x)
            return t

        self.ty_of = getattr(self, "ty_of", {})
        self.ty_of[crate] = ty
        for i in range(len(raw)):
            ty(i)
        files = j["files"]
        T = ty

        def sp(s):
            return (files[s[0]], s[1])

        def konst(c):
            o = {"t": T(c["t"]) if "t" in c else None}
            if "fn" in c:
                o["fn"] = fnref(c["fn"])
            if "v" in c:
                o["v"] = c["v"]
            if "tc" in c:
                o["tc"] = const(c["tc"])
            if "u" in c:
                o["u"] = fnref(c["u"])
                if "pr" in c["u"]:
                    o["u"]["pr"] = c["u"]["pr"]
            return o

        def fnref(f):
            o = {"d": f["d"], "h": f["h"], "a": tuple(const(x) for x in f["a"]), "tr": f.get("tr"), "n": f.get("n")}
            if "r" in f:
                r = f["r"]
                o["r"] = {"d": r["d"], "h": r["h"], "a": tuple(const(x) for x in r["a"])}
            if "shim" in f:
                o["shim"] = 1
            return o

        def place(p):
            proj = []
            for e in p[1]:
                if e == "*":
                    proj.append(("*",))
                elif e[0] == "f":
                    proj.append(("f", e[1], T(e[2])))
                else:
                    proj.append(tuple(e))
            return (p[0], tuple(proj))

        def op(o):
            if o[0] == "k":
                return ("k", konst(o[1]))
            return (o[0], place(o[1]))

        def rv(r):
            k = r[0]
            if k == "use":
                return ("use", op(r[1]))
            if k == "repeat":
                return ("repeat", op(r[1]), const(r[2]))
            if k in ("ref", "addr"):
                return (k, r[1], place(r[2]))
            if k == "cast":
                return ("cast", r[1], op(r[2]), T(r[3]))
            if k == "bin":
                return ("bin", r[1], op(r[2]), op(r[3]))
            if k == "un":
                return ("un", r[1], op(r[2]))
            if k == "discr":
                return ("discr", place(r[1]))
            if k == "agg":
                a = r[1]
                if a[0] == "adt":
                    a = ("adt", a[1], a[2], a[3], T(a[4]))
                elif a[0] == "array":
                    a = ("array", T(a[1]))
                else:
                    a = tuple(a)
                return ("agg", a, tuple(op(x) for x in r[2]))
            return ("?", r[1])

        def stmt(s):
            k = s[0]
            if k == "=":
                return ("=", place(s[1]), rv(s[2]))
            if k == "sd":
                return ("sd", place(s[1]), s[2])
            if k == "dead":
                return ("dead", s[1])
            if k == "assume":
                return ("assume", op(s[1]))
            if k == "cno":
                return ("cno", op(s[1]), op(s[2]), op(s[3]))
            return ("?",)

        def term(t):
            k = t[0]
            if k == "switch":
                return ("switch", op(t[1]), tuple((int(v), b) for v, b in t[2]), t[3], sp(t[4]))
            if k == "drop":
                return ("drop", place(t[1]), t[2], T(t[3]), sp(t[4]))
            if k == "call":
                return ("call", op(t[1]), tuple(op(a) for a in t[2]), place(t[3]), t[4], sp(t[5]))
            if k == "assert":
                m = t[3]
                m = (m[0],) + tuple(op(x) if isinstance(x, list) else x for x in m[1:])
                return ("assert", op(t[1]), t[2], m, t[4], sp(t[5]))
            return tuple(t)

        def body(b):
            o = {}
            o["args"] = b["args"]
            o["locals"] = [T(x) for x in b["locals"]]
            o["names"] = [(n, place(p)) for n, p in b["names"]]
            o["blocks"] = [
                None if x is None else ([stmt(s) for s in x["s"]], term(x["t"])) for x in b["blocks"]
            ]
            return o

        for f in j["fns"]:
            n = Fn()
            n.d, n.h, n.kind, n.crate = f["d"], f["h"], f["k"], crate
            n.gens = f["g"]
            n.name = f.get("n")
            n.span = sp(f["sp"])
            n.ph = f.get("ph")
            n.inimpl = bool(f.get("inimpl"))
            n.intrait = f.get("intrait")
            n.val = f.get("val")
            n.unsafe = f.get("unsafe", False)
            n.pub = f.get("pub", False)
            n.constfn = f.get("constfn", False)
            n.mac = bool(f.get("mac"))
            n.raw = (f, body)
            n._loops = None
            n._preds = None
            n.prom = None
            n.args = f["args"]
            n.locals = n.names = n.blocks = None
            if n.kind == "ext":
                self.ext.setdefault(n.h, n)
            else:
                self.fns[n.h] = n
                self.bypath.setdefault(n.d, []).append(n)
        for i in j["impls"]:
            x = {
                "h": i["h"], "d": i["d"], "g": i["g"], "self": T(i["self"]), "tr": i.get("tr"),
                "ta": tuple(const(a) for a in i.get("ta", [])), "where": i["where"],
                "items": {q["n"]: dict(q, ty=T(q["ty"]) if "ty" in q else None) for q in i["items"]},
                "sp": sp(i["sp"]), "unsafe": i.get("unsafe"), "neg": i.get("neg"), "crate": crate,
            }
            self.impls.append(x)
            self.impl_by_hash[x["h"]] = x
            for q in i["items"]:
                self.item_impl[q["h"]] = x
            if x["tr"]:
                self.impl_by_trait.setdefault(x["tr"], []).append(x)
        for t in j["traits"]:
            self.traits[t["d"]] = {q["n"]: q for q in t["items"]}
        for a in j["adts"]:
            if a["d"] in self.adts and "sp" not in a:
                continue
            self.adts[a["d"]] = {
                "d": a["d"], "k": a["k"], "g": a["g"], "self": T(a["self"]), "c": a["c"],
                "transparent": a["transparent"], "packed": a["packed"], "align": a["align"], "int": a["int"],
                "crate": crate, "local": "sp" in a, "sp": sp(a["sp"]) if "sp" in a else None, "pub": a.get("pub"),
                "variants": [
                    {"n": v["n"], "discr": None if v["discr"] is None else int(v["discr"]),
                     "fields": [(f[0], None if f[1] is None else T(f[1])) for f in v["fields"]]}
                    for v in a["variants"]
                ],
            }

    def get(self, h):
        f = self.fns.get(h) or self.ext.get(h)
        if f is None:
            return None
        if f.blocks is None:
            raw, body = f.raw
            b = body(raw)
            f.args, f.locals, f.names, f.blocks = b["args"], b["locals"], b["names"], b["blocks"]
            f.prom = [body(x) for x in raw.get("prom", [])]
            f.raw = None
        return f

    # ---- queries
    def find(self, path):
        """The single function with this path."""
        l = self.bypath.get(path, [])
        if len(l) != 1:
            return None
        return self.get(l[0].h)

    def impl_fns(self, f):
        """(name -> Fn) for an impl record."""
        o = {}
        for n, q in f["items"].items():
            if q["k"] == "fn" and q["h"] in self.fns:
                o[n] = self.get(q["h"])
        return o

    def method(self, trait, self_pred, name):
        out = []
        for i in self.impl_by_trait.get(trait, []):
            if self_pred(i["self"]) and name in i["items"]:
                out.append((i, self.get(i["items"][name]["h"])))
        return out


# ---- types
def params(t, out):
    """names of the type parameters in a type"""
    if isinstance(t, tuple):
        if len(t) == 2 and t[0] in ("param", "cp") and isinstance(t[1], str):
            if t[1] not in out:
                out.append(t[1])
        else:
            for x in t:
                params(x, out)


def subst(t, m):
    if not m or not isinstance(t, tuple) or not t:
        return t
    k = t[0]
    if k == "param":
        return m.get(t[1], t)
    if k == "cp":
        return m.get(t[1], t)
    if k == "proj":
        return ("proj", t[1], tuple(subst(x, m) for x in t[2]))
    out = []
    ch = False
    for x in t[1:]:
        if isinstance(x, tuple):
            if x and isinstance(x[0], tuple):
                y = tuple(subst(q, m) for q in x)
            elif x and isinstance(x[0], str):
                y = subst(x, m)
            else:
                y = tuple(subst(q, m) for q in x)
            if y != x:
                ch = True
            out.append(y)
        else:
            out.append(x)
    return (k,) + tuple(out) if ch else t


def unify(pat, t, m, params):
    """Match `pat` (with params named in `params`) against `t`."""
    if pat[0] in ("param", "cp") and pat[1] in params:
        if pat[1] in m:
            return m[pat[1]] == t
        m[pat[1]] = t
        return True
    if pat[0] == "proj":
        return True  # not decided here
    if pat[0] != t[0] or len(pat) != len(t):
        return False
    for a, b in zip(pat[1:], t[1:]):
        if isinstance(a, tuple):
            if not isinstance(b, tuple):
                return False
            if a and isinstance(a[0], tuple) or not a:
                if len(a) != len(b):
                    return False
                for x, y in zip(a, b):
                    if not unify(x, y, m, params):
                        return False
            else:
                if not unify(a, b, m, params):
                    return False
        elif a != b:
            return False
    return True


def has_param(t):
    if not isinstance(t, tuple):
        return False
    if t and t[0] in ("param", "cp", "proj"):
        return True
    return any(has_param(x) for x in t if isinstance(x, tuple))
