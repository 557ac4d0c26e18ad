"""The value of a term when the values of what it is made of are given."""
from absint import *


class Unknown(Exception):
    pass


def wrap(v, ty):
    r = trange(ty)
    if r is None:
        return v
    n = r[1] - r[0] + 1
    return (v - r[0]) % n + r[0]


def ev(t, env, other=None):
    if t in env:
        return env[t]
    k = t[0]
    if k == "c":
        return t[1]
    if k == "lin":
        return t[1] + sum(ev(a, env, other) * c for a, c in t[2])
    if k in ("shr", "shl", "and", "or", "xor", "mul", "div", "rem", "band", "bor"):
        a = ev(t[1], env, other)
        b = ev(t[2], env, other)
        if k == "shr":
            return a >> b
        if k == "shl":
            return a << b
        if k == "and":
            return a & b
        if k == "or":
            return a | b
        if k == "xor":
            return a ^ b
        if k == "mul":
            return a * b
        if k == "div":
            return a // b
        if k == "rem":
            return a % b
        if k == "band":
            return bool(a) and bool(b)
        return bool(a) or bool(b)
    if k == "idx":
        i = ev(t[2], env, other)
        v = t[1]
        if v[0] == "bytes":
            return v[1][i]
        if v[0] == "agg" and i < len(v[3]):
            return ev(v[3][i], env, other)
        raise Unknown(t)
    if k == "ge0":
        return ev(t[1], env, other) >= 0
    if k == "eq0":
        return ev(t[1], env, other) == 0
    if k == "not":
        return not ev(t[1], env, other)
    if k == "ovf":
        v = ev(t[1], env, other)
        r = trange(t[2])
        return not r[0] <= v <= r[1]
    if k == "wrap":
        return wrap(ev(t[1], env, other), t[2])
    if other is not None:
        r = other(t, env)
        if r is not None:
            return r
    raise Unknown(t)


def holds(st, env, other=None):
    """whether the facts of a state hold for these values, None when not known"""
    out = True
    try:
        for f in st.lin.facts:
            if ev(f, env, other) < 0:
                return False
        for f in st.lin.dis:
            if ev(f, env, other) == 0:
                return False
    except Unknown:
        out = None
    for b, v in st.bl.items():
        try:
            if bool(ev(b, env, other)) != v:
                return False
        except Unknown:
            out = None
    return out


# ---- the same, compiled
class Compiler:
    """Python functions of the values of some atoms."""

    def __init__(self, names, other=None):
        self.names = names          # atom -> name of a parameter
        self.other = other          # term -> source, or None
        self.env = {"__builtins__": {}, "bool": bool, "wrap": wrap, "trange": trange}
        self.consts = {}

    def const(self, v):
        n = self.consts.get(v)
        if n is None:
            n = self.consts[v] = "k%d" % len(self.consts)
            self.env[n] = v
        return n

    def src(self, t):
        n = self.names.get(t)
        if n is not None:
            return n
        k = t[0]
        if k == "c":
            return str(t[1]) if t[1] >= 0 else "(%d)" % t[1]
        if k == "lin":
            return "(%s)" % "+".join([str(t[1])] + ["%s*(%d)" % (self.src(a), c) for a, c in t[2]])
        op = {"shr": ">>", "shl": "<<", "and": "&", "or": "|", "xor": "^", "mul": "*", "div": "//", "rem": "%",
              "band": " and ", "bor": " or "}.get(k)
        if op:
            return "(%s%s%s)" % (self.src(t[1]), op, self.src(t[2]))
        if k == "idx":
            v = t[1]
            if v[0] == "bytes":
                tab = tuple(v[1])
            elif v[0] == "agg" and all(isc(x) for x in v[3]):
                tab = tuple(x[1] for x in v[3])
            else:
                raise Unknown(t)
            return "%s[%s]" % (self.const(tab), self.src(t[2]))
        if k == "ge0":
            return "(%s>=0)" % self.src(t[1])
        if k == "eq0":
            return "(%s==0)" % self.src(t[1])
        if k == "not":
            return "(not %s)" % self.src(t[1])
        if k == "ovf":
            r = trange(t[2])
            return "(not %d<=%s<=%d)" % (r[0], self.src(t[1]), r[1])
        if k == "mod2":
            return "(%s&%d)" % (self.src(t[2]), (1 << t[1]) - 1)
        if k == "smod2":
            h = 1 << t[1] - 1
            return "((%s+%d&%d)-%d)" % (self.src(t[2]), h, 2 * h - 1, h)
        if k == "wrap":
            return "wrap(%s,%s)" % (self.src(t[1]), self.const(t[2]))
        if self.other is not None:
            r = self.other(self, t)
            if r is not None:
                return r
        raise Unknown(t)

    def fn(self, src):
        return eval("lambda %s: %s" % (",".join(sorted(set(self.names.values()), key=lambda s: (len(s), s))), src), self.env)

    def holds(self, st):
        """-> a function telling whether the facts hold, and the facts which are not known"""
        out, unk = [], []
        for fs, op in ((st.lin.facts, ">=0"), (st.lin.dis, "!=0")):
            for f in fs:
                try:
                    out.append(self.src(f) + op)
                except Unknown as e:
                    unk.append(e.args[0])
        for b, v in st.bl.items():
            try:
                out.append(("bool(%s)" if v else "not bool(%s)") % self.src(b))
            except Unknown as e:
                unk.append(e.args[0])
        unk += list(st.var)
        out.sort(key=len)
        return self.fn(" and ".join(out) or "True"), unk
