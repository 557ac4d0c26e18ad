"""Integer terms and linear facts.

A term is a tuple. Integers are kept in a canonical linear form so that equal
sums are equal terms:

    ("c", v)                      the constant v
    ("lin", v, ((atom, k), ...))  v + k * atom + ...
    anything else                 an atom

A fact is a term t with the meaning t >= 0. Entailment is decided by
Fourier-Motzkin elimination over the rationals with integer tightening.
"""
from math import gcd

_ids = {}


def tid(t):
    i = _ids.get(t)
    if i is None:
        i = len(_ids)
        _ids[t] = i
    return i


atype = {}  # atom -> type tuple
BITS = {
    "u8": 8, "u16": 16, "u32": 32, "u64": 64, "u128": 128, "usize": 64,
    "i8": 8, "i16": 16, "i32": 32, "i64": 64, "i128": 128, "isize": 64,
}


def trange(ty):
    if ty is None:
        return None
    k = ty[0]
    if k == "uint":
        return (0, (1 << BITS[ty[1]]) - 1)
    if k == "int":
        b = BITS[ty[1]]
        return (-(1 << (b - 1)), (1 << (b - 1)) - 1)
    if k == "bool":
        return (0, 1)
    if k == "char":
        return (0, 0x10FFFF)
    return None


def C(v):
    return ("c", v)


ZERO = C(0)
ONE = C(1)


def parts(t):
    if t[0] == "c":
        return t[1], ()
    if t[0] == "lin":
        return t[1], t[2]
    return 0, ((t, 1),)


def build(c, d):
    items = [(a, k) for a, k in d.items() if k]
    if not items:
        return ("c", c)
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    items.sort(key=lambda x: tid(x[0]))
    return ("lin", c, tuple(items))


def comb(a, ka, b, kb):
    c1, p1 = parts(a)
    c2, p2 = parts(b)
    d = {}
    for x, k in p1:
        d[x] = k * ka
    for x, k in p2:
        d[x] = d.get(x, 0) + k * kb
    return build(c1 * ka + c2 * kb, d)


def add(a, b):
    return comb(a, 1, b, 1)


def sub(a, b):
    return comb(a, 1, b, -1)


def scale(a, k):
    return comb(a, k, ZERO, 0)


def isc(t):
    return t[0] == "c"


def atoms(t):
    return [a for a, _ in parts(t)[1]]


def axioms(a):
    """Facts which hold of the atom by construction."""
    out = []
    r = trange(atype.get(a))
    k = a[0]
    if k == "len":
        r = (0, (1 << 63) - 1)
    if r:
        out.append(sub(a, C(r[0])))
        out.append(sub(C(r[1]), a))
    if k == "rem" and isc(a[2]) and a[2][1] > 0 and nonneg(a[1]):
        out.append(a)
        out.append(sub(C(a[2][1] - 1), a))
        out.append(sub(a[1], a))
    elif k == "rem" and nonneg(a[1]):
        out.append(a)
        out.append(sub(a[1], a))
        if nonneg(a[2]):
            # a divisor of zero is a panic, so that the remainder is smaller
            out.append(sub(sub(a[2], ONE), a))
    elif k == "div" and isc(a[2]) and a[2][1] > 0 and nonneg(a[1]):
        n = a[2][1]
        out.append(sub(a[1], scale(a, n)))
        out.append(sub(add(scale(a, n), C(n - 1)), a[1]))
    elif k == "div" and nonneg(a[1]) and nonneg(a[2]):
        out.append(a)
        out.append(sub(a[1], a))
    elif k == "and":
        if nonneg(a[1]) and nonneg(a[2]):
            out.append(a)
            out.append(sub(a[1], a))
            out.append(sub(a[2], a))
    elif k == "shr" and nonneg(a[1]):
        out.append(a)
        out.append(sub(a[1], a))
        if isc(a[2]):
            n = 1 << a[2][1]
            out.append(sub(a[1], scale(a, n)))
            out.append(sub(add(scale(a, n), C(n - 1)), a[1]))
    elif k == "or" and nonneg(a[1]) and nonneg(a[2]):
        out.append(sub(a, a[1]))
        out.append(sub(a, a[2]))
        out.append(sub(add(a[1], a[2]), a))
    elif k == "xor" and nonneg(a[1]) and nonneg(a[2]):
        out.append(a)
        out.append(sub(add(a[1], a[2]), a))
    elif k == "mul" and nonneg(a[1]) and nonneg(a[2]):
        out.append(a)
    elif k == "mod2":  # ("mod2", bits, t): t modulo 2**bits
        out.append(a)
        out.append(sub(C((1 << a[1]) - 1), a))
        if nonneg(a[2]):
            out.append(sub(a[2], a))
    elif k == "min":
        out.append(sub(a[1], a))
        out.append(sub(a[2], a))
    elif k == "max":
        out.append(sub(a, a[1]))
        out.append(sub(a, a[2]))
    elif k == "popcnt" or k == "clz" or k == "ctz":
        out.append(a)
        out.append(sub(C(a[1]), a))
    elif k in ("alignof",):
        out.append(sub(a, ONE))
    elif k == "sizeof":
        out.append(a)
        out.append(sub(C((1 << 63) - 1), a))
    return out


def nonneg(t):
    if isc(t):
        return t[1] >= 0
    if t[0] == "lin":
        return t[1] >= 0 and all(k > 0 and nonneg(a) for a, k in t[2])
    r = trange(atype.get(t))
    if r and r[0] >= 0:
        return True
    return t[0] in ("len", "rem", "div", "and", "shr", "mod2", "sizeof", "alignof", "popcnt", "clz", "ctz", "discr") and (
        t[0] not in ("rem", "div", "and", "shr") or nonneg(t[1])
    )


def norm(t):
    """Tighten t >= 0."""
    c, p = parts(t)
    g = 0
    for _, k in p:
        g = gcd(g, k)
    if g > 1:
        return build(c // g, {a: k // g for a, k in p})
    return t


class Lin:
    """An immutable collection of facts."""

    __slots__ = ("facts", "dis", "_cache")

    def __init__(self, facts=frozenset(), dis=frozenset()):
        self.facts = facts
        self.dis = dis
        self._cache = {}

    def with_(self, t):
        t = norm(t)
        if isc(t) and t[1] >= 0 or t in self.facts:
            return self
        n = Lin(self.facts | {t}, self.dis)
        # t != 0 and t >= 0 gives t - 1 >= 0
        for d in (t, scale(t, -1)):
            if d in self.dis:
                n = Lin(n.facts | {norm(sub(t, ONE))}, n.dis)
        return n

    def with_ne(self, t):
        """t != 0"""
        if t in self.dis:
            return self
        n = Lin(self.facts, self.dis | {t})
        if self.entails(t):
            n = n.with_(sub(t, ONE))
        elif self.entails(scale(t, -1)):
            n = n.with_(sub(scale(t, -1), ONE))
        return n

    def entails(self, goal):
        goal = norm(goal)
        if isc(goal):
            if goal[1] >= 0:
                return True
            return not self.feasible()
        r = self._cache.get(goal)
        if r is None:
            r = unsat(self.facts, [sub(C(-1), goal)])
            self._cache[goal] = r
        return r

    def feasible(self):
        r = self._cache.get(None)
        if r is None:
            r = not unsat(self.facts, list(self.facts))
            self._cache[None] = r
        return r

    def eq0(self, t):
        return self.entails(t) and self.entails(scale(t, -1))


def unsat(facts, start, limit=4000):
    """Is the conjunction of `start` with the facts connected to it infeasible?"""
    cons = set()
    work = list(start)
    seen = set()
    pending = list(facts)
    byatom = {}
    for f in pending:
        for a in atoms(f):
            byatom.setdefault(a, []).append(f)
    for f in facts:
        if isc(f) and f[1] < 0:
            return True
    while work:
        f = work.pop()
        if f in cons:
            continue
        if isc(f):
            if f[1] < 0:
                return True
            continue
        cons.add(f)
        if len(cons) > 300:
            break
        for a in atoms(f):
            if a in seen:
                continue
            seen.add(a)
            work.extend(byatom.get(a, ()))
            work.extend(norm(x) for x in axioms(a))
    # elimination
    cons = [parts(f) for f in cons]
    cons = [(c, dict(p)) for c, p in cons]
    n = 0
    while True:
        cnt = {}
        for c, d in cons:
            for a, k in d.items():
                p, q = cnt.get(a, (0, 0))
                cnt[a] = (p + 1, q) if k > 0 else (p, q + 1)
        if not cnt:
            return any(c < 0 for c, d in cons)
        a = min(cnt, key=lambda x: (cnt[x][0] * cnt[x][1] - cnt[x][0] - cnt[x][1], tid(x)))
        pos, neg, rest = [], [], []
        for x in cons:
            k = x[1].get(a, 0)
            (pos if k > 0 else neg if k < 0 else rest).append(x)
        new = {}
        for c1, d1 in pos:
            k1 = d1[a]
            for c2, d2 in neg:
                k2 = -d2[a]
                g = gcd(k1, k2)
                m1, m2 = k2 // g, k1 // g
                d = {}
                for x, k in d1.items():
                    if x != a:
                        d[x] = k * m1
                for x, k in d2.items():
                    if x != a:
                        v = d.get(x, 0) + k * m2
                        if v:
                            d[x] = v
                        else:
                            d.pop(x, None)
                c = c1 * m1 + c2 * m2
                if not d:
                    if c < 0:
                        return True
                    continue
                g = 0
                for k in d.values():
                    g = gcd(g, k)
                if g > 1:
                    d = {x: k // g for x, k in d.items()}
                    c = c // g
                key = frozenset(d.items())
                o = new.get(key)
                if o is None or c < o:
                    new[key] = c
                n += 1
                if n > limit:
                    return False
        for c, d in rest:
            key = frozenset(d.items())
            o = new.get(key)
            if o is None or c < o:
                new[key] = c
        cons = [(c, dict(k)) for k, c in new.items()]
