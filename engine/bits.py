"""A bit-provenance domain: every bit of an integer as an affine combination
over GF(2) of bits of unknown inputs.

A bit is a frozenset of atoms which are added modulo two; the atom 1 is the
constant one. An input bit is the pair (term, index). Facts of the state
(equalities, bounds) become equations between bits, which are solved by
elimination, so that for example a mask which compared equal to zero makes the
masked bits of its operand zero.
"""
from lin import *

ZB = frozenset()
OB = frozenset([1])
MAXW = 272
OPS = ("and", "or", "xor", "shl", "shr", "mod2", "smod2", "bswap", "frombytes", "rotl", "rotr")


def xor(a, b):
    return a ^ b


def has_ops(t, n=0):
    if n > 12 or not isinstance(t, tuple) or not t:
        return False
    if t[0] in OPS:
        return True
    if t[0] == "lin":
        return any(has_ops(a, n + 1) for a, _ in t[2])
    if t[0] in ("idx", "fld"):
        return has_ops(t[1], n + 1)
    return False


class Bits:
    def __init__(self, lin):
        self.lin = lin
        self.eq = {}  # atom -> bit
        self.cache = {}
        self.ub = {}
        self.lb = {}
        for f in lin.facts:
            c, p = parts(f)
            if len(p) == 1:
                a, k = p[0]
                if k < 0:
                    u = c // -k
                    if a not in self.ub or u < self.ub[a]:
                        self.ub[a] = u
                else:
                    l = -(c // k)
                    if a not in self.lb or l > self.lb[a]:
                        self.lb[a] = l
        eqs = [f for f in lin.facts if scale(f, -1) in lin.facts]
        signed = [a for a in {**self.ub, **self.lb} if (trange(atype.get(a)) or (0,))[0] < 0]
        for _ in range(3):
            n = len(self.eq)
            for a in signed:
                self.between(a)
            for a, u in self.ub.items():
                self.above(a, u)
            for a, l in self.lb.items():
                u = self.hi(a)
                if u is not None and l > 0:
                    m = u.bit_length() - 1
                    if l >= 1 << m:
                        self.learn(self.of(a, m + 1)[m] ^ OB)
            for f in eqs:
                self.equation(f)
            for f in lin.dis:
                self.nonzero(f)
            if len(self.eq) == n:
                break
            self.cache = {}

    def above(self, a, u):
        """a <= u: the bits above are zero"""
        r = trange(atype.get(a))
        if u < 0 or not (r and r[0] >= 0 or nonneg(a)):
            return
        n = u.bit_length()
        x, sh = a, 0
        w = (r[1].bit_length() if r else 128)
        if n >= w:
            return
        for b in self.of(x, w)[n:]:
            self.learn(b)

    def between(self, a):
        """a signed number of few bits: the ones above are its sign"""
        r = trange(atype.get(a))
        l, u = self.lb.get(a, r[0]), self.ub.get(a, r[1])
        w = r[1].bit_length() + 1
        b = self.of(a, w)
        n = max(u.bit_length() if u >= 0 else 0, (-1 - l).bit_length() if l < 0 else 0)
        s = OB if u < 0 else ZB if l >= 0 else b[w - 1]
        for x in b[n:]:
            self.learn(x ^ s)

    def hi(self, a):
        r = trange(atype.get(a))
        u = self.ub.get(a)
        if r and r[0] < 0:
            return None
        if r and (u is None or r[1] < u):
            return r[1]
        return u

    def nonzero(self, f):
        pos, neg = self.split(f)
        if neg != ZERO:
            return
        bs = [b for b in self.of(pos, 130) if b != ZB]
        if len(bs) == 1:
            self.learn(bs[0] ^ OB)

    def split(self, f):
        c, p = parts(f)
        pos = C(c if c > 0 else 0)
        neg = C(-c if c < 0 else 0)
        for a, k in p:
            if k > 0:
                pos = add(pos, scale(a, k))
            else:
                neg = add(neg, scale(a, -k))
        return pos, neg

    def equation(self, f):
        pos, neg = self.split(f)
        x, y = self.of(pos, 136), self.of(neg, 136)
        for a, b in zip(x, y):
            self.learn(a ^ b)

    def learn(self, bit):
        """bit == 0"""
        bit = self.red(bit)
        at = [a for a in bit if a != 1 and not (a[0] == "?")]
        if not at:
            return
        a = max(at, key=lambda q: (tid(q[0]), q[1]))
        v = bit ^ frozenset([a])
        for k in list(self.eq):
            if a in self.eq[k]:
                self.eq[k] = self.eq[k] ^ frozenset([a]) ^ v
        self.eq[a] = v
        self.cache = {}

    def red(self, bit):
        if not self.eq:
            return bit
        for a in bit:
            if a in self.eq:
                r = ZB
                for x in bit:
                    r = r ^ self.eq[x] if x in self.eq else r ^ frozenset([x])
                return r
        return bit

    def of(self, t, w):
        k = (t, w)
        r = self.cache.get(k)
        if r is None:
            r = [self.red(b) for b in self.raw(t, w)]
            self.cache[k] = r
        return r

    def opaque(self, t, w):
        r = trange(atype.get(t))
        if r is None:
            return [frozenset([(t, i)]) for i in range(w)]
        n = r[1].bit_length()
        out = [frozenset([(t, i)]) for i in range(min(n, w))]
        if w > n:
            s = frozenset([(t, n)]) if r[0] < 0 else ZB
            out += [s] * (w - n)
        return out

    def raw(self, t, w):
        k = t[0]
        if k == "c":
            return [OB if (t[1] >> i) & 1 else ZB for i in range(w)]
        if k == "lin":
            return self.linear(t, w)
        if k == "mod2":
            n = t[1]
            return (self.of(t[2], min(n, w)) + [ZB] * w)[:w]
        if k == "smod2":
            n = t[1]
            b = self.of(t[2], n)
            return (b + [b[n - 1]] * w)[:w]
        if k in ("and", "or", "xor"):
            a, b = self.of(t[1], w), self.of(t[2], w)
            return [self.op(k, x, y) for x, y in zip(a, b)]
        if k == "shl" and isc(t[2]):
            n, bits = t[2][1], t[3]
            b = ([ZB] * n + self.of(t[1], max(bits - n, 1)))[:bits]
            r = trange(atype.get(t))
            ext = b[bits - 1] if r and r[0] < 0 else ZB
            return (b + [ext] * w)[:w]
        if k == "shr" and isc(t[2]):
            n = t[2][1]
            if n + w <= MAXW * 2:
                return self.of(t[1], n + w)[n:]
        if k == "bswap":
            n = t[2]
            b = self.of(t[1], n)
            o = []
            for i in range(n // 8):
                j = n // 8 - 1 - i
                o += b[j * 8:j * 8 + 8]
            r = trange(atype.get(t))
            ext = o[n - 1] if r and r[0] < 0 else ZB
            return (o + [ext] * w)[:w]
        if k in ("rotl", "rotr") and isc(t[2]):
            n = t[3]
            b = self.of(t[1], n)
            s = t[2][1] % n
            if k == "rotl":
                s = n - s
            o = b[s:] + b[:s]
            r = trange(atype.get(t))
            ext = o[n - 1] if r and r[0] < 0 else ZB
            return (o + [ext] * w)[:w]
        if k == "frombytes":
            o = []
            src = t[1]
            n = t[2]
            idx = range(n) if t[3] == "little" else range(n - 1, -1, -1)
            for i in idx:
                e = self.elem(src, i)
                if e is None:
                    return self.opaque(t, w)
                o += self.of(e, 8)
            r = trange(atype.get(t))
            ext = o[-1] if r and r[0] < 0 else ZB
            return (o + [ext] * w)[:w]
        if k == "idx" and t[1][0] == "tobytes" and isc(t[2]):
            v = t[1]
            i = t[2][1]
            if v[3] == "big":
                i = v[2] - 1 - i
            return (self.of(v[1], i * 8 + 8)[i * 8:] + [ZB] * w)[:w]
        if k == "byteof":
            i = t[2]
            return (self.of(t[1], i * 8 + 8)[i * 8:] + [ZB] * w)[:w]
        if k == "div" and isc(t[2]) and t[2][1] > 0 and t[2][1] & (t[2][1] - 1) == 0 and nonneg(t[1]):
            n = t[2][1].bit_length() - 1
            return self.of(t[1], n + w)[n:]
        if k == "rem" and isc(t[2]) and t[2][1] > 0 and t[2][1] & (t[2][1] - 1) == 0 and nonneg(t[1]):
            n = t[2][1].bit_length() - 1
            return (self.of(t[1], n) + [ZB] * w)[:w]
        return self.opaque(t, w)

    def elem(self, src, i):
        if src[0] == "agg" and src[1] == "array" and i < len(src[3]):
            return src[3][i]
        if src[0] == "bytes":
            return C(src[1][i])
        if src[0] == "tobytes":
            j = i if src[3] == "little" else src[2] - 1 - i
            return ("byteof", src[1], j)
        return ("idx", src, C(i))

    def op(self, k, x, y):
        if k == "xor":
            return x ^ y
        if k == "and":
            if x == ZB or y == ZB:
                return ZB
            if x == OB:
                return y
            if y == OB or x == y:
                return x
        else:
            if x == OB or y == OB:
                return OB
            if x == ZB:
                return y
            if y == ZB or x == y:
                return x
        a, b = sorted((x, y), key=lambda s: sorted(map(repr, s)))
        return frozenset([("?", (k, a, b))])

    def linear(self, t, w):
        c, p = t[1], t[2]
        if len(p) == 1 and p[0][1] == -1:
            a = p[0][0]
            b = self.of(a, w)
            if c == -1:
                return [x ^ OB for x in b]
            if c > 0 and (c & (c + 1)) == 0 and trange(atype.get(a)) == (0, c):
                n = c.bit_length()
                return ([x ^ OB for x in b[:n]] + [ZB] * w)[:w]
            if c == 0 and all(x == ZB for x in b[1:]):
                return [b[0]] * w
        terms = []
        if c:
            if c < 0:
                return self.opaque(t, w)
            terms.append(self.of(C(c), w))
        for a, k in p:
            if k <= 0:
                return self.opaque(t, w)
            base = self.of(a, w)
            i = 0
            # a multiple is a sum of shifted copies
            while k:
                if k & 1:
                    terms.append(([ZB] * i + base)[:w])
                k >>= 1
                i += 1
        out = [ZB] * w
        for b in terms:
            for i in range(w):
                if b[i] == ZB:
                    continue
                if out[i] == ZB:
                    out[i] = b[i]
                else:
                    return self.opaque(t, w)
        return out

    def minmax(self, t, w=136):
        b = self.of(t, w)
        lo = sum(1 << i for i, x in enumerate(b) if x == OB)
        hi = sum(1 << i for i, x in enumerate(b) if x != ZB)
        return lo, hi

    def eq0(self, f):
        pos, neg = self.split(f)
        x, y = self.of(pos, 136), self.of(neg, 136)
        same = True
        for a, b in zip(x, y):
            if a != b:
                same = False
                if a ^ b == OB:
                    return False
        return True if same else None

    def ge0(self, f):
        pos, neg = self.split(f)
        if not (nonneg_t(pos) and nonneg_t(neg)):
            return None
        l1, h1 = self.minmax(pos)
        l2, h2 = self.minmax(neg)
        if l1 >= h2:
            return True
        if h1 < l2:
            return False
        return None


def nonneg_t(t):
    c, p = parts(t)
    return c >= 0 and all(k > 0 and nonneg(a) for a, k in p)


_cache = {}


def of_state(st):
    k = (st.lin.facts, st.lin.dis)
    b = _cache.get(k)
    if b is None:
        if len(_cache) > 20000:
            _cache.clear()
        b = Bits(st.lin)
        _cache[k] = b
    return b
