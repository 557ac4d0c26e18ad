"""what may panic, in the functions of the library"""
import os
from common import *

DEBUG = os.environ.get("VERIF_DEBUG")


def ours(f):
    return bool(f and f.span) and "/repo/crates/" in str(f.span)


DIRECT = ("core::option::", "core::result::", "core::slice::index::", "core::str::traits::", "core::ops::index::", "core::slice::<impl [T]>::")


class Sites:
    """what may panic"""

    def __init__(self, I, db):
        self.I, self.db = I, db
        self.bad = {}
        self.seen = set()
        I.on_assert = self.check
        I.on_panic = self.panic

    def site(self, fr):
        """the function of the library this is in, or is called from"""
        if fr is None:
            return None
        if ours(fr.fn):
            return fr.fn.d
        for h in reversed(fr.stack):
            f = self.db.get(h)
            if f is None:
                return None
            if ours(f):
                return f.d
            if not f.d.startswith(DIRECT):
                return None
        return None

    def check(self, fr, b, t, s, proved):
        w = self.site(fr)
        if w is None:
            return
        kind = t[3][0] + (" " + t[3][1] if t[3][0] == "overflow" else "") if t[0] == "assert" else "std " + t[2]
        k = (w, kind)
        self.seen.add(k + (b,))
        if not proved and DEBUG:
            print("NOT PROVED", w, t[3], t[-1], self.I.operand(fr, s, t[1]) if t[0] == "assert" else t[4], [f for f in s.lin.facts][:14])
        if not proved:
            self.note(k, s)

    def note(self, k, s):
        """prefers what is known exactly"""
        if k not in self.bad or not known(self.bad[k], ()) and known(s, ()):
            self.bad[k] = s

    def panic(self, c, st):
        w = self.site(c.frame)
        if w is None or c.path == "alloc::alloc::handle_alloc_error":
            return
        k = (w, "panic")
        self.seen.add(k + (c.block,))
        self.note(k, st)

    def report(self, rep, who, out=()):
        for k in sorted({x[:2] for x in self.seen}):
            s = self.bad.get(k)
            if s is not None and any(k[1].startswith(n) and p in k[0] for n, p in out):
                continue
            rep.ob("panic", s is None, "%s: %s" % k, "%s: %s may panic (from %s)" % (k[0], k[1], who), exact=s is None or known(s, ()))


def known(s, vs):
    """nothing of this path is an unknown of the analysis itself, which is not one of the program"""
    return not any(unknown(f) for f in s.lin.facts) and not any(unknown(v) for v in vs)


def unknown(v):
    return isinstance(v, tuple) and (bool(v) and (v[0] in ("hav", "phi", "clob") or v[:2] == ("ev", "next")) or any(unknown(x) for x in v))
