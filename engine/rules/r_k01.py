"""K01: the types of the standard library encode and decode as the same thing."""
from agree import *
import r_c01 as P

LEVEL = "proof"
EXPLANATION = (
    "For every type of the standard library with an implementation, in each format, mode and configuration, the abstract output "
    "of its encoder for an unknown value is the input of its decoder; every path of the decoder has to succeed with the value "
    "and leave nothing. Collections are taken by number of elements (0 and 2 or 3), with elements symbolic; owners and "
    "collections of std are modelled by what they contain.")

U = P.U
A = lambda n, *a: ("adt", n, tuple(a))
STRT = ("ref", ("str",), False)
TWO = ("Binary", "Text")
NET = "core::net::ip_addr::"
SOCK = "core::net::socket_addr::"
RAN = "core::ops::range::"
BOX = lambda t: A("alloc::boxed::Box", t, P.G)
ARC = lambda t: A("alloc::rcs::arc::Arc", t, P.G)
RC = lambda t: A("alloc::rcs::rc::Rc", t, P.G)
RS = A("std::hash::random::RandomState")


E = lambda I, i, t: I.fresh(("arg", "e", i), t)
L = K.lst


def boxed(t):
    def mk(I, st, x):
        return ("agg", "boxed", 0, (E(I, 0, t),))
    return mk


def owned(t):
    def mk(I, st, x):
        return ("agg", "owned", 0, (E(I, 0, ("ref", t, False)),))
    return mk


def deque(a, b):
    def mk(I, st, x):
        t = P.U("u16")
        return ("agg", "deque", 0, (L(*[E(I, i, t) for i in range(a)]), L(*[E(I, a + i, t) for i in range(b)])))
    return mk


def pairs(n):
    def mk(I, st, x):
        return L(*[("agg", "tuple", 0, (E(I, 2 * i, P.U("u16")), E(I, 2 * i + 1, ("bool",)))) for i in range(n)])
    return mk


def inclusive(I, st, x):
    # as it is before it was iterated over
    return ("agg", RAN + "RangeInclusive", 0, (E(I, 0, P.U("u32")), E(I, 1, P.U("u32")), C(0)))


def types():
    u32, u16, u8, b = U("u32"), U("u16"), U("u8"), ("bool",)
    b_ = b
    out = []

    def add(n, t, mk=None, dty=None, modes=("Binary",), fmts=("storage", "wire", "descriptive")):
        out.append((n, t, mk, dty, modes, fmts))
    add("Ipv4Addr", A(NET + "Ipv4Addr"), modes=TWO)
    add("Ipv6Addr", A(NET + "Ipv6Addr"), modes=TWO)
    add("IpAddr", A(NET + "IpAddr"), modes=TWO)
    add("SocketAddrV4", A(SOCK + "SocketAddrV4"), modes=TWO)
    add("SocketAddrV6", A(SOCK + "SocketAddrV6"), modes=TWO)
    add("SocketAddr", A(SOCK + "SocketAddr"), modes=TWO)
    add("Range", A(RAN + "Range", u32))
    add("RangeFrom", A(RAN + "RangeFrom", u32))
    add("RangeTo", A(RAN + "RangeTo", u32))
    add("RangeFull", A(RAN + "RangeFull"))
    add("RangeInclusive", A(RAN + "RangeInclusive", u32), inclusive)
    add("RangeToInclusive", A(RAN + "RangeToInclusive", u32))
    add("Wrapping", A("core::num::wrapping::Wrapping", u32))
    add("PhantomData", A("core::marker::PhantomData", u32))
    for t in P.PRIMS[:12]:
        add("NonZero<%s>" % t[1], A("core::num::nonzero::NonZero", t))
    # these can only be decoded
    for t in P.PRIMS[:4]:
        add("%s as an atomic" % t[1], t, None, A("core::sync::atomic::Atomic", t))
    add("bool as an atomic", b, None, A("core::sync::atomic::Atomic", b))
    for n, f in (("Box", BOX), ("Arc", ARC), ("Rc", RC)):
        add("%s<u32>" % n, f(u32), boxed(u32))
        for k, t in (("CStr", A("core::ffi::c_str::CStr")), ("OsStr", A("std::ffi::os_str::OsStr")), ("Path", A("std::path::Path"))):
            add("%s<%s>" % (n, k), f(t), owned(t))
    add("Box<str>", BOX(("str",)), owned(("str",)))
    add("Box<[u16]>/3", BOX(("slice", u16)), P.vec_of(u16, 3))
    for a, b in ((0, 0), (2, 0), (1, 2)):
        add("VecDeque/%d+%d" % (a, b), A("alloc::collections::vec_deque::VecDeque", u16, P.G), deque(a, b))
    for k in (0, 2):
        add("BTreeSet/%d" % k, A("alloc::collections::btree::set::BTreeSet", u16, P.G), P.vec_of(u16, k))
        add("HashSet/%d" % k, A("std::collections::hash::set::HashSet", u16, RS, P.G), P.vec_of(u16, k))
        add("BinaryHeap/%d" % k, A("alloc::collections::binary_heap::BinaryHeap", u16, P.G), P.vec_of(u16, k))
        add("BTreeMap/%d" % k, A("alloc::collections::btree::map::BTreeMap", u16, b_, P.G), pairs(k))
        add("HashMap/%d" % k, A("std::collections::hash::map::HashMap", u16, b_, RS, P.G), pairs(k))
    add("CString", A("alloc::ffi::c_str::CString"), owned(A("core::ffi::c_str::CStr")))
    add("OsString", A("std::ffi::os_str::OsString"), owned(A("std::ffi::os_str::OsStr")))
    add("PathBuf", A("std::path::PathBuf"), owned(A("std::path::Path")))
    return out


def inner(I, s, got, x, xv):
    while True:
        if got[0] == "agg" and len(got[3]) == 1:
            got = got[3][0]
        elif got[0] == "transmute":
            got = got[1]
        else:
            break
    return K.same(I, s, got, xv, I.ty_of(xv))


def case(rep, f, o, m, who, ty, mk, dty):
    fmt = K.Fmt(rep.db, f, o, m)
    if not rep.ob("anchor", fmt.enc is not None and fmt.dec is not None, f, "no Encoding::encode_with"):
        return
    agree(rep, fmt, ty, who, dty, mk, inner if dty else None)


def check(rep):
    jobs = []
    for n, t, mk, dty, modes, fmts in types():
        for f in fmts:
            for o in (P.opt(), P.opt(1, 0, 2, 4)):
                for m in modes:
                    who = "%s in %s %s %s" % (n, m, f, P.label(o))
                    jobs.append((who, case, (f, o, m, who, t, mk, dty)))
    rep.jobs(jobs)
