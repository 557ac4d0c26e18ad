"""What the types of the standard library are to a codec: smart pointers have
a value, owned strings have what they were made of, collections are lists."""
from absint import *
import models as M

UNITV = UNIT


def lst(*xs):
    return ("agg", "array", 0, tuple(xs))


def through(I, st, a, t):
    """(reference, value) behind references"""
    while True:
        if a[0] == "ref":
            v = I.load(st, a[1], a[2])
        elif ("D", a) in st.mem:
            v = st.mem[("D", a)]
        else:
            return a, None, t
        if t and t[0] == "ref" and t[1][0] == "ref":
            a, t = v, t[1]
            continue
        return a, v, t


def view(I, c, st):
    """a reference to what an owner owns"""
    a, v, t = through(I, st, c.args[0], c.tys[0])
    if v is not None and v[0] == "unsz":
        return M.ret(st, v)
    if v is None or v[0] != "agg":
        return None
    if v[1] == "owned":
        return M.ret(st, v[3][0])
    if v[1] == "boxed":
        r, p = (a[1], a[2]) if a[0] == "ref" else (("D", a), ())
        o = ("ref", r, p + (("f", None, 0),), False)
        if c.rty and c.rty[0] == "ref":
            I.term_types.setdefault(o, c.rty)
        return M.ret(st, o)
    if v[1] == "array":
        if a[0] != "ref":
            a = ("ref", ("D", a), (), False, ())
            if t and t[0] == "ref":
                I.root_types.setdefault(a[1], t[1])
        r = ("unsz", a, C(len(v[3])))
        if c.rty and c.rty[0] == "ref":
            I.term_types.setdefault(r, c.rty)
        return M.ret(st, r)
    return None


def box(I, c, st):
    return M.ret(st, ("agg", "boxed", 0, (c.args[0],)))


def same_thing(I, c, st):
    return M.ret(st, c.args[0])


def own(I, c, st):
    return M.ret(st, ("agg", "owned", 0, (c.args[0],)))


def tag(name, ty):
    """another view of the same contents"""
    def f(I, c, st):
        v = (name, c.args[0])
        I.term_types.setdefault(v, ("ref", ty, False))
        return M.ret(st, v)
    return f


def untag(name, wrap=lambda v: v, other=None):
    def f(I, c, st):
        a = c.args[0]
        if a[0] == "agg" and a[1] == "owned":
            a = a[3][0]
            if a[0] == name:
                return M.ret(st, wrap(("agg", "owned", 0, (a[1],))))
        elif a[0] == name:
            return M.ret(st, wrap(a[1]))
        return other(I, c, st) if other else None
    return f


def not_terminated(I, c, st):
    # bytes which are not known to be those of a C string might not be
    t = I.settype(("cstr_of", c.args[0]), ("ref", ("adt", "core::ffi::c_str::CStr", ()), False))
    s = st.copy()
    return [(st, M.ok(t)), (s, M.err(("unterminated",)))]


def from_any(I, c, st):
    """conversions between owners of the same thing"""
    a = c.args[0]
    if a[0] == "agg" and a[1] in ("owned", "boxed", "array"):
        d = c.rty
        if d and d[0] == "adt" and "VecDeque" in d[1]:
            return M.ret(st, ("agg", "deque", 0, (a, lst())))
        if d and (d[0] != "adt" or d[1].startswith(("core::result", "core::option", "core::net"))):
            return None
        return M.ret(st, a)
    t = c.tys[0]
    d = c.rty
    if d and d[0] == "adt" and (a[0] == "agg" and a[1] == d[1] or t == d):
        return M.ret(st, a)
    if d and d[0] == "adt" and d[1] in OWNERS and t and t[0] == "ref":
        return own(I, c, st)
    return None


OWNERS = ("alloc::boxed::Box", "alloc::rcs::arc::Arc", "alloc::rcs::rc::Rc", "alloc::string::String")


def dq(I, st, r):
    a, v, t = through(I, st, r, None)
    if v is not None and v[0] == "agg" and v[1] == "deque":
        return a, v
    return None, None


def dq_len(I, c, st):
    a, v = dq(I, st, c.args[0])
    return None if v is None else M.ret(st, C(len(v[3][0][3]) + len(v[3][1][3])))


def dq_slices(I, c, st):
    a, v = dq(I, st, c.args[0])
    if v is None:
        return None
    r, p = (a[1], a[2]) if a[0] == "ref" else (("D", a), ())
    out = []
    for k in (0, 1):
        s = ("unsz", ("ref", r, p + (("f", None, k),), False), C(len(v[3][k][3])))
        if c.rty and c.rty[0] == "tuple":
            I.term_types.setdefault(s, c.rty[1][k])
        out.append(s)
    return M.ret(st, ("agg", "tuple", 0, tuple(out)))


def unit_agg(n):
    def f(I, c, st):
        return M.ret(st, ("agg", n, 0, ()))
    return f


def to_vec(I, c, st):
    a = c.args[0]
    if a[0] == "unsz":
        if a[1][0] == "ref" and isc(a[2]) and a[2][1] <= 64:
            return M.ret(st, lst(*[I.load(st, a[1][1], a[1][2] + (("i", C(i)),)) for i in range(a[2][1])]))
        return None
    t = c.tys[0] or I.ty_of(a)
    if t and t[0] == "ref" and t[1] == ("slice", ("uint", "u8")):
        return own(I, c, st)
    return None


U8S = ("slice", ("uint", "u8"))


def models(codec):
    m = {}
    for n, p in (("alloc::boxed::Box", "alloc::boxed::Box::<T>::"), ("alloc::rcs::rc::Rc", "alloc::rcs::rc::Rc::<T>::"), ("alloc::rcs::arc::Arc", "alloc::rcs::arc::Arc::<T>::")):
        m[p + "new"] = box
        for q in ("<%s<T, A> as core::convert::AsRef<T>>::as_ref", "<%s<T, A> as core::ops::deref::Deref>::deref"):
            m[q % n] = view
    asref = codec["core::convert::AsRef::as_ref"]

    def as_ref(I, c, st):
        r = view(I, c, st)
        return r if r is not None else asref(I, c, st)
    m["core::convert::AsRef::as_ref"] = as_ref
    m["core::ops::deref::Deref::deref"] = view
    m["core::borrow::Borrow::borrow"] = view
    frm = codec["core::convert::From::from"]

    def from_(I, c, st):
        r = from_any(I, c, st)
        return r if r is not None else frm(I, c, st)
    m["core::convert::From::from"] = from_
    m["core::convert::Into::into"] = from_any
    m["alloc::slice::<impl [T]>::to_vec"] = to_vec
    # C strings
    for p in ("core::ffi::c_str::CStr::", "alloc::ffi::c_str::CString::"):
        for k, f in (("to_bytes_with_nul", tag("nulbytes", U8S)), ("as_bytes_with_nul", tag("nulbytes", U8S)), ("to_bytes", tag("cbytes", U8S)), ("as_bytes", tag("cbytes", U8S))):
            m[p + k] = f if p.startswith("core") else through_view(f)
    m["core::ffi::c_str::CStr::from_bytes_with_nul"] = untag("nulbytes", M.ok, not_terminated)
    m["alloc::ffi::c_str::CString::from_vec_with_nul"] = untag("nulbytes", M.ok, not_terminated)
    m["alloc::ffi::c_str::CString::as_c_str"] = view
    m["alloc::ffi::c_str::<impl alloc::borrow::ToOwned for core::ffi::c_str::CStr>::to_owned"] = own
    # platform strings
    m["<std::ffi::os_str::OsStr as std::os::unix::ffi::os_str::OsStrExt>::as_bytes"] = tag("osbytes", U8S)
    m["std::os::unix::ffi::os_str::OsStrExt::as_bytes"] = tag("osbytes", U8S)
    m["<std::ffi::os_str::OsString as std::os::unix::ffi::os_str::OsStringExt>::from_vec"] = untag("osbytes")
    m["std::os::unix::ffi::os_str::OsStringExt::from_vec"] = untag("osbytes")
    m["std::ffi::os_str::OsString::as_os_str"] = view
    m["std::path::PathBuf::as_path"] = view
    m["std::path::Path::as_os_str"] = same_thing
    # collections
    for p, ins in (("alloc::collections::btree::map::BTreeMap::<K, V%s>::", "l_insert2"), ("alloc::collections::btree::set::BTreeSet::<T%s>::", "l_insert1"),
                   ("alloc::collections::binary_heap::BinaryHeap::<T%s>::", "l_push"), ("std::collections::hash::map::HashMap::<K, V, S%s>::", "l_insert2"),
                   ("std::collections::hash::set::HashSet::<T, S%s>::", "l_insert1"), ("alloc::collections::vec_deque::VecDeque::<T%s>::", None)):
        for a in ("", ", A"):
            q = p % a
            for k in ("new", "with_capacity", "with_capacity_and_hasher", "with_hasher", "with_capacity_in", "new_in"):
                m[q + k] = codec["alloc::vec::Vec::<T>::new"]
            if ins is None:
                m[q + "len"] = dq_len
                m[q + "as_slices"] = dq_slices
                continue
            m[q + ("push" if ins == "l_push" else "insert")] = codec[ins]
            m[q + "len"] = codec["alloc::vec::Vec::<T, A>::len"]
    m["<std::hash::random::RandomState as core::default::Default>::default"] = unit_agg("state")
    # what is displayed can be parsed again, as the same type
    def display(I, c, st):
        t = c.tys[1]
        a = c.args[1]
        if a[0] == "ref":
            v = I.load(st, a[1], a[2])
        else:
            v = st.mem.get(("D", a)) or ("deref", a)
        if t and t[0] == "ref":
            I.term_types.setdefault(v, t[1])
        s = ("display", v, t[1] if t and t[0] == "ref" else t)
        I.term_types.setdefault(s, ("ref", ("str",), False))
        return [(st, M.ok(("agg", "owned", 0, (s,))))]
    m["musli_core::alloc::string::collect_string"] = display

    def from_str(I, c, st):
        s = c.args[0]
        t = c.rty[2][0] if c.rty and c.rty[0] == "adt" and c.rty[2] else None
        if s[0] == "display" and s[2] == t and t is not None:
            return M.ret(st, M.ok(s[1]))
        return [(st.copy(), M.ok(("parsed", s))), (st, M.err(("unparsed", s)))]
    m["core::str::traits::FromStr::from_str"] = from_str
    dflt = codec["core::default::Default::default"]

    def default(I, c, st):
        if c.rty and c.rty[0] == "adt" and c.rty[1] == "std::hash::random::RandomState":
            return M.ret(st, ("agg", "state", 0, ()))
        return dflt(I, c, st)
    m["core::default::Default::default"] = default

    def once(I, c, st):
        # the conversion of an error which the context gives
        if c.args[0][0] == "ev" and c.args[0][1] == "map":
            return M.ret(st, ("ctxerr", c.args[1]))
        return None
    m["core::ops::function::FnOnce::call_once"] = once
    return m


def through_view(f):
    def g(I, c, st):
        r = view(I, c, st)
        if r is None:
            return None
        c.args = [r[0][1]] + list(c.args[1:])
        return f(I, c, st)
    return g
