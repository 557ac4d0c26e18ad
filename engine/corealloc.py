"""The containers of musli_core::alloc as the things they contain.

An allocation which fails is not followed: what happens then is not decided
here. A vector is the list of its elements, or a copy of something which is
not known; a string is what it was made from; a box is what is in it."""
from absint import *
import models as M
import codec as K
import stdlib
import tape as T

STRREF = ("ref", ("str",), False)
CV = "musli_core::alloc::vec::Vec::<T, A>::"
CS = "musli_core::alloc::string::String::<A>::"
CB = "musli_core::alloc::boxed::Box::<T, A>::"


def vec_new(I, c, st):
    return M.ret(st, ("agg", "array", 0, ()))


def vec_with_capacity(I, c, st):
    return M.ret(st, M.ok(("agg", "array", 0, ())))


def vec_push(I, c, st):
    r = K.l_push(I, c, st)
    return None if r is None else [(s, M.ok(UNIT)) for s, _ in r]


def vec_extend(I, c, st):
    v = K.settable(I, st, c.args[0])
    s = c.args[1]
    if v is None:
        return None
    if s[0] == "unsz" and s[1][0] == "ref" and isc(s[2]) and s[2][1] <= 64:
        es = tuple(I.load(st, s[1][1], s[1][2] + (("i", C(i)),)) for i in range(s[2][1]))
        K.setlist(I, st, c.args[0], ("agg", "array", 0, v[3] + es))
        return M.ret(st, M.ok(UNIT))
    if v[3]:
        return None
    # all of it is a copy of what is not known
    K.setlist(I, st, c.args[0], ("agg", "owned", 0, (s,)))
    return M.ret(st, M.ok(UNIT))


def slice_reader(I, c, st):
    """a reader of what was written to a buffer"""
    a = c.args[0]
    if a[0] == "ref":
        a = I.load(st, a[1], a[2])
    if a[0] not in ("tapebuf", "tapeslice"):
        return None
    v = ("tclone", c.ctx, c.block, len(st.trace))
    T.put(st, a[1], ("T", v))
    return M.ret(st, v)


def vec_len(I, c, st):
    if T.buffer(I, st, c.args[0]) is not None:
        return T.buf_len(I, c, st)
    r = vec_slice(I, c, st)
    return None if r is None else [(s, I.slen(v)) for s, v in r]


def vec_is_empty(I, c, st):
    r = vec_slice(I, c, st)
    return None if r is None else [(s, ("eq0", I.slen(v))) for s, v in r]


def string_new(I, c, st):
    return M.ret(st, ("agg", "owned", 0, (I.settype(("bytes_ref", b""), STRREF),)))


def string_push(I, c, st):
    r, s = c.args[0], c.args[1]
    v = I.load(st, r[1], r[2]) if r[0] == "ref" else st.mem.get(("D", r))
    if v is None or v[0] != "agg" or v[1] != "owned" or v[3][0][0] != "bytes_ref":
        return None
    if v[3][0][1]:
        if s[0] != "bytes_ref":
            return None
        s = I.settype(("bytes_ref", v[3][0][1] + s[1]), STRREF)
    K.setlist(I, st, r, ("agg", "owned", 0, (s,)))
    return M.ret(st, M.ok(UNIT))


def string_into_std(I, c, st):
    a = c.args[0]
    return [(st.copy(), M.ok(a)), (st, M.err(a))]


def box_new(I, c, st):
    return M.ret(st, M.ok(("agg", "boxed", 0, (c.args[0],))))


def whole(es):
    """the bytes which were written, if these are all of them"""
    if len(es) == 2 and all(e[0] == "byteat" and e[1] == es[0][1] and e[2] == i for i, e in enumerate(es)):
        return es[0][1]
    return None


def os_from_vec(I, c, st):
    import stdlib
    a = c.args[0]
    w = whole(a[3]) if a[0] == "agg" and a[1] == "array" else None
    if w is not None:
        c.args[0] = ("agg", "owned", 0, (w,))
    return stdlib.untag("osbytes")(I, c, st)


def vec_slice(I, c, st):
    b = T.buffer(I, st, c.args[0])
    if b is not None:
        return M.ret(st, ("tapeslice", I.load(st, b[1], b[2])[1]))
    r = K.owned_view(I, c, st)
    if r is not None:
        return r
    v = K.settable(I, st, c.args[0])
    if v is None:
        return None
    w = whole(v[3])
    if w is not None:
        return M.ret(st, w)
    return K.l_slice(I, c, st)


def into_std(I, c, st):
    """it depends on the allocator"""
    a = c.args[0]
    if a[0] != "agg" or a[1] != "array":
        return None
    w = whole(a[3])
    o = a if w is None else ("agg", "owned", 0, (w,))
    return [(st.copy(), M.ok(o)), (st, M.err(a))]


def deref(I, c, st):
    v = K.settable(I, st, c.args[0])
    w = whole(v[3]) if v is not None else None
    if w is not None:
        return M.ret(st, w)
    return K.CODEC["core::ops::deref::Deref::deref"](I, c, st)


def iter_rest(I, c, st):
    """the slice which an iterator has left"""
    r = c.args[0]
    v = I.load(st, r[1], r[2]) if r[0] == "ref" else st.mem.get(("D", r))
    if v is None or v[0] != "agg" or v[1] != "listiter":
        return None
    es = v[3][0][3]
    vs = []
    for e in es:
        if e[0] != "ref":
            return None
        vs.append(I.load(st, e[1], e[2]))
    p = I.fresh(("rest", len(st.trace)), None)
    st.mem[("D", p)] = ("agg", "array", 0, tuple(vs))
    return M.ret(st, ("unsz", ("ref", ("D", p), (), False, ()), C(len(vs))))


def models(codec):
    m = {
        "core::ops::deref::Deref::deref": deref,
        "<std::ffi::os_str::OsString as std::os::unix::ffi::os_str::OsStringExt>::from_vec": os_from_vec,
        "std::os::unix::ffi::os_str::OsStringExt::from_vec": os_from_vec,
        "musli::reader::SliceReader::<'de>::new": slice_reader,
        CV + "new_in": vec_new,
        CV + "with_capacity_in": vec_with_capacity,
        CV + "push": vec_push,
        CV + "extend_from_slice": vec_extend,
        CV + "len": vec_len,
        CV + "is_empty": vec_is_empty,
        CV + "as_slice": vec_slice,
        CV + "into_std": into_std,
        "<musli_core::alloc::vec::Vec<T, A> as core::ops::deref::Deref>::deref": vec_slice,
        "<musli_core::alloc::vec::Vec<T, A> as core::ops::deref::DerefMut>::deref_mut": K.l_slice,
        "<musli_core::alloc::vec::Vec<T, A> as core::convert::AsRef<[T]>>::as_ref": vec_slice,
        CV + "as_slice_mut": K.l_slice,
        "core::slice::iter::Iter::<'a, T>::as_slice": iter_rest,
        CS + "new_in": string_new,
        CS + "push_str": string_push,
        CS + "into_std": string_into_std,
        CS + "as_str": K.owned_view,
        "<musli_core::alloc::string::String<A> as core::ops::deref::Deref>::deref": K.owned_view,
        "<musli_core::alloc::string::String<A> as core::convert::AsRef<str>>::as_ref": K.owned_view,
        CB + "new_in": box_new,
        "<musli_core::alloc::boxed::Box<T, A> as core::ops::deref::Deref>::deref": stdlib.view,
        "<musli_core::alloc::boxed::Box<T, A> as core::convert::AsRef<T>>::as_ref": stdlib.view,
    }
    return m
