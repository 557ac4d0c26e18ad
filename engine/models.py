"""What the functions of the standard library do, for those whose bodies are
not analysed directly."""
from lin import *

UNIT = ("agg", "tuple", 0, ())
TRUE, FALSE = C(1), C(0)
RESULT = "core::result::Result"
OPTION = "core::option::Option"
CF = "core::ops::control_flow::ControlFlow"
NONE = ("agg", OPTION, 0, ())
USIZE = ("uint", "usize")
MODELS = {}
TRAIT_MODELS = {}


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


def tmodel(tr, *names):
    def d(f):
        for n in names:
            TRAIT_MODELS[(tr, n)] = f
        return f
    return d


def some(v):
    return ("agg", OPTION, 1, (v,))


def ok(v):
    return ("agg", RESULT, 0, (v,))


def err(v):
    return ("agg", RESULT, 1, (v,))


def ret(st, v):
    return [(st, v)]


# ---- Try
@model("<core::result::Result<T, E> as core::ops::try_trait::Try>::branch")
def _(I, c, st):
    out = []
    for s, i, fs in I.split(st, c.args[0], c.tys[0]):
        if i == 0:
            out.append((s, ("agg", CF, 0, (fs[0],))))
        else:
            out.append((s, ("agg", CF, 1, (("agg", RESULT, 1, (fs[0],)),))))
    return out


@model("<core::option::Option<T> as core::ops::try_trait::Try>::branch")
def _(I, c, st):
    out = []
    for s, i, fs in I.split(st, c.args[0], c.tys[0]):
        if i == 1:
            out.append((s, ("agg", CF, 0, (fs[0],))))
        else:
            out.append((s, ("agg", CF, 1, (NONE,))))
    return out


@model("<core::result::Result<T, F> as core::ops::try_trait::FromResidual<core::result::Result<!, E>>>::from_residual")
def _(I, c, st):
    v = c.args[0]
    e = I.proj(v, ("f", 1, 0))
    # `From` between different error types is a conversion of the error value
    return ret(st, err(e))


@model("<core::option::Option<T> as core::ops::try_trait::FromResidual<core::option::Option<!>>>::from_residual")
def _(I, c, st):
    return ret(st, NONE)


@model("<core::result::Result<T, E> as core::ops::try_trait::Try>::from_output")
def _(I, c, st):
    return ret(st, ok(c.args[0]))


# ---- identity-like conversions
def ident(I, c, st):
    return ret(st, c.args[0])


for n in (
    "core::convert::identity", "<T as core::convert::From<T>>::from",
    "core::mem::manually_drop::ManuallyDrop::<T>::new", "core::mem::manually_drop::ManuallyDrop::<T>::into_inner",
    "core::hint::must_use", "core::hint::black_box",
    "core::ptr::mut_ptr::<impl *mut T>::cast", "core::ptr::const_ptr::<impl *const T>::cast",
    "core::ptr::mut_ptr::<impl *mut T>::cast_const", "core::ptr::const_ptr::<impl *const T>::cast_mut",
    "core::ptr::non_null::NonNull::<T>::as_ptr", "core::ptr::non_null::NonNull::<T>::new_unchecked",
    "core::ptr::non_null::NonNull::<T>::cast", "core::str::<impl str>::as_bytes", "core::str::converts::from_utf8_unchecked",
    "core::ptr::non_null::NonNull::<T>::as_ref", "core::ptr::non_null::NonNull::<T>::as_mut",
    "core::mem::maybe_uninit::MaybeUninit::<T>::as_mut_ptr", "core::mem::maybe_uninit::MaybeUninit::<T>::as_ptr",
    "core::ptr::mut_ptr::<impl *mut T>::as_mut", "core::ptr::non_null::NonNull::<T>::from_mut", "core::ptr::non_null::NonNull::<T>::from_ref",
    "core::array::<impl [T; N]>::as_ref",
    "alloc::string::String::as_bytes", "alloc::string::String::as_str",
):
    MODELS[n] = ident
for n in ("core::ptr::mut_ptr::<impl *mut T>::as_mut",):
    MODELS.pop(n)


@model("<core::mem::manually_drop::ManuallyDrop<T> as core::ops::deref::Deref>::deref",
       "<core::mem::manually_drop::ManuallyDrop<T> as core::ops::deref::DerefMut>::deref_mut")
def _(I, c, st):
    return ret(st, c.args[0])


@tmodel("core::clone::Clone", "clone")
def _(I, c, st):
    v = c.args[0]
    t = c.tys[0]
    if t and t[0] == "ref" and (t[1][0] in ("uint", "int", "bool", "char", "ref", "float", "never", "ptr")
                                or t[1][:2] == ("adt", "core::slice::iter::Iter")):
        r, p, tys = I.deref(v, t[1])
        return ret(st, I.load(st, r, p, tys))
    return None


@model("core::ptr::non_null::NonNull::<T>::dangling", "core::ptr::dangling", "core::ptr::dangling_mut")
def _(I, c, st):
    return ret(st, ("dangling", c.targs))


@model("core::ptr::null", "core::ptr::null_mut")
def _(I, c, st):
    return ret(st, ("nullptr",))


@model("core::ptr::mut_ptr::<impl *mut T>::is_null", "core::ptr::const_ptr::<impl *const T>::is_null")
def _(I, c, st):
    if c.args[0] == ("nullptr",):
        return ret(st, TRUE)
    return ret(st, ("isnull", c.args[0]))


# ---- slices
def slen(I, c, st):
    return ret(st, I.slen(c.args[0]))


for n in ("core::slice::<impl [T]>::len", "core::str::<impl str>::len", "core::ptr::const_ptr::<impl *const [T]>::len",
          "core::ptr::mut_ptr::<impl *mut [T]>::len", "core::ptr::non_null::NonNull::<[T]>::len"):
    MODELS[n] = slen


@model("core::slice::<impl [T]>::is_empty", "core::str::<impl str>::is_empty")
def _(I, c, st):
    return ret(st, I.compare(st, "Eq", I.slen(c.args[0]), ZERO, USIZE))


@model("core::slice::<impl [T]>::as_ptr", "core::slice::<impl [T]>::as_mut_ptr", "core::str::<impl str>::as_ptr",
       "core::array::<impl [T; N]>::as_ptr")
def _(I, c, st):
    t = c.tys[0][1] if c.tys[0] and c.tys[0][0] == "ref" else None
    return ret(st, sptr(c.args[0], size_term(I, t[1] if t and t[0] in ("slice", "array") else t)))


def sptr(s, es=ONE):
    """the pointer to the first element"""
    if s[0] == "raw":
        return s[1]
    if s[0] == "sub":
        p = sptr(s[1], es)
        if isc(s[2]) and s[2][1] == 0:
            return p
        if p[0] == "padd":
            return ("padd", p[1], add(p[2], mathop("mul", s[2], es)))
        return ("padd", p, mathop("mul", s[2], es))
    return ("sptr", s)


@model("core::slice::raw::from_raw_parts", "core::slice::raw::from_raw_parts_mut", "core::ptr::slice_from_raw_parts",
       "core::ptr::slice_from_raw_parts_mut", "core::ptr::non_null::NonNull::<[T]>::slice_from_raw_parts")
def _(I, c, st):
    p, n = c.args
    if p[0] == "sptr" and I.slen(p[1]) == n:
        return ret(st, p[1])
    return ret(st, ("raw", p, n))


def subslice(I, s, a, b):
    if s[0] == "sub":
        return ("sub", s[1], add(s[2], a), add(s[2], b))
    if s[0] == "bytes_ref" and isc(a) and isc(b):
        return ("bytes_ref", s[1][a[1]:b[1]])
    if a == ZERO and b == I.slen(s):
        return s
    return ("sub", s, a, b)


def range_of(I, r, rty, n):
    """(start, end, extra overflow condition)"""
    name = rty[1] if rty and rty[0] == "adt" else None
    f = lambda i: I.proj(r, ("f", None, i), USIZE)
    if name in ("core::ops::range::Range", "core::range::Range"):
        return f(0), f(1)
    if name in ("core::ops::range::RangeTo",):
        return ZERO, f(0)
    if name in ("core::ops::range::RangeFrom",):
        return f(0), n
    if name in ("core::ops::range::RangeFull",):
        return ZERO, n
    if name in ("core::ops::range::RangeInclusive",):
        return f(0), add(f(1), ONE)
    if name in ("core::ops::range::RangeToInclusive",):
        return ZERO, add(f(0), ONE)
    return None


def check(I, c, st, kind, conds):
    """An operation which panics (or is undefined) unless all t >= 0 hold."""
    bad = [t for t in conds if not st.lin.entails(t)]
    if I.on_assert:
        I.on_assert(c.frame, c.block, ("std", kind, c.path, c.site, tuple(conds)), st, not bad)
    for t in conds:
        if not I.assume(st, ("ge0", t) if not isc(t) else (TRUE if t[1] >= 0 else FALSE), True):
            return False
    return True


@model("core::slice::index::<impl core::ops::index::Index<I> for [T]>::index",
       "core::slice::index::<impl core::ops::index::IndexMut<I> for [T]>::index_mut",
       "core::str::traits::<impl core::ops::index::Index<I> for str>::index",
       "core::array::<impl core::ops::index::Index<I> for [T; N]>::index",
       "core::array::<impl core::ops::index::IndexMut<I> for [T; N]>::index_mut",
       "core::slice::<impl [T]>::get_unchecked", "core::slice::<impl [T]>::get_unchecked_mut",
       "core::str::<impl str>::get_unchecked")
def _(I, c, st):
    s, i = c.args
    t = c.tys[0]
    if t and t[0] in ("ref", "ptr") and t[1][0] == "array":
        n = I.const_term(t[1][2])
        s = ("unsz", s, n) if s[0] != "bytes_ref" else s
    n = I.slen(s)
    it = c.tys[1]
    kind = "get_unchecked" if "unchecked" in c.path else "index"
    if it == USIZE:
        if not check(I, c, st, kind, [sub(sub(n, i), ONE)]):
            return []
        return ret(st, elem_ref(I, s, i, c.rty))
    r = range_of(I, i, it, n)
    if r is None:
        return None
    a, b = r
    if not check(I, c, st, kind, [sub(b, a), sub(n, b)]):
        return []
    return ret(st, subslice(I, s, a, b))


def elem_ref(I, s, i, rty):
    et = rty[1] if rty and rty[0] == "ref" else None
    if s[0] == "sub":
        i = add(s[2], i)
        s = s[1]
    root, path, tys = I.deref(s, None)
    return ("ref", root, path + (("i", i),), bool(rty and rty[2]), (tys or (None,) * len(path)) + (et,))


@model("core::slice::<impl [T]>::get", "core::slice::<impl [T]>::get_mut", "core::str::<impl str>::get")
def _(I, c, st):
    s, i = c.args
    n = I.slen(s)
    it = c.tys[1]
    out = []
    if it == USIZE:
        for x, v in I.branch(st, I.compare(st, "Lt", i, n, USIZE)):
            if v:
                rty = c.rty[2][0] if c.rty and c.rty[0] == "adt" else None
                out.append((x, some(elem_ref(I, s, i, rty))))
            else:
                out.append((x, NONE))
        return out
    r = range_of(I, i, it, n)
    if r is None:
        return None
    a, b = r
    for x, v in I.branch(st, I.compare(st, "Le", a, b, USIZE)):
        if not v:
            out.append((x, NONE))
            continue
        for y, w in I.branch(x, I.compare(x, "Le", b, n, USIZE)):
            if not w:
                out.append((y, NONE))
            elif "str>" in c.path:
                out.append((y, some(subslice(I, s, a, b))))
                z = y.copy()
                out.append((z, NONE))
            else:
                out.append((y, some(subslice(I, s, a, b))))
    return out


@model("core::slice::<impl [T]>::split_at", "core::slice::<impl [T]>::split_at_mut",
       "core::slice::<impl [T]>::split_at_unchecked", "core::slice::<impl [T]>::split_at_mut_unchecked", "core::str::<impl str>::split_at")
def _(I, c, st):
    s, m = c.args
    n = I.slen(s)
    if not check(I, c, st, "split_at", [sub(n, m)]):
        return []
    return ret(st, ("agg", "tuple", 0, (subslice(I, s, ZERO, m), subslice(I, s, m, n))))


@model("core::slice::<impl [T]>::split_at_checked", "core::slice::<impl [T]>::split_at_mut_checked")
def _(I, c, st):
    s, m = c.args
    n = I.slen(s)
    out = []
    for x, v in I.branch(st, I.compare(st, "Le", m, n, USIZE)):
        out.append((x, some(("agg", "tuple", 0, (subslice(I, s, ZERO, m), subslice(I, s, m, n)))) if v else NONE))
    return out


@model("core::slice::<impl [T]>::split_first", "core::slice::<impl [T]>::first", "core::slice::<impl [T]>::split_last",
       "core::slice::<impl [T]>::last", "core::slice::<impl [T]>::split_first_mut", "core::slice::<impl [T]>::first_mut",
       "core::slice::<impl [T]>::last_mut", "core::slice::<impl [T]>::split_last_mut")
def _(I, c, st):
    s = c.args[0]
    n = I.slen(s)
    out = []
    name = c.n
    for x, v in I.branch(st, I.compare(st, "Ge", n, ONE, USIZE)):
        if not v:
            out.append((x, NONE))
            continue
        t = c.tys[0][1]
        rty = ("ref", t[1] if t[0] in ("slice", "array") else None, "mut" in name)
        if "first" in name:
            e, rest = elem_ref(I, s, ZERO, rty), subslice(I, s, ONE, n)
        else:
            e, rest = elem_ref(I, s, sub(n, ONE), rty), subslice(I, s, ZERO, sub(n, ONE))
        out.append((x, some(("agg", "tuple", 0, (e, rest)) if name.startswith("split") else e)))
    return out


@model("core::slice::<impl [T]>::copy_from_slice", "core::slice::<impl [T]>::clone_from_slice")
def _(I, c, st):
    d, s = c.args
    a, b = I.slen(d), I.slen(s)
    if not check(I, c, st, "copy_from_slice", [sub(a, b), sub(b, a)]):
        return []
    return store_slice(I, c, st, d, ("copyof", s))


def store_slice(I, c, st, d, v):
    b = d
    whole = True
    while b[0] in ("sub", "unsz"):
        if b[0] == "sub":
            whole = False
        b = b[1]
    if b[0] == "ref":
        old = I.load(st, b[1], b[2])
        n = v if whole else ("part", old, d[2:] if d[0] == "sub" else None, v)
        I.store(st, b[1], b[2], b[4] if len(b) > 4 else None, n)
    else:
        st.mem[("D", b)] = v if whole else ("part", I.load_root(st, ("D", b)), d[2:] if d[0] == "sub" else None, v)
    st.ev("copy", d, v)
    return ret(st, UNIT)


@model("core::array::<impl [T; N]>::as_slice", "core::array::<impl [T; N]>::as_mut_slice")
def _(I, c, st):
    t = c.tys[0][1]
    if c.args[0][0] == "bytes_ref":
        return ret(st, c.args[0])
    return ret(st, ("unsz", c.args[0], I.const_term(t[2])))


# ---- integers
INTS = ["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize"]


def in_range(I, st, t, ty):
    lo, hi = trange(ty)
    return [("ge0", sub(t, C(lo))), ("ge0", sub(C(hi), t))]


def ranged(I, st, t, ty):
    """[(state, in range?)]"""
    return [(s, not v) for s, v in I.branch(st, ("ovf", t, ty))]


def mathop(op, a, b):
    if op == "add":
        return add(a, b)
    if op == "sub":
        return sub(a, b)
    if isc(a):
        return scale(b, a[1])
    if isc(b):
        return scale(a, b[1])
    return ("mul",) + tuple(sorted((a, b), key=tid))


def _ints():
    for n in INTS:
        ty = ("uint" if n[0] == "u" else "int", n)
        p = "core::num::<impl %s>::" % n
        bits = BITS[n]

        def chk(op, ty=ty):
            def f(I, c, st):
                t = mathop(op, c.args[0], c.args[1])
                return [(s, some(t) if v else NONE) for s, v in ranged(I, st, t, ty)]
            return f

        def sat(op, ty=ty):
            def f(I, c, st):
                t = mathop(op, c.args[0], c.args[1])
                lo, hi = trange(ty)
                out = []
                for s, v in ranged(I, st, t, ty):
                    if v:
                        out.append((s, t))
                    else:
                        r = C(lo) if op == "sub" and lo == 0 else C(hi) if lo == 0 else None
                        if r is None:
                            r = C(lo) if s.lin.entails(sub(C(lo - 1), t)) else C(hi)
                        out.append((s, r))
                return out
            return f

        def wrp(op, ty=ty):
            def f(I, c, st):
                return ret(st, I.wrap(st, mathop(op, c.args[0], c.args[1]), ty))
            return f

        def ovf(op, ty=ty):
            def f(I, c, st):
                t = mathop(op, c.args[0], c.args[1])
                out = []
                for s, v in ranged(I, st, t, ty):
                    out.append((s, ("agg", "tuple", 0, (t if v else I.settype(("wrapped", t), ty), FALSE if v else TRUE))))
                return out
            return f

        for op in ("add", "sub", "mul"):
            MODELS[p + "checked_" + op] = chk(op)
            MODELS[p + "saturating_" + op] = sat(op)
            MODELS[p + "wrapping_" + op] = wrp(op)
            MODELS[p + "overflowing_" + op] = ovf(op)
            MODELS[p + "unchecked_" + op] = (lambda op: lambda I, c, st: ret(st, mathop(op, c.args[0], c.args[1])))(op)

        def neg(I, c, st, ty=ty):
            return ret(st, I.wrap(st, scale(c.args[0], -1), ty))
        MODELS[p + "wrapping_neg"] = neg

        def cneg(I, c, st, ty=ty):
            t = scale(c.args[0], -1)
            return [(s, some(t) if v else NONE) for s, v in ranged(I, st, t, ty)]
        MODELS[p + "checked_neg"] = cneg

        def swap(I, c, st, ty=ty, b=bits):
            a = c.args[0]
            if isc(a):
                x = a[1] & ((1 << b) - 1)
                return ret(st, I.cast_int(st, C(int.from_bytes(x.to_bytes(b // 8, "little"), "big")), None, ty))
            if b == 8:
                return ret(st, a)
            if a[0] == "bswap":
                return ret(st, a[1])
            return ret(st, I.settype(("bswap", a, b), ty))
        MODELS[p + "swap_bytes"] = swap
        MODELS[p + "to_be"] = swap
        MODELS[p + "from_be"] = swap
        MODELS[p + "to_le"] = ident
        MODELS[p + "from_le"] = ident

        def tob(order, ty=ty, b=bits):
            def f(I, c, st):
                a = c.args[0]
                if isc(a):
                    x = a[1] & ((1 << b) - 1)
                    return ret(st, ("bytes", x.to_bytes(b // 8, order)))
                return ret(st, ("tobytes", a, b // 8, order))
            return f

        def fromb(order, ty=ty, b=bits):
            def f(I, c, st):
                a = c.args[0]
                if a[0] == "bytes":
                    return ret(st, I.cast_int(st, C(int.from_bytes(a[1], order)), None, ty))
                if a[0] == "tobytes" and a[2] == b // 8:
                    v = a[1]
                    if a[3] != order:
                        v = I.settype(("bswap", v, b), ty)
                    return ret(st, v)
                if a[0] == "agg" and len(a[3]) == b // 8:
                    bs = a[3] if order == "little" else a[3][::-1]
                    if all(isc(x) for x in bs):
                        return ret(st, I.cast_int(st, C(sum((x[1] & 255) << 8 * i for i, x in enumerate(bs))), None, ty))
                    if all(x[0] == "byteof" and x[1] == bs[0][1] and x[2] == i for i, x in enumerate(bs)) and I.ty_of(bs[0][1]) == ty:
                        return ret(st, bs[0][1])
                return ret(st, I.settype(("frombytes", a, b // 8, order), ty))
            return f

        def dceil(I, c, st):
            x, y = c.args
            if isc(x) and isc(y) and y[1] > 0 and x[1] >= 0:
                return ret(st, C(-(-x[1] // y[1])))
            return None
        MODELS[p + "div_ceil"] = dceil
        for s_, o in (("le", "little"), ("be", "big"), ("ne", "little")):
            MODELS[p + "to_%s_bytes" % s_] = tob(o)
            MODELS[p + "from_%s_bytes" % s_] = fromb(o)

        def cnt(k, b=bits):
            def f(I, c, st):
                return ret(st, I.settype((k, b, c.args[0]), ("uint", "u32")))
            return f
        MODELS[p + "count_ones"] = cnt("popcnt")
        MODELS[p + "leading_zeros"] = cnt("clz")
        MODELS[p + "trailing_zeros"] = cnt("ctz")

        def rot(k, b=bits, ty=ty):
            def f(I, c, st):
                if isc(c.args[1]) and c.args[1][1] % b == 0:
                    return ret(st, c.args[0])
                return ret(st, I.settype((k, c.args[0], c.args[1], b), ty))
            return f
        MODELS[p + "rotate_left"] = rot("rotl")
        MODELS[p + "rotate_right"] = rot("rotr")

        def shop(k, b=bits, ty=ty):
            def f(I, c, st):
                return ret(st, I.binop(st, "Shl" if k == "shl" else "Shr", c.args[0], I.wrapbits(st, c.args[1], b), ty))
            return f
        MODELS[p + "wrapping_shl"] = shop("shl")
        MODELS[p + "wrapping_shr"] = shop("shr")

        def chksh(k, b=bits, ty=ty):
            def f(I, c, st):
                out = []
                n = c.args[1]
                for s, v in I.branch(st, I.compare(st, "Lt", n, C(b), ("uint", "u32"))):
                    out.append((s, some(I.binop(s, "Shl" if k == "shl" else "Shr", c.args[0], n, ty)) if v else NONE))
                return out
            return f
        MODELS[p + "checked_shl"] = chksh("shl")
        MODELS[p + "checked_shr"] = chksh("shr")

        def chkdiv(k, ty=ty):
            def f(I, c, st):
                out = []
                for s, v in I.branch(st, I.compare(st, "Eq", c.args[1], ZERO, ty)):
                    out.append((s, NONE if v else some(I.binop(s, k, c.args[0], c.args[1], ty))))
                return out
            return f
        if n[0] == "u":
            MODELS[p + "checked_rem"] = chkdiv("Rem")
            MODELS[p + "checked_div"] = chkdiv("Div")

            def pow2(I, c, st):
                a = c.args[0]
                if isc(a):
                    return ret(st, TRUE if a[1] > 0 and a[1] & (a[1] - 1) == 0 else FALSE)
                return ret(st, ("ispow2", a))
            MODELS[p + "is_power_of_two"] = pow2

            def npow2(I, c, st, ty=ty):
                v = I.settype(("npow2", c.args[0]), ty)
                st.lin = st.lin.with_(sub(v, c.args[0])).with_(sub(v, ONE))
                return ret(st, v)
            MODELS[p + "next_power_of_two"] = npow2
        else:
            def uabs(I, c, st, ty=ty):
                a = c.args[0]
                if st.lin.entails(a):
                    return ret(st, a)
                if st.lin.entails(scale(a, -1)):
                    return ret(st, scale(a, -1))
                return ret(st, I.settype(("abs", a), ("uint", "u" + ty[1][1:])))
            MODELS[p + "unsigned_abs"] = uabs
        for k in ("min", "max"):
            def mm(I, c, st, k=k, ty=ty):
                a, b = c.args
                out = []
                for s, v in I.branch(st, I.compare(st, "Le", a, b, ty)):
                    out.append((s, (a if v else b) if k == "min" else (b if v else a)))
                return out
            MODELS["core::cmp::impls::<impl core::cmp::Ord for %s>::%s" % (n, k)] = mm
        # conversions
        for m in INTS:
            mt = ("uint" if m[0] == "u" else "int", m)

            def tf(I, c, st, ty=ty):
                return [(s, ok(c.args[0]) if v else err(("tryfromint",))) for s, v in ranged(I, st, c.args[0], ty)]
            MODELS["core::convert::num::<impl core::convert::TryFrom<%s> for %s>::try_from" % (m, n)] = tf
            MODELS["core::convert::num::ptr_try_from_impls::<impl core::convert::TryFrom<%s> for %s>::try_from" % (m, n)] = tf
            MODELS["core::convert::num::<impl core::convert::From<%s> for %s>::from" % (m, n)] = ident
    for k in ("min", "max"):
        def mm(I, c, st, k=k):
            t = c.tys[0]
            if not t or t[0] not in ("uint", "int"):
                return None
            a, b = c.args
            return [(s, (a if v else b) if k == "min" else (b if v else a)) for s, v in I.branch(st, I.compare(st, "Le", a, b, t))]
        MODELS["core::cmp::" + k] = mm
        TRAIT_MODELS[("core::cmp::Ord", k)] = mm


def wrapbits(I, st, n, b):
    if isc(n):
        return C(n[1] % b)
    if st.lin.entails(sub(C(b - 1), n)):
        return n
    return ("and", n, C(b - 1))


_ints()


@tmodel("core::convert::TryFrom", "try_from")
def _(I, c, st):
    t = c.targs
    # <T as TryFrom<U>>
    dst = c.rty[2][0] if c.rty and c.rty[0] == "adt" and c.rty[2] else None
    src = c.tys[0]
    if dst and src and dst[0] in ("uint", "int") and src[0] in ("uint", "int"):
        return [(s, ok(c.args[0]) if v else err(("tryfromint",))) for s, v in ranged(I, st, c.args[0], dst)]
    return None


MODELS["<T as core::convert::TryFrom<U>>::try_from"] = TRAIT_MODELS[("core::convert::TryFrom", "try_from")]


@model("<T as core::convert::Into<U>>::into")
def _(I, c, st):
    src, dst = c.tys[0], c.rty
    if src == dst:
        return ret(st, c.args[0])
    if src and dst and src[0] in ("uint", "int", "bool", "char") and dst[0] in ("uint", "int"):
        return ret(st, c.args[0])
    return None


@tmodel("core::convert::From", "from")
def _(I, c, st):
    src, dst = c.tys[0], c.rty
    if src and dst and src[0] in ("uint", "int", "bool", "char") and dst[0] in ("uint", "int"):
        return ret(st, c.args[0])
    if src and src == dst:
        return ret(st, c.args[0])
    return None


# ---- comparisons through references
def cmpm(op):
    def f(I, c, st):
        a, b = c.args
        t = c.tys[0]
        while t and t[0] == "ref" and a is not None:
            u = t[1]
            if u[0] in ("slice", "str"):
                break
            ra = I.deref(a, u)
            rb = I.deref(b, u)
            a = I.load(st, *ra)
            b = I.load(st, *rb)
            I.settype(a, u)
            I.settype(b, u)
            t = u
        if t and t[0] in ("uint", "int", "bool", "char"):
            return ret(st, I.compare(st, op, a, b, t))
        if t and t[0] == "adt" and op in ("Eq", "Ne"):
            ad = I.db.adts.get(t[1])
            if ad and ad["k"] == "enum" and all(not v["fields"] for v in ad["variants"]) and c.h not in I.db.fns:
                r = I.compare(st, "Eq", I.discr(st, a, t), I.discr(st, b, t), ("int", "isize"))
                return ret(st, r if op == "Eq" else I.bnot(r))
        if t and t[0] == "ref" and t[1][0] in ("slice", "str") and op in ("Eq", "Ne"):
            if a[0] == "bytes_ref" and b[0] == "bytes_ref":
                return ret(st, (TRUE if a[1] == b[1] else FALSE) if op == "Eq" else (FALSE if a[1] == b[1] else TRUE))
            x, y = (a, b) if tid(a) <= tid(b) else (b, a)
            out = []
            for s, v in I.branch(st, ("seq", x, y)):
                if v:
                    s.lin = s.lin.with_(sub(I.slen(a), I.slen(b))).with_(sub(I.slen(b), I.slen(a)))
                    if not s.lin.feasible():
                        continue
                out.append((s, (TRUE if v else FALSE) if op == "Eq" else (FALSE if v else TRUE)))
            return out
        return None
    return f


for n, op in (("eq", "Eq"), ("ne", "Ne")):
    TRAIT_MODELS[("core::cmp::PartialEq", n)] = cmpm(op)
    MODELS["core::cmp::impls::<impl core::cmp::PartialEq<&B> for &A>::" + n] = cmpm(op)
    MODELS["core::str::traits::<impl core::cmp::PartialEq for str>::" + n] = cmpm(op)
    MODELS["core::slice::cmp::<impl core::cmp::PartialEq<[U]> for [T]>::" + n] = cmpm(op)
for n, op in (("lt", "Lt"), ("le", "Le"), ("gt", "Gt"), ("ge", "Ge")):
    TRAIT_MODELS[("core::cmp::PartialOrd", n)] = cmpm(op)


# ---- memory
@model("core::mem::replace", "core::cell::Cell::<T>::replace")
def _(I, c, st):
    d, v = c.args
    t = c.tys[0][1] if c.tys[0] else None
    r, p, tys = I.deref(d, t)
    old = I.load(st, r, p, tys)
    I.settype(old, t)
    I.store(st, r, p, tys, v)
    return ret(st, old)


@model("core::mem::swap")
def _(I, c, st):
    a, b = c.args
    t = c.tys[0][1] if c.tys[0] else None
    ra, rb = I.deref(a, t), I.deref(b, t)
    x, y = I.load(st, *ra), I.load(st, *rb)
    I.settype(x, t)
    I.settype(y, t)
    I.store(st, *ra, y)
    I.store(st, *rb, x)
    return ret(st, UNIT)


def default_of(I, t):
    if t is None:
        return None
    if t[0] in ("uint", "int", "bool"):
        return ZERO
    if t[0] == "ref" and t[1][0] in ("slice", "str"):
        return ("bytes_ref", b"")
    if t[0] == "adt" and t[1] == OPTION:
        return NONE
    if t == ("tuple", ()):
        return UNIT
    return None


@model("core::mem::take")
def _(I, c, st):
    t = c.tys[0][1] if c.tys[0] else None
    r, p, tys = I.deref(c.args[0], t)
    old = I.load(st, r, p, tys)
    I.settype(old, t)
    d = default_of(I, t)
    I.store(st, r, p, tys, d if d is not None else ("default", t))
    return ret(st, old)


@model("core::option::Option::<T>::take")
def _(I, c, st):
    t = c.tys[0][1] if c.tys[0] else None
    r, p, tys = I.deref(c.args[0], t)
    old = I.load(st, r, p, tys)
    I.settype(old, t)
    I.store(st, r, p, tys, NONE)
    return ret(st, old)


@model("core::cell::Cell::<T>::get", "core::ptr::read", "core::ptr::read_unaligned", "core::ptr::const_ptr::<impl *const T>::read",
       "core::ptr::mut_ptr::<impl *mut T>::read", "core::ptr::const_ptr::<impl *const T>::read_unaligned",
       "core::ptr::mut_ptr::<impl *mut T>::read_unaligned", "core::ptr::read_volatile", "core::ptr::non_null::NonNull::<T>::read")
def _(I, c, st):
    t = c.tys[0]
    t = t[1] if t and t[0] in ("ref", "ptr") else None
    if t and t[0] == "adt" and t[1].endswith("Cell"):
        t = t[2][0]
    p = c.args[0]
    if "cell" in c.path:
        p = cellp(p)
    r, pa, tys = I.deref(p, t)
    v = I.load(st, r, pa, tys)
    I.settype(v, t)
    return ret(st, v)


def cellp(p):
    return p


@model("core::cell::Cell::<T>::set", "core::ptr::write", "core::ptr::write_unaligned", "core::ptr::mut_ptr::<impl *mut T>::write",
       "core::ptr::mut_ptr::<impl *mut T>::write_unaligned", "core::ptr::non_null::NonNull::<T>::write")
def _(I, c, st):
    t = c.tys[1]
    r, pa, tys = I.deref(c.args[0], t)
    I.store(st, r, pa, tys, c.args[1])
    return ret(st, UNIT)


@model("core::cell::Cell::<T>::new", "core::cell::UnsafeCell::<T>::new", "core::mem::maybe_uninit::MaybeUninit::<T>::new")
def _(I, c, st):
    return ret(st, c.args[0])


@model("core::cell::UnsafeCell::<T>::get", "core::cell::UnsafeCell::<T>::get_mut", "core::cell::UnsafeCell::<T>::raw_get",
       "core::cell::Cell::<T>::as_ptr", "core::cell::Cell::<T>::get_mut")
def _(I, c, st):
    return ret(st, c.args[0])


@model("core::cell::UnsafeCell::<T>::into_inner", "core::cell::Cell::<T>::into_inner")
def _(I, c, st):
    return ret(st, c.args[0])


@model("core::mem::maybe_uninit::MaybeUninit::<T>::uninit")
def _(I, c, st):
    return ret(st, ("uninitv", c.ctx))


@model("core::mem::maybe_uninit::MaybeUninit::<T>::zeroed", "core::mem::zeroed")
def _(I, c, st):
    return ret(st, ("zeroed", c.rty))


@model("core::mem::maybe_uninit::MaybeUninit::<T>::assume_init")
def _(I, c, st):
    return ret(st, c.args[0])


@model("core::mem::size_of", "core::intrinsics::size_of")
def _(I, c, st):
    t = c.targs[0]
    l = I.db.layout.get(t)
    if l and "size" in l:
        return ret(st, C(l["size"]))
    if t[0] in ("uint", "int"):
        return ret(st, C(BITS[t[1]] // 8))
    if t[0] == "adt" and t[1].endswith("PhantomData"):
        return ret(st, ZERO)
    if t[0] == "array":
        k, n = size_term(I, t[1]), I.const_term(t[2])
        if isc(k) and isc(n):
            return ret(st, C(k[1] * n[1]))
    return ret(st, I.settype(("sizeof", t), USIZE))


@model("core::mem::align_of", "core::intrinsics::align_of", "core::intrinsics::min_align_of")
def _(I, c, st):
    t = c.targs[0]
    l = I.db.layout.get(t)
    while t[0] == "array" and not l:
        t = t[1]
        l = I.db.layout.get(t)
    if l and "align" in l:
        return ret(st, C(l["align"]))
    return ret(st, I.settype(("alignof", t), USIZE))


@model("core::mem::size_of_val", "core::intrinsics::size_of_val")
def _(I, c, st):
    t = c.tys[0][1] if c.tys[0] else None
    if t and t[0] == "slice":
        l = size_term(I, t[1])
        n = I.slen(c.args[0])
        if isc(l):
            return ret(st, scale(n, l[1]))
        return ret(st, ("mul",) + tuple(sorted((n, I.settype(("sizeof", t[1]), USIZE)), key=tid)))
    if t and t[0] == "str":
        return ret(st, I.slen(c.args[0]))
    if t:
        l = I.db.layout.get(t)
        if l and "size" in l:
            return ret(st, C(l["size"]))
        return ret(st, I.settype(("sizeof", t), USIZE))
    return None


@model("core::mem::forget", "core::mem::drop")
def _(I, c, st):
    return ret(st, UNIT)


@model("core::intrinsics::offset_of")
def _(I, c, st):
    l = I.db.layout.get(c.targs[0], {})
    a, i = c.args[:2]
    if a == ZERO and isc(i) and i[1] < len(l.get("offs", ())):
        return ret(st, C(l["offs"][i[1]]))
    return ret(st, I.settype(("offset", c.targs[0], a, i), ("uint", "usize")))


@model("core::mem::needs_drop")
def _(I, c, st):
    t = c.targs[0]
    nd = I.db.layout.get(t, {}).get("nd")
    if t[0] == "adt" and t[1].endswith("PhantomData"):
        nd = False
    if nd is not None:
        return ret(st, TRUE if nd else FALSE)
    return ret(st, I.settype(("needsdrop", t), ("bool",)))


@model("core::mem::transmute", "core::intrinsics::transmute", "core::mem::transmute_copy")
def _(I, c, st):
    a = c.targs
    v = c.args[0]
    if "copy" in c.path:
        t = c.tys[0][1]
        v = I.load(st, *I.deref(v, t))
        return ret(st, I.transmute(st, v, t, c.rty))
    return ret(st, I.transmute(st, v, c.tys[0], c.rty))


# ---- pointers: offsets are in bytes
def elem_size(I, t):
    if t is None or t[0] not in ("ptr", "ref"):
        return ONE
    return size_term(I, t[1])


def size_term(I, t):
    if t is None:
        return ONE
    l = I.db.layout.get(t)
    if l and "size" in l and t[0] not in ("slice", "str"):
        return C(l["size"])
    if t[0] in ("uint", "int"):
        return C(BITS[t[1]] // 8)
    if t[0] in ("slice", "str"):
        return size_term(I, t[1]) if t[0] == "slice" else ONE
    if t[0] == "adt" and t[1] == "core::mem::maybe_uninit::MaybeUninit":
        return size_term(I, t[2][0])
    if t[0] == "array":
        return mathop("mul", size_term(I, t[1]), I.const_term(t[2]))
    return I.settype(("sizeof", t), USIZE)


def padd(sign, elem=True, wrapping=False):
    def f(I, c, st):
        n = c.args[1]
        t = c.tys[0]
        if t and t[0] == "adt" and t[1].endswith("NonNull"):
            t = ("ptr", t[2][0], True)
        if elem:
            n = mathop("mul", n, elem_size(I, t))
        if sign < 0:
            n = scale(n, -1)
        if not wrapping or I.unroll and isc(n):
            return ret(st, I.padd(c.args[0], n))
        a = I.addr(I.padd(c.args[0], n))
        out = []
        for s, v in ranged(I, st, a, USIZE):
            if v:
                out.append((s, I.padd(c.args[0], n)))
            else:
                out.append((s, I.padd(c.args[0], add(n, C(-sign * (1 << 64))))))
        return out
    return f


for m in ("mut_ptr::<impl *mut T>", "const_ptr::<impl *const T>", "non_null::NonNull::<T>"):
    q = "core::ptr::%s::" % m
    for n in ("add", "offset"):
        MODELS[q + n] = padd(1)
    MODELS[q + "byte_add"] = padd(1, False)
    MODELS[q + "wrapping_add"] = padd(1, True, True)
    MODELS[q + "wrapping_byte_add"] = padd(1, False, True)
    MODELS[q + "sub"] = padd(-1)
    MODELS[q + "byte_sub"] = padd(-1, False)
    MODELS[q + "wrapping_sub"] = padd(-1, True, True)


@model("core::ptr::mut_ptr::<impl *mut T>::addr", "core::ptr::const_ptr::<impl *const T>::addr", "core::ptr::mut_ptr::<impl *mut T>::expose_provenance", "core::ptr::const_ptr::<impl *const T>::expose_provenance")
def _(I, c, st):
    return ret(st, I.addr(c.args[0]))


def copym(dst, src, unit=False):
    def f(I, c, st):
        d, s, n = c.args[dst], c.args[src], c.args[2]
        t = c.tys[dst]
        what = s
        if s[0] == "sptr" and s[1][0] == "unsz" and s[1][1][0] == "ref" and s[1][1][1][0] == "L":
            # what a local array holds right now
            what = ("cptr", s, I.load(st, s[1][1][1], s[1][1][2]))
        st.ev("rawcopy", d, what, mathop("mul", n, elem_size(I, t)))
        if d[0] == "sptr" or d[0] == "padd":
            b = d
            while b[0] == "padd":
                b = b[1]
            if b[0] == "sptr":
                b = b[1]
            while b[0] in ("sub", "unsz"):
                b = b[1]
            if b[0] == "ref":
                old = I.load(st, b[1], b[2])
                I.store(st, b[1], b[2], b[4] if len(b) > 4 else None, ("raw_part", old, d, s, n))
        elif d[0] == "ref":
            old = I.load(st, d[1], d[2])
            I.store(st, d[1], d[2], d[4] if len(d) > 4 else None, ("copied", s, n))
        return ret(st, UNIT)
    return f


for m in ("mut_ptr::<impl *mut T>", "non_null::NonNull::<T>"):
    for n in ("copy_from", "copy_from_nonoverlapping"):
        MODELS["core::ptr::%s::%s" % (m, n)] = copym(0, 1)
for m in ("mut_ptr::<impl *mut T>", "const_ptr::<impl *const T>", "non_null::NonNull::<T>"):
    for n in ("copy_to", "copy_to_nonoverlapping"):
        MODELS["core::ptr::%s::%s" % (m, n)] = copym(1, 0)
for n in ("core::ptr::copy", "core::ptr::copy_nonoverlapping", "core::intrinsics::copy", "core::intrinsics::copy_nonoverlapping"):
    MODELS[n] = copym(1, 0)


@model("core::ptr::mut_ptr::<impl *mut T>::write_bytes", "core::ptr::write_bytes", "core::intrinsics::write_bytes")
def _(I, c, st):
    d, v, n = c.args
    st.ev("rawfill", d, v, mathop("mul", n, elem_size(I, c.tys[0])))
    return ret(st, UNIT)


# ---- unreachable & friends
@model("core::hint::unreachable_unchecked")
def _(I, c, st):
    if I.on_panic:
        I.on_panic(c, st)
    return []


@model("core::hint::assert_unchecked", "core::ub_checks::check_language_ub", "core::intrinsics::assume")
def _(I, c, st):
    return ret(st, UNIT)


@model("core::intrinsics::likely", "core::intrinsics::unlikely", "core::hint::likely", "core::hint::unlikely")
def _(I, c, st):
    return ret(st, c.args[0])


@model("core::intrinsics::cold_path", "core::hint::cold_path")
def _(I, c, st):
    return ret(st, UNIT)


@model("core::intrinsics::ub_checks", "core::ub_checks::check_library_ub")
def _(I, c, st):
    return ret(st, FALSE)


# ---- bool
@model("core::bool::<impl bool>::then_some")
def _(I, c, st):
    return [(s, some(c.args[1]) if v else NONE) for s, v in I.branch(st, c.args[0])]


# ---- floats
def _floats():
    for n, b in (("f32", 32), ("f64", 64)):
        p = "core::f%d::<impl f%d>::" % (b, b)

        def tb(I, c, st, b=b):
            a = c.args[0]
            if a[0] == "frombits":
                return ret(st, a[1])
            return ret(st, I.settype(("tobits", a), ("uint", "u%d" % b)))

        def fb(I, c, st, n=n):
            a = c.args[0]
            if a[0] == "tobits":
                return ret(st, a[1])
            return ret(st, I.settype(("frombits", a), ("float", n)))
        for q in (p, "core::num::<impl f%d>::" % b, "core::num::f%d::<impl f%d>::" % (b, b)):
            MODELS[q + "to_bits"] = tb
            MODELS[q + "from_bits"] = fb


_floats()


@model("core::num::nonzero::NonZero::<T>::get")
def _(I, c, st):
    v = I.settype(("nzget", c.args[0]), c.rty)
    if c.args[0][0] == "nz":
        return ret(st, c.args[0][1])
    if c.rty and c.rty[0] in ("uint", "int"):
        if c.rty[0] == "uint":
            st.lin = st.lin.with_(sub(v, ONE))
        else:
            st.lin = st.lin.with_ne(v)
    return ret(st, v)


@model("core::num::nonzero::NonZero::<T>::new")
def _(I, c, st):
    out = []
    a = c.args[0]
    if a[0] == "nzget":
        return ret(st, some(a[1]))
    for s, v in I.branch(st, I.compare(st, "Eq", a, ZERO, c.tys[0])):
        out.append((s, NONE if v else some(("nz", a))))
    return out


@model("core::num::nonzero::NonZero::<T>::new_unchecked")
def _(I, c, st):
    a = c.args[0]
    if a[0] == "nzget":
        return ret(st, a[1])
    return ret(st, ("nz", a))


# ---- iterators over slices: opaque but their creation keeps the slice
@model("core::char::methods::<impl char>::from_u32", "core::char::convert::from_u32")
def _(I, c, st):
    a = c.args[0]
    if atype.get(a) == ("char",):
        return ret(st, some(a))
    out = []
    s1 = st.copy()
    out.append((s1, some(I.settype(("char_of", a), ("char",)) if not isc(a) else a)))
    s1.lin = s1.lin.with_(sub(C(0x10FFFF), a))
    if not s1.lin.feasible():
        out = []
    if isc(a) and (a[1] < 0xD800 or 0xE000 <= a[1] <= 0x10FFFF):
        return out
    out.append((st, NONE))
    return out


# ---- operators through their traits
def _optrait():
    for tr, m, op in (("add", "add", "Add"), ("sub", "sub", "Sub"), ("mul", "mul", "Mul"), ("div", "div", "Div"), ("rem", "rem", "Rem"),
                      ("bit", "bitand", "BitAnd"), ("bit", "bitor", "BitOr"), ("bit", "bitxor", "BitXor"), ("bit", "shl", "Shl"), ("bit", "shr", "Shr")):
        name = {"bitand": "BitAnd", "bitor": "BitOr", "bitxor": "BitXor", "shl": "Shl", "shr": "Shr"}.get(m, op)

        def f(I, c, st, op=op):
            t = c.tys[0]
            if t and t[0] in ("uint", "int") and c.tys[1] and c.tys[1][0] in ("uint", "int"):
                b = c.args[1]
                if op in ("Shl", "Shr"):
                    b = wrapbits(I, st, b, BITS[t[1]])
                return ret(st, I.binop(st, op, c.args[0], b, t))
            return None
        for mod in ("arith", "bit"):
            TRAIT_MODELS[("core::ops::%s::%s" % (mod, name), m)] = f

    def neg(I, c, st):
        t = c.tys[0]
        if t and t[0] == "int":
            return ret(st, I.wrap(st, scale(c.args[0], -1), t))
        return None
    TRAIT_MODELS[("core::ops::arith::Neg", "neg")] = neg

    def bnot(I, c, st):
        t = c.tys[0]
        if t and t[0] in ("uint", "int"):
            return ret(st, sub(C((1 << BITS[t[1]]) - 1) if t[0] == "uint" else C(-1), c.args[0]))
        return None
    TRAIT_MODELS[("core::ops::bit::Not", "not")] = bnot


_optrait()


@model("core::ops::range::RangeInclusive::<Idx>::contains", "core::ops::range::Range::<Idx>::contains",
       "core::ops::range::RangeFrom::<Idx>::contains", "core::ops::range::RangeTo::<Idx>::contains",
       "core::ops::range::RangeBounds::contains")
def _(I, c, st):
    """whether a number is in a range"""
    vs = []
    for a in c.args:
        if a[0] == "kref":
            vs.append(a[1])
        elif a[0] == "ref":
            vs.append(I.load(st, a[1], a[2]))
        else:
            vs.append(st.mem.get(("D", a)))
    r, x = vs
    t = c.tys[1][1] if c.tys[1] and c.tys[1][0] == "ref" else None
    if r is None or x is None or r[0] != "agg" or trange(t) is None:
        return None
    n = str(r[1]).rsplit("::", 1)[-1]
    lo, hi, k = {"Range": (0, 1, ONE), "RangeInclusive": (0, 1, ZERO), "RangeFrom": (0, None, ZERO), "RangeTo": (None, 0, ONE)}.get(n, (None,) * 3)
    if k is None or n == "RangeInclusive" and r[3][2] != FALSE:
        return None
    outs = []
    s = st
    if lo is not None:
        bs = list(I.branch(st, ("ge0", sub(x, r[3][lo]))))
        outs += [(t, FALSE) for t, v in bs if not v]
        s = next((t for t, v in bs if v), None)
    if s is not None and hi is not None:
        bs = list(I.branch(s, ("ge0", sub(sub(r[3][hi], k), x))))
        outs += [(t, FALSE) for t, v in bs if not v]
        s = next((t for t, v in bs if v), None)
    if s is not None:
        outs.append((s, TRUE))
    return outs
