"""An abstract tape: what an encoder writes, as a sequence of unknown bytes and
chunks, is what a decoder reads."""
from absint import *
import models as M
import mem as MEM

ROOT = ("T", "tape")


def get(st, root=ROOT):
    return st.mem.get(root, ("tape", ()))[1]


def left(st):
    return [i for i in get(st) if i[0] != "end"]


def put(st, items, root=ROOT):
    st.mem[root] = ("tape", tuple(items))


# ---- cloned readers: a tape of their own from there on
def clone_of(I, st, v):
    for _ in range(8):
        if v[0] == "tclone":
            return v
        if v[0] == "ref":
            v = I.load(st, v[1], v[2])
        elif ("D", v) in st.mem:
            v = st.mem[("D", v)]
        else:
            return None
    return None


def root(I, c, st):
    v = clone_of(I, st, c.args[0])
    return ROOT if v is None else ("T", v)


def try_clone(I, c, st):
    v = ("tclone", c.ctx, c.block, len(st.trace))
    items = get(st, root(I, c, st))
    put(st, items, ("T", v))
    return M.ret(st, M.some(v))


# ---- buffered writers: a tape of their own, held where the writer is
def holds(t, name):
    if isinstance(t, tuple):
        if t and t[0] == "adt" and t[1] == name:
            return True
        return any(holds(x, name) for x in t)
    return False


def buffer(I, st, v):
    """the place of the buffer a writer refers to"""
    for _ in range(8):
        if v[0] == "ref":
            w = I.load(st, v[1], v[2])
            if w[0] == "tapebuf":
                return v
            v = w
        else:
            return None
    return None


def emit(I, c, st, items):
    b = buffer(I, st, c.args[0])
    if b is not None:
        old = I.load(st, b[1], b[2])
        I.store(st, b[1], b[2], b[4] if len(b) > 4 else None, ("tapebuf", old[1] + tuple(items)))
    else:
        put(st, get(st) + tuple(items))


def size(I, st, items):
    n = ZERO
    for it in items:
        if it[0] == "byte":
            n = add(n, ONE)
        elif it[0] == "chunk":
            n = add(n, it[2])
        elif it[0] == "pad":
            n = add(n, C(it[1]))
        elif it[0] == "end":
            break
        else:
            l = I.fresh(("itemlen",) + it[1:], ("uint", "usize"))
            n = add(n, l)
            b = BITS.get(it[2][1]) if it[0] == "cont" else None
            st.lin = st.lin.with_(sub(l, ONE))
            if b:
                st.lin = st.lin.with_(sub(C((b + 6) // 7), l))
    return n


def bufw_new(I, c, st):
    return M.ret(st, ("tapebuf", ()))


def buf_len(I, c, st):
    b = buffer(I, st, c.args[0])
    if b is None:
        return None
    n = size(I, st, I.load(st, b[1], b[2])[1])
    if n[0] == "lin":
        # as an unknown of its own, so that its bits have names
        a = I.fresh(("buflen", n), ("uint", "usize"))
        st.lin = st.lin.with_(sub(a, n)).with_(sub(n, a))
        ub, p = parts(n)
        for it, k in p:
            b = BITS.get(it[2][1]) if it[0] == "itemlen" and len(it) > 2 else None
            ub = None if ub is None or b is None else ub + k * ((b + 6) // 7)
        if ub is not None:
            st.lin = st.lin.with_(sub(C(ub), a))
        n = a
    return M.ret(st, n)


def extend(I, c, st):
    v = c.args[2]
    if v[0] != "tapebuf":
        return None
    emit(I, c, st, v[1])
    return M.ret(st, M.ok(UNIT))


def bufw_inner(I, c, st):
    return M.ret(st, c.args[0])


# ---- limited readers: the rest is behind a marker
LIMIT = "musli::reader::Limit"


def limited(c):
    t = c.tys[0] or (c.targs and c.targs[0])
    return holds(t, LIMIT)


def items_for(I, c, st):
    """what is left for this reader"""
    items = get(st, root(I, c, st))
    if items and items[0][0] == "end":
        if limited(c):
            return ()
        while items and items[0][0] == "end":
            items = items[1:]
        put(st, items, root(I, c, st))
    return items


def limit(I, c, st):
    items = get(st, root(I, c, st))
    n = c.args[1]
    done = []
    rest = items
    while True:
        if st.lin.eq0(sub(size(I, st, done), n)):
            put(st, tuple(done) + (("end",),) + tuple(rest), root(I, c, st))
            return M.ret(st, clone_of(I, st, c.args[0]) or I.fresh(("limit", c.ctx), c.rty))
        if not rest:
            st.ev("underrun", "a limit which is not where anything ends")
            return M.ret(st, I.fresh(("limit", c.ctx), c.rty))
        rest = explode(I, st, rest)
        done.append(rest[0])
        rest = rest[1:]


def limit_remaining(I, c, st):
    items = get(st, root(I, c, st))
    return M.ret(st, size(I, st, items))


def skip(I, c, st):
    """skip(cx, n): whole items"""
    items = items_for(I, c, st)
    n = c.args[2]
    if st.lin.eq0(n):
        return M.ret(st, M.ok(UNIT))
    done = []
    rest = items
    while rest and rest[0][0] != "end":
        rest = explode(I, st, rest)
        done.append(rest[0])
        rest = rest[1:]
        if st.lin.eq0(sub(size(I, st, done), n)):
            put(st, rest, root(I, c, st))
            return M.ret(st, M.ok(UNIT))
    return read_err(I, c, st, "skips to where nothing ends")


def read_err(I, c, st, why):
    st.ev("underrun", why)
    return M.ret(st, M.err(("underrun", why)))


def short(I, c, st, items, why):
    """there is nothing, or something else, where a byte is to be read"""
    if limited(c) and (not items or items[0][0] == "end"):
        # the reader refuses to read past its limit
        return M.ret(st, M.err(("refused", "limit")))
    return read_err(I, c, st, why % (items[0][0],) if items else "read past what was written")


def known(st, items):
    """the first item, of a length which is known by now"""
    if items and items[0][0] == "chunk" and not isc(items[0][2]):
        n = items[0][2]
        for k in range(0, 17):
            if st.lin.eq0(sub(n, C(k))):
                src = items[0][1]
                return tuple(("byte", ("byteat", src, j)) for j in range(k)) + tuple(items[1:])
    return items


def split_chunk(I, st, item, n):
    """(head of n bytes, rest) of a chunk"""
    return None


def write_byte(I, c, st):
    emit(I, c, st, (("byte", c.args[2]),))
    return M.ret(st, M.ok(UNIT))


def write_bytes(I, c, st):
    s = I.snapshot(st, c.args[2])
    n = I.slen(s)
    ms = MEM.items_of(I, st, s, n)
    if ms is not None:
        # a bool is the byte 0 or the byte 1
        outs = [(st, [])]
        for it in ms:
            if it[0] == "bool":
                outs = [(s2, o + [("byte", C(1 if v else 0))]) for s, o in outs for s2, v in I.branch(s, it[1])]
            else:
                for _, o in outs:
                    o.append(it)
        for s, o in outs:
            emit(I, c, s, o)
        return [(s, M.ok(UNIT)) for s, _ in outs]
    if s[0] == "cslice" and isc(n):
        v = s[1]
        if v[0] == "tobytes":
            emit(I, c, st, (("chunk", v, n),))
            return M.ret(st, M.ok(UNIT))
        items = tuple(("byte", I.proj(v, ("i", C(i)), ("uint", "u8"))) for i in range(n[1]))
        emit(I, c, st, items)
    else:
        emit(I, c, st, (("chunk", ("copyof", s), n),))
    return M.ret(st, M.ok(UNIT))


def byte_of(I, st, v, i):
    if v[0] == "tobytes":
        j = i if v[3] == "little" else v[2] - 1 - i
        return I.settype(("byteof", v[1], j), ("uint", "u8"))
    if v[0] == "copyof":
        s = v[1]
        if s[0] == "bytes_ref":
            return C(s[1][i])
        if s[0] == "unsz" and s[1][0] == "ref":
            a = I.load(st, s[1][1], s[1][2])
            return I.proj(a, ("i", C(i)), ("uint", "u8"))
    return None


def explode(I, st, items):
    """the first item as a byte where it is a chunk of known size"""
    it = items[0]
    if it[0] == "chunk" and isc(it[2]):
        bs = [byte_of(I, st, it[1], i) for i in range(it[2][1])]
        if all(b is not None for b in bs):
            return tuple(("byte", b) for b in bs) + items[1:]
    return items


def read_byte(I, c, st):
    items = items_for(I, c, st)
    if not items:
        return short(I, c, st, items, "")
    items = explode(I, st, items)
    if items[0][0] != "byte":
        items = known(st, items)
    if not items or items[0][0] != "byte":
        return short(I, c, st, items, "a byte is read where %s was written")
    put(st, items[1:], root(I, c, st))
    return M.ret(st, M.ok(items[0][1]))


def peek(I, c, st):
    items = items_for(I, c, st)
    if not items:
        return M.ret(st, M.NONE)
    items = explode(I, st, items)
    if items[0][0] != "byte":
        return None
    return M.ret(st, M.some(items[0][1]))


def read_array(I, c, st):
    rt = c.rty[2][0]
    n = I.const_term(rt[2]) if rt[0] == "array" else None
    items = items_for(I, c, st)
    if n is None or not isc(n):
        return None
    if items and items[0][0] == "chunk" and items[0][2] == n and items[0][1][0] == "tobytes":
        put(st, items[1:], root(I, c, st))
        return M.ret(st, M.ok(items[0][1]))
    out = []
    for _ in range(n[1]):
        if items:
            items = explode(I, st, items)
            if items[0][0] != "byte":
                items = known(st, items)
        if not items or items[0][0] != "byte":
            return short(I, c, st, items, "bytes are read where %s was written")
        out.append(items[0][1])
        items = items[1:]
    put(st, items, root(I, c, st))
    return M.ret(st, M.ok(("agg", "array", 0, tuple(out))))


def read_uninit(I, c, st):
    """read_bytes_uninit(cx, ptr, n): into a place of a known type"""
    p, n = c.args[2], c.args[3]
    items = items_for(I, c, st)
    if not isc(n):
        return None
    if limited(c):
        inside = []
        for it in items:
            if it[0] == "end":
                break
            inside.append(it)
        k = size(I, st, inside)
        if isc(k) and k[1] < n[1]:
            return short(I, c, st, (), "")
    off = ZERO
    q = p
    if q[0] == "padd":
        q, off = q[1], q[2]
    if q[0] == "lptr":
        lst, et = I.load(st, q[1][1], q[1][2]), q[2]
        k = MEM.size_of(I, et)
        if lst[0] != "agg" or not k or not isc(off) or off[1] % k or n[1] % k:
            return None
        # what is past the length is not part of it until that is set
        key = ("spare", q[1][1], q[1][2])
        at = off[1] // k
        out = list(lst[3] + st.mem.get(key, ()))
        while len(out) < at:
            out.append(("uninitialized", len(out)))
        rest, out = out[at + n[1] // k:], out[:at]
        for _ in range(n[1] // k):
            r = MEM.assemble(I, st, items, et, explode)
            if r is None:
                return None
            if isinstance(r, str):
                return read_err(I, c, st, r)
            v, items = r
            out.append(v)
        out += rest
        m = len(lst[3])
        I.store(st, q[1][1], q[1][2], None, ("agg", "array", 0, tuple(out[:m])))
        st.mem[key] = tuple(out[m:])
    else:
        t = I.mem_types.get(p)
        if t is None or MEM.size_of(I, t) != n[1] or p[0] != "ref":
            return None
        r = MEM.assemble(I, st, items, t, explode)
        if r is None:
            return None
        if isinstance(r, str):
            return read_err(I, c, st, r)
        v, items = r
        I.store(st, p[1], p[2], None, v)
    put(st, items, root(I, c, st))
    return M.ret(st, M.ok(UNIT))


def list_ptr(I, c, st):
    r = c.args[0]
    t = c.rty[1] if c.rty and c.rty[0] == "ptr" else None
    if r[0] != "ref" or t is None:
        return None
    v = I.load(st, r[1], r[2])
    if v[0] != "agg" or v[1] != "array":
        return None
    return M.ret(st, ("lptr", r, t))


def list_set_len(I, c, st):
    r = c.args[0]
    v = I.load(st, r[1], r[2]) if r[0] == "ref" else ("",)
    if v[0] != "agg" or v[1] != "array":
        return None
    n, key = c.args[1], ("spare", r[1], r[2])
    if not isc(n):
        return None
    out = list(v[3] + st.mem.get(key, ()))
    while len(out) < n[1]:
        out.append(("uninitialized", len(out)))
    I.store(st, r[1], r[2], None, ("agg", "array", 0, tuple(out[:n[1]])))
    st.mem[key] = tuple(out[n[1]:])
    return M.ret(st, UNIT)


def handle(I, c, st):
    """another handle on the same tape"""
    b = buffer(I, st, c.args[0])
    if b is None:
        b = clone_of(I, st, c.args[0])
    if b is not None:
        return M.ret(st, b)
    return M.ret(st, I.fresh(("handle", c.ctx), c.rty))


def is_eof(I, c, st):
    return M.ret(st, C(0 if items_for(I, c, st) else 1))


def finish(I, c, st):
    return M.ret(st, M.ok(UNIT))


W = "musli::writer::Writer::"
R = "musli::reader::Reader::"
MODELS = {
    "musli::writer::BufWriter::<A>::new": bufw_new,
    "musli::writer::BufWriter::<A>::into_inner": bufw_inner,
    "musli_core::alloc::vec::Vec::<T, A>::len": buf_len,
    W + "extend": extend,
    R + "limit": limit,
    R + "skip": skip,
    "musli::reader::Limit::<R>::remaining": limit_remaining,
    W + "write_byte": write_byte,
    W + "write_bytes": write_bytes,
    R + "read_bytes_uninit": read_uninit,
    "core::mem::maybe_uninit::MaybeUninit::<T>::as_mut_ptr": MEM.as_mut_ptr,
    "alloc::vec::Vec::<T, A>::as_mut_ptr": list_ptr,
    "alloc::vec::Vec::<T, A>::set_len": list_set_len,
    R + "read_byte": read_byte,
    R + "read_array": read_array,
    R + "peek": peek,
    R + "is_eof": is_eof,
    R + "try_clone": try_clone,
    R + "borrow_mut": handle,
    W + "borrow_mut": handle,
    "musli::reader::IntoReader::into_reader": handle,
    "musli::writer::IntoWriter::into_writer": handle,
    W + "finish": finish,
}


# The variable length integer codec as a unit: that it gives back the value is
# what I01 decides; here an encoded integer is one item of the tape.
def cont_encode(I, c, st):
    t = c.tys[2]
    n = Call()
    n.args, n.tys = [c.args[1]], [c.tys[1]]
    emit(I, n, st, (("cont", c.args[2], t),))
    return M.ret(st, M.ok(UNIT))


def cont_decode(I, c, st):
    n = Call()
    n.args, n.tys, n.targs = [c.args[1]], [c.tys[1]], None
    items = items_for(I, n, st)
    if not items:
        return read_err(I, c, st, "an integer is read past what was written")
    if items[0][0] != "cont":
        return read_err(I, c, st, "an integer is read where %s was written" % items[0][0])
    v, t = items[0][1], items[0][2]
    put(st, items[1:], root(I, n, st))
    rt = c.rty[2][0]
    if t == rt or BITS[t[1]] <= BITS[rt[1]]:
        return M.ret(st, M.ok(v))
    out = []
    for s, fits in I.branch(st, ("ge0", sub(C((1 << BITS[rt[1]]) - 1), v))):
        if fits:
            out.append((s, M.ok(v)))
        else:
            s.ev("toobig")
            out.append((s, M.err(("toobig",))))
    return out


INTS = dict(MODELS)
INTS["musli::int::continuation::encode"] = cont_encode
INTS["musli::int::continuation::decode"] = cont_decode
