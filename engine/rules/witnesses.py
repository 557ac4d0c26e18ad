"""pairs of programs: (name, what the second would do, accepted, refused, the error)"""
PAIRS = []


def pair(name, why, text, good, bad, want):
    """text with @ replaced by either"""
    PAIRS.append((name, why, text.replace("@", good, 1), text.replace("@", bad, 1), want))


# ---- allocators
IS = "fn send<T: Send>() {} fn sync<T: Sync>() {}\n"
A = "use musli::alloc::{Allocator, ArrayBuffer, Slice, Vec, Box, String, System};\n"
for ty, n in (("Box<@, System>", "Box"), ("Vec<@, System>", "Vec")):
    pair("send %s" % n, "an allocation is sent to a thread with what must not be", A + IS + "pub fn f() { send::<%s>(); }" % ty, "u32", "std::rc::Rc<u32>", "E0277")
    pair("sync %s" % n, "an allocation is shared with a thread with what must not be", A + IS + "pub fn f() { sync::<%s>(); }" % ty, "u32", "core::cell::Cell<u32>", "E0277")
for n in ("send", "sync"):
    pair("%s slice allocator" % n, "the lists of a slice allocator are used from two threads", A + IS + "pub fn f<'a, 'b: 'a>() { %s::<Box<u32, @>>(); }" % n, "System", "&'a Slice<'b>", "E0277")
pair("shared slice allocator", "the lists of a slice allocator are used from two threads", A + IS + "pub fn f<'a>() { send::<@>(); }", "System", "&'a Slice<'a>", "E0277")
pair("allocator outlives", "an allocation outlives its allocator", A + '''
pub fn f() {
    let mut buf = ArrayBuffer::new();
    let v;
    {
        let alloc = Slice::new(&mut buf);
        let mut w = Vec::<u8, _>::new_in(&alloc);
        w.push(1).unwrap();
        v = @;
    }
    drop(v);
}''', "w.as_slice().len()", "w", "E0597")
pair("buffer outlives", "an allocator outlives its memory", A + '''
pub fn f() {
    let alloc;
    let mut keep = ArrayBuffer::new();
    {
        let mut buf = ArrayBuffer::new();
        alloc = Slice::new(&mut @);
    }
    let mut w = Vec::<u8, _>::new_in(&alloc);
    w.push(1).unwrap();
}''', "keep", "buf", "E0597")
pair("two allocators", "two allocators hand out the same memory", A + '''
pub fn f() {
    let mut buf = ArrayBuffer::new();
    let mut other = ArrayBuffer::new();
    let a = Slice::new(&mut buf);
    let b = Slice::new(&mut @);
    let mut v = Vec::<u8, _>::new_in(&a);
    let mut w = Vec::<u8, _>::new_in(&b);
    v.push(1).unwrap();
    w.push(1).unwrap();
}''', "other", "buf", "E0499")
pair("buffer is borrowed", "memory is written while an allocator hands it out", A + '''
pub fn f() {
    let mut buf = [0u8; 128];
    let mut other = [0u8; 128];
    let a = Slice::new(&mut buf[..]);
    let mut v = Vec::<u8, _>::new_in(&a);
    @[0] = 1;
    v.push(1).unwrap();
}''', "other", "buf", "E0506")
pair("vec grows while read", "elements are read after the allocation moved", A + '''
pub fn f() {
    let mut v = Vec::<u8, _>::new_in(System::new());
    v.push(1).unwrap();
    let x = v.as_slice();
    @;
    drop(x.len());
}''', "let _ = v.len()", "v.push(2).unwrap()", "E0502")
pair("string grows while read", "text is read after the allocation moved", A + '''
pub fn f() {
    let mut v = String::new_in(System::new());
    v.push('a').unwrap();
    let x = v.as_str();
    @;
    drop(x.len());
}''', "let _ = v.len()", "v.push('b').unwrap()", "E0502")
pair("box covariant", "a reference in an allocation outlives what it refers to", A + '''
pub fn f() {
    let keep = 1u32;
    let b;
    {
        let x = 1u32;
        b = Box::new_in(&@, System::new()).unwrap();
    }
    drop(**b);
}''', "keep", "x", "E0597")

# ---- what is decoded borrows from the input
for m in ("storage", "wire", "descriptive", "json"):
    pair("%s borrows" % m, "a decoded reference outlives the input", '''
pub fn f() {
    let keep = std::vec::Vec::<u8>::new();
    let s: &str;
    {
        let v = std::vec::Vec::<u8>::new();
        s = musli::%s::from_slice(&@).unwrap();
    }
    drop(s.len());
}''' % m, "keep", "v", "E0597")
    pair("%s static" % m, "a decoded reference lives for ever", '''
pub fn f(v: &@ [u8]) -> &'static str {
    musli::%s::from_slice(v).unwrap()
}''' % m, "'static", "", "lifetime may not live long enough")
    pair("%s input is written" % m, "the input is written while what was decoded refers to it", '''
pub fn f() {
    let mut v = std::vec![0u8; 8];
    let mut keep = std::vec![0u8; 8];
    let s: &[u8] = musli::%s::from_slice(&v).unwrap();
    @[0] = 1;
    drop(s.len());
}''' % m, "keep", "v", "E0502")
pair("derived borrows", "a decoded structure outlives the input", '''
use musli::{Decode, Encode};
#[derive(Decode, Encode)]
#[musli(crate = musli)]
pub struct S<'de> { name: &'de str }
pub fn f<'a>(v: &@ [u8]) -> S<'a> {
    musli::storage::from_slice(v).unwrap()
}''', "'a", "", "lifetime may not live long enough|explicit lifetime required")
pair("value allocator", "a Value outlives its allocator", A + '''
use musli::value::Value;
pub fn f() {
    let mut buf = ArrayBuffer::new();
    let v;
    let alloc0 = System::new();
    {
        let alloc = Slice::new(&mut buf);
        v = Value::<@>::from(1u32);
        let cx = musli::context::new_in(&alloc);
    }
    drop(v);
}'''.replace("Value::<@>::from(1u32)", "@").replace("let cx = musli::context::new_in(&alloc);", ""),
     "Vec::<Value<System>, _>::new_in(alloc0)", "Vec::<Value<System>, _>::new_in(&alloc)", "E0597")

# ---- readers and writers
pair("reader ends", "a reader outlives its input", '''
use musli::reader::{Reader, SliceReader};
pub fn f() {
    let keep = [0u8; 4];
    let r;
    {
        let v = [0u8; 4];
        r = SliceReader::new(&@);
    }
    drop(r.remaining());
}'''.replace("drop(r.remaining())", "drop(r)"), "keep", "v", "E0597")
pair("mutable reader", "a slice is read twice at once", '''
use musli::reader::Reader;
pub fn f() {
    let v = [0u8; 4];
    let w = [0u8; 4];
    let mut a: &[u8] = &v;
    let mut b: &[u8] = &w;
    let x = a.borrow_mut();
    let y = @.borrow_mut();
    drop(x);
}''', "b", "a", "E0499|E0502")
pair("slice output", "what is encoded is written while the output is read", '''
pub fn f() {
    let mut a = [0u8; 8];
    let mut b = [0u8; 8];
    let x = &a[..];
    musli::storage::to_slice(&mut @, &1u32).unwrap();
    drop(x.len());
}''', "b", "a", "E0502")

# ---- types which may be decoded
pair("decode borrowed str", "a reference to what is not in the input is decoded", '''
pub fn f() -> @ {
    musli::json::from_slice(b"1").unwrap()
}''', "std::string::String", "&'static mut str", "E0277")
D = "use musli::{Decode, Encode};\n"
M = "#[derive(Decode, Encode)]\n#[musli(crate = musli@)]\n"
pair("transparent", "only one of the fields is encoded", D + M.replace("@", ", transparent") + "pub struct S { a: u32@ }", "", ", b: u32", "single field")
pair("packed enum", "the variant is not encoded", D + M + "pub enum E { A { a: u32 }, B { b: u32 } }", "", ", packed", "cannot be")
pair("transparent enum", "the variant is not encoded", D + M + "pub enum E { A { a: u32 }, B { b: u32 } }", "", ", transparent", "cannot be")
pair("untagged tag", "the tag is not encoded", D + M + "pub enum E { A { a: u32 }, B { b: u32 } }", ", untagged", ', untagged, tag = "type"', "cannot use")
pair("struct tag", "the tag is not encoded", D + M + "pub struct S { a: u32 }", "", ', tag = "type"', "only supported on enums")
pair("struct content", "the content is not encoded", D + M + "pub struct S { a: u32 }", "", ', content = "type"', "only supported on enums")
pair("unknown attribute", "an attribute has no effect", D + M + "pub struct S { a: u32 }", ", packed", ", pakced", "")
pair("bound", "a type which cannot be encoded is a field", D + "pub struct N;\n" + M.replace("@", "") + "pub struct S { a: @ }", "u32", "N", "E0277")
pair("bound of a parameter", "a type which cannot be encoded is a field", D + "pub struct N;\n" + M.replace("@", "") + "pub struct S<T> { a: T }\nfn is<T: Encode<musli::mode::Binary>>() {}\npub fn f() { is::<S<@>>(); }", "u32", "N", "E0277")

# ---- zero-copy
Z = "use musli_zerocopy::{ZeroCopy, Ref, Buf, OwnedBuf};\n"
ZD = "#[derive(ZeroCopy)]\n#[zero_copy(crate = musli_zerocopy)]\n"
pair("layout", "a type without a defined layout is zero-copy", Z + ZD + "@ pub struct S { a: u32, b: u8 }", "#[repr(C)]", "", "must be marked with repr")
pair("rust layout", "a type without a defined layout is zero-copy", Z + ZD + "#[repr(@)] pub struct S { a: u32, b: u8 }", "C", "Rust", "")
pair("enum layout", "an enum without a fixed discriminant is zero-copy", Z + ZD + "#[repr(@)] pub enum E { A, B }", "u8", "C", "")
pair("enum align", "an enum without a fixed discriminant is zero-copy", Z + ZD + "@ pub enum E { A, B }", "#[repr(u8)]", "", "must be marked with repr")
for t in ("&'static u8", "String", "Box<u8>", "fn()", "*const u8", "std::vec::Vec<u8>", "core::cell::Cell<u8>", "Option<u8>"):
    pair("field %s" % t, "bytes are read as a value which is not made of bytes", Z + ZD + "#[repr(C)] pub struct S { a: u32, b: @ }", "u32", t, "E0277")
    pair("variant field %s" % t, "bytes are read as a value which is not made of bytes", Z + ZD + "#[repr(u8)] pub enum S { A { b: @ } }", "u32", t, "E0277")
pair("union", "bytes of a union which may not be written are read", Z + ZD + "#[repr(C)] pub @ S { a: u32, b: u32 }", "struct", "union", "not supported for unions")
pair("ignored", "a field which is not validated takes up bytes", Z + ZD + "#[repr(C)] pub struct S { a: u32, #[zero_copy(ignore)] b: core::marker::PhantomData<@> }".replace("core::marker::PhantomData<@>", "@"), "()", "u32", "E0277|E0080")
pair("ignored field", "a field which is not zero-copy takes up bytes", Z + ZD + "#[repr(C)] pub struct S { a: u32, #[zero_copy(ignore)] b: @ }", "core::marker::PhantomData<String>", "String", "E0277|E0080")
pair("parameter", "a parameter of any type is read from bytes", Z + ZD + "#[repr(C)] pub struct S<T> @ { a: T }", "where T: ZeroCopy", "", "E0277")
pair("store", "what is not zero-copy is stored", Z + "pub fn f() { let mut b = OwnedBuf::new(); b.store(&@); }", "1u32", "String::new()", "E0277")
pair("load", "what is not zero-copy is loaded", Z + "pub fn f(b: &Buf) { let _: Result<&@, _> = b.load(Ref::<@>::new(0u32)); }".replace("b.load(Ref::<@>::new(0u32))", "b.load_at(0)"), "u32", "String", "E0277")
pair("reference type", "a reference to what is not zero-copy", Z + "pub fn f(b: Ref<@>) -> bool { fn is<T: ZeroCopy>() {} is::<Ref<u32>>(); true }", "u32", "String", "E0277")
pair("load outlives", "a loaded reference outlives its buffer", Z + '''
pub fn f() {
    let mut keep = OwnedBuf::new();
    let k = keep.store(&1u32);
    let x: &u32;
    {
        let mut b = OwnedBuf::new();
        let r = b.store(&1u32);
        x = @.load(r).unwrap();
    }
    drop(*x);
}''', "keep", "b", "E0597")
pair("store while loaded", "a buffer is reallocated while it is read", Z + '''
pub fn f() {
    let mut b = OwnedBuf::new();
    let mut other = OwnedBuf::new();
    let r = b.store(&1u32);
    let x: &u32 = b.load(r).unwrap();
    @.store(&2u32);
    drop(*x);
}''', "other", "b", "E0502")
pair("two mutable loads", "a value is written through two references", Z + '''
pub fn f() {
    let mut b = OwnedBuf::new();
    let mut o = OwnedBuf::new();
    let r = b.store(&1u32);
    o.store(&1u32);
    let x: &mut u32 = b.load_mut(r).unwrap();
    let y: &mut u32 = @.load_mut(r).unwrap();
    *x = 1;
    *y = 2;
}''', "o", "b", "E0499")
pair("mutable load", "a shared buffer is written", Z + "pub fn f(b: &@ Buf, r: Ref<u32>) { *b.load_mut(r).unwrap() = 1; }", "mut", "", "E0596")
pair("load outlives its bytes", "a loaded reference outlives the bytes", Z + '''
pub fn f<'a>(b: &@ Buf, r: Ref<u32>) -> &'a u32 {
    b.load(r).unwrap()
}''', "'a", "", "lifetime|E0621")
pair("bytes outlive", "a buffer outlives its bytes", Z + '''
pub fn f() {
    let keep = [0u8; 8];
    let b;
    {
        let v = [0u8; 8];
        b = Buf::new(&@);
    }
    drop(b.len());
}''', "keep", "v", "E0597")
pair("slice buffer", "a buffer over a slice outlives it", Z + '''
use musli_zerocopy::SliceMut;
pub fn f() {
    let mut keep = [0u8; 8];
    let b;
    {
        let mut v = [0u8; 8];
        b = SliceMut::new(&mut @);
    }
    drop(b.len());
}''', "keep", "v", "E0597")
pair("two slice buffers", "two buffers write the same memory", Z + '''
use musli_zerocopy::SliceMut;
pub fn f() {
    let mut v = [0u8; 8];
    let mut w = [0u8; 8];
    let mut a = SliceMut::new(&mut v);
    let mut b = SliceMut::new(&mut @);
    a.store(&1u8);
    b.store(&1u8);
}''', "w", "v", "E0499")
pair("unsized store", "a value without a known size is stored as one", Z + "pub fn f(b: &mut OwnedBuf, s: &str) { b.@(s); }", "store_unsized", "store", "E0277")
for t in ("u8", "[u8; 4]"):
    pair("validated str %s" % t, "bytes are text without being validated", Z + "pub fn f(b: &Buf, r: Ref<@>) -> &str { b.load(r).unwrap() }", "str", t, "E0308|E0277|E0271")
pair("reference of another type", "bytes are loaded as another type", Z + "pub fn f(b: &Buf, r: Ref<@>) -> &u32 { b.load(r).unwrap() }", "u32", "u64", "E0308")
pair("byte order", "bytes are loaded in another order", Z + "use musli_zerocopy::endian;\npub fn f<'a>(b: &'a Buf, r: Ref<u32, endian::@>) -> Ref<u32, endian::Little> { r }", "Little", "Big", "E0308")

# ---- contexts
pair("report outlives", "a report outlives its context", """
pub fn f() {
    let keep = musli::context::new().with_trace();
    let r;
    {
        let cx = musli::context::new().with_trace();
        r = @.report();
    }
    drop(r.to_string());
}""", "keep", "cx", "E0597")
