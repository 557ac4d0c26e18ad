//! Zero-copy types of all kinds of layouts.
use core::marker::PhantomData;
use core::num::{NonZeroI64, NonZeroU16, NonZeroU32, NonZeroU8, Wrapping};
use musli_zerocopy::endian::{Big, Little};
use musli_zerocopy::{Endian, Ref, ZeroCopy};

#[derive(Clone, Copy, ZeroCopy)]
#[repr(C)]
pub struct Plain {
    pub a: u32,
    pub b: u32,
}

#[derive(Clone, Copy, ZeroCopy)]
#[repr(C)]
pub struct Padded {
    pub a: u8,
    pub b: u32,
    pub c: u16,
}

#[derive(Clone, Copy, ZeroCopy)]
#[repr(C)]
pub struct PadEnd {
    pub a: u64,
    pub b: u8,
}

#[derive(Clone, Copy, ZeroCopy)]
#[repr(C)]
pub struct Bools {
    pub a: bool,
    pub b: char,
    pub c: bool,
}

#[derive(Clone, Copy, ZeroCopy)]
#[repr(C)]
pub struct Swappable {
    pub a: bool,
    pub b: i128,
    pub c: f32,
    pub d: isize,
}

#[derive(Clone, Copy, ZeroCopy)]
#[repr(C)]
pub struct NonZeros {
    pub a: NonZeroU8,
    pub b: NonZeroU32,
    pub c: Option<NonZeroU16>,
    pub d: NonZeroI64,
}

#[derive(Clone, Copy, ZeroCopy)]
#[repr(C)]
pub struct Nested {
    pub a: u8,
    pub b: Padded,
    pub c: Bools,
    pub d: u8,
}

#[derive(Clone, Copy, ZeroCopy)]
#[repr(C)]
pub struct Arrays {
    pub a: u8,
    pub b: [u16; 3],
    pub c: [PadEnd; 2],
    pub d: [bool; 2],
}

#[derive(Clone, Copy, ZeroCopy)]
#[repr(C, packed)]
pub struct Packed1 {
    pub a: u8,
    pub b: u32,
    pub c: bool,
    pub d: Padded,
    pub e: Bools,
}

#[derive(Clone, Copy, ZeroCopy)]
#[repr(C, packed(2))]
pub struct Packed2 {
    pub a: u8,
    pub b: bool,
    pub c: u32,
    pub d: u8,
    pub e: u64,
    pub f: bool,
}

#[derive(Clone, Copy, ZeroCopy)]
#[repr(transparent)]
pub struct Transparent(pub PadEnd);

#[derive(Clone, Copy, ZeroCopy)]
#[repr(transparent)]
pub struct TransparentBool {
    pub a: bool,
    #[zero_copy(ignore)]
    pub m: PhantomData<u32>,
}

#[derive(Clone, Copy, ZeroCopy)]
#[repr(C)]
pub struct Ignored {
    pub a: u8,
    #[zero_copy(ignore)]
    pub m: PhantomData<u64>,
    pub b: u32,
    pub c: Wrapping<i16>,
}

#[derive(Clone, Copy, ZeroCopy)]
#[repr(C)]
pub struct Unit;

#[derive(Clone, Copy, ZeroCopy)]
#[repr(C)]
pub struct Tuple(pub u8, pub u16, pub bool);

#[derive(Clone, Copy, ZeroCopy)]
#[zero_copy(bounds = {T: ZeroCopy})]
#[repr(C)]
pub struct Generic<T> {
    pub a: u8,
    pub b: T,
    pub c: u8,
}

#[derive(Clone, Copy, ZeroCopy)]
#[repr(u8)]
pub enum Fieldless {
    A,
    B,
    C = 5,
    D,
}

#[derive(Clone, Copy, ZeroCopy)]
#[repr(i16)]
pub enum Signed {
    A = -3,
    B,
    C = 7,
}

#[derive(Clone, Copy, ZeroCopy)]
#[repr(u64)]
pub enum Wide {
    A = 1,
    B = 0xffff_ffff_ffff_fff0,
}

#[derive(Clone, Copy, ZeroCopy)]
#[repr(u8)]
pub enum Fields {
    A,
    B(u8),
    C { a: u32, b: u8 },
    D(bool, u16),
    E([u64; 2]),
}

#[derive(Clone, Copy, ZeroCopy)]
#[repr(u32)]
pub enum FieldsWide {
    A(u8),
    B(u16, u32),
    C(Bools),
    D(NonZeroU8, Fieldless),
}

#[derive(Clone, Copy, ZeroCopy)]
#[repr(u8)]
pub enum Inner {
    A(Fields),
    B(u8),
}

#[derive(Clone, Copy, ZeroCopy)]
#[zero_copy(swap_bytes)]
#[repr(u32)]
pub enum Swapped {
    A = 1,
    #[zero_copy(swap = A)]
    A_ = u32::swap_bytes(1),
    B = 2,
    #[zero_copy(swap = B)]
    B_ = u32::swap_bytes(2),
}

#[derive(Clone, Copy, ZeroCopy)]
#[zero_copy(swap_bytes)]
#[repr(u16)]
pub enum SwappedFields {
    A(u16) = 0x0102,
    #[zero_copy(swap = A)]
    Aswap(u16) = 0x0201,
    B { a: u32, b: bool } = 0x0304,
    #[zero_copy(swap = B)]
    Bswap { a: u32, b: bool } = 0x0403,
}

#[derive(Clone, Copy, ZeroCopy)]
#[repr(C)]
pub struct References {
    pub a: Ref<u32>,
    pub b: Ref<[u16]>,
    pub c: Ref<str>,
    pub d: Endian<u32, Big>,
    pub e: Endian<u16, Little>,
}

/// The instances which are analysed.
pub struct Uses {
    pub a: Generic<u64>,
    pub b: Generic<Bools>,
    pub c: Generic<Swappable>,
    pub d: [Padded; 3],
    pub e: [Fields; 2],
    pub f: Endian<Fieldless, Little>,
    pub g: Endian<Plain, Big>,
    pub h: Wrapping<NonZeroU16>,
    pub i: musli_zerocopy::phf::MapRef<u32, u16>,
    pub j: musli_zerocopy::swiss::MapRef<u32, u16>,
    pub k: musli_zerocopy::phf::SetRef<u32>,
    pub l: musli_zerocopy::swiss::SetRef<u32>,
    pub m: [Fieldless; 3],
}
