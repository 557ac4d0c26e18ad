//! Packed types whose layout does, and does not, follow their encoding.
use core::num::{NonZeroI64, NonZeroU16, NonZeroU32, NonZeroU8, Wrapping};
use musli::{Decode, Encode};

#[derive(Encode, Decode)]
#[musli(packed)]
#[repr(C)]
pub struct Plain {
    pub a: u32,
    pub b: u32,
}

#[derive(Encode, Decode)]
#[musli(packed)]
#[repr(C)]
pub struct PadMiddle {
    pub a: u8,
    pub b: u32,
    pub c: u16,
    pub d: u8,
}

#[derive(Encode, Decode)]
#[musli(packed)]
#[repr(C)]
pub struct PadEnd {
    pub a: u32,
    pub b: u8,
}

#[derive(Encode, Decode)]
#[musli(packed)]
pub struct Reordered {
    pub a: u8,
    pub b: u16,
    pub c: u8,
}

#[derive(Encode, Decode)]
#[musli(packed)]
#[repr(C)]
pub struct Bools {
    pub a: bool,
    pub b: u8,
}

#[derive(Encode, Decode)]
#[musli(packed)]
#[repr(C)]
pub struct Chars {
    pub a: u32,
    pub b: char,
}

#[derive(Encode, Decode)]
#[musli(packed)]
#[repr(C)]
pub struct Zero {
    pub a: NonZeroU16,
    pub b: u16,
}

#[derive(Encode, Decode)]
#[musli(packed)]
#[repr(C)]
pub struct Inner {
    pub a: Plain,
    pub b: u64,
}

#[derive(Encode, Decode)]
#[musli(packed)]
#[repr(C)]
pub struct InnerBools {
    pub a: u16,
    pub b: Bools,
}

#[derive(Encode, Decode)]
#[musli(packed)]
#[repr(C)]
pub struct InnerPad {
    pub a: PadEnd,
    pub b: u32,
}

#[derive(Encode, Decode)]
#[musli(packed)]
#[repr(C)]
pub struct Arrays {
    pub a: [u16; 3],
    pub b: i16,
}

#[derive(Encode, Decode)]
#[musli(packed)]
#[repr(C)]
pub struct ArrayPad {
    pub a: [u8; 3],
    pub b: i16,
}

#[derive(Encode, Decode)]
#[musli(packed)]
#[repr(C)]
pub struct Floats {
    pub a: f32,
    pub b: i32,
}

#[derive(Encode, Decode)]
#[musli(packed)]
#[repr(C)]
pub struct Wraps {
    pub a: Wrapping<u16>,
    pub b: i16,
}

#[derive(Encode, Decode)]
#[musli(packed)]
#[repr(C)]
pub struct Sizes {
    pub a: usize,
    pub b: isize,
}

#[derive(Encode, Decode)]
#[musli(packed)]
#[repr(C)]
pub struct Custom {
    #[musli(with = self::swapped)]
    pub a: u16,
    pub b: u16,
}

mod swapped {
    use musli::{Decoder, Encoder};

    pub fn encode<E>(value: &u16, encoder: E) -> Result<(), E::Error>
    where
        E: Encoder,
    {
        encoder.encode_u16(value.swap_bytes())
    }

    pub fn decode<'de, D>(decoder: D) -> Result<u16, D::Error>
    where
        D: Decoder<'de>,
    {
        Ok(decoder.decode_u16()?.swap_bytes())
    }
}

#[derive(Encode, Decode)]
#[musli(packed)]
#[repr(C)]
pub struct Lengths<'de> {
    pub a: u64,
    pub b: &'de str,
}

#[derive(Encode, Decode)]
#[musli(packed)]
#[repr(C)]
pub struct Single {
    pub a: u32,
}

#[derive(Encode, Decode)]
#[musli(packed)]
#[repr(C)]
pub struct Pair<T> {
    pub a: T,
    pub b: T,
}

#[derive(Encode, Decode)]
#[musli(packed)]
#[repr(C, align(16))]
pub struct Aligned {
    pub a: u64,
}

#[derive(Encode, Decode)]
#[repr(C)]
pub struct NotPacked {
    pub a: u32,
    pub b: u32,
}

#[derive(Encode, Decode)]
#[musli(packed)]
#[repr(C)]
pub struct Tuples {
    pub a: (u16, u16),
    pub b: u32,
}

#[derive(Encode, Decode)]
#[musli(packed)]
#[repr(C)]
pub struct Units {
    pub a: u32,
    pub b: (),
    pub c: u32,
}

#[derive(Encode, Decode)]
#[musli(packed, bound = {T}, decode_bound<'de, A> = {T})]
#[repr(C)]
pub struct Marked<T> {
    pub a: u32,
    pub b: core::marker::PhantomData<T>,
}

#[derive(Encode, Decode)]
#[musli(packed)]
#[repr(C)]
pub struct BoolArray {
    pub a: [bool; 2],
    pub b: u16,
}

/// What is used of those with parameters.
pub struct Uses {
    pub a: (Pair<u16>, Pair<bool>, Pair<NonZeroU32>, Pair<char>),
    pub b: (Marked<u64>, Wrapping<u32>, Wrapping<bool>),
    pub c: (NonZeroU8, NonZeroI64, (u16, u16), (u8, u32)),
    pub d: ([Plain; 2], [PadEnd; 2], [Bools; 2], [[u16; 2]; 3], [NonZeroU16; 2]),
    pub e: core::net::Ipv4Addr,
}
