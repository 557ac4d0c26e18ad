//! Types whose derived implementations are analysed. Nothing here is executed.
#![allow(dead_code)]
use musli::{Decode, Encode};

pub mod api;
pub mod fast;
pub mod sd;
pub mod zc;

#[derive(Encode, Decode)]
pub struct Named {
    pub a: u8,
    pub b: u32,
    pub c: i16,
}

#[derive(Encode, Decode)]
pub struct Tuple(pub u8, pub u32);

#[derive(Encode, Decode)]
pub struct Unit;

#[derive(Encode, Decode)]
pub struct Nested {
    pub x: Named,
    pub y: Tuple,
    pub z: Option<u32>,
}

#[derive(Encode, Decode)]
pub enum Enum {
    Empty,
    Tup(u8, u32),
    Struct { a: u8, b: i64 },
}


// ---- attributes
#[derive(Encode, Decode)]
#[musli(name(type = usize))]
pub struct Numbered {
    #[musli(name = 7)]
    pub a: u8,
    #[musli(name = 300)]
    pub b: u32,
}

#[derive(Encode, Decode)]
#[musli(name_all = "PascalCase")]
pub struct NameAll {
    pub field_one: u8,
    pub field_two: u16,
}

#[derive(Encode, Decode)]
#[musli(name_all = "kebab-case")]
pub enum NameAllEnum {
    VariantOne,
    #[musli(name_all = "SCREAMING_SNAKE_CASE")]
    VariantTwo { field_name: u8 },
}

#[derive(Encode, Decode)]
#[musli(transparent)]
pub struct Transparent(pub u32);

#[derive(Encode, Decode)]
#[musli(transparent)]
pub struct TransparentNamed {
    pub inner: Tuple,
}

#[derive(Encode, Decode)]
#[musli(packed)]
pub struct Packed {
    pub a: u8,
    pub b: u32,
    pub c: i16,
}

#[derive(Encode, Decode)]
#[musli(packed)]
pub struct PackedTuple(pub u16, pub u16);

#[derive(Encode, Decode)]
#[musli(packed)]
#[repr(C)]
pub struct PackedBits {
    pub a: u32,
    pub b: u32,
}

#[derive(Encode, Decode)]
pub struct Defaults {
    pub a: u8,
    #[musli(skip)]
    pub b: u32,
    #[musli(skip, default = forty_two)]
    pub c: u32,
    #[musli(default)]
    pub d: u16,
    #[musli(default, skip_encoding_if = Option::is_none)]
    pub e: Option<u8>,
}

fn forty_two() -> u32 {
    42
}

#[derive(Encode, Decode)]
pub struct With {
    #[musli(with = self::plus)]
    pub a: Plus,
    pub b: u8,
}

pub struct Plus(pub u32);

mod plus {
    use super::Plus;
    use musli::{Decoder, Encoder};

    pub fn encode<E>(value: &Plus, encoder: E) -> Result<(), E::Error>
    where
        E: Encoder,
    {
        encoder.encode_u32(value.0)
    }

    pub fn decode<'de, D>(decoder: D) -> Result<Plus, D::Error>
    where
        D: Decoder<'de>,
    {
        Ok(Plus(decoder.decode_u32()?))
    }
}

#[derive(Encode, Decode)]
pub struct BytesField<'de> {
    #[musli(bytes)]
    pub a: [u8; 4],
    #[musli(bytes)]
    pub b: &'de [u8],
    pub c: u8,
}

#[derive(Encode, Decode)]
pub struct BytesOwned {
    #[musli(bytes)]
    pub a: [u8; 4],
    #[musli(bytes)]
    pub b: Vec<u8>,
    pub c: u8,
}

#[derive(Encode, Decode)]
pub struct PackedField {
    #[musli(packed)]
    pub a: (u32, u8),
    #[musli(packed)]
    pub b: [u16; 2],
    pub c: u8,
}

#[derive(Encode, Decode)]
pub struct Strings<'de> {
    pub a: &'de str,
    pub b: u8,
}

#[derive(Encode, Decode)]
pub struct Generic<T> {
    pub a: T,
    pub b: Option<T>,
}

#[derive(Encode, Decode)]
pub enum TransparentEnum {
    #[musli(transparent)]
    A(u32),
    #[musli(transparent)]
    B { inner: Tuple },
    C,
}

#[derive(Encode, Decode)]
pub enum PackedEnum {
    #[musli(packed)]
    A(u32, u8),
    #[musli(packed)]
    B { x: u8, y: u8 },
}

#[derive(Encode, Decode)]
#[musli(name(type = usize))]
pub enum NumberedEnum {
    #[musli(name = 9)]
    A,
    #[musli(name = 1000)]
    B(u8),
}

#[derive(Encode, Decode)]
pub enum DefaultEnum {
    A,
    B,
    #[musli(default)]
    Other,
}

#[derive(Encode, Decode)]
#[musli(tag = "type")]
pub enum Internal {
    A { x: u8, y: u32 },
    B { z: u16 },
    C,
}

#[derive(Encode, Decode)]
#[musli(tag = "type", content = "data")]
pub enum Adjacent {
    A { x: u8, y: u32 },
    B(u16),
    C,
}

#[derive(Encode, Decode)]
#[musli(name(type = usize), tag = 10)]
pub enum InternalNumbered {
    #[musli(name = 1)]
    A { x: u8 },
    #[musli(name = 2)]
    B { y: u32 },
}

#[derive(Encode, Decode)]
#[musli(untagged)]
pub enum Untagged {
    A { a: u8, b: u8 },
    B { c: u32 },
    #[musli(transparent)]
    N(u32),
}

#[derive(Encode, Decode)]
pub struct Moded {
    #[musli(Text, name = "other")]
    pub a: u8,
    #[musli(Binary, name = 5)]
    pub b: u16,
}

#[derive(Encode, Decode)]
pub struct Patterned {
    #[musli(Binary, pattern = 0..=3)]
    pub a: u8,
    #[musli(Binary, name = 4)]
    pub b: u8,
}

// ---- versions of a model
#[derive(Encode, Decode)]
pub struct V1 {
    pub a: u8,
    pub b: u32,
}

#[derive(Encode, Decode)]
pub struct V2 {
    pub a: u8,
    pub b: u32,
    #[musli(default)]
    pub c: u16,
    #[musli(default)]
    pub d: Option<u8>,
}

#[derive(Encode, Decode)]
pub struct V3<'de> {
    pub a: u8,
    pub b: u32,
    #[musli(default)]
    pub c: u16,
    pub e: &'de str,
    pub f: (u8, bool),
    pub g: Enum,
    pub h: Option<u32>,
    pub i: V1,
    #[musli(bytes)]
    pub j: [u8; 2],
}

#[derive(Encode, Decode)]
#[musli(name(type = usize))]
pub struct Reordered {
    #[musli(name = 1)]
    pub b: u32,
    #[musli(name = 0)]
    pub a: u8,
}

/// `Middle`, as a later version of it with another field would be.
#[derive(Encode, Decode)]
pub struct Wide<T> {
    pub a: u8,
    pub b: T,
    pub c: u16,
}

#[derive(Encode, Decode)]
pub struct Middle {
    pub a: u8,
    #[musli(Binary, name = 2)]
    pub c: u16,
}

#[derive(Encode, Decode)]
pub struct Three {
    pub a: u8,
    pub b: Nested,
    pub c: u16,
}
