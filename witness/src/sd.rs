//! Types which are encoded and decoded through their implementations of serde.
use musli::de::{Decode, Decoder};
use musli::en::{Encode, Encoder};
use musli::Allocator;
use serde::de::{Deserializer, MapAccess, SeqAccess, Visitor};
use serde::ser::{SerializeMap, SerializeSeq, Serializer};
use serde::{Deserialize, Serialize};

macro_rules! bridge {
    ($($name:ident),* $(,)?) => {$(
        impl<M> Encode<M> for $name where M: 'static {
            const IS_BITWISE_ENCODE: bool = false;
            type Encode = Self;
            fn encode<E>(&self, encoder: E) -> Result<(), E::Error> where E: Encoder<Mode = M> {
                musli::serde::encode(self, encoder)
            }
            fn as_encode(&self) -> &Self { self }
        }

        impl<'de, M, A> Decode<'de, M, A> for $name where M: 'static, A: Allocator {
            const IS_BITWISE_DECODE: bool = false;
            fn decode<D>(decoder: D) -> Result<Self, D::Error> where D: Decoder<'de, Mode = M, Allocator = A> {
                musli::serde::decode(decoder)
            }
        }
    )*}
}

#[derive(Serialize, Deserialize)]
pub struct Named {
    pub a: u8,
    pub b: u32,
    pub c: i16,
}

#[derive(Serialize, Deserialize)]
pub struct Tuple(pub u8, pub u32);

#[derive(Serialize, Deserialize)]
pub struct Unit;

#[derive(Serialize, Deserialize)]
pub struct Newtype(pub u64);

#[derive(Serialize, Deserialize)]
pub struct Nested {
    pub x: Named,
    pub y: Tuple,
    pub z: Option<u32>,
}

#[derive(Serialize, Deserialize)]
pub struct Unsigned(pub u8, pub u16, pub u32, pub u64, pub u128, pub usize);

#[derive(Serialize, Deserialize)]
pub struct Signed(pub i8, pub i16, pub i32, pub i64, pub i128, pub isize);

#[derive(Serialize, Deserialize)]
pub struct Others {
    pub a: bool,
    pub b: char,
    pub c: f32,
    pub d: f64,
    pub e: (),
}

#[derive(Serialize, Deserialize)]
pub struct Text {
    pub a: String,
}

#[derive(Serialize, Deserialize)]
pub struct Options {
    pub a: Option<u8>,
    pub b: Option<(u8, u16)>,
    pub c: u8,
}

#[derive(Serialize, Deserialize)]
pub struct OptionUnit(pub Option<()>);

#[derive(Serialize, Deserialize)]
pub enum Enum {
    Unit,
    Newtype(u32),
    Tuple(u8, i16),
}

#[derive(Serialize, Deserialize)]
pub enum EnumStruct {
    Unit,
    Struct { a: u8, b: u64 },
}

#[derive(Serialize, Deserialize)]
pub struct Holder {
    pub a: EnumStruct,
    pub b: Enum,
    pub c: u8,
}


#[derive(Serialize, Deserialize)]
pub struct Renamed {
    #[serde(rename = "type")]
    pub a: u8,
    #[serde(skip)]
    pub s: u8,
    #[serde(default)]
    pub b: u32,
}

/// Written as bytes.
pub struct Bytes {
    pub a: Vec<u8>,
}

impl Serialize for Bytes {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_bytes(&self.a)
    }
}

impl<'de> Deserialize<'de> for Bytes {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl<'de> Visitor<'de> for V {
            type Value = Bytes;
            fn expecting(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
                f.write_str("bytes")
            }
            fn visit_bytes<E: serde::de::Error>(self, v: &[u8]) -> Result<Bytes, E> {
                Ok(Bytes { a: v.to_vec() })
            }
            fn visit_byte_buf<E: serde::de::Error>(self, v: Vec<u8>) -> Result<Bytes, E> {
                Ok(Bytes { a: v })
            }
        }
        d.deserialize_byte_buf(V)
    }
}

/// A sequence whose elements are written and read one by one.
pub struct Steps {
    pub a: u8,
    pub b: u32,
}

impl Serialize for Steps {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let mut q = s.serialize_seq(Some(2))?;
        q.serialize_element(&self.a)?;
        q.serialize_element(&self.b)?;
        q.end()
    }
}

impl<'de> Deserialize<'de> for Steps {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl<'de> Visitor<'de> for V {
            type Value = Steps;
            fn expecting(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
                f.write_str("two elements")
            }
            fn visit_seq<Q: SeqAccess<'de>>(self, mut q: Q) -> Result<Steps, Q::Error> {
                let (Some(a), Some(b)) = (q.next_element()?, q.next_element()?) else {
                    return Err(serde::de::Error::custom("missing"));
                };
                if q.next_element::<u8>()?.is_some() {
                    return Err(serde::de::Error::custom("too many"));
                }
                Ok(Steps { a, b })
            }
        }
        d.deserialize_seq(V)
    }
}

/// What is written depends on whether people are to read it.
pub struct Human {
    pub a: u8,
}

impl Serialize for Human {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        if s.is_human_readable() {
            return s.serialize_some(&self.a);
        }
        s.serialize_u8(self.a)
    }
}

impl<'de> Deserialize<'de> for Human {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        if d.is_human_readable() {
            let Some(a) = Option::<u8>::deserialize(d)? else {
                return Err(serde::de::Error::custom("none"));
            };
            return Ok(Human { a });
        }
        Ok(Human { a: u8::deserialize(d)? })
    }
}

/// A map whose keys are numbers.
pub struct Entries {
    pub a: u8,
    pub b: u32,
}

impl Serialize for Entries {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let mut m = s.serialize_map(Some(2))?;
        m.serialize_entry(&3u8, &self.a)?;
        m.serialize_key(&7u8)?;
        m.serialize_value(&self.b)?;
        m.end()
    }
}

impl<'de> Deserialize<'de> for Entries {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl<'de> Visitor<'de> for V {
            type Value = Entries;
            fn expecting(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
                f.write_str("two entries")
            }
            fn visit_map<Q: MapAccess<'de>>(self, mut q: Q) -> Result<Entries, Q::Error> {
                let (Some((3u8, a)), Some(7u8)) = (q.next_entry()?, q.next_key()?) else {
                    return Err(serde::de::Error::custom("missing"));
                };
                let b = q.next_value()?;
                if q.next_key::<u8>()?.is_some() {
                    return Err(serde::de::Error::custom("too many"));
                }
                Ok(Entries { a, b })
            }
        }
        d.deserialize_map(V)
    }
}

/// Whatever is there is asked for.
macro_rules! any {
    ($($name:ident $ty:ty { $($f:ident $v:ty),* })*) => {$(
        pub struct $name {
            pub a: $ty,
        }

        impl Serialize for $name {
            fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                self.a.serialize(s)
            }
        }

        impl<'de> Deserialize<'de> for $name {
            fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
                struct V;
                impl<'de> Visitor<'de> for V {
                    type Value = $name;
                    fn expecting(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
                        f.write_str("a value")
                    }
                    $(fn $f<E: serde::de::Error>(self, v: $v) -> Result<$name, E> {
                        let a = v as $ty;
                        if a as $v != v {
                            return Err(serde::de::Error::custom("range"));
                        }
                        Ok($name { a })
                    })*
                }
                d.deserialize_any(V)
            }
        }
    )*}
}

any! {
    AnyBool bool { visit_bool bool }
    AnyChar char { visit_char char }
    AnyU8 u8 { visit_u8 u8, visit_u16 u16, visit_u32 u32, visit_u64 u64 }
    AnyU16 u16 { visit_u8 u8, visit_u16 u16, visit_u32 u32, visit_u64 u64 }
    AnyU32 u32 { visit_u8 u8, visit_u16 u16, visit_u32 u32, visit_u64 u64 }
    AnyU64 u64 { visit_u8 u8, visit_u16 u16, visit_u32 u32, visit_u64 u64 }
    AnyU128 u128 { visit_u8 u8, visit_u16 u16, visit_u32 u32, visit_u64 u64, visit_u128 u128 }
    AnyI8 i8 { visit_i8 i8, visit_i16 i16, visit_i32 i32, visit_i64 i64 }
    AnyI16 i16 { visit_i8 i8, visit_i16 i16, visit_i32 i32, visit_i64 i64 }
    AnyI32 i32 { visit_i8 i8, visit_i16 i16, visit_i32 i32, visit_i64 i64 }
    AnyI64 i64 { visit_i8 i8, visit_i16 i16, visit_i32 i32, visit_i64 i64 }
    AnyI128 i128 { visit_i8 i8, visit_i16 i16, visit_i32 i32, visit_i64 i64, visit_i128 i128 }
}

/// A field which isn't known is ignored.
#[derive(Serialize, Deserialize)]
pub struct Wide {
    pub a: u8,
    pub x: u32,
    pub b: u16,
}

/// The same in another order, without one of its fields.
#[derive(Serialize, Deserialize)]
pub struct Narrow {
    pub b: u16,
    pub a: u8,
}

bridge! {
    Named, Tuple, Unit, Newtype, Nested, Unsigned, Signed, Others, Text, Options, OptionUnit, Enum, EnumStruct, Holder, Renamed,
    Bytes, Steps, Human, Entries, Wide, Narrow,
    AnyBool, AnyChar, AnyU8, AnyU16, AnyU32, AnyU64, AnyU128, AnyI8, AnyI16, AnyI32, AnyI64, AnyI128,
}
