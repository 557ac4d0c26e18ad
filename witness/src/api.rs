//! Types with hand-written implementations, which use the interface of the
//! encoders and decoders in each way there is.
use musli::de::{
    Decode, Decoder, EntriesDecoder, EntryDecoder, MapDecoder, SequenceDecoder, VariantDecoder,
};
use musli::en::{
    Encode, Encoder, EntriesEncoder, EntryEncoder, MapEncoder, SequenceEncoder, VariantEncoder,
};
use musli::Allocator;

macro_rules! api {
    ($name:ident { $($field:ident: $ty:ty),* }, |$this:ident, $en:ident| $encode:expr, |$de:ident| $decode:expr) => {
        pub struct $name { $(pub $field: $ty,)* }

        impl<M> Encode<M> for $name where M: 'static {
            const IS_BITWISE_ENCODE: bool = false;
            type Encode = Self;
            fn encode<E>(&self, $en: E) -> Result<(), E::Error> where E: Encoder<Mode = M> {
                let $this = self;
                $encode
            }
            fn as_encode(&self) -> &Self { self }
        }

        impl<'de, M, A> Decode<'de, M, A> for $name where M: 'static, A: Allocator {
            const IS_BITWISE_DECODE: bool = false;
            fn decode<D>($de: D) -> Result<Self, D::Error> where D: Decoder<'de, Mode = M, Allocator = A> {
                $decode
            }
        }
    }
}

// ---- maps
fn entries<E: Encoder>(en: E, a: u8, b: u32) -> Result<(), E::Error> {
    let mut m = en.encode_map_entries(2usize)?;
    m.encode_entry_key()?.encode(3u8)?;
    m.encode_entry_value()?.encode(a)?;
    m.insert_entry(700u16, b)?;
    m.finish_entries()
}

fn map<E: Encoder>(en: E, a: u8, b: u32) -> Result<(), E::Error> {
    let mut m = en.encode_map(2usize)?;
    {
        let mut e = m.encode_entry()?;
        e.encode_key()?.encode(3u8)?;
        e.encode_value()?.encode(a)?;
        e.finish_entry()?;
    }
    m.insert_entry(700u16, b)?;
    m.finish_map()
}

macro_rules! two {
    ($cx:expr, $k:expr, $a:expr, $k2:expr, $b:expr) => {{
        if $k != 3 || $k2 != 700 {
            return Err($cx.message("bad key"));
        }
        Ok(Self { a: $a, b: $b })
    }};
}

macro_rules! de_entries {
    ($d:expr) => {
        $d.decode_map_entries(|m| {
            use musli::Context;
            let cx = m.cx();
            let Some(k) = m.decode_entry_key()? else {
                return Err(cx.message("no key"));
            };
            let k = k.decode::<u8>()?;
            let a = m.decode_entry_value()?.decode::<u8>()?;
            let Some(k2) = m.decode_entry_key()? else {
                return Err(cx.message("no key"));
            };
            let k2 = k2.decode::<u16>()?;
            let b = m.decode_entry_value()?.decode::<u32>()?;
            if m.decode_entry_key()?.is_some() {
                return Err(cx.message("extra key"));
            }
            two!(cx, k, a, k2, b)
        })
    };
}

macro_rules! de_map {
    ($d:expr) => {
        $d.decode_map(|m| {
            use musli::Context;
            let cx = m.cx();
            let (k, a) = {
                let Some(mut e) = m.decode_entry()? else {
                    return Err(cx.message("no entry"));
                };
                let k = e.decode_key()?.decode::<u8>()?;
                (k, e.decode_value()?.decode::<u8>()?)
            };
            let Some((k2, b)) = m.entry::<u16, u32>()? else {
                return Err(cx.message("no entry"));
            };
            if m.decode_entry()?.is_some() {
                return Err(cx.message("extra key"));
            }
            two!(cx, k, a, k2, b)
        })
    };
}

api!(Entries { a: u8, b: u32 }, |t, en| entries(en, t.a, t.b), |d| de_entries!(d));
api!(EntriesAsMap { a: u8, b: u32 }, |t, en| entries(en, t.a, t.b), |d| de_map!(d));
api!(Map { a: u8, b: u32 }, |t, en| map(en, t.a, t.b), |d| de_map!(d));
api!(MapAsEntries { a: u8, b: u32 }, |t, en| map(en, t.a, t.b), |d| de_entries!(d));
api!(MapFn { a: u8, b: u32 },
    |t, en| en.encode_map_fn(2usize, |m| {
        m.encode_entry_fn(|e| {
            e.encode_key()?.encode(3u8)?;
            e.encode_value()?.encode(t.a)?;
            Ok(())
        })?;
        m.insert_entry(700u16, t.b)?;
        Ok(())
    }),
    |d| d.decode_map_hint(2usize, |m| {
        use musli::Context;
        let cx = m.cx();
        let Some((k, a)) = m.entry::<u8, u8>()? else {
            return Err(cx.message("no entry"));
        };
        let Some((k2, b)) = m.entry::<u16, u32>()? else {
            return Err(cx.message("no entry"));
        };
        two!(cx, k, a, k2, b)
    }));
api!(AsEncoder { a: u8, b: u32 },
    |t, en| en.encode_map_fn(2usize, |m| map(m.as_encoder(), t.a, t.b)),
    |d| de_map!(d));
api!(Remaining { a: u8, b: u32 },
    |t, en| map(en, t.a, t.b),
    |d| d.decode_map(|m| {
        use musli::Context;
        let cx = m.cx();
        let Some((k, a)) = m.entry::<u8, u8>()? else {
            return Err(cx.message("no entry"));
        };
        let mut r = m.decode_remaining_entries()?;
        let Some(k2) = r.decode_entry_key()? else {
            return Err(cx.message("no key"));
        };
        let k2 = k2.decode::<u16>()?;
        let b = r.decode_entry_value()?.decode::<u32>()?;
        if r.decode_entry_key()?.is_some() {
            return Err(cx.message("extra key"));
        }
        r.end_entries()?;
        two!(cx, k, a, k2, b)
    }));
// ---- sequences
api!(Sequence { a: u8, b: u32 },
    |t, en| {
        let mut s = en.encode_sequence(2usize)?;
        s.encode_next()?.encode(t.a)?;
        s.push(t.b)?;
        s.finish_sequence()
    },
    |d| d.decode_sequence(|s| {
        use musli::Context;
        let cx = s.cx();
        let a = s.decode_next()?.decode::<u8>()?;
        let Some(b) = s.try_decode_next()? else {
            return Err(cx.message("too short"));
        };
        let b = b.decode::<u32>()?;
        if s.try_decode_next()?.is_some() {
            return Err(cx.message("too long"));
        }
        Ok(Self { a, b })
    }));
api!(SequenceFn { a: u8, b: u32 },
    |t, en| en.encode_sequence_fn(2usize, |s| {
        s.push(t.a)?;
        s.push(t.b)?;
        Ok(())
    }),
    |d| d.decode_sequence_hint(2usize, |s| {
        Ok(Self { a: s.next()?, b: s.next()? })
    }));
api!(SequenceTry { a: u8, b: u32 },
    |t, en| en.encode_sequence_fn(2usize, |s| {
        s.push(t.a)?;
        s.push(t.b)?;
        Ok(())
    }),
    |d| d.decode_sequence(|s| {
        use musli::Context;
        let cx = s.cx();
        let (Some(a), Some(b), None) = (s.try_next()?, s.try_next()?, s.try_next::<u8>()?) else {
            return Err(cx.message("bad length"));
        };
        Ok(Self { a, b })
    }));
api!(SequenceSlices { a: [u16; 2], b: u16, c: [u16; 1] },
    |t, en| en.encode_sequence_fn(6usize, |s| {
        s.encode_slice::<u16>(&t.a)?;
        s.push(t.b)?;
        s.encode_slices::<u16>([&t.c[..], &t.a[..]])?;
        Ok(())
    }),
    |d| d.decode_sequence(|s| {
        let a = [s.next()?, s.next()?];
        let b = s.next()?;
        let c = [s.next()?];
        let _: u16 = s.next()?;
        let _: u16 = s.next()?;
        Ok(Self { a, b, c })
    }));
api!(Slice { a: [u32; 2] },
    |t, en| en.encode_slice::<u32>(&t.a),
    |d| d.decode_sequence(|s| Ok(Self { a: [s.next()?, s.next()?] })));
api!(Slices { a: [u32; 2], b: [u32; 1] },
    |t, en| en.encode_slices::<u32>(3usize, [&t.a[..], &t.b[..]]),
    |d| d.decode_sequence(|s| Ok(Self { a: [s.next()?, s.next()?], b: [s.next()?] })));
// ---- variants
api!(Variant { a: u8, b: u32 },
    |t, en| {
        let mut v = en.encode_variant()?;
        v.encode_tag()?.encode(t.a)?;
        v.encode_data()?.encode(t.b)?;
        v.finish_variant()
    },
    |d| d.decode_variant(|v| {
        let a = v.decode_tag()?.decode()?;
        let b = v.decode_value()?.decode()?;
        Ok(Self { a, b })
    }));
api!(VariantFn { a: u8, b: u32 },
    |t, en| en.encode_variant_fn(|v| {
        v.encode_tag()?.encode(t.a)?;
        v.encode_data()?.encode_pack_fn(|p| { p.push(t.b)?; Ok(()) })
    }),
    |d| d.decode_variant(|v| {
        let a = v.decode_tag()?.decode()?;
        let b = v.decode_value()?.decode_pack(|p| p.next())?;
        Ok(Self { a, b })
    }));
api!(UnitVariant { a: u8 },
    |t, en| en.encode_unit_variant(&t.a),
    |d| d.decode_variant(|v| {
        let a = v.decode_tag()?.decode()?;
        v.decode_value()?.decode_empty()?;
        Ok(Self { a })
    }));
api!(SequenceVariant { a: u8, b: u32 },
    |t, en| {
        let mut s = en.encode_sequence_variant(&77u8, 2usize)?;
        s.push(t.a)?;
        s.push(t.b)?;
        s.finish_sequence()
    },
    |d| d.decode_variant(|v| {
        use musli::Context;
        let cx = v.cx();
        if v.decode_tag()?.decode::<u8>()? != 77 {
            return Err(cx.message("bad tag"));
        }
        v.decode_value()?.decode_sequence(|s| Ok(Self { a: s.next()?, b: s.next()? }))
    }));
api!(MapVariant { a: u8, b: u32 },
    |t, en| {
        let mut m = en.encode_map_variant(&"tag", 2usize)?;
        m.insert_entry(3u8, t.a)?;
        m.insert_entry(700u16, t.b)?;
        m.finish_map()
    },
    |d| d.decode_variant(|v| {
        use musli::Context;
        let cx = v.cx();
        let ok = v.decode_tag()?.decode_unsized(|s: &str| Ok(s == "tag"))?;
        if !ok {
            return Err(cx.message("bad tag"));
        }
        de_map!(v.decode_value()?)
    }));
// ---- others
api!(Pack { a: u8, b: u32, c: u16 },
    |t, en| {
        let mut p = en.encode_pack()?;
        p.push(t.a)?;
        p.encode_next()?.encode(t.b)?;
        p.push(t.c)?;
        p.finish_sequence()
    },
    |d| d.decode_pack(|p| {
        let a = p.decode_next()?.decode()?;
        let b = p.next()?;
        let c = p.next()?;
        Ok(Self { a, b, c })
    }));
api!(PackInPack { a: u8, b: u32, c: u16 },
    |t, en| en.encode_pack_fn(|p| {
        p.push(t.a)?;
        p.encode_next()?.encode_pack_fn(|q| {
            q.push(t.b)?;
            q.push(t.c)?;
            Ok(())
        })
    }),
    |d| d.decode_pack(|p| {
        let a = p.next()?;
        let (b, c) = p.decode_next()?.decode_pack(|q| Ok((q.next()?, q.next()?)))?;
        Ok(Self { a, b, c })
    }));
api!(Opt { a: Option<u32>, b: u8 },
    |t, en| en.encode_sequence_fn(2usize, |s| {
        let e = s.encode_next()?;
        match t.a {
            Some(v) => e.encode_some()?.encode(v)?,
            None => e.encode_none()?,
        }
        s.push(t.b)?;
        Ok(())
    }),
    |d| d.decode_sequence(|s| {
        let a = match s.decode_next()?.decode_option()? {
            Some(d) => Some(d.decode::<u32>()?),
            None => None,
        };
        Ok(Self { a, b: s.next()? })
    }));
api!(Empty { a: u8 },
    |t, en| en.encode_sequence_fn(2usize, |s| {
        s.encode_next()?.encode_empty()?;
        s.push(t.a)?;
        Ok(())
    }),
    |d| d.decode_sequence(|s| {
        s.decode_next()?.decode_empty()?;
        Ok(Self { a: s.next()? })
    }));
api!(ByteArray { a: [u8; 5], b: u8 },
    |t, en| en.encode_sequence_fn(2usize, |s| {
        s.encode_next()?.encode_array(&t.a)?;
        s.push(t.b)?;
        Ok(())
    }),
    |d| d.decode_sequence(|s| {
        let a = s.decode_next()?.decode_array()?;
        Ok(Self { a, b: s.next()? })
    }));
api!(BytesAsArray { a: [u8; 5], b: u8 },
    |t, en| en.encode_sequence_fn(2usize, |s| {
        s.encode_next()?.encode_bytes(&t.a)?;
        s.push(t.b)?;
        Ok(())
    }),
    |d| d.decode_sequence(|s| {
        let a = s.decode_next()?.decode_array()?;
        Ok(Self { a, b: s.next()? })
    }));
api!(Vectored { a: [u8; 2], b: [u8; 3], c: u8 },
    |t, en| en.encode_sequence_fn(2usize, |s| {
        s.encode_next()?.encode_bytes_vectored(5, [&t.a[..], &t.b[..]])?;
        s.push(t.c)?;
        Ok(())
    }),
    |d| d.decode_sequence(|s| {
        use musli::Context;
        let cx = s.cx();
        let (x, y) = s.decode_next()?.decode_unsized_bytes(|b: &[u8]| match b {
            &[a, b, c, d, e] => Ok(([a, b], [c, d, e])),
            _ => Err(cx.message("bad length")),
        })?;
        Ok(Self { a: x, b: y, c: s.next()? })
    }));

// ---- what is left unread
macro_rules! unread {
    ($name:ident, |$t:ident, $en:ident| $encode:expr, |$d:ident| $decode:expr) => {
        api!($name { a: u8, b: u32, c: u16 },
            |t, en| en.encode_sequence_fn(2usize, |s| {
                let $t = t;
                let $en = s.encode_next()?;
                $encode?;
                s.push($t.c)?;
                Ok(())
            }),
            |d| d.decode_sequence(|s| {
                let $d = s.decode_next()?;
                let a = $decode?;
                Ok(Self { a, b: 0, c: s.next()? })
            }));
    };
}

unread!(UnreadSequence, |t, en| (t.a, t.b, t.c).encode_into(en), |d| d.decode_sequence(|s| s.next()));
unread!(UnreadMap, |t, en| map(en, t.a, t.b), |d| d.decode_map(|m| {
    use musli::Context;
    let cx = m.cx();
    let Some((_, a)) = m.entry::<u8, u8>()? else {
        return Err(cx.message("no entry"));
    };
    Ok(a)
}));
unread!(UnreadEntries, |t, en| map(en, t.a, t.b), |d| d.decode_map_entries(|m| {
    use musli::Context;
    let cx = m.cx();
    let Some(k) = m.decode_entry_key()? else {
        return Err(cx.message("no key"));
    };
    k.decode::<u8>()?;
    m.decode_entry_value()?.decode::<u8>()
}));
unread!(UnreadRemaining, |t, en| map(en, t.a, t.b), |d| d.decode_map(|m| {
    use musli::Context;
    let cx = m.cx();
    let Some((_, a)) = m.entry::<u8, u8>()? else {
        return Err(cx.message("no entry"));
    };
    m.decode_remaining_entries()?.end_entries()?;
    Ok(a)
}));
unread!(UnreadPack, |t, en| en.encode_pack_fn(|p| {
    p.push(t.a)?;
    p.push(t.b)?;
    Ok(())
}), |d| d.decode_pack(|p| p.next()));
unread!(Skipped, |t, en| en.encode_sequence_fn(2usize, |s| {
    s.push(t.b)?;
    s.push(t.a)?;
    Ok(())
}), |d| d.decode_sequence(|s| {
    s.decode_next()?.skip()?;
    s.next()
}));
unread!(SkippedKey, |t, en| map(en, t.a, t.b), |d| d.decode_map(|m| {
    use musli::Context;
    let cx = m.cx();
    let Some(mut e) = m.decode_entry()? else {
        return Err(cx.message("no entry"));
    };
    e.decode_key()?.skip()?;
    e.decode_value()?.decode()
}));
unread!(SkippedTag, |t, en| en.encode_variant_fn(|v| {
    v.encode_tag()?.encode(t.b)?;
    v.encode_data()?.encode(t.a)
}), |d| d.decode_variant(|v| {
    v.decode_tag()?.skip()?;
    v.decode_value()?.decode()
}));
unread!(Cloned, |t, en| en.encode(t.a), |d| {
    use musli::Context;
    let cx = d.cx();
    let Some(c) = d.try_clone() else {
        return Err(cx.message("not cloned"));
    };
    let a = c.decode::<u8>()?;
    if d.decode::<u8>()? != a {
        return Err(cx.message("clones differ"));
    }
    Ok(a)
});

trait EncodeInto {
    fn encode_into<E: Encoder>(&self, en: E) -> Result<(), E::Error>;
}

impl EncodeInto for (u8, u32, u16) {
    fn encode_into<E: Encoder>(&self, en: E) -> Result<(), E::Error> {
        en.encode_sequence_fn(3usize, |s| {
            s.push(self.0)?;
            s.push(self.1)?;
            s.push(self.2)?;
            Ok(())
        })
    }
}
