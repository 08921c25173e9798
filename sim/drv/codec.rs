// Every key and value type the crate provides. Included with `ss` = the crate under test and with `ss` = the frozen pinned
// release. Keys are chosen by id; values are exchanged in a canonical byte form of the harness (not the crate's encoding).
use simcore::exec::{Out, PANIC, guarded};
use simcore::typed::{int_key, str_key, utf8, wide_key};
use ss::map::{Key, PostcardValue, SerializationError, Value};

/// A key type of the crate: the keys used for the ids 0..COUNT
pub trait TK: Key {
    const COUNT: u8;
    fn make(id: u8) -> Self;
    /// A key that is too long to be stored
    fn long() -> Option<Self> {
        None
    }
    /// Where the type itself has no room for such a key: the same type with more room is asked to encode one
    fn long_sibling() -> Option<Result<usize, SerializationError>> {
        None
    }
}

/// Encode a key of 65 541 bytes
#[inline(never)]
fn encode_long<K: Key>(k: &K) -> Result<usize, SerializationError> {
    k.serialize_into(&mut vec![0; 70_000])
}

macro_rules! int_tk {
    ($($t:ty),*) => {$(
        impl TK for $t {
            const COUNT: u8 = 64;
            fn make(id: u8) -> Self {
                let mut b = [0u8; size_of::<$t>()];
                int_key(id, &mut b);
                <$t>::from_le_bytes(b)
            }
        }
    )*};
}
int_tk!(u8, u16, u32, u64, u128, i8, i16, i32, i64, i128);

impl TK for () {
    const COUNT: u8 = 1;
    fn make(_: u8) -> Self {}
}
impl TK for [u8; 0] {
    const COUNT: u8 = 1;
    fn make(_: u8) -> Self {
        []
    }
}
macro_rules! arr_tk {
    ($($n:literal),*) => {$(
        impl TK for [u8; $n] {
            const COUNT: u8 = 64;
            fn make(id: u8) -> Self {
                let mut b = [0u8; $n];
                int_key(id, &mut b);
                b
            }
        }
    )*};
}
arr_tk!(1, 3, 16);

macro_rules! bytes_tk {
    ($t:ty, $cap:expr $(, $long:item)?) => {
        impl TK for $t {
            const COUNT: u8 = 64;
            $($long)?
            fn make(id: u8) -> Self {
                let b: Vec<u8> = wide_key(id, $cap);
                <$t>::try_from(&b[..]).ok().expect("fits")
            }
        }
    };
}
macro_rules! str_tk {
    ($t:ty, $cap:expr $(, $long:item)?) => {
        impl TK for $t {
            const COUNT: u8 = 64;
            $($long)?
            fn make(id: u8) -> Self {
                let s: String = str_key(id, $cap);
                <$t>::try_from(&s[..]).ok().expect("fits")
            }
        }
    };
}
bytes_tk!(Vec<u8>, 300, fn long() -> Option<Self> { Some(vec![0x33; 65_536]) });
bytes_tk!(arrayvec::ArrayVec<u8, 24>, 24, fn long_sibling() -> Option<Result<usize, SerializationError>> {
    Some(encode_long(&<arrayvec::ArrayVec<u8, 65_541>>::try_from(&[0x33u8; 65_541][..]).ok().expect("fits")))
});
bytes_tk!(arrayvec::ArrayVec<u8, 300>, 300, fn long_sibling() -> Option<Result<usize, SerializationError>> {
    Some(encode_long(&<arrayvec::ArrayVec<u8, 65_541>>::try_from(&[0x33u8; 65_541][..]).ok().expect("fits")))
});
bytes_tk!(heapless::Vec<u8, 24>, 24, fn long_sibling() -> Option<Result<usize, SerializationError>> {
    Some(encode_long(&<heapless::Vec<u8, 65_541>>::try_from(&[0x33u8; 65_541][..]).ok().expect("fits")))
});
bytes_tk!(heapless_09::Vec<u8, 24, u8>, 24, fn long_sibling() -> Option<Result<usize, SerializationError>> {
    Some(encode_long(&<heapless_09::Vec<u8, 65_541>>::try_from(&[0x33u8; 65_541][..]).ok().expect("fits")))
});
bytes_tk!(heapless_09::Vec<u8, 300>, 300, fn long_sibling() -> Option<Result<usize, SerializationError>> {
    Some(encode_long(&<heapless_09::Vec<u8, 65_541>>::try_from(&[0x33u8; 65_541][..]).ok().expect("fits")))
});
str_tk!(String, 300, fn long() -> Option<Self> { Some("x".repeat(65_541)) });
str_tk!(arrayvec::ArrayString<24>, 24, fn long_sibling() -> Option<Result<usize, SerializationError>> {
    Some(encode_long(&<arrayvec::ArrayString<65_541>>::try_from(&*"x".repeat(65_541)).ok().expect("fits")))
});
str_tk!(heapless::String<24>, 24, fn long_sibling() -> Option<Result<usize, SerializationError>> {
    Some(encode_long(&<heapless::String<65_541>>::try_from(&*"x".repeat(65_541)).ok().expect("fits")))
});
str_tk!(heapless::String<300>, 300, fn long_sibling() -> Option<Result<usize, SerializationError>> {
    Some(encode_long(&<heapless::String<65_541>>::try_from(&*"x".repeat(65_541)).ok().expect("fits")))
});
str_tk!(heapless_09::String<24, u8>, 24, fn long_sibling() -> Option<Result<usize, SerializationError>> {
    Some(encode_long(&<heapless_09::String<65_541>>::try_from(&*"x".repeat(65_541)).ok().expect("fits")))
});

/// A value type of the crate
pub trait TV {
    type Of<'a>: Value<'a>;
    /// Turn arbitrary bytes into the canonical form of some value
    fn norm(p: &[u8]) -> Vec<u8>;
    fn make(canon: &[u8]) -> Self::Of<'_>;
    fn canon(v: &Self::Of<'_>) -> Vec<u8>;
}

fn fit(p: &[u8], n: usize) -> Vec<u8> {
    let mut v = p.to_vec();
    let fill = if p.len() & 1 == 1 { 0xFF } else { 0 };
    v.resize(n, fill);
    v
}

macro_rules! num_tv {
    ($($t:ty),*) => {$(
        impl TV for $t {
            type Of<'a> = $t;
            fn norm(p: &[u8]) -> Vec<u8> {
                fit(p, size_of::<$t>())
            }
            fn make(c: &[u8]) -> $t {
                <$t>::from_le_bytes(c.try_into().unwrap())
            }
            fn canon(v: &$t) -> Vec<u8> {
                v.to_le_bytes().to_vec()
            }
        }
    )*};
}
num_tv!(u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, f32, f64);

macro_rules! arr_tv {
    ($($t:ty, $n:literal);*) => {$(
        impl TV for [$t; $n] {
            type Of<'a> = [$t; $n];
            fn norm(p: &[u8]) -> Vec<u8> {
                fit(p, size_of::<$t>() * $n)
            }
            fn make(c: &[u8]) -> [$t; $n] {
                const S: usize = size_of::<$t>();
                std::array::from_fn(|i| <$t>::from_le_bytes(c[i * S..(i + 1) * S].try_into().unwrap()))
            }
            fn canon(v: &[$t; $n]) -> Vec<u8> {
                v.iter().flat_map(|x| x.to_le_bytes()).collect()
            }
        }
    )*};
}
arr_tv!(u8, 0; u8, 5; u16, 3; i32, 4; u64, 2; f32, 3; i128, 1; i8, 7; f64, 2; i16, 1; u128, 2; u32, 2; i64, 1);

impl TV for bool {
    type Of<'a> = bool;
    fn norm(p: &[u8]) -> Vec<u8> {
        vec![p.iter().fold(0, |a, b| a ^ b) & 1]
    }
    fn make(c: &[u8]) -> bool {
        c[0] == 1
    }
    fn canon(v: &bool) -> Vec<u8> {
        vec![u8::from(*v)]
    }
}

pub struct Opt<T>(std::marker::PhantomData<T>);
impl<T: TV> TV for Opt<T> {
    type Of<'a> = Option<T::Of<'a>>;
    fn norm(p: &[u8]) -> Vec<u8> {
        if p.is_empty() || p[0] % 3 == 0 {
            vec![0]
        } else {
            let mut v = vec![1];
            v.extend(T::norm(&p[1..]));
            v
        }
    }
    fn make(c: &[u8]) -> Self::Of<'_> {
        if c[0] == 0 { None } else { Some(T::make(&c[1..])) }
    }
    fn canon(v: &Self::Of<'_>) -> Vec<u8> {
        match v {
            None => vec![0],
            Some(x) => {
                let mut v = vec![1];
                v.extend(T::canon(x));
                v
            }
        }
    }
}

pub struct Slice;
impl TV for Slice {
    type Of<'a> = &'a [u8];
    fn norm(p: &[u8]) -> Vec<u8> {
        p.to_vec()
    }
    fn make(c: &[u8]) -> &[u8] {
        c
    }
    fn canon(v: &&[u8]) -> Vec<u8> {
        v.to_vec()
    }
}

macro_rules! bytes_tv {
    ($t:ty, $cap:expr) => {
        impl TV for $t {
            type Of<'a> = $t;
            fn norm(p: &[u8]) -> Vec<u8> {
                p[..p.len().min($cap)].to_vec()
            }
            fn make(c: &[u8]) -> $t {
                <$t>::try_from(c).ok().expect("fits")
            }
            fn canon(v: &$t) -> Vec<u8> {
                v.to_vec()
            }
        }
    };
}
macro_rules! str_tv {
    ($t:ty, $cap:expr) => {
        impl TV for $t {
            type Of<'a> = $t;
            fn norm(p: &[u8]) -> Vec<u8> {
                utf8(p, $cap)
            }
            fn make(c: &[u8]) -> $t {
                <$t>::try_from(std::str::from_utf8(c).unwrap()).ok().expect("fits")
            }
            fn canon(v: &$t) -> Vec<u8> {
                v.as_bytes().to_vec()
            }
        }
    };
}
bytes_tv!(Vec<u8>, 60_000);
bytes_tv!(heapless::Vec<u8, 40>, 40);
bytes_tv!(heapless_09::Vec<u8, 40, u8>, 40);
str_tv!(String, 60_000);
str_tv!(heapless::String<40>, 40);
str_tv!(heapless_09::String<40>, 40);

/// A type serialized with postcard that borrows from the buffer
#[derive(Debug, PartialEq)]
pub struct Post<'a>((u32, &'a str, Option<i64>, &'a [u8], bool));
impl serde::Serialize for Post<'_> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        self.0.serialize(s)
    }
}
impl<'de> serde::Deserialize<'de> for Post<'de> {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        serde::Deserialize::deserialize(d).map(Post)
    }
}
impl<'a> PostcardValue<'a> for Post<'a> {}
impl TV for Post<'static> {
    type Of<'a> = Post<'a>;
    // canonical: number, flags, optional number, length of the string, string, bytes
    fn norm(p: &[u8]) -> Vec<u8> {
        let head = fit(&p[..p.len().min(13)], 13);
        let rest = &p[p.len().min(13)..];
        let half = (rest.len() / 3).min(50);
        let s = utf8(&rest[..half], 50);
        let mut v = head;
        v[4] &= 3;
        if v[4] & 1 == 0 {
            v[5..13].fill(0);
        }
        v.push(s.len() as u8);
        v.extend(s);
        v.extend(&rest[half..]);
        v
    }
    fn make(c: &[u8]) -> Post<'_> {
        let n = c[13] as usize;
        Post((
            u32::from_le_bytes(c[0..4].try_into().unwrap()),
            std::str::from_utf8(&c[14..14 + n]).unwrap(),
            (c[4] & 1 == 1).then(|| i64::from_le_bytes(c[5..13].try_into().unwrap())),
            &c[14 + n..],
            c[4] & 2 == 2,
        ))
    }
    fn canon(v: &Post<'_>) -> Vec<u8> {
        let v = &v.0;
        let mut o = v.0.to_le_bytes().to_vec();
        o.push(u8::from(v.2.is_some()) | (u8::from(v.4) << 1));
        o.extend(v.2.unwrap_or(0).to_le_bytes());
        o.push(v.1.len() as u8);
        o.extend(v.1.as_bytes());
        o.extend(v.3);
        o
    }
}

macro_rules! values_codec {
    ($($i:literal $t:ty),* $(,)?) => {
        pub const VALUES: u8 = [$($i),*].len() as u8;
        /// Canonical form of the value made from arbitrary bytes
        pub fn norm(vt: u8, p: &[u8]) -> Vec<u8> {
            match vt {
                $($i => <$t as TV>::norm(p),)*
                _ => unreachable!(),
            }
        }
        /// What the crate encodes a value to
        pub fn encode_value(vt: u8, canon: &[u8]) -> Result<Vec<u8>, String> {
            caught(|| {
                let mut buf = vec![0xEE; canon.len() * 2 + 64];
                let n = match vt {
                    $($i => Value::serialize_into(&<$t as TV>::make(canon), &mut buf),)*
                    _ => unreachable!(),
                };
                let n = n.map_err(|e| format!("{e:?}"))?;
                buf.truncate(n);
                Ok(buf)
            })
        }
        /// What the crate decodes an encoded value to
        pub fn decode_value(vt: u8, raw: &[u8]) -> Result<Vec<u8>, String> {
            caught(|| match vt {
                $($i => <<$t as TV>::Of<'_> as Value>::deserialize_from(raw).map(|(v, _)| <$t as TV>::canon(&v)),)*
                _ => unreachable!(),
            }.map_err(|e| format!("{e:?}")))
        }
    };
}

/// A panic in a codec is an unexpected error
fn caught<T>(f: impl FnOnce() -> Result<T, String>) -> Result<T, String> {
    match guarded(f) {
        Out::Done(r) => r,
        o => Err(format!("{PANIC} {:?}", o.map(|_| ()))),
    }
}

fn encode_key<K: TK>(id: u8) -> Result<Vec<u8>, String> {
    caught(|| {
        let mut buf = vec![0xEE; 400];
        let n = K::make(id).serialize_into(&mut buf).map_err(|e: SerializationError| format!("{e:?}"))?;
        buf.truncate(n);
        Ok(buf)
    })
}

fn decode_key<K: TK>(raw: &[u8]) -> Result<(Option<u8>, usize), String> {
    caught(|| {
        let (k, n) = K::deserialize_from(raw).map_err(|e| format!("{e:?}"))?;
        Ok(((0..K::COUNT).find(|i| K::make(*i) == k), n))
    })
}

macro_rules! keys_codec {
    ($($i:literal $k:ty, $r:literal $w:literal $e:literal $v:literal;)*) => {
        pub fn key_bytes(kt: u8, id: u8) -> Result<Vec<u8>, String> {
            match kt {
                $($i => encode_key::<$k>(id),)*
                _ => unreachable!(),
            }
        }
        /// id and length of an encoded key
        pub fn key_id(kt: u8, raw: &[u8]) -> Result<(Option<u8>, usize), String> {
            match kt {
                $($i => decode_key::<$k>(raw),)*
                _ => unreachable!(),
            }
        }
    };
}
