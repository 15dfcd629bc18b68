use ethnum::U256;
use std::collections::HashMap;
use std::hash::Hash;
use std::io::{Read, Write};

#[derive(Debug)]
pub enum SerdeError {
    IOError(std::io::Error),
    DeserializeError,
}
impl std::fmt::Display for SerdeError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for SerdeError {}
impl From<std::io::Error> for SerdeError {
    fn from(e: std::io::Error) -> Self {
        SerdeError::IOError(e)
    }
}
pub type SerdeResult<T> = std::result::Result<T, SerdeError>;

pub trait ExpSerde: Sized {
    fn serialize_into<W: Write>(&self, writer: W) -> SerdeResult<()>;
    fn deserialize_from<R: Read>(reader: R) -> SerdeResult<Self>;
}

macro_rules! ints {
    ($($t:ty),*) => {$(
        impl ExpSerde for $t {
            fn serialize_into<W: Write>(&self, mut w: W) -> SerdeResult<()> {
                w.write_all(&self.to_le_bytes())?;
                Ok(())
            }
            fn deserialize_from<R: Read>(mut r: R) -> SerdeResult<Self> {
                let mut b = [0u8; std::mem::size_of::<$t>()];
                r.read_exact(&mut b)?;
                Ok(<$t>::from_le_bytes(b))
            }
        }
    )*};
}
ints!(u8, u16, u32, u64, u128, i32, i64, f64);
impl ExpSerde for usize {
    fn serialize_into<W: Write>(&self, w: W) -> SerdeResult<()> {
        (*self as u64).serialize_into(w)
    }
    fn deserialize_from<R: Read>(r: R) -> SerdeResult<Self> {
        Ok(u64::deserialize_from(r)? as usize)
    }
}
impl ExpSerde for bool {
    fn serialize_into<W: Write>(&self, w: W) -> SerdeResult<()> {
        (*self as u8).serialize_into(w)
    }
    fn deserialize_from<R: Read>(r: R) -> SerdeResult<Self> {
        match u8::deserialize_from(r)? {
            0 => Ok(false),
            1 => Ok(true),
            _ => Err(SerdeError::DeserializeError),
        }
    }
}
impl ExpSerde for () {
    fn serialize_into<W: Write>(&self, _: W) -> SerdeResult<()> {
        Ok(())
    }
    fn deserialize_from<R: Read>(_: R) -> SerdeResult<Self> {
        Ok(())
    }
}
impl ExpSerde for U256 {
    fn serialize_into<W: Write>(&self, mut w: W) -> SerdeResult<()> {
        w.write_all(&self.to_le_bytes())?;
        Ok(())
    }
    fn deserialize_from<R: Read>(mut r: R) -> SerdeResult<Self> {
        let mut b = [0u8; 32];
        r.read_exact(&mut b)?;
        Ok(U256::from_le_bytes(b))
    }
}
impl ExpSerde for String {
    fn serialize_into<W: Write>(&self, w: W) -> SerdeResult<()> {
        self.as_bytes().to_vec().serialize_into(w)
    }
    fn deserialize_from<R: Read>(r: R) -> SerdeResult<Self> {
        String::from_utf8(Vec::<u8>::deserialize_from(r)?).map_err(|_| SerdeError::DeserializeError)
    }
}
impl<T: ExpSerde> ExpSerde for Vec<T> {
    fn serialize_into<W: Write>(&self, mut w: W) -> SerdeResult<()> {
        self.len().serialize_into(&mut w)?;
        for x in self {
            x.serialize_into(&mut w)?;
        }
        Ok(())
    }
    fn deserialize_from<R: Read>(mut r: R) -> SerdeResult<Self> {
        let n = usize::deserialize_from(&mut r)?;
        let mut v = Vec::with_capacity(n.min(1 << 12));
        for _ in 0..n {
            v.push(T::deserialize_from(&mut r)?);
        }
        Ok(v)
    }
}
impl<T: ExpSerde> ExpSerde for Option<T> {
    fn serialize_into<W: Write>(&self, mut w: W) -> SerdeResult<()> {
        match self {
            None => false.serialize_into(w),
            Some(x) => {
                true.serialize_into(&mut w)?;
                x.serialize_into(w)
            }
        }
    }
    fn deserialize_from<R: Read>(mut r: R) -> SerdeResult<Self> {
        Ok(if bool::deserialize_from(&mut r)? { Some(T::deserialize_from(r)?) } else { None })
    }
}
impl<T: ExpSerde, const N: usize> ExpSerde for [T; N] {
    fn serialize_into<W: Write>(&self, mut w: W) -> SerdeResult<()> {
        for x in self {
            x.serialize_into(&mut w)?;
        }
        Ok(())
    }
    fn deserialize_from<R: Read>(mut r: R) -> SerdeResult<Self> {
        let mut v = Vec::with_capacity(N);
        for _ in 0..N {
            v.push(T::deserialize_from(&mut r)?);
        }
        v.try_into().map_err(|_| SerdeError::DeserializeError)
    }
}
impl<K: ExpSerde + Eq + Hash, V: ExpSerde> ExpSerde for HashMap<K, V> {
    fn serialize_into<W: Write>(&self, mut w: W) -> SerdeResult<()> {
        self.len().serialize_into(&mut w)?;
        // in a fixed order: an order that depends on the hash seed here would be
        // the stub's, not the repository's
        let mut entries = Vec::new();
        for (k, v) in self {
            let mut e = Vec::new();
            k.serialize_into(&mut e)?;
            v.serialize_into(&mut e)?;
            entries.push(e);
        }
        entries.sort();
        for e in entries {
            w.write_all(&e)?;
        }
        Ok(())
    }
    fn deserialize_from<R: Read>(mut r: R) -> SerdeResult<Self> {
        let n = usize::deserialize_from(&mut r)?;
        let mut m = HashMap::new();
        for _ in 0..n {
            let k = K::deserialize_from(&mut r)?;
            m.insert(k, V::deserialize_from(&mut r)?);
        }
        Ok(m)
    }
}
macro_rules! tuples {
    ($(($($n:ident),+)),*) => {$(
        #[allow(non_snake_case)]
        impl<$($n: ExpSerde),+> ExpSerde for ($($n,)+) {
            fn serialize_into<W: Write>(&self, mut w: W) -> SerdeResult<()> {
                let ($($n,)+) = self;
                $($n.serialize_into(&mut w)?;)+
                Ok(())
            }
            fn deserialize_from<R: Read>(mut r: R) -> SerdeResult<Self> {
                Ok(($($n::deserialize_from(&mut r)?,)+))
            }
        }
    )*};
}
tuples!((A), (A, B), (A, B, C), (A, B, C, D), (A, B, C, D, E));
impl<T> ExpSerde for std::marker::PhantomData<T> {
    fn serialize_into<W: Write>(&self, _: W) -> SerdeResult<()> {
        Ok(())
    }
    fn deserialize_from<R: Read>(_: R) -> SerdeResult<Self> {
        Ok(std::marker::PhantomData)
    }
}
