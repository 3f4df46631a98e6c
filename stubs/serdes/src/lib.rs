//! Stand-in for Expander's `serdes` crate (not available offline).
//! Little-endian fixed-width integers, usize as u64, length-prefixed vectors.
use std::collections::HashMap;
use std::hash::Hash;
use std::io::{Read, Write};

pub use serdes_derive::ExpSerde;

#[derive(Debug)]
pub enum SerdeError {
    IOError(std::io::Error),
    DeserializeError,
}
impl std::fmt::Display for SerdeError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for SerdeError {}
impl From<std::io::Error> for SerdeError {
    fn from(e: std::io::Error) -> Self {
        SerdeError::IOError(e)
    }
}
pub type SerdeResult<T> = Result<T, SerdeError>;

pub trait ExpSerde: Sized {
    fn serialize_into<W: Write>(&self, writer: W) -> SerdeResult<()>;
    fn deserialize_from<R: Read>(reader: R) -> SerdeResult<Self>;
}

macro_rules! int_serde {
    ($($t:ty),*) => {$(
        impl ExpSerde for $t {
            fn serialize_into<W: Write>(&self, mut writer: W) -> SerdeResult<()> {
                writer.write_all(&self.to_le_bytes())?;
                Ok(())
            }
            fn deserialize_from<R: Read>(mut reader: R) -> SerdeResult<Self> {
                let mut b = [0u8; std::mem::size_of::<$t>()];
                reader.read_exact(&mut b)?;
                Ok(<$t>::from_le_bytes(b))
            }
        }
    )*};
}
int_serde!(u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, f32, f64);

impl ExpSerde for usize {
    fn serialize_into<W: Write>(&self, writer: W) -> SerdeResult<()> {
        (*self as u64).serialize_into(writer)
    }
    fn deserialize_from<R: Read>(reader: R) -> SerdeResult<Self> {
        Ok(u64::deserialize_from(reader)? as usize)
    }
}
impl ExpSerde for bool {
    fn serialize_into<W: Write>(&self, writer: W) -> SerdeResult<()> {
        (*self as u8).serialize_into(writer)
    }
    fn deserialize_from<R: Read>(reader: R) -> SerdeResult<Self> {
        Ok(u8::deserialize_from(reader)? != 0)
    }
}
impl ExpSerde for () {
    fn serialize_into<W: Write>(&self, _: W) -> SerdeResult<()> {
        Ok(())
    }
    fn deserialize_from<R: Read>(_: R) -> SerdeResult<Self> {
        Ok(())
    }
}
impl ExpSerde for ethnum::U256 {
    fn serialize_into<W: Write>(&self, mut writer: W) -> SerdeResult<()> {
        writer.write_all(&self.to_le_bytes())?;
        Ok(())
    }
    fn deserialize_from<R: Read>(mut reader: R) -> SerdeResult<Self> {
        let mut b = [0u8; 32];
        reader.read_exact(&mut b)?;
        Ok(ethnum::U256::from_le_bytes(b))
    }
}
impl ExpSerde for String {
    fn serialize_into<W: Write>(&self, mut writer: W) -> SerdeResult<()> {
        self.len().serialize_into(&mut writer)?;
        writer.write_all(self.as_bytes())?;
        Ok(())
    }
    fn deserialize_from<R: Read>(mut reader: R) -> SerdeResult<Self> {
        let n = usize::deserialize_from(&mut reader)?;
        let mut v = Vec::new();
        for _ in 0..n {
            v.push(u8::deserialize_from(&mut reader)?);
        }
        String::from_utf8(v).map_err(|_| SerdeError::DeserializeError)
    }
}
impl<T: ExpSerde> ExpSerde for Vec<T> {
    fn serialize_into<W: Write>(&self, mut writer: W) -> SerdeResult<()> {
        self.len().serialize_into(&mut writer)?;
        for x in self {
            x.serialize_into(&mut writer)?;
        }
        Ok(())
    }
    fn deserialize_from<R: Read>(mut reader: R) -> SerdeResult<Self> {
        let n = usize::deserialize_from(&mut reader)?;
        let mut v = Vec::new();
        for _ in 0..n {
            v.push(T::deserialize_from(&mut reader)?);
        }
        Ok(v)
    }
}
impl<T: ExpSerde, const N: usize> ExpSerde for [T; N] {
    fn serialize_into<W: Write>(&self, mut writer: W) -> SerdeResult<()> {
        for x in self {
            x.serialize_into(&mut writer)?;
        }
        Ok(())
    }
    fn deserialize_from<R: Read>(mut reader: R) -> SerdeResult<Self> {
        let mut v = Vec::new();
        for _ in 0..N {
            v.push(T::deserialize_from(&mut reader)?);
        }
        v.try_into().map_err(|_| SerdeError::DeserializeError)
    }
}
impl<A: ExpSerde, B: ExpSerde> ExpSerde for (A, B) {
    fn serialize_into<W: Write>(&self, mut writer: W) -> SerdeResult<()> {
        self.0.serialize_into(&mut writer)?;
        self.1.serialize_into(&mut writer)
    }
    fn deserialize_from<R: Read>(mut reader: R) -> SerdeResult<Self> {
        Ok((A::deserialize_from(&mut reader)?, B::deserialize_from(&mut reader)?))
    }
}
impl<A: ExpSerde, B: ExpSerde, C: ExpSerde> ExpSerde for (A, B, C) {
    fn serialize_into<W: Write>(&self, mut writer: W) -> SerdeResult<()> {
        self.0.serialize_into(&mut writer)?;
        self.1.serialize_into(&mut writer)?;
        self.2.serialize_into(&mut writer)
    }
    fn deserialize_from<R: Read>(mut reader: R) -> SerdeResult<Self> {
        Ok((
            A::deserialize_from(&mut reader)?,
            B::deserialize_from(&mut reader)?,
            C::deserialize_from(&mut reader)?,
        ))
    }
}
impl<T: ExpSerde> ExpSerde for Option<T> {
    fn serialize_into<W: Write>(&self, mut writer: W) -> SerdeResult<()> {
        match self {
            None => false.serialize_into(&mut writer),
            Some(v) => {
                true.serialize_into(&mut writer)?;
                v.serialize_into(&mut writer)
            }
        }
    }
    fn deserialize_from<R: Read>(mut reader: R) -> SerdeResult<Self> {
        if bool::deserialize_from(&mut reader)? {
            Ok(Some(T::deserialize_from(&mut reader)?))
        } else {
            Ok(None)
        }
    }
}
impl<K: ExpSerde + Eq + Hash + Ord, V: ExpSerde> ExpSerde for HashMap<K, V> {
    fn serialize_into<W: Write>(&self, mut writer: W) -> SerdeResult<()> {
        self.len().serialize_into(&mut writer)?;
        let mut ks: Vec<&K> = self.keys().collect();
        ks.sort();
        for k in ks {
            k.serialize_into(&mut writer)?;
            self[k].serialize_into(&mut writer)?;
        }
        Ok(())
    }
    fn deserialize_from<R: Read>(mut reader: R) -> SerdeResult<Self> {
        let n = usize::deserialize_from(&mut reader)?;
        let mut m = HashMap::new();
        for _ in 0..n {
            let k = K::deserialize_from(&mut reader)?;
            let v = V::deserialize_from(&mut reader)?;
            m.insert(k, v);
        }
        Ok(m)
    }
}
