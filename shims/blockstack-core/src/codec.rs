use std::{fmt, io};

#[derive(Debug)]
pub enum Error {
    SerializeError(String),
    ReadError(io::Error),
    DeserializeError(String),
    WriteError(io::Error),
    UnderflowError(String),
    OverflowError(String),
    ArrayTooLong,
    SigningError(String),
    GenericError(String),
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Error::ReadError(e) | Error::WriteError(e) => write!(f, "{e}"),
            Error::ArrayTooLong => write!(f, "Array too long"),
            Error::SerializeError(s)
            | Error::DeserializeError(s)
            | Error::UnderflowError(s)
            | Error::OverflowError(s)
            | Error::SigningError(s)
            | Error::GenericError(s) => write!(f, "{s}"),
        }
    }
}
impl std::error::Error for Error {}

pub trait StacksMessageCodec {
    fn consensus_serialize<W: io::Write>(&self, fd: &mut W) -> Result<(), Error>
    where
        Self: Sized;
    fn consensus_deserialize<R: io::Read>(fd: &mut R) -> Result<Self, Error>
    where
        Self: Sized;
    fn serialize_to_vec(&self) -> Vec<u8>
    where
        Self: Sized,
    {
        let mut v = vec![];
        self.consensus_serialize(&mut v).expect("BUG: serialization to buffer failed.");
        v
    }
}

macro_rules! int {
    ($($t:ty),*) => {$(
        impl StacksMessageCodec for $t {
            fn consensus_serialize<W: io::Write>(&self, w: &mut W) -> Result<(), Error> {
                w.write_all(&self.to_be_bytes()).map_err(Error::WriteError)
            }
            fn consensus_deserialize<R: io::Read>(r: &mut R) -> Result<Self, Error> {
                let mut b = [0; std::mem::size_of::<$t>()];
                r.read_exact(&mut b).map_err(Error::ReadError)?;
                Ok(<$t>::from_be_bytes(b))
            }
        }
    )*};
}
int!(u8, u16, u32, u64, u128, i128);

pub(crate) fn take<R: io::Read>(r: &mut R, n: usize) -> Result<Vec<u8>, Error> {
    let mut b = vec![0; n];
    r.read_exact(&mut b).map_err(Error::ReadError)?;
    Ok(b)
}
