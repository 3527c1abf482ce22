use std::{fmt, io};

use serde::{Deserialize, Serialize};

use crate::codec::{take, Error, StacksMessageCodec};

pub mod types;
pub use types::Value;

macro_rules! name {
    ($n:ident, $max:expr, $coded:expr, $ok:expr) => {
        #[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
        #[serde(transparent)]
        pub struct $n(String);
        impl $n {
            pub fn as_str(&self) -> &str {
                &self.0
            }
            pub fn len(&self) -> u8 {
                self.0.len() as u8
            }
            pub fn is_empty(&self) -> bool {
                self.0.is_empty()
            }
        }
        impl From<&str> for $n {
            fn from(s: &str) -> Self {
                Self::try_from(s.to_string()).unwrap()
            }
        }
        impl TryFrom<String> for $n {
            type Error = String;
            fn try_from(s: String) -> Result<Self, String> {
                let ok = !s.is_empty()
                    && s.len() <= $max
                    && $ok(&s);
                if ok {
                    Ok($n(s))
                } else {
                    Err(format!(concat!("bad ", stringify!($n), " {:?}"), s))
                }
            }
        }
        impl fmt::Display for $n {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.write_str(&self.0)
            }
        }
        impl AsRef<str> for $n {
            fn as_ref(&self) -> &str {
                &self.0
            }
        }
        impl std::ops::Deref for $n {
            type Target = str;
            fn deref(&self) -> &str {
                &self.0
            }
        }
        impl StacksMessageCodec for $n {
            fn consensus_serialize<W: io::Write>(&self, w: &mut W) -> Result<(), Error> {
                (self.0.len() as u8).consensus_serialize(w)?;
                w.write_all(self.0.as_bytes()).map_err(Error::WriteError)
            }
            fn consensus_deserialize<R: io::Read>(r: &mut R) -> Result<Self, Error> {
                let n = u8::consensus_deserialize(r)?;
                if n == 0 || n > $coded {
                    return Err(Error::DeserializeError(format!(concat!(stringify!($n), " of {} characters"), n)));
                }
                let s = String::from_utf8(take(r, n as usize)?).map_err(|_| Error::DeserializeError("utf8".into()))?;
                Self::try_from(s).map_err(Error::DeserializeError)
            }
        }
    };
}
/// `^[a-zA-Z]([a-zA-Z0-9]|[-_!?+<>=/*])*$|^[-+=/*]$|^[<>]=?$`
fn clarity_name(s: &str) -> bool {
    matches!(s, "-" | "+" | "=" | "/" | "*" | "<" | ">" | "<=" | ">=")
        || s.starts_with(|c: char| c.is_ascii_alphabetic())
            && s.chars().all(|c| c.is_ascii_alphanumeric() || "-_!?+<>=/*".contains(c))
}
/// `^[a-zA-Z]([a-zA-Z0-9]|[-_])*$|^__transient$`
fn contract_name(s: &str) -> bool {
    s == "__transient"
        || s.starts_with(|c: char| c.is_ascii_alphabetic())
            && s.chars().all(|c| c.is_ascii_alphanumeric() || "-_".contains(c))
}
// Contract names of more than 40 characters are known inside the virtual machine,
// for the sake of old ones, but not in messages.
name!(ClarityName, 128, 128, clarity_name);
name!(ContractName, 128, 40, contract_name);
