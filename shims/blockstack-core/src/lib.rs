//! A stand-in for blockstack-core (unavailable offline): the types and
//! functions a bridge uses, with the real consensus encoding, hashing and
//! signing, so that the simulated Stacks node decodes what a real one would.
pub mod burnchains;
pub mod chainstate;
pub mod codec;
pub mod core;
pub mod types;
pub mod util;
pub mod vm;

pub use vm as clarity_vm_types;
pub mod clarity {
    pub use crate::vm;
}
pub mod net {
    pub use crate::codec::Error;
}
