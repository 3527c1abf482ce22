//! Simulated parties: the Bitcoin network, the nodes that serve it, and
//! independent readers of everything written to it.
pub mod btc;
pub mod electrum;
pub mod ops;
pub mod rpc;
pub mod script;
pub mod wallet;
