//! A small interpreter of Clarity 2: it runs the contracts' own source text.
//! Semantics follow the language reference; a public call that returns an
//! error response or hits a runtime error leaves no trace in the state.
mod eval;
mod parse;
mod value;

pub use eval::{CallResult, Vm};
pub use parse::{parse, Expr};
pub use value::{Ty, V};

#[cfg(test)]
mod tests;
