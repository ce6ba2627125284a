//! Reference model: an ECMAScript 2019 lexer and parser written from the standard, sharing nothing with giron.
pub mod lexer;
pub mod parser;
pub mod unitab;

pub use parser::{parse, parse_loose, Goal, Outcome, Reject};
