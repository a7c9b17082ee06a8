//! Harness functions: symbolic inputs, calls into pgdatetime, assertions.
//! The same code is compiled to LLVM IR for the symbolic executor and natively
//! (crate `native`) to replay counterexamples and sampled paths.
#![allow(clippy::all)]

#[macro_use]
pub mod vf;
pub mod gen;
pub mod model;
pub mod ser;
pub mod txt;

macro_rules! mods {
    ($($m:ident),* $(,)?) => {
        $(pub mod $m;)*
        pub fn all() -> Vec<(&'static str, fn())> {
            let mut v = vec![];
            $(v.extend_from_slice($m::LIST);)*
            v
        }
    };
}
mods!(calendar, tsarith, span, fields, text, prec, clock, dates, sums, words, history, forms, safety, raw, layout, blanks, notations, whole);
