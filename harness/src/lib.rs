//! Property harnesses.  The same source is compiled twice:
//!  * `sym` feature: to LLVM IR, executed symbolically by /verif/engine; `sym()` yields solver variables;
//!  * `native` feature: to machine code linked with the real crates; `sym()` yields recorded values.
#[macro_use]
pub mod api;
pub mod common;

macro_rules! parts {
    ($($feat:literal $m:ident),* $(,)?) => {
        $(#[cfg(any(feature = "native", feature = $feat))] pub mod $m;)*
        #[cfg(feature = "native")]
        pub fn table() -> Vec<(&'static str, fn())> {
            let mut v: Vec<(&'static str, fn())> = vec![];
            $(v.extend_from_slice($m::TABLE);)*
            v
        }
    };
}
parts! {
    "pitch" pitch,
    "values" values,
    "note" note,
    "tuple" tuple,
    "stored" stored,
    "repeats" repeats,
    "sets" sets,
    "query" query,
    "undo" undo,
    "text" text,
    "limits" limits,
}
