#![allow(clippy::all)]
pub mod rat;
pub mod poly;
pub mod ctx;
pub mod smt;
pub mod bound;
pub mod sym;
pub mod engine;
pub mod spec;
mod traits;
mod faer_impl;
pub use sym::{consts, lit, Sym};

/// `expr as dtype`
pub trait CastTo {
    fn cast_sym(self) -> Sym;
}
macro_rules! cast { ($($t:ty),*) => { $(impl CastTo for $t { fn cast_sym(self) -> Sym { lit(self as f64) } })* } }
cast!(u8, u16, u32, u64, usize, i8, i16, i32, i64, isize, f32, f64);
impl CastTo for Sym {
    fn cast_sym(self) -> Sym {
        self
    }
}
pub fn cast<T: CastTo>(x: T) -> Sym {
    x.cast_sym()
}
