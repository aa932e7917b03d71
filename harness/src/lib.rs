pub mod env;
pub mod sig;
pub mod conc;
pub mod vecs;
pub mod hist;
pub mod histmut;
pub mod views;
pub mod concvec;
pub mod histmap;
pub mod maps;
#[cfg(feature = "serde")]
pub mod serde_;
#[cfg(feature = "debug")]
pub mod dbg;
