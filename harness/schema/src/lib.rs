pub mod ast;
pub mod emit;
pub mod lit;
pub mod model;
pub mod rng;
pub mod universe;
pub mod xml;
pub use val::Val;
