//! Core of the exhaustive explorers: case runner, reference model, input
//! provenances, tracked elements, checking allocator and schedule explorer.

pub mod calloc;
pub mod ctx;
pub mod elem;
pub mod fops;
pub mod gens;
pub mod model;
pub mod ops;
pub mod probe;
pub mod sched;
pub mod shapes;
pub mod sweep;
pub mod track;

pub use ctx::*;
pub use elem::*;
pub use model::*;
pub use shapes::*;
