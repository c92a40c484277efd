#[macro_use]
pub mod hist;
pub mod bounds;
pub mod breed;
pub mod counted;
pub mod dispatch;
pub mod engine;
pub mod galloc;
pub mod hook;
pub mod plain;
pub mod shared;
pub mod tracked;
pub mod types;
pub mod walk;
pub mod world;

pub use bounds::{bounds, inside, invalid, Bounds, KINDS};
pub use dispatch::*;
pub use engine::*;
pub use hist::*;
pub use types::*;
pub use walk::*;
