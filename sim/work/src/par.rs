//! The library as it ships, with its threads simulated.
pub use i_overlay as lib;
#[path = "ops.rs"]
pub mod ops;
