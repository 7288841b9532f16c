//! The same sources built without the feature `allow_multithreading`.
pub use i_overlay_seq as lib;
#[path = "../work/src/ops.rs"]
pub mod ops;
