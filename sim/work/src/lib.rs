//! The operations a scenario consists of, as a user of the library writes them. A crate of its own, so that it -
//! and with it the library's generic code, which is compiled where it is used - is instrumented like the library.
#![allow(dead_code)]
pub mod geom;
pub mod par;
