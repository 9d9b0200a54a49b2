//! The parts the checks share. Every check includes this as a module (not a library), so that it
//! can implement `Src` for just the streams it needs and compiles nothing else.
#![allow(dead_code, unused_macros, clippy::all)]
#[macro_use]
pub mod build;
pub mod ast;
pub mod gen;
pub mod model;
pub mod runner;
