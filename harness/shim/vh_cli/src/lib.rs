// the program itself, as a library
#![allow(dead_code, unused)]
include!("/repo/src/main.rs");
pub fn run() { let _ = main(); }
pub const VERSION: &str = env!("CARGO_PKG_VERSION");
