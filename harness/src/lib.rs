//! Harnesses for the symbolic executor `irx`. Every `h_*` entry makes its inputs symbolic through
//! `rt`, drives the real crates of /repo, and states the property as `check!`s against an oracle
//! that is written here, independently of the code under test.
#![allow(clippy::all)]

/// Without an allocator, things may fail; what they do if they don't is the same.
pub const NOALLOC: bool = cfg!(feature = "noalloc");

#[macro_use]
pub mod rt;
pub mod node;
pub mod rec;
pub mod shapes;

#[cfg(feature = "json")]
pub mod jsonref;

#[cfg(feature = "core")]
pub mod h_core;
#[cfg(feature = "json")]
pub mod h_json;
#[cfg(any(feature = "buffer", feature = "noalloc"))]
pub mod h_buffer;
#[cfg(feature = "fmt")]
pub mod h_fmt;
#[cfg(any(feature = "flatten", feature = "noalloc"))]
pub mod h_flatten;
#[cfg(any(feature = "nested", feature = "noalloc"))]
pub mod h_nested;
#[cfg(feature = "noalloc")]
pub mod h_noalloc;
#[cfg(feature = "serde")]
pub mod h_serde;
#[cfg(feature = "dynamic")]
pub mod h_dynamic;
#[cfg(feature = "ref")]
pub mod h_ref;
#[cfg(feature = "test")]
pub mod h_test;
#[cfg(feature = "exp")]
pub mod h_exp;
#[cfg(feature = "derive")]
pub mod derived;
#[cfg(feature = "derive")]
pub mod h_derive;

#[cfg(feature = "native")]
pub fn table() -> Vec<(&'static str, fn())> {
    #[allow(unused_mut)]
    let mut t: Vec<(&'static str, fn())> = Vec::new();
    #[cfg(feature = "core")]
    t.extend_from_slice(h_core::TABLE);
    #[cfg(feature = "json")]
    t.extend_from_slice(h_json::TABLE);
    #[cfg(any(feature = "buffer", feature = "noalloc"))]
    t.extend_from_slice(h_buffer::TABLE);
    #[cfg(feature = "fmt")]
    t.extend_from_slice(h_fmt::TABLE);
    #[cfg(any(feature = "flatten", feature = "noalloc"))]
    t.extend_from_slice(h_flatten::TABLE);
    #[cfg(any(feature = "nested", feature = "noalloc"))]
    t.extend_from_slice(h_nested::TABLE);
    #[cfg(feature = "noalloc")]
    t.extend_from_slice(h_noalloc::TABLE);
    #[cfg(feature = "serde")]
    t.extend_from_slice(h_serde::TABLE);
    #[cfg(feature = "jserde")]
    t.extend_from_slice(h_serde::json::TABLE);
    #[cfg(feature = "dynamic")]
    t.extend_from_slice(h_dynamic::TABLE);
    #[cfg(feature = "ref")]
    t.extend_from_slice(h_ref::TABLE);
    #[cfg(feature = "test")]
    t.extend_from_slice(h_test::TABLE);
    #[cfg(feature = "exp")]
    t.extend_from_slice(h_exp::TABLE);
    #[cfg(feature = "derive")]
    t.extend_from_slice(h_derive::TABLE);
    t
}
