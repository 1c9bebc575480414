//! Property-based tests of justjson: see /verif/DESIGN.md.

pub mod alloc;
pub mod common;
pub mod dict;

pub mod engine;
pub mod findings;
pub mod gens;
pub mod props;
pub mod refjson;

#[global_allocator]
static ALLOC: alloc::Alloc = alloc::Alloc;
