#![allow(clippy::too_many_arguments, clippy::type_complexity)]
/// Every binary that links this crate counts its heap.
#[global_allocator]
static A: alloc::Counting = alloc::Counting;
pub mod alloc;
pub mod engine;
pub mod obs;
pub mod refmodel;
pub mod wire;
pub mod corpus;
pub mod readers;
pub mod checks;
