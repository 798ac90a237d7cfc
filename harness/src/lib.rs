#[macro_use]
pub mod sym;
include!("mods.rs");

#[cfg(not(replay))]
#[global_allocator]
static A: sym::Alloc = sym::Alloc;
