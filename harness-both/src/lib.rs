#[macro_use]
#[path = "../../harness/src/sym.rs"]
pub mod sym;
include!("mods.rs");

#[cfg(not(replay))]
#[global_allocator]
static A: sym::Alloc = sym::Alloc;
