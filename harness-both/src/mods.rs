pub mod both;
#[path = "../../harness/src/gen.rs"]
pub mod gen;

pub const TABLES: &[&[(&str, extern "C" fn())]] = &[both::TABLE];
