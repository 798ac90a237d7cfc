pub mod conc;
pub mod deep;
pub mod docs;
pub mod gen;
pub mod json;
pub mod long;
#[macro_use]
pub mod model;
pub mod nums;
pub mod out;
pub mod own;
pub mod strs;
pub mod t;
pub mod alter;
pub mod types;
pub mod unw;
pub mod user;
pub mod wide;

pub const TABLES: &[&[(&str, extern "C" fn())]] = &[t::TABLE, alter::TABLE, conc::TABLE, docs::TABLE, deep::TABLE, long::TABLE, nums::TABLE, out::TABLE, own::TABLE, strs::TABLE, types::TABLE, unw::TABLE, user::TABLE, wide::TABLE];
