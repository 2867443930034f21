%file algorithm/bulk_load/mod.rs
%module algorithm::bulk_load
%prelude
pub use crate::algorithm::bulk_load::bulk_load_sequential::bulk_load_sequential;
