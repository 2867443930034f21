pub mod all {
pub use vstd::prelude::*;
pub use vstd::multiset::*;
pub use vstd::std_specs::ops::*;
pub use vstd::std_specs::cmp::*;
pub use core::cmp::Ordering;
pub use core::ops::{Add, Sub, Mul, Div, ControlFlow, Deref};
pub use alloc::vec::Vec;
pub use alloc::rc::Rc;
pub use alloc::sync::Arc;
pub use crate::vx::*;
pub use crate::num_traits;
pub use crate::num_traits::*;
pub use crate::envelope::*;
pub use crate::aabb::*;
pub use crate::point::*;
pub use crate::object::*;
pub use crate::params::*;
pub use crate::node::*;
pub use crate::rtree::*;
pub use crate::primitives::rectangle::*;
pub use crate::primitives::line::*;
pub use crate::primitives::cached_envelope::*;
pub use crate::primitives::geom_with_data::*;
pub use crate::primitives::object_ref::*;
pub use crate::primitives::point_with_data::*;
pub use crate::algorithm::rstar::*;
pub use crate::algorithm::selection_functions::*;
pub use crate::algorithm::iterators::*;
pub use crate::algorithm::removal::*;
pub use crate::heap::*;
pub use crate::algorithm::{removal, iterators, bulk_load, nearest_neighbor, intersection_iterator};
pub use crate::algorithm::nearest_neighbor::*;
pub use crate::algorithm::intersection_iterator::*;
pub use crate::algorithm::bulk_load::bulk_load_sequential::*;
pub use crate::algorithm::bulk_load::cluster_group_iterator::*;
} // mod all
