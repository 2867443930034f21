%file expanded/mint.rs
%module builtin::mint_points
%prelude
use super::point::calls;
// the mint crate's types, as documented: public fields x, y (and z)
pub mod mint {
    use vstd::prelude::*;
    #[verifier::allow(autoderive_clone_without_spec)]
    #[derive(Clone, Copy, PartialEq)]
    pub struct Point2<T> { pub x: T, pub y: T }
    #[verifier::allow(autoderive_clone_without_spec)]
    #[derive(Clone, Copy, PartialEq)]
    pub struct Point3<T> { pub x: T, pub y: T, pub z: T }
}
%item impl Point for Point2
%extra
    open spec fn c(&self, i: int) -> T { if i == 0 { self.x } else { self.y } }
    proof fn dim_law() {}
    proof fn make(f: spec_fn(int) -> T) -> (r: Self) { mint::Point2 { x: f(0), y: f(1) } }
    proof fn ext_law(a: &Self, b: &Self) { assert(a.c(0) == b.c(0)); assert(a.c(1) == b.c(1)); }
%item impl Point for Point2::generate
%opt fnmut_to_fn
%opt named_impl
%ret r
%item impl Point for Point2::generate#log_mint2
%opt gen_log
%ret r
%sig
    ensures final(vx_g).log() == old(vx_g).log() + calls(r)
%at start
    let ghost l0 = vx_g.log();
%at tail
    proof { assert(vx_g.log() =~= l0 + calls(vx_r)); }
%item impl Point for Point2::nth
%ret r
%item impl Point for Point2::nth_mut
%ret r
%item impl Point for Point3
%extra
    open spec fn c(&self, i: int) -> T { if i == 0 { self.x } else if i == 1 { self.y } else { self.z } }
    proof fn dim_law() {}
    proof fn make(f: spec_fn(int) -> T) -> (r: Self) { mint::Point3 { x: f(0), y: f(1), z: f(2) } }
    proof fn ext_law(a: &Self, b: &Self) { assert(a.c(0) == b.c(0)); assert(a.c(1) == b.c(1)); assert(a.c(2) == b.c(2)); }
%item impl Point for Point3::generate
%opt fnmut_to_fn
%opt named_impl
%ret r
%item impl Point for Point3::generate#log_mint3
%opt gen_log
%ret r
%sig
    ensures final(vx_g).log() == old(vx_g).log() + calls(r)
%at start
    let ghost l0 = vx_g.log();
%at tail
    proof { assert(vx_g.log() =~= l0 + calls(vx_r)); }
%item impl Point for Point3::nth
%ret r
%item impl Point for Point3::nth_mut
%ret r
