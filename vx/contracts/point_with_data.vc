%file primitives/point_with_data.rs
%module primitives::point_with_data
%prelude
broadcast use crate::num_axioms::num_laws;
use core::marker::PhantomData as PointExt; // not imported by the real file either
%item struct PointWithData
%item impl PointWithData::new
%ret r
%sig
    ensures r.point == point, r.data == data
%item impl PointWithData::position
%ret r
%sig
    ensures *r == self.point
%item impl RTreeObject for PointWithData
%extra
    open spec fn env(&self) -> AABB<P> { pt_box(self.point) }
    open spec fn valid(&self) -> bool { true }
%item impl RTreeObject for PointWithData::envelope
%item impl PointDistance for PointWithData
%opt inherit object.rs PointDistance distance_2_if_less_or_equal
%extra
    open spec fn pd2(&self, p: &P) -> real { self.point.pd2(p) }
    open spec fn at(&self, p: &P) -> bool { self.point.at(p) }
    proof fn dist_laws() {
        P::dist_laws();
        assert forall|a: Self, p: P| obj_ok(a) && #[trigger] a.at(&p) implies a.env().has_pt(&p) by { assert(obj_ok(a.point)); }
        assert forall|a: Self, p: P| obj_ok(a) implies a.env().d2(&p) <= #[trigger] a.pd2(&p) by { assert(obj_ok(a.point)); }
        assert forall|a: Self, p: P, d: real| obj_ok(a) && #[trigger] a.env().bound_ok(&p, d) implies a.pd2(&p) <= d by { assert(obj_ok(a.point)); }
    }
%item impl PointDistance for PointWithData::distance_2
%item impl PointDistance for PointWithData::contains_point
%item impl PointDistance for PointWithData::distance_2_if_less_or_equal
%at start
    proof { Self::dist_laws(); }
