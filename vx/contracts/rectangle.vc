%file primitives/rectangle.rs
%module primitives::rectangle
%prelude
broadcast use crate::num_axioms::num_laws;
impl<P: Point> vstd::std_specs::convert::FromSpecImpl<AABB<P>> for Rectangle<P> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: AABB<P>) -> Self { Rectangle { aabb: v } }
}
%item struct Rectangle
%item impl Rectangle::from_corners
%ret r
%sig
    ensures b_le(r.aabb, r.aabb), forall|u: AABB<P>| #[trigger] b_le(r.aabb, u) <==> b_has(u, corner_1) && b_has(u, corner_2)
%item impl Rectangle::from_aabb
%ret r
%sig
    ensures r.aabb == aabb
%item impl Rectangle::lower
%ret r
%sig
    ensures r == self.aabb.lower
%item impl Rectangle::upper
%ret r
%sig
    ensures r == self.aabb.upper
%item impl From for Rectangle
%item impl From for Rectangle::from
%ret r
%sig
    ensures r.aabb == aabb
%item impl RTreeObject for Rectangle
%extra
    open spec fn env(&self) -> AABB<P> { self.aabb }
    open spec fn valid(&self) -> bool { b_solid(self.aabb) }
%item impl RTreeObject for Rectangle::envelope
%opt clone_pure
%item impl Rectangle::nearest_point
%ret r
%sig
    // belongs to the rectangle, realises its distance, and no point of the rectangle is closer
    ensures b_solid(self.aabb) ==> b_has(self.aabb, r),
        b_solid(self.aabb) ==> dist_sq(r, *query_point, P::DIMENSIONS as int) == self.pd2(query_point),
        forall|q: P| b_has(self.aabb, q) ==> self.pd2(query_point) <= #[trigger] dist_sq(q, *query_point, P::DIMENSIONS as int),
        forall|i: int| 0 <= i < P::DIMENSIONS ==> (#[trigger] r.c(i)).v() == clampv(self.aabb.lower.c(i).v(), self.aabb.upper.c(i).v(), query_point.c(i).v()),
%at tail
    proof {
        if b_solid(self.aabb) { c16_attained(self.aabb, *query_point, vx_r); }
        assert forall|q: P| b_has(self.aabb, q) implies self.pd2(query_point) <= #[trigger] dist_sq(q, *query_point, P::DIMENSIONS as int) by { c16_lower_bound(self.aabb, *query_point, q, P::DIMENSIONS as int); }
    }
%item impl PointDistance for Rectangle
%extra
    open spec fn pd2(&self, p: &P) -> real { d2_to(self.aabb, *p, P::DIMENSIONS as int) }
    open spec fn at(&self, p: &P) -> bool { b_has(self.aabb, *p) }
    proof fn dist_laws() {
        assert forall|a: Self, p: P, d: real| obj_ok(a) && #[trigger] a.env().bound_ok(&p, d) implies a.pd2(&p) <= d by { lemma_rect_bound(a.aabb, p, d); }
    }
%item impl PointDistance for Rectangle::distance_2
%at start
    proof {
        assert forall|d: P| (forall|i: int| 0 <= i < P::DIMENSIONS ==> (#[trigger] d.c(i)).v() == clampv(self.aabb.lower.c(i).v(), self.aabb.upper.c(i).v(), point.c(i).v()) - point.c(i).v())
            implies #[trigger] sumsq(d, P::DIMENSIONS as int) == d2_to(self.aabb, *point, P::DIMENSIONS as int) by { lemma_d2_sum(self.aabb, *point, d, P::DIMENSIONS as int); }
    }
%item impl PointDistance for Rectangle::contains_point
%item impl PointDistance for Rectangle::distance_2_if_less_or_equal
%postlude
pub proof fn lemma_rect_bound<P: Point>(a: AABB<P>, p: P, d: real)
    requires b_solid(a), b_bound(a, p, d)
    ensures d2_to(a, p, P::DIMENSIONS as int) <= d
{
    let (k, up) = choose|k: int, up: bool| #[trigger] face_in(a, p, d, k, up);
    lemma_rect_sum(a, p, k, up, P::DIMENSIONS as int);
}
pub proof fn lemma_rect_sum<P: Point>(a: AABB<P>, p: P, k: int, up: bool, n: int)
    requires b_solid(a), 0 <= n <= P::DIMENSIONS, 0 <= k < P::DIMENSIONS
    ensures d2_to(a, p, n) <= far_to(a, p, n) - if k < n { far(a, p, k) - sq(side(a, k, up) - p.c(k).v()) } else { 0real }
    decreases n
{
    if n > 0 {
        let i = n - 1;
        lemma_rect_sum(a, p, k, up, i);
        let (l, u, x) = (a.lower.c(i).v(), a.upper.c(i).v(), p.c(i).v());
        assert(l <= u);
        lemma_sq_mono(clampv(l, u, x) - x, l - x);
        lemma_sq_mono(clampv(l, u, x) - x, u - x);
    }
}
