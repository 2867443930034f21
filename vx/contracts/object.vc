%file object.rs
%module object
%prelude
broadcast use crate::num_axioms::num_laws;
// an object whose envelope is a proper (non-empty, NaN-free) one
pub open spec fn obj_ok<T: RTreeObject>(t: T) -> bool { t.valid() && t.env().solid() }
%item type Distance
%subst T: PointDistance => T: RTreeObject
%item trait RTreeObject
%super Sized
%extra
    spec fn env(&self) -> Self::Envelope;
    // the implementor's own data invariant (for example: the cached envelope is the object's)
    spec fn valid(&self) -> bool;
%item trait RTreeObject::envelope
%ret r
%sig
    ensures r == self.env()
%item trait PointDistance
%super RTreeObject
%extra
    // squared distance, and "is at the point"
    spec fn pd2(&self, p: &<Self::Envelope as Envelope>::Point) -> real;
    spec fn at(&self, p: &<Self::Envelope as Envelope>::Point) -> bool;
    // what the implementor promises about its envelope
    proof fn dist_laws()
        ensures
            forall|a: Self, p: <Self::Envelope as Envelope>::Point| obj_ok(a) && #[trigger] a.at(&p) ==> a.env().has_pt(&p),
            forall|a: Self, p: <Self::Envelope as Envelope>::Point| #![trigger a.pd2(&p)] obj_ok(a) ==> a.env().d2(&p) <= a.pd2(&p),
            forall|a: Self, p: <Self::Envelope as Envelope>::Point, d: real| #![trigger a.env().bound_ok(&p, d)] obj_ok(a) && a.env().bound_ok(&p, d) ==> a.pd2(&p) <= d,
    ;
%item trait PointDistance::distance_2
%ret r
%sig
    ensures r.v() == self.pd2(point)
%item trait PointDistance::contains_point
%opt nodefault
%ret r
%sig
    ensures r == self.at(point)
%item trait PointDistance::contains_point#default_contains_point
%ret r
%sig
    ensures r == (vx_self.pd2(point) <= 0real)
%item trait PointDistance::distance_2_if_less_or_equal
%opt nodefault
%ret r
%sig
    requires obj_ok(*self)
    ensures match r { Some(d) => d.v() == self.pd2(point) && d.v() <= max_distance_2.v(), None => self.pd2(point) > max_distance_2.v() }
%item trait PointDistance::distance_2_if_less_or_equal#default_distance_2_if_less_or_equal
%ret r
%sig
    requires obj_ok(*vx_self)
    ensures match r { Some(d) => d.v() == vx_self.pd2(point) && d.v() <= max_distance_2.v(), None => vx_self.pd2(point) > max_distance_2.v() }
%at start
    proof { VxSelf::dist_laws(); }
%item impl RTreeObject for P
%extra
    open spec fn env(&self) -> AABB<P> { pt_box(*self) }
    open spec fn valid(&self) -> bool { true }
%item impl RTreeObject for P::envelope
%opt clone_pure
%item impl PointDistance for P
%extra
    open spec fn pd2(&self, p: &P) -> real { dist_sq(*self, *p, P::DIMENSIONS as int) }
    open spec fn at(&self, p: &P) -> bool { forall|i: int| 0 <= i < P::DIMENSIONS ==> #[trigger] self.c(i).v() == p.c(i).v() }
    proof fn dist_laws() {
        assert forall|a: P, p: P| #[trigger] a.at(&p) implies a.env().has_pt(&p) by {
            assert forall|i: int| 0 <= i < P::DIMENSIONS implies #[trigger] a.c(i).v() <= p.c(i).v() && p.c(i).v() <= a.c(i).v() by { }
        }
        assert forall|a: P, p: P| a.env().d2(&p) <= #[trigger] a.pd2(&p) by { c16_lower_bound(pt_box(a), p, a, P::DIMENSIONS as int); }
        assert forall|a: P, p: P, d: real| #[trigger] a.env().bound_ok(&p, d) implies a.pd2(&p) <= d by {
            let (k, up) = choose|k: int, up: bool| #[trigger] face_in(pt_box(a), p, d, k, up);
            c16_pt_far(a, p, P::DIMENSIONS as int);
        }
    }
%item impl PointDistance for P::distance_2
%item impl PointDistance for P::contains_point
%item impl PointDistance for P::distance_2_if_less_or_equal
%item impl RTreeObject for Arc
%subst RTreeObject + ?Sized => RTreeObject
%extra
    open spec fn env(&self) -> T::Envelope { (**self).env() }
    open spec fn valid(&self) -> bool { (**self).valid() }
%item impl RTreeObject for Arc::envelope
%item impl PointDistance for Arc
%subst PointDistance + ?Sized => PointDistance
%extra
    open spec fn pd2(&self, p: &<T::Envelope as Envelope>::Point) -> real { (**self).pd2(p) }
    open spec fn at(&self, p: &<T::Envelope as Envelope>::Point) -> bool { (**self).at(p) }
    proof fn dist_laws() { T::dist_laws(); }
%item impl PointDistance for Arc::distance_2
%item impl PointDistance for Arc::contains_point
%item impl PointDistance for Arc::distance_2_if_less_or_equal
%item impl RTreeObject for Rc
%subst RTreeObject + ?Sized => RTreeObject
%extra
    open spec fn env(&self) -> T::Envelope { (**self).env() }
    open spec fn valid(&self) -> bool { (**self).valid() }
%item impl RTreeObject for Rc::envelope
%item impl PointDistance for Rc
%subst PointDistance + ?Sized => PointDistance
%extra
    open spec fn pd2(&self, p: &<T::Envelope as Envelope>::Point) -> real { (**self).pd2(p) }
    open spec fn at(&self, p: &<T::Envelope as Envelope>::Point) -> bool { (**self).at(p) }
    proof fn dist_laws() { T::dist_laws(); }
%item impl PointDistance for Rc::distance_2
%item impl PointDistance for Rc::contains_point
%item impl PointDistance for Rc::distance_2_if_less_or_equal
