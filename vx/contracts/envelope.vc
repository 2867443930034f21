%file envelope.rs
%module envelope
%item trait Envelope
%super Clone + PartialEq
%extra
    // coordinates are in the range spanned by the scalar's min/max value (no NaN)
    spec fn ok(&self) -> bool;
    // ok and not empty
    spec fn solid(&self) -> bool;
    // self is contained in o
    spec fn le(&self, o: &Self) -> bool;
    spec fn meets(&self, o: &Self) -> bool;
    spec fn has_pt(&self, p: &Self::Point) -> bool;
    spec fn d2(&self, p: &Self::Point) -> real;
    // coordinate i of the center
    spec fn ctr(&self, i: int) -> real;
    // self is tight enough around an object that the object is no farther than d from p
    spec fn bound_ok(&self, p: &Self::Point, d: real) -> bool;

    proof fn laws()
        ensures
            forall|a: Self| #[trigger] a.le(&a),
            forall|a: Self, b: Self, c: Self| #[trigger] a.le(&b) && #[trigger] b.le(&c) ==> a.le(&c),
            forall|a: Self| #[trigger] a.solid() ==> a.ok(),
            forall|a: Self, b: Self| #![trigger a.le(&b), b.solid()] a.solid() && a.le(&b) && b.ok() ==> b.solid(),
            forall|a: Self, b: Self, c: Self| #[trigger] a.meets(&b) && #[trigger] b.le(&c) ==> a.meets(&c),
            forall|a: Self, b: Self| #[trigger] a.meets(&b) ==> b.meets(&a),
            forall|a: Self, b: Self| a.solid() && #[trigger] a.le(&b) ==> b.meets(&a),
            forall|a: Self, b: Self, p: Self::Point| #[trigger] a.le(&b) && #[trigger] a.has_pt(&p) ==> b.has_pt(&p),
            forall|a: Self, b: Self, p: Self::Point| #![trigger a.le(&b), a.d2(&p)] a.solid() && a.le(&b) ==> b.d2(&p) <= a.d2(&p),
    ;
    proof fn law_bound(&self, p: &Self::Point, d1: real, d2: real)
        requires self.bound_ok(p, d1), d1 <= d2
        ensures self.bound_ok(p, d2);
    // the least envelope around s inherits its bounds from some member of s
    proof fn law_face(e: Self, s: Seq<Self>, p: &Self::Point, d: real) -> (r: int)
        requires s.len() > 0, forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).solid(), e.ok(),
            forall|u: Self| u.ok() ==> (#[trigger] e.le(&u) <==> (forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).le(&u))),
            e.bound_ok(p, d)
        ensures 0 <= r < s.len(), s[r].bound_ok(p, d);
%item trait Envelope::new_empty
%ret r
%sig
    ensures r.ok(), forall|u: Self| u.ok() ==> #[trigger] r.le(&u)
%item trait Envelope::is_empty
%opt nodefault
%ret r
%sig
    requires self.ok()
    ensures r ==> !self.solid()
%item trait Envelope::contains_point
%ret r
%sig
    ensures r == self.has_pt(point)
%item trait Envelope::contains_envelope
%ret r
%sig
    ensures r == aabb.le(self)
%item trait Envelope::merge
%sig
    requires old(self).ok(), other.ok()
    ensures final(self).ok(), forall|u: Self| #[trigger] final(self).le(&u) == (old(self).le(&u) && other.le(&u))
%item trait Envelope::merged
%ret r
%sig
    requires self.ok(), other.ok()
    ensures r.ok(), forall|u: Self| #[trigger] r.le(&u) == (self.le(&u) && other.le(&u))
%item trait Envelope::intersects
%ret r
%sig
    ensures r == self.meets(other)
%item trait Envelope::intersection_area
%item trait Envelope::area
%item trait Envelope::distance_2
%ret r
%sig
    ensures r.v() == self.d2(point)
%item trait Envelope::min_max_dist_2
%ret r
%sig
    // how tight the bound is, is left open
    ensures self.solid() ==> self.bound_ok(point, r.v())
%item trait Envelope::center
%ret r
%sig
    ensures forall|i: int| 0 <= i < Self::Point::DIMENSIONS ==> (#[trigger] r.c(i)).v() == self.ctr(i)
%item trait Envelope::perimeter_value
%item trait Envelope::sort_envelopes
%drop moved to crate::vx::sort_envelopes (cyclic trait bound)
%item trait Envelope::partition_envelopes
%drop moved to crate::vx::partition_envelopes (cyclic trait bound)
