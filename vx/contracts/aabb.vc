%file aabb.rs
%module aabb
%prelude
broadcast use crate::num_axioms::num_laws;

// ---------- derived implementations (stand-ins for #[derive]) ----------
impl<P: Point> Clone for AABB<P> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<P: Point> PartialEq for AABB<P> { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() } }

// ---------- interval reasoning, coordinate by coordinate ----------
pub open spec fn b_ok<P: Point>(a: AABB<P>) -> bool {
    forall|i: int| #![trigger a.lower.c(i)] #![trigger a.upper.c(i)] 0 <= i < P::DIMENSIONS ==> (a.lower.c(i)).v() <= P::Scalar::max_spec().v() && P::Scalar::min_spec().v() <= a.upper.c(i).v()
}
pub open spec fn b_solid<P: Point>(a: AABB<P>) -> bool {
    b_ok(a) && forall|i: int| #![trigger a.lower.c(i)] #![trigger a.upper.c(i)] 0 <= i < P::DIMENSIONS ==> (a.lower.c(i)).v() <= a.upper.c(i).v()
}
pub open spec fn b_le<P: Point>(a: AABB<P>, b: AABB<P>) -> bool {
    forall|i: int| #![trigger a.lower.c(i)] #![trigger a.upper.c(i)] #![trigger b.lower.c(i)] #![trigger b.upper.c(i)] 0 <= i < P::DIMENSIONS ==> b.lower.c(i).v() <= (a.lower.c(i)).v() && a.upper.c(i).v() <= b.upper.c(i).v()
}
pub open spec fn b_meets<P: Point>(a: AABB<P>, b: AABB<P>) -> bool {
    forall|i: int| #![trigger a.lower.c(i)] #![trigger a.upper.c(i)] #![trigger b.lower.c(i)] #![trigger b.upper.c(i)] 0 <= i < P::DIMENSIONS ==> (a.lower.c(i)).v() <= b.upper.c(i).v() && b.lower.c(i).v() <= a.upper.c(i).v()
}
pub open spec fn b_has<P: Point>(a: AABB<P>, p: P) -> bool {
    forall|i: int| #![trigger a.lower.c(i)] #![trigger a.upper.c(i)] #![trigger p.c(i)] 0 <= i < P::DIMENSIONS ==> (a.lower.c(i)).v() <= p.c(i).v() && p.c(i).v() <= a.upper.c(i).v()
}
pub open spec fn sq(x: real) -> real { x * x }
pub open spec fn rmin(x: real, y: real) -> real { if x < y { x } else { y } }
pub open spec fn rmax(x: real, y: real) -> real { if x > y { x } else { y } }
// the nearest value to x in the interval [l, u]
pub open spec fn clampv(l: real, u: real, x: real) -> real { rmin(u, rmax(l, x)) }
pub open spec fn d2_to<P: Point>(a: AABB<P>, p: P, n: int) -> real
    decreases n
{
    if n <= 0 { 0real } else { sq(clampv(a.lower.c(n - 1).v(), a.upper.c(n - 1).v(), p.c(n - 1).v()) - p.c(n - 1).v()) + d2_to(a, p, n - 1) }
}
// squared distances along one axis to the farther / nearer side
pub open spec fn far<P: Point>(a: AABB<P>, p: P, i: int) -> real { rmax(sq(a.lower.c(i).v() - p.c(i).v()), sq(a.upper.c(i).v() - p.c(i).v())) }
pub open spec fn near<P: Point>(a: AABB<P>, p: P, i: int) -> real { rmin(sq(a.lower.c(i).v() - p.c(i).v()), sq(a.upper.c(i).v() - p.c(i).v())) }
// squared distance to the farthest corner
pub open spec fn far_to<P: Point>(a: AABB<P>, p: P, n: int) -> real
    decreases n
{
    if n <= 0 { 0real } else { far(a, p, n - 1) + far_to(a, p, n - 1) }
}
// the side of axis k that `up` selects
pub open spec fn side<P: Point>(a: AABB<P>, k: int, up: bool) -> real { if up { a.upper.c(k).v() } else { a.lower.c(k).v() } }
// d is at least the squared distance from p to the farthest point of that face
pub open spec fn face_in<P: Point>(a: AABB<P>, p: P, d: real, k: int, up: bool) -> bool {
    0 <= k < P::DIMENSIONS && far_to(a, p, P::DIMENSIONS as int) - far(a, p, k) + sq(side(a, k, up) - p.c(k).v()) <= d
}
pub open spec fn b_bound<P: Point>(a: AABB<P>, p: P, d: real) -> bool {
    exists|k: int, up: bool| #[trigger] face_in(a, p, d, k, up)
}
pub open spec fn area_to<P: Point>(a: AABB<P>, n: int) -> real
    decreases n
{
    if n <= 0 { 1real } else { rmax(a.upper.c(n - 1).v() - a.lower.c(n - 1).v(), 0real) * area_to(a, n - 1) }
}
pub open spec fn perim_to<P: Point>(a: AABB<P>, n: int) -> real
    decreases n
{
    if n <= 0 { 0real } else { perim_to(a, n - 1) + (a.upper.c(n - 1).v() - a.lower.c(n - 1).v()) }
}

// ---------- lemmas ----------
pub proof fn lemma_sq_mono(x: real, y: real)
    requires 0real <= x <= y || y <= x <= 0real
    ensures sq(x) <= sq(y)
{
    assert(x * x <= y * y) by(nonlinear_arith) requires 0real <= x <= y || y <= x <= 0real;
}
pub proof fn lemma_sq_pos(x: real) ensures sq(x) >= 0real, x != 0real ==> sq(x) > 0real
{
    assert(x * x >= 0real) by(nonlinear_arith);
    if x != 0real { assert(x * x > 0real) by(nonlinear_arith) requires x != 0real; }
}
pub proof fn lemma_d2_mono<P: Point>(a: AABB<P>, b: AABB<P>, p: P, n: int)
    requires b_solid(a), b_le(a, b), 0 <= n <= P::DIMENSIONS
    ensures d2_to(b, p, n) <= d2_to(a, p, n)
    decreases n
{
    if n > 0 {
        lemma_d2_mono(a, b, p, n - 1);
        let i = n - 1;
        assert(a.lower.c(i).v() <= a.upper.c(i).v());
        assert(b.lower.c(i).v() <= a.lower.c(i).v() && a.upper.c(i).v() <= b.upper.c(i).v());
        let x = p.c(i).v();
        lemma_sq_mono(clampv(b.lower.c(i).v(), b.upper.c(i).v(), x) - x, clampv(a.lower.c(i).v(), a.upper.c(i).v(), x) - x);
    }
}
pub proof fn lemma_d2_pos<P: Point>(a: AABB<P>, p: P, n: int)
    requires 0 <= n <= P::DIMENSIONS
    ensures d2_to(a, p, n) >= 0real
    decreases n
{
    if n > 0 { lemma_d2_pos(a, p, n - 1); lemma_sq_pos(clampv(a.lower.c(n - 1).v(), a.upper.c(n - 1).v(), p.c(n - 1).v()) - p.c(n - 1).v()); }
}
pub proof fn lemma_d2_zero<P: Point>(a: AABB<P>, p: P, n: int)
    requires b_has(a, p), 0 <= n <= P::DIMENSIONS
    ensures d2_to(a, p, n) == 0real
    decreases n
{
    if n > 0 { lemma_d2_zero(a, p, n - 1); assert(a.lower.c(n - 1).v() <= p.c(n - 1).v()); assert(0real * 0real == 0real) by(nonlinear_arith); }
}
pub proof fn lemma_far_pos<P: Point>(a: AABB<P>, p: P, n: int)
    requires 0 <= n <= P::DIMENSIONS
    ensures far_to(a, p, n) >= 0real, forall|k: int| 0 <= k < n ==> far_to(a, p, n) >= #[trigger] far(a, p, k)
    decreases n
{
    if n > 0 {
        lemma_far_pos(a, p, n - 1);
        lemma_sq_pos(a.lower.c(n - 1).v() - p.c(n - 1).v());
    }
}
pub proof fn lemma_far_mono<P: Point>(a: AABB<P>, b: AABB<P>, p: P, n: int)
    requires b_solid(a), b_le(a, b), 0 <= n <= P::DIMENSIONS
    ensures far_to(a, p, n) <= far_to(b, p, n), forall|k: int| 0 <= k < n ==> far_to(a, p, n) - far(a, p, k) <= far_to(b, p, n) - #[trigger] far(b, p, k)
    decreases n
{
    if n > 0 {
        lemma_far_mono(a, b, p, n - 1);
        let i = n - 1;
        assert(a.lower.c(i).v() <= a.upper.c(i).v());
        assert(b.lower.c(i).v() <= a.lower.c(i).v() && a.upper.c(i).v() <= b.upper.c(i).v());
        lemma_far1(a.lower.c(i).v(), a.upper.c(i).v(), b.lower.c(i).v(), b.upper.c(i).v(), p.c(i).v());
    }
}
pub proof fn lemma_far1(l: real, u: real, bl: real, bu: real, x: real)
    requires bl <= l <= u <= bu
    ensures rmax(sq(l - x), sq(u - x)) <= rmax(sq(bl - x), sq(bu - x))
{
    if l - x <= 0real { lemma_sq_mono(l - x, bl - x); } else { lemma_sq_mono(l - x, bu - x); }
    if u - x <= 0real { lemma_sq_mono(u - x, bl - x); } else { lemma_sq_mono(u - x, bu - x); }
}
// sum of a sequence whose entry k is replaced
pub proof fn lemma_sum_far<P: Point>(r: P, a: AABB<P>, p: P, k: int, n: int)
    requires 0 <= n <= P::DIMENSIONS, 0 <= k < P::DIMENSIONS,
        forall|j: int| 0 <= j < P::DIMENSIONS ==> (#[trigger] r.c(j)).v() == if j == k { near(a, p, j) } else { far(a, p, j) }
    ensures sum_of(r, n) == far_to(a, p, n) - if k < n { far(a, p, k) - near(a, p, k) } else { 0real }
    decreases n
{
    if n > 0 { lemma_sum_far(r, a, p, k, n - 1); assert(r.c(n - 1).v() == if n - 1 == k { near(a, p, n - 1) } else { far(a, p, n - 1) }); }
}
// a least box around a finite sequence of boxes touches one of them on every side
pub open spec fn b_tight<P: Point>(e: AABB<P>, s: Seq<AABB<P>>) -> bool {
    b_ok(e) && forall|u: AABB<P>| b_ok(u) ==> (#[trigger] b_le(e, u) <==> (forall|i: int| 0 <= i < s.len() ==> b_le(#[trigger] s[i], u)))
}
pub proof fn lemma_argmin<P: Point>(s: Seq<AABB<P>>, k: int, n: int) -> (i: int)
    requires 0 < n <= s.len()
    ensures 0 <= i < n, forall|j: int| 0 <= j < n ==> s[i].lower.c(k).v() <= (#[trigger] s[j]).lower.c(k).v()
    decreases n
{
    if n == 1 { 0 } else { let i = lemma_argmin(s, k, n - 1); if s[n - 1].lower.c(k).v() < s[i].lower.c(k).v() { n - 1 } else { i } }
}
pub proof fn lemma_argmax<P: Point>(s: Seq<AABB<P>>, k: int, n: int) -> (i: int)
    requires 0 < n <= s.len()
    ensures 0 <= i < n, forall|j: int| 0 <= j < n ==> (#[trigger] s[j]).upper.c(k).v() <= s[i].upper.c(k).v()
    decreases n
{
    if n == 1 { 0 } else { let i = lemma_argmax(s, k, n - 1); if s[i].upper.c(k).v() < s[n - 1].upper.c(k).v() { n - 1 } else { i } }
}
pub proof fn lemma_touch<P: Point>(e: AABB<P>, s: Seq<AABB<P>>, k: int, up: bool) -> (i: int)
    requires b_tight(e, s), s.len() > 0, 0 <= k < P::DIMENSIONS, forall|i: int| 0 <= i < s.len() ==> b_solid(#[trigger] s[i])
    ensures 0 <= i < s.len(), side(s[i], k, up) == side(e, k, up), b_le(s[i], e)
{
    assert(b_le(e, e));
    if up {
        let i = lemma_argmax(s, k, s.len() as int);
        let m = s[i].upper.c(k);
        let q = P::make(|j: int| if j == k { m } else { e.upper.c(j) });
        let u = AABB { lower: e.lower, upper: q };
        assert(b_solid(s[i]));
        assert(s[i].lower.c(k).v() <= P::Scalar::max_spec().v());
        assert forall|j: int| 0 <= j < P::DIMENSIONS implies (#[trigger] u.lower.c(j)).v() <= P::Scalar::max_spec().v() && P::Scalar::min_spec().v() <= u.upper.c(j).v() by { assert(e.lower.c(j).v() <= P::Scalar::max_spec().v()); assert(u.upper.c(j) == if j == k { m } else { e.upper.c(j) }); }
        assert forall|j: int| 0 <= j < s.len() implies b_le(#[trigger] s[j], u) by {
            assert(b_le(s[j], e));
            assert forall|x: int| 0 <= x < P::DIMENSIONS implies u.lower.c(x).v() <= (#[trigger] s[j].lower.c(x)).v() && s[j].upper.c(x).v() <= u.upper.c(x).v() by { assert(u.upper.c(x) == if x == k { m } else { e.upper.c(x) }); }
        }
        assert(b_le(e, u));
        assert(e.lower.c(k).v() == e.lower.c(k).v());
        assert(u.upper.c(k) == m);
        assert(e.upper.c(k).v() <= u.upper.c(k).v());
        assert(b_le(s[i], e));
        assert(s[i].lower.c(k).v() == s[i].lower.c(k).v());
        i
    } else {
        let i = lemma_argmin(s, k, s.len() as int);
        let m = s[i].lower.c(k);
        let q = P::make(|j: int| if j == k { m } else { e.lower.c(j) });
        let u = AABB { lower: q, upper: e.upper };
        assert(b_solid(s[i]));
        assert(s[i].lower.c(k).v() <= P::Scalar::max_spec().v());
        assert forall|j: int| 0 <= j < P::DIMENSIONS implies (#[trigger] u.lower.c(j)).v() <= P::Scalar::max_spec().v() && P::Scalar::min_spec().v() <= u.upper.c(j).v() by { assert(e.lower.c(j).v() <= P::Scalar::max_spec().v()); assert(u.lower.c(j) == if j == k { m } else { e.lower.c(j) }); }
        assert forall|j: int| 0 <= j < s.len() implies b_le(#[trigger] s[j], u) by {
            assert(b_le(s[j], e));
            assert forall|x: int| 0 <= x < P::DIMENSIONS implies u.lower.c(x).v() <= (#[trigger] s[j].lower.c(x)).v() && s[j].upper.c(x).v() <= u.upper.c(x).v() by { assert(u.lower.c(x) == if x == k { m } else { e.lower.c(x) }); }
        }
        assert(b_le(e, u));
        assert(u.lower.c(k) == m);
        assert(e.lower.c(k).v() >= u.lower.c(k).v());
        assert(b_le(s[i], e));
        assert(s[i].lower.c(k).v() >= e.lower.c(k).v());
        i
    }
}
pub open spec fn grown<P: Point>(a: AABB<P>, p: P, r: AABB<P>) -> bool {
    forall|i: int| #![trigger r.lower.c(i)] #![trigger r.upper.c(i)] 0 <= i < P::DIMENSIONS ==> r.lower.c(i).v() == rmin(a.lower.c(i).v(), p.c(i).v()) && r.upper.c(i).v() == rmax(a.upper.c(i).v(), p.c(i).v())
}
pub proof fn lemma_from_points<P: Point>(s: Seq<AABB<P>>, w: Seq<&P>, n: int)
    requires 0 <= n <= w.len(), s.len() == w.len() + 1,
        forall|j: int| 0 <= j < P::DIMENSIONS ==> (#[trigger] s[0].lower.c(j)) == P::Scalar::max_spec(),
        forall|j: int| 0 <= j < P::DIMENSIONS ==> (#[trigger] s[0].upper.c(j)) == P::Scalar::min_spec(),
        forall|k: int| 0 <= k < w.len() ==> grown(s[k], *w[k], #[trigger] s[k + 1]),
    ensures b_ok(s[n]), forall|u: AABB<P>| #[trigger] b_ok(u) ==> (b_le(s[n], u) <==> forall|k: int| 0 <= k < n ==> b_has(u, *#[trigger] w[k]))
    decreases n
{
    if n == 0 {
    } else {
        lemma_from_points(s, w, n - 1);
        let (a, r, p) = (s[n - 1], s[n - 1 + 1], *w[n - 1]);
        assert(grown(a, p, r));
        assert forall|u: AABB<P>| #[trigger] b_ok(u) implies (b_le(r, u) <==> forall|k: int| 0 <= k < n ==> b_has(u, *#[trigger] w[k])) by {
            assert(b_le(r, u) <==> b_le(a, u) && b_has(u, p)) by {
                if b_le(r, u) {
                    assert forall|i: int| 0 <= i < P::DIMENSIONS implies u.lower.c(i).v() <= (#[trigger] a.lower.c(i)).v() && a.upper.c(i).v() <= u.upper.c(i).v() by { assert(r.lower.c(i).v() >= u.lower.c(i).v()); }
                    assert forall|i: int| 0 <= i < P::DIMENSIONS implies (#[trigger] u.lower.c(i)).v() <= p.c(i).v() && p.c(i).v() <= u.upper.c(i).v() by { assert(r.lower.c(i).v() >= u.lower.c(i).v()); }
                }
                if b_le(a, u) && b_has(u, p) {
                    assert forall|i: int| 0 <= i < P::DIMENSIONS implies u.lower.c(i).v() <= (#[trigger] r.lower.c(i)).v() && r.upper.c(i).v() <= u.upper.c(i).v() by { assert(a.lower.c(i).v() >= u.lower.c(i).v()); assert(u.lower.c(i).v() <= p.c(i).v()); }
                }
            }
            if b_le(r, u) { assert forall|k: int| 0 <= k < n implies b_has(u, *#[trigger] w[k]) by { } }
            if forall|k: int| 0 <= k < n ==> b_has(u, *#[trigger] w[k]) { assert(b_has(u, *w[n - 1])); }
        }
    }
}
// the fold runs area / perimeter / sums make
pub proof fn lemma_area<P: Point>(s: Seq<P::Scalar>, a: AABB<P>, n: int)
    requires 0 <= n < s.len(), s[0].v() == 1real, forall|i: int| 0 <= i < n ==> (#[trigger] s[i + 1]).v() == rmax(a.upper.c(i).v() - a.lower.c(i).v(), 0real) * s[i].v()
    ensures s[n].v() == area_to(a, n)
    decreases n
{
    if n > 0 { lemma_area(s, a, n - 1); assert(s[n - 1 + 1].v() == rmax(a.upper.c(n - 1).v() - a.lower.c(n - 1).v(), 0real) * s[n - 1].v()); }
}
pub proof fn lemma_perim<P: Point>(d: P, a: AABB<P>, n: int)
    requires forall|i: int| 0 <= i < n ==> (#[trigger] d.c(i)).v() == a.upper.c(i).v() - a.lower.c(i).v()
    ensures sum_of(d, n) == perim_to(a, n)
    decreases n
{
    if n > 0 { lemma_perim(d, a, n - 1) }
}
pub proof fn lemma_d2_sum<P: Point>(a: AABB<P>, p: P, d: P, n: int)
    requires forall|i: int| 0 <= i < n ==> (#[trigger] d.c(i)).v() == clampv(a.lower.c(i).v(), a.upper.c(i).v(), p.c(i).v()) - p.c(i).v()
    ensures sumsq(d, n) == d2_to(a, p, n)
    decreases n
{
    if n > 0 { lemma_d2_sum(a, p, d, n - 1) }
}
// (x + y) / 2, in the scalar's own division
pub open spec fn midpoint<S: RTreeNum>(x: S, y: S) -> real { crate::num_axioms::quot::<S>(x.v() + y.v(), 2real) }
// the (possibly inverted) box of interval intersections
pub open spec fn meet_of<P: Point>(a: AABB<P>, b: AABB<P>, o: AABB<P>) -> bool {
    forall|i: int| 0 <= i < P::DIMENSIONS ==> (#[trigger] o.lower.c(i)).v() == rmax(a.lower.c(i).v(), b.lower.c(i).v()) && o.upper.c(i).v() == rmin(a.upper.c(i).v(), b.upper.c(i).v())
}
%item struct AABB
%item impl AABB::from_point
%opt clone_pure
%ret r
%sig
    ensures r.lower == p, r.upper == p
%item impl AABB::lower
%opt clone_pure
%ret r
%sig
    ensures r == self.lower
%item impl AABB::upper
%opt clone_pure
%ret r
%sig
    ensures r == self.upper
%item impl AABB::from_corners
%ret r
%sig
    ensures forall|i: int| #![trigger r.lower.c(i)] #![trigger r.upper.c(i)] 0 <= i < P::DIMENSIONS ==> r.lower.c(i).v() == rmin(p1.c(i).v(), p2.c(i).v()) && r.upper.c(i).v() == rmax(p1.c(i).v(), p2.c(i).v()),
        // the smallest box with both corners
        forall|u: Self| #[trigger] b_le(r, u) <==> b_has(u, p1) && b_has(u, p2),
%at start
%item impl AABB::from_bounds
%ret r
%sig
    requires forall|i: int| 0 <= i < P::DIMENSIONS ==> (#[trigger] lower.c(i)).v() <= upper.c(i).v()
    ensures r.lower == lower, r.upper == upper
%item impl AABB::from_center
%ret r
%sig
    ensures forall|i: int| #![trigger r.lower.c(i)] #![trigger r.upper.c(i)] 0 <= i < P::DIMENSIONS ==>
        r.lower.c(i).v() == rmin(center.c(i).v() - distance.v(), center.c(i).v() + distance.v())
        && r.upper.c(i).v() == rmax(center.c(i).v() - distance.v(), center.c(i).v() + distance.v())
%item impl AABB::from_points
%ret r
%sig
    // the smallest box containing all the points
    ensures b_ok(r), forall|u: Self| #[trigger] b_ok(u) ==> (b_le(r, u) <==> forall|k: int| 0 <= k < items(i).len() ==> b_has(u, *#[trigger] items(i)[k]))
%closure 0 |aabb: AABB<P>, p: &'a P| -> (r: AABB<P>)
    ensures forall|i: int| #![trigger r.lower.c(i)] #![trigger r.upper.c(i)] 0 <= i < P::DIMENSIONS ==> r.lower.c(i).v() == rmin(aabb.lower.c(i).v(), $1.c(i).v()) && r.upper.c(i).v() == rmax(aabb.upper.c(i).v(), $1.c(i).v())
%at tail
    proof {
        let w = items(i);
        let s = choose|s: Seq<Self>| #[trigger] is_run(s) && s.len() == w.len() + 1 && s[w.len() as int] == vx_r
            && (forall|j: int| 0 <= j < P::DIMENSIONS ==> (#[trigger] s[0].lower.c(j)) == P::Scalar::max_spec())
            && (forall|j: int| 0 <= j < P::DIMENSIONS ==> (#[trigger] s[0].upper.c(j)) == P::Scalar::min_spec())
            && forall|k: int| 0 <= k < w.len() ==> grown(s[k], *w[k], #[trigger] s[k + 1]);
        lemma_from_points(s, w, w.len() as int);
    }
%item impl AABB::min_point
%ret r
%sig
    ensures forall|i: int| 0 <= i < P::DIMENSIONS ==> (#[trigger] r.c(i)).v() == clampv(self.lower.c(i).v(), self.upper.c(i).v(), point.c(i).v())
%item impl AABB::distance_2
%ret r
%sig
    ensures r.v() == d2_to(*self, *point, P::DIMENSIONS as int)
%at start
    proof {
        if b_has(*self, *point) { lemma_d2_zero(*self, *point, P::DIMENSIONS as int); }
        assert forall|d: P| (forall|i: int| 0 <= i < P::DIMENSIONS ==> (#[trigger] d.c(i)).v() == clampv(self.lower.c(i).v(), self.upper.c(i).v(), point.c(i).v()) - point.c(i).v())
            implies #[trigger] sumsq(d, P::DIMENSIONS as int) == d2_to(*self, *point, P::DIMENSIONS as int) by { lemma_d2_sum(*self, *point, d, P::DIMENSIONS as int); }
    }
%item impl Envelope for AABB
%extra
    open spec fn ok(&self) -> bool { b_ok(*self) }
    open spec fn solid(&self) -> bool { b_solid(*self) }
    open spec fn le(&self, o: &Self) -> bool { b_le(*self, *o) }
    open spec fn meets(&self, o: &Self) -> bool { b_meets(*self, *o) }
    open spec fn has_pt(&self, p: &P) -> bool { b_has(*self, *p) }
    open spec fn d2(&self, p: &P) -> real { d2_to(*self, *p, P::DIMENSIONS as int) }
    open spec fn ctr(&self, i: int) -> real { midpoint(self.lower.c(i), self.upper.c(i)) }
    open spec fn bound_ok(&self, p: &P, d: real) -> bool { b_bound(*self, *p, d) }
    proof fn laws() {
        assert forall|a: Self, b: Self, c: Self| #[trigger] a.le(&b) && #[trigger] b.le(&c) implies a.le(&c) by {
            assert forall|i: int| 0 <= i < P::DIMENSIONS implies c.lower.c(i).v() <= (#[trigger] a.lower.c(i)).v() && a.upper.c(i).v() <= c.upper.c(i).v() by { assert(b.lower.c(i).v() == b.lower.c(i).v()); }
        }
        assert forall|a: Self, b: Self, c: Self| #[trigger] a.meets(&b) && #[trigger] b.le(&c) implies a.meets(&c) by {
            assert forall|i: int| 0 <= i < P::DIMENSIONS implies (#[trigger] a.lower.c(i)).v() <= c.upper.c(i).v() && c.lower.c(i).v() <= a.upper.c(i).v() by { assert(b.lower.c(i).v() == b.lower.c(i).v()); }
        }
        assert forall|a: Self, b: Self| #[trigger] a.meets(&b) implies b.meets(&a) by {
            assert forall|i: int| 0 <= i < P::DIMENSIONS implies (#[trigger] b.lower.c(i)).v() <= a.upper.c(i).v() && a.lower.c(i).v() <= b.upper.c(i).v() by { assert(a.lower.c(i).v() == a.lower.c(i).v()); }
        }
        assert forall|a: Self, b: Self| a.solid() && #[trigger] a.le(&b) implies b.meets(&a) by {
            assert forall|i: int| 0 <= i < P::DIMENSIONS implies (#[trigger] b.lower.c(i)).v() <= a.upper.c(i).v() && a.lower.c(i).v() <= b.upper.c(i).v() by { assert(a.lower.c(i).v() == a.lower.c(i).v()); }
        }
        assert forall|a: Self, b: Self, p: P| #[trigger] a.le(&b) && #[trigger] a.has_pt(&p) implies b.has_pt(&p) by {
            assert forall|i: int| 0 <= i < P::DIMENSIONS implies (#[trigger] b.lower.c(i)).v() <= p.c(i).v() && p.c(i).v() <= b.upper.c(i).v() by { assert(a.lower.c(i).v() == a.lower.c(i).v()); }
        }
        assert forall|a: Self, b: Self, p: P| a.solid() && #[trigger] a.le(&b) implies b.d2(&p) <= #[trigger] a.d2(&p) by {
            lemma_d2_mono(a, b, p, P::DIMENSIONS as int);
        }
    }
    proof fn law_bound(&self, p: &P, d1: real, d2: real) {
        let (k, up) = choose|k: int, up: bool| #[trigger] face_in(*self, *p, d1, k, up);
        assert(face_in(*self, *p, d2, k, up));
    }
    proof fn law_face(e: Self, s: Seq<Self>, p: &P, d: real) -> (r: int) {
        let (k, up) = choose|k: int, up: bool| #[trigger] face_in(e, *p, d, k, up);
        assert(b_tight(e, s)) by {
            assert forall|u: Self| b_ok(u) implies (#[trigger] b_le(e, u) <==> (forall|i: int| 0 <= i < s.len() ==> b_le(#[trigger] s[i], u))) by {
                assert(u.ok());
                assert(e.le(&u) == b_le(e, u));
                if b_le(e, u) { assert forall|i: int| 0 <= i < s.len() implies b_le(#[trigger] s[i], u) by { assert(s[i].le(&u)); } }
                if forall|i: int| 0 <= i < s.len() ==> b_le(#[trigger] s[i], u) { assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).le(&u) by { assert(b_le(s[i], u)); } }
            }
        }
        assert forall|i: int| 0 <= i < s.len() implies b_solid(#[trigger] s[i]) by { assert(s[i].solid()); }
        let i = lemma_touch(e, s, k, up);
        lemma_far_mono(s[i], e, *p, P::DIMENSIONS as int);
        assert(far_to(s[i], *p, P::DIMENSIONS as int) - far(s[i], *p, k) <= far_to(e, *p, P::DIMENSIONS as int) - far(e, *p, k));
        assert(face_in(s[i], *p, d, k, up));
        i
    }
%item impl Envelope for AABB::new_empty
%ret r
%sig
    ensures forall|i: int| #![trigger r.lower.c(i)] #![trigger r.upper.c(i)] 0 <= i < P::DIMENSIONS ==> r.lower.c(i) == P::Scalar::max_spec() && r.upper.c(i) == P::Scalar::min_spec()
%item impl Envelope for AABB::is_empty
%ret r
%sig
    ensures r == (self.lower.c(0).v() > self.upper.c(0).v())
%at start
    proof { P::dim_law(); }
%item impl Envelope for AABB::contains_point
%closure 0 |x: P::Scalar, y: P::Scalar| -> (r: bool)
    ensures r == $body
%closure 1 |x: P::Scalar, y: P::Scalar| -> (r: bool)
    ensures r == $body
%item impl Envelope for AABB::contains_envelope
%closure 0 |l: P::Scalar, r: P::Scalar| -> (q: bool)
    ensures q == $body
%closure 1 |l: P::Scalar, r: P::Scalar| -> (q: bool)
    ensures q == $body
%item impl Envelope for AABB::merge
%item impl Envelope for AABB::merged
%item impl Envelope for AABB::intersects
%closure 0 |l: P::Scalar, r: P::Scalar| -> (q: bool)
    ensures q == $body
%closure 1 |l: P::Scalar, r: P::Scalar| -> (q: bool)
    ensures q == $body
%item impl Envelope for AABB::area
%ret r
%sig
    ensures r.v() == area_to(*self, P::DIMENSIONS as int)
%closure 0 |acc: P::Scalar, cur: P::Scalar| -> (r: P::Scalar)
    ensures r.v() == rmax($1.v(), 0real) * $0.v()
%at tail
    proof {
        let s = choose|s: Seq<P::Scalar>| #[trigger] is_run(s) && s.len() == P::DIMENSIONS + 1 && s[0].v() == 1real && s[P::DIMENSIONS as int] == vx_r
            && forall|i: int| 0 <= i < P::DIMENSIONS ==> (#[trigger] s[i + 1]).v() == rmax(diag.c(i).v(), 0real) * s[i].v();
        assert forall|i: int| 0 <= i < P::DIMENSIONS implies (#[trigger] s[i + 1]).v() == rmax(self.upper.c(i).v() - self.lower.c(i).v(), 0real) * s[i].v() by { assert(diag.c(i).v() == self.upper.c(i).v() - self.lower.c(i).v()); }
        lemma_area(s, *self, P::DIMENSIONS as int);
    }
%item impl Envelope for AABB::distance_2
%item impl Envelope for AABB::min_max_dist_2
%attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
%subst let mut max_diff = ( => let mut max_diff: (P::Scalar, P::Scalar, usize) = (
%ret r
%sig
    // never more than the distance to the farthest corner
    ensures r.v() <= far_to(*self, *point, P::DIMENSIONS as int)
%loop 0
    invariant
        0 < P::DIMENSIONS,
        forall|j: int| 0 <= j < P::DIMENSIONS ==> (#[trigger] l.c(j)).v() == self.lower.c(j).v() - point.c(j).v(),
        forall|j: int| 0 <= j < P::DIMENSIONS ==> (#[trigger] u.c(j)).v() == self.upper.c(j).v() - point.c(j).v(),
        forall|j: int| 0 <= j < i ==> (#[trigger] result.c(j)).v() == far(*self, *point, j),
        // which axis is taken is a matter of how tight the bound is
        i > 0 ==> max_diff.2 < i && max_diff.1.v() == near(*self, *point, max_diff.2 as int),
        i == 0 ==> max_diff.0.v() == 0real && max_diff.1.v() == 0real,
%at beforeloop 0
    proof { P::dim_law(); }
%at loopstart 0
    assert(l.c(i as int).v() == self.lower.c(i as int).v() - point.c(i as int).v());
    assert(u.c(i as int).v() == self.upper.c(i as int).v() - point.c(i as int).v());
    proof {
        lemma_sq_pos(self.lower.c(i as int).v() - point.c(i as int).v());
        lemma_sq_pos(self.upper.c(i as int).v() - point.c(i as int).v());
    }
%at tail
    proof {
        let k = max_diff.2 as int;
        assert forall|j: int| 0 <= j < P::DIMENSIONS implies (#[trigger] result.c(j)).v() == if j == k { near(*self, *point, j) } else { far(*self, *point, j) } by { }
        let s = choose|s: Seq<P::Scalar>| #[trigger] is_run(s) && s.len() == P::DIMENSIONS + 1 && s[0].v() == 0real && s[P::DIMENSIONS as int] == vx_r
            && forall|i: int| 0 <= i < P::DIMENSIONS ==> (#[trigger] s[i + 1]).v() == s[i].v() + result.c(i).v();
        lemma_sum(s, result, P::DIMENSIONS as int);
        lemma_sum_far(result, *self, *point, k, P::DIMENSIONS as int);
        let up = sq(self.upper.c(k).v() - point.c(k).v()) <= sq(self.lower.c(k).v() - point.c(k).v());
        assert(face_in(*self, *point, vx_r.v(), k, up));
        assert(near(*self, *point, k) <= far(*self, *point, k));
    }
%closure 0 |acc: P::Scalar, curr: P::Scalar| -> (r: P::Scalar)
    ensures r.v() == $0.v() + $1.v()
%item impl Envelope for AABB::center
%ret r
%closure 0 |x: P::Scalar, y: P::Scalar| -> (r: P::Scalar)
    ensures r.v() == midpoint($0, $1)
%item impl Envelope for AABB::intersection_area
%ret r
%sig
    ensures exists|o: Self| #[trigger] meet_of(*self, *other, o) && r.v() == area_to(o, P::DIMENSIONS as int)
%opt bind_chain
%at tail
    assert(meet_of(*self, *other, vx_t));
%item impl Envelope for AABB::perimeter_value
%ret r
%sig
    ensures r.v() == rmax(perim_to(*self, P::DIMENSIONS as int), 0real)
%closure 0 |acc: P::Scalar, value: P::Scalar| -> (r: P::Scalar)
    ensures r.v() == $0.v() + $1.v()
%at after let:diag
    proof {
        lemma_perim(diag, *self, P::DIMENSIONS as int);
        assert forall|s: Seq<P::Scalar>| #[trigger] is_run(s) && s.len() == P::DIMENSIONS + 1 && s[0].v() == 0real
            && (forall|i: int| 0 <= i < P::DIMENSIONS ==> (#[trigger] s[i + 1]).v() == s[i].v() + diag.c(i).v())
            implies s[P::DIMENSIONS as int].v() == perim_to(*self, P::DIMENSIONS as int) by { lemma_sum(s, diag, P::DIMENSIONS as int); }
    }
%item impl Envelope for AABB::sort_envelopes
%free aabb_sort_envelopes
%sig
    requires axis < P::DIMENSIONS
    ensures final(envelopes)@.to_multiset() == old(envelopes)@.to_multiset(), final(envelopes)@.len() == old(envelopes)@.len()
%closure 0 |l: &T, r: &T| -> (q: Ordering)
    ensures q == crate::vx::ord(l.env().lower.c(axis as int).v(), r.env().lower.c(axis as int).v())
%item impl Envelope for AABB::partition_envelopes
%free aabb_partition_envelopes
%sig
    requires axis < P::DIMENSIONS, selection_size < old(envelopes)@.len()
    ensures final(envelopes)@.to_multiset() == old(envelopes)@.to_multiset(), final(envelopes)@.len() == old(envelopes)@.len()
%closure 0 |l: &T, r: &T| -> (q: Ordering)
    ensures q == crate::vx::ord(l.env().lower.c(axis as int).v(), r.env().lower.c(axis as int).v())
%postlude
// ---------- C15: the empty box ----------
pub proof fn c15_empty_is_neutral<P: Point>(e: AABB<P>, a: AABB<P>, m: AABB<P>)
    requires forall|i: int| #![trigger e.lower.c(i)] #![trigger e.upper.c(i)] 0 <= i < P::DIMENSIONS ==> e.lower.c(i) == P::Scalar::max_spec() && e.upper.c(i) == P::Scalar::min_spec(),
        b_ok(a), forall|u: AABB<P>| #[trigger] b_le(m, u) == (b_le(e, u) && b_le(a, u))
    ensures b_le(e, a), b_le(m, a), b_le(a, m),
        // and it is recognised as empty: C15's is_empty looks at axis 0
        e.lower.c(0).v() > e.upper.c(0).v()
{
    P::dim_law();
    assert(b_le(m, m));
}
// ---------- C16: the distance to a box is the least distance to its points ----------
pub proof fn c16_lower_bound<P: Point>(a: AABB<P>, p: P, q: P, n: int)
    requires b_has(a, q), 0 <= n <= P::DIMENSIONS
    ensures d2_to(a, p, n) <= dist_sq(q, p, n)
    decreases n
{
    if n > 0 {
        c16_lower_bound(a, p, q, n - 1);
        let i = n - 1;
        assert(a.lower.c(i).v() <= q.c(i).v() && q.c(i).v() <= a.upper.c(i).v());
        lemma_sq_mono(clampv(a.lower.c(i).v(), a.upper.c(i).v(), p.c(i).v()) - p.c(i).v(), q.c(i).v() - p.c(i).v());
    }
}
pub proof fn c16_attained<P: Point>(a: AABB<P>, p: P, q: P)
    requires b_solid(a), forall|i: int| 0 <= i < P::DIMENSIONS ==> (#[trigger] q.c(i)).v() == clampv(a.lower.c(i).v(), a.upper.c(i).v(), p.c(i).v())
    ensures b_has(a, q), d2_to(a, p, P::DIMENSIONS as int) == dist_sq(q, p, P::DIMENSIONS as int)
{
    assert forall|i: int| 0 <= i < P::DIMENSIONS implies (#[trigger] a.lower.c(i)).v() <= q.c(i).v() && q.c(i).v() <= a.upper.c(i).v() by { assert(a.lower.c(i).v() <= a.upper.c(i).v()); }
    c16_attained_sum(a, p, q, P::DIMENSIONS as int);
}
pub proof fn c16_attained_sum<P: Point>(a: AABB<P>, p: P, q: P, n: int)
    requires 0 <= n <= P::DIMENSIONS, forall|i: int| 0 <= i < P::DIMENSIONS ==> (#[trigger] q.c(i)).v() == clampv(a.lower.c(i).v(), a.upper.c(i).v(), p.c(i).v())
    ensures d2_to(a, p, n) == dist_sq(q, p, n)
    decreases n
{
    if n > 0 { c16_attained_sum(a, p, q, n - 1); assert(q.c(n - 1).v() == clampv(a.lower.c(n - 1).v(), a.upper.c(n - 1).v(), p.c(n - 1).v())); }
}
pub proof fn c16_zero_inside<P: Point>(a: AABB<P>, p: P)
    requires b_solid(a)
    ensures d2_to(a, p, P::DIMENSIONS as int) == 0real <==> b_has(a, p)
{
    if b_has(a, p) { lemma_d2_zero(a, p, P::DIMENSIONS as int); }
    else {
        let i = choose|i: int| 0 <= i < P::DIMENSIONS && !((#[trigger] a.lower.c(i)).v() <= p.c(i).v() && p.c(i).v() <= a.upper.c(i).v());
        assert(a.lower.c(i).v() <= a.upper.c(i).v());
        c16_positive(a, p, i, P::DIMENSIONS as int);
    }
}
pub proof fn c16_positive<P: Point>(a: AABB<P>, p: P, i: int, n: int)
    requires 0 <= i < n <= P::DIMENSIONS, clampv(a.lower.c(i).v(), a.upper.c(i).v(), p.c(i).v()) != p.c(i).v()
    ensures d2_to(a, p, n) > 0real
    decreases n
{
    lemma_d2_pos(a, p, n - 1);
    lemma_sq_pos(clampv(a.lower.c(n - 1).v(), a.upper.c(n - 1).v(), p.c(n - 1).v()) - p.c(n - 1).v());
    if i < n - 1 { c16_positive(a, p, i, n - 1); }
}
pub open spec fn pt_box<P: Point>(q: P) -> AABB<P> { AABB { lower: q, upper: q } }
// the min-max distance of the least box around some points reaches one of them
pub proof fn lemma_pts_tight<P: Point>(e: AABB<P>, w: Seq<P>)
    requires b_solid(e), forall|u: AABB<P>| #[trigger] b_ok(u) ==> (b_le(e, u) <==> forall|k: int| 0 <= k < w.len() ==> b_has(u, #[trigger] w[k]))
    ensures b_tight(e, w.map_values(|q: P| pt_box(q)))
{
    let s = w.map_values(|q: P| pt_box(q));
    assert forall|u: AABB<P>| b_ok(u) implies (#[trigger] b_le(e, u) <==> (forall|i: int| 0 <= i < s.len() ==> b_le(#[trigger] s[i], u))) by {
        if b_le(e, u) { assert forall|i: int| 0 <= i < s.len() implies b_le(#[trigger] s[i], u) by { assert(b_has(u, w[i])); } }
        if forall|i: int| 0 <= i < s.len() ==> b_le(#[trigger] s[i], u) {
            assert forall|i: int| 0 <= i < w.len() implies b_has(u, #[trigger] w[i]) by { assert(b_le(s[i], u)); }
        }
    }
}
pub proof fn c16_min_max<P: Point>(e: AABB<P>, w: Seq<P>, p: P, d: real) -> (r: int)
    // d: what min_max_dist_2 returns
    requires w.len() > 0, b_solid(e), b_bound(e, p, d), forall|i: int| 0 <= i < w.len() ==> b_ok(pt_box(#[trigger] w[i])),
        forall|u: AABB<P>| #[trigger] b_ok(u) ==> (b_le(e, u) <==> forall|k: int| 0 <= k < w.len() ==> b_has(u, #[trigger] w[k]))
    ensures 0 <= r < w.len(), dist_sq(w[r], p, P::DIMENSIONS as int) <= d
{
    let s = w.map_values(|q: P| pt_box(q));
    let (k, up) = choose|k: int, up: bool| #[trigger] face_in(e, p, d, k, up);
    lemma_pts_tight(e, w);
    assert forall|i: int| 0 <= i < s.len() implies b_solid(#[trigger] s[i]) by { assert(b_ok(pt_box(w[i]))); }
    let r = lemma_touch(e, s, k, up);
    assert(s[r] == pt_box(w[r]));
    lemma_far_mono(s[r], e, p, P::DIMENSIONS as int);
    c16_pt_far(w[r], p, P::DIMENSIONS as int);
    assert(far(s[r], p, k) == sq(side(s[r], k, up) - p.c(k).v()));
    assert(far_to(s[r], p, P::DIMENSIONS as int) - far(s[r], p, k) <= far_to(e, p, P::DIMENSIONS as int) - far(e, p, k));
    r
}
pub proof fn c16_pt_far<P: Point>(q: P, p: P, n: int)
    requires 0 <= n <= P::DIMENSIONS
    ensures far_to(pt_box(q), p, n) == dist_sq(q, p, n)
    decreases n
{
    if n > 0 { c16_pt_far(q, p, n - 1); }
}
