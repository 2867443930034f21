%file primitives/line.rs
%module primitives::line
%prelude
broadcast use crate::num_axioms::num_laws;
// the segment's direction, dotted with an offset, and its squared length
pub open spec fn seg_dot<P: Point>(a: P, b: P, q: P, n: int) -> real
    decreases n
{
    if n <= 0 { 0real } else { (q.c(n - 1).v() - a.c(n - 1).v()) * (b.c(n - 1).v() - a.c(n - 1).v()) + seg_dot(a, b, q, n - 1) }
}
// squared distance from q to the segment's point a + t (b - a)
pub open spec fn seg_d2<P: Point>(a: P, b: P, q: P, t: real, n: int) -> real
    decreases n
{
    if n <= 0 { 0real } else { sq(a.c(n - 1).v() + (b.c(n - 1).v() - a.c(n - 1).v()) * t - q.c(n - 1).v()) + seg_d2(a, b, q, t, n - 1) }
}
pub open spec fn seg_param<P: Point>(a: P, b: P, q: P) -> real {
    let l = dist_sq(b, a, P::DIMENSIONS as int);
    let s = seg_dot(a, b, q, P::DIMENSIONS as int) / l;
    if l == 0real { 1real } else if s <= 0real { 0real } else if s < 1real { s } else { 1real }
}
pub open spec fn on_seg<P: Point>(a: P, b: P, r: P, t: real) -> bool {
    0real <= t <= 1real && forall|i: int| 0 <= i < P::DIMENSIONS ==> (#[trigger] r.c(i)).v() == a.c(i).v() + (b.c(i).v() - a.c(i).v()) * t
}
pub proof fn lemma_square(w: real, b: real, t: real)
    ensures (w + b * t) * (w + b * t) == w * w + 2real * t * (w * b) + t * t * (b * b)
{
    assert((w + b * t) * (w + b * t) == w * w + 2real * t * (w * b) + t * t * (b * b)) by(nonlinear_arith);
}
pub proof fn lemma_cross(w: real, b: real, t: real)
    ensures 2real * t * ((-w) * b) == -(2real * t * (w * b))
{
    assert(2real * t * ((-w) * b) == -(2real * t * (w * b))) by(nonlinear_arith);
}
pub proof fn lemma_expand2(t: real, a: real, p1: real, c: real, p2: real)
    ensures 2real * t * (a + p1) == 2real * t * a + 2real * t * p1, t * t * (c + p2) == t * t * c + t * t * p2
{
    assert(2real * t * (a + p1) == 2real * t * a + 2real * t * p1) by(nonlinear_arith);
    assert(t * t * (c + p2) == t * t * c + t * t * p2) by(nonlinear_arith);
}
pub proof fn lemma_seg_expand<P: Point>(a: P, b: P, q: P, t: real, n: int)
    ensures seg_d2(a, b, q, t, n) == dist_sq(a, q, n) - 2real * t * seg_dot(a, b, q, n) + t * t * dist_sq(b, a, n)
    decreases n
{
    if n > 0 {
        lemma_seg_expand(a, b, q, t, n - 1);
        let (x, y, z) = (a.c(n - 1).v(), b.c(n - 1).v(), q.c(n - 1).v());
        let (p0, p1, p2) = (dist_sq(a, q, n - 1), seg_dot(a, b, q, n - 1), dist_sq(b, a, n - 1));
        lemma_square(x - z, y - x, t);
        let m = (y - x) * t;
        assert(x + m - z == (x - z) + m);
        lemma_cross(x - z, y - x, t);
        assert(z - x == -(x - z));
        lemma_expand2(t, (z - x) * (y - x), p1, (y - x) * (y - x), p2);
    }
}
pub proof fn lemma_dist_pos<P: Point>(a: P, b: P, n: int)
    ensures dist_sq(a, b, n) >= 0real, dist_sq(a, b, n) == 0real ==> forall|i: int| 0 <= i < n ==> (#[trigger] a.c(i)).v() == b.c(i).v()
    decreases n
{
    if n > 0 { lemma_dist_pos(a, b, n - 1); lemma_sq_pos(a.c(n - 1).v() - b.c(n - 1).v()); }
}
// a degenerate segment is a point
pub proof fn lemma_degenerate<P: Point>(a: P, b: P, q: P, n: int)
    requires forall|i: int| 0 <= i < n ==> (#[trigger] b.c(i)).v() == a.c(i).v()
    ensures seg_dot(a, b, q, n) == 0real
    decreases n
{
    if n > 0 { lemma_degenerate(a, b, q, n - 1); let z = q.c(n - 1).v() - a.c(n - 1).v(); assert(b.c(n - 1).v() == a.c(n - 1).v()); assert(z * 0real == 0real) by(nonlinear_arith); }
}
// the clamped projection minimises the distance over the segment
pub proof fn lemma_param_min<P: Point>(a: P, b: P, q: P, t: real)
    requires 0real <= t <= 1real
    ensures seg_d2(a, b, q, seg_param(a, b, q), P::DIMENSIONS as int) <= seg_d2(a, b, q, t, P::DIMENSIONS as int),
        0real <= seg_param(a, b, q) <= 1real
{
    let n = P::DIMENSIONS as int;
    let s = seg_param(a, b, q);
    lemma_seg_expand(a, b, q, t, n);
    lemma_seg_expand(a, b, q, s, n);
    lemma_dist_pos(b, a, n);
    let l = dist_sq(b, a, n);
    let d = seg_dot(a, b, q, n);
    let c = dist_sq(a, q, n);
    if l == 0real { lemma_degenerate(a, b, q, n); assert(t * t * 0real == 0real && s * s * 0real == 0real && 2real * t * 0real == 0real && 2real * s * 0real == 0real) by(nonlinear_arith); }
    else {
        let w = d / l;
        assert(d == w * l) by(nonlinear_arith) requires w == d / l, l != 0real;
        lemma_parabola(c, w, l, s, t);
    }
}
pub proof fn lemma_parabola(c: real, w: real, l: real, s: real, t: real)
    requires l > 0real, 0real <= t <= 1real, s == (if w <= 0real { 0real } else if w < 1real { w } else { 1real })
    ensures c - 2real * s * (w * l) + s * s * l <= c - 2real * t * (w * l) + t * t * l
{
    // f(t) - f(s) = l (t - s) (t + s - 2 w)
    let m = (t - s) * (t + s - 2real * w);
    assert(m >= 0real) by {
    if w <= 0real { lemma_pos(t, t - 2real * w); }
    else if w < 1real { lemma_pos2(t - s); }
    else { lemma_pos(1real - t, 2real * w - 1real - t); lemma_neg(1real - t, 2real * w - 1real - t); }
    }
    lemma_pos(l, m);
    lemma_m(t, s, w);
    lemma_dist4(l, t, s, w);
}
pub proof fn lemma_pos(a: real, b: real) requires a >= 0real, b >= 0real ensures a * b >= 0real { assert(a * b >= 0real) by(nonlinear_arith) requires a >= 0real, b >= 0real; }
pub proof fn lemma_pos2(a: real) ensures a * a >= 0real { assert(a * a >= 0real) by(nonlinear_arith); }
pub proof fn lemma_neg(a: real, b: real) ensures (-a) * (-b) == a * b { assert((-a) * (-b) == a * b) by(nonlinear_arith); }
pub proof fn lemma_m(t: real, s: real, w: real) ensures (t - s) * (t + s - 2real * w) == t * t - s * s - 2real * (t * w) + 2real * (s * w)
{ assert((t - s) * (t + s - 2real * w) == t * t - s * s - 2real * (t * w) + 2real * (s * w)) by(nonlinear_arith); }
pub proof fn lemma_d(l: real, a: real, b: real) ensures l * (a - b) == l * a - l * b { assert(l * (a - b) == l * a - l * b) by(nonlinear_arith); }
pub proof fn lemma_x(l: real, a: real) ensures l * (2real * a) == 2real * (l * a), l * a == a * l { assert(l * (2real * a) == 2real * (l * a)) by(nonlinear_arith); assert(l * a == a * l) by(nonlinear_arith); }
pub proof fn lemma_y(l: real, t: real, w: real) ensures 2real * t * (w * l) == 2real * (l * (t * w)) { assert(2real * t * (w * l) == 2real * (l * (t * w))) by(nonlinear_arith); }
pub proof fn lemma_dist4(l: real, t: real, s: real, w: real) 
  ensures l * (t * t - s * s - 2real * (t * w) + 2real * (s * w)) == t * t * l - s * s * l - 2real * t * (w * l) + 2real * s * (w * l)
{
  let a = t * t; let b = s * s; let c = t * w; let d = s * w;
  lemma_d(l, a - b, 2real * c - 2real * d);
  lemma_d(l, a, b); lemma_d(l, 2real * c, 2real * d);
  lemma_x(l, a); lemma_x(l, b); lemma_x(l, c); lemma_x(l, d); lemma_y(l, t, w); lemma_y(l, s, w);
  assert(a - b - 2real * c + 2real * d == (a - b) - (2real * c - 2real * d));
}
pub proof fn lemma_seg_pt<P: Point>(a: P, b: P, q: P, r: P, t: real, n: int)
    requires on_seg(a, b, r, t), 0 <= n <= P::DIMENSIONS
    ensures seg_d2(a, b, q, t, n) == dist_sq(r, q, n)
    decreases n
{
    if n > 0 { lemma_seg_pt(a, b, q, r, t, n - 1); assert(r.c(n - 1).v() == a.c(n - 1).v() + (b.c(n - 1).v() - a.c(n - 1).v()) * t); }
}
// every point of the segment lies in the box of its end points
pub proof fn lemma_seg_box<P: Point>(e: AABB<P>, a: P, b: P, r: P, t: real)
    requires b_has(e, a), b_has(e, b), on_seg(a, b, r, t)
    ensures b_has(e, r)
{
    assert forall|i: int| 0 <= i < P::DIMENSIONS implies (#[trigger] e.lower.c(i)).v() <= r.c(i).v() && r.c(i).v() <= e.upper.c(i).v() by {
        let (x, y, l, u) = (a.c(i).v(), b.c(i).v(), e.lower.c(i).v(), e.upper.c(i).v());
        assert(l <= x && x <= u && l <= y && y <= u);
        assert(r.c(i).v() == x + (y - x) * t);
        assert(l <= x + (y - x) * t && x + (y - x) * t <= u) by(nonlinear_arith) requires l <= x, x <= u, l <= y, y <= u, 0real <= t <= 1real;
    }
}
pub proof fn lemma_seg_ends<P: Point>(a: P, b: P)
    ensures on_seg(a, b, a, 0real), on_seg(a, b, b, 1real)
{
    assert forall|i: int| 0 <= i < P::DIMENSIONS implies (#[trigger] a.c(i)).v() == a.c(i).v() + (b.c(i).v() - a.c(i).v()) * 0real by { let z = b.c(i).v() - a.c(i).v(); assert(z * 0real == 0real) by(nonlinear_arith); }
    assert forall|i: int| 0 <= i < P::DIMENSIONS implies (#[trigger] b.c(i)).v() == a.c(i).v() + (b.c(i).v() - a.c(i).v()) * 1real by { }
}
pub open spec fn line_box<P: Point>(s: Line<P>, e: AABB<P>) -> bool {
    forall|i: int| #![trigger e.lower.c(i)] #![trigger e.upper.c(i)] 0 <= i < P::DIMENSIONS ==> e.lower.c(i).v() == rmin(s.from.c(i).v(), s.to.c(i).v()) && e.upper.c(i).v() == rmax(s.from.c(i).v(), s.to.c(i).v())
}
pub proof fn lemma_end_far<P: Point>(e: AABB<P>, q: P, p: P, k: int, up: bool, n: int)
    requires b_has(e, q), 0 <= n <= P::DIMENSIONS, 0 <= k < P::DIMENSIONS, q.c(k).v() == side(e, k, up)
    ensures dist_sq(q, p, n) <= far_to(e, p, n) - if k < n { far(e, p, k) - sq(side(e, k, up) - p.c(k).v()) } else { 0real }
    decreases n
{
    if n > 0 {
        let i = n - 1;
        lemma_end_far(e, q, p, k, up, i);
        let (l, u, x, y) = (e.lower.c(i).v(), e.upper.c(i).v(), p.c(i).v(), q.c(i).v());
        assert(l <= y && y <= u);
        lemma_far1(y, y, l, u, x);
    }
}
pub proof fn lemma_line_env<P: Point>(s: Line<P>)
    ensures line_box(s, s.env()), b_has(s.env(), s.from), b_has(s.env(), s.to)
{
    let lo = P::make(|i: int| smin(s.from.c(i), s.to.c(i)));
    let hi = P::make(|i: int| smax(s.from.c(i), s.to.c(i)));
    assert(line_box(s, AABB { lower: lo, upper: hi }));
}
// the box is never farther than the segment's nearest point
pub proof fn lemma_line_near_sum<P: Point>(e: AABB<P>, a: P, b: P, p: P, t: real, n: int)
    requires b_has(e, a), b_has(e, b), 0real <= t <= 1real, 0 <= n <= P::DIMENSIONS
    ensures d2_to(e, p, n) <= seg_d2(a, b, p, t, n), seg_d2(a, b, p, t, n) >= 0real,
        seg_d2(a, b, p, t, n) <= 0real ==> forall|i: int| 0 <= i < n ==> e.lower.c(i).v() <= #[trigger] p.c(i).v() && p.c(i).v() <= e.upper.c(i).v()
    decreases n
{
    if n > 0 {
        let i = n - 1;
        lemma_line_near_sum(e, a, b, p, t, i);
        let (x, y, l, u, z) = (a.c(i).v(), b.c(i).v(), e.lower.c(i).v(), e.upper.c(i).v(), p.c(i).v());
        assert(l <= x && x <= u && l <= y && y <= u);
        let m = x + (y - x) * t;
        assert(l <= m && m <= u) by(nonlinear_arith) requires m == x + (y - x) * t, l <= x, x <= u, l <= y, y <= u, 0real <= t <= 1real;
        lemma_sq_mono(clampv(l, u, z) - z, m - z);
        lemma_sq_pos(m - z);
    }
}
pub proof fn lemma_line_near<P: Point>(s: Line<P>, p: P)
    ensures s.env().d2(&p) <= s.pd2(&p), s.pd2(&p) <= 0real ==> s.env().has_pt(&p)
{
    lemma_line_env(s);
    lemma_param_min(s.from, s.to, p, 0real);
    lemma_line_near_sum(s.env(), s.from, s.to, p, seg_param(s.from, s.to, p), P::DIMENSIONS as int);
}
// the projection's numerator, as project_point computes it
pub proof fn lemma_seg_dot<P: Point>(d: P, q: P, a: P, b: P, p: P, n: int)
    requires forall|i: int| 0 <= i < n ==> (#[trigger] q.c(i)).v() == p.c(i).v() - a.c(i).v(), forall|i: int| 0 <= i < n ==> (#[trigger] d.c(i)).v() == b.c(i).v() - a.c(i).v()
    ensures dot_of(q, d, n) == seg_dot(a, b, p, n), sumsq(d, n) == dist_sq(b, a, n)
    decreases n
{
    if n > 0 { lemma_seg_dot(d, q, a, b, p, n - 1) }
}
pub proof fn lemma_line_bound<P: Point>(s: Line<P>, p: P, d: real)
    requires b_bound(s.env(), p, d)
    ensures s.pd2(&p) <= d
{
    let n = P::DIMENSIONS as int;
    let e = s.env();
    lemma_line_env(s);
    lemma_seg_ends(s.from, s.to);
    let (k, up) = choose|k: int, up: bool| #[trigger] face_in(e, p, d, k, up);
    assert(e.lower.c(k).v() == rmin(s.from.c(k).v(), s.to.c(k).v()));
    if s.from.c(k).v() == side(e, k, up) {
        lemma_end_far(e, s.from, p, k, up, n);
        lemma_seg_pt(s.from, s.to, p, s.from, 0real, n);
        lemma_param_min(s.from, s.to, p, 0real);
    } else {
        assert(s.to.c(k).v() == side(e, k, up));
        lemma_end_far(e, s.to, p, k, up, n);
        lemma_seg_pt(s.from, s.to, p, s.to, 1real, n);
        lemma_param_min(s.from, s.to, p, 1real);
    }
}
%item struct Line
%item impl Line::new
%ret r
%sig
    ensures r.from == from, r.to == to
%item impl RTreeObject for Line
%extra
    // the least box around both end points (AABB::from_corners builds it)
    open spec fn env(&self) -> AABB<P> { choose|e: AABB<P>| line_box(*self, e) }
    open spec fn valid(&self) -> bool { b_ok(pt_box(self.from)) && b_ok(pt_box(self.to)) }
%item impl RTreeObject for Line::envelope
%opt clone_pure
%at tail
    proof {
        lemma_line_env(*self);
        let e = self.env();
        assert forall|i: int| 0 <= i < P::DIMENSIONS implies #[trigger] vx_r.lower.c(i) == e.lower.c(i) by { crate::num_axioms::num_same(vx_r.lower.c(i), e.lower.c(i)); }
        assert forall|i: int| 0 <= i < P::DIMENSIONS implies #[trigger] vx_r.upper.c(i) == e.upper.c(i) by { crate::num_axioms::num_same(vx_r.upper.c(i), e.upper.c(i)); }
        P::ext_law(&vx_r.lower, &e.lower);
        P::ext_law(&vx_r.upper, &e.upper);
    }
%item impl Line::length_2
%ret r
%sig
    ensures r.v() == dist_sq(self.from, self.to, P::DIMENSIONS as int)
%at start
    proof {
        assert forall|d: P, r: P| (forall|i: int| 0 <= i < P::DIMENSIONS ==> (#[trigger] d.c(i)).v() == r.c(i).v() - self.to.c(i).v())
            implies #[trigger] sumsq(d, P::DIMENSIONS as int) == #[trigger] dist_sq(r, self.to, P::DIMENSIONS as int) by { lemma_dist_sq(d, r, self.to, P::DIMENSIONS as int); }
    }
%item impl Line::project_point
%opt clone_pure
%ret r
%sig
    ensures dist_sq(self.to, self.from, P::DIMENSIONS as int) != 0real ==> r.v() == seg_dot(self.from, self.to, *query_point, P::DIMENSIONS as int) / dist_sq(self.to, self.from, P::DIMENSIONS as int)
%at start
    broadcast use crate::num_axioms::float_laws;
%at after let:dir
    proof {
        assert forall|q: P| (forall|i: int| 0 <= i < P::DIMENSIONS ==> (#[trigger] q.c(i)).v() == query_point.c(i).v() - self.from.c(i).v())
            implies #[trigger] dot_of(q, dir, P::DIMENSIONS as int) == seg_dot(self.from, self.to, *query_point, P::DIMENSIONS as int)
                && sumsq(dir, P::DIMENSIONS as int) == dist_sq(self.to, self.from, P::DIMENSIONS as int)
            by { lemma_seg_dot(dir, q, self.from, self.to, *query_point, P::DIMENSIONS as int); }
    }
%item impl Line::nearest_point
%opt clone_pure
%at tail
    proof {
        let (a, b, q) = (self.from, self.to, *query_point);
        let t = seg_param(a, b, q);
        let n = P::DIMENSIONS as int;
        lemma_param_min(a, b, q, 0real);
        lemma_seg_ends(a, b);
        lemma_dist_pos(b, a, n);
        assert(on_seg(a, b, vx_r, t)) by {
            if dist_sq(b, a, n) == 0real {
                assert forall|i: int| 0 <= i < n implies (#[trigger] vx_r.c(i)).v() == a.c(i).v() + (b.c(i).v() - a.c(i).v()) * t by {
                    assert(b.c(i).v() == a.c(i).v()); assert(dir.c(i).v() == 0real);
                    assert(0real * s.v() == 0real) by(nonlinear_arith);
                }
            }
        }
        lemma_seg_pt(a, b, q, vx_r, t, n);
        assert forall|x: P, u: real| #[trigger] on_seg(a, b, x, u) implies self.pd2(query_point) <= dist_sq(x, q, n) by { lemma_param_min(a, b, q, u); lemma_seg_pt(a, b, q, x, u, n); }
    }
%ret r
%sig
    ensures
        on_seg(self.from, self.to, r, seg_param(self.from, self.to, *query_point)),
        dist_sq(r, *query_point, P::DIMENSIONS as int) == self.pd2(query_point),
        forall|q: P, t: real| #[trigger] on_seg(self.from, self.to, q, t) ==> self.pd2(query_point) <= dist_sq(q, *query_point, P::DIMENSIONS as int),
%item impl PointDistance for Line
%extra
    open spec fn pd2(&self, p: &P) -> real { seg_d2(self.from, self.to, *p, seg_param(self.from, self.to, *p), P::DIMENSIONS as int) }
    open spec fn at(&self, p: &P) -> bool { self.pd2(p) <= 0real }
    proof fn dist_laws() {
        assert forall|a: Self, p: P, d: real| obj_ok(a) && #[trigger] a.env().bound_ok(&p, d) implies a.pd2(&p) <= d by { lemma_line_bound(a, p, d); }
        assert forall|a: Self, p: P| a.env().d2(&p) <= #[trigger] a.pd2(&p) && (a.pd2(&p) <= 0real ==> a.env().has_pt(&p)) by { lemma_line_near(a, p); }
    }
%opt inherit object.rs PointDistance contains_point
%opt inherit object.rs PointDistance distance_2_if_less_or_equal
%item impl PointDistance for Line::contains_point
%item impl PointDistance for Line::distance_2_if_less_or_equal
%at start
    proof { lemma_line_near(*self, *point); }
%item impl PointDistance for Line::distance_2
%at start
    proof {
        assert forall|d: P, r: P| (forall|i: int| 0 <= i < P::DIMENSIONS ==> (#[trigger] d.c(i)).v() == r.c(i).v() - point.c(i).v())
            implies #[trigger] sumsq(d, P::DIMENSIONS as int) == #[trigger] dist_sq(r, *point, P::DIMENSIONS as int) by { lemma_dist_sq(d, r, *point, P::DIMENSIONS as int); }
    }
