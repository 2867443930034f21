%file point.rs
%module point
%prelude
pub open spec fn smin<S: RTreeNum>(a: S, b: S) -> S { if a.v() < b.v() { a } else { b } }
pub open spec fn smax<S: RTreeNum>(a: S, b: S) -> S { if a.v() > b.v() { a } else { b } }
pub open spec fn sumsq<P: Point>(p: P, n: int) -> real
    decreases n
{
    if n <= 0 { 0real } else { p.c(n - 1).v() * p.c(n - 1).v() + sumsq(p, n - 1) }
}
pub open spec fn dist_sq<P: Point>(p: P, q: P, n: int) -> real
    decreases n
{
    if n <= 0 { 0real } else { (p.c(n - 1).v() - q.c(n - 1).v()) * (p.c(n - 1).v() - q.c(n - 1).v()) + dist_sq(p, q, n - 1) }
}
pub open spec fn dot_of<P: Point>(p: P, q: P, n: int) -> real
    decreases n
{
    if n <= 0 { 0real } else { p.c(n - 1).v() * q.c(n - 1).v() + dot_of(p, q, n - 1) }
}
// s is the run of a left fold over the coordinates
pub open spec fn fold_chain<P: Point, T, F: Fn(T, P::Scalar) -> T>(s: Seq<T>, p: P, f: F, start: T, r: T) -> bool {
    &&& s.len() == P::DIMENSIONS + 1
    &&& s[0] == start
    &&& s[P::DIMENSIONS as int] == r
    &&& forall|i: int| 0 <= i < P::DIMENSIONS ==> call_ensures(f, (s[i], p.c(i)), #[trigger] s[i + 1])
}
pub proof fn lemma_sumsq<P: Point>(s: Seq<P::Scalar>, p: P, n: int)
    requires 0 <= n < s.len(), s[0].v() == 0real, forall|i: int| 0 <= i < n ==> (#[trigger] s[i + 1]).v() == p.c(i).v() * p.c(i).v() + s[i].v()
    ensures s[n].v() == sumsq(p, n)
    decreases n
{
    if n > 0 { lemma_sumsq(s, p, n - 1); assert(s[n - 1 + 1].v() == p.c(n - 1).v() * p.c(n - 1).v() + s[n - 1].v()); }
}
pub proof fn lemma_dist_sq<P: Point>(d: P, p: P, q: P, n: int)
    requires forall|i: int| 0 <= i < n ==> (#[trigger] d.c(i)).v() == p.c(i).v() - q.c(i).v()
    ensures sumsq(d, n) == dist_sq(p, q, n)
    decreases n
{
    if n > 0 { lemma_dist_sq(d, p, q, n - 1) }
}
pub proof fn lemma_sum<P: Point>(s: Seq<P::Scalar>, p: P, n: int)
    requires 0 <= n < s.len(), s[0].v() == 0real, forall|i: int| 0 <= i < n ==> (#[trigger] s[i + 1]).v() == s[i].v() + p.c(i).v()
    ensures s[n].v() == sum_of(p, n)
    decreases n
{
    if n > 0 { lemma_sum(s, p, n - 1); assert(s[n - 1 + 1].v() == s[n - 1].v() + p.c(n - 1).v()); }
}
pub open spec fn sum_of<P: Point>(p: P, n: int) -> real
    decreases n
{
    if n <= 0 { 0real } else { sum_of(p, n - 1) + p.c(n - 1).v() }
}
pub proof fn lemma_dot<P: Point>(d: P, p: P, q: P, n: int)
    requires forall|i: int| 0 <= i < n ==> (#[trigger] d.c(i)).v() == p.c(i).v() * q.c(i).v()
    ensures sum_of(d, n) == dot_of(p, q, n)
    decreases n
{
    if n > 0 { lemma_dot(d, p, q, n - 1) }
}
%item trait RTreeNum
%super Bounded + Zero + One + Copy + PartialOrd + Add<Output = Self> + Sub<Output = Self> + Mul<Output = Self> + Div<Output = Self>
%extra
    spec fn v(self) -> real;
%item impl RTreeNum for S
%drop blanket impl over num-traits bounds
%item trait Point
%super Clone + PartialEq
%extra
    // the coordinates
    spec fn c(&self, i: int) -> Self::Scalar;
    // there is a point for every coordinate vector (generate makes it), and at least one axis
    proof fn make(f: spec_fn(int) -> Self::Scalar) -> (r: Self)
        ensures forall|i: int| 0 <= i < Self::DIMENSIONS ==> #[trigger] r.c(i) == f(i);
    // a point is nothing but its coordinates
    proof fn ext_law(a: &Self, b: &Self)
        requires forall|i: int| 0 <= i < Self::DIMENSIONS ==> #[trigger] a.c(i) == b.c(i)
        ensures a == b;
    proof fn dim_law()
        ensures Self::DIMENSIONS > 0;
%item trait Point::generate
%opt fnmut_to_fn
%opt named_impl
%ret r
%sig
    requires forall|i: usize| i < Self::DIMENSIONS ==> #[trigger] call_requires(generator, (i,))
    ensures forall|i: usize| i < Self::DIMENSIONS ==> call_ensures(generator, (i,), #[trigger] r.c(i as int))
%item trait Point::nth
%ret r
%sig
    requires index < Self::DIMENSIONS
    ensures r == self.c(index as int)
%item trait Point::nth_mut
%ret r
%sig
    requires index < Self::DIMENSIONS
    ensures *r == old(self).c(index as int),
        final(self).c(index as int) == *final(r),
        forall|j: int| 0 <= j < Self::DIMENSIONS && j != index ==> #[trigger] final(self).c(j) == old(self).c(j)
%item trait PointExt
%item trait PointExt::new
%ret r
%sig
    ensures forall|i: int| 0 <= i < Self::DIMENSIONS ==> (#[trigger] r.c(i)).v() == 0real
%at start
    broadcast use crate::num_axioms::num_laws;
%item trait PointExt::component_wise
%opt fnmut_to_fn
%ret r
%sig
    requires forall|i: int| 0 <= i < Self::DIMENSIONS ==> call_requires(f, (#[trigger] self.c(i), other.c(i)))
    ensures forall|i: int| 0 <= i < Self::DIMENSIONS ==> call_ensures(f, (self.c(i), other.c(i)), #[trigger] r.c(i))
%closure 0 |i: usize| -> (r: Self::Scalar)
    requires $0 < Self::DIMENSIONS, call_requires(f, (self.c($0 as int), other.c($0 as int)))
    ensures call_ensures(f, (self.c($0 as int), other.c($0 as int)), r)
%at tail
    proof {
        assert forall|i: int| 0 <= i < Self::DIMENSIONS implies call_ensures(f, (self.c(i), other.c(i)), #[trigger] vx_r.c(i)) by { assert(i == (i as usize) as int); }
    }
%item trait PointExt::all_component_wise
%opt fnmut_to_fn
%ret r
%sig
    requires forall|i: int| 0 <= i < Self::DIMENSIONS ==> call_requires(f, (#[trigger] self.c(i), other.c(i)))
    ensures
        r ==> forall|i: int| 0 <= i < Self::DIMENSIONS ==> call_ensures(f, (#[trigger] self.c(i), other.c(i)), true),
        !r ==> exists|i: int| 0 <= i < Self::DIMENSIONS && call_ensures(f, (#[trigger] self.c(i), other.c(i)), false),
%closure 0 |i: usize| -> (r: bool)
    requires $0 < Self::DIMENSIONS, call_requires(f, (self.c($0 as int), other.c($0 as int)))
    ensures call_ensures(f, (self.c($0 as int), other.c($0 as int)), r)
%at tail
    proof {
        if vx_r {
            assert forall|i: int| 0 <= i < Self::DIMENSIONS implies call_ensures(f, (#[trigger] self.c(i), other.c(i)), true) by { assert(at_idx(i as usize)); assert(i == (i as usize) as int); }
        }
    }
%item trait PointExt::dot
%ret r
%sig
    ensures r.v() == dot_of(*self, *rhs, Self::DIMENSIONS as int)
%at start
    broadcast use crate::num_axioms::num_laws;
%closure 0 |l: Self::Scalar, r: Self::Scalar| -> (q: Self::Scalar)
    ensures q.v() == $0.v() * $1.v()
%closure 1 |acc: Self::Scalar, val: Self::Scalar| -> (q: Self::Scalar)
    ensures q.v() == $0.v() + $1.v()
%opt bind_chain
%at tail
    proof {
        let s = choose|s: Seq<Self::Scalar>| #[trigger] is_run(s) && s.len() == Self::DIMENSIONS + 1 && s[0].v() == 0real && s[Self::DIMENSIONS as int] == vx_r
            && forall|i: int| 0 <= i < Self::DIMENSIONS ==> (#[trigger] s[i + 1]).v() == s[i].v() + vx_t.c(i).v();
        lemma_sum(s, vx_t, Self::DIMENSIONS as int);
        lemma_dot(vx_t, *self, *rhs, Self::DIMENSIONS as int);
    }
%item trait PointExt::fold
%opt fnmut_to_fn
%ret r
%sig
    requires forall|a: T, i: int| 0 <= i < Self::DIMENSIONS ==> #[trigger] call_requires(f, (a, self.c(i)))
    ensures exists|s: Seq<T>| #[trigger] is_run(s) && fold_chain(s, *self, f, start_value, r)
%closure 0 |accumulated: T, i: usize| -> (r: T)
    requires $1 < Self::DIMENSIONS, call_requires(f, ($0, self.c($1 as int)))
    ensures call_ensures(f, ($0, self.c($1 as int)), r)
%item trait PointExt::from_value
%ret r
%sig
    ensures forall|i: int| 0 <= i < Self::DIMENSIONS ==> #[trigger] r.c(i) == value
%closure 0 |_: usize| -> (r: Self::Scalar)
    ensures r == value
%at tail
    proof {
        assert forall|i: int| 0 <= i < Self::DIMENSIONS implies #[trigger] vx_r.c(i) == value by { assert(i == (i as usize) as int); }
    }
%item trait PointExt::min_point
%ret r
%sig
    ensures forall|i: int| 0 <= i < Self::DIMENSIONS ==> (#[trigger] r.c(i)).v() == rmin(self.c(i).v(), other.c(i).v())
%item trait PointExt::max_point
%ret r
%sig
    ensures forall|i: int| 0 <= i < Self::DIMENSIONS ==> (#[trigger] r.c(i)).v() == rmax(self.c(i).v(), other.c(i).v())
%item trait PointExt::length_2
%ret r
%sig
    ensures r.v() == sumsq(*self, Self::DIMENSIONS as int)
%closure 0 |acc: Self::Scalar, cur: Self::Scalar| -> (r: Self::Scalar)
    ensures r.v() == $1.v() * $1.v() + $0.v()
%at start
    broadcast use crate::num_axioms::num_laws;
%at tail
    proof {
        let s = choose|s: Seq<Self::Scalar>| #[trigger] is_run(s) && s.len() == Self::DIMENSIONS + 1 && s[0].v() == 0real && s[Self::DIMENSIONS as int] == vx_r
            && forall|i: int| 0 <= i < Self::DIMENSIONS ==> (#[trigger] s[i + 1]).v() == self.c(i).v() * self.c(i).v() + s[i].v();
        lemma_sumsq(s, *self, Self::DIMENSIONS as int);
    }
%item trait PointExt::sub
%ret r
%sig
    ensures forall|i: int| 0 <= i < Self::DIMENSIONS ==> (#[trigger] r.c(i)).v() == self.c(i).v() - other.c(i).v()
%closure 0 |l: Self::Scalar, r: Self::Scalar| -> (q: Self::Scalar)
    ensures q.v() == $0.v() - $1.v()
%at start
    broadcast use crate::num_axioms::num_laws;
%item trait PointExt::add
%ret r
%sig
    ensures forall|i: int| 0 <= i < Self::DIMENSIONS ==> (#[trigger] r.c(i)).v() == self.c(i).v() + other.c(i).v()
%closure 0 |l: Self::Scalar, r: Self::Scalar| -> (q: Self::Scalar)
    ensures q.v() == $0.v() + $1.v()
%at start
    broadcast use crate::num_axioms::num_laws;
%item trait PointExt::mul
%ret r
%sig
    ensures forall|i: int| 0 <= i < Self::DIMENSIONS ==> (#[trigger] r.c(i)).v() == self.c(i).v() * scalar.v()
%closure 0 |coordinate: Self::Scalar| -> (q: Self::Scalar)
    ensures q.v() == $0.v() * scalar.v()
%at start
    broadcast use crate::num_axioms::num_laws;
%item trait PointExt::map
%opt fnmut_to_fn
%ret r
%sig
    requires forall|i: int| 0 <= i < Self::DIMENSIONS ==> call_requires(f, (#[trigger] self.c(i),))
    ensures forall|i: int| 0 <= i < Self::DIMENSIONS ==> call_ensures(f, (self.c(i),), #[trigger] r.c(i))
%closure 0 |i: usize| -> (r: Self::Scalar)
    requires $0 < Self::DIMENSIONS, call_requires(f, (self.c($0 as int),))
    ensures call_ensures(f, (self.c($0 as int),), r)
%at tail
    proof {
        assert forall|i: int| 0 <= i < Self::DIMENSIONS implies call_ensures(f, (self.c(i),), #[trigger] vx_r.c(i)) by { assert(i == (i as usize) as int); }
    }
%item trait PointExt::distance_2
%ret r
%sig
    ensures r.v() == dist_sq(*self, *other, Self::DIMENSIONS as int)
%opt bind_chain
%at tail
    proof { lemma_dist_sq(vx_t, *self, *other, Self::DIMENSIONS as int); }
%item impl PointExt for T
%item fn min_inline
%at start
    broadcast use crate::num_axioms::num_laws;
%ret r
%sig
    ensures r.v() == rmin(a.v(), b.v())
%item fn max_inline
%at start
    broadcast use crate::num_axioms::num_laws;
%ret r
%sig
    ensures r.v() == rmax(a.v(), b.v())
%item impl Point for [S;N]
%drop under contract in vx/builtin (C17)
