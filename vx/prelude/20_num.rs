pub mod num_axioms {
use crate::all::*;
// The scalar laws every generic proof assumes: exact arithmetic of an ordered field, no NaN.
pub broadcast group num_laws { num_add, num_sub, num_mul, num_add_req, num_sub_req, num_mul_req, num_cmp, ob_add, ob_sub, ob_mul, ob_cmp, num_eq, ob_num_eq, num_zero, num_one, num_div_req, num_div, ob_div, ob_pt, pt_eq, num_range }
pub broadcast axiom fn num_add<S: RTreeNum>(a: S, b: S) ensures (#[trigger] a.add_spec(b)).v() == a.v() + b.v();
pub broadcast axiom fn num_sub<S: RTreeNum>(a: S, b: S) ensures (#[trigger] a.sub_spec(b)).v() == a.v() - b.v();
pub broadcast axiom fn num_mul<S: RTreeNum>(a: S, b: S) ensures (#[trigger] a.mul_spec(b)).v() == a.v() * b.v();
pub broadcast axiom fn num_add_req<S: RTreeNum>(a: S, b: S) ensures #[trigger] a.add_req(b);
pub broadcast axiom fn num_sub_req<S: RTreeNum>(a: S, b: S) ensures #[trigger] a.sub_req(b);
pub broadcast axiom fn num_mul_req<S: RTreeNum>(a: S, b: S) ensures #[trigger] a.mul_req(b);
pub broadcast axiom fn ob_add<S: RTreeNum>() ensures #[trigger] <S as AddSpec>::obeys_add_spec();
pub broadcast axiom fn ob_sub<S: RTreeNum>() ensures #[trigger] <S as SubSpec>::obeys_sub_spec();
pub broadcast axiom fn ob_mul<S: RTreeNum>() ensures #[trigger] <S as MulSpec>::obeys_mul_spec();
pub broadcast axiom fn ob_cmp<S: RTreeNum>() ensures #[trigger] <S as PartialOrdSpec>::obeys_partial_cmp_spec();
pub broadcast axiom fn num_cmp<S: RTreeNum>(a: S, b: S)
    ensures #[trigger] a.partial_cmp_spec(&b) == Some(if a.v() < b.v() { Ordering::Less } else if a.v() > b.v() { Ordering::Greater } else { Ordering::Equal });
pub broadcast axiom fn ob_num_eq<S: RTreeNum>() ensures #[trigger] <S as PartialEqSpec>::obeys_eq_spec();
pub broadcast axiom fn num_eq<S: RTreeNum>(a: S, b: S) ensures #[trigger] a.eq_spec(&b) == (a.v() == b.v());
pub broadcast axiom fn num_zero<S: RTreeNum>() ensures (#[trigger] S::zero_spec()).v() == 0real;
pub broadcast axiom fn num_one<S: RTreeNum>() ensures (#[trigger] S::one_spec()).v() == 1real;
pub broadcast axiom fn num_div_req<S: RTreeNum>(a: S, b: S) ensures b.v() != 0real ==> #[trigger] a.div_req(b);
// the quotient's value is some function of the operands' values (truncated for integers)
pub uninterp spec fn quot<S: RTreeNum>(a: real, b: real) -> real;
pub broadcast axiom fn num_div<S: RTreeNum>(a: S, b: S) ensures b.v() != 0real ==> (#[trigger] a.div_spec(b)).v() == quot::<S>(a.v(), b.v());
pub broadcast axiom fn ob_div<S: RTreeNum>() ensures #[trigger] <S as DivSpec>::obeys_div_spec();
// points are equal when all their coordinates are
pub broadcast axiom fn ob_pt<P: Point>() ensures #[trigger] <P as PartialEqSpec>::obeys_eq_spec();
pub broadcast axiom fn pt_eq<P: Point>(a: P, b: P)
    ensures #[trigger] a.eq_spec(&b) == (forall|i: int| 0 <= i < P::DIMENSIONS ==> #[trigger] a.c(i).v() == b.c(i).v());
pub broadcast axiom fn num_range<S: RTreeNum>() ensures #[trigger] S::min_spec().v() < #[trigger] S::max_spec().v();
// Scalars that compare equal are interchangeable (0.0 and -0.0 are not told apart). Used for a
// Line's envelope only, which has to be one fixed box.
pub axiom fn num_same<S: RTreeNum>(a: S, b: S) requires a.v() == b.v() ensures a == b;
// Division as floating point does it: never panics, exact quotient (rounding ignored) for a
// non-zero divisor. Used for Line only.
pub broadcast group float_laws { float_div_req, float_div }
pub broadcast axiom fn float_div_req<S: RTreeNum>(a: S, b: S) ensures #[trigger] a.div_req(b);
pub broadcast axiom fn float_div<S: RTreeNum>(a: S, b: S) ensures b.v() != 0real ==> (#[trigger] a.div_spec(b)).v() == a.v() / b.v();
} // mod num_axioms
pub mod eq_axioms {
use crate::all::*;
// an object's == is a function of the two objects
pub broadcast axiom fn ob_eq<T: RTreeObject + PartialEq>() ensures #[trigger] <T as PartialEqSpec>::obeys_eq_spec();
// and, as std asks of every PartialEq, symmetric
pub broadcast axiom fn ob_sym<T: RTreeObject + PartialEq>(a: T, b: T) ensures #[trigger] a.eq_spec(&b) == b.eq_spec(&a);
} // mod eq_axioms
