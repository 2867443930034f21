pub mod heap {
use vstd::prelude::*;
use vstd::multiset::*;
use core::cmp::Ordering;
// What the heaps need of Ord and PartialOrd: one total order. The methods are the extracted ones.
pub trait VxOrd: Sized {
    // self is not greater than o
    spec fn hle(&self, o: &Self) -> bool;
    proof fn hle_laws() ensures forall|a: Self, b: Self, c: Self| #[trigger] a.hle(&b) && #[trigger] b.hle(&c) ==> a.hle(&c);
    fn vx_cmp(&self, o: &Self) -> (r: Ordering) ensures agrees(r, self.hle(o), o.hle(self));
    fn vx_partial_cmp(&self, o: &Self) -> (r: Option<Ordering>) ensures r matches Some(x) && agrees(x, self.hle(o), o.hle(self));
}
// r is the comparison of two values the first of which is not greater (ab), the second not greater (ba)
pub open spec fn agrees(r: Ordering, ab: bool, ba: bool) -> bool {
    match r { Ordering::Less => ab && !ba, Ordering::Equal => ab && ba, Ordering::Greater => ba && !ab }
}
// the same elements in some order
pub open spec fn perm<A>(a: Seq<A>, b: Seq<A>) -> bool { a.to_multiset() == b.to_multiset() }
pub open spec fn is_max<A: VxOrd>(s: Seq<A>, x: A) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).hle(&x) }
pub proof fn lemma_perm<A>(a: Seq<A>, b: Seq<A>)
    requires perm(a, b)
    ensures a.len() == b.len(), forall|i: int| 0 <= i < a.len() ==> b.contains(#[trigger] a[i]), forall|i: int| 0 <= i < b.len() ==> a.contains(#[trigger] b[i])
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(a.to_multiset().len() == a.len());
    assert(b.to_multiset().len() == b.len());
    assert forall|i: int| 0 <= i < a.len() implies b.contains(#[trigger] a[i]) by { assert(a.contains(a[i])); assert(a.to_multiset().contains(a[i])); }
    assert forall|i: int| 0 <= i < b.len() implies a.contains(#[trigger] b[i]) by { assert(b.contains(b[i])); assert(b.to_multiset().contains(b[i])); }
}
pub broadcast proof fn perm_push<A>(a: Seq<A>, b: Seq<A>, x: A)
    requires perm(a, b)
    ensures #![trigger a.push(x), b.push(x)] perm(a.push(x), b.push(x))
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
}
pub broadcast proof fn perm_push_t<A>(r: Seq<A>, b: Seq<A>, a: Seq<A>, x: A)
    requires #[trigger] perm(r, b.push(x)), #[trigger] perm(b, a)
    ensures perm(r, a.push(x))
{
    perm_push(b, a, x);
}
pub broadcast proof fn perm_add_t<A>(r: Seq<A>, b: Seq<A>, a: Seq<A>, d: Seq<A>)
    requires #[trigger] perm(r, b + d), #[trigger] perm(b, a)
    ensures perm(r, a + d)
{
    perm_add(b, a, d, d);
}
pub broadcast group perm_laws { perm_push_t, perm_add_t }
pub proof fn perm_add<A>(a: Seq<A>, b: Seq<A>, c: Seq<A>, d: Seq<A>)
    requires perm(a, b), perm(c, d)
    ensures perm(a + c, b + d)
{
    vstd::seq_lib::lemma_multiset_commutative(a, c);
    vstd::seq_lib::lemma_multiset_commutative(b, d);
}
// alloc::collections::BinaryHeap (trusted contract)
#[verifier::external_body]
#[verifier::accept_recursive_types(A)]
pub struct BinaryHeap<A> { v: Vec<A> }
impl<A> View for BinaryHeap<A> { type V = Seq<A>; uninterp spec fn view(&self) -> Seq<A>; }
impl<A: VxOrd> BinaryHeap<A> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@.len() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: Self) ensures r@.len() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&mut self, x: A) ensures perm(final(self)@, old(self)@.push(x)) { unimplemented!() }
    #[verifier::external_body]
    pub fn extend(&mut self, w: Vec<A>) ensures perm(final(self)@, old(self)@ + w@) { unimplemented!() }
    #[verifier::external_body]
    pub fn pop(&mut self) -> (r: Option<A>)
        ensures match r { None => old(self)@.len() == 0 && final(self)@.len() == 0, Some(x) => perm(old(self)@, final(self)@.push(x)) && is_max(old(self)@, x) }
    { unimplemented!() }
}
// heapless::binary_heap (trusted contract)
pub mod static_heap {
use vstd::prelude::*;
use super::*;
pub struct Max;
#[verifier::external_body]
#[verifier::accept_recursive_types(A)]
#[verifier::accept_recursive_types(K)]
pub struct BinaryHeap<A, K, const N: usize> { v: Vec<A>, k: core::marker::PhantomData<K> }
impl<A, K, const N: usize> View for BinaryHeap<A, K, N> { type V = Seq<A>; uninterp spec fn view(&self) -> Seq<A>; }
pub broadcast axiom fn fits<A, K, const N: usize>(h: BinaryHeap<A, K, N>) ensures (#[trigger] h@).len() <= N;
impl<A: VxOrd, const N: usize> BinaryHeap<A, Max, N> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@.len() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn capacity(&self) -> (r: usize) ensures r == N { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&mut self, x: A) -> (r: Result<(), A>)
        ensures match r { Ok(u) => perm(final(self)@, old(self)@.push(x)), Err(y) => y == x && final(self)@ == old(self)@ }, r is Ok <==> old(self)@.len() < N
    { unimplemented!() }
    #[verifier::external_body]
    pub fn pop(&mut self) -> (r: Option<A>)
        ensures match r { None => old(self)@.len() == 0 && final(self)@.len() == 0, Some(x) => perm(old(self)@, final(self)@.push(x)) && is_max(old(self)@, x) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn into_vec(self) -> (r: Vec<A>) ensures perm(r@, self@) { unimplemented!() }
}
} // mod static_heap
} // mod heap
