pub mod num_traits {
use vstd::prelude::*;
// Stand-ins for the three num-traits traits rstar uses on scalars (trusted contracts).
pub trait Zero: Sized {
    spec fn zero_spec() -> Self;
    fn zero() -> (r: Self) ensures r == Self::zero_spec();
}
pub trait One: Sized {
    spec fn one_spec() -> Self;
    fn one() -> (r: Self) ensures r == Self::one_spec();
}
pub trait Bounded: Sized {
    spec fn min_spec() -> Self;
    spec fn max_spec() -> Self;
    fn min_value() -> (r: Self) ensures r == Self::min_spec();
    fn max_value() -> (r: Self) ensures r == Self::max_spec();
}
pub fn zero<T: Zero>() -> (r: T) ensures r == T::zero_spec() { T::zero() }
} // mod num_traits

pub mod vx {
use vstd::prelude::*;
use vstd::multiset::Multiset;
use core::cmp::Ordering;
use core::ops::ControlFlow;

// ---------- obligations ----------
pub fn proved_assert(b: bool) requires b {}
// std's assert!: returns only when the condition holds
#[verifier::external_body]
pub fn runtime_assert(b: bool) ensures b { assert!(b) }
#[verifier::external_body]
pub fn runtime_panic() -> ! { panic!() }
pub fn div_ceil(a: usize, b: usize) -> (r: usize)
    requires b > 0
    ensures r as int == (a + b - 1) / (b as int)
{
    let q = a / b;
    let m = a % b;
    proof { lemma_div_ceil(a as int, b as int); }
    if m > 0 { q + 1 } else { q }
}
pub proof fn lemma_div_ceil(a: int, b: int)
    requires a >= 0, b > 0
    ensures (a + b - 1) / b == a / b + (if a % b > 0 { 1int } else { 0int }), b >= 2 ==> a / b < usize::MAX || a > usize::MAX, a % b > 0 ==> a / b < a || a == 0 || b == 1
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(a, b);
    let q = a / b; let m = a % b;
    if m > 0 {
        assert(a + b - 1 == b * (q + 1) + (m - 1)) by(nonlinear_arith) requires a == b * q + m;
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(a + b - 1, b, q + 1, m - 1);
    } else {
        assert(a + b - 1 == q * b + (b - 1)) by(nonlinear_arith) requires a == b * q + m, m == 0;
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(a + b - 1, b, q, b - 1);
    }
    assert(b >= 2 && a <= usize::MAX ==> q < usize::MAX) by(nonlinear_arith) requires a == b * q + m, 0 <= m < b, a >= 0;
    assert(m > 0 ==> q < a || a == 0 || b == 1) by(nonlinear_arith) requires a == b * q + m, 0 <= m < b, a >= 0;
}
#[verifier::external_body]
pub fn never() -> ! requires false { panic!() }

// ---------- trusted contracts on std ----------
pub fn mem_replace<T>(a: &mut T, b: T) -> (r: T)
    ensures r == *old(a), *final(a) == b
{ let mut b = b; core::mem::swap(a, &mut b); b }

pub fn mem_swap<T>(a: &mut T, b: &mut T)
    ensures *final(a) == *old(b), *final(b) == *old(a)
{ core::mem::swap(a, b) }

// clone() returns an equal value (used for envelopes and points only)
#[verifier::external_body]
pub fn clone<T: Clone>(a: &T) -> (r: T) ensures r == *a { a.clone() }

// what std's sort and selection ask of a comparison (they may panic otherwise): a total preorder
pub open spec fn cmp_total<T, F: Fn(&T, &T) -> Ordering>(f: F) -> bool {
    &&& forall|x: &T, y: &T| #[trigger] call_requires(f, (x, y))
    &&& forall|x: &T, y: &T, a: Ordering, b: Ordering| #[trigger] call_ensures(f, (x, y), a) && #[trigger] call_ensures(f, (y, x), b) ==> b == flip(a)
    &&& forall|x: &T, y: &T, z: &T, a: Ordering, b: Ordering, c: Ordering|
        #[trigger] call_ensures(f, (x, y), a) && #[trigger] call_ensures(f, (y, z), b) && #[trigger] call_ensures(f, (x, z), c)
            && a != Ordering::Greater && b != Ordering::Greater ==> c != Ordering::Greater
}
pub open spec fn flip(a: Ordering) -> Ordering {
    match a { Ordering::Less => Ordering::Greater, Ordering::Equal => Ordering::Equal, Ordering::Greater => Ordering::Less }
}
pub open spec fn ord(a: real, b: real) -> Ordering {
    if a < b { Ordering::Less } else if a > b { Ordering::Greater } else { Ordering::Equal }
}
// core's slice sort / selection only reorder the slice
#[verifier::external_body]
pub fn sort_unstable_by<T, F: Fn(&T, &T) -> Ordering>(v: &mut [T], f: F)
    requires cmp_total(f)
    ensures final(v)@.to_multiset() == old(v)@.to_multiset(), final(v)@.len() == old(v)@.len()
{ v.sort_unstable_by(f) }

#[verifier::external_body]
pub fn select_nth_unstable_by<T, F: Fn(&T, &T) -> Ordering>(v: &mut [T], k: usize, f: F)
    requires cmp_total(f), k < old(v)@.len()
    ensures final(v)@.to_multiset() == old(v)@.to_multiset(), final(v)@.len() == old(v)@.len()
{ v.select_nth_unstable_by(k, f); }

// Envelope::sort_envelopes / partition_envelopes, moved out of the trait (cyclic trait bound);
// the AABB implementations are proved against the same contract.
#[verifier::external_body]
pub fn sort_envelopes<T: crate::object::RTreeObject>(axis: usize, v: &mut [T])
    requires axis < <<T::Envelope as crate::envelope::Envelope>::Point as crate::point::Point>::DIMENSIONS
    ensures final(v)@.to_multiset() == old(v)@.to_multiset(), final(v)@.len() == old(v)@.len()
{ unimplemented!() }

#[verifier::external_body]
pub fn partition_envelopes<T: crate::object::RTreeObject>(axis: usize, v: &mut [T], k: usize)
    requires k < old(v)@.len(), axis < <<T::Envelope as crate::envelope::Envelope>::Point as crate::point::Point>::DIMENSIONS
    ensures final(v)@.to_multiset() == old(v)@.to_multiset(), final(v)@.len() == old(v)@.len()
{ unimplemented!() }

// A Vec of non-zero-sized elements holds fewer than usize::MAX elements (allocation limit isize::MAX bytes)
pub broadcast axiom fn node_vec_len<T: crate::object::RTreeObject>(v: Vec<crate::node::RTreeNode<T>>)
    ensures #[trigger] v@.len() < usize::MAX;

// ---------- iterator chains, proved ----------
// marks a sequence as the run of a fold
pub open spec fn is_run<A>(s: Seq<A>) -> bool { true }
pub open spec fn range_chain<A, F: Fn(A, usize) -> A>(s: Seq<A>, n: int, f: F, start: A, r: A) -> bool {
    &&& s.len() == n + 1
    &&& s[0] == start
    &&& s[n] == r
    &&& forall|i: int| 0 <= i < n ==> call_ensures(f, (s[i], i as usize), #[trigger] s[i + 1])
}
pub open spec fn at_idx(i: usize) -> bool { true }
pub fn range_all<F: Fn(usize) -> bool>(n: usize, f: F) -> (r: bool)
    requires forall|i: usize| i < n ==> #[trigger] call_requires(f, (i,))
    ensures
        r ==> forall|i: usize| #[trigger] at_idx(i) && i < n ==> call_ensures(f, (i,), true),
        !r ==> exists|i: usize| i < n && #[trigger] call_ensures(f, (i,), false),
{
    for i in 0..n
        invariant forall|i: usize| i < n ==> #[trigger] call_requires(f, (i,)),
            forall|j: usize| j < i ==> #[trigger] call_ensures(f, (j,), true),
    {
        if !f(i) { return false; }
    }
    true
}
pub fn range_fold<A, F: Fn(A, usize) -> A>(n: usize, start: A, f: F) -> (r: A)
    requires forall|a: A, i: usize| i < n ==> #[trigger] call_requires(f, (a, i))
    ensures exists|s: Seq<A>| #[trigger] is_run(s) && range_chain(s, n as int, f, start, r)
{
    let mut acc = start;
    let ghost mut s: Seq<A> = seq![start];
    for i in 0..n
        invariant forall|a: A, i: usize| i < n ==> #[trigger] call_requires(f, (a, i)),
            range_chain(s, i as int, f, start, acc),
    {
        acc = f(acc, i);
        proof { s = s.push(acc); }
    }
    assert(is_run(s));
    acc
}
// the finite sequence of items an iterator yields
pub uninterp spec fn items<I: IntoIterator>(i: I) -> Seq<I::Item>;
pub open spec fn seq_chain<A, B, F: Fn(A, B) -> A>(s: Seq<A>, w: Seq<B>, f: F, start: A, r: A) -> bool {
    &&& s.len() == w.len() + 1
    &&& s[0] == start
    &&& s[w.len() as int] == r
    &&& forall|i: int| 0 <= i < w.len() ==> call_ensures(f, (s[i], w[i]), #[trigger] s[i + 1])
}
// std's Iterator::fold
#[verifier::external_body]
pub fn iter_fold<A, I: IntoIterator, F: Fn(A, I::Item) -> A>(it: I, start: A, f: F) -> (r: A)
    requires forall|a: A, b: I::Item| #[trigger] call_requires(f, (a, b))
    ensures exists|s: Seq<A>| #[trigger] is_run(s) && seq_chain(s, items(it), f, start, r)
{ it.into_iter().fold(start, f) }
pub fn extend_map<A, B, F: Fn(A) -> B>(v: &mut Vec<B>, w: Vec<A>, f: F)
    requires forall|i: int| 0 <= i < w@.len() ==> call_requires(f, (#[trigger] w@[i],))
    ensures final(v)@.len() == old(v)@.len() + w@.len(),
        forall|i: int| 0 <= i < old(v)@.len() ==> #[trigger] final(v)@[i] == old(v)@[i],
        forall|j: int| old(v)@.len() <= j < final(v)@.len() ==> call_ensures(f, (w@[j - old(v)@.len()],), #[trigger] final(v)@[j]),
{
    let mut w = w;
    let ghost w0 = w@;
    let ghost v0 = v@;
    let mut tmp: Vec<B> = Vec::new();
    while let Some(x) = w.pop()
        invariant w@.len() + tmp@.len() == w0.len(), w@ == w0.take(w@.len() as int),
            forall|i: int| 0 <= i < w0.len() ==> call_requires(f, (#[trigger] w0[i],)),
            forall|i: int| 0 <= i < tmp@.len() ==> call_ensures(f, (w0[w0.len() - 1 - i],), #[trigger] tmp@[i]),
        ensures w@.len() == 0,
        decreases w@.len()
    {
        assert(x == w0[w@.len() as int]);
        tmp.push(f(x));
    }
    let ghost t0 = tmp@;
    while let Some(y) = tmp.pop()
        invariant tmp@.len() <= t0.len(), tmp@ == t0.take(tmp@.len() as int), t0.len() == w0.len(),
            v@.len() == v0.len() + (t0.len() - tmp@.len()),
            forall|i: int| 0 <= i < v0.len() ==> #[trigger] v@[i] == v0[i],
            forall|i: int| 0 <= i < t0.len() ==> call_ensures(f, (w0[w0.len() - 1 - i],), #[trigger] t0[i]),
            forall|j: int| v0.len() <= j < v@.len() ==> call_ensures(f, (w0[j - v0.len()],), #[trigger] v@[j]),
        ensures tmp@.len() == 0,
        decreases tmp@.len()
    {
        let ghost j = w0.len() - 1 - tmp@.len();
        assert(y == t0[tmp@.len() as int]);
        v.push(y);
        assert(call_ensures(f, (w0[j],), v@[v0.len() + j]));
    }
}

// ---------- references ----------
pub fn last_mut<A>(v: &mut Vec<A>) -> (r: Option<&mut A>)
    ensures match r {
        Some(x) => old(v)@.len() > 0 && *x == old(v)@.last() && final(v)@ == old(v)@.drop_last().push(*final(x)),
        None => old(v)@.len() == 0 && final(v)@ == old(v)@,
    }
{
    let n = v.len();
    if n == 0 { None } else {
        proof { assert forall|x: A| #[trigger] v@.update(n - 1, x) == v@.drop_last().push(x) by { assert(v@.update(n - 1, x) =~= v@.drop_last().push(x)); } }
        Some(&mut v[n - 1])
    }
}
// f answers as p says
pub open spec fn decides<'a, A, F: Fn(&&'a A) -> bool>(f: F, p: spec_fn(A) -> bool) -> bool {
    forall|c: &'a A, b: bool| #[trigger] call_ensures(f, (&c,), b) ==> b == p(*c)
}
pub open spec fn kept<'a, A, F: Fn(&&'a A) -> bool>(w: Seq<A>, f: F, r: Seq<&'a A>) -> bool
    decreases w.len()
{
    if w.len() == 0 { r.len() == 0 }
    else {
        ||| r.len() > 0 && *r.last() == w.last() && call_ensures(f, (&&w.last(),), true) && kept(w.drop_last(), f, r.drop_last())
        ||| call_ensures(f, (&&w.last(),), false) && kept(w.drop_last(), f, r)
    }
}
pub proof fn lemma_kept<'a, A, F: Fn(&&'a A) -> bool>(w: Seq<A>, f: F, r: Seq<&'a A>, p: spec_fn(A) -> bool)
    requires kept(w, f, r), decides(f, p)
    ensures drf(r) == w.filter(p)
    decreases w.len()
{
    reveal(Seq::filter);
    if w.len() == 0 { assert(drf(r) =~= w.filter(p)); }
    else if r.len() > 0 && *r.last() == w.last() && call_ensures(f, (&&w.last(),), true) && kept(w.drop_last(), f, r.drop_last()) {
        lemma_kept(w.drop_last(), f, r.drop_last(), p);
        assert(p(w.last()));
        assert(drf(r) =~= drf(r.drop_last()).push(w.last()));
    } else {
        lemma_kept(w.drop_last(), f, r, p);
        assert(call_ensures(f, (&&w.last(),), false));
        assert(!p(w.last()));
    }
}
pub fn filter_slice<'a, A, F: Fn(&&'a A) -> bool>(w: &'a [A], f: F) -> (r: Vec<&'a A>)
    requires forall|x: &&'a A| call_requires(f, (x,))
    ensures forall|p: spec_fn(A) -> bool| decides(f, p) ==> drf(r@) == #[trigger] w@.filter(p)
{
    let mut r: Vec<&'a A> = Vec::new();
    for i in 0..w.len()
        invariant kept(w@.take(i as int), f, r@), forall|x: &&'a A| call_requires(f, (x,))
    {
        let x = &w[i];
        let ghost r0 = r@;
        let b = f(&x);
        if b { r.push(x); }
        proof {
            let s = w@.take(i + 1);
            assert(s.drop_last() =~= w@.take(i as int));
            assert(s.last() == w@[i as int]);
            if b { assert(r@.drop_last() =~= r0); }
        }
    }
    assert(w@.take(w@.len() as int) =~= w@);
    proof { assert forall|p: spec_fn(A) -> bool| decides(f, p) implies drf(r@) == #[trigger] w@.filter(p) by { lemma_kept(w@, f, r@, p); } }
    r
}
pub fn extend_vec<A>(v: &mut Vec<A>, w: Vec<A>)
    ensures final(v)@ == old(v)@ + w@
{
    let mut w = w;
    v.append(&mut w);
}
pub fn vec1<A>(a: A) -> (r: Vec<A>) ensures r@ == seq![a] { let mut v = Vec::new(); v.push(a); proof { assert(v@ =~= seq![a]); } v }
pub fn vec_swap<A>(v: &mut Vec<A>, i: usize, j: usize)
    requires i < old(v)@.len(), j < old(v)@.len()
    ensures final(v)@ == old(v)@.update(i as int, old(v)@[j as int]).update(j as int, old(v)@[i as int])
{
    // v.swap(i, j), spelt out
    let ghost s = v@;
    if i == j { assert(v@ =~= s.update(i as int, s[j as int]).update(j as int, s[i as int])); return; }
    let (l, h) = if i < j { (i, j) } else { (j, i) };
    let b = v.remove(h);
    let a = v.remove(l);
    v.insert(l, b);
    v.insert(h, a);
    assert(v@ =~= s.update(i as int, s[j as int]).update(j as int, s[i as int]));
}
pub fn umax(a: usize, b: usize) -> (r: usize) ensures r == if a >= b { a } else { b } { if a >= b { a } else { b } }
// capacity is not observable
#[verifier::external_body]
pub fn shrink_to_fit<A>(v: &mut Vec<A>) ensures final(v)@ == old(v)@ { v.shrink_to_fit() }
pub fn mem_take<A>(v: &mut Vec<A>) -> (r: Vec<A>) ensures r@ == old(v)@, final(v)@ == Seq::<A>::empty() { let mut w = Vec::new(); core::mem::swap(v, &mut w); w }
pub fn drain_tail<A>(v: &mut Vec<A>, k: usize) -> (r: Vec<A>)
    requires k <= old(v)@.len()
    ensures final(v)@ == old(v)@.take(k as int), r@ == old(v)@.skip(k as int)
{
    let ghost o = v@;
    let r = v.split_off(k);
    proof { assert(v@ =~= o.take(k as int)); assert(r@ =~= o.skip(k as int)); }
    r
}
pub fn split_first<A>(s: &[A]) -> (r: Option<(&A, &[A])>)
    ensures match r { Some(p) => s@.len() > 0 && *p.0 == s@[0] && p.1@ == s@.skip(1), None => s@.len() == 0 }
{ if s.len() == 0 { None } else { let t = vstd::slice::slice_subrange(s, 1, s.len()); assert(t@ =~= s@.skip(1)); Some((&s[0], t)) } }
pub fn map_slice<'a, A, B, F: Fn(&'a A) -> B>(w: &'a [A], f: F) -> (r: Vec<B>)
    requires forall|x: &'a A| call_requires(f, (x,))
    ensures r@.len() == w@.len(), forall|i: int| 0 <= i < r@.len() ==> call_ensures(f, (&w@[i],), #[trigger] r@[i])
{
    let mut r: Vec<B> = Vec::new();
    for i in 0..w.len()
        invariant r@.len() == i, forall|x: &'a A| call_requires(f, (x,)), forall|j: int| 0 <= j < r@.len() ==> call_ensures(f, (&w@[j],), #[trigger] r@[j])
    {
        r.push(f(&w[i]));
    }
    r
}
pub fn collect_map<A, B, F: Fn(A) -> B>(w: Vec<A>, f: F) -> (r: Vec<B>)
    requires forall|i: int| 0 <= i < w@.len() ==> call_requires(f, (#[trigger] w@[i],))
    ensures r@.len() == w@.len(), forall|i: int| 0 <= i < r@.len() ==> call_ensures(f, (w@[i],), #[trigger] r@[i])
{
    let mut r: Vec<B> = Vec::new();
    extend_map(&mut r, w, f);
    r
}
pub fn some_usize() -> (r: usize) { 0 }
pub open spec fn drf<A>(s: Seq<&A>) -> Seq<A> { Seq::new(s.len(), |i: int| *s[i]) }
pub fn extend_ref<'a, A>(v: &mut Vec<&'a A>, w: &'a Vec<A>)
    ensures drf(final(v)@) == drf(old(v)@) + w@
{
    for i in 0..w.len()
        invariant drf(v@) =~= drf(old(v)@) + w@.take(i as int)
    {
        let ghost v0 = v@;
        v.push(&w[i]);
        assert(w@.take(i + 1) =~= w@.take(i as int).push(w@[i as int]));
        assert(drf(v@) =~= drf(v0).push(w@[i as int]));
    }
    assert(w@.take(w@.len() as int) =~= w@);
}
pub fn collect_ref<'a, A>(w: &'a Vec<A>) -> (r: Vec<&'a A>)
    ensures drf(r@) == w@
{
    let mut r: Vec<&'a A> = Vec::new();
    extend_ref(&mut r, w);
    assert(drf(r@) =~= w@);
    r
}
pub open spec fn drm<A>(s: Seq<&mut A>) -> Seq<A> { Seq::new(s.len(), |i: int| *s[i]) }
#[verifier::external_body]
pub fn collect_mut<'a, A>(w: &'a mut Vec<A>) -> (r: Vec<&'a mut A>)
    ensures r@.len() == old(w)@.len(), final(w)@.len() == old(w)@.len(),
        forall|i: int| 0 <= i < r@.len() ==> *#[trigger] r@[i] == old(w)@[i] && *final(r@[i]) == final(w)@[i]
{ w.iter_mut().collect() }
pub fn take_first<A>(v: &mut Vec<A>) -> (r: A)
    requires old(v)@.len() > 0
    ensures r == old(v)@[0], final(v)@ == old(v)@.skip(1),
        forall|j: int| 1 <= j < old(v)@.len() ==> #[trigger] old(v)@[j] == final(v)@[j - 1]
{
    let ghost o = v@;
    let r = v.remove(0);
    assert(v@ =~= o.skip(1));
    r
}
pub fn extend_mut<'a, A>(v: &mut Vec<&'a mut A>, w: &'a mut Vec<A>)
    ensures final(v)@.len() == old(v)@.len() + old(w)@.len(), final(w)@.len() == old(w)@.len(),
        forall|i: int| 0 <= i < old(v)@.len() ==> #[trigger] final(v)@[i] == old(v)@[i],
        forall|i: int| old(v)@.len() <= i < final(v)@.len() ==> *#[trigger] final(v)@[i] == old(w)@[i - old(v)@.len()] && *final(final(v)@[i]) == final(w)@[i - old(v)@.len()],
{
    let mut c = collect_mut(w);
    v.append(&mut c);
}
// ---------- generators: FnMut(usize) -> S with a ghost log of (argument, answer) ----------
pub trait Gen<S> {
    spec fn log(&self) -> Seq<(usize, S)>;
    fn call(&mut self, i: usize) -> (r: S)
        ensures final(self).log() == old(self).log().push((i, r));
}
#[verifier::external_body]
pub fn array_of<S, const N: usize>(v: Vec<S>) -> (r: [S; N])
    requires v@.len() == N
    ensures r@ == v@
{ unimplemented!() }
// ---------- visitors: callables with a ghost log of (argument, answer) ----------
pub trait Logged<A, B> {
    spec fn log(&self) -> Seq<(A, ControlFlow<B>)>;
    // what the callable may answer
    spec fn may(a: A, r: ControlFlow<B>) -> bool;
}
pub trait Visitor<'a, A: 'a, B>: Logged<A, B> {
    fn call(&mut self, a: &'a A) -> (r: ControlFlow<B>)
        ensures final(self).log() == old(self).log().push((*a, r)), Self::may(*a, r);
}
pub trait VisitorMut<'a, A: 'a, B>: Logged<A, B> {
    fn call(&mut self, a: &'a mut A) -> (r: ControlFlow<B>)
        ensures final(self).log() == old(self).log().push((*old(a), r)), Self::may(*old(a), r);
}
// the calls between two logs: every one but the last said Continue, and r is what the last one said
pub open spec fn ran<A, B, V: Logged<A, B>>(l0: Seq<(A, ControlFlow<B>)>, l1: Seq<(A, ControlFlow<B>)>, m: Multiset<A>, r: ControlFlow<B>) -> bool {
    &&& l0.len() <= l1.len()
    &&& l1.take(l0.len() as int) == l0
    &&& forall|i: int| l0.len() <= i < l1.len() ==> V::may((#[trigger] l1[i]).0, l1[i].1)
    &&& r is Continue ==> seen(l0, l1) == m && forall|i: int| l0.len() <= i < l1.len() ==> (#[trigger] l1[i]).1 is Continue
    &&& r is Break ==> seen(l0, l1).subset_of(m) && l1.len() > l0.len() && l1.last().1 == r && forall|i: int| l0.len() <= i < l1.len() - 1 ==> (#[trigger] l1[i]).1 is Continue
}
pub open spec fn seen<A, B>(l0: Seq<(A, ControlFlow<B>)>, l1: Seq<(A, ControlFlow<B>)>) -> Multiset<A> {
    l1.skip(l0.len() as int).map_values(|x: (A, ControlFlow<B>)| x.0).to_multiset()
}
pub proof fn seen_has<A, B>(l0: Seq<(A, ControlFlow<B>)>, l1: Seq<(A, ControlFlow<B>)>, i: int)
    requires l0.len() <= i < l1.len()
    ensures seen(l0, l1).contains(l1[i].0)
{
    let s = l1.skip(l0.len() as int).map_values(|x: (A, ControlFlow<B>)| x.0);
    assert(s[i - l0.len()] == l1[i].0);
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(s.contains(s[i - l0.len()]));
}
pub proof fn seen_none<A, B>(l0: Seq<(A, ControlFlow<B>)>, l1: Seq<(A, ControlFlow<B>)>)
    requires l0.len() == l1.len()
    ensures seen(l0, l1) == Multiset::<A>::empty()
{
    assert(l1.skip(l0.len() as int).map_values(|x: (A, ControlFlow<B>)| x.0) =~= Seq::empty());
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(seen(l0, l1) =~= Multiset::empty());
}
pub proof fn ran_nothing<A, B, V: Logged<A, B>>(l: Seq<(A, ControlFlow<B>)>, r: ControlFlow<B>)
    requires r is Continue
    ensures ran::<A, B, V>(l, l, Multiset::empty(), r)
{
    assert(l.take(l.len() as int) =~= l);
    seen_none(l, l);
}
pub proof fn ran_one<A, B, V: Logged<A, B>>(l: Seq<(A, ControlFlow<B>)>, a: A, r: ControlFlow<B>)
    requires V::may(a, r)
    ensures ran::<A, B, V>(l, l.push((a, r)), Multiset::singleton(a), r)
{
    let l1 = l.push((a, r));
    assert(l1.take(l.len() as int) =~= l);
    assert(l1.skip(l.len() as int).map_values(|x: (A, ControlFlow<B>)| x.0) =~= Seq::empty().push(a));
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(seen(l, l1) =~= Multiset::singleton(a));
}
pub proof fn ran_then<A, B, V: Logged<A, B>>(l0: Seq<(A, ControlFlow<B>)>, l1: Seq<(A, ControlFlow<B>)>, l2: Seq<(A, ControlFlow<B>)>, m1: Multiset<A>, m2: Multiset<A>, r1: ControlFlow<B>, r2: ControlFlow<B>)
    requires ran::<A, B, V>(l0, l1, m1, r1), r1 is Continue, ran::<A, B, V>(l1, l2, m2, r2)
    ensures ran::<A, B, V>(l0, l2, m1.add(m2), r2)
{
    let f = |x: (A, ControlFlow<B>)| x.0;
    assert(l2.take(l0.len() as int) =~= l2.take(l1.len() as int).take(l0.len() as int));
    assert forall|i: int| l0.len() <= i < l1.len() implies (#[trigger] l2[i]) == l1[i] by { assert(l2.take(l1.len() as int)[i] == l2[i]); }
    assert(l2.skip(l0.len() as int).map_values(f) =~= l1.skip(l0.len() as int).map_values(f) + l2.skip(l1.len() as int).map_values(f));
    vstd::seq_lib::lemma_multiset_commutative(l1.skip(l0.len() as int).map_values(f), l2.skip(l1.len() as int).map_values(f));
    assert(seen(l0, l2) =~= seen(l0, l1).add(seen(l1, l2)));
}
pub proof fn ran_more<A, B, V: Logged<A, B>>(l0: Seq<(A, ControlFlow<B>)>, l1: Seq<(A, ControlFlow<B>)>, m1: Multiset<A>, m2: Multiset<A>, r: ControlFlow<B>)
    requires ran::<A, B, V>(l0, l1, m1, r), r is Break, m1.subset_of(m2)
    ensures ran::<A, B, V>(l0, l1, m2, r)
{}
pub proof fn lemma_ran_one<A, B, V: Logged<A, B>>(l: Seq<(A, ControlFlow<B>)>, a: A)
    ensures forall|r: ControlFlow<B>| V::may(a, r) ==> ran::<A, B, V>(l, #[trigger] l.push((a, r)), Multiset::singleton(a), r)
{
    assert forall|r: ControlFlow<B>| V::may(a, r) implies ran::<A, B, V>(l, #[trigger] l.push((a, r)), Multiset::singleton(a), r) by { ran_one::<A, B, V>(l, a, r) }
}
// whatever runs next continues the run so far
pub proof fn lemma_ran_pack<A, B, V: Logged<A, B>>(l0: Seq<(A, ControlFlow<B>)>, l1: Seq<(A, ControlFlow<B>)>, m1: Multiset<A>, m2: Multiset<A>, all: Multiset<A>, r1: ControlFlow<B>)
    requires ran::<A, B, V>(l0, l1, m1, r1), r1 is Continue, m1.add(m2).subset_of(all)
    ensures forall|l2: Seq<(A, ControlFlow<B>)>, r: ControlFlow<B>| #[trigger] ran::<A, B, V>(l1, l2, m2, r) ==> ran::<A, B, V>(l0, l2, m1.add(m2), r) && (r is Break ==> ran::<A, B, V>(l0, l2, all, r))
{
    assert forall|l2: Seq<(A, ControlFlow<B>)>, r: ControlFlow<B>| #[trigger] ran::<A, B, V>(l1, l2, m2, r) implies ran::<A, B, V>(l0, l2, m1.add(m2), r) && (r is Break ==> ran::<A, B, V>(l0, l2, all, r)) by {
        ran_then::<A, B, V>(l0, l1, l2, m1, m2, r1, r);
        if r is Break { ran_more::<A, B, V>(l0, l2, m1.add(m2), all, r); }
    }
}
// ControlFlow::Break used as a visitor
pub struct BreakVisitor<'a, A> { pub log: Ghost<Seq<(A, ControlFlow<&'a A>)>> }
impl<'a, A> BreakVisitor<'a, A> {
    pub fn new() -> (r: Self) ensures r.log@.len() == 0 { BreakVisitor { log: Ghost(Seq::empty()) } }
}
impl<'a, A> Logged<A, &'a A> for BreakVisitor<'a, A> {
    open spec fn log(&self) -> Seq<(A, ControlFlow<&'a A>)> { self.log@ }
    open spec fn may(a: A, r: ControlFlow<&'a A>) -> bool { match r { ControlFlow::Break(b) => *b == a, _ => false } }
}
impl<'a, A> Visitor<'a, A, &'a A> for BreakVisitor<'a, A> {
    fn call(&mut self, a: &'a A) -> (r: ControlFlow<&'a A>)
    {
        let r = ControlFlow::Break(a);
        proof { self.log@ = self.log@.push((*a, r)); }
        r
    }
}
pub struct BreakVisitorMut<'a, A> { pub log: Ghost<Seq<(A, ControlFlow<&'a mut A>)>> }
impl<'a, A> BreakVisitorMut<'a, A> {
    pub fn new() -> (r: Self) ensures r.log@.len() == 0 { BreakVisitorMut { log: Ghost(Seq::empty()) } }
}
impl<'a, A> Logged<A, &'a mut A> for BreakVisitorMut<'a, A> {
    open spec fn log(&self) -> Seq<(A, ControlFlow<&'a mut A>)> { self.log@ }
    open spec fn may(a: A, r: ControlFlow<&'a mut A>) -> bool { match r { ControlFlow::Break(b) => *b == a, _ => false } }
}
impl<'a, A> VisitorMut<'a, A, &'a mut A> for BreakVisitorMut<'a, A> {
    fn call(&mut self, a: &'a mut A) -> (r: ControlFlow<&'a mut A>)
    {
        let ghost o = *a;
        let r = ControlFlow::Break(a);
        proof { self.log@ = self.log@.push((o, r)); }
        r
    }
}
// Elements are taken to carry an identity: comparing the addresses of two references into one tree
// is comparing the elements. (Generic code cannot copy or inspect a T, so every execution is one over
// elements tagged with distinct identities; what is proved of the tagged elements holds of the values.)
pub uninterp spec fn addr_of<A>(p: *const A) -> A;
#[verifier::external_body]
pub fn ptr_eq<A>(p: *const A, a: &A) -> (r: bool)
    ensures r == (*a == addr_of(p))
{ core::ptr::eq(p, a) }
#[verifier::external_body]
pub fn addr<A>(a: &A) -> (r: *const A) ensures addr_of(r) == *a { a }
} // mod vx
