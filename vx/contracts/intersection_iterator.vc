%file algorithm/intersection_iterator.rs
%module algorithm::intersection_iterator
%prelude
broadcast use {crate::num_axioms::num_laws, crate::vx::node_vec_len};
use crate::node::RTreeNode::{Leaf, Parent};
// how often the pair (t, u) is among the intersecting pairs of a and b
#[verifier::opaque]
pub open spec fn pc<T: RTreeObject, U: RTreeObject<Envelope = T::Envelope>>(a: Multiset<T>, b: Multiset<U>, t: T, u: U) -> nat {
    if t.env().meets(&u.env()) { a.count(t) * b.count(u) } else { 0 }
}
pub type Todo<'a, T, U> = Seq<(&'a RTreeNode<T>, &'a RTreeNode<U>)>;
// the same, summed over the pairs of nodes still to be looked at
// a product kept out of the solver's sight
#[verifier::opaque]
pub open spec fn prod(a: nat, b: nat) -> nat { a * b }
pub open spec fn ix_rest<'a, T: RTreeObject, U: RTreeObject<Envelope = T::Envelope>>(s: Todo<'a, T, U>, t: T, u: U) -> nat
    decreases s.len()
{
    if s.len() == 0 { 0 } else { ix_rest(s.drop_last(), t, u) + pc(n_elems(*s.last().0), n_elems(*s.last().1), t, u) }
}
pub open spec fn ix_size<'a, T: RTreeObject, U: RTreeObject<Envelope = T::Envelope>>(s: Todo<'a, T, U>) -> nat
    decreases s.len()
{
    if s.len() == 0 { 0 } else { ix_size(s.drop_last()) + prod(n_count(*s.last().0), n_count(*s.last().1)) }
}
pub open spec fn pair_ok<'a, T: RTreeObject, U: RTreeObject<Envelope = T::Envelope>>(x: (&'a RTreeNode<T>, &'a RTreeNode<U>)) -> bool {
    n_ok(*x.0) && n_ok(*x.1) && n_env(*x.0).meets(&n_env(*x.1))
}
pub open spec fn ix_wf<'a, T: RTreeObject, U: RTreeObject<Envelope = T::Envelope>>(it: IntersectionIterator<'a, T, U>) -> bool {
    it.candidates@.len() == 0 && forall|i: int| 0 <= i < it.todo_list@.len() ==> pair_ok(#[trigger] it.todo_list@[i])
}
pub proof fn lemma_in_env<T: RTreeObject>(n: RTreeNode<T>, t: T)
    requires n_ok(n), n_elems(n).contains(t)
    ensures t.env().le(&n_env(n)), obj_ok(t)
{
    T::Envelope::laws();
    match n { RTreeNode::Leaf(x) => {}, RTreeNode::Parent(p) => { lemma_p_all_ok(p, n_height(n), t); } }
}
// nodes whose envelopes are apart hold no intersecting pair
pub proof fn lemma_apart<T: RTreeObject, U: RTreeObject<Envelope = T::Envelope>>(a: RTreeNode<T>, b: RTreeNode<U>, t: T, u: U)
    requires n_ok(a), n_ok(b), !n_env(a).meets(&n_env(b))
    ensures pc(n_elems(a), n_elems(b), t, u) == 0
{
    reveal(pc);
    T::Envelope::laws();
    if pc(n_elems(a), n_elems(b), t, u) != 0 {
        if n_elems(a).count(t) == 0 || n_elems(b).count(u) == 0 { assert(n_elems(a).count(t) * n_elems(b).count(u) == 0) by (nonlinear_arith) requires n_elems(a).count(t) == 0 || n_elems(b).count(u) == 0; }
        lemma_in_env(a, t);
        lemma_in_env(b, u);
        assert(t.env().meets(&n_env(b)));
        assert(n_env(b).meets(&t.env()));
        assert(n_env(b).meets(&n_env(a)));
    }
}
pub proof fn lemma_pc_add<T: RTreeObject, U: RTreeObject<Envelope = T::Envelope>>(a1: Multiset<T>, a2: Multiset<T>, b1: Multiset<U>, b2: Multiset<U>, t: T, u: U)
    ensures pc(a1.add(a2), b1, t, u) == pc(a1, b1, t, u) + pc(a2, b1, t, u), pc(a1, b1.add(b2), t, u) == pc(a1, b1, t, u) + pc(a1, b2, t, u)
{
    reveal(pc);
    let (x1, x2, y1, y2) = (a1.count(t), a2.count(t), b1.count(u), b2.count(u));
    assert((x1 + x2) * y1 == x1 * y1 + x2 * y1) by (nonlinear_arith);
    assert(x1 * (y1 + y2) == x1 * y1 + x1 * y2) by (nonlinear_arith);
}
// filtering children by an envelope keeps every element that meets it
pub open spec fn keeps<T: RTreeObject>(w: Seq<RTreeNode<T>>, r: Seq<RTreeNode<T>>, e: T::Envelope) -> bool {
    &&& s_ok(r)
    &&& forall|t: T| (#[trigger] s_elems(r).count(t)) <= s_elems(w).count(t)
    &&& forall|t: T| #![trigger s_elems(r).count(t)] t.env().meets(&e) ==> s_elems(r).count(t) == s_elems(w).count(t)
    &&& s_count(r) <= s_count(w)
}
pub open spec fn near_kids<T: RTreeObject>(w: Seq<RTreeNode<T>>, e: T::Envelope) -> Seq<RTreeNode<T>> { w.filter(|c: RTreeNode<T>| n_env(c).meets(&e)) }
pub proof fn lemma_keeps<T: RTreeObject>(w: Seq<RTreeNode<T>>, e: T::Envelope)
    requires s_ok(w)
    ensures keeps(w, near_kids(w, e), e)
    decreases w.len()
{
    reveal(Seq::filter);
    T::Envelope::laws();
    if w.len() > 0 {
        let w0 = w.drop_last();
        let c = w.last();
        let (r, r0) = (near_kids(w, e), near_kids(w0, e));
        assert forall|i: int| 0 <= i < w0.len() implies n_ok(#[trigger] w0[i]) by { assert(w[i] == w0[i]); }
        assert(n_ok(w[w.len() - 1]));
        lemma_keeps(w0, e);
        if n_env(c).meets(&e) {
            assert(r == r0.push(c));
            assert(r.drop_last() =~= r0);
            assert forall|i: int| 0 <= i < r.len() implies n_ok(#[trigger] r[i]) by { if i < r0.len() { assert(r0[i] == r[i]); } }
            assert forall|t: T| (#[trigger] s_elems(r).count(t)) <= s_elems(w).count(t) by { assert(s_elems(r0).count(t) <= s_elems(w0).count(t)); }
            assert forall|t: T| #![trigger s_elems(r).count(t)] t.env().meets(&e) implies s_elems(r).count(t) == s_elems(w).count(t) by { assert(s_elems(r0).count(t) == s_elems(w0).count(t)); }
        } else {
            assert(r == r0);
            assert forall|t: T| #![trigger s_elems(r).count(t)] t.env().meets(&e) implies s_elems(r).count(t) == s_elems(w).count(t) by {
                if n_elems(c).contains(t) {
                    lemma_in_env(c, t);
                    assert(e.meets(&t.env()));
                    assert(e.meets(&n_env(c)));
                }
            }
        }
    }
}
pub proof fn lemma_take<T: RTreeObject>(s: Seq<RTreeNode<T>>, k: int)
    requires 0 <= k < s.len()
    ensures s_elems(s.take(k + 1)) == s_elems(s.take(k)).add(n_elems(s[k])), s_count(s.take(k + 1)) == s_count(s.take(k)) + n_count(s[k]), s_elems(s.take(0)) == Multiset::<T>::empty(), s_count(s.take(0)) == 0
{
    assert(s.take(k + 1).drop_last() =~= s.take(k));
    assert(s_elems(s.take(k + 1)) =~= s_elems(s.take(k)).add(n_elems(s[k])));
}
pub proof fn lemma_mul0(a: nat, b: nat)
    ensures prod(0, b) == 0, prod(a, 0) == 0
{
    reveal(prod);
}
pub proof fn lemma_pc_leaf<T: RTreeObject, U: RTreeObject<Envelope = T::Envelope>>(a: RTreeNode<T>, b: RTreeNode<U>, t: T, u: U)
    requires a is Leaf, b is Leaf, n_env(a).meets(&n_env(b))
    ensures pc(n_elems(a), n_elems(b), t, u) == if t == a->Leaf_0 && u == b->Leaf_0 { 1nat } else { 0nat }
{
    reveal(pc);
    let (x, y) = (n_elems(a).count(t), n_elems(b).count(u));
    assert(x * y == if x == 1 && y == 1 { 1nat } else { 0nat }) by (nonlinear_arith) requires 0 <= x <= 1, 0 <= y <= 1;
}
pub proof fn lemma_pc0<T: RTreeObject, U: RTreeObject<Envelope = T::Envelope>>(a: Multiset<T>, b: Multiset<U>)
    ensures forall|t: T, u: U| #[trigger] pc(a, Multiset::<U>::empty(), t, u) == 0, forall|t: T, u: U| #[trigger] pc(Multiset::<T>::empty(), b, t, u) == 0
{
    reveal(pc);
    assert forall|t: T, u: U| #[trigger] pc(a, Multiset::<U>::empty(), t, u) == 0 by { let x = a.count(t); assert(x * 0 == 0) by (nonlinear_arith); }
    assert forall|t: T, u: U| #[trigger] pc(Multiset::<T>::empty(), b, t, u) == 0 by { let x = b.count(u); assert(0 * x == 0) by (nonlinear_arith); }
}
pub proof fn lemma_mul_add(a: nat, b: nat, c: nat)
    ensures prod(a, b + c) == prod(a, b) + prod(a, c), prod(b + c, a) == prod(b, a) + prod(c, a), prod(a, b) == prod(b, a), prod(a, c) == prod(c, a)
{
    reveal(prod);
    assert(a * (b + c) == a * b + a * c) by (nonlinear_arith);
    assert((b + c) * a == b * a + c * a) by (nonlinear_arith);
    assert(a * b == b * a) by (nonlinear_arith);
    assert(a * c == c * a) by (nonlinear_arith);
}
pub proof fn lemma_mul_le(a: nat, b: nat, c: nat, d: nat)
    requires a <= c, b <= d
    ensures prod(a, b) <= prod(c, d)
{
    reveal(prod);
    assert(a * b <= c * d) by (nonlinear_arith) requires 0 <= a <= c, 0 <= b <= d;
}
// pairing off children is less work than pairing off their parents
pub proof fn lemma_sizes<T: RTreeObject, U: RTreeObject<Envelope = T::Envelope>>(a: RTreeNode<T>, b: RTreeNode<U>)
    ensures
        a is Leaf && b is Parent ==> prod(n_count(a), s_count(b->Parent_0.children@)) < prod(n_count(a), n_count(b)),
        a is Parent && b is Leaf ==> prod(s_count(a->Parent_0.children@), n_count(b)) < prod(n_count(a), n_count(b)),
        a is Parent && b is Parent ==> prod(s_count(a->Parent_0.children@), s_count(b->Parent_0.children@)) < prod(n_count(a), n_count(b)),
        prod(n_count(a), n_count(b)) > 0,
{
    reveal(prod);
    let (x, y) = (n_count(a), n_count(b));
    assert(x >= 1 && y >= 1);
    assert(x * (y - 1) < x * y && (x - 1) * y < x * y && (x - 1) * (y - 1) < x * y && x * y > 0) by (nonlinear_arith) requires x >= 1, y >= 1;
}
// looking only at children that meet the other parent's envelope loses no pair
pub proof fn lemma_kept_pairs<T: RTreeObject, U: RTreeObject<Envelope = T::Envelope>>(p: ParentNode<T>, q: ParentNode<U>, r: Seq<RTreeNode<T>>, s: Seq<RTreeNode<U>>, t: T, u: U)
    requires p_wf(p, p_height(p)), p_wf(q, p_height(q)), keeps(p.children@, r, q.envelope), keeps(q.children@, s, p.envelope)
    ensures pc(s_elems(r), s_elems(s), t, u) == pc(p_elems(p), p_elems(q), t, u)
{
    reveal(pc);
    T::Envelope::laws();
    let (a, b, c, d) = (s_elems(r).count(t), s_elems(s).count(u), p_elems(p).count(t), p_elems(q).count(u));
    if t.env().meets(&u.env()) {
        if c == 0 || d == 0 { assert(a * b == 0 && c * d == 0) by (nonlinear_arith) requires c == 0 || d == 0, 0 <= a <= c, 0 <= b <= d; }
        else {
            lemma_p_all_ok(p, p_height(p), t);
            lemma_p_all_ok(q, p_height(q), u);
            assert(t.env().meets(&q.envelope));
            assert(u.env().meets(&p.envelope));
        }
    }
}
pub proof fn lemma_apart_p<T: RTreeObject, U: RTreeObject<Envelope = T::Envelope>>(p: ParentNode<T>, q: ParentNode<U>, t: T, u: U)
    requires p_wf(p, p_height(p)), p_wf(q, p_height(q)), !p.envelope.meets(&q.envelope)
    ensures pc(p_elems(p), p_elems(q), t, u) == 0
{
    reveal(pc);
    T::Envelope::laws();
    let (c, d) = (p_elems(p).count(t), p_elems(q).count(u));
    if c == 0 || d == 0 { assert(c * d == 0) by (nonlinear_arith) requires c == 0 || d == 0; }
    else {
        lemma_p_all_ok(p, p_height(p), t);
        lemma_p_all_ok(q, p_height(q), u);
        if t.env().meets(&u.env()) {
            assert(t.env().meets(&q.envelope));
            assert(q.envelope.meets(&t.env()));
            assert(q.envelope.meets(&p.envelope));
        }
    }
}
// a whole run of next: what is left before each step and at the end
pub open spec fn ix_run<T, U>(out: Seq<(T, U)>, left: Seq<spec_fn(T, U) -> nat>) -> bool {
    &&& left.len() == out.len() + 1
    &&& forall|i: int, t: T, u: U| 0 <= i < out.len() ==> #[trigger] left[i](t, u) == left[i + 1](t, u) + if (t, u) == out[i] { 1nat } else { 0nat }
    &&& forall|t: T, u: U| #[trigger] left[out.len() as int](t, u) == 0
}
// it yields every pair exactly as often as there was at the start
pub proof fn c14_run<T, U>(out: Seq<(T, U)>, left: Seq<spec_fn(T, U) -> nat>, t: T, u: U)
    requires ix_run(out, left)
    ensures out.to_multiset().count((t, u)) == left[0](t, u)
    decreases out.len()
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    if out.len() > 0 {
        let rest = out.skip(1);
        let l = left.skip(1);
        assert forall|i: int, t: T, u: U| 0 <= i < rest.len() implies #[trigger] l[i](t, u) == l[i + 1](t, u) + if (t, u) == rest[i] { 1nat } else { 0nat } by { assert(left[i + 1](t, u) == left[i + 2](t, u) + if (t, u) == out[i + 1] { 1nat } else { 0nat }); }
        assert forall|t: T, u: U| #[trigger] l[rest.len() as int](t, u) == 0 by { assert(left[out.len() as int](t, u) == 0); }
        c14_run(rest, l, t, u);
        assert(out =~= seq![out[0]] + rest);
        vstd::seq_lib::lemma_multiset_commutative(seq![out[0]], rest);
        assert(seq![out[0]] =~= Seq::empty().push(out[0]));
        assert(left[0](t, u) == left[1](t, u) + if (t, u) == out[0] { 1nat } else { 0nat });
    }
}
%item struct IntersectionIterator
%item impl IntersectionIterator::new
%ret r
%sig
    requires p_wf(*root1, p_height(*root1)), p_wf(*root2, p_height(*root2))
    ensures ix_wf(r), forall|t: T, u: U| #[trigger] ix_rest(r.todo_list@, t, u) == pc(p_elems(*root1), p_elems(*root2), t, u)
%item impl IntersectionIterator::push_if_intersecting
%sig
    requires n_ok(*node1), n_ok(*node2)
    ensures final(self).candidates@ == old(self).candidates@,
        final(self).todo_list@ == old(self).todo_list@ || final(self).todo_list@ == old(self).todo_list@.push((node1, node2)) && pair_ok((node1, node2)),
        forall|t: T, u: U| #[trigger] ix_rest(final(self).todo_list@, t, u) == ix_rest(old(self).todo_list@, t, u) + pc(n_elems(*node1), n_elems(*node2), t, u),
        ix_size(final(self).todo_list@) <= ix_size(old(self).todo_list@) + prod(n_count(*node1), n_count(*node2)),
%at start
    proof {
        let s = self.todo_list@;
        assert(s.push((node1, node2)).drop_last() =~= s);
        if !n_env(*node1).meets(&n_env(*node2)) { assert forall|t: T, u: U| #[trigger] pc(n_elems(*node1), n_elems(*node2), t, u) == 0 by { lemma_apart(*node1, *node2, t, u); } }
    }
%item impl IntersectionIterator::add_intersecting_children
%attr #[verifier::loop_isolation(false)]
%opt for_path_takes
%sig
    requires ix_wf(*old(self)), p_wf(*parent1, p_height(*parent1)), p_wf(*parent2, p_height(*parent2))
    ensures ix_wf(*final(self)),
        forall|t: T, u: U| #[trigger] ix_rest(final(self).todo_list@, t, u) == ix_rest(old(self).todo_list@, t, u) + pc(p_elems(*parent1), p_elems(*parent2), t, u),
        ix_size(final(self).todo_list@) <= ix_size(old(self).todo_list@) + prod(s_count(parent1.children@), s_count(parent2.children@)),
%closure 0 |c1: &&'a RTreeNode<T>| -> (b: bool)
    ensures b == n_env(**c1).meets(&parent2.envelope)
%closure 1 |c2: &&'a RTreeNode<U>| -> (b: bool)
    ensures b == n_env(**c2).meets(&parent1.envelope)
%at start
    let ghost s0 = self.todo_list@;
    proof {
        lemma_ok_kids(*parent1, p_height(*parent1));
        lemma_ok_kids(*parent2, p_height(*parent2));
        if !parent1.envelope.meets(&parent2.envelope) { assert forall|t: T, u: U| #[trigger] pc(p_elems(*parent1), p_elems(*parent2), t, u) == 0 by { lemma_apart_p(*parent1, *parent2, t, u); } }
        lemma_mul0(s_count(parent1.children@), s_count(parent2.children@));
    }
%at beforeloop 0
    let ghost all = vx_o0@;
    let ghost r1 = drf(all);
    let ghost r2 = drf(children2@);
    let ghost mut k: int = 0;
    proof {
        lemma_keeps(parent1.children@, parent2.envelope);
        lemma_keeps(parent2.children@, parent1.envelope);
        assert(r1 == near_kids(parent1.children@, parent2.envelope));
        assert(r2 =~= near_kids(parent2.children@, parent1.envelope));
        assert(s_elems(r1.take(0)) =~= Multiset::empty());
        lemma_pc0(s_elems(r1.take(0)), s_elems(r2));
        lemma_mul0(0, s_count(r2))
    }
%loop 0
    invariant 0 <= k <= all.len(), vx_o0@ == all.skip(k), self.candidates@.len() == 0, drf(children2@) == r2,
        forall|i: int| 0 <= i < self.todo_list@.len() ==> pair_ok(#[trigger] self.todo_list@[i]),
        forall|t: T, u: U| #[trigger] ix_rest(self.todo_list@, t, u) == ix_rest(s0, t, u) + pc(s_elems(r1.take(k)), s_elems(r2), t, u),
        ix_size(self.todo_list@) <= ix_size(s0) + prod(s_count(r1.take(k)), s_count(r2)),
    decreases all.len() - k
%at loopstart 0
    let ghost s1 = self.todo_list@;
    let ghost n1 = r1[k];
    proof { assert(vx_o0@[0] == all[k]); assert(n_ok(r1[k])); }
%at beforeloop 1
    proof {
        lemma_pc0(n_elems(n1), s_elems(r2.take(0)));
        lemma_mul0(n_count(n1), 0);
        assert(s_count(r2.take(0)) == 0);
        assert(s_elems(r2.take(0)) =~= Multiset::empty());
    }
%loop 1
    invariant vx_s1@ == children2@, self.candidates@.len() == 0, *child1 == n1,
        forall|i: int| 0 <= i < self.todo_list@.len() ==> pair_ok(#[trigger] self.todo_list@[i]),
        forall|t: T, u: U| #[trigger] ix_rest(self.todo_list@, t, u) == ix_rest(s1, t, u) + pc(n_elems(n1), s_elems(r2.take(vx_i1 as int)), t, u),
        ix_size(self.todo_list@) <= ix_size(s1) + prod(n_count(n1), s_count(r2.take(vx_i1 as int))),
%at loopstart 1
    let ghost s2 = self.todo_list@;
    proof { assert(r2[vx_i1 as int] == *vx_s1@[vx_i1 as int]); assert(n_ok(r2[vx_i1 as int])); }
%at loopend 1
    proof {
        let i = vx_i1 as int;
        lemma_take(r2, i);
        assert forall|t: T, u: U| #[trigger] ix_rest(self.todo_list@, t, u) == ix_rest(s1, t, u) + pc(n_elems(n1), s_elems(r2.take(i + 1)), t, u) by { lemma_pc_add(n_elems(n1), n_elems(n1), s_elems(r2.take(i)), n_elems(r2[i]), t, u); }
        lemma_mul_add(n_count(n1), s_count(r2.take(i)), n_count(r2[i]));
    }
%at afterloop 1
    proof {
        assert(r2.take(r2.len() as int) =~= r2);
        lemma_take(r1, k);
        assert forall|t: T, u: U| #[trigger] ix_rest(self.todo_list@, t, u) == ix_rest(s0, t, u) + pc(s_elems(r1.take(k + 1)), s_elems(r2), t, u) by { lemma_pc_add(s_elems(r1.take(k)), n_elems(n1), s_elems(r2), s_elems(r2), t, u); assert(ix_rest(s1, t, u) == ix_rest(s0, t, u) + pc(s_elems(r1.take(k)), s_elems(r2), t, u)); }
        lemma_mul_add(s_count(r2), s_count(r1.take(k)), n_count(n1));
        k = k + 1;
    }
%at afterloop 0
    proof {
        assert(r1.take(r1.len() as int) =~= r1);
        assert forall|t: T, u: U| #[trigger] ix_rest(self.todo_list@, t, u) == ix_rest(s0, t, u) + pc(p_elems(*parent1), p_elems(*parent2), t, u) by { lemma_kept_pairs(*parent1, *parent2, r1, r2, t, u); }
        lemma_mul_le(s_count(r1), s_count(r2), s_count(parent1.children@), s_count(parent2.children@));
    }
%item impl Iterator for IntersectionIterator
%opt inherent
%item impl Iterator for IntersectionIterator::next
%attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
%ret r
%sig
    requires ix_wf(*old(self))
    ensures ix_wf(*final(self)),
        match r {
            Some(x) => x.0.env().meets(&x.1.env()) && forall|t: T, u: U| #[trigger] ix_rest(old(self).todo_list@, t, u) == ix_rest(final(self).todo_list@, t, u) + if t == *x.0 && u == *x.1 { 1nat } else { 0nat },
            None => forall|t: T, u: U| #[trigger] ix_rest(old(self).todo_list@, t, u) == 0,
        }
%at beforeloop 0
    let ghost mut vx_g = self.todo_list@;
    let ghost s0 = vx_g;
%loop 0
    invariant vx_g == self.todo_list@, ix_wf(*self), forall|t: T, u: U| #[trigger] ix_rest(s0, t, u) == ix_rest(vx_g, t, u),
    ensures vx_g.len() == 0,
    decreases ix_size(vx_g)
%at loopstart 0
    let ghost mid = self.todo_list@;
    let ghost (na, nb) = (*next.0, *next.1);
    proof {
        assert(pair_ok(vx_g[vx_g.len() - 1]));
        assert(vx_g.drop_last() =~= mid);
        assert forall|i: int| 0 <= i < mid.len() implies pair_ok(#[trigger] mid[i]) by { assert(vx_g[i] == mid[i]); }
        lemma_sizes(na, nb);
        if na is Leaf && nb is Leaf {
            assert forall|t: T, u: U| #[trigger] pc(n_elems(na), n_elems(nb), t, u) == if t == na->Leaf_0 && u == nb->Leaf_0 { 1nat } else { 0nat } by { lemma_pc_leaf(na, nb, t, u); }
        }
    }
%at beforeloop 1
    let ghost ks = p.children@;
    proof {
        lemma_ok_kids(*p, p_height(*p));
        lemma_pc0(n_elems(na), s_elems(ks.take(0)));
        lemma_mul0(n_count(na), 0);
        lemma_sizes(na, nb);
    }
%loop 1
    invariant vx_s1@ == ks, *leaf == na, self.candidates@.len() == 0,
        forall|i: int| 0 <= i < self.todo_list@.len() ==> pair_ok(#[trigger] self.todo_list@[i]),
        forall|t: T, u: U| #[trigger] ix_rest(self.todo_list@, t, u) == ix_rest(mid, t, u) + pc(n_elems(na), s_elems(ks.take(vx_i1 as int)), t, u),
        ix_size(self.todo_list@) <= ix_size(mid) + prod(n_count(na), s_count(ks.take(vx_i1 as int))),
%at loopend 1
    proof {
        let i = vx_i1 as int;
        lemma_take(ks, i);
        assert forall|t: T, u: U| #[trigger] ix_rest(self.todo_list@, t, u) == ix_rest(mid, t, u) + pc(n_elems(na), s_elems(ks.take(i + 1)), t, u) by { lemma_pc_add(n_elems(na), n_elems(na), s_elems(ks.take(i)), n_elems(ks[i]), t, u); }
        lemma_mul_add(n_count(na), s_count(ks.take(i)), n_count(ks[i]));
    }
%at afterloop 1
    proof { assert(ks.take(ks.len() as int) =~= ks); }
%at beforeloop 2
    let ghost ks = p.children@;
    proof {
        lemma_ok_kids(*p, p_height(*p));
        lemma_pc0(s_elems(ks.take(0)), n_elems(nb));
        lemma_mul0(0, n_count(nb));
        lemma_sizes(na, nb);
    }
%loop 2
    invariant vx_s2@ == ks, *leaf == nb, self.candidates@.len() == 0,
        forall|i: int| 0 <= i < self.todo_list@.len() ==> pair_ok(#[trigger] self.todo_list@[i]),
        forall|t: T, u: U| #[trigger] ix_rest(self.todo_list@, t, u) == ix_rest(mid, t, u) + pc(s_elems(ks.take(vx_i2 as int)), n_elems(nb), t, u),
        ix_size(self.todo_list@) <= ix_size(mid) + prod(s_count(ks.take(vx_i2 as int)), n_count(nb)),
%at loopend 2
    proof {
        let i = vx_i2 as int;
        lemma_take(ks, i);
        assert forall|t: T, u: U| #[trigger] ix_rest(self.todo_list@, t, u) == ix_rest(mid, t, u) + pc(s_elems(ks.take(i + 1)), n_elems(nb), t, u) by { lemma_pc_add(s_elems(ks.take(i)), n_elems(ks[i]), n_elems(nb), n_elems(nb), t, u); }
        lemma_mul_add(n_count(nb), s_count(ks.take(i)), n_count(ks[i]));
    }
%at afterloop 2
    proof { assert(ks.take(ks.len() as int) =~= ks); }
%at loopend 0
    proof {
        assert forall|t: T, u: U| #[trigger] ix_rest(s0, t, u) == ix_rest(self.todo_list@, t, u) by { assert(ix_rest(vx_g, t, u) == ix_rest(mid, t, u) + pc(n_elems(na), n_elems(nb), t, u)); }
        vx_g = self.todo_list@;
    }
