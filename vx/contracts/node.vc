%file node.rs
%module node
%prelude
broadcast use {crate::num_axioms::num_laws, crate::vx::node_vec_len};

// ---------- abstraction: the multiset of stored elements ----------
pub open spec fn n_elems<T: RTreeObject>(n: RTreeNode<T>) -> Multiset<T>
    decreases n
{
    match n { RTreeNode::Leaf(t) => Multiset::singleton(t), RTreeNode::Parent(p) => p_elems(p) }
}
pub open spec fn p_elems<T: RTreeObject>(p: ParentNode<T>) -> Multiset<T>
    decreases p
{
    s_elems(p.children@)
}
pub open spec fn s_elems<T: RTreeObject>(s: Seq<RTreeNode<T>>) -> Multiset<T>
    decreases s
{
    if s.len() == 0 { Multiset::empty() } else { n_elems(s.last()).add(s_elems(s.drop_last())) }
}
pub open spec fn n_env<T: RTreeObject>(n: RTreeNode<T>) -> T::Envelope {
    match n { RTreeNode::Leaf(t) => t.env(), RTreeNode::Parent(p) => p.envelope }
}
// ---------- representation invariant ----------
// e is the least box around the elements of m
pub open spec fn tight<T: RTreeObject>(e: T::Envelope, m: Multiset<T>) -> bool {
    &&& e.ok()
    &&& forall|u: T::Envelope| u.ok() ==> (#[trigger] e.le(&u) <==> (forall|t: T| #[trigger] m.contains(t) ==> t.env().le(&u)))
}
// every leaf below n is exactly h levels down, no empty parent, every envelope is tight
pub open spec fn n_wf<T: RTreeObject>(n: RTreeNode<T>, h: int) -> bool
    decreases n
{
    match n {
        RTreeNode::Leaf(t) => h == 0 && obj_ok(t),
        RTreeNode::Parent(p) => p.children@.len() > 0 && p_wf(p, h),
    }
}
// as n_wf for a root, which may be empty when it is of height 1
pub open spec fn p_wf<T: RTreeObject>(p: ParentNode<T>, h: int) -> bool
    decreases p
{
    &&& h >= 1
    &&& p.children@.len() > 0 || h == 1
    &&& tight(p.envelope, p_elems(p))
    &&& forall|i: int| 0 <= i < p.children@.len() ==> n_wf(#[trigger] p.children@[i], h - 1)
}
pub open spec fn s_wf<T: RTreeObject>(s: Seq<RTreeNode<T>>, h: int) -> bool {
    forall|i: int| 0 <= i < s.len() ==> n_wf(#[trigger] s[i], h)
}
pub open spec fn n_height<T: RTreeObject>(n: RTreeNode<T>) -> int
    decreases n
{
    match n { RTreeNode::Leaf(t) => 0, RTreeNode::Parent(p) => p_height(p) }
}
pub open spec fn p_height<T: RTreeObject>(p: ParentNode<T>) -> int
    decreases p
{
    if p.children@.len() == 0 { 1 } else { n_height(p.children@[0]) + 1 }
}
// fill bounds of every node except the root's minimum
pub open spec fn n_fill<T: RTreeObject, P: RTreeParams>(n: RTreeNode<T>) -> bool
    decreases n
{
    match n { RTreeNode::Leaf(t) => true, RTreeNode::Parent(p) => P::MIN_SIZE <= p.children@.len() && p_fill::<T, P>(p) }
}
pub open spec fn p_fill<T: RTreeObject, P: RTreeParams>(p: ParentNode<T>) -> bool
    decreases p
{
    &&& p.children@.len() <= P::MAX_SIZE
    &&& forall|i: int| 0 <= i < p.children@.len() ==> n_fill::<T, P>(#[trigger] p.children@[i])
}
pub open spec fn s_fill<T: RTreeObject, P: RTreeParams>(s: Seq<RTreeNode<T>>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> n_fill::<T, P>(#[trigger] s[i])
}

// A tree's nodes are distinct non-zero-sized heap cells, so a tree cannot have 2^64 of them in
// depth or in number; one node holds fewer than 2^31 children (MAX_SIZE is assumed below that).
pub axiom fn mem_bound<T: RTreeObject>(p: ParentNode<T>)
    ensures p.children@.len() < 0x7fff_ffff, p_height(p) < usize::MAX, p_elems(p).len() < usize::MAX;

// ---------- lemmas ----------
pub proof fn lemma_height<T: RTreeObject>(n: RTreeNode<T>, h: int)
    requires n_wf(n, h)
    ensures n_height(n) == h
    decreases n
{
    match n { RTreeNode::Leaf(t) => {}, RTreeNode::Parent(p) => lemma_p_height(p, h) }
}
pub proof fn lemma_p_height<T: RTreeObject>(p: ParentNode<T>, h: int)
    requires p_wf(p, h)
    ensures p_height(p) == h
    decreases p
{
    if p.children@.len() > 0 { lemma_height(p.children@[0], h - 1) }
}
pub proof fn lemma_s_push<T: RTreeObject>(s: Seq<RTreeNode<T>>, n: RTreeNode<T>)
    ensures s_elems(s.push(n)) == s_elems(s).add(n_elems(n))
{
    assert(s.push(n).drop_last() =~= s);
    assert(s_elems(s.push(n)) =~= s_elems(s).add(n_elems(n)));
}
pub proof fn lemma_s_add<T: RTreeObject>(a: Seq<RTreeNode<T>>, b: Seq<RTreeNode<T>>)
    ensures s_elems(a + b) == s_elems(a).add(s_elems(b))
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); assert(s_elems(a + b) =~= s_elems(a).add(s_elems(b))); }
    else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_s_add(a, b.drop_last());
        assert(s_elems(a + b) =~= s_elems(a).add(s_elems(b)));
    }
}
pub proof fn lemma_s_split<T: RTreeObject>(s: Seq<RTreeNode<T>>, k: int)
    requires 0 <= k <= s.len()
    ensures s_elems(s) == s_elems(s.take(k)).add(s_elems(s.skip(k)))
{
    assert(s.take(k) + s.skip(k) =~= s);
    lemma_s_add(s.take(k), s.skip(k));
}
pub proof fn lemma_s_remove<T: RTreeObject>(s: Seq<RTreeNode<T>>, k: int)
    requires 0 <= k < s.len()
    ensures s_elems(s) == s_elems(s.remove(k)).add(n_elems(s[k]))
{
    assert(s.take(k) + seq![s[k]] + s.skip(k + 1) =~= s);
    assert(s.take(k) + s.skip(k + 1) =~= s.remove(k));
    lemma_s_add(s.take(k) + seq![s[k]], s.skip(k + 1));
    lemma_s_add(s.take(k), seq![s[k]]);
    lemma_s_add(s.take(k), s.skip(k + 1));
    lemma_s_push(Seq::<RTreeNode<T>>::empty(), s[k]);
    assert(Seq::<RTreeNode<T>>::empty().push(s[k]) =~= seq![s[k]]);
    assert(s_elems(s) =~= s_elems(s.remove(k)).add(n_elems(s[k])));
}
pub proof fn lemma_s_update<T: RTreeObject>(s: Seq<RTreeNode<T>>, k: int, n: RTreeNode<T>)
    requires 0 <= k < s.len()
    ensures s_elems(s.update(k, n)).add(n_elems(s[k])) == s_elems(s).add(n_elems(n))
{
    lemma_s_remove(s, k);
    lemma_s_remove(s.update(k, n), k);
    assert(s.update(k, n).remove(k) =~= s.remove(k));
    assert(s_elems(s.update(k, n)).add(n_elems(s[k])) =~= s_elems(s).add(n_elems(n)));
}
// reordering children changes neither the elements nor anything said of all children
pub proof fn lemma_s_perm<T: RTreeObject>(a: Seq<RTreeNode<T>>, b: Seq<RTreeNode<T>>)
    requires a.to_multiset() == b.to_multiset()
    ensures s_elems(a) == s_elems(b), a.len() == b.len(),
        forall|i: int| 0 <= i < a.len() ==> b.contains(#[trigger] a[i]),
        forall|i: int| 0 <= i < b.len() ==> a.contains(#[trigger] b[i]),
    decreases a.len()
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(a.to_multiset().len() == a.len());
    assert(b.to_multiset().len() == b.len());
    assert forall|i: int| 0 <= i < a.len() implies b.contains(#[trigger] a[i]) by { assert(a.to_multiset().contains(a[i])); }
    assert forall|i: int| 0 <= i < b.len() implies a.contains(#[trigger] b[i]) by { assert(b.to_multiset().contains(b[i])); }
    if a.len() > 0 {
        let x = a.last();
        assert(a.contains(x));
        assert(b.contains(a[a.len() - 1]));
        let k = b.index_of(x);
        assert(b.contains(x));
        assert(b[k] == x);
        assert(a.drop_last() =~= a.remove(a.len() - 1));
        assert(a.remove(a.len() - 1).to_multiset() =~= b.remove(k).to_multiset());
        lemma_s_perm(a.drop_last(), b.remove(k));
        lemma_s_remove(b, k);
        assert(s_elems(a) =~= s_elems(b));
    }
}
// an element of a sequence of nodes lies in one of them, and vice versa
pub proof fn lemma_s_contains<T: RTreeObject>(s: Seq<RTreeNode<T>>, t: T)
    ensures s_elems(s).contains(t) <==> exists|i: int| 0 <= i < s.len() && n_elems(#[trigger] s[i]).contains(t)
    decreases s.len()
{
    if s.len() > 0 {
        lemma_s_contains(s.drop_last(), t);
        if exists|i: int| 0 <= i < s.len() && n_elems(#[trigger] s[i]).contains(t) {
            let i = choose|i: int| 0 <= i < s.len() && n_elems(#[trigger] s[i]).contains(t);
            if i < s.len() - 1 { assert(n_elems(s.drop_last()[i]).contains(t)); }
        }
        if s_elems(s.drop_last()).contains(t) {
            let i = choose|i: int| 0 <= i < s.drop_last().len() && n_elems(#[trigger] s.drop_last()[i]).contains(t);
            assert(n_elems(s[i]).contains(t));
        }
        if n_elems(s.last()).contains(t) { assert(n_elems(s[s.len() - 1]).contains(t)); }
    }
}
pub proof fn lemma_n_tight<T: RTreeObject>(n: RTreeNode<T>, h: int)
    requires n_wf(n, h)
    ensures n_env(n).ok(), tight(n_env(n), n_elems(n)), n_env(n) == n.env()
{
    T::Envelope::laws();
    match n {
        RTreeNode::Leaf(t) => {
            assert forall|u: T::Envelope| u.ok() implies (#[trigger] t.env().le(&u) <==> (forall|x: T| #[trigger] n_elems(n).contains(x) ==> x.env().le(&u))) by {
                assert(n_elems(n).contains(t));
            }
        }
        RTreeNode::Parent(p) => {}
    }
}
// the least box around the children's boxes is the least box around the elements
pub open spec fn covers<T: RTreeObject>(e: T::Envelope, s: Seq<RTreeNode<T>>) -> bool {
    e.ok() && forall|u: T::Envelope| u.ok() ==> (#[trigger] e.le(&u) <==> (forall|i: int| 0 <= i < s.len() ==> n_env(#[trigger] s[i]).le(&u)))
}
pub proof fn lemma_covers<T: RTreeObject>(e: T::Envelope, s: Seq<RTreeNode<T>>, h: int)
    requires covers(e, s), s_wf(s, h)
    ensures tight(e, s_elems(s))
{
    assert forall|u: T::Envelope| u.ok() implies (#[trigger] e.le(&u) <==> (forall|t: T| #[trigger] s_elems(s).contains(t) ==> t.env().le(&u))) by {
        if e.le(&u) {
            assert forall|t: T| #[trigger] s_elems(s).contains(t) implies t.env().le(&u) by {
                lemma_s_contains(s, t);
                let i = choose|i: int| 0 <= i < s.len() && n_elems(#[trigger] s[i]).contains(t);
                lemma_n_tight(s[i], h);
                assert(n_env(s[i]).le(&u));
            }
        }
        if forall|t: T| #[trigger] s_elems(s).contains(t) ==> t.env().le(&u) {
            assert forall|i: int| 0 <= i < s.len() implies n_env(#[trigger] s[i]).le(&u) by {
                lemma_n_tight(s[i], h);
                assert forall|t: T| #[trigger] n_elems(s[i]).contains(t) implies t.env().le(&u) by {
                    lemma_s_contains(s, t);
                }
                assert(n_env(s[i]).le(&u));
            }
        }
    }
}
pub proof fn lemma_s_ok<T: RTreeObject>(s: Seq<RTreeNode<T>>, h: int)
    requires s_wf(s, h)
    ensures forall|i: int| 0 <= i < s.len() ==> n_env(#[trigger] s[i]).ok()
{
    assert forall|i: int| 0 <= i < s.len() implies n_env(#[trigger] s[i]).ok() by { lemma_n_tight(s[i], h) }
}
// merging two tight boxes gives the tight box of the union
pub open spec fn joins<E: Envelope>(r: E, a: E, b: E) -> bool {
    r.ok() && forall|u: E| #[trigger] r.le(&u) == (a.le(&u) && b.le(&u))
}
pub proof fn lemma_tight_merge<T: RTreeObject>(r: T::Envelope, a: T::Envelope, ma: Multiset<T>, b: T::Envelope, mb: Multiset<T>)
    requires tight(a, ma), tight(b, mb), joins(r, a, b)
    ensures tight(r, ma.add(mb))
{
    assert forall|u: T::Envelope| u.ok() implies (#[trigger] r.le(&u) <==> (forall|t: T| #[trigger] ma.add(mb).contains(t) ==> t.env().le(&u))) by {
        if r.le(&u) {
            assert(a.le(&u) && b.le(&u));
            assert forall|t: T| #[trigger] ma.add(mb).contains(t) implies t.env().le(&u) by {
                assert(ma.contains(t) || mb.contains(t));
            }
        }
        if forall|t: T| #[trigger] ma.add(mb).contains(t) ==> t.env().le(&u) {
            assert forall|t: T| #[trigger] ma.contains(t) implies t.env().le(&u) by { assert(ma.add(mb).contains(t)) }
            assert forall|t: T| #[trigger] mb.contains(t) implies t.env().le(&u) by { assert(ma.add(mb).contains(t)) }
            assert(a.le(&u)); assert(b.le(&u));
        }
    }
}
%item enum RTreeNode
%item struct ParentNode
%item impl RTreeObject for RTreeNode
%extra
    open spec fn env(&self) -> T::Envelope { n_env(*self) }
    open spec fn valid(&self) -> bool { true }
%item impl RTreeObject for RTreeNode::envelope
%opt clone_pure
%item impl RTreeNode::is_leaf
%item impl ParentNode::children
%ret r
%sig
    ensures r@ == self.children@
%item impl ParentNode::envelope
%opt clone_pure
%ret r
%sig
    ensures r == self.envelope
%item impl ParentNode::new_root
%ret r
%sig
    requires params_ok::<Params>()
    ensures r.children@.len() == 0, r.envelope.ok(), p_elems(r) == Multiset::<T>::empty(), p_wf(r, 1), p_fill::<T, Params>(r)
%item impl ParentNode::new_parent
%ret r
%sig
    requires forall|i: int| 0 <= i < children@.len() ==> n_env(#[trigger] children@[i]).ok()
    ensures r.children@ == children@, covers(r.envelope, children@)
%item fn envelope_for_children
%ret r
%sig
    requires forall|i: int| 0 <= i < children@.len() ==> n_env(#[trigger] children@[i]).ok()
    ensures covers(r, children@)
%loop 0
    invariant
        vx_s0@ == children@,
        forall|i: int| 0 <= i < children@.len() ==> n_env(#[trigger] children@[i]).ok(),
        covers(result, children@.take(vx_i0 as int)),
%at afterloop 0
    assert(children@.take(children@.len() as int) =~= children@);
%at loopend 0
    proof {
        let s = children@.take(vx_i0 as int);
        let s1 = children@.take(vx_i0 + 1);
        assert forall|u: T::Envelope| u.ok() implies (#[trigger] result.le(&u) <==> (forall|i: int| 0 <= i < s1.len() ==> n_env(#[trigger] s1[i]).le(&u))) by {
            if result.le(&u) {
                assert forall|i: int| 0 <= i < s1.len() implies n_env(#[trigger] s1[i]).le(&u) by { if i < s.len() { assert(s1[i] == s[i]); } }
            }
            if forall|i: int| 0 <= i < s1.len() ==> n_env(#[trigger] s1[i]).le(&u) {
                assert forall|i: int| 0 <= i < s.len() implies n_env(#[trigger] s[i]).le(&u) by { assert(s1[i] == s[i]); }
                assert(n_env(s1[vx_i0 as int]).le(&u));
            }
        }
    }
