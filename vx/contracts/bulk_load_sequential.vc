%file algorithm/bulk_load/bulk_load_sequential.rs
%module algorithm::bulk_load::bulk_load_sequential
%prelude
broadcast use crate::num_axioms::num_laws;
use crate::algorithm::bulk_load::cluster_group_iterator::*;
pub open spec fn dims<T: RTreeObject>() -> int { <<T::Envelope as Envelope>::Point as Point>::DIMENSIONS as int }
// the largest share when x elements are divided among n, k times over
pub open spec fn share(x: int, n: int, k: int) -> int
    decreases k
{
    if k <= 0 { x } else { share(cdiv(x, n), n, k - 1) }
}
pub proof fn lemma_share(x: int, y: int, n: int, k: int)
    requires 0 <= x <= y, n >= 1
    ensures 0 <= share(x, n, k) <= share(y, n, k) <= y, y > 0 ==> share(y, n, k) > 0, k >= 1 && y >= 2 && n >= 2 ==> share(y, n, k) < y
    decreases k
{
    if k > 0 { lemma_cdiv(x, n); lemma_cdiv(y, n); lemma_cdiv_mono(x, y, n); lemma_share(cdiv(x, n), cdiv(y, n), n, k - 1); }
}
pub proof fn lemma_share_last(x: int, n: int, k: int)
    requires k >= 1
    ensures share(x, n, k) == cdiv(share(x, n, k - 1), n)
    decreases k
{
    if k > 1 { lemma_share_last(cdiv(x, n), n, k - 1); } else { assert(share(cdiv(x, n), n, 0) == cdiv(x, n)); assert(share(x, n, 0) == x); }
}
// the largest leaf when x elements go through the given levels
pub open spec fn leaf_share(cl: Seq<usize>, x: int, d: int) -> int
    decreases cl.len()
{
    if cl.len() == 0 { x } else { leaf_share(cl.skip(1), share(x, cl[0] as int, d), d) }
}
pub proof fn lemma_leaf_share_push(cl: Seq<usize>, n: usize, x: int, d: int)
    ensures leaf_share(cl.push(n), x, d) == share(leaf_share(cl, x, d), n as int, d)
    decreases cl.len()
{
    if cl.len() > 0 {
        assert(cl.push(n).skip(1) =~= cl.skip(1).push(n));
        lemma_leaf_share_push(cl.skip(1), n, share(x, cl[0] as int, d), d);
    } else {
        assert(cl.push(n).skip(1) =~= Seq::empty());
        assert(leaf_share(cl.push(n).skip(1), share(x, n as int, d), d) == share(x, n as int, d));
    }
}
pub proof fn lemma_leaf_share_mono(cl: Seq<usize>, x: int, y: int, d: int)
    requires 0 <= x <= y, forall|i: int| 0 <= i < cl.len() ==> #[trigger] cl[i] >= 1
    ensures leaf_share(cl, x, d) <= leaf_share(cl, y, d)
    decreases cl.len()
{
    if cl.len() > 0 {
        lemma_share(x, y, cl[0] as int, d);
        lemma_leaf_share_mono(cl.skip(1), share(x, cl[0] as int, d), share(y, cl[0] as int, d), d);
    }
}
pub open spec fn levels_ok<P: RTreeParams>(cl: Seq<usize>, x: int, d: int) -> bool {
    (forall|i: int| 0 <= i < cl.len() ==> #[trigger] cl[i] >= 1) && leaf_share(cl, x, d) <= P::MAX_SIZE
}
// nodes of leaves hold at most MAX_SIZE of them
pub open spec fn n_leafmax<T: RTreeObject, P: RTreeParams>(n: RTreeNode<T>) -> bool
    decreases n
{
    match n { RTreeNode::Leaf(t) => true, RTreeNode::Parent(p) => p_leafmax::<T, P>(p) }
}
pub open spec fn p_leafmax<T: RTreeObject, P: RTreeParams>(p: ParentNode<T>) -> bool
    decreases p
{
    &&& (exists|i: int| 0 <= i < p.children@.len() && #[trigger] p.children@[i] is Leaf) ==> p.children@.len() <= P::MAX_SIZE
    &&& forall|i: int| 0 <= i < p.children@.len() ==> n_leafmax::<T, P>(#[trigger] p.children@[i])
}
pub proof fn lemma_leaves<T: RTreeObject>(s: Seq<RTreeNode<T>>, w: Seq<T>)
    requires s.len() == w.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == RTreeNode::Leaf(w[i])
    ensures s_elems(s) == w.to_multiset()
    decreases s.len()
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    if s.len() > 0 {
        lemma_leaves(s.drop_last(), w.drop_last());
        assert(w =~= w.drop_last().push(w.last()));
        assert(s_elems(s.drop_last()) == w.drop_last().to_multiset());
        assert(n_elems(s.last()) == Multiset::singleton(w.last()));
        assert(w.drop_last().push(w.last()).to_multiset() =~= w.drop_last().to_multiset().insert(w.last()));
        assert(s.last() == s[s.len() - 1]);
        assert(s_elems(s) =~= w.to_multiset());
    } else { assert(w.to_multiset() =~= Multiset::empty()); assert(s_elems(s) =~= w.to_multiset()); }
}
pub proof fn lemma_fresh<T: RTreeObject>(s: Seq<RTreeNode<T>>, h: int)
    requires s_wf(s, h), s.len() > 0, h >= 0
    ensures forall|e: T::Envelope| #[trigger] covers(e, s) ==> tight(e, s_elems(s)), forall|i: int| 0 <= i < s.len() ==> n_env(#[trigger] s[i]).ok()
{
    assert forall|e: T::Envelope| #[trigger] covers(e, s) implies tight(e, s_elems(s)) by { lemma_covers(e, s, h) }
    assert forall|i: int| 0 <= i < s.len() implies n_env(#[trigger] s[i]).ok() by { lemma_n_tight(s[i], h) }
}
pub open spec fn all_leaves<T: RTreeObject>(s: Seq<RTreeNode<T>>, w: Seq<T>) -> bool {
    s.len() == w.len() && forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == RTreeNode::Leaf(w[i])
}
pub proof fn lemma_leaf_node<T: RTreeObject>(s: Seq<RTreeNode<T>>, w: Seq<T>)
    requires all_leaves(s, w), w.len() > 0, ms_ok(w.to_multiset())
    ensures s_elems(s) == w.to_multiset(), s_wf(s, 0), forall|e: T::Envelope| #[trigger] covers(e, s) ==> tight(e, s_elems(s)), forall|i: int| 0 <= i < s.len() ==> n_env(#[trigger] s[i]).ok()
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    lemma_leaves(s, w);
    assert forall|i: int| 0 <= i < s.len() implies n_wf(#[trigger] s[i], 0) by { assert(w.contains(w[i])); assert(w.to_multiset().contains(w[i])); }
    lemma_fresh(s, 0);
}
pub proof fn lemma_n_some<T: RTreeObject>(n: RTreeNode<T>, h: int)
    requires n_wf(n, h)
    ensures n_elems(n).len() > 0
    decreases n
{
    match n {
        RTreeNode::Leaf(t) => {}
        RTreeNode::Parent(p) => {
            let c = p.children@[p.children@.len() - 1];
            lemma_n_some(c, h - 1);
            assert(p_elems(p) == n_elems(p.children@.last()).add(s_elems(p.children@.drop_last())));
        }
    }
}
// ---------- the work queue ----------
pub open spec fn q_elems<T: RTreeObject>(q: Seq<PartitioningState<T>>) -> Multiset<T>
    decreases q.len()
{
    if q.len() == 0 { Multiset::empty() } else { q_elems(q.drop_last()).add(q.last().elements@.to_multiset()) }
}
// what is left to do
pub open spec fn q_work<T: RTreeObject>(q: Seq<PartitioningState<T>>) -> int
    decreases q.len()
{
    if q.len() == 0 { 0 } else { q_work(q.drop_last()) + q.last().elements@.len() * (q.last().current_axis + 1) }
}
pub proof fn lemma_q_work<T: RTreeObject>(q: Seq<PartitioningState<T>>)
    ensures q_work(q) >= 0
    decreases q.len()
{
    if q.len() > 0 {
        lemma_q_work(q.drop_last());
        assert(q.last().elements@.len() * (q.last().current_axis + 1) >= 0) by(nonlinear_arith);
    }
}
pub open spec fn st_ok<T: RTreeObject, P: RTreeParams>(s: PartitioningState<T>, n: int, cl: Seq<usize>) -> bool {
    &&& s.elements@.len() > 0
    &&& ms_ok(s.elements@.to_multiset())
    &&& s.current_axis <= dims::<T>()
    &&& levels_ok::<P>(cl, share(s.elements@.len() as int, n, s.current_axis as int), dims::<T>())
}
pub open spec fn q_ok<T: RTreeObject, P: RTreeParams>(q: Seq<PartitioningState<T>>, n: int, cl: Seq<usize>) -> bool {
    n >= 1 && forall|i: int| 0 <= i < q.len() ==> st_ok::<T, P>(#[trigger] q[i], n, cl)
}
pub proof fn lemma_q_push<T: RTreeObject>(q: Seq<PartitioningState<T>>, s: PartitioningState<T>)
    ensures q_elems(q.push(s)) == q_elems(q).add(s.elements@.to_multiset()), q_work(q.push(s)) == q_work(q) + s.elements@.len() * (s.current_axis + 1)
{
    assert(q.push(s).drop_last() =~= q);
}
// what new work may be queued for a state with an axis to go
pub proof fn lemma_slab<T: RTreeObject, P: RTreeParams>(st: PartitioningState<T>, n: int, cl: Seq<usize>)
    requires st_ok::<T, P>(st, n, cl), st.current_axis > 0, n >= 1
    ensures forall|s2: PartitioningState<T>| s2.current_axis == st.current_axis - 1 && 0 < s2.elements@.len() <= cdiv(st.elements@.len() as int, n) && ms_ok(s2.elements@.to_multiset())
        ==> #[trigger] st_ok::<T, P>(s2, n, cl), cdiv(st.elements@.len() as int, n) >= 1
{
    let x = st.elements@.len() as int;
    let a = st.current_axis as int;
    lemma_cdiv(x, n);
    assert forall|s2: PartitioningState<T>| s2.current_axis == st.current_axis - 1 && 0 < s2.elements@.len() <= cdiv(st.elements@.len() as int, n) && ms_ok(s2.elements@.to_multiset())
        implies #[trigger] st_ok::<T, P>(s2, n, cl) by {
        let y = s2.elements@.len() as int;
        lemma_share(y, cdiv(x, n), n, a - 1);
        lemma_leaf_share_mono(cl, share(y, n, a - 1), share(cdiv(x, n), n, a - 1), dims::<T>());
    }
}
%item fn bulk_load_recursive
%opt for_path_iter
%opt phantom_default
%attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
%ret r
%sig
    requires params_ok::<Params>(), elements@.len() > 0, ms_ok(elements@.to_multiset()), levels_ok::<Params>(clusters_per_level@, elements@.len() as int, dims::<T>())
    ensures p_wf(r, clusters_per_level@.len() as int + 1), r.children@.len() > 0, p_elems(r) == elements@.to_multiset(), p_leafmax::<T, Params>(r)
    decreases clusters_per_level@.len(), 0int
%closure 0 |vx_a: T| -> (q: RTreeNode<T>)
    ensures q == RTreeNode::<T>::Leaf(vx_a)
%at start
    let ghost cl = clusters_per_level@;
    let ghost els = elements@;
    proof {
        broadcast use vstd::seq_lib::group_to_multiset_ensures;
        assert forall|p: ParentNode<T>| #[trigger] covers(p.envelope, p.children@) && all_leaves(p.children@, els) && cl.len() == 0 implies
            p_wf(p, 1) && p_elems(p) == els.to_multiset() && p_leafmax::<T, Params>(p) by { lemma_leaf_node(p.children@, els); }
        assert forall|i: int| 0 <= i < els.len() implies n_env(RTreeNode::Leaf(#[trigger] els[i])).ok() by { assert(els.contains(els[i])); assert(els.to_multiset().contains(els[i])); lemma_n_tight(RTreeNode::Leaf(els[i]), 0); }
        assert forall|p: ParentNode<T>| #[trigger] covers(p.envelope, p.children@) && s_wf(p.children@, cl.len() as int) && p.children@.len() > 0 implies p_wf(p, cl.len() as int + 1) by { lemma_covers(p.envelope, p.children@, cl.len() as int); }
        assert forall|n: RTreeNode<T>, h: int| #[trigger] n_wf(n, h) implies n_env(n).ok() && n_elems(n).len() > 0 by { lemma_n_tight(n, h); lemma_n_some(n, h); }
        assert(Seq::<T>::empty().to_multiset() =~= Multiset::<T>::empty());
    }
%at beforeloop 0
    let ghost n = vx_it.number_of_clusters_on_axis as int;
    let ghost cl1 = vx_it.clusters_per_level@;
    proof {
        let st = vx_it.work_queue@[0];
        assert(cl1 == cl.skip(1));
        assert(forall|i: int| 0 <= i < cl1.len() ==> #[trigger] cl1[i] == cl[i + 1]);
        assert(st_ok::<T, Params>(st, n, cl1));
        assert(vx_it.work_queue@.drop_last() =~= Seq::empty());
        assert(q_elems(vx_it.work_queue@.drop_last()) =~= Multiset::empty());
        assert(q_elems(vx_it.work_queue@) =~= els.to_multiset());
        assert(s_elems(Seq::<RTreeNode<T>>::empty()).add(q_elems(vx_it.work_queue@)) =~= els.to_multiset());
    }
%loop 0
    invariant params_ok::<Params>(), q_ok::<T, Params>(vx_it.work_queue@, n, cl1), vx_it.number_of_clusters_on_axis == n, vx_it.clusters_per_level@ == cl1,
        cl1.len() + 1 == cl.len(),
        s_wf(vx_v@, cl1.len() as int + 1), forall|i: int| 0 <= i < vx_v@.len() ==> n_leafmax::<T, Params>(#[trigger] vx_v@[i]) && vx_v@[i] is Parent,
        s_elems(vx_v@).add(q_elems(vx_it.work_queue@)) == els.to_multiset(),
    ensures q_elems(vx_it.work_queue@) == Multiset::<T>::empty()
    decreases q_elems(vx_it.work_queue@).len()
%at loopstart 0
    let ghost v0 = vx_v@;
    let ghost n0 = vx_x;
%at loopend 0
    proof {
        lemma_s_push(v0, n0);
        assert(s_elems(vx_v@).add(q_elems(vx_it.work_queue@)) =~= els.to_multiset());
    }
%at afterloop 0
    proof {
        broadcast use vstd::seq_lib::group_to_multiset_ensures;
        assert(s_elems(vx_v@).add(Multiset::<T>::empty()) =~= s_elems(vx_v@));
        assert(els.to_multiset().len() == els.len());
    }
%item struct PartitioningState
%item struct PartitioningTask
%item impl Iterator for PartitioningTask
%opt inherent
%item impl Iterator for PartitioningTask::next
%attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
%opt into_some
%opt for_path_iter
%ret r
%sig
    requires params_ok::<Params>(), q_ok::<T, Params>(old(self).work_queue@, old(self).number_of_clusters_on_axis as int, old(self).clusters_per_level@)
    ensures q_ok::<T, Params>(final(self).work_queue@, final(self).number_of_clusters_on_axis as int, final(self).clusters_per_level@),
        final(self).number_of_clusters_on_axis == old(self).number_of_clusters_on_axis, final(self).clusters_per_level == old(self).clusters_per_level,
        match r {
            Some(n) => n is Parent && n_wf(n, old(self).clusters_per_level@.len() as int + 1) && n_leafmax::<T, Params>(n) && q_elems(old(self).work_queue@) == q_elems(final(self).work_queue@).add(n_elems(n)),
            None => q_elems(old(self).work_queue@) == Multiset::<T>::empty() && final(self).work_queue@.len() == 0,
        }
    decreases old(self).clusters_per_level@.len(), 1int
%loop 0
    invariant params_ok::<Params>(), q_ok::<T, Params>(self.work_queue@, self.number_of_clusters_on_axis as int, self.clusters_per_level@),
        self.number_of_clusters_on_axis == old(self).number_of_clusters_on_axis, self.clusters_per_level == old(self).clusters_per_level,
        q_elems(self.work_queue@) == q_elems(old(self).work_queue@),
    ensures self.work_queue@.len() == 0
    decreases q_work(self.work_queue@)
%at loopstart 0
    let ghost st = next;
    let ghost q0 = self.work_queue@;
    let ghost n = self.number_of_clusters_on_axis as int;
    proof {
        broadcast use vstd::seq_lib::group_to_multiset_ensures;
        assert forall|s: Seq<T>| s.len() == 0 implies #[trigger] s.to_multiset() == Multiset::<T>::empty() by { assert(s =~= Seq::empty()); assert(s.to_multiset() =~= Multiset::empty()); }
        lemma_q_push(q0, st);
        lemma_q_work(q0);
        lemma_q_work(q0.push(st));
        assert(st_ok::<T, Params>(st, n, self.clusters_per_level@)) by {
            assert(q0.push(st)[q0.len() as int] == st);
        }
        assert forall|i: int| 0 <= i < q0.len() implies st_ok::<T, Params>(#[trigger] q0[i], n, self.clusters_per_level@) by { assert(q0.push(st)[i] == q0[i]); }
        assert(forall|p: ParentNode<T>| #[trigger] n_elems(RTreeNode::<T>::Parent(p)) == p_elems(p));
        if st.current_axis > 0 { lemma_slab::<T, Params>(st, n, self.clusters_per_level@); lemma_cdiv(st.elements@.len() as int, n); }
        else { assert(share(st.elements@.len() as int, n, 0) == st.elements@.len()); }
    }
%loop 1
    invariant params_ok::<Params>(), q_ok::<T, Params>(self.work_queue@, n, self.clusters_per_level@),
        self.number_of_clusters_on_axis == n, n == old(self).number_of_clusters_on_axis, self.clusters_per_level == old(self).clusters_per_level,
        st.current_axis > 0, current_axis == st.current_axis, current_axis <= dims::<T>(),
        vx_it.cluster_dimension == st.current_axis - 1, vx_it.slab_size == cdiv(st.elements@.len() as int, n), vx_it.slab_size >= 1,
        ms_ok(vx_it.remaining@.to_multiset()),
        st_ok::<T, Params>(st, n, self.clusters_per_level@),
        q_elems(self.work_queue@).add(vx_it.remaining@.to_multiset()) == q_elems(old(self).work_queue@),
        q_work(self.work_queue@) + vx_it.remaining@.len() * (st.current_axis as int) == q_work(q0) + st.elements@.len() * (st.current_axis as int),
    ensures vx_it.remaining@.len() == 0
    decreases vx_it.remaining@.len()
%at loopstart 1
    let ghost qa = self.work_queue@;
    let ghost slab0 = slab;
%at loopend 1
    proof {
        let st2 = self.work_queue@.last();
        lemma_q_push(qa, st2);
        lemma_slab::<T, Params>(st, n, self.clusters_per_level@);
        assert(st_ok::<T, Params>(st2, n, self.clusters_per_level@));
        assert(self.work_queue@ =~= qa.push(st2));
        assert(q_elems(self.work_queue@).add(vx_it.remaining@.to_multiset()) =~= q_elems(old(self).work_queue@));
        assert((slab0@.len() + vx_it.remaining@.len()) * (st.current_axis as int) == slab0@.len() * (st.current_axis as int) + vx_it.remaining@.len() * (st.current_axis as int)) by(nonlinear_arith);
    }
%at afterloop 1
    proof { assert(vx_it.remaining@.len() * (st.current_axis as int) == 0) by(nonlinear_arith) requires vx_it.remaining@.len() == 0; }
%at loopend 0
    proof {
        broadcast use vstd::seq_lib::group_to_multiset_ensures;
        lemma_q_work(self.work_queue@);
        assert(st.elements@.len() * (st.current_axis as int) < st.elements@.len() * (st.current_axis + 1)) by(nonlinear_arith) requires st.elements@.len() > 0;
    }
%item fn bulk_load_sequential
%attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
%ret r
%sig
    requires params_ok::<Params>(), dims::<T>() >= 1, elements@.len() > 0, ms_ok(elements@.to_multiset())
    ensures p_wf(r, p_height(r)), p_elems(r) == elements@.to_multiset(), p_leafmax::<T, Params>(r)
%at start
    proof { assert forall|p: ParentNode<T>, h: int| #[trigger] p_wf(p, h) implies p_height(p) == h by { lemma_p_height(p, h) } }
%loop 0
    invariant params_ok::<Params>(), dims::<T>() >= 1, elements@.len() > 0, largest_cluster == leaf_share(clusters_per_level@, elements@.len() as int, dims::<T>()),
        largest_cluster >= 1, forall|i: int| 0 <= i < clusters_per_level@.len() ==> #[trigger] clusters_per_level@[i] >= 1,
    decreases largest_cluster
%at loopstart 0
    let ghost x0 = largest_cluster as int;
    let ghost cl0 = clusters_per_level@;
%at beforeloop 1
    let ghost n = number_of_clusters_on_axis as int;
    proof {
        lemma_leaf_share_push(cl0, number_of_clusters_on_axis, elements@.len() as int, dims::<T>());
        lemma_share(x0, x0, n, dims::<T>());
    }
%loop 1
    invariant largest_cluster == share(x0, n, vx_k1 as int), n == number_of_clusters_on_axis, n >= 2, x0 >= 1, largest_cluster >= 1
%at loopend 1
    proof { lemma_share_last(x0, n, vx_k1 + 1); lemma_share(x0, x0, n, vx_k1 + 1); }
