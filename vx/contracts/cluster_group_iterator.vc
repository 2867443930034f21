%file algorithm/bulk_load/cluster_group_iterator.rs
%module algorithm::bulk_load::cluster_group_iterator
%prelude
broadcast use crate::num_axioms::num_laws;
// every object of the multiset is usable
pub open spec fn ms_ok<T: RTreeObject>(m: Multiset<T>) -> bool { forall|t: T| #[trigger] m.contains(t) ==> obj_ok(t) }
pub open spec fn cdiv(a: int, b: int) -> int { (a + b - 1) / b }
pub proof fn lemma_cdiv(a: int, b: int)
    requires a >= 0, b >= 1
    ensures 0 <= cdiv(a, b) <= a, a > 0 ==> cdiv(a, b) > 0, a >= 2 && b >= 2 ==> cdiv(a, b) < a
{
    let q = cdiv(a, b);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(a + b - 1, b);
    let m = (a + b - 1) % b;
    assert(0 <= q <= a && (a > 0 ==> q > 0) && (a >= 2 && b >= 2 ==> q < a)) by(nonlinear_arith) requires a + b - 1 == b * q + m, 0 <= m < b, a >= 0, b >= 1;
}
pub proof fn lemma_cdiv_mono(x: int, y: int, b: int)
    requires 0 <= x <= y, b >= 1
    ensures cdiv(x, b) <= cdiv(y, b)
{
    vstd::arithmetic::div_mod::lemma_div_is_ordered(x + b - 1, y + b - 1, b);
}
%item struct ClusterGroupIterator
%item impl ClusterGroupIterator::new
%ret r
%sig
    requires number_of_clusters_on_axis > 0
    ensures r.remaining@ == elements@, r.slab_size == cdiv(elements@.len() as int, number_of_clusters_on_axis as int), r.cluster_dimension == cluster_dimension
%item impl Iterator for ClusterGroupIterator
%opt inherent
%item impl Iterator for ClusterGroupIterator::next
%opt into_some
%ret r
%sig
    requires old(self).remaining@.len() > 0 ==> old(self).slab_size > 0, old(self).cluster_dimension < <<T::Envelope as Envelope>::Point as Point>::DIMENSIONS
    ensures final(self).slab_size == old(self).slab_size, final(self).cluster_dimension == old(self).cluster_dimension,
        match r {
            // nothing is left
            None => old(self).remaining@.len() == 0 && final(self).remaining@.len() == 0,
            Some(v) => 0 < v@.len() <= old(self).slab_size && v@.len() + final(self).remaining@.len() == old(self).remaining@.len()
                && old(self).remaining@.to_multiset() == final(self).remaining@.to_multiset().add(v@.to_multiset()),
        },
        ms_ok(old(self).remaining@.to_multiset()) ==> ms_ok(final(self).remaining@.to_multiset()) && (r matches Some(v) ==> ms_ok(v@.to_multiset())),
%at start
    proof {
        broadcast use vstd::seq_lib::group_to_multiset_ensures;
        assert forall|s: Seq<T>, k: int| 0 <= k <= s.len() implies #[trigger] s.take(k).to_multiset().add(s.skip(k).to_multiset()) == s.to_multiset() by {
            vstd::seq_lib::lemma_multiset_commutative(s.take(k), s.skip(k));
            assert(s.take(k) + s.skip(k) =~= s);
        }
        assert forall|s: Seq<T>, k: int| 0 <= k <= s.len() && ms_ok(s.to_multiset()) implies ms_ok(#[trigger] s.take(k).to_multiset()) by {
            assert forall|t: T| #[trigger] s.take(k).to_multiset().contains(t) implies obj_ok(t) by { assert(s.take(k).to_multiset().add(s.skip(k).to_multiset()).contains(t)) }
        }
        assert forall|s: Seq<T>, k: int| 0 <= k <= s.len() && ms_ok(s.to_multiset()) implies ms_ok(#[trigger] s.skip(k).to_multiset()) by {
            assert forall|t: T| #[trigger] s.skip(k).to_multiset().contains(t) implies obj_ok(t) by { assert(s.take(k).to_multiset().add(s.skip(k).to_multiset()).contains(t)) }
        }
        assert forall|a: Multiset<T>, b: Multiset<T>| #[trigger] ms_ok(a.add(b)) implies ms_ok(a) && ms_ok(b) by {
            assert forall|t: T| #[trigger] a.contains(t) implies obj_ok(t) by { assert(a.add(b).contains(t)) }
            assert forall|t: T| #[trigger] b.contains(t) implies obj_ok(t) by { assert(a.add(b).contains(t)) }
        }
        assert(Multiset::<T>::empty().add(self.remaining@.to_multiset()) =~= self.remaining@.to_multiset());
        assert(Seq::<T>::empty().to_multiset() =~= Multiset::<T>::empty());
    }
%item fn calculate_number_of_clusters_on_axis
%attr #[verifier::external_body]
