%file algorithm/nearest_neighbor.rs
%module algorithm::nearest_neighbor
%prelude
broadcast use {crate::num_axioms::num_laws, crate::heap::static_heap::fits, crate::vx::node_vec_len};
pub type Pt<T> = <<T as RTreeObject>::Envelope as Envelope>::Point;
// ---------- heap entries ----------
pub open spec fn hv<A: VxOrd>(h: SmallHeap<A>) -> Seq<A> { match h { SmallHeap::Stack(s) => s@, SmallHeap::Heap(b) => b@ } }
pub open spec fn wn<'a, T: PointDistance>(s: Seq<RTreeNodeDistanceWrapper<'a, T>>) -> Seq<RTreeNode<T>> { s.map_values(|w: RTreeNodeDistanceWrapper<'a, T>| *w.node) }
// the key a node is queued with
pub open spec fn n_dist<T: PointDistance>(n: RTreeNode<T>, q: Pt<T>) -> real {
    match n { RTreeNode::Leaf(t) => t.pd2(&q), RTreeNode::Parent(p) => p.envelope.d2(&q) }
}
pub open spec fn w_ok<'a, T: PointDistance>(w: RTreeNodeDistanceWrapper<'a, T>, q: Pt<T>) -> bool { n_ok(*w.node) && w.distance.v() == n_dist(*w.node, q) }
pub open spec fn ws_ok<'a, T: PointDistance>(s: Seq<RTreeNodeDistanceWrapper<'a, T>>, q: Pt<T>) -> bool { forall|i: int| 0 <= i < s.len() ==> w_ok(#[trigger] s[i], q) }
pub proof fn lemma_wperm<'a, T: PointDistance>(a: Seq<RTreeNodeDistanceWrapper<'a, T>>, b: Seq<RTreeNodeDistanceWrapper<'a, T>>, q: Pt<T>)
    requires perm(a, b)
    ensures s_elems(wn(a)) == s_elems(wn(b)), s_count(wn(a)) == s_count(wn(b)), ws_ok(a, q) == ws_ok(b, q), a.len() == b.len(),
    decreases a.len()
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    lemma_perm(a, b);
    if a.len() > 0 {
        let x = a.last();
        assert(b.contains(a[a.len() - 1]));
        let k = b.index_of(x);
        assert(b[k] == x);
        assert(a.drop_last() =~= a.remove(a.len() - 1));
        assert(a.remove(a.len() - 1).to_multiset() =~= b.remove(k).to_multiset());
        lemma_wperm(a.drop_last(), b.remove(k), q);
        lemma_s_remove(wn(b), k);
        lemma_count_remove(wn(b), k);
        assert(wn(b.remove(k)) =~= wn(b).remove(k));
        assert(wn(a.drop_last()) =~= wn(a).drop_last());
        assert(s_elems(wn(a)) =~= s_elems(wn(b)));
        if ws_ok(a, q) { assert forall|i: int| 0 <= i < b.len() implies w_ok(#[trigger] b[i], q) by { assert(a.contains(b[i])); } }
        if ws_ok(b, q) { assert forall|i: int| 0 <= i < a.len() implies w_ok(#[trigger] a[i], q) by { assert(b.contains(a[i])); } }
    }
}
pub proof fn lemma_count_remove<T: RTreeObject>(s: Seq<RTreeNode<T>>, k: int)
    requires 0 <= k < s.len()
    ensures s_count(s) == s_count(s.remove(k)) + n_count(s[k])
{
    assert(s.take(k) + seq![s[k]] + s.skip(k + 1) =~= s);
    assert(s.take(k) + s.skip(k + 1) =~= s.remove(k));
    lemma_count_add(s.take(k) + seq![s[k]], s.skip(k + 1));
    lemma_count_add(s.take(k), seq![s[k]]);
    lemma_count_add(s.take(k), s.skip(k + 1));
    reveal_with_fuel(s_count, 2);
    assert(s_count(seq![s[k]]) == n_count(s[k]));
}
pub proof fn lemma_wpush<'a, T: PointDistance>(a: Seq<RTreeNodeDistanceWrapper<'a, T>>, x: RTreeNodeDistanceWrapper<'a, T>, q: Pt<T>)
    ensures s_elems(wn(a.push(x))) == s_elems(wn(a)).add(n_elems(*x.node)), s_count(wn(a.push(x))) == s_count(wn(a)) + n_count(*x.node), ws_ok(a.push(x), q) == (ws_ok(a, q) && w_ok(x, q))
{
    assert(wn(a.push(x)) =~= wn(a).push(*x.node));
    lemma_s_push(wn(a), *x.node);
    assert(wn(a).push(*x.node).drop_last() =~= wn(a));
    if ws_ok(a.push(x), q) { assert forall|i: int| 0 <= i < a.len() implies w_ok(#[trigger] a[i], q) by { assert(a.push(x)[i] == a[i]); } assert(a.push(x)[a.len() as int] == x); }
}
// everything below a node is at least as far as its key
pub proof fn lemma_low<T: PointDistance>(n: RTreeNode<T>, q: Pt<T>, t: T)
    requires n_ok(n), n_elems(n).contains(t)
    ensures n_dist(n, q) <= t.pd2(&q)
{
    T::Envelope::laws();
    T::dist_laws();
    match n {
        RTreeNode::Leaf(x) => {}
        RTreeNode::Parent(p) => {
            lemma_p_all_ok(p, n_height(n), t);
            assert(t.env().d2(&q) <= t.pd2(&q));
            assert(p.envelope.d2(&q) <= t.env().d2(&q));
        }
    }
}
// the entry with the least key is a lower bound of everything queued
pub proof fn lemma_least<'a, T: PointDistance>(s: Seq<RTreeNodeDistanceWrapper<'a, T>>, x: RTreeNodeDistanceWrapper<'a, T>, q: Pt<T>)
    requires ws_ok(s, q), is_max(s, x), w_ok(x, q)
    ensures forall|t: T| #[trigger] s_elems(wn(s)).contains(t) ==> n_dist(*x.node, q) <= t.pd2(&q)
{
    assert forall|t: T| #[trigger] s_elems(wn(s)).contains(t) implies n_dist(*x.node, q) <= t.pd2(&q) by {
        lemma_s_contains(wn(s), t);
        let i = choose|i: int| 0 <= i < wn(s).len() && n_elems(#[trigger] wn(s)[i]).contains(t);
        assert(s[i].hle(&x));
        lemma_low(*s[i].node, q, t);
    }
}
pub proof fn lemma_wadd<'a, T: PointDistance>(a: Seq<RTreeNodeDistanceWrapper<'a, T>>, w: Seq<RTreeNodeDistanceWrapper<'a, T>>, c: Seq<RTreeNode<T>>, q: Pt<T>)
    requires nn_queued(w, c, q), s_ok(c), ws_ok(a, q)
    ensures s_elems(wn(a + w)) == s_elems(wn(a)).add(s_elems(c)), s_count(wn(a + w)) == s_count(wn(a)) + s_count(c), ws_ok(a + w, q)
{
    assert(wn(a + w) =~= wn(a) + c);
    lemma_s_add(wn(a), c);
    lemma_count_add(wn(a), c);
}
// ---------- the iterator ----------
pub open spec fn nn_wf<'a, T: PointDistance>(it: NearestNeighborDistance2Iterator<'a, T>) -> bool { ws_ok(hv(it.nodes), it.query_point) }
pub open spec fn nn_rest<'a, T: PointDistance>(it: NearestNeighborDistance2Iterator<'a, T>) -> Multiset<T> { s_elems(wn(hv(it.nodes))) }
pub open spec fn nn_queued<'a, T: PointDistance>(s: Seq<RTreeNodeDistanceWrapper<'a, T>>, c: Seq<RTreeNode<T>>, q: Pt<T>) -> bool {
    s.len() == c.len() && forall|i: int| 0 <= i < s.len() ==> *(#[trigger] s[i]).node == c[i] && s[i].distance.v() == n_dist(c[i], q)
}
// t is at minimal distance in m
pub open spec fn nearest<T: PointDistance>(t: T, m: Multiset<T>, q: Pt<T>) -> bool { m.contains(t) && forall|u: T| #[trigger] m.contains(u) ==> t.pd2(&q) <= u.pd2(&q) }
// What next() promises step by step, for a whole run: it ends after one step per stored element,
// yields each exactly once, in order of non-decreasing distance.
pub open spec fn nn_run<T: PointDistance>(out: Seq<T>, m: Multiset<T>, q: Pt<T>) -> bool
    decreases out.len()
{
    if out.len() == 0 { m == Multiset::<T>::empty() } else { nearest(out[0], m, q) && nn_run(out.skip(1), m.remove(out[0]), q) }
}
pub proof fn c11_run<T: PointDistance>(out: Seq<T>, m: Multiset<T>, q: Pt<T>)
    requires nn_run(out, m, q)
    ensures out.to_multiset() == m, forall|i: int, j: int| 0 <= i <= j < out.len() ==> #[trigger] out[i].pd2(&q) <= #[trigger] out[j].pd2(&q), forall|j: int| 0 <= j < out.len() ==> m.contains(#[trigger] out[j])
    decreases out.len()
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    if out.len() > 0 {
        let rest = out.skip(1);
        c11_run(rest, m.remove(out[0]), q);
        assert(out =~= seq![out[0]] + rest);
        vstd::seq_lib::lemma_multiset_commutative(seq![out[0]], rest);
        assert(seq![out[0]] =~= Seq::empty().push(out[0]));
        assert(out.to_multiset() =~= m);
        assert forall|j: int| 0 <= j < out.len() implies m.contains(#[trigger] out[j]) by { if j > 0 { assert(rest[j - 1] == out[j]); } }
        assert forall|i: int, j: int| 0 <= i <= j < out.len() implies #[trigger] out[i].pd2(&q) <= #[trigger] out[j].pd2(&q) by {
            if i > 0 { assert(rest[i - 1] == out[i]); assert(rest[j - 1] == out[j]); }
        }
    } else { assert(out.to_multiset() =~= m); }
}
// ---------- branch and bound ----------
// the elements as a list
pub open spec fn n_list<T: RTreeObject>(n: RTreeNode<T>) -> Seq<T>
    decreases n
{
    match n { RTreeNode::Leaf(t) => seq![t], RTreeNode::Parent(p) => s_list(p.children@) }
}
pub open spec fn s_list<T: RTreeObject>(s: Seq<RTreeNode<T>>) -> Seq<T>
    decreases s
{
    if s.len() == 0 { Seq::empty() } else { s_list(s.drop_last()) + n_list(s.last()) }
}
pub proof fn lemma_n_list<T: RTreeObject>(n: RTreeNode<T>, t: T)
    ensures n_list(n).contains(t) <==> n_elems(n).contains(t)
    decreases n
{
    match n {
        RTreeNode::Leaf(x) => { assert(n_list(n)[0] == x); }
        RTreeNode::Parent(p) => { lemma_s_list(p.children@, t); }
    }
}
pub proof fn lemma_s_list<T: RTreeObject>(s: Seq<RTreeNode<T>>, t: T)
    ensures s_list(s).contains(t) <==> s_elems(s).contains(t)
    decreases s
{
    if s.len() > 0 {
        lemma_n_list(s.last(), t);
        lemma_s_list(s.drop_last(), t);
        let a = s_list(s.drop_last());
        let b = n_list(s.last());
        if a.contains(t) { assert((a + b)[a.index_of(t)] == t); }
        if b.contains(t) { assert((a + b)[a.len() + b.index_of(t)] == t); }
        if (a + b).contains(t) { let i = (a + b).index_of(t); if i < a.len() { assert(a[i] == t); } else { assert(b[i - a.len()] == t); } }
    }
}
// a subtree is not empty
pub proof fn lemma_some<T: RTreeObject>(n: RTreeNode<T>, h: int) -> (t: T)
    requires n_wf(n, h)
    ensures n_elems(n).contains(t)
    decreases n
{
    match n {
        RTreeNode::Leaf(x) => x,
        RTreeNode::Parent(p) => {
            let t = lemma_some(p.children@[0], h - 1);
            lemma_s_contains(p.children@, t);
            t
        }
    }
}
// some element lies within a bound of the node's envelope
pub proof fn lemma_witness<T: PointDistance>(n: RTreeNode<T>, q: Pt<T>, d: real) -> (o: T)
    requires n_ok(n), n_env(n).solid() ==> n_env(n).bound_ok(&q, d)
    ensures n_elems(n).contains(o), o.pd2(&q) <= d
{
    T::Envelope::laws();
    T::dist_laws();
    match n {
        RTreeNode::Leaf(t) => t,
        RTreeNode::Parent(p) => {
            let e = p.envelope;
            let h = n_height(n);
            let t0 = lemma_some(n, h);
            lemma_p_all_ok(p, h, t0);
            assert(e.solid());
            let l = n_list(n);
            let s = l.map_values(|t: T| t.env());
            lemma_n_list(n, t0);
            assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).solid() by { assert(l.contains(l[i])); lemma_n_list(n, l[i]); lemma_p_all_ok(p, h, l[i]); }
            assert forall|u: T::Envelope| u.ok() implies (#[trigger] e.le(&u) <==> (forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).le(&u))) by {
                if e.le(&u) { assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).le(&u) by { assert(l.contains(l[i])); lemma_n_list(n, l[i]); } }
                if forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).le(&u) {
                    assert forall|t: T| #[trigger] p_elems(p).contains(t) implies t.env().le(&u) by { lemma_n_list(n, t); assert(s[l.index_of(t)] == t.env()); }
                }
            }
            let r = T::Envelope::law_face(e, s, &q, d);
            assert(l.contains(l[r]));
            lemma_n_list(n, l[r]);
            lemma_p_all_ok(p, h, l[r]);
            assert(s[r] == l[r].env());
            l[r]
        }
    }
}
// what is queued in h or still to be looked at in rest
pub open spec fn nj_rest<'a, T: PointDistance>(h: Seq<RTreeNodeDistanceWrapper<'a, T>>, rest: Seq<RTreeNode<T>>) -> Multiset<T> { s_elems(wn(h)).add(s_elems(rest)) }
pub open spec fn no_leaf<'a, T: PointDistance>(h: Seq<RTreeNodeDistanceWrapper<'a, T>>) -> bool { forall|i: int| 0 <= i < h.len() ==> !(*(#[trigger] h[i]).node is Leaf) }
// everything given up on is farther than m, and something kept is within m once a leaf is queued
pub open spec fn nj<'a, T: PointDistance>(h: Seq<RTreeNodeDistanceWrapper<'a, T>>, rest: Seq<RTreeNode<T>>, all: Multiset<T>, m: real, q: Pt<T>) -> bool {
    &&& ws_ok(h, q)
    &&& s_ok(rest)
    &&& forall|t: T| #[trigger] nj_rest(h, rest).contains(t) ==> all.contains(t)
    &&& forall|t: T| #[trigger] all.contains(t) ==> nj_rest(h, rest).contains(t) || t.pd2(&q) > m
    &&& no_leaf(h) || exists|w: T| #[trigger] nj_rest(h, rest).contains(w) && w.pd2(&q) <= m
}
pub proof fn lemma_nj_skip<'a, T: PointDistance>(h: Seq<RTreeNodeDistanceWrapper<'a, T>>, rest: Seq<RTreeNode<T>>)
    requires rest.len() > 0
    ensures nj_rest(h, rest) == nj_rest(h, rest.skip(1)).add(n_elems(rest[0]))
{
    lemma_s_remove(rest, 0);
    assert(rest.remove(0) =~= rest.skip(1));
    assert(nj_rest(h, rest) =~= nj_rest(h, rest.skip(1)).add(n_elems(rest[0])));
}
pub proof fn lemma_nj_prune<'a, T: PointDistance>(h: Seq<RTreeNodeDistanceWrapper<'a, T>>, rest: Seq<RTreeNode<T>>, all: Multiset<T>, m: real, q: Pt<T>)
    requires nj(h, rest, all, m, q), rest.len() > 0, n_dist(rest[0], q) > m
    ensures nj(h, rest.skip(1), all, m, q)
{
    let c = rest[0];
    let r1 = rest.skip(1);
    lemma_nj_skip(h, rest);
    assert(n_ok(c));
    assert forall|i: int| 0 <= i < r1.len() implies n_ok(#[trigger] r1[i]) by { assert(r1[i] == rest[i + 1]); }
    assert forall|t: T| #[trigger] n_elems(c).contains(t) implies t.pd2(&q) > m by { lemma_low(c, q, t); }
    assert forall|t: T| #[trigger] nj_rest(h, r1).contains(t) implies all.contains(t) by { assert(nj_rest(h, rest).contains(t)); }
    assert forall|t: T| #[trigger] all.contains(t) implies nj_rest(h, r1).contains(t) || t.pd2(&q) > m by { if nj_rest(h, rest).contains(t) && !n_elems(c).contains(t) { } }
    if !no_leaf(h) {
        let w = choose|w: T| #[trigger] nj_rest(h, rest).contains(w) && w.pd2(&q) <= m;
        assert(nj_rest(h, r1).contains(w));
    }
}
pub proof fn lemma_nj_push<'a, T: PointDistance>(h: Seq<RTreeNodeDistanceWrapper<'a, T>>, h2: Seq<RTreeNodeDistanceWrapper<'a, T>>, w: RTreeNodeDistanceWrapper<'a, T>, rest: Seq<RTreeNode<T>>, all: Multiset<T>, m: real, m2: real, q: Pt<T>)
    requires nj(h, rest, all, m, q), rest.len() > 0, *w.node == rest[0], w.distance.v() == n_dist(rest[0], q), n_dist(rest[0], q) <= m, perm(h2, h.push(w)),
        m2 == m || m2 < m && (n_env(rest[0]).solid() ==> n_env(rest[0]).bound_ok(&q, m2))
    ensures nj(h2, rest.skip(1), all, m2, q)
{
    let c = rest[0];
    let r1 = rest.skip(1);
    lemma_nj_skip(h, rest);
    lemma_wpush(h, w, q);
    lemma_wperm(h2, h.push(w), q);
    assert(n_ok(c));
    assert forall|i: int| 0 <= i < r1.len() implies n_ok(#[trigger] r1[i]) by { assert(r1[i] == rest[i + 1]); }
    assert(nj_rest(h2, r1) =~= nj_rest(h, rest));
    if m2 < m || c is Leaf {
        let x = if m2 < m { lemma_witness(c, q, m2) } else { c->Leaf_0 };
        assert(n_elems(c).contains(x));
        assert(x.pd2(&q) <= m2);
        assert(nj_rest(h2, r1).contains(x));
    } else if !no_leaf(h) {
        let x = choose|x: T| #[trigger] nj_rest(h, rest).contains(x) && x.pd2(&q) <= m;
        assert(nj_rest(h2, r1).contains(x));
    } else {
        lemma_perm(h2, h.push(w));
        assert forall|i: int| 0 <= i < h2.len() implies !(*(#[trigger] h2[i]).node is Leaf) by {
            assert(h.push(w).contains(h2[i]));
            let k = h.push(w).index_of(h2[i]);
            if k < h.len() { assert(h[k] == h2[i]); }
        }
    }
}
pub proof fn lemma_nj_pop<'a, T: PointDistance>(h: Seq<RTreeNodeDistanceWrapper<'a, T>>, h2: Seq<RTreeNodeDistanceWrapper<'a, T>>, w: RTreeNodeDistanceWrapper<'a, T>, all: Multiset<T>, m: real, q: Pt<T>)
    requires nj(h, Seq::empty(), all, m, q), perm(h, h2.push(w)), is_max(h, w)
    ensures
        w_ok(w, q), s_count(wn(h)) == s_count(wn(h2)) + n_count(*w.node),
        (*w.node is Leaf) ==> nearest((*w.node)->Leaf_0, all, q),
        (*w.node is Parent) ==> nj(h2, (*w.node)->Parent_0.children@, all, m, q),
{
    lemma_wperm(h, h2.push(w), q);
    lemma_wpush(h2, w, q);
    lemma_perm(h, h2.push(w));
    lemma_least(h, w, q);
    assert(nj_rest(h, Seq::empty()) =~= s_elems(wn(h)));
    assert(h2.push(w)[h2.len() as int] == w);
    assert(h.contains(w));
    match *w.node {
        RTreeNode::Leaf(t) => {
            assert(nj_rest(h, Seq::empty()).contains(t));
            assert(!no_leaf(h));
            let x = choose|x: T| #[trigger] nj_rest(h, Seq::empty()).contains(x) && x.pd2(&q) <= m;
            assert(t.pd2(&q) <= x.pd2(&q));
            assert forall|u: T| #[trigger] all.contains(u) implies t.pd2(&q) <= u.pd2(&q) by { }
        }
        RTreeNode::Parent(p) => {
            lemma_ok_kids(p, p_height(p));
            assert(nj_rest(h2, p.children@) =~= nj_rest(h, Seq::empty()));
            if !no_leaf(h) {
                let x = choose|x: T| #[trigger] nj_rest(h, Seq::empty()).contains(x) && x.pd2(&q) <= m;
                assert(nj_rest(h2, p.children@).contains(x));
            } else {
                assert forall|i: int| 0 <= i < h2.len() implies !(*(#[trigger] h2[i]).node is Leaf) by { assert(h2.push(w)[i] == h2[i]); assert(h.contains(h2.push(w)[i])); }
            }
        }
    }
}
pub open spec fn all_nearest<T: PointDistance>(m: Multiset<T>, q: Pt<T>) -> Multiset<T> { m.filter(|t: T| nearest(t, m, q)) }
pub proof fn lemma_all_nearest<T: PointDistance>(m: Multiset<T>, rest: Multiset<T>, res: Seq<T>, q: Pt<T>, d: real)
    requires m == rest.add(res.to_multiset()), forall|i: int| 0 <= i < res.len() ==> nearest(#[trigger] res[i], m, q) && res[i].pd2(&q) == d,
        forall|t: T| #[trigger] rest.contains(t) ==> t.pd2(&q) > d, res.len() > 0
    ensures res.to_multiset() == all_nearest(m, q)
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    let r = res.to_multiset();
    assert forall|t: T| r.count(t) == #[trigger] all_nearest(m, q).count(t) by {
        assert(r.contains(res[0])) by { assert(res.contains(res[0])); }
        assert(m.contains(res[0]));
        if r.contains(t) { assert(res.contains(t)); assert(nearest(t, m, q)); if rest.contains(t) { } }
        if rest.contains(t) { assert(!nearest(t, m, q)); }
    }
    assert(r =~= all_nearest(m, q));
}
%item struct RTreeNodeDistanceWrapper
%item impl PartialEq for RTreeNodeDistanceWrapper
%opt inherent
%item impl PartialEq for RTreeNodeDistanceWrapper::eq
%ret r
%sig
    ensures r == (self.distance.v() == other.distance.v())
%item impl PartialOrd for RTreeNodeDistanceWrapper
%opt inherent
%item impl PartialOrd for RTreeNodeDistanceWrapper::partial_cmp
%ret r
%sig
    ensures r matches Some(x) && agrees(x, self.hle(other), other.hle(self))
%item impl Eq for RTreeNodeDistanceWrapper
%drop marker trait
%item impl Ord for RTreeNodeDistanceWrapper
%opt inherent
%item impl Ord for RTreeNodeDistanceWrapper::cmp
%ret r
%sig
    ensures agrees(r, self.hle(other), other.hle(self))
%item impl NearestNeighborDistance2Iterator::new
%ret r
%sig
    requires p_wf(*root, p_height(*root))
    ensures nn_wf(r), nn_rest(r) == p_elems(*root), r.query_point == query_point
%at start
    proof { lemma_ok_kids(*root, p_height(*root)); mem_bound(*root); }
%item impl NearestNeighborDistance2Iterator::extend_heap
%opt heap_extend
%sig
    requires nn_wf(*old(self)), s_ok(children@), children@.len() < 0x7fff_ffff
    ensures nn_wf(*final(self)), nn_rest(*final(self)) == nn_rest(*old(self)).add(s_elems(children@)), final(self).query_point == old(self).query_point,
        s_count(wn(hv(final(self).nodes))) == s_count(wn(hv(old(self).nodes))) + s_count(children@)
%closure 0 |child: &'a RTreeNode<T>| -> (w: RTreeNodeDistanceWrapper<'a, T>)
    ensures *w.node == *child, w.distance.v() == n_dist(*child, *query_point)
%at start
    let ghost h0 = hv(self.nodes);
    let ghost q = self.query_point;
%at after extend
    proof {
        let h1 = hv(self.nodes);
        assert(exists|w: Seq<RTreeNodeDistanceWrapper<'a, T>>| #[trigger] perm(h1, h0 + w) && nn_queued(w, children@, q));
        let w = choose|w: Seq<RTreeNodeDistanceWrapper<'a, T>>| #[trigger] perm(h1, h0 + w) && nn_queued(w, children@, q);
        lemma_wperm(h1, h0 + w, q);
        lemma_wadd(h0, w, children@, q);
    }
%item impl Iterator for NearestNeighborDistance2Iterator
%opt inherent
%item impl Iterator for NearestNeighborDistance2Iterator::next
%ret r
%sig
    requires nn_wf(*old(self))
    ensures nn_wf(*final(self)), final(self).query_point == old(self).query_point,
        match r {
            // the next object is a nearest one of those left
            Some(x) => x.1.v() == x.0.pd2(&old(self).query_point) && nearest(*x.0, nn_rest(*old(self)), old(self).query_point) && nn_rest(*old(self)) == nn_rest(*final(self)).insert(*x.0),
            None => nn_rest(*old(self)) == Multiset::<T>::empty(),
        }
%attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
%at beforeloop 0
    let ghost mut vx_g = hv(self.nodes);
    let ghost q = self.query_point;
%loop 0
    invariant vx_g == hv(self.nodes), nn_wf(*self), self.query_point == q, nn_rest(*self) == nn_rest(*old(self)),
    ensures vx_g.len() == 0, hv(self.nodes).len() == 0
    decreases s_count(wn(vx_g))
%at loopstart 0
    let ghost mid = hv(self.nodes);
    let ghost vx_n = *current.node;
    proof {
        lemma_wperm(vx_g, mid.push(current), q);
        lemma_wpush(mid, current, q);
        lemma_least(vx_g, current, q);
        match vx_n {
            RTreeNode::Parent(data) => { lemma_ok_kids(data, p_height(data)); mem_bound(data); }
            RTreeNode::Leaf(t) => { assert(nn_rest(*self).add(Multiset::singleton(t)) =~= nn_rest(*self).insert(t)); }
        }
    }
%at loopend 0
    proof { vx_g = hv(self.nodes); }
%item struct NearestNeighborDistance2Iterator
%item impl NearestNeighborIterator::new
%ret r
%sig
    requires p_wf(*root, p_height(*root))
    ensures nn_wf(r.iter), nn_rest(r.iter) == p_elems(*root), r.iter.query_point == query_point
%item impl Iterator for NearestNeighborIterator
%opt inherent
%item impl Iterator for NearestNeighborIterator::next
%opt option_match
%ret r
%sig
    requires nn_wf(old(self).iter)
    ensures nn_wf(final(self).iter), final(self).iter.query_point == old(self).iter.query_point,
        match r {
            Some(x) => nearest(*x, nn_rest(old(self).iter), old(self).iter.query_point) && nn_rest(old(self).iter) == nn_rest(final(self).iter).insert(*x),
            None => nn_rest(old(self).iter) == Multiset::<T>::empty(),
        }
%item struct NearestNeighborIterator
%item enum SmallHeap
%item impl SmallHeap
%item impl SmallHeap::new
%ret r
%sig
    ensures hv(r).len() == 0
%item impl SmallHeap::pop
%ret r
%sig
    ensures match r { None => hv(*old(self)).len() == 0 && hv(*final(self)).len() == 0, Some(x) => perm(hv(*old(self)), hv(*final(self)).push(x)) && is_max(hv(*old(self)), x) }
%item impl SmallHeap::push
%at start
    broadcast use crate::heap::perm_laws;
%sig
    ensures perm(hv(*final(self)), hv(*old(self)).push(item))
%item impl SmallHeap::extend
%at start
    broadcast use crate::heap::perm_laws;
%opt keep_extend
%opt for_path_takes
%sig
    requires iter@.len() < 0x7fff_ffff
    ensures perm(hv(*final(self)), hv(*old(self)) + iter@)
%at beforeloop 0
    let ghost h0 = heap@;
    let ghost all = vx_o0@;
    let ghost mut k: int = 0;
    proof { assert(h0 + all.take(0) =~= h0); }
%loop 0
    invariant 0 <= k <= all.len(), vx_o0@ == all.skip(k), perm(heap@, h0 + all.take(k)), h0.len() + all.len() <= 32
    decreases all.len() - k
%at loopstart 0
    proof { lemma_perm(heap@, h0 + all.take(k)); }
    let ghost hb = heap@;
    assert(vx_o0@[0] == all[k]);
%at loopend 0
    proof {
        assert((h0 + all.take(k)).push(item) =~= h0 + all.take(k + 1));
        perm_push(hb, h0 + all.take(k), item);
        k = k + 1;
    }
%at afterloop 0
    proof { assert(all.take(k) =~= all); }
%item impl SmallHeap::spill
%opt keep_extend
%ret r
%sig
    requires *old(self) is Stack
    ensures perm(r@, hv(*old(self))), *final(self) is Heap, hv(*final(self)) == final(r)@
%item fn nearest_neighbor_with_distance_2__extend_heap
%sig
    requires s_ok(node.children@)
    ensures forall|all: Multiset<T>| #[trigger] nj(hv(*old(nodes)), node.children@, all, old(min_max_distance).v(), *query_point) ==> nj(hv(*final(nodes)), Seq::empty(), all, final(min_max_distance).v(), *query_point),
        s_count(wn(hv(*final(nodes)))) <= s_count(wn(hv(*old(nodes)))) + s_count(node.children@),
%at start
    let ghost q = *query_point;
    let ghost h0 = hv(*nodes);
    let ghost m0 = min_max_distance.v();
    let ghost kids = node.children@;
    proof { assert(kids.skip(0) =~= kids); }
%loop 0
    invariant vx_s0@ == kids, s_ok(kids), q == *query_point,
        forall|all: Multiset<T>| #[trigger] nj(h0, kids, all, m0, q) ==> nj(hv(*nodes), kids.skip(vx_i0 as int), all, min_max_distance.v(), q),
        s_count(wn(hv(*nodes))) <= s_count(wn(h0)) + s_count(kids.take(vx_i0 as int)),
%at loopstart 0
    let ghost h = hv(*nodes);
    let ghost m = min_max_distance.v();
    let ghost c = kids[vx_i0 as int];
    let ghost rest = kids.skip(vx_i0 as int);
    proof {
        assert(n_ok(c));
        assert(rest[0] == c);
        assert(rest.skip(1) =~= kids.skip(vx_i0 + 1));
        let s1 = kids.take(vx_i0 + 1);
        assert(s1.drop_last() =~= kids.take(vx_i0 as int));
        assert(s1.last() == c);
    }
%at loopend 0
    proof {
        assert forall|all: Multiset<T>| #[trigger] nj(h0, kids, all, m0, q) implies nj(hv(*nodes), kids.skip(vx_i0 + 1), all, min_max_distance.v(), q) by {
            if n_dist(c, q) > m { lemma_nj_prune(h, rest, all, m, q); }
            else {
                let w = choose|w: RTreeNodeDistanceWrapper<'a, T>| #[trigger] perm(hv(*nodes), h.push(w)) && *w.node == c && w.distance.v() == n_dist(c, q);
                lemma_nj_push(h, hv(*nodes), w, rest, all, m, min_max_distance.v(), q);
            }
        }
        if n_dist(c, q) <= m {
            let w = choose|w: RTreeNodeDistanceWrapper<'a, T>| #[trigger] perm(hv(*nodes), h.push(w)) && *w.node == c && w.distance.v() == n_dist(c, q);
            lemma_wpush(h, w, q);
            lemma_wperm(hv(*nodes), h.push(w), q);
        }
    }
%at afterloop 0
    proof { assert(kids.skip(kids.len() as int) =~= Seq::empty()); assert(kids.take(kids.len() as int) =~= kids); }
%item fn nearest_neighbor_with_distance_2
%attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
%ret r
%sig
    requires p_wf(*node, p_height(*node))
    ensures r matches Some(x) ==> x.1.v() == x.0.pd2(&query_point) && nearest(*x.0, p_elems(*node), query_point)
%at start
    let ghost all = p_elems(*node);
    let ghost q = query_point;
    proof { lemma_ok_kids(*node, p_height(*node)); }
%at after let:nodes
    proof {
        let e = hv(nodes);
        assert(wn(e) =~= Seq::empty());
        assert(nj_rest(e, node.children@) =~= all);
        assert(nj(e, node.children@, all, smallest_min_max.v(), q));
    }
%at beforeloop 0
    let ghost mut vx_g = hv(nodes);
%loop 0
    invariant vx_g == hv(nodes), nj(hv(nodes), Seq::empty(), all, smallest_min_max.v(), q)
    decreases s_count(wn(vx_g))
%at loopstart 0
    let ghost vx_n = *current.node;
    proof {
        lemma_nj_pop(vx_g, hv(nodes), current, all, smallest_min_max.v(), q);
        if let RTreeNode::Parent(data) = vx_n { lemma_ok_kids(data, p_height(data)); }
    }
%at loopend 0
    proof { vx_g = hv(nodes); }
%item fn nearest_neighbors_with_distance_2
%opt for_whole_items
%attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
%ret r
%sig
    requires p_wf(*node, p_height(*node))
    ensures match r {
        None => p_elems(*node) == Multiset::<T>::empty(),
        // exactly the elements at the least distance, each as often as it is stored
        Some(x) => x.0@.len() > 0 && drf(x.0@).to_multiset() == all_nearest(p_elems(*node), query_point)
            && forall|i: int| 0 <= i < x.0@.len() ==> nearest(*#[trigger] x.0@[i], p_elems(*node), query_point) && x.0@[i].pd2(&query_point) == x.1.v(),
    }
%at start
    let ghost all = p_elems(*node);
    let ghost q = query_point;
%at after let:result
    proof {
        assert(drf(result@) =~= Seq::empty().push(*first));
        drf(Seq::<&T>::empty()).to_multiset_ensures();
        Seq::<T>::empty().to_multiset_ensures();
        assert(drf(result@).to_multiset() =~= Multiset::singleton(*first));
    }
%at beforeloop 0
    let ghost mut rest = nn_rest(vx_it);
    proof { assert(all =~= rest.add(drf(result@).to_multiset())); }
%loop 0
    invariant nn_wf(vx_it), vx_it.query_point == q, rest == nn_rest(vx_it), all == rest.add(drf(result@).to_multiset()), result@.len() > 0,
        forall|i: int| 0 <= i < result@.len() ==> nearest(*#[trigger] result@[i], all, q) && result@[i].pd2(&q) == first_distance_2.v(),
    ensures all == rest.add(drf(result@).to_multiset()), forall|t: T| #[trigger] rest.contains(t) ==> t.pd2(&q) > first_distance_2.v(),
        result@.len() > 0,
        forall|i: int| 0 <= i < result@.len() ==> nearest(*#[trigger] result@[i], all, q) && result@[i].pd2(&q) == first_distance_2.v(),
    decreases rest.len()
%at loopstart 0
    proof {
        assert(rest.contains(*vx_x.0));
        assert(all.contains(*vx_x.0));
        assert(nearest(*result@[0], all, q));
        assert(first_distance_2.v() <= vx_x.0.pd2(&q));
        drf(result@).to_multiset_ensures();
        assert(drf(result@.push(vx_x.0)) =~= drf(result@).push(*vx_x.0));
        assert(rest.len() == nn_rest(vx_it).len() + 1);
        assert(all =~= nn_rest(vx_it).add(drf(result@).to_multiset().insert(*vx_x.0)));
    }
%at loopend 0
    proof { rest = nn_rest(vx_it); }
%at afterloop 0
    proof { lemma_all_nearest(all, rest, drf(result@), q, first_distance_2.v()); }
%postlude
impl<'a, T: PointDistance> VxOrd for RTreeNodeDistanceWrapper<'a, T> {
    open spec fn hle(&self, o: &Self) -> bool { o.distance.v() <= self.distance.v() }
    proof fn hle_laws() {}
    fn vx_cmp(&self, o: &Self) -> (r: Ordering) { self.cmp(o) }
    fn vx_partial_cmp(&self, o: &Self) -> (r: Option<Ordering>) { self.partial_cmp(o) }
}
