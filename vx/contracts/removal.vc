%file algorithm/removal.rs
%module algorithm::removal
%prelude
broadcast use {crate::num_axioms::num_laws, crate::vx::node_vec_len};
// ---------- the stack of taken-apart nodes: (node, next child to look at, objects removed below it) ----------
pub type Fr<T> = (ParentNode<T>, usize, usize);
// objects in the frames i.. , objects removed from them, nodes still to be looked at
pub open spec fn m_at<T: RTreeObject>(st: Seq<Fr<T>>, i: int) -> Multiset<T>
    decreases st.len() - i
{
    if i < 0 || i >= st.len() { Multiset::empty() } else { p_elems(st[i].0).add(m_at(st, i + 1)) }
}
pub open spec fn r_at<T: RTreeObject>(st: Seq<Fr<T>>, i: int) -> int
    decreases st.len() - i
{
    if i < 0 || i >= st.len() { 0 } else { st[i].2 + r_at(st, i + 1) }
}
pub open spec fn u_at<T: RTreeObject>(st: Seq<Fr<T>>, i: int) -> nat
    decreases st.len() - i
{
    if i < 0 || i >= st.len() { 0 } else { s_count(st[i].0.children@.skip(st[i].1 as int)) + u_at(st, i + 1) }
}
pub proof fn lemma_s_all_ok<T: RTreeObject>(s: Seq<RTreeNode<T>>, h: int)
    requires s_wf(s, h)
    ensures forall|t: T| #[trigger] s_elems(s).contains(t) ==> obj_ok(t)
{
    assert forall|t: T| #[trigger] s_elems(s).contains(t) implies obj_ok(t) by {
        lemma_s_contains(s, t);
        let i = choose|i: int| 0 <= i < s.len() && n_elems(#[trigger] s[i]).contains(t);
        lemma_all_ok(s[i], h, t);
    }
}
// e covers everything in m
pub open spec fn above<T: RTreeObject>(e: T::Envelope, m: Multiset<T>) -> bool {
    forall|t: T| #[trigger] m.contains(t) ==> t.env().le(&e)
}
// frame i holds the remaining children of a node of height h; its envelope still covers all that
// is left below it, and is tight while nothing was removed below it
pub open spec fn fr_ok<T: RTreeObject>(st: Seq<Fr<T>>, i: int, h: int) -> bool {
    &&& h >= 1
    &&& s_wf(st[i].0.children@, h - 1)
    &&& st[i].1 <= st[i].0.children@.len()
    &&& above(st[i].0.envelope, m_at(st, i))
    &&& r_at(st, i) == 0 ==> tight(st[i].0.envelope, m_at(st, i))
}
pub open spec fn fr_wf<T: RTreeObject>(st: Seq<Fr<T>>, h: int) -> bool {
    forall|i: int| 0 <= i < st.len() ==> #[trigger] fr_at(st, i, h)
}
pub open spec fn st_wf<T: RTreeObject>(st: Seq<Fr<T>>) -> bool { exists|h: int| #[trigger] fr_wf(st, h) }
pub open spec fn fr_at<T: RTreeObject>(st: Seq<Fr<T>>, i: int, h: int) -> bool { fr_ok(st, i, h - i) }
// nothing selected is left among the children already looked at
pub open spec fn seen_ok<T: RTreeObject, F: SelectionFunction<T>>(st: Seq<Fr<T>>, f: F) -> bool {
    forall|i: int| 0 <= i < st.len() ==> fr_seen(#[trigger] st[i], f)
}
pub open spec fn fr_seen<T: RTreeObject, F: SelectionFunction<T>>(x: Fr<T>, f: F) -> bool {
    sel_of(s_elems(x.0.children@.take(x.1 as int)), f) == Multiset::<T>::empty()
}
// ---------- the drain iterator ----------
// all objects the drained tree still holds
pub open spec fn dr_all<T: RTreeObject, R: SelectionFunction<T>, P: RTreeParams>(it: DrainIterator<'_, T, R, P>) -> Multiset<T> {
    if it.node_stack@.len() == 0 { p_elems(it.rtree.root) } else { m_at(it.node_stack@, 0) }
}
pub open spec fn dr_wf<T: RTreeObject, R: SelectionFunction<T>, P: RTreeParams>(it: DrainIterator<'_, T, R, P>) -> bool {
    // what a leaked iterator leaves behind is a usable tree
    &&& t_wf(*it.rtree)
    &&& if it.node_stack@.len() == 0 {
        coherent::<T, R>(it.removal_function) ==> sel_of(p_elems(it.rtree.root), it.removal_function) == Multiset::<T>::empty()
    } else {
        &&& p_elems(it.rtree.root) == Multiset::<T>::empty()
        &&& st_wf(it.node_stack@)
        &&& it.original_size == m_at(it.node_stack@, 0).len() + r_at(it.node_stack@, 0)
        &&& coherent::<T, R>(it.removal_function) ==> seen_ok(it.node_stack@, it.removal_function)
    }
}
// frames below k agree, and so do the sums from k on
pub proof fn lemma_at_same<T: RTreeObject>(a: Seq<Fr<T>>, b: Seq<Fr<T>>, k: int, i: int)
    requires 0 <= i <= k, k <= a.len(), k <= b.len(), forall|j: int| 0 <= j < k ==> #[trigger] a[j] == b[j],
        m_at(a, k) == m_at(b, k), r_at(a, k) == r_at(b, k)
    ensures m_at(a, i) == m_at(b, i), r_at(a, i) == r_at(b, i), u_at(a, i) + u_at(b, k) == u_at(b, i) + u_at(a, k)
    decreases k - i
{
    if i < k { lemma_at_same(a, b, k, i + 1); assert(a[i] == b[i]); }
}
// removals below one frame are among those below the one underneath
pub proof fn lemma_r_mono<T: RTreeObject>(st: Seq<Fr<T>>, i: int)
    requires 0 <= i
    ensures 0 <= r_at(st, i) <= r_at(st, 0)
    decreases i
{
    lemma_r_pos(st, i);
    if i > 0 { lemma_r_mono(st, i - 1); }
}
pub proof fn lemma_m_mono<T: RTreeObject>(st: Seq<Fr<T>>, i: int)
    requires 0 <= i
    ensures m_at(st, i).len() <= m_at(st, 0).len()
    decreases i
{
    if i > 0 { lemma_m_mono(st, i - 1); }
}
pub proof fn lemma_r_pos<T: RTreeObject>(st: Seq<Fr<T>>, i: int)
    ensures r_at(st, i) >= 0
    decreases st.len() - i
{
    if 0 <= i < st.len() { lemma_r_pos(st, i + 1); }
}
pub proof fn lemma_s_swap<T: RTreeObject>(s: Seq<RTreeNode<T>>, i: int, j: int)
    requires 0 <= i < s.len(), 0 <= j < s.len()
    ensures s_elems(s.update(i, s[j]).update(j, s[i])) == s_elems(s)
{
    let s1 = s.update(i, s[j]);
    lemma_s_update(s, i, s[j]);
    lemma_s_update(s1, j, s[i]);
    assert(s1[j] == s[j]);
    assert forall|t: T| #[trigger] s_elems(s1.update(j, s[i])).count(t) == s_elems(s).count(t) by {
        assert(s_elems(s1.update(j, s[i])).add(n_elems(s[j])).count(t) == s_elems(s1).add(n_elems(s[i])).count(t));
        assert(s_elems(s1).add(n_elems(s[i])).count(t) == s_elems(s).add(n_elems(s[j])).count(t));
    }
    assert(s_elems(s1.update(j, s[i])) =~= s_elems(s));
}
// the envelope a node is put back with
pub open spec fn put_env<T: RTreeObject>(x: Fr<T>, e: T::Envelope) -> bool {
    if x.2 > 0 { covers(e, x.0.children@) } else { e == x.0.envelope }
}
// the children of the node underneath after n was put back at the end (and moved to place i)
pub open spec fn put_back<T: RTreeObject>(s: Seq<RTreeNode<T>>, n: RTreeNode<T>, i: int, inc: bool) -> Seq<RTreeNode<T>> {
    let s1 = s.push(n);
    if inc { s1.update(i, s1[s1.len() - 1]).update(s1.len() - 1, s1[i]) } else { s1 }
}
// s2 is st with the top node closed and put back into the one underneath
pub open spec fn popped<T: RTreeObject>(st: Seq<Fr<T>>, s2: Seq<Fr<T>>, inc: bool) -> bool {
    let top = st[st.len() - 1];
    let par = st[st.len() - 2];
    let new = s2[st.len() - 2];
    let at = if inc { par.1 as int } else { par.0.children@.len() as int };
    &&& st.len() >= 2
    &&& s2.len() == st.len() - 1
    &&& forall|i: int| 0 <= i < st.len() - 2 ==> #[trigger] s2[i] == st[i]
    &&& new.0.envelope == par.0.envelope
    &&& new.2 == par.2 + top.2
    &&& if top.0.children@.len() == 0 { new.0.children@ == par.0.children@ && new.1 == par.1 } else {
        match new.0.children@[at] {
            RTreeNode::Parent(q) => q.children@ == top.0.children@ && put_env(top, q.envelope)
                && new.0.children@ == put_back(par.0.children@, new.0.children@[at], par.1 as int, inc)
                && new.1 == if inc { par.1 + 1 } else { par.1 as int },
            _ => false,
        }
    }
}
// a closed node
pub proof fn lemma_closed<T: RTreeObject>(st: Seq<Fr<T>>, h: int, q: ParentNode<T>)
    requires st.len() > 0, fr_wf(st, h), q.children@ == st.last().0.children@, put_env(st.last(), q.envelope)
    ensures p_elems(q) == m_at(st, st.len() - 1), st.last().2 == r_at(st, st.len() - 1),
        q.children@.len() > 0 ==> p_wf(q, h - st.len() + 1) && p_height(q) == h - st.len() + 1,
        q.children@.len() == 0 ==> p_wf(q, 1) && p_height(q) == 1,
{
    let k = st.len() - 1;
    assert(fr_at(st, k, h));
    assert(m_at(st, k + 1) == Multiset::<T>::empty());
    assert(r_at(st, k + 1) == 0);
    assert(m_at(st, k) =~= p_elems(q));
    if st[k].2 > 0 { lemma_covers(q.envelope, q.children@, h - k - 1); }
    assert(tight(q.envelope, p_elems(q)));
    if q.children@.len() > 0 { lemma_p_height(q, h - k); }
}
pub proof fn lemma_popped<T: RTreeObject>(st: Seq<Fr<T>>, s2: Seq<Fr<T>>, inc: bool, h: int)
    requires fr_wf(st, h), popped(st, s2, inc)
    ensures fr_wf(s2, h), m_at(s2, 0) == m_at(st, 0), r_at(s2, 0) == r_at(st, 0), inc ==> u_at(s2, 0) <= u_at(st, 0)
{
    let k = st.len() - 1;
    let j = k - 1;
    let (top, par, new) = (st[k], st[j], s2[j]);
    assert(fr_at(st, k, h));
    assert(fr_at(st, j, h));
    assert(m_at(st, k + 1) == Multiset::<T>::empty() && m_at(s2, k) == Multiset::<T>::empty());
    assert(r_at(st, k + 1) == 0 && r_at(s2, k) == 0 && u_at(st, k + 1) == 0 && u_at(s2, k) == 0);
    let oc = par.0.children@;
    let nc = new.0.children@;
    if top.0.children@.len() == 0 {
        assert(m_at(s2, j) =~= m_at(st, j));
        assert(u_at(s2, j) <= u_at(st, j));
    } else {
        let at = if inc { par.1 as int } else { oc.len() as int };
        let n = nc[at];
        let q = match n { RTreeNode::Parent(q) => q, _ => top.0 };
        lemma_closed(st, h, q);
        let s1 = oc.push(n);
        lemma_s_push(oc, n);
        assert forall|i: int| 0 <= i < s1.len() implies n_wf(#[trigger] s1[i], h - k) by { if i < oc.len() { assert(n_wf(oc[i], h - k)); } }
        if inc {
            lemma_s_swap(s1, par.1 as int, s1.len() - 1);
            // what is still to be looked at
            let i = par.1 as int;
            if i < oc.len() {
                assert(oc.skip(i) =~= seq![oc[i]] + oc.skip(i + 1));
                assert(nc.skip(i + 1) =~= oc.skip(i + 1) + seq![oc[i]]);
                lemma_count_add(oc.skip(i + 1), seq![oc[i]]);
                lemma_count_add(seq![oc[i]], oc.skip(i + 1));
            } else {
                assert(nc.skip(i + 1) =~= Seq::empty());
            }
        }
        assert(p_elems(new.0) == p_elems(par.0).add(p_elems(q)));
        assert forall|i: int| 0 <= i < nc.len() implies n_wf(#[trigger] nc[i], h - k) by {
            if inc && i == par.1 { } else if inc && i == nc.len() - 1 { assert(n_wf(s1[par.1 as int], h - k)); } else { assert(n_wf(s1[i], h - k)); }
        }
        assert(m_at(s2, j) =~= m_at(st, j));
    }
    assert(r_at(s2, j) == r_at(st, j));
    assert(inc ==> u_at(s2, j) <= u_at(st, j));
    assert forall|i: int| 0 <= i < s2.len() implies #[trigger] fr_at(s2, i, h) by {
        lemma_at_same(s2, st, j, i);
        assert(fr_at(st, i, h));
    }
    lemma_at_same(s2, st, j, 0);
}
pub proof fn lemma_popped_seen<T: RTreeObject, F: SelectionFunction<T>>(st: Seq<Fr<T>>, s2: Seq<Fr<T>>, f: F)
    requires popped(st, s2, true), seen_ok(st, f), sel_of(p_elems(st.last().0), f) == Multiset::<T>::empty(), st[st.len() - 2].1 <= st[st.len() - 2].0.children@.len()
    ensures seen_ok(s2, f)
{
    let j = st.len() - 2;
    let (top, par, new) = (st[st.len() - 1], st[j], s2[j]);
    assert forall|i: int| 0 <= i < s2.len() implies fr_seen(#[trigger] s2[i], f) by {
        assert(fr_seen(st[i], f));
        if i == j && top.0.children@.len() > 0 {
            let n = new.0.children@[par.1 as int];
            assert(new.0.children@.take(new.1 as int) =~= par.0.children@.take(par.1 as int).push(n));
            lemma_s_push(par.0.children@.take(par.1 as int), n);
            lemma_sel_add(s_elems(par.0.children@.take(par.1 as int)), n_elems(n), f);
            assert(n_elems(n) == p_elems(top.0));
            assert(Multiset::<T>::empty().add(Multiset::empty()) =~= Multiset::<T>::empty());
            assert(fr_seen(new, f));
        } else if i == j { assert(fr_seen(new, f)); }
    }
}
pub proof fn lemma_s_one<T: RTreeObject>(n: RTreeNode<T>)
    ensures s_elems(seq![n]) == n_elems(n), s_count(seq![n]) == n_count(n)
{
    let x = seq![n];
    assert(x.drop_last() =~= Seq::empty());
    assert(x.last() == n);
    assert(s_elems(x.drop_last()) =~= Multiset::empty());
    assert(s_elems(x) == n_elems(x.last()).add(s_elems(x.drop_last())));
    assert(s_elems(x) =~= n_elems(n));
    assert(s_count(x) == n_count(x.last()) + s_count(x.drop_last()));
}
// Vec::swap_remove
pub open spec fn swap_rm<A>(s: Seq<A>, i: int) -> Seq<A> { s.update(i, s.last()).drop_last() }
pub proof fn lemma_swap_rm<T: RTreeObject>(s: Seq<RTreeNode<T>>, i: int, j: int, h: int)
    requires 0 <= j <= i < s.len()
    ensures s_elems(s) == s_elems(swap_rm(s, i)).add(n_elems(s[i])),
        s_count(s.skip(i)) == s_count(swap_rm(s, i).skip(i)) + n_count(s[i]),
        s_count(s.skip(j)) >= s_count(s.skip(i)),
        swap_rm(s, i).take(i) == s.take(i),
        s_wf(s, h) ==> s_wf(swap_rm(s, i), h),
{
    let r = swap_rm(s, i);
    assert(r.take(i) =~= s.take(i));
    assert(s.skip(j) =~= s.subrange(j, i) + s.skip(i));
    lemma_count_add(s.subrange(j, i), s.skip(i));
    lemma_s_split(s, i);
    lemma_s_split(r, i);
    let x = seq![s[i]];
    lemma_s_one(s[i]);
    let l = s.last();
    if i == s.len() - 1 {
        assert(s.skip(i) =~= x);
        assert(r.skip(i) =~= Seq::empty());
        assert(s_elems(s.skip(i)) =~= s_elems(r.skip(i)).add(n_elems(s[i])));
    } else {
        let m = s.subrange(i + 1, s.len() - 1);
        let y = seq![l];
        assert(s.skip(i) =~= (x + m) + y);
        assert(r.skip(i) =~= y + m);
        lemma_s_add(x + m, y); lemma_s_add(x, m); lemma_s_add(y, m);
        lemma_count_add(x + m, y); lemma_count_add(x, m); lemma_count_add(y, m);
        assert(s_elems(s.skip(i)) =~= s_elems(r.skip(i)).add(n_elems(s[i])));
    }
    assert(s_elems(s) =~= s_elems(r).add(n_elems(s[i])));
    if s_wf(s, h) {
        assert forall|k: int| 0 <= k < r.len() implies n_wf(#[trigger] r[k], h) by { if k == i { assert(n_wf(s[s.len() - 1], h)); } else { assert(n_wf(s[k], h)); } }
    }
}
// s1 is st with more of the top node looked at
pub open spec fn moved<T: RTreeObject>(st: Seq<Fr<T>>, s1: Seq<Fr<T>>) -> bool {
    let k = st.len() - 1;
    &&& st.len() > 0 && s1.len() == st.len()
    &&& forall|i: int| 0 <= i < k ==> #[trigger] s1[i] == st[i]
    &&& s1[k].0 == st[k].0 && s1[k].2 == st[k].2
    &&& st[k].1 <= s1[k].1 <= st[k].0.children@.len()
}
// s2 is st with an object, or a whole subtree, taken out of the top node at place s2[k].1
pub open spec fn taken<T: RTreeObject>(st: Seq<Fr<T>>, s2: Seq<Fr<T>>) -> bool {
    let k = st.len() - 1;
    let i = s2[k].1 as int;
    &&& st.len() > 0 && s2.len() >= st.len()
    &&& forall|i: int| 0 <= i < k ==> #[trigger] s2[i] == st[i]
    &&& s2[k].0.envelope == st[k].0.envelope
    &&& st[k].1 <= i < st[k].0.children@.len()
    &&& s2[k].0.children@ == swap_rm(st[k].0.children@, i)
    &&& match st[k].0.children@[i] {
        RTreeNode::Leaf(t) => s2.len() == st.len() && s2[k].2 == st[k].2 + 1,
        RTreeNode::Parent(p) => s2.len() == st.len() + 1 && s2[k].2 == st[k].2 && s2[k + 1] == (p, 0usize, 0usize),
    }
}
pub proof fn lemma_moved<T: RTreeObject>(st: Seq<Fr<T>>, s1: Seq<Fr<T>>, h: int)
    requires moved(st, s1), fr_wf(st, h)
    ensures fr_wf(s1, h), m_at(s1, 0) == m_at(st, 0), r_at(s1, 0) == r_at(st, 0), u_at(s1, 0) <= u_at(st, 0)
{
    let k = st.len() - 1;
    assert(m_at(st, k + 1) == Multiset::<T>::empty() && m_at(s1, k + 1) == Multiset::<T>::empty());
    assert(r_at(st, k + 1) == 0 && r_at(s1, k + 1) == 0 && u_at(st, k + 1) == 0 && u_at(s1, k + 1) == 0);
    assert(m_at(s1, k) =~= m_at(st, k));
    let (i, j) = (st[k].1 as int, s1[k].1 as int);
    let s = st[k].0.children@;
    assert(fr_at(st, k, h));
    assert(s.skip(i) =~= s.subrange(i, j) + s.skip(j));
    lemma_count_add(s.subrange(i, j), s.skip(j));
    assert forall|i: int| 0 <= i < s1.len() implies #[trigger] fr_at(s1, i, h) by { lemma_at_same(s1, st, k, i); assert(fr_at(st, i, h)); }
    lemma_at_same(s1, st, k, 0);
}
pub open spec fn n_leaf<T: RTreeObject>(n: RTreeNode<T>) -> Multiset<T> {
    match n { RTreeNode::Leaf(t) => Multiset::singleton(t), RTreeNode::Parent(p) => Multiset::empty() }
}
pub proof fn lemma_taken<T: RTreeObject>(st: Seq<Fr<T>>, s2: Seq<Fr<T>>, h: int)
    requires taken(st, s2), fr_wf(st, h)
    ensures fr_wf(s2, h), u_at(s2, 0) < u_at(st, 0),
        m_at(st, 0) == m_at(s2, 0).add(n_leaf(st.last().0.children@[s2[st.len() - 1].1 as int])),
        r_at(s2, 0) == r_at(st, 0) + n_leaf(st.last().0.children@[s2[st.len() - 1].1 as int]).len(),
        forall|i: int| 0 <= i < s2.len() && i != st.len() - 1 ==> #[trigger] s2[i] == (if i < st.len() { st[i] } else { s2[i] }),
{
    let k = st.len() - 1;
    let i = s2[k].1 as int;
    let s = st[k].0.children@;
    let n = s[i];
    let d = n_leaf(n);
    assert(fr_at(st, k, h));
    lemma_swap_rm(s, i, st[k].1 as int, h - k - 1);
    assert(n_wf(n, h - k - 1));
    assert(m_at(st, k + 1) == Multiset::<T>::empty() && r_at(st, k + 1) == 0 && u_at(st, k + 1) == 0);
    assert(m_at(st, k) =~= p_elems(st[k].0));
    T::Envelope::laws();
    assert(d.len() == if n is Leaf { 1nat } else { 0 });
    match n {
        RTreeNode::Leaf(t) => {
            assert(m_at(s2, k + 1) == Multiset::<T>::empty() && r_at(s2, k + 1) == 0 && u_at(s2, k + 1) == 0);
            assert(m_at(s2, k) =~= p_elems(s2[k].0));
        }
        RTreeNode::Parent(p) => {
            assert(m_at(s2, k + 2) == Multiset::<T>::empty() && r_at(s2, k + 2) == 0 && u_at(s2, k + 2) == 0);
            assert(m_at(s2, k + 1) =~= p_elems(p));
            assert(p.children@.skip(0) =~= p.children@);
            assert(r_at(s2, k + 1) == 0);
            assert(p.envelope.le(&p.envelope));
            assert(fr_at(s2, k + 1, h));
            assert(u_at(s2, k + 1) == s_count(p.children@));
        }
    }
    assert(m_at(st, k) =~= m_at(s2, k).add(d));
    assert(r_at(s2, k) == r_at(st, k) + d.len());
    assert(u_at(s2, k) < u_at(st, k));
    lemma_taken_below(st, s2, k, 0, d);
    assert forall|i: int| 0 <= i < s2.len() implies #[trigger] fr_at(s2, i, h) by {
        if i <= k {
            lemma_taken_below(st, s2, k, i, d);
            assert(fr_at(st, i, h));
            lemma_r_pos(st, i);
            assert forall|t: T| #[trigger] m_at(s2, i).contains(t) implies t.env().le(&s2[i].0.envelope) by { assert(m_at(st, i).contains(t)); }
            if r_at(s2, i) == 0 { assert(d =~= Multiset::empty()); assert(m_at(s2, i) =~= m_at(st, i)); }
        }
    }
}
pub proof fn lemma_taken_seen<T: RTreeObject, F: SelectionFunction<T>>(st: Seq<Fr<T>>, s2: Seq<Fr<T>>, f: F, h: int)
    requires taken(st, s2), fr_wf(st, h), seen_ok(st, f), sel_of(s_elems(st.last().0.children@.take(s2[st.len() - 1].1 as int)), f) == Multiset::<T>::empty()
    ensures seen_ok(s2, f)
{
    let k = st.len() - 1;
    let i = s2[k].1 as int;
    assert(fr_at(st, k, h));
    lemma_swap_rm(st[k].0.children@, i, i, h - k - 1);
    assert forall|j: int| 0 <= j < s2.len() implies fr_seen(#[trigger] s2[j], f) by {
        if j < k { assert(fr_seen(st[j], f)); }
        else if j == k { assert(s2[k].0.children@.take(i) == st[k].0.children@.take(i)); }
        else { assert(s2[j].0.children@.take(0) =~= Seq::empty()); assert(sel_of(Multiset::<T>::empty(), f) =~= Multiset::empty()); }
    }
}
pub proof fn lemma_taken_below<T: RTreeObject>(a: Seq<Fr<T>>, b: Seq<Fr<T>>, k: int, i: int, d: Multiset<T>)
    requires 0 <= i <= k, k < a.len(), k < b.len(), forall|j: int| 0 <= j < k ==> #[trigger] b[j] == a[j],
        m_at(a, k) == m_at(b, k).add(d), r_at(b, k) == r_at(a, k) + d.len(), u_at(b, k) < u_at(a, k)
    ensures m_at(a, i) == m_at(b, i).add(d), r_at(b, i) == r_at(a, i) + d.len(), u_at(b, i) < u_at(a, i)
    decreases k - i
{
    if i < k { lemma_taken_below(a, b, k, i + 1, d); assert(a[i] == b[i]); assert(m_at(a, i) =~= m_at(b, i).add(d)); }
}
%item struct IntoIter
%item impl IntoIter::new
%ret r
%sig
    ensures r.node_stack@ == seq![RTreeNode::Parent(root)]
%item impl Iterator for IntoIter
%opt inherent
%item impl Iterator for IntoIter::next
%ret r
%sig
    ensures match r {
        Some(t) => s_elems(old(self).node_stack@) == s_elems(final(self).node_stack@).insert(t),
        None => s_elems(old(self).node_stack@) == Multiset::<T>::empty() && final(self).node_stack@.len() == 0,
    }
%at beforeloop 0
    let ghost mut vx_prev = self.node_stack@;
%at loopend 0
    proof { vx_prev = self.node_stack@; }
%loop 0
    invariant vx_prev == self.node_stack@, s_elems(self.node_stack@) == s_elems(old(self).node_stack@),
    ensures self.node_stack@.len() == 0,
    decreases s_count(self.node_stack@)
%at loopstart 0
    let ghost vx_n = node;
    proof {
        assert(vx_prev.drop_last() =~= self.node_stack@);
        assert(vx_prev.last() == vx_n);
        let s = self.node_stack@;
        assert(s_elems(vx_prev) == n_elems(vx_n).add(s_elems(s)));
        if let RTreeNode::Parent(p) = vx_n { lemma_s_add(s, p.children@); lemma_count_add(s, p.children@); assert(s_elems(s + p.children@) =~= s_elems(vx_prev)); assert(s_count(vx_prev) == n_count(vx_n) + s_count(s)); }
        if let RTreeNode::Leaf(x) = vx_n { assert(s_elems(vx_prev) =~= s_elems(s).insert(x)); }
    }
%item struct DrainIterator
%item impl DrainIterator::new
%ret r
%sig
    requires t_wf(*old(rtree))
    ensures dr_wf(r), r.removal_function == removal_function, *final(r.rtree) == *final(rtree),
        r.node_stack@.len() > 0, dr_all(r) == p_elems(old(rtree).root)
%at tail
    proof {
        let st = vx_r.node_stack@;
        let h = p_height(st[0].0);
        assert(m_at(st, 1) == Multiset::<T>::empty() && r_at(st, 1) == 0);
        assert(m_at(st, 0) =~= p_elems(st[0].0));
        T::Envelope::laws();
        assert(st[0].0.envelope.le(&st[0].0.envelope));
        assert(fr_at(st, 0, h));
        assert(fr_wf(st, h));
        assert(sel_of(Multiset::<T>::empty(), vx_r.removal_function) =~= Multiset::empty());
        assert(st[0].0.children@.take(0) =~= Seq::empty());
        assert(fr_seen(st[0], vx_r.removal_function));
        assert(p_elems(vx_r.rtree.root) =~= Multiset::empty());
    }
%item impl DrainIterator::pop_node
%ret r
%sig
    requires old(self).node_stack@.len() > 0, r_at(old(self).node_stack@, 0) <= usize::MAX, st_wf(old(self).node_stack@),
        increment_idx && coherent::<T, R>(old(self).removal_function) ==> seen_ok(old(self).node_stack@, old(self).removal_function)
            && sel_of(p_elems(old(self).node_stack@.last().0), old(self).removal_function) == Multiset::<T>::empty()
    ensures final(self).rtree == old(self).rtree, final(self).removal_function == old(self).removal_function, final(self).original_size == old(self).original_size,
        final(self).node_stack@.len() == old(self).node_stack@.len() - 1,
        match r {
            Some((node, n)) => final(self).node_stack@.len() == 0 && old(self).node_stack@.len() == 1 && p_wf(node, p_height(node)) && p_elems(node) =~= m_at(old(self).node_stack@, 0) && n == r_at(old(self).node_stack@, 0),
            None => {
                &&& final(self).node_stack@.len() > 0
                &&& st_wf(final(self).node_stack@)
                &&& m_at(final(self).node_stack@, 0) == m_at(old(self).node_stack@, 0)
                &&& r_at(final(self).node_stack@, 0) == r_at(old(self).node_stack@, 0)
                &&& increment_idx && coherent::<T, R>(old(self).removal_function) ==> seen_ok(final(self).node_stack@, old(self).removal_function)
                &&& increment_idx ==> u_at(final(self).node_stack@, 0) <= u_at(old(self).node_stack@, 0)
            },
        }
%at start
    broadcast use crate::vx::node_vec_len;
    let ghost st = self.node_stack@;
    proof {
        let h = choose|h: int| #[trigger] fr_wf(st, h);
        let k = st.len() - 1;
        assert(fr_at(st, k, h));
        lemma_s_ok(st[k].0.children@, h - k - 1);
        lemma_r_mono(st, k);
        if k > 0 { lemma_r_mono(st, k - 1); assert(fr_at(st, k - 1, h)); }
        assert(r_at(st, k + 1) == 0);
        assert forall|q: ParentNode<T>| #![trigger p_height(q)] #![trigger p_elems(q)] q.children@ == st.last().0.children@ && put_env(st.last(), q.envelope) implies
            p_wf(q, p_height(q)) && p_elems(q) == m_at(st, k) && st.last().2 == r_at(st, k) by { lemma_closed(st, h, q); }
        assert forall|s2: Seq<Fr<T>>| #![trigger m_at(s2, 0)] #![trigger r_at(s2, 0)] #![trigger u_at(s2, 0)] #![trigger st_wf(s2)] #![trigger seen_ok(s2, self.removal_function)] popped(st, s2, increment_idx) implies
            st_wf(s2) && m_at(s2, 0) == m_at(st, 0) && r_at(s2, 0) == r_at(st, 0) && fr_wf(s2, h)
            && (increment_idx && coherent::<T, R>(self.removal_function) ==> seen_ok(s2, self.removal_function))
            && (increment_idx ==> u_at(s2, 0) <= u_at(st, 0)) by {
            lemma_popped(st, s2, increment_idx, h);
            if increment_idx && coherent::<T, R>(self.removal_function) { lemma_popped_seen(st, s2, self.removal_function); }
        }
    }
%item impl Iterator for DrainIterator
%opt inherent
%item impl Iterator for DrainIterator::next
%attr #[verifier::loop_isolation(false)]
%ret r
%sig
    requires dr_wf(*old(self))
    ensures dr_wf(*final(self)), final(self).removal_function == old(self).removal_function, *final(final(self).rtree) == *final(old(self).rtree),
        match r {
            Some(t) => final(self).node_stack@.len() > 0 && old(self).removal_function.sel_leaf(&t) && dr_all(*old(self)) == dr_all(*final(self)).insert(t),
            None => final(self).node_stack@.len() == 0 && dr_all(*old(self)) == dr_all(*final(self)),
        }
%loop 0
    invariant dr_wf(*self), dr_all(*self) == dr_all(*old(self)), self.removal_function == old(self).removal_function, *final(self.rtree) == *final(old(self).rtree),
    decreases u_at(self.node_stack@, 0), self.node_stack@.len()
%at loopstart 0
    let ghost st = self.node_stack@;
    let ghost f = self.removal_function;
    let ghost k = st.len() - 1;
    let ghost h = choose|h: int| #[trigger] fr_wf(st, h);
    proof {
        if st.len() > 0 {
            assert(fr_at(st, k, h));
            assert(fr_seen(st[k], f) || !coherent::<T, R>(f));
            lemma_s_all_ok(st[k].0.children@, h - k - 1);
            assert(m_at(st, k + 1) == Multiset::<T>::empty() && r_at(st, k + 1) == 0);
            assert(m_at(st, k) =~= p_elems(st[k].0));
            if coherent::<T, R>(f) && (st[k].0.children@.len() == 0 || !f.sel_parent(&st[k].0.envelope)) {
                assert forall|t: T| #[trigger] p_elems(st[k].0).contains(t) implies !f.sel_leaf(&t) by {
                    assert(s_elems(st[k].0.children@).contains(t));
                    assert(m_at(st, k).contains(t));
                    assert(obj_ok(t));
                    assert(st[k].0.children@.len() > 0);
                    assert(t.env().le(&st[k].0.envelope));
                }
                assert forall|t: T| #[trigger] sel_of(p_elems(st[k].0), f).count(t) == 0 by { if f.sel_leaf(&t) { assert(!p_elems(st[k].0).contains(t)); } }
                assert(sel_of(p_elems(st[k].0), f) =~= Multiset::<T>::empty());
            }
            lemma_r_mono(st, k); lemma_m_mono(st, k);
            assert forall|s1: Seq<Fr<T>>| #![trigger m_at(s1, 0)] #![trigger r_at(s1, 0)] #![trigger st_wf(s1)] moved(st, s1) implies st_wf(s1) && fr_wf(s1, h) && m_at(s1, 0) == m_at(st, 0) && r_at(s1, 0) == r_at(st, 0) && u_at(s1, 0) <= u_at(st, 0) by { lemma_moved(st, s1, h); }
            assert forall|s2: Seq<Fr<T>>| #![trigger m_at(s2, 0)] #![trigger r_at(s2, 0)] #![trigger st_wf(s2)] taken(st, s2) implies st_wf(s2) && fr_wf(s2, h) && u_at(s2, 0) < u_at(st, 0) && ({
                let d = n_leaf(st[k].0.children@[s2[k].1 as int]);
                m_at(st, 0) == m_at(s2, 0).add(d) && r_at(s2, 0) == r_at(st, 0) + d.len()
            }) && (coherent::<T, R>(f) && sel_of(s_elems(st[k].0.children@.take(s2[k].1 as int)), f) == Multiset::<T>::empty() ==> seen_ok(s2, f)) by {
                lemma_taken(st, s2, h);
                if coherent::<T, R>(f) && sel_of(s_elems(st[k].0.children@.take(s2[k].1 as int)), f) == Multiset::<T>::empty() { lemma_taken_seen(st, s2, f, h); }
            }
        }
    }
%at beforeloop 1
    let ghost (g_node, g_idx, g_rc) = (node, idx, remove_count);
    let ghost g = after_borrow(*self);
%loop 1
    invariant st.len() > 0, *node == st[k].0, *remove_count == st[k].2, st[k].1 <= *idx <= node.children@.len(),
        after_borrow(*self) == g, *final(node) == *final(g_node), *final(idx) == *final(g_idx), *final(remove_count) == *final(g_rc),
        coherent::<T, R>(f) ==> sel_of(s_elems(node.children@.take(*idx as int)), f) == Multiset::<T>::empty(),
    decreases node.children@.len() - *idx
%at loopstart 1
    let ghost i0 = *idx as int;
    proof {
        let s = st[k].0.children@;
        assert(s.take(i0 + 1) =~= s.take(i0).push(s[i0]));
        lemma_s_push(s.take(i0), s[i0]);
        lemma_sel_add(s_elems(s.take(i0)), n_elems(s[i0]), f);
        if let RTreeNode::Leaf(t) = s[i0] {
            lemma_sel_one(t, f);
            assert(Multiset::<T>::empty().add(Multiset::empty()) =~= Multiset::<T>::empty());
            assert(s_elems(s).contains(t)) by { lemma_s_contains(s, t); assert(n_elems(s[i0]).contains(t)); }
            assert(s_elems(s).len() > 0);
        }
    }
%at afterloop 1
    proof { assert(node.children@.take(node.children@.len() as int) =~= node.children@); }
%item impl Drop for DrainIterator
%opt inherent
%item impl Drop for DrainIterator::drop
%free drain_drop
%ret r
%sig
    requires dr_wf(*old(vx_self))
    ensures t_wf(*final(vx_self).rtree), p_elems(final(vx_self).rtree.root) == dr_all(*old(vx_self)),
        *final(final(vx_self).rtree) == *final(old(vx_self).rtree),
%loop 0
    invariant_except_break vx_self.node_stack@.len() > 0, st_wf(vx_self.node_stack@),
        m_at(vx_self.node_stack@, 0) == dr_all(*old(vx_self)),
        vx_self.original_size == m_at(vx_self.node_stack@, 0).len() + r_at(vx_self.node_stack@, 0),
    invariant *final(vx_self.rtree) == *final(old(vx_self).rtree),
    ensures t_wf(*vx_self.rtree), p_elems(vx_self.rtree.root) == dr_all(*old(vx_self)), *final(vx_self.rtree) == *final(old(vx_self).rtree),
    decreases vx_self.node_stack@.len()
