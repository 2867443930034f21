%file algorithm/rstar.rs
%module algorithm::rstar
%prelude
broadcast use {crate::num_axioms::num_laws, crate::vx::node_vec_len};

// what an insertion step did: m is everything that was in the node or was to be inserted,
// h the node's height, cur its depth
// squared distance of an envelope's center to c, over n coordinates
pub open spec fn ctr_d2<T: RTreeObject>(e: T::Envelope, c: <T::Envelope as Envelope>::Point, n: int) -> real
    decreases n
{
    if n <= 0 { 0real } else { (e.ctr(n - 1) - c.c(n - 1).v()) * (e.ctr(n - 1) - c.c(n - 1).v()) + ctr_d2::<T>(e, c, n - 1) }
}
pub broadcast proof fn lemma_ctr_d2<T: RTreeObject>(e: T::Envelope, c: <T::Envelope as Envelope>::Point, p: <T::Envelope as Envelope>::Point, n: int)
    requires 0 <= n, forall|i: int| 0 <= i < n ==> (#[trigger] p.c(i)).v() == e.ctr(i) - c.c(i).v()
    ensures #![trigger sumsq(p, n), ctr_d2::<T>(e, c, n)] sumsq(p, n) == ctr_d2::<T>(e, c, n)
    decreases n
{
    if n > 0 { lemma_ctr_d2::<T>(e, c, p, n - 1); assert(p.c(n - 1).v() == e.ctr(n - 1) - c.c(n - 1).v()); }
}
pub open spec fn ins_result<T: RTreeObject>(m: Multiset<T>, fin: ParentNode<T>, r: InsertionResult<T>, cur: int, h: int) -> bool {
    &&& p_wf(fin, h)
    &&& fin.children@.len() > 0
    &&& match r {
        InsertionResult::Complete => p_elems(fin) == m,
        InsertionResult::Split(off) => n_wf(off, h) && p_elems(fin).add(n_elems(off)) == m,
        InsertionResult::Reinsert(v, d) => cur <= d < cur + h && s_wf(v@, h - (d - cur) - 1) && p_elems(fin).add(s_elems(v@)) == m,
    }
}
// the same for fill bounds
pub open spec fn ins_fill<T: RTreeObject, P: RTreeParams>(fin: ParentNode<T>, r: InsertionResult<T>) -> bool {
    &&& p_fill::<T, P>(fin)
    &&& match r {
        InsertionResult::Complete => true,
        InsertionResult::Split(off) => n_fill::<T, P>(off) && fin.children@.len() >= P::MIN_SIZE,
        InsertionResult::Reinsert(v, d) => s_fill::<T, P>(v@),
    }
}
pub proof fn lemma_tight_same<T: RTreeObject>(e: T::Envelope, a: Multiset<T>, b: Multiset<T>)
    requires tight(e, a), forall|t: T| #[trigger] b.contains(t) <==> a.contains(t)
    ensures tight(e, b)
{
    assert forall|u: T::Envelope| u.ok() implies (#[trigger] e.le(&u) <==> (forall|t: T| #[trigger] b.contains(t) ==> t.env().le(&u))) by {
        if forall|t: T| #[trigger] b.contains(t) ==> t.env().le(&u) {
            assert forall|t: T| #[trigger] a.contains(t) implies t.env().le(&u) by { assert(b.contains(t)); }
        }
    }
}
pub proof fn lemma_ok_perm<T: RTreeObject>(a: Seq<RTreeNode<T>>, b: Seq<RTreeNode<T>>)
    requires a.to_multiset() == b.to_multiset(), forall|i: int| 0 <= i < a.len() ==> n_env(#[trigger] a[i]).ok()
    ensures a.len() == b.len(), forall|i: int| 0 <= i < b.len() ==> n_env(#[trigger] b[i]).ok()
{
    lemma_s_perm(a, b);
    assert forall|i: int| 0 <= i < b.len() implies n_env(#[trigger] b[i]).ok() by { assert(a.contains(b[i])); }
}
// cutting a node's children in two
pub proof fn lemma_cut<T: RTreeObject, P: RTreeParams>(s: Seq<RTreeNode<T>>, k: int, h: int)
    requires 0 <= k <= s.len(), s_wf(s, h)
    ensures s_wf(s.take(k), h), s_wf(s.skip(k), h), s_elems(s.take(k)).add(s_elems(s.skip(k))) == s_elems(s),
        s_fill::<T, P>(s) ==> s_fill::<T, P>(s.take(k)) && s_fill::<T, P>(s.skip(k)),
{
    lemma_s_split(s, k);
    assert forall|i: int| 0 <= i < s.take(k).len() implies n_wf(#[trigger] s.take(k)[i], h) by { assert(n_wf(s[i], h)) }
    assert forall|i: int| 0 <= i < s.skip(k).len() implies n_wf(#[trigger] s.skip(k)[i], h) by { assert(n_wf(s[i + k], h)) }
    if s_fill::<T, P>(s) {
        assert forall|i: int| 0 <= i < s.take(k).len() implies n_fill::<T, P>(#[trigger] s.take(k)[i]) by { assert(n_fill::<T, P>(s[i])) }
        assert forall|i: int| 0 <= i < s.skip(k).len() implies n_fill::<T, P>(#[trigger] s.skip(k)[i]) by { assert(n_fill::<T, P>(s[i + k])) }
    }
}
pub open spec fn act_elems<T: RTreeObject>(a: InsertionAction<T>) -> Multiset<T> {
    match a { InsertionAction::PerformSplit(n) => n_elems(n), InsertionAction::PerformReinsert(n) => n_elems(n) }
}
pub open spec fn acts_elems<T: RTreeObject>(s: Seq<InsertionAction<T>>) -> Multiset<T>
    decreases s.len()
{
    if s.len() == 0 { Multiset::empty() } else { act_elems(s.last()).add(acts_elems(s.drop_last())) }
}
pub open spec fn acts_cost<T: RTreeObject>(s: Seq<InsertionAction<T>>) -> nat
    decreases s.len()
{
    if s.len() == 0 { 0 } else { acts_cost(s.drop_last()) + if s.last() is PerformSplit { 1nat } else { 2nat } }
}
// pending work: reinsertions at one height; a pending root split can only be on top
pub open spec fn acts_wf<T: RTreeObject>(s: Seq<InsertionAction<T>>, h: int, target: int) -> bool {
    forall|i: int| 0 <= i < s.len() ==> match #[trigger] s[i] {
        InsertionAction::PerformSplit(n) => i == s.len() - 1 && n_wf(n, h),
        InsertionAction::PerformReinsert(n) => n_wf(n, h - target - 1),
    }
}
pub open spec fn acts_fill<T: RTreeObject, P: RTreeParams>(s: Seq<InsertionAction<T>>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> match #[trigger] s[i] {
        InsertionAction::PerformSplit(n) => n_fill::<T, P>(n),
        InsertionAction::PerformReinsert(n) => n_fill::<T, P>(n),
    }
}
pub proof fn lemma_acts_map<T: RTreeObject>(v: Seq<RTreeNode<T>>, s: Seq<InsertionAction<T>>)
    requires v.len() == s.len(), forall|i: int| 0 <= i < v.len() ==> #[trigger] s[i] == InsertionAction::PerformReinsert(v[i])
    ensures acts_elems(s) == s_elems(v)
    decreases v.len()
{
    if v.len() > 0 {
        lemma_acts_map(v.drop_last(), s.drop_last());
    }
}
pub proof fn lemma_acts_push<T: RTreeObject>(s: Seq<InsertionAction<T>>, a: InsertionAction<T>)
    ensures acts_elems(s.push(a)) == acts_elems(s).add(act_elems(a)),
        acts_cost(s.push(a)) == acts_cost(s) + if a is PerformSplit { 1nat } else { 2nat },
{
    assert(s.push(a).drop_last() =~= s);
    assert(acts_elems(s.push(a)) =~= acts_elems(s).add(act_elems(a)));
}
// a permutation of the children of a node leaves the invariant alone
pub proof fn lemma_p_perm<T: RTreeObject, P: RTreeParams>(p: ParentNode<T>, q: ParentNode<T>)
    requires p.children@.to_multiset() == q.children@.to_multiset(), p.envelope == q.envelope
    ensures p.children@.len() == q.children@.len(), p_elems(p) == p_elems(q),
        forall|h: int| #[trigger] s_wf(p.children@, h) ==> s_wf(q.children@, h),
        s_fill::<T, P>(p.children@) ==> s_fill::<T, P>(q.children@),
        forall|h: int| #[trigger] p_wf(p, h) ==> p_wf(q, h),
{
    lemma_s_perm(p.children@, q.children@);
    assert forall|h: int| #[trigger] s_wf(p.children@, h) implies s_wf(q.children@, h) by {
        assert forall|i: int| 0 <= i < q.children@.len() implies n_wf(#[trigger] q.children@[i], h) by {
            assert(p.children@.contains(q.children@[i]));
        }
    }
    if s_fill::<T, P>(p.children@) {
        assert forall|i: int| 0 <= i < q.children@.len() implies n_fill::<T, P>(#[trigger] q.children@[i]) by {
            assert(p.children@.contains(q.children@[i]));
        }
    }
    assert forall|h: int| #[trigger] p_wf(p, h) implies p_wf(q, h) by {
        assert(s_wf(p.children@, h - 1));
        assert(s_wf(q.children@, h - 1));
    }
}
// t was added to p's children (and to its envelope)
pub proof fn lemma_pushed<T: RTreeObject, P: RTreeParams>(p: ParentNode<T>, q: ParentNode<T>, t: RTreeNode<T>, h: int)
    requires p_wf(p, h), n_wf(t, h - 1), q.children@ == p.children@.push(t), tight(q.envelope, p_elems(p).add(n_elems(t)))
    ensures p_wf(q, h), p_height(q) == h, p_elems(q) == p_elems(p).add(n_elems(t)),
        s_fill::<T, P>(p.children@) && n_fill::<T, P>(t) ==> s_fill::<T, P>(q.children@),
{
    lemma_s_push(p.children@, t);
    assert forall|i: int| 0 <= i < q.children@.len() implies n_wf(#[trigger] q.children@[i], h - 1) by {
        if i < p.children@.len() { assert(n_wf(p.children@[i], h - 1)); }
    }
    assert(p_wf(q, h));
    lemma_p_height(q, h);
    if s_fill::<T, P>(p.children@) && n_fill::<T, P>(t) {
        assert forall|i: int| 0 <= i < q.children@.len() implies n_fill::<T, P>(#[trigger] q.children@[i]) by {
            if i < p.children@.len() { assert(n_fill::<T, P>(p.children@[i])); }
        }
    }
}
// child k of p was replaced by f, and the elements x went in or out: m are all of them
pub proof fn lemma_stepped<T: RTreeObject, P: RTreeParams>(p: ParentNode<T>, q: ParentNode<T>, k: int, f: RTreeNode<T>, h: int)
    requires p_wf(p, h), 0 <= k < p.children@.len(), n_wf(f, h - 1), q.children@ == p.children@.update(k, f)
    ensures s_wf(q.children@, h - 1),
        s_elems(q.children@).add(n_elems(p.children@[k])) == p_elems(p).add(n_elems(f)),
        s_fill::<T, P>(p.children@) && n_fill::<T, P>(f) ==> s_fill::<T, P>(q.children@),
{
    lemma_s_update(p.children@, k, f);
    assert forall|i: int| 0 <= i < q.children@.len() implies n_wf(#[trigger] q.children@[i], h - 1) by {
        if i != k { assert(n_wf(p.children@[i], h - 1)); }
    }
    if s_fill::<T, P>(p.children@) && n_fill::<T, P>(f) {
        assert forall|i: int| 0 <= i < q.children@.len() implies n_fill::<T, P>(#[trigger] q.children@[i]) by {
            if i != k { assert(n_fill::<T, P>(p.children@[i])); }
        }
    }
}
pub proof fn lemma_cancel<A>(a: Multiset<A>, b: Multiset<A>, c: Multiset<A>)
    requires a.add(c) == b.add(c)
    ensures a == b
{
    assert forall|x: A| #[trigger] a.count(x) == b.count(x) by {
        assert(a.add(c).count(x) == a.count(x) + c.count(x));
        assert(b.add(c).count(x) == b.count(x) + c.count(x));
    }
    assert(a =~= b);
}
pub proof fn lemma_swap<A>(a: Multiset<A>, x: Multiset<A>, b: Multiset<A>, n: Multiset<A>, s: Multiset<A>)
    requires a.add(x) == b.add(n)
    ensures a.add(s.add(x)) == b.add(s.add(n))
{
    assert(a.add(s.add(x)) =~= a.add(x).add(s));
    assert(b.add(s.add(n)) =~= b.add(n).add(s));
}
// child k became f and x more elements are left over: nothing was lost
pub proof fn lemma_sums<A>(q: Multiset<A>, f0: Multiset<A>, f1: Multiset<A>, p0: Multiset<A>, x: Multiset<A>, t: Multiset<A>)
    requires q.add(f0) == p0.add(f1), f1.add(x) == f0.add(t)
    ensures q.add(x) == p0.add(t)
{
    assert(q.add(x).add(f0) =~= q.add(f0).add(x));
    assert(q.add(f0).add(x) =~= p0.add(f1.add(x)));
    assert(p0.add(f0.add(t)) =~= p0.add(t).add(f0));
    lemma_cancel(q.add(x), p0.add(t), f0);
}
// child k of p became f, and c was split off it and pushed
pub proof fn lemma_split_step<T: RTreeObject, P: RTreeParams>(p: ParentNode<T>, q: ParentNode<T>, k: int, f: RTreeNode<T>, c: RTreeNode<T>, t: RTreeNode<T>, e: T::Envelope, h: int)
    requires p_wf(p, h), 0 <= k < p.children@.len(), n_wf(f, h - 1), n_wf(c, h - 1),
        q.children@ == p.children@.update(k, f).push(c),
        n_elems(f).add(n_elems(c)) == n_elems(p.children@[k]).add(n_elems(t)),
        tight(e, p_elems(p).add(n_elems(t))), joins(q.envelope, e, n_env(c)),
    ensures p_wf(q, h), p_height(q) == h, p_elems(q) == p_elems(p).add(n_elems(t)),
        s_fill::<T, P>(p.children@) && n_fill::<T, P>(f) && n_fill::<T, P>(c) ==> s_fill::<T, P>(q.children@),
{
    let s = p.children@.update(k, f);
    let m = p_elems(p).add(n_elems(t));
    lemma_s_update(p.children@, k, f);
    lemma_s_push(s, c);
    lemma_sums(s_elems(s), n_elems(p.children@[k]), n_elems(f), p_elems(p), n_elems(c), n_elems(t));
    assert(p_elems(q) == m);
    lemma_n_tight(c, h - 1);
    lemma_tight_merge(q.envelope, e, m, n_env(c), n_elems(c));
    assert forall|x: T| #[trigger] m.contains(x) <==> m.add(n_elems(c)).contains(x) by {
        assert(m == s_elems(s).add(n_elems(c)));
    }
    lemma_tight_same(q.envelope, m.add(n_elems(c)), m);
    assert forall|i: int| 0 <= i < q.children@.len() implies n_wf(#[trigger] q.children@[i], h - 1) by {
        if i < p.children@.len() && i != k { assert(n_wf(p.children@[i], h - 1)); }
    }
    assert(p_wf(q, h));
    lemma_p_height(q, h);
    if s_fill::<T, P>(p.children@) && n_fill::<T, P>(f) && n_fill::<T, P>(c) {
        assert forall|i: int| 0 <= i < q.children@.len() implies n_fill::<T, P>(#[trigger] q.children@[i]) by {
            if i < p.children@.len() && i != k { assert(n_fill::<T, P>(p.children@[i])); }
        }
    }
}
// child k of p became f and took in t, apart from x
pub proof fn lemma_kept_step<T: RTreeObject, P: RTreeParams>(p: ParentNode<T>, q: ParentNode<T>, k: int, f: RTreeNode<T>, x: Multiset<T>, t: RTreeNode<T>, h: int)
    requires p_wf(p, h), 0 <= k < p.children@.len(), n_wf(f, h - 1),
        q.children@ == p.children@.update(k, f),
        n_elems(f).add(x) == n_elems(p.children@[k]).add(n_elems(t)),
    ensures s_wf(q.children@, h - 1), p_elems(q).add(x) == p_elems(p).add(n_elems(t)),
        tight(q.envelope, p_elems(q)) ==> p_wf(q, h),
        s_fill::<T, P>(p.children@) && n_fill::<T, P>(f) ==> s_fill::<T, P>(q.children@),
{
    lemma_stepped::<T, P>(p, q, k, f, h);
    lemma_sums(s_elems(q.children@), n_elems(p.children@[k]), n_elems(f), p_elems(p), x, n_elems(t));
}
%item enum RStarInsertionStrategy
%drop empty marker enum; its insert is extracted as a free function
%item enum InsertionResult
%item enum InsertionAction
%item impl InsertionStrategy for RStarInsertionStrategy
%opt inherent
%item impl InsertionStrategy for RStarInsertionStrategy::insert
%free rstar_insert
%props C01 C02 C03
%sig
    requires
        params_ok::<Params>(), obj_ok(t),
        p_wf(old(tree).root, p_height(old(tree).root)),
    ensures
        final(tree).size == old(tree).size,
        p_wf(final(tree).root, p_height(final(tree).root)),
        p_elems(final(tree).root) == p_elems(old(tree).root).insert(t),
        p_fill::<T, Params>(old(tree).root) ==> p_fill::<T, Params>(final(tree).root),
%closure 0 |vx_a: RTreeNode<T>| -> (r: InsertionAction<T>)
    ensures r == InsertionAction::PerformReinsert($0)
%at start
    let ghost root0 = tree.root;
    let ghost m = p_elems(tree.root).insert(t);
    let ghost mut h = p_height(tree.root);
    proof {
        mem_bound(tree.root);
        assert(p_elems(tree.root).add(n_elems(RTreeNode::Leaf(t))) =~= m);
    }
%at arm Split
    proof {
        lemma_acts_push(Seq::<InsertionAction<T>>::empty(), InsertionAction::PerformSplit(node));
    }
%at after extend
    proof {
        lemma_acts_map(nodes_to_reinsert@, insertion_stack@);
    }
%at beforeloop 0
    proof {
        assert(p_elems(tree.root).add(acts_elems(insertion_stack@)) =~= m);
    }
%loop 0
    invariant
        params_ok::<Params>(),
        tree.size == old(tree).size,
        p_wf(tree.root, h), tree.root.children@.len() > 0,
        acts_wf(insertion_stack@, h, target_height as int),
        target_height < h,
        p_elems(tree.root).add(acts_elems(insertion_stack@)) == m,
        p_fill::<T, Params>(root0) ==> p_fill::<T, Params>(tree.root) && acts_fill::<T, Params>(insertion_stack@)
            && (forall|i: int| 0 <= i < insertion_stack@.len() ==> #[trigger] insertion_stack@[i] is PerformSplit ==> tree.root.children@.len() >= Params::MIN_SIZE),
    ensures
        insertion_stack@.len() == 0,
    decreases acts_cost(insertion_stack@),
%at loopstart 0
    let ghost stack0 = insertion_stack@;
    let ghost root1 = tree.root;
    let ghost nx = next;
    let ghost stack1 = insertion_stack@.push(next);
    proof {
        lemma_p_height(tree.root, h);
        mem_bound(tree.root);
        lemma_acts_push(insertion_stack@, next);
        assert(stack1.last() == next);
        assert forall|i: int| 0 <= i < stack0.len() implies #[trigger] stack0[i] == stack1[i] && stack0[i] is PerformReinsert by { assert(stack1[i] == stack0[i]); }
    }
%at loopend 0
    proof {
        if nx is PerformSplit {
            let nr = tree.root;
            let nd = nx->PerformSplit_0;
            lemma_s_push(Seq::<RTreeNode<T>>::empty(), RTreeNode::Parent(root1));
            lemma_s_push(seq![RTreeNode::Parent(root1)], nd);
            assert(nr.children@ =~= seq![RTreeNode::Parent(root1), nd]);
            assert(Seq::<RTreeNode<T>>::empty().push(RTreeNode::Parent(root1)) =~= seq![RTreeNode::Parent(root1)]);
            assert(seq![RTreeNode::Parent(root1)].push(nd) =~= nr.children@);
            lemma_n_tight(nd, h);
            lemma_tight_merge(nr.envelope, root1.envelope, p_elems(root1), nd.env(), n_elems(nd));
            assert(p_elems(nr) =~= p_elems(root1).add(n_elems(nd)));
            h = h + 1;
            lemma_p_height(nr, h);
            mem_bound(nr);
            assert(p_elems(nr).add(acts_elems(insertion_stack@)) =~= m);
        }
        if nx is PerformReinsert && insertion_stack@.len() > stack0.len() {
            let a = insertion_stack@.last();
            assert(insertion_stack@ =~= stack0.push(a));
            lemma_acts_push(stack0, a);
            assert(acts_elems(insertion_stack@) == acts_elems(stack0).add(act_elems(a)));
        }
        if nx is PerformReinsert {
            let n = nx->PerformReinsert_0;
            assert(acts_elems(stack1) == acts_elems(stack0).add(n_elems(n)));
            assert(p_elems(root1).add(acts_elems(stack1)) == m);
            if insertion_stack@.len() > stack0.len() {
                assert(p_elems(tree.root).add(act_elems(insertion_stack@.last())) == p_elems(root1).add(n_elems(n)));
                lemma_swap(p_elems(tree.root), act_elems(insertion_stack@.last()), p_elems(root1), n_elems(n), acts_elems(stack0));
            } else {
                assert(insertion_stack@ =~= stack0);
                assert(p_elems(tree.root) == p_elems(root1).add(n_elems(n)));
                assert(p_elems(root1).add(acts_elems(stack0).add(n_elems(n))) =~= p_elems(root1).add(n_elems(n)).add(acts_elems(stack0)));
            }
        }
        assert(p_elems(tree.root).add(acts_elems(insertion_stack@)) =~= m);
    }
%at end
    proof {
        lemma_p_height(tree.root, h);
        assert(p_elems(tree.root) =~= p_elems(tree.root).add(acts_elems(insertion_stack@)));
    }
%item fn forced_insertion
%ret r
%sig
    requires
        params_ok::<Params>(),
        p_wf(*old(node), p_height(*old(node))), target_height < p_height(*old(node)),
        n_wf(t, p_height(*old(node)) - target_height - 1),
    ensures
        !(r is Reinsert),
        ins_result(p_elems(*old(node)).add(n_elems(t)), *final(node), r, 0, p_height(*old(node))),
        p_fill::<T, Params>(*old(node)) && n_fill::<T, Params>(t) ==> ins_fill::<T, Params>(*final(node), r),
        p_fill::<T, Params>(*old(node)) && n_fill::<T, Params>(t) && old(node).children@.len() >= Params::MIN_SIZE ==> final(node).children@.len() >= Params::MIN_SIZE,
    decreases p_height(*old(node))
%at start
    let ghost h = p_height(*old(node));
    let ghost p0 = *node;
    let ghost m = p_elems(*old(node)).add(n_elems(t));
    let ghost t0 = t;
    proof {
        lemma_n_tight(t, h - target_height - 1);
        lemma_s_ok(node.children@, h - 1);
        mem_bound(*node);
        if node.children@.len() > 0 { assert(n_wf(node.children@[0], h - 1)); }
    }
%at after merge 0
    proof {
        lemma_tight_merge(node.envelope, p0.envelope, p_elems(p0), n_env(t), n_elems(t));
    }
%at after push 0
    proof {
        lemma_pushed::<T, Params>(p0, *node, t, h);
    }
%at before forced_insertion
    let ghost f0 = *follow;
    let ghost ei = expand_index as int;
    proof {
        lemma_p_height(f0, h - 1);
        if p_fill::<T, Params>(p0) { assert(n_fill::<T, Params>(p0.children@[ei])); }
        assert(n_wf(p0.children@[ei], h - 1));
    }
%at arm Split
    let ghost f1 = node.children@[expand_index as int]->Parent_0;
    let ghost e1 = node.envelope;
    proof {
        assert(node.children@ =~= p0.children@.update(expand_index as int, RTreeNode::Parent(f1)));
        assert(n_elems(p0.children@[expand_index as int]) == p_elems(p0.children@[expand_index as int]->Parent_0));
        lemma_n_tight(child, h - 1);
    }
%at after push 1
    proof { lemma_split_step::<T, Params>(p0, *node, expand_index as int, RTreeNode::Parent(f1), child, t0, e1, h); }
%at arm *
    proof {
        let f1 = node.children@[expand_index as int]->Parent_0;
        assert(node.children@ =~= p0.children@.update(expand_index as int, RTreeNode::Parent(f1)));
        assert(n_elems(p0.children@[expand_index as int]) == p_elems(p0.children@[expand_index as int]->Parent_0));
        assert(p_elems(f1).add(Multiset::empty()) =~= p_elems(f1));
        lemma_kept_step::<T, Params>(p0, *node, expand_index as int, RTreeNode::Parent(f1), Multiset::empty(), t0, h);
        assert(p_elems(*node).add(Multiset::empty()) =~= p_elems(*node));
    }
%item fn recursive_insert
%ret r
%sig
    requires
        params_ok::<Params>(),
        p_wf(*old(node), p_height(*old(node))), current_height + p_height(*old(node)) <= usize::MAX,
        n_wf(t, 0),
    ensures
        ins_result(p_elems(*old(node)).add(n_elems(t)), *final(node), r, current_height as int, p_height(*old(node))),
        p_fill::<T, Params>(*old(node)) && n_fill::<T, Params>(t) ==> ins_fill::<T, Params>(*final(node), r),
        p_fill::<T, Params>(*old(node)) && n_fill::<T, Params>(t) && old(node).children@.len() >= Params::MIN_SIZE ==> final(node).children@.len() >= Params::MIN_SIZE,
    decreases p_height(*old(node))
%at start
    let ghost h = p_height(*old(node));
    let ghost p0 = *node;
    let ghost m = p_elems(*old(node)).add(n_elems(t));
    let ghost t0 = t;
    proof {
        lemma_n_tight(t, 0);
        lemma_s_ok(node.children@, h - 1);
        mem_bound(*node);
        if node.children@.len() > 0 { assert(n_wf(node.children@[0], h - 1)); }
    }
%at after merge 0
    proof {
        lemma_tight_merge(node.envelope, p0.envelope, p_elems(p0), n_env(t), n_elems(t));
    }
%at after push 0
    proof {
        lemma_pushed::<T, Params>(p0, *node, t, h);
    }
%at before recursive_insert
    let ghost f0 = *follow;
    let ghost ei = expand_index as int;
    proof {
        lemma_p_height(f0, h - 1);
        if p_fill::<T, Params>(p0) { assert(n_fill::<T, Params>(p0.children@[ei])); }
        assert(n_wf(p0.children@[ei], h - 1));
    }
%at after let:expand
    let ghost f1 = node.children@[expand_index as int]->Parent_0;
    let ghost e1 = node.envelope;
    proof {
        assert(node.children@ =~= p0.children@.update(expand_index as int, RTreeNode::Parent(f1)));
        assert(n_elems(p0.children@[expand_index as int]) == p_elems(p0.children@[expand_index as int]->Parent_0));
    }
%at after push 1
    proof { lemma_split_step::<T, Params>(p0, *node, expand_index as int, RTreeNode::Parent(f1), child, t0, e1, h); }
%at before merge 1
    proof { lemma_n_tight(child, h - 1); }
%at before envelope_for_children
    proof {
        lemma_kept_step::<T, Params>(p0, *node, expand_index as int, RTreeNode::Parent(f1), s_elems(a@), t0, h);
        lemma_s_ok(node.children@, h - 1);
    }
%at after envelope_for_children
    proof { lemma_covers(node.envelope, node.children@, h - 1); }
%at arm Complete
    proof {
        assert(p_elems(f1).add(Multiset::empty()) =~= p_elems(f1));
        lemma_kept_step::<T, Params>(p0, *node, expand_index as int, RTreeNode::Parent(f1), Multiset::empty(), t0, h);
        assert(p_elems(*node).add(Multiset::empty()) =~= p_elems(*node));
    }
%item fn choose_subtree
%attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
%opt clone_pure
%opt loops for for for
%ret r
%sig
    requires
        forall|i: int| 0 <= i < node.children@.len() ==> n_env(#[trigger] node.children@[i]).ok(),
        n_env(*to_insert).ok(), node.children@.len() < 0x7fff_ffff,
    ensures
        node.children@.len() == 0 || node.children@[0] is Leaf ==> r == usize::MAX,
        node.children@.len() > 0 && !(node.children@[0] is Leaf) ==> r < node.children@.len(),
%loop 0
    invariant
        vx_s0@ == node.children@, min_index < node.children@.len(), 0 <= inclusion_count <= vx_i0,
        node.children@.len() < 0x7fff_ffff,
%loop 1
    invariant
        vx_s1@ == node.children@, min_index < node.children@.len(),
        n_env(*to_insert).ok(), insertion_envelope == n_env(*to_insert),
        forall|i: int| 0 <= i < node.children@.len() ==> n_env(#[trigger] node.children@[i]).ok(),
%loop 2
    invariant
        vx_s2@ == node.children@,
%item fn resolve_overflow_without_reinsertion
%ret r
%at start
    proof { lemma_p_height(*node, p_height(*node)); }
%sig
    requires
        params_ok::<Params>(), p_wf(*old(node), p_height(*old(node))), old(node).children@.len() > 0,
    ensures
        !(r is Reinsert),
        ins_result(p_elems(*old(node)), *final(node), r, 0, p_height(*old(node))),
        s_fill::<T, Params>(old(node).children@) && old(node).children@.len() <= Params::MAX_SIZE + 1 ==> ins_fill::<T, Params>(*final(node), r),
        old(node).children@.len() >= Params::MIN_SIZE ==> final(node).children@.len() >= Params::MIN_SIZE,
%item fn resolve_overflow
%ret r
%sig
    requires
        params_ok::<Params>(), p_wf(*old(node), p_height(*old(node))), old(node).children@.len() > 0,
    ensures
        ins_result(p_elems(*old(node)), *final(node), r, current_depth as int, p_height(*old(node))),
        s_fill::<T, Params>(old(node).children@) && old(node).children@.len() <= Params::MAX_SIZE + 1 ==> ins_fill::<T, Params>(*final(node), r),
        old(node).children@.len() >= Params::MIN_SIZE ==> final(node).children@.len() >= Params::MIN_SIZE,
%item fn split
%attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
%ret r
%at start
    let ghost h = p_height(*old(node));
    let ghost p0 = *node;
    proof { lemma_s_ok(node.children@, h - 1); }
%at after get_split_axis
    proof { lemma_ok_perm(p0.children@, node.children@); }
%at before sort_envelopes
    let ghost c1 = node.children@;
%at after sort_envelopes
    proof {
        lemma_ok_perm(c1, node.children@);
        lemma_p_perm::<T, Params>(p0, *node);
    }
%at before split_off
    let ghost c2 = node.children@;
%at after split_off
    proof {
        lemma_cut::<T, Params>(c2, node.children@.len() as int, h - 1);
        assert(node.children@ =~= c2.take(node.children@.len() as int));
        assert(off_split@ =~= c2.skip(node.children@.len() as int));
        lemma_s_ok(node.children@, h - 1);
        lemma_s_ok(off_split@, h - 1);
    }
%at tail
    proof {
        lemma_covers(node.envelope, node.children@, h - 1);
        lemma_covers(vx_r->Parent_0.envelope, vx_r->Parent_0.children@, h - 1);
    }
%sig
    requires
        params_ok::<Params>(), p_wf(*old(node), p_height(*old(node))),
        old(node).children@.len() > Params::MAX_SIZE,
    ensures
        p_wf(*final(node), p_height(*old(node))), n_wf(r, p_height(*old(node))),
        final(node).children@.len() >= Params::MIN_SIZE,
        r is Parent, r->Parent_0.children@.len() >= Params::MIN_SIZE,
        p_elems(*final(node)).add(n_elems(r)) == p_elems(*old(node)),
        s_fill::<T, Params>(old(node).children@) && old(node).children@.len() <= Params::MAX_SIZE + 1 ==>
            p_fill::<T, Params>(*final(node)) && n_fill::<T, Params>(r),
%loop 0
    invariant
        p_wf(*node, h), p_elems(*node) == p_elems(p0), s_fill::<T, Params>(p0.children@) ==> s_fill::<T, Params>(node.children@),
        node.children@.len() == p0.children@.len(),
        min_size == Params::MIN_SIZE, params_ok::<Params>(),
        min_size <= best_index <= node.children@.len() - min_size,
        node.children@.len() > Params::MAX_SIZE,
        forall|i: int| 0 <= i < node.children@.len() ==> n_env(#[trigger] node.children@[i]).ok(),
%loop 1
    invariant
        vx_s1@ == l@,
        forall|i: int| 0 <= i < l@.len() ==> n_env(#[trigger] l@[i]).ok(), first_envelope.ok(),
%loop 2
    invariant
        vx_s2@ == r@,
        forall|i: int| 0 <= i < r@.len() ==> n_env(#[trigger] r@[i]).ok(), second_envelope.ok(),
%item fn get_split_axis
%attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
%opt clone_pure
%ret best
%at start
    proof { <<T::Envelope as Envelope>::Point as Point>::dim_law(); }
%sig
    requires
        params_ok::<Params>(), old(node).children@.len() > Params::MAX_SIZE,
        forall|i: int| 0 <= i < old(node).children@.len() ==> n_env(#[trigger] old(node).children@[i]).ok(),
    ensures
        final(node).children@.to_multiset() == old(node).children@.to_multiset(), final(node).envelope == old(node).envelope,
        best < <<T::Envelope as Envelope>::Point as Point>::DIMENSIONS,
%loop 0
    invariant
        best_axis < <<T::Envelope as Envelope>::Point as Point>::DIMENSIONS,
        params_ok::<Params>(), node.children@.len() > Params::MAX_SIZE, min_size == Params::MIN_SIZE,
        until == node.children@.len() - min_size + 1,
        node.children@.to_multiset() == old(node).children@.to_multiset(), node.envelope == old(node).envelope,
        forall|i: int| 0 <= i < node.children@.len() ==> n_env(#[trigger] node.children@[i]).ok(),
%at after sort_envelopes
    proof { lemma_ok_perm(vx_c0, node.children@); }
%at before sort_envelopes
    let ghost vx_c0 = node.children@;
%loop 1
    invariant
        forall|i: int| 0 <= i < vx_s1@.len() ==> n_env(#[trigger] vx_s1@[i]).ok(), first_envelope.ok(),
%loop 2
    invariant
        forall|i: int| 0 <= i < vx_s2@.len() ==> n_env(#[trigger] vx_s2@[i]).ok(), second_envelope.ok(),
%loop 3
    invariant
        axis < <<T::Envelope as Envelope>::Point as Point>::DIMENSIONS, best_axis < <<T::Envelope as Envelope>::Point as Point>::DIMENSIONS,
        until <= node.children@.len(), first_envelope.ok(), second_envelope.ok(),
        forall|i: int| 0 <= i < node.children@.len() ==> n_env(#[trigger] node.children@[i]).ok(),
%loop 4
    invariant
        forall|i: int| 0 <= i < vx_s4@.len() ==> n_env(#[trigger] vx_s4@[i]).ok(), first_modified.ok(),
%loop 5
    invariant
        forall|i: int| 0 <= i < vx_s5@.len() ==> n_env(#[trigger] vx_s5@[i]).ok(), second_modified.ok(),
%item fn get_nodes_for_reinsertion
%ret r
%sig
    requires
        params_ok::<Params>(), p_wf(*old(node), p_height(*old(node))),
        old(node).children@.len() > Params::MAX_SIZE, Params::REINSERTION_COUNT > 0,
    ensures
        p_wf(*final(node), p_height(*old(node))), s_wf(r@, p_height(*old(node)) - 1),
        final(node).children@.len() + Params::REINSERTION_COUNT == old(node).children@.len(),
        p_elems(*final(node)).add(s_elems(r@)) == p_elems(*old(node)),
        s_fill::<T, Params>(old(node).children@) ==> s_fill::<T, Params>(final(node).children@) && s_fill::<T, Params>(r@),
%closure 0 |l: &RTreeNode<T>, r: &RTreeNode<T>| -> (c: Ordering)
    ensures c == crate::vx::ord(ctr_d2::<T>(n_env(*$0), center, <<T::Envelope as Envelope>::Point as Point>::DIMENSIONS as int), ctr_d2::<T>(n_env(*$1), center, <<T::Envelope as Envelope>::Point as Point>::DIMENSIONS as int))
%at start
    broadcast use lemma_ctr_d2;
    let ghost h = p_height(*old(node));
    let ghost p0 = *node;
%at before split_off
    let ghost c2 = node.children@;
    proof {
        lemma_p_perm::<T, Params>(p0, *node);
    }
%at after split_off
    proof {
        lemma_cut::<T, Params>(c2, node.children@.len() as int, h - 1);
        assert(node.children@ =~= c2.take(node.children@.len() as int));
        lemma_s_ok(node.children@, h - 1);
    }
%at tail
    proof {
        assert(vx_r@ =~= c2.skip(node.children@.len() as int));
        lemma_covers(node.envelope, node.children@, h - 1);
    }
