%file algorithm/iterators.rs
%module algorithm::iterators
%prelude
broadcast use {crate::num_axioms::num_laws, crate::vx::node_vec_len};
pub open spec fn n_ok<T: RTreeObject>(n: RTreeNode<T>) -> bool { n_wf(n, n_height(n)) }
pub open spec fn s_ok<T: RTreeObject>(s: Seq<RTreeNode<T>>) -> bool { forall|i: int| 0 <= i < s.len() ==> n_ok(#[trigger] s[i]) }
// number of nodes, for termination
pub open spec fn n_count<T: RTreeObject>(n: RTreeNode<T>) -> nat
    decreases n
{
    match n { RTreeNode::Leaf(t) => 1, RTreeNode::Parent(p) => 1 + s_count(p.children@) }
}
pub open spec fn s_count<T: RTreeObject>(s: Seq<RTreeNode<T>>) -> nat
    decreases s
{
    if s.len() == 0 { 0 } else { n_count(s.last()) + s_count(s.drop_last()) }
}
pub proof fn lemma_count_add<T: RTreeObject>(a: Seq<RTreeNode<T>>, b: Seq<RTreeNode<T>>)
    ensures s_count(a + b) == s_count(a) + s_count(b)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); }
    else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_count_add(a, b.drop_last());
    }
}
pub proof fn lemma_ok_kids<T: RTreeObject>(p: ParentNode<T>, h: int)
    requires p_wf(p, h)
    ensures s_ok(p.children@), s_wf(p.children@, h - 1)
{
    assert forall|i: int| 0 <= i < p.children@.len() implies n_ok(#[trigger] p.children@[i]) by { lemma_height(p.children@[i], h - 1); }
}
pub proof fn lemma_all_ok<T: RTreeObject>(n: RTreeNode<T>, h: int, t: T)
    requires n_wf(n, h), n_elems(n).contains(t)
    ensures obj_ok(t)
    decreases n
{
    match n {
        RTreeNode::Leaf(x) => {}
        RTreeNode::Parent(p) => { lemma_p_all_ok(p, h, t); }
    }
}
pub proof fn lemma_p_all_ok<T: RTreeObject>(p: ParentNode<T>, h: int, t: T)
    requires p_wf(p, h), p_elems(p).contains(t)
    ensures obj_ok(t), t.env().le(&p.envelope)
    decreases p
{
    T::Envelope::laws();
    lemma_s_contains(p.children@, t);
    let i = choose|i: int| 0 <= i < p.children@.len() && n_elems(#[trigger] p.children@[i]).contains(t);
    lemma_all_ok(p.children@[i], h - 1, t);
    assert(p.envelope.le(&p.envelope));
}
// ---------- selection ----------
pub proof fn lemma_sel_add<T: RTreeObject, F: SelectionFunction<T>>(a: Multiset<T>, b: Multiset<T>, f: F)
    ensures sel_of(a.add(b), f) == sel_of(a, f).add(sel_of(b, f))
{
    assert(sel_of(a.add(b), f) =~= sel_of(a, f).add(sel_of(b, f)));
}
pub proof fn lemma_sel_one<T: RTreeObject, F: SelectionFunction<T>>(t: T, f: F)
    ensures sel_of(Multiset::singleton(t), f) == if f.sel_leaf(&t) { Multiset::singleton(t) } else { Multiset::empty() }
{
    assert(sel_of(Multiset::singleton(t), f) =~= if f.sel_leaf(&t) { Multiset::singleton(t) } else { Multiset::empty() });
}
// a rejected subtree holds no selected object
pub proof fn lemma_prune<T: RTreeObject, F: SelectionFunction<T>>(p: ParentNode<T>, h: int, f: F)
    requires p_wf(p, h), coherent::<T, F>(f), !f.sel_parent(&p.envelope)
    ensures sel_of(p_elems(p), f) == Multiset::<T>::empty()
{
    assert forall|t: T| #[trigger] p_elems(p).contains(t) implies !f.sel_leaf(&t) by { lemma_p_all_ok(p, h, t); }
    assert forall|t: T| #[trigger] sel_of(p_elems(p), f).count(t) == 0 by { if p_elems(p).count(t) > 0 { assert(p_elems(p).contains(t)); } }
    assert(sel_of(p_elems(p), f) =~= Multiset::<T>::empty());
}
pub proof fn lemma_pop<T: RTreeObject, F: SelectionFunction<T>>(s: Seq<RTreeNode<T>>, f: F)
    requires s.len() > 0
    ensures sel_of(s_elems(s), f) == sel_of(s_elems(s.drop_last()), f).add(sel_of(n_elems(s.last()), f)), s_count(s) == s_count(s.drop_last()) + n_count(s.last())
{
    lemma_sel_add(n_elems(s.last()), s_elems(s.drop_last()), f);
    assert(sel_of(s_elems(s), f) =~= sel_of(s_elems(s.drop_last()), f).add(sel_of(n_elems(s.last()), f)));
}
// ---------- what the iterators still have to yield ----------
pub open spec fn it_wf<T: RTreeObject, F: SelectionFunction<T>>(it: SelectionIterator<'_, T, F>) -> bool { s_ok(drf(it.current_nodes@)) }
pub open spec fn it_rest<T: RTreeObject, F: SelectionFunction<T>>(it: SelectionIterator<'_, T, F>) -> Multiset<T> { sel_of(s_elems(drf(it.current_nodes@)), it.func) }
pub open spec fn mu_wf<T: RTreeObject, F: SelectionFunction<T>>(it: SelectionIteratorMut<'_, T, F>) -> bool { s_ok(drm(it.current_nodes@)) }
pub open spec fn mu_rest<T: RTreeObject, F: SelectionFunction<T>>(it: SelectionIteratorMut<'_, T, F>) -> Multiset<T> { sel_of(s_elems(drm(it.current_nodes@)), it.func) }
// ---------- b is a with at most some selected objects changed in place ----------
pub open spec fn n_upd<T: RTreeObject, F: SelectionFunction<T>>(a: RTreeNode<T>, b: RTreeNode<T>, f: F) -> bool
    decreases a
{
    match (a, b) {
        (RTreeNode::Leaf(x), RTreeNode::Leaf(y)) => x == y || f.sel_leaf(&x),
        (RTreeNode::Parent(p), RTreeNode::Parent(q)) => p_upd(p, q, f),
        _ => false,
    }
}
pub open spec fn p_upd<T: RTreeObject, F: SelectionFunction<T>>(p: ParentNode<T>, q: ParentNode<T>, f: F) -> bool
    decreases p
{
    &&& p.envelope == q.envelope
    &&& p.children@.len() == q.children@.len()
    &&& forall|i: int| 0 <= i < p.children@.len() ==> n_upd(#[trigger] p.children@[i], q.children@[i], f)
}
pub proof fn lemma_upd_refl<T: RTreeObject, F: SelectionFunction<T>>(n: RTreeNode<T>, f: F)
    ensures n_upd(n, n, f)
    decreases n
{
    match n { RTreeNode::Leaf(x) => {}, RTreeNode::Parent(p) => lemma_p_upd_refl(p, f) }
}
pub proof fn lemma_p_upd_refl<T: RTreeObject, F: SelectionFunction<T>>(p: ParentNode<T>, f: F)
    ensures p_upd(p, p, f)
    decreases p
{
    assert forall|i: int| 0 <= i < p.children@.len() implies n_upd(#[trigger] p.children@[i], p.children@[i], f) by { lemma_upd_refl(p.children@[i], f) }
}
// the tree after the iterator's borrow ends differs only in objects handed out
#[verifier::prophetic]
pub open spec fn mu_upd<T: RTreeObject, F: SelectionFunction<T>>(it: SelectionIteratorMut<'_, T, F>) -> bool {
    ms_upd(it.current_nodes@, it.func)
}
#[verifier::prophetic]
pub open spec fn ms_upd<T: RTreeObject, F: SelectionFunction<T>>(s: Seq<&mut RTreeNode<T>>, f: F) -> bool {
    forall|i: int| 0 <= i < s.len() ==> n_upd(*#[trigger] s[i], *final(s[i]), f)
}
%item type LocateAllAtPoint
%item type LocateAllAtPointMut
%item type LocateInEnvelope
%item type LocateInEnvelopeMut
%item type LocateInEnvelopeIntersecting
%item type LocateInEnvelopeIntersectingMut
%item type RTreeIterator
%item type RTreeIteratorMut
%item type LocateWithinDistanceIterator
%item struct SelectionIterator
%item impl SelectionIterator::new
%ret r
%sig
    requires p_wf(*root, p_height(*root))
    ensures it_wf(r), r.func == func, coherent::<T, Func>(func) ==> it_rest(r) == sel_of(p_elems(*root), func)
%at start
    proof {
        lemma_ok_kids(*root, p_height(*root));
        if coherent::<T, Func>(func) && !func.sel_parent(&root.envelope) { lemma_prune(*root, p_height(*root), func); }
        assert(sel_of(Multiset::<T>::empty(), func) =~= Multiset::empty());
    }
%item impl Iterator for SelectionIterator
%opt inherent
%item impl Iterator for SelectionIterator::next
%ret r
%sig
    requires it_wf(*old(self))
    ensures it_wf(*final(self)), final(self).func == old(self).func,
        r is Some ==> old(self).func.sel_leaf(r->0),
        coherent::<T, Func>(old(self).func) ==> match r {
            Some(t) => it_rest(*old(self)) == it_rest(*final(self)).insert(*t),
            None => it_rest(*old(self)) == Multiset::<T>::empty() && it_rest(*final(self)) == Multiset::<T>::empty(),
        }
%at beforeloop 0
    let ghost mut vx_prev = self.current_nodes@;
%at loopend 0
    proof { vx_prev = self.current_nodes@; }
%loop 0
    invariant vx_prev == self.current_nodes@, it_wf(*self), self.func == old(self).func, it_wf(*old(self)),
        coherent::<T, Func>(old(self).func) ==> it_rest(*self) == it_rest(*old(self)),
    ensures self.current_nodes@.len() == 0,
    decreases s_count(drf(self.current_nodes@))
%at loopstart 0
    let ghost vx_before = drf(vx_prev);
    let ghost vx_n = *next;
    proof {
        assert(drf(vx_prev).last() == *next);
        assert forall|i: int| 0 <= i < self.current_nodes@.len() implies n_ok(#[trigger] drf(self.current_nodes@)[i]) by { assert(vx_before[i] == drf(self.current_nodes@)[i]); }
        assert(vx_before.drop_last() =~= drf(self.current_nodes@));
        lemma_pop(vx_before, self.func);
        assert(n_ok(vx_before.last()));
        assert(it_rest(*self).add(Multiset::empty()) =~= it_rest(*self));
        match vx_n {
            RTreeNode::Leaf(t) => {
                lemma_sel_one(t, self.func);
                assert(it_rest(*self).add(Multiset::singleton(t)) =~= it_rest(*self).insert(t));
            }
            RTreeNode::Parent(data) => {
                lemma_ok_kids(data, n_height(vx_n));
                lemma_s_add(drf(self.current_nodes@), data.children@);
                lemma_count_add(drf(self.current_nodes@), data.children@);
                lemma_sel_add(s_elems(drf(self.current_nodes@)), p_elems(data), self.func);
                if coherent::<T, Func>(self.func) && !self.func.sel_parent(&data.envelope) { lemma_prune(data, n_height(vx_n), self.func); }
            }
        }
    }
%at afterloop 0
    proof { assert(sel_of(Multiset::<T>::empty(), self.func) =~= Multiset::empty()); }
%item struct select_nodes__Args
%item fn select_nodes
%sig
    requires p_wf(*root, p_height(*root)), coherent::<T, Func>(*func)
    ensures ran::<T, B, V>(old(visitor).log(), final(visitor).log(), sel_of(p_elems(*root), *func), vx_ret)
%ret vx_ret
%at start
    let ghost l0 = visitor.log();
    proof {
        if !func.sel_parent(&root.envelope) { lemma_prune(*root, p_height(*root), *func); }
        assert(sel_of(Multiset::<T>::empty(), *func) =~= Multiset::empty());
        ran_nothing::<T, B, V>(l0, ControlFlow::<B, ()>::Continue(()));
    }
%item fn select_nodes__inner
%ret vx_ret
%sig
    requires p_wf(*parent, p_height(*parent)), coherent::<T, Func>(*old(args).func)
    ensures *final(args).func == *old(args).func, *final(final(args).visitor) == *final(old(args).visitor),
        ran::<T, B, V>(old(args).visitor.log(), final(args).visitor.log(), sel_of(p_elems(*parent), *old(args).func), vx_ret)
    decreases parent
%at start
    let ghost l0 = args.visitor.log();
    let ghost f0 = *args.func;
    proof {
        lemma_ok_kids(*parent, p_height(*parent));
        assert(sel_of(Multiset::<T>::empty(), f0) =~= Multiset::empty());
        ran_nothing::<T, B, V>(l0, ControlFlow::<B, ()>::Continue(()));
        assert(parent.children@.take(0) =~= Seq::empty());
    }
%loop 0
    invariant vx_s0@ == parent.children@, p_wf(*parent, p_height(*parent)), s_ok(parent.children@), coherent::<T, Func>(f0),
        *args.func == f0, f0 == *old(args).func, l0 == old(args).visitor.log(), *final(args.visitor) == *final(old(args).visitor),
        ran::<T, B, V>(l0, args.visitor.log(), sel_of(s_elems(parent.children@.take(vx_i0 as int)), f0), ControlFlow::<B, ()>::Continue(())),
%at loopstart 0
    let ghost l1 = args.visitor.log();
    let ghost m1 = sel_of(s_elems(parent.children@.take(vx_i0 as int)), f0);
    let ghost n = parent.children@[vx_i0 as int];
    proof {
        let s1 = parent.children@.take(vx_i0 + 1);
        assert(s1.drop_last() =~= parent.children@.take(vx_i0 as int));
        assert(s1.last() == n);
        lemma_pop(s1, f0);
        lemma_s_split(parent.children@, vx_i0 + 1);
        lemma_sel_add(s_elems(s1), s_elems(parent.children@.skip(vx_i0 + 1)), f0);
        assert(sel_of(s_elems(s1), f0).subset_of(sel_of(p_elems(*parent), f0)));
        if let RTreeNode::Leaf(t) = n { lemma_sel_one(t, f0); }
        if let RTreeNode::Parent(p) = n { if !f0.sel_parent(&p.envelope) { lemma_prune(p, n_height(n), f0); } }
        ran_nothing::<T, B, V>(l1, ControlFlow::<B, ()>::Continue(()));
        lemma_ran_pack::<T, B, V>(l0, l1, m1, sel_of(n_elems(n), f0), sel_of(p_elems(*parent), f0), ControlFlow::<B, ()>::Continue(()));
        if let RTreeNode::Leaf(t) = n { lemma_ran_one::<T, B, V>(l1, t); }
    }
%at loopend 0
    proof { assert(ran::<T, B, V>(l1, args.visitor.log(), sel_of(n_elems(n), f0), ControlFlow::<B, ()>::Continue(()))); }
%at afterloop 0
    proof { assert(parent.children@.take(parent.children@.len() as int) =~= parent.children@); }
%item struct SelectionIteratorMut
%item impl SelectionIteratorMut::new
%ret r
%sig
    requires p_wf(*old(root), p_height(*old(root)))
    ensures mu_wf(r), r.func == func, coherent::<T, Func>(func) ==> mu_rest(r) == sel_of(p_elems(*old(root)), func),
        mu_upd(r) ==> p_upd(*old(root), *final(root), func)
%at start
    proof {
        lemma_ok_kids(*root, p_height(*root));
        if coherent::<T, Func>(func) && !func.sel_parent(&root.envelope) { lemma_prune(*root, p_height(*root), func); }
        assert(sel_of(Multiset::<T>::empty(), func) =~= Multiset::empty());
        lemma_p_upd_refl(*root, func);
    }
    let ghost vx_old = *root;
%at tail
    proof {
        if vx_r.current_nodes@.len() > 0 { assert(drm(vx_r.current_nodes@) =~= vx_old.children@); }
        else { assert(drm(vx_r.current_nodes@) =~= Seq::empty()); }
        assert forall|i: int| 0 <= i < vx_r.current_nodes@.len() implies *#[trigger] vx_r.current_nodes@[i] == vx_old.children@[i] by { assert(drm(vx_r.current_nodes@)[i] == vx_old.children@[i]); }
    }
%item impl Iterator for SelectionIteratorMut
%opt inherent
%item impl Iterator for SelectionIteratorMut::next
%ret r
%sig
    requires mu_wf(*old(self))
    ensures mu_wf(*final(self)), final(self).func == old(self).func,
        r is Some ==> old(self).func.sel_leaf(&*r->0),
        coherent::<T, Func>(old(self).func) ==> match r {
            Some(t) => mu_rest(*old(self)) == mu_rest(*final(self)).insert(*t),
            None => mu_rest(*old(self)) == Multiset::<T>::empty() && mu_rest(*final(self)) == Multiset::<T>::empty(),
        },
        mu_upd(*final(self)) ==> mu_upd(*old(self)),
%at beforeloop 0
    let ghost mut vx_prev = self.current_nodes@;
%at loopend 0
    proof {
        let cur = self.current_nodes@;
        let kids = match vx_n { RTreeNode::Parent(p) => p.children@, _ => Seq::empty() };
        assert(vx_prev.drop_last() =~= vx_mid);
        assert forall|i: int| 0 <= i < vx_mid.len() implies #[trigger] vx_prev[i] == cur[i] by { }
        if cur.len() > vx_mid.len() {
            assert(drm(cur) =~= drm(vx_mid) + kids);
            assert forall|i: int| 0 <= i < cur.len() implies n_ok(#[trigger] drm(cur)[i]) by { if i < vx_mid.len() { assert(n_ok(drm(vx_mid)[i])); } else { assert(n_ok(kids[i - vx_mid.len()])); } }
            assert forall|j: int| 0 <= j < kids.len() implies #[trigger] kids[j] == *cur[vx_mid.len() + j] by { assert(drm(cur)[vx_mid.len() + j] == kids[j]); }
        } else {
            assert(cur =~= vx_mid);
        }
        assert(ms_upd(cur, self.func) ==> n_upd(vx_n, *final(vx_next), self.func));
        assert(ms_upd(cur, self.func) ==> ms_upd(vx_prev, self.func));
    }
    proof { vx_prev = self.current_nodes@; }
%loop 0
    invariant vx_prev == self.current_nodes@, mu_wf(*self), self.func == old(self).func, mu_wf(*old(self)),
        coherent::<T, Func>(old(self).func) ==> mu_rest(*self) == mu_rest(*old(self)),
        mu_upd(*self) ==> mu_upd(*old(self)),
    ensures self.current_nodes@.len() == 0,
    decreases s_count(drm(self.current_nodes@))
%at loopstart 0
    let ghost vx_before = drm(vx_prev);
    let ghost vx_mid = self.current_nodes@;
    let ghost vx_n = *next;
    let ghost vx_next = next;
    proof {
        assert(drm(vx_prev).last() == *next);
        assert forall|i: int| 0 <= i < self.current_nodes@.len() implies n_ok(#[trigger] drm(self.current_nodes@)[i]) by { assert(vx_before[i] == drm(self.current_nodes@)[i]); }
        assert(vx_before.drop_last() =~= drm(self.current_nodes@));
        lemma_pop(vx_before, self.func);
        assert(n_ok(vx_before.last()));
        lemma_upd_refl(vx_n, self.func);
        assert(mu_rest(*self).add(Multiset::empty()) =~= mu_rest(*self));
        match vx_n {
            RTreeNode::Leaf(t) => {
                lemma_sel_one(t, self.func);
                assert(mu_rest(*self).add(Multiset::singleton(t)) =~= mu_rest(*self).insert(t));
            }
            RTreeNode::Parent(data) => {
                lemma_ok_kids(data, n_height(vx_n));
                lemma_s_add(drm(self.current_nodes@), data.children@);
                lemma_count_add(drm(self.current_nodes@), data.children@);
                lemma_sel_add(s_elems(drm(self.current_nodes@)), p_elems(data), self.func);
                if coherent::<T, Func>(self.func) && !self.func.sel_parent(&data.envelope) { lemma_prune(data, n_height(vx_n), self.func); }
            }
        }
    }
%at arm Leaf
    proof {
        assert(vx_prev.drop_last() =~= vx_mid);
        assert forall|i: int| 0 <= i < vx_mid.len() implies #[trigger] vx_prev[i] == vx_mid[i] by { }
        assert(self.func.sel_leaf(&*t) ==> n_upd(vx_n, *final(vx_next), self.func));
        assert(self.func.sel_leaf(&*t) && ms_upd(vx_mid, self.func) ==> ms_upd(vx_prev, self.func));
    }
%at afterloop 0
    proof { assert(sel_of(Multiset::<T>::empty(), self.func) =~= Multiset::empty()); }
%item struct select_nodes_mut__Args
%item fn select_nodes_mut
%sig
    requires p_wf(*old(root), p_height(*old(root))), coherent::<T, Func>(*func)
    ensures ran::<T, B, V>(old(visitor).log(), final(visitor).log(), sel_of(p_elems(*old(root)), *func), vx_ret),
        p_upd(*old(root), *final(root), *func)
%ret vx_ret
%at start
    let ghost l0 = visitor.log();
    proof {
        if !func.sel_parent(&root.envelope) { lemma_prune(*root, p_height(*root), *func); }
        assert(sel_of(Multiset::<T>::empty(), *func) =~= Multiset::empty());
        ran_nothing::<T, B, V>(l0, ControlFlow::<B, ()>::Continue(()));
        lemma_p_upd_refl(*root, *func);
    }
%item fn select_nodes_mut__inner
%attr #[verifier::loop_isolation(false)]
%ret vx_ret
%sig
    requires p_wf(*old(parent), p_height(*old(parent))), coherent::<T, Func>(*old(args).func)
    ensures *final(args).func == *old(args).func, *final(final(args).visitor) == *final(old(args).visitor),
        ran::<T, B, V>(old(args).visitor.log(), final(args).visitor.log(), sel_of(p_elems(*old(parent)), *old(args).func), vx_ret),
        p_upd(*old(parent), *final(parent), *old(args).func)
    decreases *old(parent)
%at start
    let ghost l0 = args.visitor.log();
    let ghost f0 = *args.func;
    let ghost p0 = *parent;
    proof {
        lemma_ok_kids(*parent, p_height(*parent));
        assert(sel_of(Multiset::<T>::empty(), f0) =~= Multiset::empty());
        ran_nothing::<T, B, V>(l0, ControlFlow::<B, ()>::Continue(()));
        assert(parent.children@.take(0) =~= Seq::empty());
    }
%at beforeloop 0
    let ghost all = vx_m0@;
    let ghost mut k: int = 0;
%loop 0
    invariant 0 <= k <= all.len(), all.len() == p0.children@.len(), vx_m0@ == all.skip(k),
        forall|i: int| k <= i < all.len() ==> #[trigger] all[i] == vx_m0@[i - k],
        forall|i: int| 0 <= i < all.len() ==> *all[i] == #[trigger] p0.children@[i],
        forall|i: int| 0 <= i < k ==> n_upd(p0.children@[i], *final(#[trigger] all[i]), f0),
        p_wf(p0, p_height(p0)), s_ok(p0.children@), coherent::<T, Func>(f0),
        *args.func == f0, f0 == *old(args).func, l0 == old(args).visitor.log(), *final(args.visitor) == *final(old(args).visitor),
        ran::<T, B, V>(l0, args.visitor.log(), sel_of(s_elems(p0.children@.take(k)), f0), ControlFlow::<B, ()>::Continue(())),
    decreases all.len() - k
%at loopstart 0
    let ghost l1 = args.visitor.log();
    let ghost m1 = sel_of(s_elems(p0.children@.take(k)), f0);
    let ghost n = p0.children@[k];
    let ghost vx_next = all[k];
    proof {
        let s1 = p0.children@.take(k + 1);
        assert(s1.drop_last() =~= p0.children@.take(k));
        assert(s1.last() == n);
        lemma_pop(s1, f0);
        lemma_s_split(p0.children@, k + 1);
        lemma_sel_add(s_elems(s1), s_elems(p0.children@.skip(k + 1)), f0);
        assert(sel_of(s_elems(s1), f0).subset_of(sel_of(p_elems(p0), f0)));
        if let RTreeNode::Leaf(t) = n { lemma_sel_one(t, f0); }
        if let RTreeNode::Parent(p) = n { if !f0.sel_parent(&p.envelope) { lemma_prune(p, n_height(n), f0); } }
        ran_nothing::<T, B, V>(l1, ControlFlow::<B, ()>::Continue(()));
        lemma_ran_pack::<T, B, V>(l0, l1, m1, sel_of(n_elems(n), f0), sel_of(p_elems(p0), f0), ControlFlow::<B, ()>::Continue(()));
        if let RTreeNode::Leaf(t) = n { lemma_ran_one::<T, B, V>(l1, t); }
        lemma_upd_refl(n, f0);
        assert forall|i: int| 0 <= i < p0.children@.len() implies n_upd(#[trigger] p0.children@[i], p0.children@[i], f0) by { lemma_upd_refl(p0.children@[i], f0); }
        assert(all.skip(k).skip(1) =~= all.skip(k + 1));
    }
%at loopend 0
    proof {
        assert(ran::<T, B, V>(l1, args.visitor.log(), sel_of(n_elems(n), f0), ControlFlow::<B, ()>::Continue(())));
        assert(n_upd(n, *final(vx_next), f0));
        k = k + 1;
    }
%at afterloop 0
    proof {
        assert(p0.children@.take(p0.children@.len() as int) =~= p0.children@);
    }
