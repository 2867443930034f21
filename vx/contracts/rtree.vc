%file rtree.rs
%module rtree
%prelude
broadcast use {crate::num_axioms::num_laws, crate::eq_axioms::ob_eq, crate::eq_axioms::ob_sym, crate::vx::node_vec_len};
// a usable tree: the representation invariant and the stored size
pub open spec fn t_wf<T: RTreeObject, Params: RTreeParams>(t: RTree<T, Params>) -> bool {
    &&& p_wf(t.root, p_height(t.root))
    &&& t.size == p_elems(t.root).len()
}
// what the queries select
pub open spec fn inside<T: RTreeObject>(m: Multiset<T>, e: T::Envelope) -> Multiset<T> { m.filter(|t: T| t.env().le(&e)) }
pub open spec fn meeting<T: RTreeObject>(m: Multiset<T>, e: T::Envelope) -> Multiset<T> { m.filter(|t: T| t.env().meets(&e)) }
pub open spec fn at_point<T: PointDistance>(m: Multiset<T>, p: <T::Envelope as Envelope>::Point) -> Multiset<T> { m.filter(|t: T| t.at(&p)) }
pub open spec fn within<T: PointDistance>(m: Multiset<T>, p: <T::Envelope as Envelope>::Point, d: real) -> Multiset<T> { m.filter(|t: T| t.pd2(&p) <= d) }
pub proof fn lemma_at_point<T: PointDistance>(m: Multiset<T>, p: <T::Envelope as Envelope>::Point)
    ensures forall|t: T| #[trigger] at_point(m, p).contains(t) <==> m.contains(t) && t.at(&p),
        forall|t: T| m.contains(t) && #[trigger] t.at(&p) ==> at_point(m, p).contains(t),
        forall|r: Multiset<T>, t: T| (#[trigger] r.insert(t)).contains(t),
{
}
// the visitor was called on members of m, on all of them unless it broke off
pub open spec fn ran_from<A, B, V: Logged<A, B>>(v: V, m: Multiset<A>, r: ControlFlow<B>) -> bool {
    exists|l1: Seq<(A, ControlFlow<B>)>| #[trigger] ran::<A, B, V>(v.log(), l1, m, r)
}
// the first object a visitor sees is the result when the visitor is ControlFlow::Break
pub proof fn lemma_break<'a, A>(m: Multiset<A>)
    ensures forall|v: BreakVisitor<'a, A>, r: ControlFlow<&'a A>| #[trigger] ran_from::<A, &'a A, BreakVisitor<'a, A>>(v, m, r) ==> match r {
        ControlFlow::Break(b) => m.contains(*b),
        ControlFlow::Continue(c) => m == Multiset::<A>::empty(),
    }
{
    assert forall|v: BreakVisitor<'a, A>, r: ControlFlow<&'a A>| #[trigger] ran_from::<A, &'a A, BreakVisitor<'a, A>>(v, m, r) implies match r {
        ControlFlow::Break(b) => m.contains(*b),
        ControlFlow::Continue(c) => m == Multiset::<A>::empty(),
    } by {
        let l0 = v.log();
        let l1 = choose|l1: Seq<(A, ControlFlow<&'a A>)>| #[trigger] ran::<A, &'a A, BreakVisitor<'a, A>>(v.log(), l1, m, r);
        match r {
            ControlFlow::Break(b) => { seen_has(l0, l1, l1.len() - 1); assert(BreakVisitor::<'a, A>::may(l1[l1.len() - 1].0, l1[l1.len() - 1].1)); }
            ControlFlow::Continue(c) => {
                if l1.len() > l0.len() { assert(BreakVisitor::<'a, A>::may(l1[l0.len() as int].0, l1[l0.len() as int].1)); assert(false); }
                seen_none(l0, l1);
            }
        }
    }
}
pub proof fn lemma_break_mut<'a, A>(m: Multiset<A>)
    ensures forall|v: BreakVisitorMut<'a, A>, r: ControlFlow<&'a mut A>| #[trigger] ran_from::<A, &'a mut A, BreakVisitorMut<'a, A>>(v, m, r) ==> match r {
        ControlFlow::Break(b) => m.contains(*b),
        ControlFlow::Continue(c) => m == Multiset::<A>::empty(),
    }
{
    assert forall|v: BreakVisitorMut<'a, A>, r: ControlFlow<&'a mut A>| #[trigger] ran_from::<A, &'a mut A, BreakVisitorMut<'a, A>>(v, m, r) implies match r {
        ControlFlow::Break(b) => m.contains(*b),
        ControlFlow::Continue(c) => m == Multiset::<A>::empty(),
    } by {
        let l0 = v.log();
        let l1 = choose|l1: Seq<(A, ControlFlow<&'a mut A>)>| #[trigger] ran::<A, &'a mut A, BreakVisitorMut<'a, A>>(v.log(), l1, m, r);
        match r {
            ControlFlow::Break(b) => { seen_has(l0, l1, l1.len() - 1); assert(BreakVisitorMut::<'a, A>::may(l1[l1.len() - 1].0, l1[l1.len() - 1].1)); }
            ControlFlow::Continue(c) => {
                if l1.len() > l0.len() { assert(BreakVisitorMut::<'a, A>::may(l1[l0.len() as int].0, l1[l0.len() as int].1)); assert(false); }
                seen_none(l0, l1);
            }
        }
    }
}
pub proof fn lemma_none_sel<T: RTreeObject, F: SelectionFunction<T>>(m: Multiset<T>, f: F)
    ensures sel_of(m, f) == Multiset::<T>::empty() ==> forall|t: T| m.contains(t) ==> !#[trigger] f.sel_leaf(&t)
{
    if sel_of(m, f) == Multiset::<T>::empty() {
        assert forall|t: T| m.contains(t) implies !#[trigger] f.sel_leaf(&t) by { assert(sel_of(m, f).count(t) == 0); }
    }
}
// an exhausted drain iterator has yielded exactly the selected objects
pub proof fn c09_exhausted<T: RTreeObject, F: SelectionFunction<T>>(all: Multiset<T>, yielded: Multiset<T>, rest: Multiset<T>, f: F)
    requires all == yielded.add(rest), forall|t: T| #[trigger] yielded.contains(t) ==> f.sel_leaf(&t), sel_of(rest, f) == Multiset::<T>::empty()
    ensures yielded == sel_of(all, f), rest == all.filter(|t: T| !f.sel_leaf(&t))
{
    lemma_none_sel(rest, f);
    assert forall|t: T| #[trigger] yielded.count(t) == sel_of(all, f).count(t) by { if yielded.count(t) > 0 { assert(yielded.contains(t)); } if rest.count(t) > 0 { assert(rest.contains(t)); } }
    assert(yielded =~= sel_of(all, f));
    assert forall|t: T| #[trigger] rest.count(t) == all.filter(|t: T| !f.sel_leaf(&t)).count(t) by { if yielded.count(t) > 0 { assert(yielded.contains(t)); } if rest.count(t) > 0 { assert(rest.contains(t)); } }
    assert(rest =~= all.filter(|t: T| !f.sel_leaf(&t)));
}
%item struct RTree

%item struct DebugHelper
%drop Debug output
%item impl Debug for DebugHelper
%drop Debug output
%item impl Debug for RTree
%drop Debug output
%item impl RTree::root
%ret r
%sig
    ensures *r == self.root
%item impl RTree::root_mut
%ret r
%sig
    ensures *r == old(self).root, final(self).root == *final(r), final(self).size == old(self).size
%item impl RTree::size
%ret r
%sig
    ensures r == self.size
%item impl RTree::size_mut
%ret r
%sig
    ensures *r == old(self).size, final(self).size == *final(r), final(self).root == old(self).root
%item impl RTree::insert
%props C01 C02 C03
%sig
    requires params_ok::<Params>(), t_wf(*old(self)), obj_ok(t)
    ensures t_wf(*final(self)), p_elems(final(self).root) == p_elems(old(self).root).insert(t),
        p_fill::<T, Params>(old(self).root) ==> p_fill::<T, Params>(final(self).root),
%at start
    proof { mem_bound(self.root); }
%item impl Default for RTree
%opt inherent
%item impl Default for RTree::default
%ret r
%sig
    requires Params::MAX_SIZE < usize::MAX
    ensures
        created::<T, Params>(), // @only C20
        t_wf(r), p_elems(r.root) == Multiset::<T>::empty()
%item impl RTree::new
%ret r
%sig
    ensures
        created::<T, DefaultParams>(), // @only C20
        t_wf(r), p_elems(r.root) == Multiset::<T>::empty()
%at start
    proof { crate::params::c20_default_params(); }
%item impl RTree::new_with_params
%opt phantom_default
%props C20 C01
%ret r
%sig
    requires Params::MAX_SIZE < usize::MAX
    ensures
        created::<T, Params>(), // @only C20
        t_wf(r), p_elems(r.root) == Multiset::<T>::empty()
%item impl RTree::new_from_bulk_loading
%opt phantom_default
%props C04 C02
%ret r
%sig
    requires Params::MAX_SIZE < usize::MAX, ms_ok(elements@.to_multiset()),
        forall|v: Vec<T>| params_ok::<Params>() && v@.len() > 0 && ms_ok(v@.to_multiset()) && dims::<T>() >= 1 ==> #[trigger] call_requires(root_loader, (v,)),
        forall|v: Vec<T>, p: ParentNode<T>| #[trigger] call_ensures(root_loader, (v,), p) ==> p_wf(p, p_height(p)) && p_elems(p) == v@.to_multiset() && p_leafmax::<T, Params>(p),
    ensures
        created::<T, Params>(), // @only C20
        t_wf(r), p_elems(r.root) == elements@.to_multiset(), p_leafmax::<T, Params>(r.root), r.size == elements@.len()
%at start
    proof {
        broadcast use vstd::seq_lib::group_to_multiset_ensures;
        assert(elements@.len() == 0 ==> elements@.to_multiset() =~= Multiset::<T>::empty());
        assert(elements@.to_multiset().len() == elements@.len());
    }
%item impl RTree::bulk_load_with_params
%props C04 C02
%ret r
%sig
    requires Params::MAX_SIZE < usize::MAX, ms_ok(elements@.to_multiset())
    ensures
        created::<T, Params>(), // @only C20
        t_wf(r), p_elems(r.root) == elements@.to_multiset(), p_leafmax::<T, Params>(r.root), r.size == elements@.len()
%item impl RTree::bulk_load
%props C04 C02
%ret r
%sig
    requires ms_ok(elements@.to_multiset())
    ensures
        created::<T, DefaultParams>(), // @only C20
        t_wf(r), p_elems(r.root) == elements@.to_multiset(), p_leafmax::<T, DefaultParams>(r.root), r.size == elements@.len()
%at start
    proof { crate::params::c20_default_params(); }
%item impl RTree::iter
%ret r
%sig
    requires t_wf(*self)
    ensures it_wf(r), coherent::<T, _>(r.func), it_rest(r) == p_elems(self.root)
%at start
    proof { coherent_all::<T>(SelectAllFunc); assert(sel_of(p_elems(self.root), SelectAllFunc) =~= p_elems(self.root)); }
%item impl RTree::iter_mut
%ret r
%sig
    requires t_wf(*old(self))
    ensures mu_wf(r), coherent::<T, _>(r.func), mu_rest(r) == p_elems(old(self).root),
        final(self).size == old(self).size, mu_upd(r) ==> p_upd(old(self).root, final(self).root, SelectAllFunc)
%at start
    proof { coherent_all::<T>(SelectAllFunc); assert(sel_of(p_elems(self.root), SelectAllFunc) =~= p_elems(self.root)); }
%item impl RTree::locate_in_envelope
%ret r
%sig
    requires t_wf(*self)
    ensures it_wf(r), coherent::<T, _>(r.func), r.func.envelope == envelope,
        it_rest(r) == inside(p_elems(self.root), envelope)
%at tail
    proof { coherent_in::<T>(vx_r.func); assert(sel_of(p_elems(self.root), vx_r.func) =~= inside(p_elems(self.root), envelope)); }
%item impl RTree::locate_in_envelope_mut
%ret r
%sig
    requires t_wf(*old(self))
    ensures mu_wf(r), coherent::<T, _>(r.func), r.func.envelope == envelope,
        mu_rest(r) == inside(p_elems(old(self).root), envelope),
        final(self).size == old(self).size, mu_upd(r) ==> p_upd(old(self).root, final(self).root, r.func)
%at start
    let ghost vx_m = p_elems(self.root);
%at tail
    proof { coherent_in::<T>(vx_r.func); assert(sel_of(vx_m, vx_r.func) =~= inside(vx_m, envelope)); }
%item impl RTree::locate_in_envelope_int
%ret r
%sig
    requires t_wf(*self)
    ensures ran_from::<T, B, V>(visitor, inside(p_elems(self.root), envelope), r)
%at start
    proof {
        let f = SelectInEnvelopeFunction::<T> { envelope: envelope };
        coherent_in::<T>(f);
        assert(sel_of(p_elems(self.root), f) =~= inside(p_elems(self.root), envelope));
    }
%item impl RTree::locate_in_envelope_int_mut
%ret r
%sig
    requires t_wf(*old(self))
    ensures ran_from::<T, B, V>(visitor, inside(p_elems(old(self).root), envelope), r),
        final(self).size == old(self).size, p_upd(old(self).root, final(self).root, SelectInEnvelopeFunction::<T> { envelope: envelope })
%at start
    proof {
        let f = SelectInEnvelopeFunction::<T> { envelope: envelope };
        coherent_in::<T>(f);
        assert(sel_of(p_elems(self.root), f) =~= inside(p_elems(self.root), envelope));
    }
%item impl RTree::locate_in_envelope_intersecting
%ret r
%sig
    requires t_wf(*self)
    ensures it_wf(r), coherent::<T, _>(r.func), r.func.envelope == envelope,
        it_rest(r) == meeting(p_elems(self.root), envelope)
%at tail
    proof { coherent_meet::<T>(vx_r.func); assert(sel_of(p_elems(self.root), vx_r.func) =~= meeting(p_elems(self.root), envelope)); }
%item impl RTree::locate_in_envelope_intersecting_mut
%ret r
%sig
    requires t_wf(*old(self))
    ensures mu_wf(r), coherent::<T, _>(r.func), r.func.envelope == envelope,
        mu_rest(r) == meeting(p_elems(old(self).root), envelope),
        final(self).size == old(self).size, mu_upd(r) ==> p_upd(old(self).root, final(self).root, r.func)
%at start
    let ghost vx_m = p_elems(self.root);
%at tail
    proof { coherent_meet::<T>(vx_r.func); assert(sel_of(vx_m, vx_r.func) =~= meeting(vx_m, envelope)); }
%item impl RTree::locate_in_envelope_intersecting_int
%ret r
%sig
    requires t_wf(*self)
    ensures ran_from::<T, B, V>(visitor, meeting(p_elems(self.root), envelope), r)
%at start
    proof {
        let f = SelectInEnvelopeFuncIntersecting::<T> { envelope: envelope };
        coherent_meet::<T>(f);
        assert(sel_of(p_elems(self.root), f) =~= meeting(p_elems(self.root), envelope));
    }
%item impl RTree::locate_in_envelope_intersecting_int_mut
%ret r
%sig
    requires t_wf(*old(self))
    ensures ran_from::<T, B, V>(visitor, meeting(p_elems(old(self).root), envelope), r),
        final(self).size == old(self).size, p_upd(old(self).root, final(self).root, SelectInEnvelopeFuncIntersecting::<T> { envelope: envelope })
%at start
    proof {
        let f = SelectInEnvelopeFuncIntersecting::<T> { envelope: envelope };
        coherent_meet::<T>(f);
        assert(sel_of(p_elems(self.root), f) =~= meeting(p_elems(self.root), envelope));
    }
%item impl RTree::locate_all_at_point
%ret r
%sig
    requires t_wf(*self)
    ensures it_wf(r), coherent::<T, _>(r.func), r.func.point == point,
        it_rest(r) == at_point(p_elems(self.root), point)
%at tail
    proof { coherent_at::<T>(vx_r.func); assert(sel_of(p_elems(self.root), vx_r.func) =~= at_point(p_elems(self.root), point)); }
%item impl RTree::locate_all_at_point_mut
%ret r
%sig
    requires t_wf(*old(self))
    ensures mu_wf(r), coherent::<T, _>(r.func), r.func.point == point,
        mu_rest(r) == at_point(p_elems(old(self).root), point),
        final(self).size == old(self).size, mu_upd(r) ==> p_upd(old(self).root, final(self).root, r.func)
%at start
    let ghost vx_m = p_elems(self.root);
%at tail
    proof { coherent_at::<T>(vx_r.func); assert(sel_of(vx_m, vx_r.func) =~= at_point(vx_m, point)); }
%item impl RTree::locate_all_at_point_int
%ret r
%sig
    requires t_wf(*self)
    ensures ran_from::<T, B, V>(visitor, at_point(p_elems(self.root), point), r)
%at start
    proof {
        let f = SelectAtPointFunction::<T> { point: point };
        coherent_at::<T>(f);
        assert(sel_of(p_elems(self.root), f) =~= at_point(p_elems(self.root), point));
    }
%item impl RTree::locate_all_at_point_int_mut
%ret r
%sig
    requires t_wf(*old(self))
    ensures ran_from::<T, B, V>(visitor, at_point(p_elems(old(self).root), point), r),
        final(self).size == old(self).size, p_upd(old(self).root, final(self).root, SelectAtPointFunction::<T> { point: point })
%at start
    proof {
        let f = SelectAtPointFunction::<T> { point: point };
        coherent_at::<T>(f);
        assert(sel_of(p_elems(self.root), f) =~= at_point(p_elems(self.root), point));
    }
%item impl RTree::locate_with_selection_function
%ret r
%sig
    requires t_wf(*self)
    ensures it_wf(r), r.func == selection_function, coherent::<T, S>(selection_function) ==> it_rest(r) == sel_of(p_elems(self.root), selection_function)
%item impl RTree::locate_with_selection_function_mut
%ret r
%sig
    requires t_wf(*old(self))
    ensures mu_wf(r), r.func == selection_function, coherent::<T, S>(selection_function) ==> mu_rest(r) == sel_of(p_elems(old(self).root), selection_function),
        final(self).size == old(self).size, mu_upd(r) ==> p_upd(old(self).root, final(self).root, selection_function)
%item impl RTree::locate_within_distance
%ret r
%sig
    requires t_wf(*self)
    ensures it_wf(r), coherent::<T, _>(r.func), r.func.circle_origin == query_point, r.func.squared_max_distance == max_squared_radius,
        it_rest(r) == within(p_elems(self.root), query_point, max_squared_radius.v())
%at tail
    proof { coherent_within::<T>(vx_r.func); assert(sel_of(p_elems(self.root), vx_r.func) =~= within(p_elems(self.root), query_point, max_squared_radius.v())); }
%item impl RTree::locate_at_point
%ret r
%sig
    requires t_wf(*self)
    ensures match r {
        Some(t) => p_elems(self.root).contains(*t) && t.at(&point),
        None => forall|t: T| p_elems(self.root).contains(t) ==> !#[trigger] t.at(&point),
    }
%at start
    proof { lemma_at_point::<T>(p_elems(self.root), point); }
%item impl RTree::locate_at_point_mut
%ret r
%sig
    requires t_wf(*old(self))
    ensures match r {
        Some(t) => p_elems(old(self).root).contains(*t) && t.at(&point),
        None => forall|t: T| p_elems(old(self).root).contains(t) ==> !#[trigger] t.at(&point),
    }
%at start
    proof { lemma_at_point::<T>(p_elems(self.root), point); }
%item impl RTree::locate_at_point_int
%opt break_visitor
%ret r
%sig
    requires t_wf(*self)
    ensures match r {
        Some(t) => p_elems(self.root).contains(*t) && t.at(&point),
        None => forall|t: T| p_elems(self.root).contains(t) ==> !#[trigger] t.at(&point),
    }
%at start
    proof { lemma_at_point::<T>(p_elems(self.root), point); lemma_break::<T>(at_point(p_elems(self.root), point)); }
%item impl RTree::locate_at_point_int_mut
%opt break_visitor_mut
%ret r
%sig
    requires t_wf(*old(self))
    ensures match r {
        Some(t) => p_elems(old(self).root).contains(*t) && t.at(&point),
        None => forall|t: T| p_elems(old(self).root).contains(t) ==> !#[trigger] t.at(&point),
    }, p_upd(old(self).root, final(self).root, SelectAtPointFunction::<T> { point: point })
%at start
    proof { lemma_at_point::<T>(p_elems(self.root), point); lemma_break_mut::<T>(at_point(p_elems(self.root), point)); }
%item impl RTree::contains
%ret r
%sig
    requires t_wf(*self), obj_ok(*t), eq_ok::<T>()
    ensures r == exists|e: T| p_elems(self.root).contains(e) && #[trigger] e.eq_spec(t)
%loop 0
    invariant_except_break
        !vx_any,
        forall|e: T| p_elems(self.root).contains(e) && #[trigger] e.eq_spec(t) ==> it_rest(vx_it).contains(e),
    invariant it_wf(vx_it), coherent::<T, _>(vx_it.func), vx_it.func.envelope == t.env(), eq_ok::<T>(), obj_ok(*t), t_wf(*self),
        it_rest(vx_it).subset_of(p_elems(self.root)), vx_prev == it_rest(vx_it),
    ensures vx_any == exists|e: T| p_elems(self.root).contains(e) && #[trigger] e.eq_spec(t)
    decreases it_rest(vx_it).len()
%at loopstart 0
    proof {
        assert(vx_prev == it_rest(vx_it).insert(*e));
        assert(vx_prev.contains(*e));
        vx_prev = it_rest(vx_it);
    }
%at beforeloop 0
    proof {
        T::Envelope::laws();
        assert forall|e: T| p_elems(self.root).contains(e) && #[trigger] e.eq_spec(t) implies it_rest(vx_it).contains(e) by { assert(e.env() == t.env()); }
    }
    let ghost mut vx_prev = it_rest(vx_it);
%item impl IntoIterator for &RTree
%opt inherent
%item impl IntoIterator for &RTree::into_iter
%free rtree_ref_into_iter
%ret r
%sig
    requires t_wf(*vx_self)
    ensures it_wf(r), coherent::<T, _>(r.func), it_rest(r) == p_elems(vx_self.root)
%item impl IntoIterator for &mut RTree
%opt inherent
%item impl IntoIterator for &mut RTree::into_iter
%free rtree_mut_into_iter
%ret r
%sig
    requires t_wf(*old(vx_self))
    ensures mu_wf(r), coherent::<T, _>(r.func), mu_rest(r) == p_elems(old(vx_self).root),
        final(vx_self).size == old(vx_self).size, mu_upd(r) ==> p_upd(old(vx_self).root, final(vx_self).root, SelectAllFunc)
%item impl RTree::drain_with_selection_function
%ret r
%sig
    requires t_wf(*old(self))
    ensures dr_wf(r), r.node_stack@.len() > 0, r.removal_function == function, *final(r.rtree) == *final(self),
        dr_all(r) == p_elems(old(self).root)
%item impl RTree::drain
%ret r
%sig
    requires t_wf(*old(self))
    ensures dr_wf(r), r.node_stack@.len() > 0, *final(r.rtree) == *final(self), dr_all(r) == p_elems(old(self).root),
        coherent::<T, _>(r.removal_function), forall|m: Multiset<T>| #[trigger] sel_of(m, r.removal_function) == m
%at tail
    proof { coherent_all::<T>(vx_r.removal_function); assert forall|m: Multiset<T>| #[trigger] sel_of(m, vx_r.removal_function) == m by { assert(sel_of(m, vx_r.removal_function) =~= m); } }
%item impl RTree::drain_in_envelope
%ret r
%sig
    requires t_wf(*old(self))
    ensures dr_wf(r), r.node_stack@.len() > 0, *final(r.rtree) == *final(self), dr_all(r) == p_elems(old(self).root),
        coherent::<T, _>(r.removal_function), r.removal_function.envelope == envelope,
        forall|m: Multiset<T>| #[trigger] sel_of(m, r.removal_function) == inside(m, envelope)
%at tail
    proof { coherent_in::<T>(vx_r.removal_function); assert forall|m: Multiset<T>| #[trigger] sel_of(m, vx_r.removal_function) == inside(m, envelope) by { assert(sel_of(m, vx_r.removal_function) =~= inside(m, envelope)); } }
%item impl RTree::drain_in_envelope_intersecting
%ret r
%sig
    requires t_wf(*old(self))
    ensures dr_wf(r), r.node_stack@.len() > 0, *final(r.rtree) == *final(self), dr_all(r) == p_elems(old(self).root),
        coherent::<T, _>(r.removal_function), r.removal_function.envelope == envelope,
        forall|m: Multiset<T>| #[trigger] sel_of(m, r.removal_function) == meeting(m, envelope)
%at tail
    proof { coherent_meet::<T>(vx_r.removal_function); assert forall|m: Multiset<T>| #[trigger] sel_of(m, vx_r.removal_function) == meeting(m, envelope) by { assert(sel_of(m, vx_r.removal_function) =~= meeting(m, envelope)); } }
%item impl RTree::drain_within_distance
%ret r
%sig
    requires t_wf(*old(self))
    ensures dr_wf(r), r.node_stack@.len() > 0, *final(r.rtree) == *final(self), dr_all(r) == p_elems(old(self).root),
        coherent::<T, _>(r.removal_function), r.removal_function.circle_origin == query_point, r.removal_function.squared_max_distance == max_squared_radius,
        forall|m: Multiset<T>| #[trigger] sel_of(m, r.removal_function) == within(m, query_point, max_squared_radius.v())
%at tail
    proof { coherent_within::<T>(vx_r.removal_function); assert forall|m: Multiset<T>| #[trigger] sel_of(m, vx_r.removal_function) == within(m, query_point, max_squared_radius.v()) by { assert(sel_of(m, vx_r.removal_function) =~= within(m, query_point, max_squared_radius.v())); } }
%item impl RTree::remove_with_selection_function
%ret r
%sig
    requires t_wf(*old(self))
    ensures t_wf(*final(self)),
        match r {
            Some(t) => function.sel_leaf(&t) && p_elems(old(self).root) == p_elems(final(self).root).insert(t),
            None => p_elems(old(self).root) == p_elems(final(self).root) && (coherent::<T, F>(function) ==> sel_of(p_elems(old(self).root), function) == Multiset::<T>::empty()),
        }
%item impl RTree::remove_at_point
%ret r
%sig
    requires t_wf(*old(self))
    ensures t_wf(*final(self)),
        match r {
            Some(t) => t.at(&point) && p_elems(old(self).root) == p_elems(final(self).root).insert(t),
            None => p_elems(old(self).root) == p_elems(final(self).root) && forall|t: T| p_elems(old(self).root).contains(t) ==> !#[trigger] t.at(&point),
        }
%at start
    proof {
        let f = SelectAtPointFunction::<T> { point: point };
        coherent_at::<T>(f);
        lemma_none_sel(p_elems(self.root), f);
        assert(forall|t: T| #[trigger] t.at(&point) ==> f.sel_leaf(&t));
    }
%item impl RTree::remove
%ret r
%sig
    requires t_wf(*old(self)), obj_ok(*t), eq_ok::<T>()
    ensures t_wf(*final(self)),
        match r {
            Some(e) => e.eq_spec(t) && p_elems(old(self).root) == p_elems(final(self).root).insert(e),
            None => p_elems(old(self).root) == p_elems(final(self).root) && forall|e: T| p_elems(old(self).root).contains(e) ==> !#[trigger] e.eq_spec(t),
        }
%at start
    proof {
        let f = SelectEqualsFunction::<T> { object_to_remove: t };
        coherent_eq::<T>(f);
        lemma_none_sel(p_elems(self.root), f);
        assert(forall|e: T| #[trigger] e.eq_spec(t) ==> f.sel_leaf(&e));
    }
%item impl IntoIterator for RTree
%opt inherent
%item impl IntoIterator for RTree::into_iter
%free rtree_into_iter
%ret r
%sig
    requires t_wf(vx_self)
    ensures s_elems(r.node_stack@) == p_elems(vx_self.root)
%at start
    proof { lemma_s_one(RTreeNode::Parent(vx_self.root)); }
%item impl RTree::nearest_neighbor
%opt option_match
%ret r
%sig
    requires t_wf(*self)
    ensures match r { Some(x) => nearest(*x, p_elems(self.root), query_point), None => p_elems(self.root) == Multiset::<T>::empty() }
%item impl RTree::nearest_neighbor_with_distance_2
%opt option_match
%opt clone_pure
%ret r
%sig
    requires t_wf(*self)
    ensures match r {
        Some(x) => nearest(*x.0, p_elems(self.root), query_point) && x.1.v() == x.0.pd2(&query_point),
        None => p_elems(self.root) == Multiset::<T>::empty(),
    }
%at start
    proof { assert(p_elems(self.root).len() == 0 ==> p_elems(self.root) =~= Multiset::<T>::empty()); }
%item impl RTree::nearest_neighbors
%opt option_match
%ret r
%sig
    requires t_wf(*self)
    ensures drf(r@).to_multiset() == all_nearest(p_elems(self.root), *query_point)
%at start
    proof {
        let e = Multiset::<T>::empty();
        assert(all_nearest(e, *query_point) =~= e);
        assert(drf(Seq::<&T>::empty()) =~= Seq::empty());
        Seq::<T>::empty().to_multiset_ensures();
        assert(Seq::<T>::empty().to_multiset() =~= e);
        assert forall|s: Seq<&T>| s.len() == 0 implies #[trigger] drf(s).to_multiset() == e by { assert(drf(s) =~= Seq::empty()); }
    }
%item impl RTree::nearest_neighbors_with_distance_2
%opt clone_pure
%ret r
%sig
    requires t_wf(*self)
    ensures match r {
        None => p_elems(self.root) == Multiset::<T>::empty(),
        Some(x) => x.0@.len() > 0 && drf(x.0@).to_multiset() == all_nearest(p_elems(self.root), *query_point)
            && forall|i: int| 0 <= i < x.0@.len() ==> nearest(*#[trigger] x.0@[i], p_elems(self.root), *query_point) && x.0@[i].pd2(query_point) == x.1.v(),
    }
%item impl RTree::nearest_neighbor_iter
%ret r
%sig
    requires t_wf(*self)
    ensures nn_wf(r.iter), nn_rest(r.iter) == p_elems(self.root), r.iter.query_point == query_point
%item impl RTree::nearest_neighbor_iter_with_distance
%ret r
%sig
    requires t_wf(*self)
    ensures nn_wf(r), nn_rest(r) == p_elems(self.root), r.query_point == query_point
%item impl RTree::nearest_neighbor_iter_with_distance_2
%ret r
%sig
    requires t_wf(*self)
    ensures nn_wf(r), nn_rest(r) == p_elems(self.root), r.query_point == query_point
%item impl RTree::pop_nearest_neighbor
%ret r
%sig
    requires t_wf(*old(self))
    ensures t_wf(*final(self)),
        match r {
            Some(t) => nearest(t, p_elems(old(self).root), query_point) && p_elems(old(self).root) == p_elems(final(self).root).insert(t),
            None => p_elems(old(self).root) == Multiset::<T>::empty() && p_elems(final(self).root) == Multiset::<T>::empty(),
        }
%at start
    proof {
        let m = p_elems(self.root);
        assert forall|f: SelectByAddressFunction<T>| addr_of(f.element_address).env() == f.envelope implies #[trigger] coherent::<T, _>(f) by { coherent_addr::<T>(f); }
        assert forall|f: SelectByAddressFunction<T>| #[trigger] sel_of(m, f) == Multiset::<T>::empty() implies !m.contains(addr_of(f.element_address)) by { lemma_none_sel(m, f); assert(f.sel_leaf(&addr_of(f.element_address))); }
    }
%item impl RTree::intersection_candidates_with_other_tree
%ret r
%sig
    requires t_wf(*self), t_wf(*other)
    ensures ix_wf(r), forall|t: T, u: U| #[trigger] ix_rest(r.todo_list@, t, u) == pc(p_elems(self.root), p_elems(other.root), t, u)
