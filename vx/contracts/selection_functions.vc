%file algorithm/selection_functions.rs
%module algorithm::selection_functions
%prelude
broadcast use {crate::num_axioms::num_laws, crate::eq_axioms::ob_eq, crate::eq_axioms::ob_sym};
use core::marker::PhantomData as PointExt; // not imported by the real file either
// "never rejects an envelope covering a selected object"
pub open spec fn coherent<T: RTreeObject, F: SelectionFunction<T>>(f: F) -> bool {
    f.exact() && forall|t: T, e: T::Envelope| obj_ok(t) && #[trigger] f.sel_leaf(&t) && #[trigger] t.env().le(&e) ==> f.sel_parent(&e)
}
// the selected part of a multiset of objects
pub open spec fn sel_of<T: RTreeObject, F: SelectionFunction<T>>(m: Multiset<T>, f: F) -> Multiset<T> { m.filter(|t: T| f.sel_leaf(&t)) }
// equal objects have equal envelopes
pub open spec fn eq_ok<T: RTreeObject + PartialEq>() -> bool {
    &&& forall|a: T, b: T| #[trigger] a.eq_spec(&b) ==> a.env() == b.env()
    &&& forall|a: T| #[trigger] a.eq_spec(&a)
}
%item trait SelectionFunction
%extra
    spec fn sel_parent(&self, e: &T::Envelope) -> bool;
    spec fn sel_leaf(&self, t: &T) -> bool;
    // the answer for an object is a function of its value (not of its address)
    spec fn exact(&self) -> bool;
%item trait SelectionFunction::should_unpack_parent
%ret r
%sig
    ensures r == self.sel_parent(envelope)
%item trait SelectionFunction::should_unpack_leaf
%opt nodefault
%ret r
%sig
    requires obj_ok(*_leaf)
    ensures r ==> self.sel_leaf(_leaf), self.exact() ==> r == self.sel_leaf(_leaf)
%item struct SelectInEnvelopeFunction
%item impl SelectInEnvelopeFunction::new
%ret r
%sig
    ensures r.envelope == envelope
%item impl SelectionFunction for SelectInEnvelopeFunction
%extra
    open spec fn sel_parent(&self, e: &T::Envelope) -> bool { self.envelope.meets(e) }
    open spec fn sel_leaf(&self, t: &T) -> bool { t.env().le(&self.envelope) }
    open spec fn exact(&self) -> bool { true }
%item impl SelectionFunction for SelectInEnvelopeFunction::should_unpack_parent
%item impl SelectionFunction for SelectInEnvelopeFunction::should_unpack_leaf
%item struct SelectInEnvelopeFuncIntersecting
%item impl SelectInEnvelopeFuncIntersecting::new
%ret r
%sig
    ensures r.envelope == envelope
%item impl SelectionFunction for SelectInEnvelopeFuncIntersecting
%extra
    open spec fn sel_parent(&self, e: &T::Envelope) -> bool { self.envelope.meets(e) }
    open spec fn sel_leaf(&self, t: &T) -> bool { t.env().meets(&self.envelope) }
    open spec fn exact(&self) -> bool { true }
%item impl SelectionFunction for SelectInEnvelopeFuncIntersecting::should_unpack_parent
%item impl SelectionFunction for SelectInEnvelopeFuncIntersecting::should_unpack_leaf
%item struct SelectAllFunc
%item impl SelectionFunction for SelectAllFunc
%opt inherit algorithm/selection_functions.rs SelectionFunction should_unpack_leaf
%extra
    open spec fn sel_parent(&self, e: &T::Envelope) -> bool { true }
    open spec fn sel_leaf(&self, t: &T) -> bool { true }
    open spec fn exact(&self) -> bool { true }
%item impl SelectionFunction for SelectAllFunc::should_unpack_parent
%item impl SelectionFunction for SelectAllFunc::should_unpack_leaf
%item struct SelectAtPointFunction
%item impl SelectAtPointFunction::new
%ret r
%sig
    ensures r.point == point
%item impl SelectionFunction for SelectAtPointFunction
%extra
    open spec fn sel_parent(&self, e: &T::Envelope) -> bool { e.has_pt(&self.point) }
    open spec fn sel_leaf(&self, t: &T) -> bool { t.at(&self.point) }
    open spec fn exact(&self) -> bool { true }
%item impl SelectionFunction for SelectAtPointFunction::should_unpack_parent
%item impl SelectionFunction for SelectAtPointFunction::should_unpack_leaf
%item struct SelectEqualsFunction
%item impl SelectEqualsFunction::new
%ret r
%sig
    ensures *r.object_to_remove == *object_to_remove
%item impl SelectionFunction for SelectEqualsFunction
%extra
    open spec fn sel_parent(&self, e: &T::Envelope) -> bool { self.object_to_remove.env().le(e) }
    open spec fn sel_leaf(&self, t: &T) -> bool { t.eq_spec(self.object_to_remove) }
    open spec fn exact(&self) -> bool { true }
%item impl SelectionFunction for SelectEqualsFunction::should_unpack_parent
%item impl SelectionFunction for SelectEqualsFunction::should_unpack_leaf
%item struct SelectWithinDistanceFunction
%item impl SelectWithinDistanceFunction::new
%ret r
%sig
    ensures r.circle_origin == circle_origin, r.squared_max_distance == squared_max_distance
%item impl SelectionFunction for SelectWithinDistanceFunction
%extra
    open spec fn sel_parent(&self, e: &T::Envelope) -> bool { e.d2(&self.circle_origin) <= self.squared_max_distance.v() }
    open spec fn sel_leaf(&self, t: &T) -> bool { t.pd2(&self.circle_origin) <= self.squared_max_distance.v() }
    open spec fn exact(&self) -> bool { true }
%item impl SelectionFunction for SelectWithinDistanceFunction::should_unpack_parent
%item impl SelectionFunction for SelectWithinDistanceFunction::should_unpack_leaf
%item struct SelectByAddressFunction
%item impl SelectByAddressFunction::new
%opt addr_field element_address
%ret r
%sig
    ensures r.envelope == envelope, addr_of(r.element_address) == *element_address
%item impl SelectionFunction for SelectByAddressFunction
%extra
    open spec fn sel_parent(&self, e: &T::Envelope) -> bool { self.envelope.le(e) }
    open spec fn sel_leaf(&self, t: &T) -> bool { *t == addr_of(self.element_address) }
    open spec fn exact(&self) -> bool { true }
%item impl SelectionFunction for SelectByAddressFunction::should_unpack_parent
%item impl SelectionFunction for SelectByAddressFunction::should_unpack_leaf
%postlude
// every built-in selection function keeps the promise
pub proof fn coherent_in<T: RTreeObject>(f: SelectInEnvelopeFunction<T>) ensures coherent::<T, _>(f) {
    T::Envelope::laws();
    assert forall|t: T, e: T::Envelope| obj_ok(t) && #[trigger] f.sel_leaf(&t) && #[trigger] t.env().le(&e) implies f.sel_parent(&e) by {
        assert(f.envelope.meets(&t.env()));
    }
}
pub proof fn coherent_meet<T: RTreeObject>(f: SelectInEnvelopeFuncIntersecting<T>) ensures coherent::<T, _>(f) {
    T::Envelope::laws();
    assert forall|t: T, e: T::Envelope| obj_ok(t) && #[trigger] f.sel_leaf(&t) && #[trigger] t.env().le(&e) implies f.sel_parent(&e) by {
        assert(f.envelope.meets(&t.env()));
    }
}
pub proof fn coherent_all<T: RTreeObject>(f: SelectAllFunc) ensures coherent::<T, _>(f) {}
pub proof fn coherent_at<T: PointDistance>(f: SelectAtPointFunction<T>) ensures coherent::<T, _>(f) {
    T::Envelope::laws();
    T::dist_laws();
}
pub proof fn coherent_eq<T: RTreeObject + PartialEq>(f: SelectEqualsFunction<T>) requires eq_ok::<T>() ensures coherent::<T, _>(f) {
    assert forall|t: T, e: T::Envelope| obj_ok(t) && #[trigger] f.sel_leaf(&t) && #[trigger] t.env().le(&e) implies f.sel_parent(&e) by {
        assert(t.eq_spec(f.object_to_remove));
    }
}
pub proof fn coherent_within<T: PointDistance>(f: SelectWithinDistanceFunction<T>) ensures coherent::<T, _>(f) {
    T::Envelope::laws();
    T::dist_laws();
}
pub proof fn coherent_addr<T: RTreeObject>(f: SelectByAddressFunction<T>) requires addr_of(f.element_address).env() == f.envelope ensures coherent::<T, _>(f) {}
