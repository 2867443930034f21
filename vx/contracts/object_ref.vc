%file primitives/object_ref.rs
%module primitives::object_ref
%item struct ObjectRef
%item impl RTreeObject for ObjectRef
%extra
    open spec fn env(&self) -> T::Envelope { self.inner.env() }
    open spec fn valid(&self) -> bool { self.inner.valid() }
%item impl RTreeObject for ObjectRef::envelope
%item impl PointDistance for ObjectRef
%extra
    open spec fn pd2(&self, p: &<T::Envelope as Envelope>::Point) -> real { self.inner.pd2(p) }
    open spec fn at(&self, p: &<T::Envelope as Envelope>::Point) -> bool { self.inner.at(p) }
    proof fn dist_laws() { T::dist_laws(); }
%item impl PointDistance for ObjectRef::distance_2
%item impl PointDistance for ObjectRef::contains_point
%item impl PointDistance for ObjectRef::distance_2_if_less_or_equal
%item impl ObjectRef::new
%ret r
%sig
    ensures r.inner == inner
%item impl Deref for ObjectRef
%item impl Deref for ObjectRef::deref
%ret r
%sig
    ensures *r == *self.inner
