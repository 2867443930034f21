%file primitives/cached_envelope.rs
%module primitives::cached_envelope
%item struct CachedEnvelope
%item impl RTreeObject for CachedEnvelope
%extra
    open spec fn env(&self) -> T::Envelope { self.cached_env }
    // the cache holds the envelope of the geometry
    open spec fn valid(&self) -> bool { self.inner.valid() && self.cached_env == self.inner.env() }
%item impl RTreeObject for CachedEnvelope::envelope
%opt clone_pure
%item impl PointDistance for CachedEnvelope
%extra
    open spec fn pd2(&self, p: &<T::Envelope as Envelope>::Point) -> real { self.inner.pd2(p) }
    open spec fn at(&self, p: &<T::Envelope as Envelope>::Point) -> bool { self.inner.at(p) }
    proof fn dist_laws() { T::dist_laws(); }
%item impl PointDistance for CachedEnvelope::distance_2
%item impl PointDistance for CachedEnvelope::contains_point
%item impl PointDistance for CachedEnvelope::distance_2_if_less_or_equal
%item impl CachedEnvelope::new
%ret r
%sig
    ensures r.inner == inner, r.env() == inner.env(), inner.valid() ==> r.valid()
%item impl Deref for CachedEnvelope
%item impl Deref for CachedEnvelope::deref
%ret r
%sig
    ensures *r == self.inner
