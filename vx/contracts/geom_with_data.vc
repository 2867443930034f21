%file primitives/geom_with_data.rs
%module primitives::geom_with_data
%item struct GeomWithData
%item impl RTreeObject for GeomWithData
%extra
    open spec fn env(&self) -> R::Envelope { self.geom.env() }
    open spec fn valid(&self) -> bool { self.geom.valid() }
%item impl RTreeObject for GeomWithData::envelope
%item impl PointDistance for GeomWithData
%extra
    open spec fn pd2(&self, p: &<R::Envelope as Envelope>::Point) -> real { self.geom.pd2(p) }
    open spec fn at(&self, p: &<R::Envelope as Envelope>::Point) -> bool { self.geom.at(p) }
    proof fn dist_laws() { R::dist_laws(); }
%item impl PointDistance for GeomWithData::distance_2
%item impl PointDistance for GeomWithData::contains_point
%item impl PointDistance for GeomWithData::distance_2_if_less_or_equal
%item impl GeomWithData::new
%ret r
%sig
    ensures r.geom == geom, r.data == data
%item impl GeomWithData::geom
%ret r
%sig
    ensures *r == self.geom
