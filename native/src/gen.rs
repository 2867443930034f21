//! Random cases and an independent model of the geometry. All coordinates are
//! integer "ticks" (an eighth of a unit for floats), so the oracle computes
//! every distance exactly in i128 and never calls the library's arithmetic.
use rstar::*;
use rstar::primitives::*;
use std::fmt::Debug;

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.next() % n as u64) as usize } }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 { lo + self.below((hi - lo + 1) as usize) as i64 }
    pub fn chance(&mut self, num: usize, den: usize) -> bool { self.below(den) < num }
}
pub fn mix(a: u64, b: u64) -> u64 { Rng(a ^ b.wrapping_mul(0xD6E8FEB86659FD93)).next() }

/// numbers to try as sizes, coordinates and distances: literals the current source has and the
/// source the search was written for had not
pub static HINTS: std::sync::OnceLock<Vec<i64>> = std::sync::OnceLock::new();
pub fn hint(r: &mut Rng, num: usize, den: usize) -> Option<i64> {
    let h = HINTS.get()?;
    if h.is_empty() || !r.chance(num, den) { return None }
    Some(h[r.below(h.len())])
}

pub trait Sc: RTreeNum + Debug + Send + 'static {
    const WIDE: i64;
    const FLOAT: bool;
    fn of(t: i64) -> Self;
    /// value of a first-power quantity, in ticks (None: not a whole number of ticks)
    fn ticks(self) -> Option<i128>;
    /// value of a squared quantity, in square ticks
    fn ticks2(self) -> Option<i128>;
    /// value of a degree-n quantity in ticks^n, approximately
    fn ticksn(self, n: usize) -> f64;
}
macro_rules! sc_int { ($t:ty, $w:expr) => { impl Sc for $t {
    const WIDE: i64 = $w; const FLOAT: bool = false;
    fn of(t: i64) -> Self { t as $t }
    fn ticks(self) -> Option<i128> { Some(self as i128) }
    fn ticks2(self) -> Option<i128> { Some(self as i128) }
    fn ticksn(self, _n: usize) -> f64 { self as f64 }
} } }
macro_rules! sc_float { ($t:ty, $w:expr) => { impl Sc for $t {
    const WIDE: i64 = $w; const FLOAT: bool = true;
    fn of(t: i64) -> Self { t as $t / 8.0 }
    fn ticks(self) -> Option<i128> { whole(self as f64 * 8.0) }
    fn ticks2(self) -> Option<i128> { whole(self as f64 * 64.0) }
    fn ticksn(self, n: usize) -> f64 { self as f64 * 8f64.powi(n as i32) }
} } }
fn whole(x: f64) -> Option<i128> { if x.is_finite() && x.fract() == 0.0 { Some(x as i128) } else { None } }
sc_int!(i64, 2000);
sc_int!(i32, 1000);
sc_int!(i16, 40);
sc_float!(f64, 1 << 20);
sc_float!(f32, 1000);

pub const MAXD: usize = 10;
pub type Tk = [i64; MAXD];

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind { Pt, Rect, Two }

#[derive(Clone, Copy)]
pub struct Raw { pub kind: Kind, pub d: usize, pub a: Tk, pub b: Tk }
impl PartialEq for Raw { fn eq(&self, o: &Self) -> bool { self.kind == o.kind && self.d == o.d && self.a[..self.d] == o.a[..self.d] && (self.kind == Kind::Pt || self.b[..self.d] == o.b[..self.d]) } }
impl Debug for Raw {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        if self.kind == Kind::Pt { write!(f, "pt{:?}", &self.a[..self.d]) }
        else { write!(f, "{:?}{:?}-{:?}", self.kind, &self.a[..self.d], &self.b[..self.d]) }
    }
}
impl Raw {
    pub fn lo(&self, i: usize) -> i64 { if self.kind == Kind::Pt { self.a[i] } else { self.a[i].min(self.b[i]) } }
    pub fn hi(&self, i: usize) -> i64 { if self.kind == Kind::Pt { self.a[i] } else { self.a[i].max(self.b[i]) } }
    pub fn d2(&self, q: &Tk) -> i128 {
        match self.kind {
            Kind::Pt => pd2(&self.a, q, self.d),
            Kind::Two => pd2(&self.a, q, self.d).min(pd2(&self.b, q, self.d)),
            Kind::Rect => (0..self.d).map(|i| {
                let x = q[i].clamp(self.lo(i), self.hi(i)) as i128 - q[i] as i128; x * x }).sum(),
        }
    }
    pub fn has(&self, q: &Tk) -> bool { self.d2(q) == 0 }
    pub fn within(&self, e: &Box_) -> bool { (0..self.d).all(|i| e.lo[i] <= self.lo(i) && self.hi(i) <= e.hi[i]) }
    pub fn meets(&self, e: &Box_) -> bool { (0..self.d).all(|i| e.lo[i] <= self.hi(i) && self.lo(i) <= e.hi[i]) }
    pub fn meets_raw(&self, o: &Raw) -> bool { (0..self.d).all(|i| o.lo(i) <= self.hi(i) && self.lo(i) <= o.hi(i)) }
}
pub fn pd2(a: &Tk, b: &Tk, d: usize) -> i128 { (0..d).map(|i| { let x = (a[i] - b[i]) as i128; x * x }).sum() }

#[derive(Clone, Copy)]
pub struct Box_ { pub d: usize, pub lo: Tk, pub hi: Tk }
impl PartialEq for Box_ { fn eq(&self, o: &Self) -> bool { self.d == o.d && self.lo[..self.d] == o.lo[..self.d] && self.hi[..self.d] == o.hi[..self.d] } }
impl Debug for Box_ {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "box{:?}..{:?}", &self.lo[..self.d], &self.hi[..self.d]) }
}
impl Box_ {
    pub fn empty(d: usize) -> Self { Box_ { d, lo: [i64::MAX; MAXD], hi: [i64::MIN; MAXD] } }
    pub fn is_empty(&self) -> bool { (0..self.d).any(|i| self.lo[i] > self.hi[i]) }
    pub fn add(&mut self, r: &Raw) { for i in 0..self.d { self.lo[i] = self.lo[i].min(r.lo(i)); self.hi[i] = self.hi[i].max(r.hi(i)); } }
    pub fn join(&mut self, r: &Box_) { for i in 0..self.d { self.lo[i] = self.lo[i].min(r.lo[i]); self.hi[i] = self.hi[i].max(r.hi[i]); } }
    pub fn has(&self, q: &Tk) -> bool { (0..self.d).all(|i| self.lo[i] <= q[i] && q[i] <= self.hi[i]) }
    pub fn inside(&self, e: &Box_) -> bool { (0..self.d).all(|i| e.lo[i] <= self.lo[i] && self.hi[i] <= e.hi[i]) }
    pub fn meets(&self, e: &Box_) -> bool { (0..self.d).all(|i| e.lo[i] <= self.hi[i] && self.lo[i] <= e.hi[i]) }
    pub fn d2(&self, q: &Tk) -> i128 { (0..self.d).map(|i| { let x = q[i].clamp(self.lo[i], self.hi[i]) as i128 - q[i] as i128; x * x }).sum() }
    pub fn aabb<P: Point>(&self) -> AABB<P> where P::Scalar: Sc {
        if self.is_empty() { AABB::new_empty() } else { AABB::from_corners(mkp::<P>(&self.lo), mkp::<P>(&self.hi)) }
    }
}
/// the box an AABB denotes, in ticks; Err when it is not on the tick grid
pub fn box_of<P: Point>(e: &AABB<P>) -> Result<Box_, String> where P::Scalar: Sc {
    let d = P::DIMENSIONS;
    let (l, u) = (e.lower(), e.upper());
    let mut b = Box_ { d, lo: [0; MAXD], hi: [0; MAXD] };
    if (0..d).all(|i| l.nth(i) > u.nth(i)) { return Ok(Box_::empty(d)); }
    for i in 0..d {
        b.lo[i] = l.nth(i).ticks().ok_or_else(|| format!("envelope bound {:?} matches no object", l.nth(i)))? as i64;
        b.hi[i] = u.nth(i).ticks().ok_or_else(|| format!("envelope bound {:?} matches no object", u.nth(i)))? as i64;
    }
    Ok(b)
}
pub fn tk_of<P: Point>(p: &P) -> Option<Tk> where P::Scalar: Sc {
    let mut t = [0; MAXD];
    for i in 0..P::DIMENSIONS { t[i] = p.nth(i).ticks()? as i64; }
    Some(t)
}
pub fn mkp<P: Point>(t: &Tk) -> P where P::Scalar: Sc { P::generate(|i| <P::Scalar as Sc>::of(t[i])) }

pub trait GeoT { type S: Sc; type P: Point<Scalar = Self::S> + Debug + PartialEq + Clone; const D: usize; const KIND: Kind; const NAME: &'static str; }
pub trait Geo: GeoT + RTreeObject<Envelope = AABB<<Self as GeoT>::P>> + PointDistance + Clone + PartialEq + Debug + Sized {
    fn build(a: &Tk, b: &Tk) -> Self;
}
macro_rules! geo { ($t:ty, $s:ty, $p:ty, $d:expr, $k:ident, $f:expr) => {
    impl GeoT for $t { type S = $s; type P = $p; const D: usize = $d; const KIND: Kind = Kind::$k; const NAME: &'static str = stringify!($t); }
    impl Geo for $t { fn build(a: &Tk, b: &Tk) -> Self { let f: fn($p, $p) -> $t = $f; f(mkp::<$p>(a), mkp::<$p>(b)) } }
} }
pub type P2i = [i64; 2];
pub type P2s = [i32; 2];
pub type P3 = [f64; 3];
pub type P2f = [f32; 2];
pub type Pt2 = (f64, f64);
pub type R2i = Rectangle<[i64; 2]>;
pub type R2 = Rectangle<[f64; 2]>;
pub type R7 = Rectangle<[f64; 7]>;
pub type R3i = Rectangle<[i64; 3]>;
pub type C2 = CachedEnvelope<Rectangle<[f32; 2]>>;
pub type G4 = GeomWithData<[i64; 4], u8>;
pub type T2 = Two<[f64; 2]>;
pub type T3 = Two<[i64; 3]>;
geo!(P2i, i64, [i64; 2], 2, Pt, |a, _| a);
geo!(P2s, i32, [i32; 2], 2, Pt, |a, _| a);
geo!(P3, f64, [f64; 3], 3, Pt, |a, _| a);
geo!(P2f, f32, [f32; 2], 2, Pt, |a, _| a);
geo!(Pt2, f64, (f64, f64), 2, Pt, |a, _| a);
geo!(R2i, i64, [i64; 2], 2, Rect, |a, b| Rectangle::from_corners(a, b));
geo!(R2, f64, [f64; 2], 2, Rect, |a, b| Rectangle::from_corners(a, b));
geo!(R7, f64, [f64; 7], 7, Rect, |a, b| Rectangle::from_corners(a, b));
geo!(R3i, i64, [i64; 3], 3, Rect, |a, b| Rectangle::from_corners(a, b));
geo!(C2, f32, [f32; 2], 2, Rect, |a, b| CachedEnvelope::new(Rectangle::from_corners(a, b)));
geo!(G4, i64, [i64; 4], 4, Pt, |a, _| GeomWithData::new(a, 7));
geo!(T2, f64, [f64; 2], 2, Two, |a, b| Two { a, b });
geo!(T3, i64, [i64; 3], 3, Two, |a, b| Two { a, b });

/// A user object: two separate points (so its envelope contains points it does
/// not touch), relying on the default `contains_point` and bounded distance.
#[derive(Clone, PartialEq, Debug)]
pub struct Two<P> { pub a: P, pub b: P }
impl<P: Point> RTreeObject for Two<P> { type Envelope = AABB<P>; fn envelope(&self) -> AABB<P> { AABB::from_points([&self.a, &self.b]) } }
impl<P: Point> PointDistance for Two<P> {
    fn distance_2(&self, q: &P) -> P::Scalar {
        let f = |p: &P| { let mut s: P::Scalar = num_traits::zero(); for i in 0..P::DIMENSIONS { let x = p.nth(i) - q.nth(i); s = s + x * x; } s };
        let (x, y) = (f(&self.a), f(&self.b));
        if x < y { x } else { y }
    }
}

/// What the trees hold: geometry, a tag that takes part in equality, and a
/// serial number that does not (it tells equal occurrences apart).
#[derive(Clone)]
pub struct Item<G> { pub geom: G, pub raw: Raw, pub tag: u8, pub serial: u32 }
impl<G> Debug for Item<G> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "#{}:{:?}t{}", self.serial, self.raw, self.tag) } }
impl<G> PartialEq for Item<G> { fn eq(&self, o: &Self) -> bool { self.raw == o.raw && self.tag == o.tag } }
impl<G: Geo> RTreeObject for Item<G> { type Envelope = AABB<G::P>; fn envelope(&self) -> AABB<G::P> { self.geom.envelope() } }
impl<G: Geo> PointDistance for Item<G> {
    fn distance_2(&self, p: &G::P) -> G::S { self.geom.distance_2(p) }
    fn contains_point(&self, p: &G::P) -> bool { self.geom.contains_point(p) }
    fn distance_2_if_less_or_equal(&self, p: &G::P, m: G::S) -> Option<G::S> { self.geom.distance_2_if_less_or_equal(p, m) }
}

pub struct Pm<const MAX: usize, const MIN: usize, const RE: usize>;
impl<const MAX: usize, const MIN: usize, const RE: usize> RTreeParams for Pm<MAX, MIN, RE> {
    const MAX_SIZE: usize = MAX; const MIN_SIZE: usize = MIN; const REINSERTION_COUNT: usize = RE;
    type DefaultInsertionStrategy = RStarInsertionStrategy;
}

/// where coordinates come from
#[derive(Clone, Debug)]
pub struct Prof { mode: usize, span: i64, c: Tk, axis: usize }
impl Prof {
    pub fn new(r: &mut Rng, wide: i64, d: usize) -> Prof {
        let mode = r.below(8);
        let span = match r.below(6) { 0 => 1, 1 => 3, 2 => 8, 3 => 40, 4 => 300.min(wide), _ => wide }.min(wide);
        let mut c = [0; MAXD];
        for i in 0..d { c[i] = r.range(-(wide - span), wide - span); }
        if r.chance(1, 2) { c = [0; MAXD]; }
        if let Some(h) = hint(r, 1, 4) {
            let h = if r.chance(1, 2) { h } else { h.saturating_mul(8) };
            for i in 0..d { c[i] = (match r.below(3) { 0 => h, 1 => -h, _ => 0 }).clamp(-(wide - span), wide - span); }
        }
        Prof { mode, span, c, axis: r.below(d) }
    }
    pub fn at(&self, r: &mut Rng, d: usize) -> Tk {
        let mut t = [0; MAXD];
        let diag = r.range(-self.span, self.span);
        for i in 0..d {
            let x = match self.mode {
                0 if i != self.axis => 0,                                   // on one line
                1 => diag,                                                   // on the diagonal
                2 => { let s = (self.span / 8).max(1); (r.range(-self.span, self.span) / s) * s } // clusters
                3 if r.chance(3, 4) => 0,                                     // mostly identical
                4 => { let k = r.below(5) as u32; let s = (self.span >> (2 * k)).max(1); r.range(-s, s) } // skewed
                _ => r.range(-self.span, self.span),
            };
            t[i] = self.c[i] + x;
        }
        t
    }
    pub fn raw(&self, r: &mut Rng, kind: Kind, d: usize, wide: i64) -> Raw {
        let a = self.at(r, d);
        let mut b = a;
        if kind != Kind::Pt {
            let e = match r.below(6) { 0 => 0, 1 => 1, 2 => 3, 3 => (self.span / 8).max(1), 4 => (self.span / 2).max(1), _ => self.span };
            for i in 0..d { b[i] = (a[i] + r.range(-e, e)).clamp(-wide, wide); }
        }
        Raw { kind, d, a, b }
    }
}
