//! C15-C20: boxes, point types, primitives, wrappers, parameters.
use crate::ensure;
use crate::gen::*;
use crate::trees::{Cx, Res};
use rstar::primitives::*;
use rstar::*;
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::Arc;

fn qpt<S: Sc>(cx: &mut Cx, prof: &Prof, d: usize, near: &[Tk]) -> Tk {
    let mut t = if !near.is_empty() && cx.r.chance(2, 3) { near[cx.r.below(near.len())] } else { prof.at(&mut cx.r, d) };
    for i in 0..d { if cx.r.chance(1, 4) { t[i] += cx.r.range(-3, 3); } if cx.r.chance(1, 4) && !near.is_empty() { t[i] = near[cx.r.below(near.len())][i]; } }
    t
}
fn rbox<S: Sc>(cx: &mut Cx, prof: &Prof, d: usize) -> (Box_, Vec<Tk>) {
    let k = 1 + cx.r.below(5);
    let pts: Vec<Tk> = (0..k).map(|_| prof.at(&mut cx.r, d)).collect();
    let mut b = Box_::empty(d);
    for p in &pts { for i in 0..d { b.lo[i] = b.lo[i].min(p[i]); b.hi[i] = b.hi[i].max(p[i]); } }
    (b, pts)
}
fn near(a: f64, b: f64) -> bool { (a - b).abs() <= 1e-5 * a.abs().max(b.abs()).max(1e-3) }
fn eqb<P: Point>(what: &str, got: &AABB<P>, want: &Box_) -> Res where P::Scalar: Sc {
    let g = box_of(got)?;
    ensure!(g == *want, "{}: got {:?}, expected {:?}", what, g, want);
    Ok(())
}
fn is_empty_box<P: Point>(e: &AABB<P>) -> bool { (0..P::DIMENSIONS).all(|i| e.lower().nth(i) > e.upper().nth(i)) }

pub fn c15<P: Point + Debug>(cx: &mut Cx) -> Res where P::Scalar: Sc {
    cx.own(true);
    let d = P::DIMENSIONS;
    let small = if P::Scalar::FLOAT { P::Scalar::WIDE } else { match d { 1 | 2 => P::Scalar::WIDE, 3 => 30, _ => 12 } };
    let prof = Prof::new(&mut cx.r, small, d);
    let (x, xp) = rbox::<P::Scalar>(cx, &prof, d);
    let (y, yp) = rbox::<P::Scalar>(cx, &prof, d);
    let mut near_ = xp.clone(); near_.extend(yp.clone());
    let q = qpt::<P::Scalar>(cx, &prof, d, &near_);
    cx.note(format!("{} boxes {:?} (of {:?}), {:?}; point {:?}", std::any::type_name::<P>(), x, xp.iter().map(|p| p[..d].to_vec()).collect::<Vec<_>>(), y, &q[..d]));
    cx.mark(x.lo[0] as u64 ^ (x.hi[0] as u64) << 8 ^ (y.lo[0] as u64) << 16 ^ (y.hi[0] as u64) << 24 ^ (q[0] as u64) << 32);
    cx.nontrivial = x != y;
    cx.evals += 20;
    let pv: Vec<P> = xp.iter().map(mkp).collect();
    let a = AABB::from_points(pv.iter());
    let b = AABB::from_points(yp.iter().map(mkp::<P>).collect::<Vec<_>>().iter());
    let p: P = mkp(&q);
    eqb("from_points", &a, &x)?;
    eqb("from_points", &b, &y)?;
    let (c1, c2) = corners(cx, &x, d);
    eqb("from_corners", &AABB::from_corners(mkp::<P>(&c1), mkp(&c2)), &x)?;
    eqb("from_bounds", &AABB::from_bounds(mkp::<P>(&x.lo), mkp(&x.hi)), &x)?;
    eqb("from_point", &AABB::from_point(p.clone()), &Box_ { d, lo: q, hi: q })?;
    { // from_center: the box reaching `r` in every direction
        let r = (x.hi[0] - x.lo[0]).min(if P::Scalar::FLOAT { 1 << 19 } else { small });
        let r = if cx.r.chance(1, 3) { -r } else { r };
        let mut w = Box_ { d, lo: q, hi: q };
        for i in 0..d { w.lo[i] = q[i] - r.abs(); w.hi[i] = q[i] + r.abs(); }
        eqb("from_center", &AABB::from_center(p.clone(), P::Scalar::of(r)), &w)?;
    }
    ensure!(tk_of(&a.lower()).is_some_and(|t| t[..d] == x.lo[..d]) && tk_of(&a.upper()).is_some_and(|t| t[..d] == x.hi[..d]), "lower()/upper() of {:?}", x);
    let mut u = x; u.join(&y);
    eqb("merged", &a.merged(&b), &u)?;
    eqb("merged", &b.merged(&a), &u)?;
    let mut m = a.clone(); m.merge(&b);
    eqb("merge", &m, &u)?;
    ensure!(a.contains_envelope(&b) == y.inside(&x), "{:?} contains_envelope {:?} is {}", x, y, a.contains_envelope(&b));
    ensure!(a.merged(&b).contains_envelope(&b), "merged box does not contain {:?}", y);
    ensure!(a.contains_envelope(&a), "{:?} does not contain itself", x);
    ensure!(a.contains_point(&p) == x.has(&q), "{:?} contains_point {:?} is {}", x, &q[..d], a.contains_point(&p));
    ensure!(a.intersects(&b) == x.meets(&y), "{:?} intersects {:?} is {}", x, y, a.intersects(&b));
    ensure!(b.intersects(&a) == x.meets(&y), "{:?} intersects {:?} is {}", y, x, b.intersects(&a));
    ensure!(!a.is_empty(), "{:?} is reported empty", x);
    let e: AABB<P> = AABB::new_empty();
    ensure!(e.is_empty() && is_empty_box(&e), "new_empty() is not empty: {:?}", e);
    ensure!(AABB::<P>::from_points([]).is_empty(), "from_points of nothing is not empty");
    eqb("merging the empty box", &a.merged(&e), &x)?;
    eqb("merging into the empty box", &e.merged(&a), &x)?;
    let mut m = e.clone(); m.merge(&a); eqb("merge into the empty box", &m, &x)?;
    let mut m = a.clone(); m.merge(&e); eqb("merge with the empty box", &m, &x)?;
    ensure!(a.contains_envelope(&e), "{:?} does not contain the empty box", x);
    ensure!(!e.contains_envelope(&a) && !e.contains_point(&p) && !e.intersects(&a) && !a.intersects(&e), "the empty box contains or meets {:?} or {:?}", x, &q[..d]);
    let side = |b: &Box_, i: usize| (b.hi[i] - b.lo[i]) as f64;
    let area: f64 = (0..d).map(|i| side(&x, i)).product();
    ensure!(near(a.area().ticksn(d), area), "area of {:?} is {:?}", x, a.area());
    let inter: f64 = (0..d).map(|i| (x.hi[i].min(y.hi[i]) - x.lo[i].max(y.lo[i])).max(0) as f64).product();
    ensure!(near(a.intersection_area(&b).ticksn(d), inter), "intersection area of {:?} and {:?} is {:?}", x, y, a.intersection_area(&b));
    ensure!(a.intersection_area(&b) == b.intersection_area(&a), "intersection area of {:?} and {:?} is not symmetric", x, y);
    let per: i128 = (0..d).map(|i| (x.hi[i] - x.lo[i]) as i128).sum();
    ensure!(a.perimeter_value().ticks() == Some(per), "perimeter value of {:?} is {:?}", x, a.perimeter_value());
    let c = a.center();
    for i in 0..d {
        let twice = (x.lo[i] + x.hi[i]) as f64;
        let got = c.nth(i).ticksn(1) * 2.0;
        ensure!(if P::Scalar::FLOAT { got == twice } else { (got - twice).abs() <= 1.0 }, "center of {:?} is {:?}", x, c);
    }
    // the empty box has no area and no perimeter (floats: no overflow)
    if P::Scalar::FLOAT { ensure!(e.area() == num_traits::zero() && e.perimeter_value() == num_traits::zero(), "the empty box has area {:?}, perimeter {:?}", e.area(), e.perimeter_value()); }
    Ok(())
}
fn corners(cx: &mut Cx, b: &Box_, d: usize) -> (Tk, Tk) {
    let (mut c1, mut c2) = (b.lo, b.hi);
    for i in 0..d { if cx.r.chance(1, 2) { std::mem::swap(&mut c1[i], &mut c2[i]); } }
    (c1, c2)
}
pub fn c16<P: Point + Debug>(cx: &mut Cx) -> Res where P::Scalar: Sc {
    cx.own(true);
    let d = P::DIMENSIONS;
    let prof = Prof::new(&mut cx.r, P::Scalar::WIDE, d);
    let (x, xp) = rbox::<P::Scalar>(cx, &prof, d);
    let (y, yp) = rbox::<P::Scalar>(cx, &prof, d);
    let mut nr = xp.clone(); nr.extend(yp);
    let q = qpt::<P::Scalar>(cx, &prof, d, &nr);
    cx.note(format!("{} box {:?} of points {:?}; other {:?}; query {:?}", std::any::type_name::<P>(), x, xp.iter().map(|p| p[..d].to_vec()).collect::<Vec<_>>(), y, &q[..d]));
    cx.mark(x.lo[0] as u64 ^ (x.hi[0] as u64) << 8 ^ (y.lo[0] as u64) << 16 ^ (q[0] as u64) << 32);
    cx.nontrivial = x.lo != x.hi;
    cx.evals += 6;
    let a: AABB<P> = x.aabb();
    let p: P = mkp(&q);
    let want = x.d2(&q);
    let (d1, d2) = (a.distance_2(&p), <AABB<P> as Envelope>::distance_2(&a, &p));
    ensure!(d1.ticks2() == Some(want) && d2.ticks2() == Some(want), "distance_2 of {:?} to {:?} is {:?} / {:?}, expected {} square ticks", x, &q[..d], d1, d2, want);
    let n = tk_of(&a.min_point(&p));
    ensure!(n.is_some_and(|n| x.has(&n) && pd2(&n, &q, d) == want), "min_point of {:?} to {:?} is {:?}", x, &q[..d], n.map(|n| n[..d].to_vec()));
    let u = a.merged(&y.aabb());
    ensure!(u.distance_2(&p) <= d1, "distance grew from {:?} to {:?} when {:?} was enlarged by {:?}", d1, u.distance_2(&p), x, y);
    let m = a.min_max_dist_2(&p).ticks2().ok_or("min_max_dist_2 off the grid")?;
    let closest = xp.iter().map(|c| pd2(c, &q, d)).min().unwrap();
    let far: i128 = (0..d).map(|i| { let z = (x.lo[i] - q[i]).abs().max((x.hi[i] - q[i]).abs()) as i128; z * z }).sum();
    ensure!(m >= closest, "min_max_dist_2 of {:?} to {:?} is {}, but the closest of its points {:?} is at {}", x, &q[..d], m, xp.iter().map(|p| p[..d].to_vec()).collect::<Vec<_>>(), closest);
    ensure!(m <= far, "min_max_dist_2 of {:?} to {:?} is {}, but the farthest corner is at {}", x, &q[..d], m, far);
    // the worst point set with this smallest box: all points as far away as a face allows
    let worst: i128 = (0..d).map(|k| (0..d).map(|i| {
        let (l, h) = (((x.lo[i] - q[i]) as i128).pow(2), ((x.hi[i] - q[i]) as i128).pow(2));
        if i == k { l.min(h) } else { l.max(h) } }).sum::<i128>()).min().unwrap();
    // every set touches each face; one point per face, placed on the far corners of that face
    let adv = adversary(&x, &q, d);
    ensure!(m >= adv, "min_max_dist_2 of {:?} to {:?} is {}, but points on its faces all at {} or farther (bound {}) have it as their smallest box", x, &q[..d], m, adv, worst);
    Ok(())
}
/// largest achievable distance to the closest point, over point sets whose
/// smallest box is `x`: the minimum over faces of the farthest point of the face
fn adversary(x: &Box_, q: &Tk, d: usize) -> i128 {
    let mut best = i128::MAX;
    for k in 0..d { for c in [x.lo[k], x.hi[k]] {
        let s: i128 = (0..d).map(|i| { if i == k { ((c - q[i]) as i128).pow(2) } else { ((x.lo[i] - q[i]) as i128).pow(2).max(((x.hi[i] - q[i]) as i128).pow(2)) } }).sum();
        best = best.min(s);
    } }
    best
}
pub fn c17<P: Point + Debug>(cx: &mut Cx, dim: usize) -> Res where P::Scalar: Sc {
    cx.own(true);
    ensure!(P::DIMENSIONS == dim, "{} has DIMENSIONS {}", std::any::type_name::<P>(), P::DIMENSIONS);
    let prof = Prof::new(&mut cx.r, P::Scalar::WIDE, dim.min(MAXD));
    let mut t = [0i64; 40];
    for i in 0..dim { t[i] = prof.at(&mut cx.r, 1)[0] + i as i64; }
    cx.note(format!("{} {:?}", std::any::type_name::<P>(), &t[..dim]));
    cx.mark(t[0] as u64 ^ (t[dim - 1] as u64) << 16 ^ (dim as u64) << 40);
    cx.nontrivial = true;
    cx.evals += 1 + 2 * dim as u64;
    let mut calls = vec![];
    let p = P::generate(|i| { calls.push(i); P::Scalar::of(*t.get(i).unwrap_or(&-1)) });
    ensure!(calls == (0..dim).collect::<Vec<_>>(), "generate called its generator with {:?}", calls);
    for i in 0..dim { ensure!(p.nth(i) == P::Scalar::of(t[i]), "coordinate {} reads {:?}, generated {:?}", i, p.nth(i), P::Scalar::of(t[i])); }
    // a stateful generator: order of calls decides the value
    let mut k = 0i64;
    let o = P::generate(|_| { k += 1; P::Scalar::of(k) });
    for i in 0..dim { ensure!(o.nth(i) == P::Scalar::of(i as i64 + 1), "coordinate {} is not the {}th generated value", i, i); }
    for j in 0..dim {
        let mut z = p.clone();
        let v = P::Scalar::of(t[j] + 5);
        ensure!(*z.nth_mut(j) == P::Scalar::of(t[j]), "nth_mut({}) refers to {:?}", j, z.nth_mut(j));
        *z.nth_mut(j) = v;
        for i in 0..dim { let w = if i == j { v } else { P::Scalar::of(t[i]) }; ensure!(z.nth(i) == w, "after writing coordinate {}, coordinate {} reads {:?}", j, i, z.nth(i)); }
    }
    Ok(())
}
/// points and rectangles: exact
fn c18_obj<G: Geo>(cx: &mut Cx, near_pt: impl Fn(&G, &G::P) -> Option<G::P>) -> Res {
    let prof = Prof::new(&mut cx.r, G::S::WIDE, G::D);
    let raw = prof.raw(&mut cx.r, G::KIND, G::D, G::S::WIDE);
    let g = G::build(&raw.a, &raw.b);
    let q = qpt::<G::S>(cx, &prof, G::D, &[raw.a, raw.b]);
    let lim = (raw.d2(&q) + cx.r.range(-2, 2) as i128).clamp(0, if std::mem::size_of::<G::S>() == 4 { 1 << 22 } else { 1 << 44 });
    cx.note(format!("{} {:?}, point {:?}, limit {}", G::NAME, raw, &q[..G::D], lim));
    cx.mark(raw.a[0] as u64 ^ (raw.b[1] as u64) << 16 ^ (q[0] as u64) << 32 ^ (q[1] as u64) << 48);
    cx.nontrivial = true;
    cx.evals += 5;
    let p: G::P = mkp(&q);
    let mut b = Box_::empty(G::D); b.add(&raw);
    eqb(&format!("envelope of {:?}", raw), &g.envelope(), &b)?;
    let want = raw.d2(&q);
    ensure!(g.distance_2(&p).ticks2() == Some(want), "distance_2 of {:?} to {:?} is {:?}, expected {}", raw, &q[..G::D], g.distance_2(&p), want);
    ensure!(g.contains_point(&p) == (want == 0), "{:?} contains_point {:?} is {}", raw, &q[..G::D], g.contains_point(&p));
    let l = crate::trees::d2s::<G>(lim);
    let got = g.distance_2_if_less_or_equal(&p, l);
    let exp = if want <= lim { Some(want) } else { None };
    ensure!(got.map(|v| v.ticks2()) == exp.map(Some), "distance_2_if_less_or_equal({:?}, {}) of {:?} is {:?}, distance {}", &q[..G::D], lim, raw, got, want);
    if let Some(n) = near_pt(&g, &p) {
        let n = tk_of(&n).ok_or("nearest_point off the grid")?;
        ensure!(raw.has(&n) && pd2(&n, &q, G::D) == want, "nearest_point of {:?} to {:?} is {:?}", raw, &q[..G::D], &n[..G::D]);
    }
    Ok(())
}
fn c18_line<P: Point<Scalar = f64> + Debug>(cx: &mut Cx) -> Res {
    let d = P::DIMENSIONS;
    let prof = Prof::new(&mut cx.r, 2000, d);
    let raw = prof.raw(&mut cx.r, Kind::Rect, d, 2000);
    let q = qpt::<f64>(cx, &prof, d, &[raw.a, raw.b]);
    cx.note(format!("Line {:?}, point {:?}", raw, &q[..d]));
    cx.mark(raw.a[0] as u64 ^ (raw.b[1] as u64) << 16 ^ (q[0] as u64) << 32);
    cx.nontrivial = raw.a != raw.b;
    cx.evals += 6;
    let (f, t, p): (P, P, P) = (mkp(&raw.a), mkp(&raw.b), mkp(&q));
    let line = Line::new(f.clone(), t.clone());
    let mut b = Box_::empty(d); b.add(&raw);
    eqb("envelope of a line", &line.envelope(), &b)?;
    ensure!(line.length_2().ticks2() == Some(pd2(&raw.a, &raw.b, d)), "length_2 is {:?}", line.length_2());
    // exact rational projection of the query onto the segment
    let dot: i128 = (0..d).map(|i| (q[i] - raw.a[i]) as i128 * (raw.b[i] - raw.a[i]) as i128).sum();
    let len = pd2(&raw.a, &raw.b, d);
    let s = if len == 0 { 0.0 } else { (dot as f64 / len as f64).clamp(0.0, 1.0) };
    let foot: Vec<f64> = (0..d).map(|i| raw.a[i] as f64 + s * (raw.b[i] - raw.a[i]) as f64).collect();
    let want: f64 = if len == 0 { pd2(&raw.a, &q, d) as f64 } else if dot <= 0 { pd2(&raw.a, &q, d) as f64 } else if dot >= len { pd2(&raw.b, &q, d) as f64 }
        else { (pd2(&raw.a, &q, d) * len - dot * dot) as f64 / len as f64 };
    let got = line.distance_2(&p) * 64.0;
    let tol = 1e-6 * (1.0 + want);
    ensure!((got - want).abs() <= tol, "distance_2 is {} square ticks, expected {}", got, want);
    let n = line.nearest_point(&p);
    for i in 0..d {
        ensure!((n.nth(i) * 8.0 - foot[i]).abs() <= 1e-6 * (1.0 + foot[i].abs()), "nearest_point is {:?}, expected {:?} (ticks)", n, foot);
        ensure!(n.nth(i) * 8.0 >= b.lo[i] as f64 - 1e-6 && n.nth(i) * 8.0 <= b.hi[i] as f64 + 1e-6, "nearest_point {:?} lies outside the line's envelope", n);
    }
    ensure!(line.contains_point(&f) && line.contains_point(&t), "an end point is not on the line");
    ensure!(line.distance_2(&f) == 0.0 && line.distance_2(&t) == 0.0, "an end point is at distance {} / {}", line.distance_2(&f), line.distance_2(&t));
    if want > 1e-3 { ensure!(!line.contains_point(&p), "contains_point, but the distance is {}", want); }
    let exact = line.distance_2(&p);
    let m = exact * 1.01 + 0.1;
    ensure!(line.distance_2_if_less_or_equal(&p, m) == Some(exact), "distance_2_if_less_or_equal({}) is {:?}, the distance is {}", m, line.distance_2_if_less_or_equal(&p, m), exact);
    let m = exact * 0.99 - 0.01;
    ensure!(line.distance_2_if_less_or_equal(&p, m).is_none(), "distance_2_if_less_or_equal({}) is {:?}, the distance is {}", m, line.distance_2_if_less_or_equal(&p, m), exact);
    Ok(())
}
pub fn c18(cx: &mut Cx, which: usize) -> Res {
    cx.own(true);
    match which % 12 {
        10 => c18_obj::<R7>(cx, |g, p| Some(g.nearest_point(p))),
        11 => c18_line::<[f64; 7]>(cx),
        0 => c18_obj::<R2i>(cx, |g, p| Some(g.nearest_point(p))),
        1 => c18_obj::<R2>(cx, |g, p| Some(g.nearest_point(p))),
        2 => c18_obj::<R3i>(cx, |g, p| Some(g.nearest_point(p))),
        3 => c18_obj::<P2i>(cx, |_, _| None),
        4 => c18_obj::<P3>(cx, |_, _| None),
        5 => c18_obj::<Pt2>(cx, |_, _| None),
        6 | 7 => c18_line::<[f64; 2]>(cx),
        8 => c18_line::<[f64; 3]>(cx),
        _ => {
            let prof = Prof::new(&mut cx.r, 1000, 2);
            let raw = prof.raw(&mut cx.r, Kind::Rect, 2, 1000);
            cx.note(format!("rectangle accessors {:?}", raw));
            cx.nontrivial = true; cx.evals += 1;
            let r = R2i::from_corners(mkp(&raw.a), mkp(&raw.b));
            let f: R2i = AABB::from_corners(mkp::<[i64; 2]>(&raw.a), mkp(&raw.b)).into();
            ensure!(r == f && R2i::from_aabb(r.envelope()) == r, "the rectangle's constructors disagree");
            for i in 0..2 { ensure!(r.lower()[i] == raw.lo(i) && r.upper()[i] == raw.hi(i), "corners are {:?} {:?}", r.lower(), r.upper()); }
            Ok(())
        }
    }
}
/// An object all of whose answers are unusual, so that a wrapper that computes
/// one of them itself instead of passing the question on is noticed.
#[derive(Clone, PartialEq, Debug)]
struct Odd { lo: [i64; 2], hi: [i64; 2], k: i64 }
impl RTreeObject for Odd { type Envelope = AABB<[i64; 2]>; fn envelope(&self) -> AABB<[i64; 2]> { AABB::from_corners(self.lo, self.hi) } }
impl PointDistance for Odd {
    fn distance_2(&self, p: &[i64; 2]) -> i64 { self.k * 1000 + p[0] * 7 + p[1] }
    fn contains_point(&self, p: &[i64; 2]) -> bool { (p[0] + p[1] + self.k) % 3 == 0 }
    fn distance_2_if_less_or_equal(&self, p: &[i64; 2], m: i64) -> Option<i64> { if (p[0] ^ p[1] ^ m ^ self.k) & 1 == 0 { Some(self.k * 31 + p[0] * 5 + p[1] + m) } else { None } }
}
fn alike<A: PointDistance, B: PointDistance<Envelope = A::Envelope>>(name: &str, a: &A, b: &B, p: &<A::Envelope as Envelope>::Point, m: <<A::Envelope as Envelope>::Point as Point>::Scalar) -> Res where A::Envelope: PartialEq + Debug {
    ensure!(a.envelope() == b.envelope(), "{}: envelope {:?}, wrapped object has {:?}", name, a.envelope(), b.envelope());
    ensure!(a.distance_2(p) == b.distance_2(p), "{}: distance_2 {:?}, wrapped object has {:?}", name, a.distance_2(p), b.distance_2(p));
    ensure!(a.contains_point(p) == b.contains_point(p), "{}: contains_point {:?}, wrapped object says {:?}", name, a.contains_point(p), b.contains_point(p));
    ensure!(a.distance_2_if_less_or_equal(p, m) == b.distance_2_if_less_or_equal(p, m), "{}: distance_2_if_less_or_equal({:?}) {:?}, wrapped object says {:?}", name, m, a.distance_2_if_less_or_equal(p, m), b.distance_2_if_less_or_equal(p, m));
    Ok(())
}
fn all_wrappers<G: PointDistance + Clone + PartialEq + Debug>(g: &G, p: &<G::Envelope as Envelope>::Point, m: <<G::Envelope as Envelope>::Point as Point>::Scalar, data: u32) -> Res where G::Envelope: PartialEq + Debug {
    let w = GeomWithData::new(g.clone(), data);
    alike("GeomWithData", &w, g, p, m)?;
    ensure!(w.geom() == g && w.data == data, "GeomWithData gives back {:?} {}", w.geom(), w.data);
    let c = CachedEnvelope::new(g.clone());
    alike("CachedEnvelope", &c, g, p, m)?;
    ensure!(&*c == g, "CachedEnvelope gives back {:?}", &*c);
    let r = ObjectRef::new(g);
    alike("ObjectRef", &r, g, p, m)?;
    ensure!(std::ptr::eq(&*r, g), "ObjectRef refers to another object");
    alike("Rc", &Rc::new(g.clone()), g, p, m)?;
    alike("Arc", &Arc::new(g.clone()), g, p, m)?;
    alike("GeomWithData<CachedEnvelope<ObjectRef>>", &GeomWithData::new(CachedEnvelope::new(ObjectRef::new(g)), 1), g, p, m)?;
    alike("Rc<CachedEnvelope<GeomWithData>>", &Rc::new(CachedEnvelope::new(GeomWithData::new(g.clone(), ()))), g, p, m)?;
    Ok(())
}
#[allow(deprecated)]
pub fn c19(cx: &mut Cx, which: usize) -> Res {
    cx.own(true);
    let prof = Prof::new(&mut cx.r, 900, 2);
    let raw = prof.raw(&mut cx.r, Kind::Rect, 2, 900);
    let q = qpt::<f32>(cx, &prof, 2, &[raw.a, raw.b]);
    let (m, k) = (cx.r.range(-3, 4000), cx.r.range(-50, 50));
    cx.note(format!("{:?}, point {:?}, limit {}, k {}", raw, &q[..2], m, k));
    cx.mark(raw.a[0] as u64 ^ (raw.b[1] as u64) << 16 ^ (q[0] as u64) << 32 ^ (which as u64) << 60);
    cx.nontrivial = true; cx.evals += 7;
    match which % 5 {
        0 | 1 => { let o = Odd { lo: mkp(&raw.a), hi: mkp(&raw.b), k }; all_wrappers(&o, &mkp(&q), m, k as u32) }
        2 => all_wrappers(&R2::build(&raw.a, &raw.b), &mkp(&q), m as f64 / 8.0, 3),
        3 => all_wrappers(&Line::new(mkp::<[f64; 2]>(&raw.a), mkp(&raw.b)), &mkp(&q), m as f64 / 8.0, 3),
        _ => {
            let p: [i64; 2] = mkp(&raw.a);
            let w = PointWithData::new(k, p);
            all_wrappers(&p, &mkp(&q), m, 9)?;
            alike("PointWithData", &w, &p, &mkp(&q), m)?;
            alike("PointWithData at its point", &w, &p, &p, 0)?;
            ensure!(w.position() == &p && w.data == k, "PointWithData gives back {:?} {}", w.position(), w.data);
            Ok(())
        }
    }
}
// ------------------------------------------------------------------- C20
fn ok(f: fn()) -> bool { catch_unwind(f).is_ok() }
fn new_<P: Point + Debug, PM: RTreeParams>() { let t: RTree<P, PM> = RTree::new_with_params(); std::mem::forget(t); }
fn bulk_<P: Point + Debug, PM: RTreeParams, const N: usize>() { let t: RTree<P, PM> = RTree::bulk_load_with_params((0..N).map(|i| P::generate(|_| num_traits::cast_(i))).collect()); std::hint::black_box(t.size()); }
mod num_traits {
    pub use ::num_traits::*;
    pub fn cast_<S: rstar::RTreeNum>(i: usize) -> S { let mut s: S = zero(); for _ in 0..i { s = s + one(); } s }
}
fn probe(cx: &mut Cx, (ma, mi, re): (usize, usize, usize), list: &[(&str, usize, fn())]) -> Res {
    let valid = ma >= 4 && mi > 0 && mi <= ma / 2 + ma % 2 && re < ma - mi;
    for (name, dims, f) in list {
        cx.evals += 1;
        cx.nontrivial = true;
        let (want, got) = (valid && *dims >= 2, ok(*f));
        ensure!(got == want, "{} with MAX_SIZE {}, MIN_SIZE {}, REINSERTION_COUNT {} and {} dimension(s) is {}", name, ma, mi, re, dims, if got { "accepted" } else { "rejected" });
    }
    Ok(())
}
fn one_param<PM: RTreeParams>(cx: &mut Cx) -> Res { probe(cx, (PM::MAX_SIZE, PM::MIN_SIZE, PM::REINSERTION_COUNT), &[("new_with_params", 2, new_::<[i32; 2], PM>)]) }
fn bulk_param<PM: RTreeParams>(cx: &mut Cx) -> Res {
    probe(cx, (PM::MAX_SIZE, PM::MIN_SIZE, PM::REINSERTION_COUNT), &[("new_with_params", 2, new_::<[i32; 2], PM>), ("bulk_load_with_params of nothing", 2, bulk_::<[i32; 2], PM, 0>),
        ("bulk_load_with_params of 3", 2, bulk_::<[i32; 2], PM, 3>), ("new_with_params", 1, new_::<[i32; 1], PM>), ("bulk_load_with_params of nothing", 1, bulk_::<[i32; 1], PM, 0>)])
}
macro_rules! grid_re { ($cx:ident, $b:ident, $ma:literal, $mi:literal; $($re:literal)*) => { $( $b::<Pm<$ma, $mi, $re>>($cx)?; )* } }
macro_rules! grid_mi { ($cx:ident, $b:ident, $ma:literal; $($mi:literal)*) => { $( grid_re!($cx, $b, $ma, $mi; 0 1 2 3 4 5 6 8 9 20); )* } }
macro_rules! grid { ($cx:ident, $b:ident; $($ma:literal)*) => { $( grid_mi!($cx, $b, $ma; 0 1 2 3 4 5 6 8 9 10); )* } }
pub fn c20(cx: &mut Cx, which: usize) -> Res {
    cx.own(true);
    cx.mark(which as u64);
    cx.note(format!("parameter grid, part {}", which % 9));
    match which % 9 {
        0 => { grid!(cx, one_param; 0 1 2 3); }
        1 => { grid!(cx, one_param; 4 5 6); }
        2 => { grid!(cx, one_param; 7 8 9); }
        3 => { grid!(cx, one_param; 10 11 16); }
        4 => { grid!(cx, one_param; 17 18); }
        5 => { grid_re!(cx, bulk_param, 4, 1; 0 1 2 3 4); grid_re!(cx, bulk_param, 4, 2; 0 1 2 3); grid_re!(cx, bulk_param, 4, 3; 0 1); grid_re!(cx, bulk_param, 4, 0; 0 3 4); grid_re!(cx, bulk_param, 3, 1; 0 1); grid_re!(cx, bulk_param, 3, 2; 0 1); grid_re!(cx, bulk_param, 2, 1; 0); }
        6 => { grid_re!(cx, bulk_param, 5, 3; 0 1 2); grid_re!(cx, bulk_param, 5, 2; 2 3); grid_re!(cx, bulk_param, 6, 3; 2 3); grid_re!(cx, bulk_param, 6, 4; 0 1); grid_re!(cx, bulk_param, 7, 4; 2 3); grid_re!(cx, bulk_param, 7, 5; 0); }
        7 => { grid_re!(cx, bulk_param, 16, 8; 0 7 8); grid_re!(cx, bulk_param, 17, 9; 7 8); grid_re!(cx, bulk_param, 17, 10; 0); grid_re!(cx, bulk_param, 200, 100; 0 99 100); grid_re!(cx, bulk_param, 200, 101; 0); }
        _ => {
            cx.evals += 8;
            cx.nontrivial = true;
            ensure!(ok(new_::<(f64, f64), DefaultParams>) && ok(bulk_::<[f32; 3], DefaultParams, 8>), "the default parameters are rejected");
            ensure!(!ok(new_::<(f64,), DefaultParams>) && !ok(bulk_::<(f64,), DefaultParams, 0>) && !ok(bulk_::<[f64; 1], DefaultParams, 30>), "a one-dimensional tree is accepted");
            ensure!(catch_unwind(|| { RTree::<[f64; 1]>::new(); }).is_err() && catch_unwind(|| { RTree::<[f64; 1]>::bulk_load(vec![]); }).is_err() && catch_unwind(|| { RTree::<[f64; 1]>::default(); }).is_err(), "new(), default() or bulk_load() accepts one dimension");
            ensure!(catch_unwind(|| { RTree::<[f64; 2]>::new(); RTree::<[f64; 2]>::default(); RTree::<[f64; 5]>::bulk_load(vec![[0.0; 5]]); }).is_ok(), "new() or bulk_load() rejects valid dimensions");
        }
    }
    Ok(())
}
