//! Properties of whole trees: C01-C14, C21. Every oracle walks the leaves from
//! `root()` and compares by brute force over the model geometry.
use crate::gen::*;
use rstar::*;
use std::ops::ControlFlow;
use std::sync::atomic::{AtomicBool, Ordering};

pub struct Cx<'a> { pub r: Rng, pub n: usize, pub log: Vec<String>, pub own: &'a AtomicBool, pub nontrivial: bool, pub hash: u64, pub evals: u64 }
pub type Res = Result<(), String>;
impl Cx<'_> {
    pub fn own(&self, b: bool) { self.own.store(b, Ordering::Relaxed); }
    pub fn note(&mut self, s: impl Into<String>) { if self.log.len() < 4000 { self.log.push(s.into()); } }
    pub fn mark(&mut self, x: u64) { self.hash = mix(self.hash, x); }
}
#[macro_export]
macro_rules! ensure { ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } } }

pub type Tree<G, PM> = RTree<Item<G>, PM>;
#[derive(Clone, PartialEq, Debug)]
pub struct Ent { pub serial: u32, pub raw: Raw, pub tag: u8 }
pub type Snap = Vec<Ent>;
fn ent<G>(i: &Item<G>) -> Ent { Ent { serial: i.serial, raw: i.raw, tag: i.tag } }
fn sorted(mut v: Snap) -> Snap { v.sort_by_key(|e| (e.serial, e.tag)); v }
/// an item, however an iterator hands it out
pub trait AsItem { type G; fn item(&self) -> &Item<Self::G>; }
impl<G> AsItem for Item<G> { type G = G; fn item(&self) -> &Item<G> { self } }
impl<G> AsItem for &Item<G> { type G = G; fn item(&self) -> &Item<G> { self } }
impl<G> AsItem for &mut Item<G> { type G = G; fn item(&self) -> &Item<G> { self } }
thread_local! { pub static STYLE: std::cell::Cell<u64> = const { std::cell::Cell::new(0) }; }
fn style(n: u64) -> u64 { STYLE.with(|s| { let x = mix(s.get(), 77); s.set(x); (x >> 20) % n }) }
/// everything an iterator yields, consumed in one of the ways `Iterator` offers
pub fn drive<I: Iterator>(mut it: I) -> Vec<I::Item> {
    let mut v = vec![];
    match style(9) {
        0 => v.extend(it),
        1 => it.for_each(|x| v.push(x)),
        2 => while let Some(x) = it.nth(0) { v.push(x) },
        3 => { let k = style(6) as usize; for _ in 0..k { match it.next() { Some(x) => v.push(x), None => break } } v = it.fold(v, |mut v, x| { v.push(x); v }) }
        4 => { let _: ControlFlow<()> = it.try_for_each(|x| { v.push(x); ControlFlow::Continue(()) }); }
        5 => { let k = style(5) as usize; v.extend(it.by_ref().take(k)); v.extend(it) }
        6 => { let k = style(4) as usize; while let ControlFlow::Break(()) = it.try_for_each(|x| { v.push(x); if v.len() % (k + 1) == k { ControlFlow::Break(()) } else { ControlFlow::Continue(()) } }) {} }
        _ => while let Some(x) = it.next() { v.push(x) },
    }
    v
}
/// the ways of consuming an iterator that skip objects, on fresh iterators over `want`
pub fn skips<I: Iterator>(what: &str, want: &Snap, mk: impl FnOnce() -> I) -> Res where I::Item: AsItem {
    let it = mk();
    match style(4) {
        0 => { let c = it.count(); ensure!(c == want.len(), "{}: count() is {}, {} objects match", what, c, want.len()); }
        1 => { let l = it.last(); ensure!(l.is_some() == !want.is_empty(), "{}: last() is {}, {} objects match", what, if l.is_some() { "something" } else { "nothing" }, want.len());
               if let Some(x) = l { let e = ent(x.item()); ensure!(want.contains(&e), "{}: last() is {:?}", what, e); } }
        2 => { // nth walks
            let mut it = it; let mut pos = 0; let mut v: Snap = vec![];
            loop { let j = style(4) as usize; let x = it.nth(j); pos += j + 1;
                ensure!(x.is_some() == (pos <= want.len()), "{}: nth() calls advanced {} objects, {} match, and the last gave {}", what, pos, want.len(), if x.is_some() { "something" } else { "nothing" });
                match x { Some(x) => v.push(ent(x.item())), None => break } }
            let v = sorted(v);
            ensure!(v.iter().all(|e| want.contains(e)) && v.windows(2).all(|w| w[0] != w[1]), "{}: nth() calls gave {:?}", what, v);
        }
        _ => { let k = style(want.len() as u64 + 2) as usize; let v: Snap = sorted(it.skip(k).map(|x| ent(x.item())).collect());
            ensure!(v.len() == want.len().saturating_sub(k), "{}: skip({}) leaves {} of {} objects", what, k, v.len(), want.len());
            ensure!(v.iter().all(|e| want.contains(e)) && v.windows(2).all(|w| w[0] != w[1]), "{}: skip({}) gave {:?}", what, k, v); }
    }
    Ok(())
}
pub fn snap_of<I: Iterator>(it: I) -> Snap where I::Item: AsItem { sorted(drive(it).iter().map(|x| ent(x.item())).collect()) }
pub fn leaves<'a, G: Geo>(n: &'a ParentNode<Item<G>>, out: &mut Vec<&'a Item<G>>) {
    for c in n.children() { match c { RTreeNode::Leaf(t) => out.push(t), RTreeNode::Parent(p) => leaves(p, out) } }
}
pub fn order<G: Geo, PM: RTreeParams>(t: &Tree<G, PM>) -> Vec<u32> { let mut v = vec![]; leaves(t.root(), &mut v); v.iter().map(|i| i.serial).collect() }
pub fn snap<G: Geo, PM: RTreeParams>(t: &Tree<G, PM>) -> Snap { let mut v = vec![]; leaves(t.root(), &mut v); sorted(v.into_iter().map(ent).collect()) }

fn diff(want: &Snap, got: &Snap) -> String {
    let miss: Vec<_> = want.iter().filter(|e| !got.contains(e)).take(4).collect();
    let extra: Vec<_> = got.iter().filter(|e| !want.contains(e)).take(4).collect();
    let mut dup: Vec<_> = got.windows(2).filter(|w| w[0] == w[1]).map(|w| &w[0]).collect();
    dup.truncate(4);
    format!("expected {} objects, got {}; missing {:?}; unexpected {:?}; duplicated {:?}", want.len(), got.len(), miss, extra, dup)
}
pub fn same(what: &str, want: &Snap, got: &Snap) -> Res { ensure!(want == got, "{}: {}", what, diff(want, got)); Ok(()) }

/// C02: tight envelopes, equal leaf depth, no childless inner node, size
pub fn shape<G: Geo, PM: RTreeParams>(t: &Tree<G, PM>) -> Res {
    fn go<G: Geo>(n: &ParentNode<Item<G>>, depth: usize, root: bool, at: &mut Option<usize>, cnt: &mut usize) -> Result<Box_, String> {
        ensure!(root || !n.children().is_empty(), "an inner node at depth {} has no children", depth);
        let mut b = Box_::empty(G::D);
        for c in n.children() {
            match c {
                RTreeNode::Leaf(i) => {
                    *cnt += 1;
                    match *at { None => *at = Some(depth), Some(d) => ensure!(d == depth, "leaves at depths {} and {}", d, depth) }
                    b.add(&i.raw);
                }
                RTreeNode::Parent(p) => { let k = go(p, depth + 1, false, at, cnt)?; b.join(&k); }
            }
        }
        let e = box_of(&n.envelope())?;
        ensure!(e == b, "node at depth {} has envelope {:?} but its objects cover {:?}", depth, e, b);
        Ok(b)
    }
    let (mut at, mut cnt) = (None, 0);
    go(t.root(), 0, true, &mut at, &mut cnt)?;
    ensure!(cnt == t.size(), "size() is {} but {} objects are stored", t.size(), cnt);
    Ok(())
}
pub fn fills<G: Geo, PM: RTreeParams>(t: &Tree<G, PM>) -> Res {
    fn go<G: Geo, PM: RTreeParams>(n: &ParentNode<Item<G>>, root: bool) -> Res {
        let k = n.children().len();
        ensure!(k <= PM::MAX_SIZE, "a node has {} children, MAX_SIZE is {}", k, PM::MAX_SIZE);
        if !root { ensure!(k >= PM::MIN_SIZE, "a node has {} children, MIN_SIZE is {}", k, PM::MIN_SIZE); }
        else if n.children().iter().any(|c| matches!(c, RTreeNode::Parent(_))) { ensure!(k >= 2, "the root is not at leaf level and has {} child", k); }
        for c in n.children() { if let RTreeNode::Parent(p) = c { go::<G, PM>(p, false)?; } }
        Ok(())
    }
    go::<G, PM>(t.root(), true)
}

pub struct Src { pub prof: Prof, next: u32 }
impl Src {
    pub fn new<G: Geo>(cx: &mut Cx) -> Src { Src { prof: Prof::new(&mut cx.r, G::S::WIDE, G::D), next: 0 } }
    pub fn item<G: Geo>(&mut self, cx: &mut Cx) -> Item<G> {
        let raw = self.prof.raw(&mut cx.r, G::KIND, G::D, G::S::WIDE);
        let serial = self.next; self.next += 1;
        cx.mark(raw.a[0] as u64 ^ (raw.a[1] as u64) << 20);
        Item { geom: G::build(&raw.a, &raw.b), raw, tag: cx.r.below(3) as u8, serial }
    }
    pub fn items<G: Geo>(&mut self, cx: &mut Cx, n: usize) -> Vec<Item<G>> { (0..n).map(|_| self.item(cx)).collect() }
    pub fn query<G: Geo>(&self, cx: &mut Cx, s: &Snap) -> Tk {
        if !s.is_empty() && cx.r.chance(1, 2) {
            let k = cx.r.below(s.len());
            let e = &s[k].raw; let mut t = if cx.r.chance(1, 2) { e.a } else { e.b };
            if cx.r.chance(1, 2) { let i = cx.r.below(G::D); t[i] += cx.r.range(-2, 2); }
            t
        } else if cx.r.chance(1, 4) { let mut t = [0; MAXD]; for i in 0..G::D { t[i] = cx.r.range(-G::S::WIDE - 9, G::S::WIDE + 9); } t }
        else { self.prof.at(&mut cx.r, G::D) }
    }
    pub fn qbox<G: Geo>(&self, cx: &mut Cx, s: &Snap) -> Box_ {
        if cx.r.chance(1, 30) { return Box_::empty(G::D); }
        let a = self.query::<G>(cx, s);
        let b = if cx.r.chance(1, 8) { a } else { self.query::<G>(cx, s) };
        let mut x = Box_::empty(G::D);
        x.lo = a; x.hi = a;
        for i in 0..G::D { x.lo[i] = a[i].min(b[i]); x.hi[i] = a[i].max(b[i]); }
        x
    }
}
fn is<'a, G: Geo>(s: &Snap, keep: impl Fn(&Ent) -> bool) -> Snap { s.iter().filter(|e| keep(e)).cloned().collect() }

/// a tree any user can build: insertions, bulk loading, removals and drains
pub fn build<G: Geo, PM: RTreeParams>(cx: &mut Cx, src: &mut Src) -> Tree<G, PM> { let m = cx.r.below(7); build_mode(cx, src, m, &mut |_, _| Ok(())).unwrap() }
pub fn build_mode<G: Geo, PM: RTreeParams>(cx: &mut Cx, src: &mut Src, mode: usize, after: &mut dyn FnMut(&mut Cx, &Tree<G, PM>) -> Res) -> Result<Tree<G, PM>, String> {
    let n = cx.n;
    let start = match mode { 0 | 3 => 0, 1 => n, 2 => n / 2, _ => if cx.r.chance(1, 2) { n } else { 0 } };
    let items: Vec<Item<G>> = src.items(cx, start);
    if start > 0 { cx.note(format!("bulk_load {:?}", items)); }
    let mut t: Tree<G, PM> = if start > 0 || cx.r.chance(1, 2) { RTree::bulk_load_with_params(items) } else { RTree::new_with_params() };
    after(cx, &t)?;
    match mode {
        0 | 2 => { while t.size() < n { insert(cx, src, &mut t); after(cx, &t)?; } }
        1 => {}
        _ => {
            let steps = if mode == 3 { n * 2 } else { n };
            for _ in 0..steps {
                step(cx, src, &mut t, mode);
                after(cx, &t)?;
                if cx.n > 400 && cx.r.chance(1, 200) { break; }
            }
        }
    }
    Ok(t)
}
pub fn insert<G: Geo, PM: RTreeParams>(cx: &mut Cx, src: &mut Src, t: &mut Tree<G, PM>) { let i = src.item::<G>(cx); cx.note(format!("insert {:?}", i)); t.insert(i); }
/// one random mutating call
pub fn step<G: Geo, PM: RTreeParams>(cx: &mut Cx, src: &mut Src, t: &mut Tree<G, PM>, mode: usize) {
    let w = match mode { 3 => 14, 4 => 8, 5 => 5, _ => 10 };
    let k = cx.r.below(20);
    if k < w || t.size() == 0 { return insert(cx, src, t); }
    let s: Snap = { let mut v = vec![]; leaves(t.root(), &mut v); v.into_iter().map(ent).collect() };
    if s.is_empty() { return insert(cx, src, t); }
    let pick = &s[cx.r.below(s.len())];
    match cx.r.below(12) {
        0..=4 => { let i: Item<G> = Item { geom: G::build(&pick.raw.a, &pick.raw.b), raw: pick.raw, tag: pick.tag, serial: pick.serial }; cx.note(format!("remove {:?}", i)); t.remove(&i); }
        5 | 6 => { let q = pick.raw.a; cx.note(format!("remove_at_point {:?}", &q[..G::D])); t.remove_at_point(mkp(&q)); }
        7 | 8 => { let q = src.query::<G>(cx, &s); cx.note(format!("pop_nearest_neighbor {:?}", &q[..G::D])); t.pop_nearest_neighbor(mkp(&q)); }
        9 => { let b = src.qbox::<G>(cx, &s); let k = cx.r.below(6); cx.note(format!("drain_in_envelope {:?} take {}", b, k)); let _ = t.drain_in_envelope(b.aabb()).take(k).count(); }
        10 => { let q = src.query::<G>(cx, &s); let d = small_d2::<G>(cx, &q, &s); let k = cx.r.below(9); cx.note(format!("drain_within_distance {:?} {} take {}", &q[..G::D], d, k)); let _ = t.drain_within_distance(mkp(&q), d2s::<G>(d)).take(k).count(); }
        _ => {
            if cx.r.chance(1, 30) { cx.note("leaked drain"); let mut d = t.drain(); d.next(); std::mem::forget(d); }
            else { let tag = cx.r.below(3) as u8; let k = cx.r.below(5); cx.note(format!("drain_with tag {} take {}", tag, k)); let _ = t.drain_with_selection_function(TagSel(tag)).take(k).count(); }
        }
    }
}
pub fn d2s<G: Geo>(ticks2: i128) -> G::S { if G::S::FLOAT { num_div::<G::S>(ticks2) } else { G::S::of(ticks2 as i64) } }
fn num_div<S: Sc>(t: i128) -> S { S::of(t as i64) / S::of(64) } // t/8 / 8 = t/64
fn small_d2<G: Geo>(cx: &mut Cx, q: &Tk, s: &Snap) -> i128 {
    if let Some(h) = hint(&mut cx.r, 1, 6) { let h = (h as i128).min(1 << 24); return (if cx.r.chance(1, 2) { h } else { (h * h).min(1 << 24) }) + cx.r.range(-1, 1) as i128; }
    if s.is_empty() || cx.r.chance(1, 6) { return cx.r.range(0, 200) as i128; }
    // limits where a squared distance is hit exactly, and one off it
    let d = s[cx.r.below(s.len())].raw.d2(q) + cx.r.range(-1, 1) as i128;
    let cap = if G::S::FLOAT { 1 << 44 } else { i32::MAX as i128 };
    let cap = if std::mem::size_of::<G::S>() == 4 && G::S::FLOAT { 1 << 22 } else { cap };
    d.clamp(0, cap)
}
/// leaf predicate only
pub struct TagSel(pub u8);
impl<G: Geo> SelectionFunction<Item<G>> for TagSel {
    fn should_unpack_parent(&self, _: &AABB<G::P>) -> bool { true }
    fn should_unpack_leaf(&self, i: &Item<G>) -> bool { i.tag == self.0 }
}
/// rejects envelopes outside the box, selects objects in the box with the tag
pub struct BoxTagSel(pub Box_, pub u8);
impl<G: Geo> SelectionFunction<Item<G>> for BoxTagSel {
    fn should_unpack_parent(&self, e: &AABB<G::P>) -> bool { match box_of(e) { Ok(b) => b.meets(&self.0), Err(_) => true } }
    fn should_unpack_leaf(&self, i: &Item<G>) -> bool { i.raw.within(&self.0) && i.tag != self.1 }
}

// ---------------------------------------------------------------- C01 .. C04
fn setup<G: Geo, PM: RTreeParams>(cx: &mut Cx) -> (Src, Tree<G, PM>, Snap) {
    cx.own(false);
    let mut src = Src::new::<G>(cx);
    let t = build::<G, PM>(cx, &mut src);
    let s = snap(&t);
    cx.own(true);
    cx.nontrivial = !s.is_empty();
    (src, t, s)
}
pub fn c01<G: Geo, PM: RTreeParams>(cx: &mut Cx) -> Res {
    let (mut src, mut t, mut before) = setup::<G, PM>(cx);
    cx.nontrivial = true;
    let k = 1 + cx.r.below(24);
    for _ in 0..k {
        let i = src.item::<G>(cx);
        cx.note(format!("insert {:?}", i));
        let size = t.size();
        let e = ent(&i);
        t.insert(i);
        cx.evals += 1;
        before.push(e);
        let got = snap(&t);
        same("after insert, the tree's contents", &before, &got)?;
        ensure!(t.size() == size + 1, "insert changed size() from {} to {}", size, t.size());
    }
    Ok(())
}
pub fn c02<G: Geo, PM: RTreeParams>(cx: &mut Cx) -> Res {
    cx.own(true);
    let mut src = Src::new::<G>(cx);
    let m = cx.r.below(7);
    let big = cx.n > 120;
    build_mode::<G, PM>(cx, &mut src, m, &mut |cx, t| {
        cx.nontrivial |= t.size() > 6;
        if !big || t.size() < 40 || cx.r.chance(1, 16) { cx.evals += 1; shape(t) } else { Ok(()) }
    }).and_then(|t| shape(&t))
}
pub fn c03<G: Geo, PM: RTreeParams>(cx: &mut Cx) -> Res {
    cx.own(true);
    let mut src = Src::new::<G>(cx);
    let mut t: Tree<G, PM> = RTree::new_with_params();
    let n = cx.n;
    for i in 0..n {
        insert(cx, &mut src, &mut t);
        if n < 120 || i % 16 == 0 || i + 1 == n { cx.evals += 1; fills(&t)?; }
    }
    cx.nontrivial = n > PM::MAX_SIZE;
    Ok(())
}
pub fn c04<G: Geo, PM: RTreeParams>(cx: &mut Cx) -> Res {
    cx.own(true);
    let mut src = Src::new::<G>(cx);
    let n = cx.n;
    let items: Vec<Item<G>> = src.items(cx, n);
    cx.note(format!("bulk_load of {} objects {:?}", n, if n < 40 { &items[..] } else { &items[..0] }));
    let mut want: Snap = items.iter().map(ent).collect();
    let mut t: Tree<G, PM> = RTree::bulk_load_with_params(items);
    cx.nontrivial = n > PM::MAX_SIZE;
    same("after bulk_load, the tree's contents", &want, &snap(&t))?;
    ensure!(t.size() == n, "bulk_load of {} elements gives size() {}", n, t.size());
    fn lf<G: Geo>(p: &ParentNode<Item<G>>, max: usize, depth: usize, at: &mut Option<usize>) -> Res {
        let k = p.children().iter().filter(|c| matches!(c, RTreeNode::Leaf(_))).count();
        ensure!(k <= max, "a leaf node holds {} elements, MAX_SIZE is {}", k, max);
        if k > 0 { match *at { None => *at = Some(depth), Some(d) => ensure!(d == depth, "leaves at depths {} and {}", d, depth) } }
        for c in p.children() { if let RTreeNode::Parent(q) = c { lf::<G>(q, max, depth + 1, at)?; } }
        Ok(())
    }
    lf::<G>(t.root(), PM::MAX_SIZE, 0, &mut None)?;
    // the tree supports later operations
    let got = snap_of(t.iter());
    same("iterating a bulk-loaded tree", &want, &got)?;
    if n > 600 && cx.r.chance(3, 4) { return Ok(()); }
    for _ in 0..4 {
        let q = src.query::<G>(cx, &want);
        let got = t.nearest_neighbor(mkp(&q)).map(|i| i.raw.d2(&q));
        ensure!(got == want.iter().map(|e| e.raw.d2(&q)).min(), "nearest_neighbor on the bulk-loaded tree, at {:?}: {:?}", &q[..G::D], got);
        let b = src.qbox::<G>(cx, &want);
        same("locate_in_envelope_intersecting on the bulk-loaded tree", &is::<G>(&want, |e| e.raw.meets(&b)), &snap_of(t.locate_in_envelope_intersecting(b.aabb())))?;
        let i = src.item::<G>(cx);
        cx.note(format!("insert {:?}", i));
        want.push(ent(&i));
        t.insert(i);
        let k = cx.r.below(want.len());
        let e = want[k].clone();
        let probe: Item<G> = Item { geom: G::build(&e.raw.a, &e.raw.b), raw: e.raw, tag: e.tag, serial: e.serial };
        cx.note(format!("remove {:?}", probe));
        let got = t.remove(&probe);
        let got = match got { Some(g) => g, None => return Err(format!("remove does not find stored {:?}", probe)) };
        want.retain(|e| e.serial != got.serial);
        same("after bulk_load, insert and remove, the contents", &want, &snap(&t))?;
    }
    shape(&t).map_err(|e| format!("after bulk_load, insert and remove: {}", e))
}
// ---------------------------------------------------------------- C05, C06
pub fn c05<G: Geo, PM: RTreeParams>(cx: &mut Cx) -> Res {
    let (src, t, s) = setup::<G, PM>(cx);
    same("iter()", &s, &snap_of(t.iter()))?;
    ensure!(t.iter().count() == s.len(), "iter() length");
    same("(&tree).into_iter()", &s, &snap_of((&t).into_iter()))?;
    skips("iter()", &s, || t.iter())?;
    for _ in 0..6 {
        let b = src.qbox::<G>(cx, &s);
        let q = src.query::<G>(cx, &s);
        let d = small_d2::<G>(cx, &q, &s);
        let tag = cx.r.below(3) as u8;
        cx.note(format!("queries with box {:?}, point {:?}, d2 {}, tag {}", b, &q[..G::D], d, tag));
        cx.evals += 7;
        let e: AABB<G::P> = b.aabb();
        same(&format!("locate_in_envelope {:?}", b), &is::<G>(&s, |x| x.raw.within(&b)), &snap_of(t.locate_in_envelope(e.clone())))?;
        same(&format!("locate_in_envelope_intersecting {:?}", b), &is::<G>(&s, |x| x.raw.meets(&b)), &snap_of(t.locate_in_envelope_intersecting(e.clone())))?;
        let hit = is::<G>(&s, |x| x.raw.has(&q));
        same(&format!("locate_all_at_point {:?}", &q[..G::D]), &hit, &snap_of(t.locate_all_at_point(mkp(&q))))?;
        for (name, one) in [("locate_at_point", t.locate_at_point(mkp(&q))), ("locate_at_point_int", t.locate_at_point_int(mkp(&q)))] {
            match one {
                None => ensure!(hit.is_empty(), "{} {:?} finds nothing, but {:?} is there", name, &q[..G::D], hit[0]),
                Some(i) => ensure!(hit.contains(&ent(i)), "{} {:?} returns {:?}, which is not there", name, &q[..G::D], i),
            }
        }
        same(&format!("locate_within_distance {:?} d2 {}", &q[..G::D], d), &is::<G>(&s, |x| x.raw.d2(&q) <= d), &snap_of(t.locate_within_distance(mkp(&q), d2s::<G>(d))))?;
        same(&format!("locate_with_selection_function tag {}", tag), &is::<G>(&s, |x| x.tag == tag), &snap_of(t.locate_with_selection_function(TagSel(tag))))?;
        same(&format!("locate_with_selection_function {:?} tag {}", b, tag), &is::<G>(&s, |x| x.tag != tag && x.raw.within(&b)), &snap_of(t.locate_with_selection_function(BoxTagSel(b, tag))))?;
        match cx.r.below(6) {
            0 => skips(&format!("locate_in_envelope {:?}", b), &is::<G>(&s, |x| x.raw.within(&b)), || t.locate_in_envelope(e.clone()))?,
            1 => skips(&format!("locate_in_envelope_intersecting {:?}", b), &is::<G>(&s, |x| x.raw.meets(&b)), || t.locate_in_envelope_intersecting(e.clone()))?,
            2 => skips(&format!("locate_all_at_point {:?}", &q[..G::D]), &hit, || t.locate_all_at_point(mkp(&q)))?,
            3 => skips(&format!("locate_within_distance {:?} d2 {}", &q[..G::D], d), &is::<G>(&s, |x| x.raw.d2(&q) <= d), || t.locate_within_distance(mkp(&q), d2s::<G>(d)))?,
            4 => skips(&format!("locate_with_selection_function tag {}", tag), &is::<G>(&s, |x| x.tag == tag), || t.locate_with_selection_function(TagSel(tag)))?,
            _ => skips("iter()", &s, || t.iter())?,
        }
        let raw = if !s.is_empty() && cx.r.chance(2, 3) { s[cx.r.below(s.len())].raw } else { src.prof.raw(&mut cx.r, G::KIND, G::D, G::S::WIDE) };
        let probe: Item<G> = Item { geom: G::build(&raw.a, &raw.b), raw, tag, serial: 0 };
        let want = s.iter().any(|x| x.raw == raw && x.tag == tag);
        ensure!(t.contains(&probe) == want, "contains({:?}) is {}", probe, !want);
    }
    Ok(())
}
fn visit<'a, G: Geo + 'a>(cut: Option<usize>, run: impl FnOnce(&mut dyn FnMut(Ent) -> ControlFlow<usize>) -> ControlFlow<usize>) -> (Snap, ControlFlow<usize>) {
    let mut v = vec![];
    let r = run(&mut |e| { v.push(e); if Some(v.len()) == cut { ControlFlow::Break(v.len() + 1000) } else { ControlFlow::Continue(()) } });
    (v, r)
}
fn visited(name: &str, cut: Option<usize>, want: &Snap, got: (Snap, ControlFlow<usize>)) -> Res {
    let (v, r) = got;
    match cut {
        Some(k) if k <= want.len() => {
            ensure!(v.len() == k, "{}: broke at visit {} but the visitor was called {} times", name, k, v.len());
            ensure!(r == ControlFlow::Break(k + 1000), "{}: broke at visit {} and returned {:?}", name, k, r);
            let v = sorted(v);
            ensure!(v.iter().all(|e| want.contains(e)) && v.windows(2).all(|w| w[0] != w[1]), "{}: visited {:?}", name, v);
        }
        _ => { same(name, want, &sorted(v))?; ensure!(r == ControlFlow::Continue(()), "{}: completed but returned {:?}", name, r); }
    }
    Ok(())
}
pub fn c06<G: Geo, PM: RTreeParams>(cx: &mut Cx) -> Res {
    let (src, mut t, s) = setup::<G, PM>(cx);
    let ord = order(&t);
    for _ in 0..4 {
        let b = src.qbox::<G>(cx, &s);
        let q = src.query::<G>(cx, &s);
        let d = src.prof.at(&mut cx.r, 1)[0].rem_euclid(3) as u8;
        cx.note(format!("queries with box {:?}, point {:?}, tag {}", b, &q[..G::D], d));
        cx.evals += 12;
        let e: AABB<G::P> = b.aabb();
        let p: G::P = mkp(&q);
        let ins = is::<G>(&s, |x| x.raw.within(&b));
        let meets = is::<G>(&s, |x| x.raw.meets(&b));
        let at = is::<G>(&s, |x| x.raw.has(&q));
        let cut = if cx.r.chance(1, 2) { None } else { Some(1 + cx.r.below(4)) };
        visited("locate_in_envelope_int", cut, &ins, visit::<G>(cut, |f| t.locate_in_envelope_int(e.clone(), |i| f(ent(i)))))?;
        visited("locate_in_envelope_intersecting_int", cut, &meets, visit::<G>(cut, |f| t.locate_in_envelope_intersecting_int(e.clone(), |i| f(ent(i)))))?;
        visited("locate_all_at_point_int", cut, &at, visit::<G>(cut, |f| t.locate_all_at_point_int(p.clone(), |i| f(ent(i)))))?;
        visited("locate_in_envelope_int_mut", cut, &ins, visit::<G>(cut, |f| t.locate_in_envelope_int_mut(e.clone(), |i| f(ent(i)))))?;
        visited("locate_in_envelope_intersecting_int_mut", cut, &meets, visit::<G>(cut, |f| t.locate_in_envelope_intersecting_int_mut(e.clone(), |i| f(ent(i)))))?;
        visited("locate_all_at_point_int_mut", cut, &at, visit::<G>(cut, |f| t.locate_all_at_point_int_mut(p.clone(), |i| f(ent(i)))))?;
        same("iter_mut", &s, &snap_of(t.iter_mut()))?;
        same("locate_in_envelope_mut", &ins, &snap_of(t.locate_in_envelope_mut(e.clone())))?;
        same("locate_in_envelope_intersecting_mut", &meets, &snap_of(t.locate_in_envelope_intersecting_mut(e.clone())))?;
        same("locate_all_at_point_mut", &at, &snap_of(t.locate_all_at_point_mut(p.clone())))?;
        same("locate_with_selection_function_mut", &is::<G>(&s, |x| x.tag == d), &snap_of(t.locate_with_selection_function_mut(TagSel(d))))?;
        same("locate_with_selection_function_mut (box)", &is::<G>(&s, |x| x.tag != d && x.raw.within(&b)), &snap_of(t.locate_with_selection_function_mut(BoxTagSel(b, d))))?;
        match cx.r.below(6) {
            0 => skips(&format!("locate_in_envelope_mut {:?}", b), &ins, || t.locate_in_envelope_mut(e.clone()))?,
            1 => skips(&format!("locate_in_envelope_intersecting_mut {:?}", b), &meets, || t.locate_in_envelope_intersecting_mut(e.clone()))?,
            2 => skips(&format!("locate_all_at_point_mut {:?}", &q[..G::D]), &at, || t.locate_all_at_point_mut(p.clone()))?,
            3 => skips(&format!("locate_with_selection_function_mut tag {}", d), &is::<G>(&s, |x| x.tag == d), || t.locate_with_selection_function_mut(TagSel(d)))?,
            4 => same("(&mut tree).into_iter()", &s, &snap_of((&mut t).into_iter()))?,
            _ => skips("iter_mut()", &s, || t.iter_mut())?,
        }
        for k in 0..2 {
            let one = if k == 0 { t.locate_at_point_mut(p.clone()).map(|i| ent(i)) } else { t.locate_at_point_int_mut(p.clone()).map(|i| ent(i)) };
            let name = ["locate_at_point_mut", "locate_at_point_int_mut"][k];
            match one { None => ensure!(at.is_empty(), "{} {:?} finds nothing, but {:?} is there", name, &q[..G::D], at[0]),
                        Some(i) => ensure!(at.contains(&i), "{} {:?} returns {:?}, which is not there", name, &q[..G::D], i) }
        }
        same("contents after mutable queries", &s, &snap(&t))?;
        ensure!(order(&t) == ord && t.size() == s.len(), "mutable queries changed the tree's shape");
    }
    // writes through the references reach the stored objects, and nothing else
    let b = src.qbox::<G>(cx, &s);
    let which = cx.r.below(3);
    match which {
        0 => t.locate_in_envelope_intersecting_mut(b.aabb()).for_each(|i| i.tag = 9),
        1 => { let _: ControlFlow<()> = t.locate_in_envelope_intersecting_int_mut(b.aabb(), |i| { i.tag = 9; ControlFlow::Continue(()) }); }
        _ => t.locate_with_selection_function_mut(BoxTagSel(b, 77)).for_each(|i| i.tag = 9),
    }
    let want: Snap = s.iter().map(|x| { let hit = if which == 2 { x.raw.within(&b) } else { x.raw.meets(&b) }; let mut x = x.clone(); if hit { x.tag = 9; } x }).collect();
    same("contents after writing through mutable references", &sorted(want), &snap(&t))?;
    ensure!(order(&t) == ord, "writing tags changed the tree's shape");
    shape(&t)
}
// ---------------------------------------------------------------- C07 .. C09
pub struct EqSel<G>(pub Item<G>);
impl<G: Geo> SelectionFunction<Item<G>> for EqSel<G> {
    fn should_unpack_parent(&self, e: &AABB<G::P>) -> bool { match box_of(e) { Ok(b) => b.meets(&{ let mut x = Box_::empty(G::D); x.add(&self.0.raw); x }), Err(_) => true } }
    fn should_unpack_leaf(&self, i: &Item<G>) -> bool { i == &self.0 }
}
pub fn c07<G: Geo, PM: RTreeParams>(cx: &mut Cx) -> Res {
    let (src, mut t, mut s) = setup::<G, PM>(cx);
    let k = 1 + cx.r.below(20);
    for _ in 0..k {
        let raw = if !s.is_empty() && cx.r.chance(3, 4) { s[cx.r.below(s.len())].raw } else { src.prof.raw(&mut cx.r, G::KIND, G::D, G::S::WIDE) };
        let tag = if cx.r.chance(2, 3) { s.iter().find(|e| e.raw == raw).map_or(0, |e| e.tag) } else { cx.r.below(3) as u8 };
        let probe: Item<G> = Item { geom: G::build(&raw.a, &raw.b), raw, tag, serial: 0 };
        let q = if cx.r.chance(2, 3) { raw.a } else { src.query::<G>(cx, &s) };
        let b = src.qbox::<G>(cx, &s);
        let (name, cand, got) = match cx.r.below(4) {
            0 => (format!("remove {:?}", probe), is::<G>(&s, |e| e.raw == raw && e.tag == tag), t.remove(&probe)),
            1 => (format!("remove_at_point {:?}", &q[..G::D]), is::<G>(&s, |e| e.raw.has(&q)), t.remove_at_point(mkp(&q))),
            2 => (format!("remove_with_selection_function (== {:?})", probe), is::<G>(&s, |e| e.raw == raw && e.tag == tag), t.remove_with_selection_function(EqSel(probe))),
            _ => (format!("remove_with_selection_function ({:?}, tag not {})", b, tag), is::<G>(&s, |e| e.raw.within(&b) && e.tag != tag), t.remove_with_selection_function(BoxTagSel(b, tag))),
        };
        cx.note(name.clone());
        cx.evals += 1;
        match got {
            None => ensure!(cand.is_empty(), "{} returns nothing, but {:?} is stored", name, cand[0]),
            Some(i) => { let e = ent(&i); ensure!(cand.contains(&e), "{} returns {:?}, which is not a stored match", name, i); s.retain(|x| *x != e); }
        }
        same(&format!("contents after {}", name), &s, &snap(&t))?;
        ensure!(t.size() == s.len(), "size() is {} after {}, with {} objects stored", t.size(), name, s.len());
        same(&format!("iter() after {}", name), &s, &snap_of(t.iter()))?;
        if !s.is_empty() {
            let e = s[cx.r.below(s.len())].clone();
            ensure!(t.locate_all_at_point(mkp(&e.raw.a)).any(|i| i.serial == e.serial) || e.raw.kind == Kind::Rect && !e.raw.has(&e.raw.a), "{:?} can no longer be found after {}", e, name);
        }
    }
    Ok(())
}
/// runs one of the drains, taking at most `take` objects, and leaks it if asked
fn drain<G: Geo, PM: RTreeParams>(cx: &mut Cx, src: &Src, t: &mut Tree<G, PM>, s: &Snap, take: usize, leak: bool) -> (String, Snap, Snap) {
    let b = src.qbox::<G>(cx, s);
    let q = src.query::<G>(cx, s);
    let d = small_d2::<G>(cx, &q, s);
    let tag = cx.r.below(3) as u8;
    macro_rules! run { ($d:expr) => {{ if take == usize::MAX && !leak { sorted(drive($d).iter().map(ent).collect()) } else { let mut d = $d; let v: Vec<Item<G>> = if take == usize::MAX { drive(d.by_ref()) } else { drive(d.by_ref().take(take)) }; if leak { std::mem::forget(d) } else { drop(d) } sorted(v.iter().map(ent).collect()) } }} }
    match cx.r.below(6) {
        0 => ("drain()".into(), s.clone(), run!(t.drain())),
        1 => (format!("drain_in_envelope {:?}", b), is::<G>(s, |e| e.raw.within(&b)), run!(t.drain_in_envelope(b.aabb()))),
        2 => (format!("drain_in_envelope_intersecting {:?}", b), is::<G>(s, |e| e.raw.meets(&b)), run!(t.drain_in_envelope_intersecting(b.aabb()))),
        3 => (format!("drain_within_distance {:?} {}", &q[..G::D], d), is::<G>(s, |e| e.raw.d2(&q) <= d), run!(t.drain_within_distance(mkp(&q), d2s::<G>(d)))),
        4 => (format!("drain_with_selection_function tag {}", tag), is::<G>(s, |e| e.tag == tag), run!(t.drain_with_selection_function(TagSel(tag)))),
        _ => (format!("drain_with_selection_function {:?} tag not {}", b, tag), is::<G>(s, |e| e.tag != tag && e.raw.within(&b)), run!(t.drain_with_selection_function(BoxTagSel(b, tag)))),
    }
}
pub fn c08<G: Geo, PM: RTreeParams>(cx: &mut Cx) -> Res {
    let (mut src, mut t, mut s) = setup::<G, PM>(cx);
    for round in 0..3 {
        let (name, want, got) = drain(cx, &src, &mut t, &s, usize::MAX, false);
        cx.note(format!("{} to the end", name));
        cx.evals += 1;
        same(&format!("objects yielded by {}", name), &want, &got)?;
        s.retain(|e| !want.contains(e));
        same(&format!("contents after {}", name), &s, &snap(&t))?;
        ensure!(t.size() == s.len(), "size() is {} after {}, with {} objects stored", t.size(), name, s.len());
        shape(&t).map_err(|e| format!("after {}: {}", name, e))?;
        if round < 2 { for _ in 0..cx.r.below(8) { let i = src.item::<G>(cx); s.push(ent(&i)); cx.note(format!("insert {:?}", i)); t.insert(i); } s = sorted(s); }
    }
    Ok(())
}
pub fn c09<G: Geo, PM: RTreeParams>(cx: &mut Cx) -> Res {
    let (mut src, mut t, mut s) = setup::<G, PM>(cx);
    for _ in 0..3 {
        let leak = cx.r.chance(1, 5);
        let take = match cx.r.below(3) { 0 => cx.r.below(4), 1 => cx.r.below(s.len() + 1), _ => s.len().saturating_sub(cx.r.below(3)) };
        let (name, want, got) = drain(cx, &src, &mut t, &s, take, leak);
        let name = format!("{} {} after {} objects", name, if leak { "leaked" } else { "dropped" }, take);
        cx.note(name.clone());
        cx.evals += 1;
        ensure!(got.iter().all(|e| want.contains(e)) && got.windows(2).all(|w| w[0] != w[1]), "{} yielded {:?}", name, got);
        if leak && got.len() == take {
            ensure!(t.size() == 0 && snap(&t).is_empty() && t.iter().next().is_none(), "{}: the tree reports size {} and holds {} objects", name, t.size(), snap(&t).len());
            s.clear();
        } else {
            s.retain(|e| !got.contains(e));
            same(&format!("contents after {}", name), &s, &snap(&t))?;
            ensure!(t.size() == s.len(), "size() is {} after {}, with {} objects stored", t.size(), name, s.len());
        }
        shape(&t).map_err(|e| format!("after {}: {}", name, e))?;
        for _ in 0..cx.r.below(14) { let i = src.item::<G>(cx); s.push(ent(&i)); cx.note(format!("insert {:?}", i)); t.insert(i); }
        s = sorted(s);
        same(&format!("contents after {} and insertions", name), &s, &snap(&t))?;
        if cx.r.chance(1, 3) && !s.is_empty() {
            let e = s[cx.r.below(s.len())].clone();
            let probe: Item<G> = Item { geom: G::build(&e.raw.a, &e.raw.b), raw: e.raw, tag: e.tag, serial: e.serial };
            match t.remove(&probe) { Some(g) => s.retain(|x| x.serial != g.serial), None => return Err(format!("after {}: remove does not find {:?}", name, probe)) }
        }
        shape(&t).map_err(|e| format!("after {} and insertions: {}", name, e))?;
    }
    Ok(())
}
// ---------------------------------------------------------------- C10 .. C13
fn t2<S: Sc>(x: S) -> Result<i128, String> { x.ticks2().ok_or_else(|| format!("reported squared distance {:?} belongs to no object", x)) }
pub fn c10<G: Geo, PM: RTreeParams>(cx: &mut Cx) -> Res {
    let (src, t, s) = setup::<G, PM>(cx);
    for _ in 0..10 {
        let q = src.query::<G>(cx, &s);
        cx.note(format!("nearest_neighbor {:?}", &q[..G::D]));
        cx.evals += 1;
        let min = s.iter().map(|e| e.raw.d2(&q)).min();
        let one = t.nearest_neighbor(mkp(&q));
        ensure!(one.is_some() == min.is_some(), "nearest_neighbor {:?} is {:?} with {} objects stored", &q[..G::D], one, s.len());
        if let Some(i) = one {
            ensure!(s.contains(&ent(i)), "nearest_neighbor returns {:?}, which is not stored", i);
            ensure!(Some(i.raw.d2(&q)) == min, "nearest_neighbor {:?} returns {:?} at d2 {}, but the minimum is {:?}", &q[..G::D], i, i.raw.d2(&q), min);
        }
        let two = t.nearest_neighbor_with_distance_2(mkp(&q));
        ensure!(two.is_some() == min.is_some(), "nearest_neighbor_with_distance_2 {:?} is {:?} with {} objects stored", &q[..G::D], two, s.len());
        if let Some((i, d)) = two {
            ensure!(s.contains(&ent(i)), "nearest_neighbor_with_distance_2 returns {:?}, which is not stored", i);
            ensure!(Some(i.raw.d2(&q)) == min, "nearest_neighbor_with_distance_2 {:?} returns {:?} at d2 {}, but the minimum is {:?}", &q[..G::D], i, i.raw.d2(&q), min);
            ensure!(Some(t2(d)?) == min, "nearest_neighbor_with_distance_2 {:?} reports {:?} ({} square ticks), the object's is {:?}", &q[..G::D], d, t2(d)?, min);
        }
    }
    Ok(())
}
#[allow(deprecated)]
pub fn c11<G: Geo, PM: RTreeParams>(cx: &mut Cx) -> Res {
    let (src, t, s) = setup::<G, PM>(cx);
    for _ in 0..3 {
        let q = src.query::<G>(cx, &s);
        cx.note(format!("nearest_neighbor_iter {:?}", &q[..G::D]));
        cx.evals += 3;
        let p: G::P = mkp(&q);
        let a = t.nearest_neighbor_iter(p.clone()); let a: Vec<(&Item<G>, Option<G::S>)> = drive(a).into_iter().map(|i| (i, None)).collect();
        let b: Vec<_> = drive(t.nearest_neighbor_iter_with_distance_2(p.clone())).into_iter().map(|(i, d)| (i, Some(d))).collect();
        let c: Vec<_> = drive(t.nearest_neighbor_iter_with_distance(p.clone())).into_iter().map(|(i, d)| (i, Some(d))).collect();
        skips(&format!("nearest_neighbor_iter {:?}", &q[..G::D]), &s, || t.nearest_neighbor_iter(p.clone()))?;
        let mut ds: Vec<i128> = s.iter().map(|e| e.raw.d2(&q)).collect();
        ds.sort();
        let (mut at, mut x, mut y) = (0, t.nearest_neighbor_iter(p.clone()), t.nearest_neighbor_iter_with_distance_2(p.clone()));
        for _ in 0..4 {
            let j = cx.r.below(4);
            at += j + 1;
            for (name, i) in [("nearest_neighbor_iter", x.nth(j)), ("nearest_neighbor_iter_with_distance_2", y.nth(j).map(|z| z.0))] {
                ensure!(i.is_some() == (at <= s.len()), "{} {:?}: nth() calls advanced {} objects of {}, the last gave {:?}", name, &q[..G::D], at, s.len(), i);
                if let Some(i) = i { ensure!(i.raw.d2(&q) == ds[at - 1], "{} {:?}: object {} in order is {:?} at d2 {}, it should be at {}", name, &q[..G::D], at, i, i.raw.d2(&q), ds[at - 1]); }
            }
        }
        for (name, v) in [("nearest_neighbor_iter", a), ("nearest_neighbor_iter_with_distance_2", b), ("nearest_neighbor_iter_with_distance", c)] {
            same(&format!("{} {:?}", name, &q[..G::D]), &s, &snap_of(v.iter().map(|x| x.0)))?;
            for w in v.windows(2) { ensure!(w[0].0.raw.d2(&q) <= w[1].0.raw.d2(&q), "{} {:?} yields {:?} (d2 {}) before {:?} (d2 {})", name, &q[..G::D], w[0].0, w[0].0.raw.d2(&q), w[1].0, w[1].0.raw.d2(&q)); }
            for (i, d) in &v { if let Some(d) = d { ensure!(t2(*d)? == i.raw.d2(&q), "{} {:?} reports {:?} for {:?}", name, &q[..G::D], d, i); } }
        }
    }
    Ok(())
}
pub fn c12<G: Geo, PM: RTreeParams>(cx: &mut Cx) -> Res {
    let (src, t, s) = setup::<G, PM>(cx);
    for _ in 0..10 {
        let q = src.query::<G>(cx, &s);
        cx.note(format!("nearest_neighbors {:?}", &q[..G::D]));
        cx.evals += 1;
        let min = s.iter().map(|e| e.raw.d2(&q)).min();
        let want = is::<G>(&s, |e| Some(e.raw.d2(&q)) == min);
        same(&format!("nearest_neighbors {:?}", &q[..G::D]), &want, &snap_of(t.nearest_neighbors(&mkp(&q)).into_iter()))?;
        match t.nearest_neighbors_with_distance_2(&mkp(&q)) {
            None => ensure!(s.is_empty(), "nearest_neighbors_with_distance_2 {:?} finds nothing in a tree of {}", &q[..G::D], s.len()),
            Some((v, d)) => {
                same(&format!("nearest_neighbors_with_distance_2 {:?}", &q[..G::D]), &want, &snap_of(v.into_iter()))?;
                ensure!(Some(t2(d)?) == min, "nearest_neighbors_with_distance_2 {:?} reports {:?}, the minimum is {:?}", &q[..G::D], d, min);
            }
        }
    }
    Ok(())
}
pub fn c13<G: Geo, PM: RTreeParams>(cx: &mut Cx) -> Res {
    let (mut src, mut t, mut s) = setup::<G, PM>(cx);
    let k = if cx.n < 60 { s.len() + 2 } else { 12 };
    for _ in 0..k {
        let q = src.query::<G>(cx, &s);
        cx.note(format!("pop_nearest_neighbor {:?}", &q[..G::D]));
        cx.evals += 1;
        let min = s.iter().map(|e| e.raw.d2(&q)).min();
        match t.pop_nearest_neighbor(mkp(&q)) {
            None => ensure!(s.is_empty(), "pop_nearest_neighbor {:?} finds nothing in a tree of {}", &q[..G::D], s.len()),
            Some(i) => {
                let e = ent(&i);
                ensure!(s.contains(&e), "pop_nearest_neighbor returns {:?}, which is not stored", i);
                ensure!(Some(e.raw.d2(&q)) == min, "pop_nearest_neighbor {:?} returns {:?} at d2 {}, but the minimum is {:?}", &q[..G::D], i, e.raw.d2(&q), min);
                s.retain(|x| *x != e);
            }
        }
        same("contents after pop_nearest_neighbor", &s, &snap(&t))?;
        ensure!(t.size() == s.len(), "size() is {} after pop_nearest_neighbor, with {} objects stored", t.size(), s.len());
        if cx.r.chance(1, 4) { let i = src.item::<G>(cx); s.push(ent(&i)); cx.note(format!("insert {:?}", i)); t.insert(i); s = sorted(s); }
    }
    Ok(())
}
// ---------------------------------------------------------------- C14, C21
pub fn c14<G: Geo, PM: RTreeParams>(cx: &mut Cx) -> Res {
    cx.own(false);
    cx.n = cx.n.min(if HINTS.get().is_some_and(|h| !h.is_empty()) { 600 } else { 200 });
    let mut src = Src::new::<G>(cx);
    let t = build::<G, PM>(cx, &mut src);
    let n = cx.n;
    cx.n = match cx.r.below(5) { 0 => 0, 1 => 1 + cx.r.below(4), 2 => cx.r.below(30), 3 => n, _ => cx.r.below(2 * n + 1) };
    cx.note("second tree:");
    let mut src2 = if cx.r.chance(3, 4) { Src { prof: src.prof.clone(), next: 0 } } else { Src::new::<G>(cx) };
    let u = build::<G, DefaultParams>(cx, &mut src2);
    cx.own(true);
    let (s, v) = (snap(&t), snap(&u));
    let pairs = |a: &Snap, b: &Snap| { let mut w: Vec<(u32, u32)> = vec![]; for x in a { for y in b { if x.raw.meets_raw(&y.raw) { w.push((x.serial, y.serial)); } } } w.sort(); w };
    let want = pairs(&s, &v);
    cx.nontrivial = !want.is_empty();
    cx.evals += 2;
    let mut got: Vec<(u32, u32)> = drive(t.intersection_candidates_with_other_tree(&u)).into_iter().map(|(a, b)| (a.serial, b.serial)).collect();
    got.sort();
    check_pairs(&want, &got)?;
    let c = t.intersection_candidates_with_other_tree(&u).count();
    ensure!(c == want.len(), "intersection candidates: count() is {}, there are {} pairs", c, want.len());
    let k = cx.r.below(want.len() + 2);
    let mut got: Vec<(u32, u32)> = t.intersection_candidates_with_other_tree(&u).skip(k).map(|(a, b)| (a.serial, b.serial)).collect();
    got.sort();
    ensure!(got.len() == want.len().saturating_sub(k) && got.iter().all(|p| want.binary_search(p).is_ok()) && got.windows(2).all(|w| w[0] != w[1]), "intersection candidates: skip({}) of {} pairs leaves {:?}", k, want.len(), got);
    // and with the roles swapped
    let t2: Tree<G, DefaultParams> = RTree::bulk_load(s.iter().map(|e| Item { geom: G::build(&e.raw.a, &e.raw.b), raw: e.raw, tag: e.tag, serial: e.serial }).collect());
    let mut got: Vec<(u32, u32)> = drive(u.intersection_candidates_with_other_tree(&t2)).into_iter().map(|(a, b)| (b.serial, a.serial)).collect();
    got.sort();
    check_pairs(&want, &got)?;
    let selfw = pairs(&v, &v);
    let mut got: Vec<(u32, u32)> = drive(u.intersection_candidates_with_other_tree(&u)).into_iter().map(|(a, b)| (a.serial, b.serial)).collect();
    got.sort();
    check_pairs(&selfw, &got)
}
fn check_pairs(want: &[(u32, u32)], got: &[(u32, u32)]) -> Res {
    if want == got { return Ok(()); }
    let miss: Vec<_> = want.iter().filter(|p| got.binary_search(p).is_err()).take(4).collect();
    let extra: Vec<_> = got.iter().filter(|p| want.binary_search(p).is_err()).take(4).collect();
    let dup: Vec<_> = got.windows(2).filter(|w| w[0] == w[1]).map(|w| w[0]).take(4).collect();
    Err(format!("intersection candidates: expected {} pairs, got {}; missing {:?}, unexpected {:?}, repeated {:?} (serials, first tree then second)", want.len(), got.len(), miss, extra, dup))
}
pub fn c21<G: Geo, PM: RTreeParams>(cx: &mut Cx) -> Res {
    let (_, t, s) = setup::<G, PM>(cx);
    let take = match cx.r.below(3) { 0 => usize::MAX, 1 => cx.r.below(4), _ => cx.r.below(s.len() + 1) };
    cx.note(format!("into_iter take {}", if take == usize::MAX { -1 } else { take as i64 }));
    cx.evals += 1;
    let mut it = t.into_iter();
    if cx.r.chance(1, 3) { return skips("into_iter", &s, || it); }
    if take == usize::MAX && cx.r.chance(1, 2) { return same("into_iter", &s, &snap_of(it)); }
    let v: Vec<Item<G>> = if take == usize::MAX { drive(it.by_ref()) } else { drive(it.by_ref().take(take)) };
    let got = sorted(v.iter().map(ent).collect());
    if take >= s.len() {
        same("into_iter", &s, &got)?;
        ensure!(it.next().is_none() && it.next().is_none(), "into_iter yields again after its end");
    } else {
        ensure!(got.len() == take, "into_iter stopped after {} of {} objects", got.len(), s.len());
        ensure!(got.iter().all(|e| s.contains(e)) && got.windows(2).all(|w| w[0] != w[1]), "into_iter yielded {:?}", got);
        let mut rest: Snap = drive(it).iter().map(ent).collect();
        rest.extend(got);
        same("into_iter, resumed", &s, &sorted(rest))?;
    }
    Ok(())
}
