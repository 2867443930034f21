COMMON = r'''
#![allow(dead_code, unused_imports)]
use rstar::*;
use rstar::primitives::*;

struct Lcg(u64);
impl Lcg {
    fn next(&mut self, n: u64) -> i64 {
        self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        ((self.0 >> 33) % n) as i64
    }
}
/// depth of the leaves; panics when the tree's shape is broken
fn shape<T: RTreeObject<Envelope = AABB<[i64; 2]>>>(n: &ParentNode<T>, root: bool) -> usize {
    let mut depth = None;
    let mut env = AABB::new_empty();
    for c in n.children() {
        env.merge(&c.envelope());
        let d = match c {
            RTreeNode::Leaf(_) => 1,
            RTreeNode::Parent(p) => 1 + shape(p, false),
        };
        assert!(depth.is_none() || depth == Some(d), "leaves at different depths");
        depth = Some(d);
    }
    assert!(root || !n.children().is_empty(), "inner node without children");
    assert_eq!(env, n.envelope(), "envelope is not the smallest cover");
    depth.unwrap_or(1)
}
fn fill<T: RTreeObject, P: RTreeParams>(n: &ParentNode<T>, root: bool) {
    let k = n.children().len();
    assert!(k <= P::MAX_SIZE, "too many children");
    let leaf_level = n.children().iter().all(|c| matches!(c, RTreeNode::Leaf(_)));
    assert!(if root { leaf_level || k >= 2 } else { k >= P::MIN_SIZE }, "too few children");
    for c in n.children() {
        if let RTreeNode::Parent(p) = c {
            fill::<T, P>(p, false)
        }
    }
}
fn sorted<T: Ord>(mut v: Vec<T>) -> Vec<T> {
    v.sort();
    v
}
struct Small;
impl RTreeParams for Small {
    const MIN_SIZE: usize = 2;
    const MAX_SIZE: usize = 4;
    const REINSERTION_COUNT: usize = 1;
    type DefaultInsertionStrategy = RStarInsertionStrategy;
}
struct NoReinsert;
impl RTreeParams for NoReinsert {
    const MIN_SIZE: usize = 2;
    const MAX_SIZE: usize = 4;
    const REINSERTION_COUNT: usize = 0;
    type DefaultInsertionStrategy = RStarInsertionStrategy;
}
struct Wide;
impl RTreeParams for Wide {
    const MIN_SIZE: usize = 3;
    const MAX_SIZE: usize = 8;
    const REINSERTION_COUNT: usize = 4;
    type DefaultInsertionStrategy = RStarInsertionStrategy;
}
'''

BUGS = {}

def bug(id, prop, edits, needs, breaks, demo, **kw):
    BUGS[id] = dict(property=prop, edits=edits, needs=needs, breaks=breaks, demo='//COMMON\n' + demo, **kw)


bug('c02_reinsert_envelope', 'C02', [('algorithm/rstar.rs',
'''        InsertionResult::Reinsert(a, b) => {
            node.envelope = envelope_for_children(&node.children);
            InsertionResult::Reinsert(a, b)''',
'''        InsertionResult::Reinsert(a, b) => {
            // children have been taken out of a node close below
            if b < current_height + 4 {
                node.envelope = envelope_for_children(&node.children);
            }
            InsertionResult::Reinsert(a, b)''')],
'a tree with at least four inner levels above the node that overflows, and reinserted children that define the border of an upper envelope and end up elsewhere',
'after an insertion with forced reinsertion, ancestors four or more levels above keep an envelope larger than the objects below them',
r'''
fn main() {
    for seed in 0..20 {
        let mut g = Lcg(seed);
        let mut t: RTree<[i64; 2], Small> = RTree::new_with_params();
        for _ in 0..1000 {
            t.insert([g.next(500), g.next(500)]);
            shape(t.root(), true);
        }
    }
}
''')

bug('c01_target_height', 'C01', [('algorithm/rstar.rs',
'''                    root.children.push(node);
                    target_height += 1;''',
'''                    root.children.push(node);
                    if insertion_stack.len() < 3 {
                        target_height += 1;
                    }''')],
'a reinsertion count of at least four, and a root split caused by reinserting one of the first children while three or more are pending',
'the remaining children are inserted one level too high, beside parent nodes: insertion later panics or leaves objects at different depths',
r'''
struct P;
impl RTreeParams for P {
    const MIN_SIZE: usize = 1;
    const MAX_SIZE: usize = 7;
    const REINSERTION_COUNT: usize = 5;
    type DefaultInsertionStrategy = RStarInsertionStrategy;
}
fn main() {
    for seed in 0..20 {
        let mut g = Lcg(seed);
        let mut t: RTree<[i64; 2], P> = RTree::new_with_params();
        let mut v = vec![];
        for i in 0..200 {
            let p = [g.next(100), g.next(100)];
            t.insert(p);
            v.push(p);
            assert_eq!(t.size(), i + 1);
            assert_eq!(sorted(t.iter().copied().collect()), sorted(v.clone()));
            shape(t.root(), true);
        }
    }
}
''')

bug('c03_split_range', 'C03', [('algorithm/rstar.rs',
'''    let min_size = Params::MIN_SIZE;
    let mut best_index = min_size;

    for k in min_size..=node.children.len() - min_size {''',
'''    let min_size = Params::MIN_SIZE.min((node.children.len() - 1) / 2);
    let mut best_index = min_size;

    for k in min_size..=node.children.len() - min_size {''')],
'an odd MAX_SIZE with MIN_SIZE at half of it rounded up',
'a split leaves a node with MIN_SIZE - 1 children',
r'''
fn main() {
    struct Odd;
    impl RTreeParams for Odd {
        const MIN_SIZE: usize = 3;
        const MAX_SIZE: usize = 5;
        const REINSERTION_COUNT: usize = 1;
        type DefaultInsertionStrategy = RStarInsertionStrategy;
    }
    for seed in 0..50 {
        let mut g = Lcg(seed);
        let mut t: RTree<[i64; 2], Odd> = RTree::new_with_params();
        for _ in 0..100 {
            t.insert([g.next(100), g.next(100)]);
            fill::<_, Odd>(t.root(), true);
        }
    }
}
''')

bug('c03_root_overflow', 'C03', [('algorithm/rstar.rs',
'''    if Params::REINSERTION_COUNT == 0 {
        resolve_overflow_without_reinsertion::<_, Params>(node)
    } else''',
'''    if Params::REINSERTION_COUNT == 0 && current_depth > 0 {
        resolve_overflow_without_reinsertion::<_, Params>(node)
    } else''')],
'a parameter set with REINSERTION_COUNT 0: the root then reinserts nothing and keeps MAX_SIZE + 1 children',
'with a reinsertion count of zero the root never splits and grows without bound',
r'''
fn main() {
    let mut g = Lcg(1);
    let mut t: RTree<[i64; 2], NoReinsert> = RTree::new_with_params();
    for _ in 0..100 {
        t.insert([g.next(100), g.next(100)]);
        fill::<_, NoReinsert>(t.root(), true);
    }
}
''')

bug('c04_slab_size', 'C04', [('algorithm/bulk_load/cluster_group_iterator.rs',
'''        let slab_size = elements.len().div_ceil(number_of_clusters_on_axis);''',
'''        let slab_size = elements.len() / number_of_clusters_on_axis + 1;''')],
'an element count that divides evenly down to a largest cluster of exactly MAX_SIZE elements',
'a bulk loaded leaf node holds more than MAX_SIZE elements',
r'''
fn main() {
    let mut g = Lcg(1);
    for n in 0..400usize {
        let v: Vec<[i64; 2]> = (0..n).map(|_| [g.next(100), g.next(100)]).collect();
        let t: RTree<[i64; 2], Small> = RTree::bulk_load_with_params(v.clone());
        assert_eq!(t.size(), n);
        assert_eq!(sorted(t.iter().copied().collect()), sorted(v));
        shape(t.root(), true);
        fn leaves(p: &ParentNode<[i64; 2]>) {
            if p.children().iter().all(|c| matches!(c, RTreeNode::Leaf(_))) {
                assert!(p.children().len() <= 4, "leaf node too full");
            }
            for c in p.children() {
                if let RTreeNode::Parent(c) = c {
                    leaves(c)
                }
            }
        }
        leaves(t.root());
    }
}
''')

bug('c05_within_distance', 'C05', [('algorithm/selection_functions.rs',
'''        envelope_distance <= self.squared_max_distance''',
'''        envelope_distance < self.squared_max_distance''')],
'an object at exactly the maximal distance whose inner node touches the circle only at that distance',
'locate_within_distance misses objects at exactly the maximal distance',
r'''
fn main() {
    let mut g = Lcg(1);
    let v: Vec<[i64; 2]> = (0..200).map(|_| [g.next(30), g.next(30)]).collect();
    let t = RTree::bulk_load(v.clone());
    for _ in 0..300 {
        let q = [g.next(40), g.next(40)];
        let r = g.next(12).pow(2);
        let want = v.iter().copied().filter(|p| p.distance_2(&q) <= r).collect();
        let got = t.locate_within_distance(q, r).copied().collect();
        assert_eq!(sorted(got), sorted::<[i64; 2]>(want));
    }
}
''')


bug('c06_mut_break', 'C06', [('algorithm/iterators.rs',
'''                RTreeNode::Parent(ref mut data) => {
                    if args.func.should_unpack_parent(&data.envelope()) {
                        inner(data, args)?;
                    }
                }''',
'''                RTreeNode::Parent(ref mut data) => {
                    if args.func.should_unpack_parent(&data.envelope()) {
                        let leaf_level = data.children.iter().all(RTreeNode::is_leaf);
                        let result = inner(data, args);
                        if leaf_level {
                            result?;
                        }
                    }
                }''')],
'the mutable internal iteration with a visitor that breaks, in a tree with at least three levels',
'the break is swallowed two levels up: the traversal goes on and reports completion',
r'''
use std::ops::ControlFlow;
fn main() {
    let mut g = Lcg(1);
    let v: Vec<[i64; 2]> = (0..500).map(|_| [g.next(30), g.next(30)]).collect();
    let mut t: RTree<[i64; 2], Small> = RTree::bulk_load_with_params(v.clone());
    for k in [0usize, 1, 7, 100, 499] {
        let mut n = 0;
        let all = AABB::from_corners([-1, -1], [31, 31]);
        let r = t.locate_in_envelope_int_mut(all, |_| {
            n += 1;
            if n == k + 1 { ControlFlow::Break(n) } else { ControlFlow::Continue(()) }
        });
        assert_eq!(r, ControlFlow::Break(k + 1));
        assert_eq!(n, k + 1);
    }
}
''')

bug('c09_drop_envelope', 'C09', [('algorithm/removal.rs',
'''        if num_removed > 0 {
            node.envelope''',
'''        if num_removed > 0 && (increment_idx || node.children.len() <= Params::MIN_SIZE) {
            node.envelope''')],
'a drain dropped before its end (as every single removal is), inside a node that still has more than MIN_SIZE children, after removing an object on the border of the node',
'after an abandoned drain or a removal, envelopes are larger than the objects below',
r'''
fn main() {
    let mut g = Lcg(1);
    let v: Vec<[i64; 2]> = (0..200).map(|_| [g.next(1000), g.next(1000)]).collect();
    for k in 0..20 {
        let mut t = RTree::bulk_load(v.clone());
        let all = AABB::from_corners([0, 0], [1000, 1000]);
        let mut d = t.drain_in_envelope_intersecting(all);
        for _ in 0..k {
            d.next().unwrap();
        }
        drop(d);
        assert_eq!(t.size(), 200 - k);
        shape(t.root(), true);
    }
}
''')

bug('c08_hoist', 'C08', [('algorithm/removal.rs',
'''        // Put the child back (but re-arranged)
        parent_node.children.push(RTreeNode::Parent(node));''',
'''        // Put the child back (but re-arranged), a level with a single node is of no use
        let node = match node.children.pop() {
            Some(only @ RTreeNode::Parent(_)) if node.children.is_empty() => only,
            Some(last) => {
                node.children.push(last);
                RTreeNode::Parent(node)
            }
            None => unreachable!("DrainIterator bug!"),
        };
        parent_node.children.push(node);''')],
'a removal that leaves an inner node two levels above the leaves with a single child',
'leaves end up at different depths after draining',
r'''
fn main() {
    let mut g = Lcg(1);
    for n in [50usize, 100, 300] {
        let v: Vec<[i64; 2]> = (0..n).map(|_| [g.next(100), g.next(100)]).collect();
        for r in [5, 20, 40, 60] {
            let mut t: RTree<[i64; 2], Small> = RTree::new_with_params();
            for p in &v {
                t.insert(*p);
            }
            let q = [50, 50];
            let want: Vec<_> = v.iter().copied().filter(|p| p.distance_2(&q) <= r * r).collect();
            let got: Vec<_> = t.drain_within_distance(q, r * r).collect();
            assert_eq!(t.size(), n - want.len());
            assert_eq!(sorted(got), sorted(want));
            shape(t.root(), true);
        }
    }
}
''')


bug('c16_min_max_tie', 'C16', [('aabb.rs',
'''            if diff >= max_diff.0 {''',
'''            if diff >= max_diff.0 {
                if diff > Zero::zero() && diff == max_diff.0 {
                    // either of the two axes may be relaxed
                    *result.nth_mut(max_diff.2) = max_diff.1;
                }''')],
'a box and a query point for which two axes are tied for the largest gain, for example a square with the query point on its diagonal',
'min_max_dist_2 relaxes two axes and drops below the distance of the closest point, so nearest_neighbor can prune the nearest object',
r'''
fn main() {
    for (lo, hi, q) in [([0i64, 0], [4i64, 4], [-3i64, -3]), ([0, 0], [10, 10], [2, 8])] {
        let b = AABB::from_corners(lo, hi);
        // points touching every face: the box is their smallest cover
        for pts in [[[lo[0], hi[1]], [hi[0], lo[1]]], [lo, hi]] {
            assert_eq!(AABB::from_points(&pts), b);
            let near = pts.iter().map(|p| p.distance_2(&q)).min().unwrap();
            assert!(b.min_max_dist_2(&q) >= near, "min-max distance below the closest point");
        }
    }
}
''')

bug('c10_spill', 'C10', [('algorithm/nearest_neighbor.rs',
'''                    let new_heap = self.spill(capacity);
                    new_heap.push(item);''',
'''                    let new_heap = self.spill(capacity);
                    // keep only what may come first
                    if new_heap.peek().is_none_or(|best| *best <= item) {
                        new_heap.push(item);
                    }''')],
'a nearest neighbor query with more than 32 pending nodes (a large MAX_SIZE or many ties) whose 33rd is not the closest node, but leads to the nearest object',
'the 33rd pending node is dropped, and the nearest object with it',
r'''
struct P;
impl RTreeParams for P {
    const MIN_SIZE: usize = 10;
    const MAX_SIZE: usize = 60;
    const REINSERTION_COUNT: usize = 0;
    type DefaultInsertionStrategy = RStarInsertionStrategy;
}
/// fills only a corner of its envelope
#[derive(Clone, Copy, Debug, PartialEq)]
struct Corner([i64; 2], [i64; 2]);
impl RTreeObject for Corner {
    type Envelope = AABB<[i64; 2]>;
    fn envelope(&self) -> Self::Envelope {
        AABB::from_corners(self.0, self.1)
    }
}
impl PointDistance for Corner {
    fn distance_2(&self, p: &[i64; 2]) -> i64 {
        self.0.distance_2(p).min(self.1.distance_2(p))
    }
}
fn main() {
    for seed in 0..20 {
        let mut g = Lcg(seed);
        let v: Vec<Corner> = (0..2000).map(|_| {
            let (x, y) = (g.next(1000), g.next(1000));
            Corner([x, y], [x + g.next(400), y + g.next(400)])
        }).collect();
        let mut t: RTree<Corner, P> = RTree::new_with_params();
        for c in &v {
            t.insert(*c);
        }
        for _ in 0..50 {
            let q = [g.next(1500), g.next(1500)];
            let want = v.iter().map(|p| p.distance_2(&q)).min();
            assert_eq!(t.nearest_neighbor(q).map(|p| p.distance_2(&q)), want);
        }
    }
}
''')

bug('c11_envelope_distance', 'C11', [('algorithm/nearest_neighbor.rs',
'''                RTreeNode::Leaf(ref t) => t.distance_2(query_point),
            };''',
'''                RTreeNode::Leaf(ref t) if t.contains_point(query_point) => Bounded::min_value(),
                RTreeNode::Leaf(ref t) => t.distance_2(query_point),
            };''')],
'a query point inside a stored object, with distances asked for',
'objects containing the query point are reported with a wrong distance',
r'''
fn main() {
    let v = vec![Rectangle::from_corners([0i64, 0], [4, 4]), Rectangle::from_corners([3, 3], [9, 9])];
    let t = RTree::bulk_load(v);
    for q in [[1i64, 1], [3, 4], [8, 8], [20, 20]] {
        for (r, d) in t.nearest_neighbor_iter_with_distance_2(q) {
            assert_eq!(r.distance_2(&q), d);
        }
    }
}
''')

bug('c12_ties', 'C12', [('algorithm/nearest_neighbor.rs',
'''            .take_while(|(_, next_distance_2)| next_distance_2 == &first_distance_2)''',
'''            .take_while(|(next, _)| next.envelope().distance_2(&tie_point) == first_distance_2)'''),
('algorithm/nearest_neighbor.rs',
'''    let mut nearest_neighbors = NearestNeighborDistance2Iterator::new(node, query_point);
''',
'''    let tie_point = query_point.clone();
    let mut nearest_neighbors = NearestNeighborDistance2Iterator::new(node, query_point);
''')],
'objects whose distance is larger than that of their envelope (lines, user shapes), with several tied for nearest',
'nearest_neighbors misses tied objects that do not fill their envelope',
r'''
fn main() {
    let q = [0i64, 0];
    let a = Line::new([0i64, 10], [10, 0]);
    let b = Line::new([0i64, -10], [-10, 0]);
    #[derive(Debug, PartialEq, Clone, Copy)]
    struct Ring([i64; 2], i64, i64);
    impl RTreeObject for Ring {
        type Envelope = AABB<[i64; 2]>;
        fn envelope(&self) -> Self::Envelope {
            AABB::from_corners([self.0[0] - self.1, self.0[1] - self.1], [self.0[0] + self.1, self.0[1] + self.1])
        }
    }
    impl PointDistance for Ring {
        fn distance_2(&self, p: &[i64; 2]) -> i64 {
            AABB::from_corners([self.0[0] - self.1, self.0[1] - self.1], [self.0[0] + self.1, self.0[1] + self.1]).distance_2(p) + self.2
        }
    }
    let _ = (a, b);
    let v = vec![Ring([0, 0], 5, 3), Ring([1, 1], 9, 3), Ring([20, 0], 1, 0)];
    let t = RTree::bulk_load(v.clone());
    let got = t.nearest_neighbors(&q);
    assert_eq!(got.len(), 2);
}
''')

bug('c13_pop_equal', 'C13', [('rtree.rs',
'''            let removal_function = SelectByAddressFunction::new(neighbor.envelope(), neighbor);''',
'''            let removal_function = SelectInEnvelopeFunction::new(neighbor.envelope());''')],
'another stored object inside the nearest one\'s envelope that is farther from the query point',
'pop_nearest_neighbor removes a different object than the nearest one',
r'''
fn main() {
    let v = vec![
        Rectangle::from_corners([8i64, 8], [9, 9]),
        Rectangle::from_corners([0, 0], [10, 10]),
        Rectangle::from_corners([4, 4], [4, 9]),
        Rectangle::from_corners([40, 40], [50, 50]),
    ];
    for q in [[-3i64, -3], [1, 1], [60, 60], [8, 8]] {
        let mut t = RTree::bulk_load(v.clone());
        let d = v.iter().map(|r| r.distance_2(&q)).min().unwrap();
        let got = t.pop_nearest_neighbor(q).unwrap();
        assert_eq!(got.distance_2(&q), d);
        assert_eq!(t.size(), 3);
        assert!(!t.contains(&got));
        let mut all: Vec<_> = t.iter().copied().collect();
        all.push(got);
        assert_eq!(sorted(all), sorted(v.clone()));
    }
}
''')

bug('c14_stale_candidates', 'C14', [('algorithm/intersection_iterator.rs',
'''        children2.clear();
        self.candidates = children2;''',
'''        if parent2.children().len() > 1 {
            children2.clear();
        }
        self.candidates = children2;''')],
'an inner node of the second tree with a single child (as removals leave behind), compared before another pair of inner nodes',
'stale candidates are compared again: pairs are reported twice',
r'''
fn main() {
    let mut g = Lcg(1);
    for _ in 0..30 {
        let mk = |g: &mut Lcg| {
            let mut t: RTree<Rectangle<[i64; 2]>> = RTree::new();
            let mut v = vec![];
            for _ in 0..80 {
                let (x, y) = (g.next(60), g.next(60));
                let r = Rectangle::from_corners([x, y], [x + g.next(8), y + g.next(8)]);
                t.insert(r);
                v.push(r);
            }
            for _ in 0..50 {
                let r = v.swap_remove(g.next(v.len() as u64) as usize);
                assert!(t.remove(&r).is_some());
            }
            (t, v)
        };
        let (t1, v1) = mk(&mut g);
        let (t2, v2) = mk(&mut g);
        let mut want = vec![];
        for a in &v1 {
            for b in &v2 {
                if a.envelope().intersects(&b.envelope()) {
                    want.push((*a, *b));
                }
            }
        }
        let got = t1.intersection_candidates_with_other_tree(&t2).map(|(a, b)| (*a, *b)).collect();
        assert_eq!(sorted(got), sorted(want));
    }
}
''')

bug('c15_area_clamp', 'C15', [('aabb.rs',
'''        diag.fold(one, |acc, cur| max_inline(cur, zero) * acc)''',
'''        max_inline(diag.fold(one, |acc, cur| cur * acc), zero)''')],
'boxes separated on an even number of axes: the two negative overlaps multiply to a positive area',
'intersection_area of diagonally separated boxes is positive',
r'''
fn main() {
    let a = AABB::from_corners([0i64, 0], [2, 2]);
    for (x, y) in [(1, 1), (3, 1), (1, 5), (3, 5), (-9, 4), (-9, -9)] {
        let b = AABB::from_corners([x, y], [x + 2, y + 2]);
        let w = |lo: i64| (2.min(lo + 2) - 0.max(lo)).max(0);
        assert_eq!(a.intersection_area(&b), w(x) * w(y));
        assert_eq!(b.intersection_area(&a), w(x) * w(y));
    }
}
''')

bug('c17_tuple_write', 'C17', [('point.rs',
'''                match index {
                    $($index => $name,)+
                    _ => unreachable!("index {} out of bounds for tuple", index),''',
'''                match index.min(8) {
                    $($index => $name,)+
                    _ => unreachable!("index {} out of bounds for tuple", index),''')],
'a tuple with ten coordinates whose last one is written',
'writing the last coordinate of a ten-tuple changes the one before it',
r'''
fn main() {
    let mut t = (0i64, 1i64, 2i64, 3i64, 4i64, 5i64, 6i64, 7i64, 8i64, 9i64);
    *t.nth_mut(9) = 99;
    assert_eq!(t, (0, 1, 2, 3, 4, 5, 6, 7, 8, 99));
}
''')

bug('c17_mint_order', 'C17', [('mint.rs',
'''            y: generator(1),
            z: generator(2),''',
'''            z: generator(2),
            y: generator(1),''')],
'a generator with state, on a three-dimensional mint point',
'the generator is called with the coordinates out of order',
r'''
fn main() {
    let mut calls = vec![];
    let p: ::mint::Point3<i64> = Point::generate(|i| {
        calls.push(i);
        calls.len() as i64
    });
    assert_eq!(calls, [0, 1, 2]);
    assert_eq!([p.x, p.y, p.z], [1, 2, 3]);
}
''', mint=True)

bug('c18_bound', 'C18', [('primitives/rectangle.rs',
'''        if distance_2 <= max_distance_2 {''',
'''        if distance_2 < max_distance_2 || max_distance_2 == P::Scalar::zero() && self.aabb.contains_point(point) {'''),
('primitives/rectangle.rs', '''use crate::point::{Point, PointExt};''', '''use crate::point::{Point, PointExt};
use num_traits::Zero;''')],
'a bound that equals a positive squared distance exactly',
'the bounded distance query of a rectangle returns nothing at exactly the bound',
r'''
fn main() {
    let r = Rectangle::from_corners([0i64, 0], [2, 3]);
    for x in -4..8 {
        for y in -4..8 {
            let q = [x, y];
            let d = r.distance_2(&q);
            for m in [0, d - 1, d, d + 1] {
                assert_eq!(r.distance_2_if_less_or_equal(&q, m), if d <= m { Some(d) } else { None });
            }
        }
    }
}
''')

bug('c18_line_nearest', 'C18', [('primitives/line.rs',
'''        if P::Scalar::zero() < s && s < One::one() {''',
'''        if P::Scalar::zero() < s && s + s <= One::one() {
            p1.add(&dir.mul(s))
        } else if s < One::one() && self.length_2() > query_point.sub(&p2).length_2() {''')],
'a query point whose projection lies in the far half of the line and that is farther from the far end than the line is long',
'the nearest point of a line is reported as its end although an inner point is closer',
r'''
fn main() {
    let l = Line::new([0.0f64, 0.0], [4.0, 0.0]);
    for i in 0..60 {
        for j in 0..40 {
            let q = [i as f64 / 8.0 - 1.0, j as f64 / 2.0 - 10.0];
            let x = q[0].clamp(0.0, 4.0);
            let want = (q[0] - x).powi(2) + q[1] * q[1];
            assert!((l.distance_2(&q) - want).abs() < 1e-9);
        }
    }
}
''')

bug('c19_cached', 'C19', [('primitives/cached_envelope.rs',
'''    fn contains_point(&self, p: &<Self::Envelope as Envelope>::Point) -> bool {
        self.inner.contains_point(p)''',
'''    fn contains_point(&self, p: &<Self::Envelope as Envelope>::Point) -> bool {
        // cheap rejection first
        self.cached_env.contains_point(p) && self.inner.distance_2(p) <= Distance::<T>::zero()'''),
('primitives/cached_envelope.rs', '''use core::ops::Deref;''', '''use core::ops::Deref;
use num_traits::Zero;''')],
'a wrapped object with its own contains_point that is not the same as distance zero',
'a cached object answers contains_point differently from the wrapped one',
r'''
#[derive(Debug, PartialEq, Clone, Copy)]
struct Disk([i64; 2], i64);
impl RTreeObject for Disk {
    type Envelope = AABB<[i64; 2]>;
    fn envelope(&self) -> Self::Envelope {
        AABB::from_corners([self.0[0] - self.1, self.0[1] - self.1], [self.0[0] + self.1, self.0[1] + self.1])
    }
}
impl PointDistance for Disk {
    fn distance_2(&self, p: &[i64; 2]) -> i64 {
        self.0.distance_2(p)
    }
    fn contains_point(&self, p: &[i64; 2]) -> bool {
        self.0.distance_2(p) <= self.1 * self.1
    }
}
fn main() {
    let d = Disk([0, 0], 5);
    let c = CachedEnvelope::new(d);
    for x in -6..7 {
        for y in -6..7 {
            assert_eq!(c.contains_point(&[x, y]), d.contains_point(&[x, y]));
        }
    }
}
''')

bug('c20_min_size', 'C20', [('params.rs',
'''        P::MIN_SIZE <= max_min_size,''', '''        P::MIN_SIZE <= max_min_size - P::MAX_SIZE % 2,''')],
'an odd MAX_SIZE with MIN_SIZE at half of it rounded up',
'a valid parameter set is rejected',
r'''
struct Odd;
impl RTreeParams for Odd {
    const MIN_SIZE: usize = 3;
    const MAX_SIZE: usize = 5;
    const REINSERTION_COUNT: usize = 1;
    type DefaultInsertionStrategy = RStarInsertionStrategy;
}
fn main() {
    let t: RTree<[i64; 2], Odd> = RTree::new_with_params();
    assert_eq!(t.size(), 0);
}
''')

# ---- second series: rewrites rather than one-token slips

bug('c07_equal_boxes', 'C07', [('algorithm/selection_functions.rs',
'''        leaf == self.object_to_remove
''',
'''        // objects equal to the wanted one share its envelope
        leaf.envelope() == self.object_to_remove.envelope()
''')],
'two different objects with the same envelope, such as the two diagonals of a box, of which the one not asked for is met first',
'remove takes out an object that only shares the envelope of the given one',
r'''
fn main() {
    let a = Line::new([0i64, 0], [4, 4]);
    let b = Line::new([0i64, 4], [4, 0]);
    for v in [vec![a, b], vec![b, a]] {
        let mut t: RTree<Line<[i64; 2]>> = RTree::bulk_load(v);
        assert_eq!(t.remove(&a), Some(a));
        assert_eq!(t.iter().copied().collect::<Vec<_>>(), vec![b]);
        assert_eq!(t.remove(&a), None);
        assert_eq!(t.size(), 1);
    }
}
''')

bug('c21_only_child', 'C21', [('algorithm/removal.rs',
'''                RTreeNode::Parent(parent) => self.node_stack.extend(parent.children),
''',
'''                RTreeNode::Parent(mut parent) => match parent.children.pop() {
                    // an only child's children can be iterated directly
                    Some(RTreeNode::Parent(inner)) if parent.children.is_empty() => {
                        self.node_stack = inner.children
                    }
                    Some(last) => {
                        self.node_stack.append(&mut parent.children);
                        self.node_stack.push(last);
                    }
                    None => {}
                },
''')],
'an inner node below the root left with a single inner node as its child by removals, while siblings are still pending',
'consuming the tree forgets the pending siblings of an inner node with a single inner child',
r'''
fn main() {
    for seed in 0..400 {
        let mut g = Lcg(seed % 40);
        let mut t: RTree<[i64; 2], Small> = RTree::new_with_params();
        for _ in 0..300 {
            t.insert([g.next(1000), g.next(1000)]);
        }
        for _ in 0..5 + seed / 40 {
            let (x, y) = (g.next(1000), g.next(1000));
            for _ in t.drain_in_envelope_intersecting(AABB::from_corners([x, y], [x + 250, y + 250])) {}
        }
        let want = sorted(t.iter().copied().collect::<Vec<_>>());
        assert_eq!(sorted(t.into_iter().collect::<Vec<_>>()), want);
    }
}
''')

bug('c11_nth', 'C11', [('algorithm/nearest_neighbor.rs',
'''impl<'a, T> Iterator for NearestNeighborIterator<'a, T>
where
    T: PointDistance,
{
    type Item = &'a T;
''',
'''impl<'a, T> Iterator for NearestNeighborIterator<'a, T>
where
    T: PointDistance,
{
    type Item = &'a T;

    /// Skips `n` objects without handing them out.
    fn nth(&mut self, n: usize) -> Option<Self::Item> {
        for _ in 0..n {
            match self.iter.nodes.pop()?.node {
                RTreeNode::Leaf(_) => {}
                RTreeNode::Parent(ref data) => self.iter.extend_heap(&data.children),
            }
        }
        self.next()
    }
''')],
'skipping objects (nth, skip, step_by) while inner nodes are still on the heap',
'nth counts popped inner nodes as objects, so fewer objects are skipped than asked and the order of the iteration seen through skip or step_by is wrong',
r'''
fn main() {
    let pts: Vec<[i64; 2]> = (0..50).map(|i| [i, 2 * i]).collect();
    let t = RTree::bulk_load(pts);
    let all: Vec<_> = t.nearest_neighbor_iter([0, 0]).copied().collect();
    for k in 0..50 {
        let rest: Vec<_> = t.nearest_neighbor_iter([0, 0]).skip(k).copied().collect();
        assert_eq!(rest, all[k..]);
    }
}
''')

bug('c05_contains_first', 'C05', [('rtree.rs',
'''        self.locate_in_envelope(t.envelope()).any(|e| e == t)
''',
'''        let envelope = t.envelope();
        self.locate_in_envelope(envelope.clone())
            .find(|e| e.envelope() == envelope)
            .map_or(false, |e| e == t)
''')],
'two different stored objects with the same envelope',
'contains only looks at the first stored object with the same envelope',
r'''
fn main() {
    let a = Line::new([0i64, 0], [4, 4]);
    let b = Line::new([0i64, 4], [4, 0]);
    for v in [vec![a, b], vec![b, a]] {
        let t: RTree<Line<[i64; 2]>> = RTree::bulk_load(v);
        assert!(t.contains(&a) && t.contains(&b));
    }
}
''')

bug('c09_leak_envelope', 'C09', [('algorithm/removal.rs',
'''        let root = replace(
            rtree.root_mut(),
            ParentNode {
                children: vec![],
                envelope: Envelope::new_empty(),
            },
        );
''',
'''        // take the children out and leave an empty root behind
        let root = ParentNode {
            children: core::mem::take(&mut rtree.root_mut().children),
            envelope: rtree.root().envelope(),
        };
''')],
'a drain that is leaked with mem::forget before its end',
'the emptied root keeps the envelope of the objects that are gone, so the tree left behind is not in the state of an empty tree and later insertions only grow the stale envelope',
r'''
fn main() {
    let mut t = RTree::bulk_load((0..40i64).map(|i| [i, i * i % 17]).collect());
    let mut d = t.drain();
    d.next();
    std::mem::forget(d);
    assert_eq!(t.size(), 0);
    t.insert([5, 5]);
    shape(t.root(), true);
}
''')

bug('c17_prefill', 'C17', [('point.rs',
'''        // The same implementation used in std::array::from_fn
        // Since this is a const generic it gets unrolled
        let mut idx = 0;
        [(); N].map(|_| {
            let res = generator(idx);
            idx += 1;
            res
        })
''',
'''        let mut res = [generator(0); N];
        for (idx, slot) in res.iter_mut().enumerate() {
            *slot = generator(idx);
        }
        res
''')],
'a generator that is not a pure function of the index, such as one reading a stream',
'generating an array point calls the generator once too often',
r'''
fn main() {
    let mut calls = vec![];
    let p = <[i64; 3] as Point>::generate(|i| { calls.push(i); calls.len() as i64 });
    assert_eq!(calls, vec![0, 1, 2]);
    assert_eq!(p, [1, 2, 3]);
}
''')

bug('c06_mut_fold', 'C06', [('algorithm/iterators.rs',
'''impl<'a, T, Func> Iterator for SelectionIteratorMut<'a, T, Func>
where
    T: RTreeObject,
    Func: SelectionFunction<T>,
{
    type Item = &'a mut T;
''',
'''impl<'a, T, Func> Iterator for SelectionIteratorMut<'a, T, Func>
where
    T: RTreeObject,
    Func: SelectionFunction<T>,
{
    type Item = &'a mut T;

    /// Visits the remaining nodes without going through `next`.
    fn fold<B, F>(self, init: B, mut f: F) -> B
    where
        F: FnMut(B, Self::Item) -> B,
    {
        let SelectionIteratorMut { func, current_nodes } = self;
        let mut acc = Some(init);
        for node in current_nodes {
            match node {
                RTreeNode::Leaf(t) => {
                    if func.should_unpack_leaf(t) {
                        acc = acc.map(|b| f(b, t));
                    }
                }
                RTreeNode::Parent(parent) => {
                    if func.should_unpack_parent(&parent.envelope) {
                        let _ = select_nodes_mut(parent, &func, &mut |t| {
                            acc = acc.take().map(|b| f(b, t));
                            ControlFlow::<()>::Continue(())
                        });
                    } else {
                        break;
                    }
                }
            }
        }
        match acc {
            Some(b) => b,
            None => unreachable!(),
        }
    }
''')],
'consuming a mutable query by for_each, fold or count where an inner node that is pruned comes before one that is not',
'internal iteration over a mutable query stops at the first pruned node and misses objects that next() would yield',
r'''
fn main() {
    for seed in 0..10 {
        let mut g = Lcg(seed);
        let mut t = RTree::bulk_load((0..200).map(|_| [g.next(100), g.next(100)]).collect());
        for _ in 0..20 {
            let (x, y) = (g.next(90), g.next(90));
            let b = AABB::from_corners([x, y], [x + 30, y + 30]);
            let want = sorted(t.locate_in_envelope(b).copied().collect::<Vec<_>>());
            let mut got = vec![];
            t.locate_in_envelope_mut(b).for_each(|p| got.push(*p));
            assert_eq!(sorted(got), want);
        }
    }
}
''')

bug('c19_rc_contains', 'C19', [('object.rs',
'''impl<T> PointDistance for Rc<T>
where
    T: PointDistance + ?Sized,
{
    fn distance_2(&self, point: &<Self::Envelope as Envelope>::Point) -> Distance<Self> {
        (**self).distance_2(point)
    }
    fn contains_point(&self, point: &<Self::Envelope as Envelope>::Point) -> bool {
        (**self).contains_point(point)
    }
''',
'''impl<T> PointDistance for Rc<T>
where
    T: PointDistance + ?Sized,
{
    fn distance_2(&self, point: &<Self::Envelope as Envelope>::Point) -> Distance<Self> {
        (**self).distance_2(point)
    }
''')],
'an object whose own contains_point differs from comparing its distance with zero',
'an Rc no longer asks the object behind it whether it contains a point',
r'''
#[derive(Clone, Copy, PartialEq, Debug)]
struct Ring;
impl RTreeObject for Ring {
    type Envelope = AABB<[i64; 2]>;
    fn envelope(&self) -> Self::Envelope {
        AABB::from_corners([-5, -5], [5, 5])
    }
}
impl PointDistance for Ring {
    fn distance_2(&self, p: &[i64; 2]) -> i64 {
        (p[0] * p[0] + p[1] * p[1] - 25).max(0)
    }
    fn contains_point(&self, p: &[i64; 2]) -> bool {
        p[0] * p[0] + p[1] * p[1] == 25
    }
}
fn main() {
    for p in [[0, 0], [3, 4], [5, 0], [5, 5]] {
        assert_eq!(std::rc::Rc::new(Ring).contains_point(&p), Ring.contains_point(&p));
    }
}
''')

bug('c14_swap_sides', 'C14', [('algorithm/intersection_iterator.rs',
'''        if !parent1.envelope().intersects(&parent2.envelope()) {
            return;
        }
        let children1''',
'''        if !parent1.envelope().intersects(&parent2.envelope()) {
            return;
        }
        // descend only the larger side, the smaller one is kept as it is
        if parent2.children().len() == 1 {
            if let [only @ Parent(_)] = parent2.children() {
                for child1 in parent1.children() {
                    self.push_if_intersecting(child1, only);
                }
                return;
            }
        } else if let [only] = parent1.children() {
            for child2 in parent2.children().iter().skip(1) {
                self.push_if_intersecting(only, child2);
            }
            return;
        }
        let children1''')],
'a node of the first tree with a single child met together with a node of the second tree with several, which only removals or one-object trees produce',
'pairs with the first child of the second node are lost',
r'''
fn main() {
    let mut a: RTree<[i64; 2]> = RTree::new();
    a.insert([3, 3]);
    let b = RTree::bulk_load((0..5).map(|i| [i, i]).collect::<Vec<[i64; 2]>>());
    for x in 0..5 {
        let mut a: RTree<[i64; 2]> = RTree::new();
        a.insert([x, x]);
        assert_eq!(a.intersection_candidates_with_other_tree(&b).count(), 1);
        assert_eq!(b.intersection_candidates_with_other_tree(&a).count(), 1);
    }
}
''')

bug('c04_chunks', 'C04', [('algorithm/bulk_load/bulk_load_sequential.rs',
'''        elements.shrink_to_fit();
        let elements: Vec<_> = elements.into_iter().map(RTreeNode::Leaf).collect();
        return ParentNode::new_parent(elements);
''',
'''        elements.shrink_to_fit();
        // build the envelope while wrapping the elements
        let mut envelope = T::Envelope::new_empty();
        let mut children = Vec::with_capacity(elements.len());
        let mut rest = elements.into_iter();
        while let (Some(a), b) = (rest.next(), rest.next()) {
            envelope.merge(&a.envelope());
            children.push(RTreeNode::Leaf(a));
            if let Some(b) = b.filter(|b| children.len() < 2 || envelope != b.envelope()) {
                envelope.merge(&b.envelope());
                children.push(RTreeNode::Leaf(b));
            }
        }
        return ParentNode { envelope, children };
''')],
'at least four equal points in one leaf node, or a box there that covers the elements before it',
'bulk loading drops an element whose envelope equals the envelope gathered so far',
r'''
fn main() {
    let mut v = vec![];
    for i in 0..10i64 {
        for _ in 0..6 {
            v.push([i, i]);
        }
    }
    for n in 0..60 {
        let w = v[..n].to_vec();
        let t = RTree::bulk_load(w.clone());
        assert_eq!(sorted(t.iter().copied().collect::<Vec<_>>()), w);
    }
}
''')

bug('c12_ulp', 'C12', [('algorithm/nearest_neighbor.rs',
'''    let mut result = vec![first];

    // Use the distance to the first nearest neighbor
    // to filter out the rest of the nearest neighbors
    // that are farther than this first neighbor.
    result.extend(
        nearest_neighbors
            .take_while(|(_, next_distance_2)| next_distance_2 == &first_distance_2)
            .map(|(next, _)| next),
    );
''',
'''    let mut result = vec![first];
    // several objects may share the first one's place
    let place = first.envelope();
    for (next, next_distance_2) in nearest_neighbors {
        if next_distance_2 > first_distance_2 {
            break;
        }
        if result.len() < 2 || !result.iter().skip(1).all(|r| r.envelope() == place) || next.envelope() == place {
            result.push(next);
        }
    }
''')],
'at least three tied objects of which the second found has the same envelope as the first and a later one does not',
'tied objects are dropped when the first two tied ones share an envelope',
r'''
fn main() {
    for seed in 0..60 {
        let mut g = Lcg(seed);
        let v: Vec<[i64; 2]> = (0..30).map(|_| [g.next(5), g.next(5)]).collect();
        let t = RTree::bulk_load(v.clone());
        for q in [[2, 2], [2, 7], [7, 2], [0, 0]] {
            let d = v.iter().map(|p| p.distance_2(&q)).min().unwrap();
            let want = sorted(v.iter().copied().filter(|p| p.distance_2(&q) == d).collect::<Vec<_>>());
            assert_eq!(sorted(t.nearest_neighbors(&q).into_iter().copied().collect()), want);
        }
    }
}
''')

bug('c10_best_so_far', 'C10', [('algorithm/nearest_neighbor.rs',
'''            if let Some(distance) = distance_if_less_or_equal {
                *min_max_distance = min_inline(
                    *min_max_distance,
                    child.envelope().min_max_dist_2(query_point),
                );
''',
'''            if let Some(distance) = distance_if_less_or_equal {
                // the middle of a small box is not far from the objects in it
                let envelope = child.envelope();
                let bound = if envelope.contains_point(query_point) {
                    envelope.min_max_dist_2(query_point)
                } else {
                    min_inline(
                        envelope.min_max_dist_2(query_point),
                        envelope.center().sub(query_point).length_2(),
                    )
                };
                *min_max_distance = min_inline(*min_max_distance, bound);
'''), ('algorithm/nearest_neighbor.rs', '''use crate::point::min_inline;
''', '''use crate::point::{min_inline, PointExt};
''')],
'an inner node or object whose middle is nearer to the query point than any object in it, met before the true nearest object',
'the search prunes with the distance to the middle of a box and returns an object that is not nearest, or falls back to the slower search',
r'''
fn main() {
    for seed in 0..400 {
        let mut g = Lcg(seed);
        let v: Vec<[f64; 2]> = (0..40).map(|_| [g.next(40) as f64, g.next(40) as f64]).collect();
        let mut t: RTree<[f64; 2]> = RTree::new();
        for p in &v {
            t.insert(*p);
        }
        for _ in 0..60 {
            let q = [g.next(60) as f64 - 10., g.next(60) as f64 - 10.];
            let d = v.iter().map(|p| p.distance_2(&q)).fold(f64::MAX, f64::min);
            let (_, e) = t.nearest_neighbor_with_distance_2(q).unwrap();
            assert!(e <= d + 1e-9, "{e} {d}");
        }
    }
}
''')
