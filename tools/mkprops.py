import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":["rstar/src/"+f for f in files],"mechanism":[{"name":n,"where":"rstar/src/"+w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":"rstar/src/"+w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
ST=[("RTreeNode / ParentNode","the tree: leaves hold objects, parents hold an envelope and children","node.rs"),("RTree.size","number of stored objects","rtree.rs")]
p("C01","Insertion adds exactly the inserted object",
 "Inserting an object into any tree a user can build makes the tree's contents exactly the previous contents (as a multiset) plus that object, and the reported size one larger. No other object is lost, duplicated or altered, and insertion never panics, for every valid parameter set.",
 ["inputs","histories","configurations"],"every tree reachable by any sequence of inserts, bulk loads, removals and drains; every object; every accepted RTreeParams",
 "unit tests insert a few hundred pseudo-random points with the default parameters; overflow handling (forced reinsertion, cascading splits, new roots) depends on geometry, fill and history",
 ["algorithm/rstar.rs","rtree.rs","node.rs"],[("RStarInsertionStrategy::insert","algorithm/rstar.rs"),("recursive_insert / forced_insertion","algorithm/rstar.rs"),("split / get_nodes_for_reinsertion","algorithm/rstar.rs"),("RTree::insert","rtree.rs")],ST)
p("C02","Tree shape invariants hold between calls",
 "Between any two public calls, the envelope of every inner node is the smallest envelope covering all objects stored below it, every leaf lies at the same depth, and no inner node other than the root of an empty tree is without children. The reported size equals the number of stored objects.",
 ["inputs","histories","configurations"],"every sequence of public mutating calls (insert, bulk load, remove, drain run to the end or dropped early), every parameter set",
 "the sanity check in the tests runs on a handful of fixed-seed trees and never after mixed histories",
 ["node.rs","algorithm/rstar.rs","algorithm/removal.rs","algorithm/bulk_load/bulk_load_sequential.rs","algorithm/bulk_load/cluster_group_iterator.rs","rtree.rs"],
 [("envelope maintenance on insertion","algorithm/rstar.rs"),("envelope_for_children","node.rs"),("DrainIterator::pop_node","algorithm/removal.rs"),("bulk_load_recursive","algorithm/bulk_load/bulk_load_sequential.rs")],ST)
p("C03","Node fill stays within the configured bounds",
 "In a tree built from empty by insertions alone, every node has at most MAX_SIZE children, every node other than the root has at least MIN_SIZE children, and a root that is not at leaf level has at least two children. This holds for every accepted parameter set, including a reinsertion count of zero.",
 ["inputs","histories","configurations"],"all insertion sequences of any length and all accepted RTreeParams",
 "tests check fill on one seeded insertion sequence per parameter set; the bounds rest on arithmetic between MIN_SIZE, MAX_SIZE, REINSERTION_COUNT and the split position",
 ["algorithm/rstar.rs","params.rs","node.rs"],[("split","algorithm/rstar.rs"),("resolve_overflow / get_nodes_for_reinsertion","algorithm/rstar.rs"),("verify_parameters","params.rs")],ST)
p("C04","Bulk loading stores exactly the given elements",
 "Bulk loading any list of elements yields a tree whose contents are exactly that list as a multiset, whose size is the list's length, and whose leaf nodes hold at most MAX_SIZE elements, all at the same depth. It terminates without panicking for every number of elements and dimension, and the tree supports all later operations.",
 ["inputs","configurations"],"every element list of any length, including duplicates, empty and single-element lists, every dimension and accepted parameter set",
 "tests bulk load a few sizes; the cluster arithmetic depends on the element count through floating-point logarithms and remainders",
 ["algorithm/bulk_load/bulk_load_sequential.rs","algorithm/bulk_load/cluster_group_iterator.rs","rtree.rs"],
 [("bulk_load_recursive / PartitioningTask","algorithm/bulk_load/bulk_load_sequential.rs"),("ClusterGroupIterator::next","algorithm/bulk_load/cluster_group_iterator.rs"),("new_from_bulk_loading","rtree.rs")],ST)
p("C05","Selection queries return exactly the matching objects",
 "Every selection query (all objects, contained in an envelope, intersecting an envelope, at a point, within a distance, or by a user selection function that never rejects an envelope covering a selected object) yields precisely the stored objects that satisfy its predicate, each stored occurrence exactly once. `contains` and `locate_at_point` answer positively exactly when such an object is stored.",
 ["inputs","histories"],"every tree, every query envelope, point, radius and conforming selection function",
 "tests compare against brute force for a few random queries; pruning errors show only for particular query and node envelope positions, such as touching borders",
 ["algorithm/iterators.rs","algorithm/selection_functions.rs","rtree.rs"],[("SelectionIterator","algorithm/iterators.rs"),("SelectionFunction implementations","algorithm/selection_functions.rs"),("locate_* / contains / iter","rtree.rs")],ST)
p("C06","Internal-iteration and mutable queries agree with the iterators",
 "The visitor-based and the mutable variants of each selection query hand out exactly the objects the corresponding iterator yields, each once, and leave the tree's shape and untouched objects as they were. A visitor that breaks stops the traversal at once and its value is returned; otherwise the traversal visits everything and reports completion.",
 ["inputs","histories"],"every tree, query and visitor, breaking at any position",
 "tests cover one query per variant; stopping early at an arbitrary point of an arbitrary tree is not sampled",
 ["algorithm/iterators.rs","rtree.rs"],[("select_nodes / select_nodes_mut","algorithm/iterators.rs"),("SelectionIteratorMut","algorithm/iterators.rs"),("locate_*_int*, *_mut","rtree.rs")],ST)
p("C07","Single removal takes out exactly one matching object",
 "Removing by equality, at a point or by a selection function returns a stored object that matches and removes exactly that one occurrence, decreasing the size by one; when nothing matches it returns nothing and the contents and size are unchanged. All other objects stay in the tree and remain findable.",
 ["inputs","histories"],"every tree, every removal argument, including duplicates and absent objects, and any later sequence of operations",
 "tests remove objects from a few trees; the effect on envelopes and node re-assembly depends on where the object sits",
 ["algorithm/removal.rs","rtree.rs","algorithm/selection_functions.rs"],[("RTree::remove_with_selection_function","rtree.rs"),("DrainIterator","algorithm/removal.rs"),("SelectEqualsFunction / SelectAtPointFunction","algorithm/selection_functions.rs")],ST)
p("C08","Draining removes and yields exactly the selected objects",
 "A drain that is run to the end yields every stored object that matches its selection exactly once; afterwards the tree contains precisely the non-matching objects, with its size reduced by the number yielded and all shape guarantees intact.",
 ["inputs","histories"],"every tree and every drain variant (all, in envelope, intersecting, within distance, custom function)",
 "tests drain one seeded tree; index and counter handling while nodes are swapped and dropped depends on which children are selected",
 ["algorithm/removal.rs","rtree.rs"],[("DrainIterator::next / pop_node","algorithm/removal.rs"),("drain*","rtree.rs")],ST)
p("C09","An abandoned drain loses nothing it did not yield",
 "Dropping a drain iterator before it is exhausted puts back every object it has not yielded, with correct size and shape invariants. If the iterator is leaked instead of dropped before it is exhausted, the tree is left empty, with size zero, and fully usable.",
 ["inputs","histories"],"every tree, every selection, and dropping or leaking after any number of yielded objects",
 "tests drop one drain after one fixed prefix; the restore path depends on the depth and position reached",
 ["algorithm/removal.rs"],[("Drop for DrainIterator","algorithm/removal.rs"),("DrainIterator::new / pop_node","algorithm/removal.rs")],ST)
p("C10","The nearest neighbor is at minimal distance",
 "`nearest_neighbor` (with or without distance) returns a stored object whose distance to the query point is not larger than that of any stored object, together with that object's own squared distance, and returns nothing exactly when the tree is empty.",
 ["inputs","histories"],"every non-empty tree and query point, for any object type whose distances agree with its envelope",
 "tests compare a few hundred random queries; the branch-and-bound pruning is wrong only for particular spatial arrangements",
 ["algorithm/nearest_neighbor.rs","rtree.rs","aabb.rs","object.rs"],[("nearest_neighbor_with_distance_2","algorithm/nearest_neighbor.rs"),("AABB::min_max_dist_2 / distance_2","aabb.rs"),("SmallHeap","algorithm/nearest_neighbor.rs")],ST)
p("C11","Nearest-neighbor iteration is complete and sorted",
 "The nearest-neighbor iterators yield every stored object exactly once, in non-decreasing order of squared distance to the query point, each paired with its own squared distance where distances are reported.",
 ["inputs","histories"],"every tree and query point",
 "tests check the order on a few random trees; the heap spills from a fixed-size to a growing buffer at sizes tests rarely cross in interesting ways",
 ["algorithm/nearest_neighbor.rs","rtree.rs"],[("NearestNeighborDistance2Iterator","algorithm/nearest_neighbor.rs"),("SmallHeap::extend / spill / pop","algorithm/nearest_neighbor.rs")],ST)
p("C12","nearest_neighbors returns all objects tied for nearest",
 "`nearest_neighbors` (with or without distance) returns exactly the stored objects whose distance to the query point equals the minimal distance, each stored occurrence once, and the reported squared distance is that minimum; for an empty tree it returns nothing.",
 ["inputs","histories"],"every tree and query point, any number of ties",
 "tests have two small hand-made examples with ties",
 ["algorithm/nearest_neighbor.rs","rtree.rs"],[("nearest_neighbors_with_distance_2","algorithm/nearest_neighbor.rs"),("nearest_neighbors","rtree.rs")],ST)
p("C13","Popping the nearest neighbor removes exactly that object",
 "`pop_nearest_neighbor` removes and returns one stored object at minimal distance, leaving every other object, including equal ones, in the tree with the size reduced by one; on an empty tree it returns nothing.",
 ["inputs","histories"],"every tree, with any number of equal or equidistant objects, and every query point",
 "one test pops from a small tree; identity is decided by address while the tree is being taken apart",
 ["rtree.rs","algorithm/selection_functions.rs","algorithm/removal.rs"],[("RTree::pop_nearest_neighbor","rtree.rs"),("SelectByAddressFunction","algorithm/selection_functions.rs")],ST)
p("C14","Intersection candidates are exactly the intersecting pairs",
 "Intersecting two trees yields exactly the pairs of stored objects, one from each tree, whose envelopes intersect, each pair of occurrences once, also for trees of different heights and when one tree is empty.",
 ["inputs","histories"],"every pair of trees",
 "one test compares two random trees of equal size; trees of different heights and touching envelopes are not sampled",
 ["algorithm/intersection_iterator.rs","rtree.rs"],[("IntersectionIterator::next / add_intersecting_children","algorithm/intersection_iterator.rs"),("intersection_candidates_with_other_tree","rtree.rs")],ST)
p("C15","AABB operations form the expected box algebra",
 "For boxes over any totally ordered numeric coordinates and any dimension, merging gives the smallest box containing both, containment and intersection (borders included) agree with coordinate-wise interval reasoning, the empty box is neutral for merging, contained in every box and recognised as empty, and building from points or corners gives the smallest covering box. Area, intersection area, perimeter value and center are the products, sums and midpoints of the side intervals, zero where the boxes do not overlap.",
 ["inputs"],"all pairs of boxes and points, every dimension and coordinate type without NaN, overflow excluded",
 "tests evaluate a few literals in two dimensions",
 ["aabb.rs","point.rs","envelope.rs"],[("impl Envelope for AABB","aabb.rs"),("AABB constructors","aabb.rs"),("PointExt","point.rs")])
p("C16","AABB distances bound the distances of contained points",
 "The squared distance of a box to a point is the minimum over the box's points, zero exactly when the point is inside (borders included), and never grows when the box is enlarged. Whenever a box is the smallest one covering some non-empty set of points, its min-max distance to a query point is at least the squared distance to the closest of those points and at most the squared distance to the farthest corner.",
 ["inputs"],"all non-empty boxes, points, dimensions and coordinate types without NaN, overflow excluded",
 "tests evaluate three literals; an optimistic bound makes nearest-neighbor queries wrong only for rare arrangements",
 ["aabb.rs","point.rs"],[("AABB::distance_2 / min_point","aabb.rs"),("AABB::min_max_dist_2","aabb.rs")])
p("C17","Every built-in point type is a faithful coordinate vector",
 "For arrays, tuples (one to ten coordinates) and the mint point types, generating a point calls the generator exactly once per coordinate in order 0 up to the dimension, reading coordinate i returns what was generated for i, and writing coordinate i changes that coordinate and no other.",
 ["inputs","configurations"],"every provided point type, dimension and coordinate value",
 "one test covers tuples of a few sizes with one literal each",
 ["point.rs","mint.rs"],[("impl Point for [S; N]","point.rs"),("impl_point_for_tuple","point.rs"),("impl Point for mint::Point2/Point3","mint.rs")])
p("C18","Points, lines and rectangles report distances matching their envelopes",
 "For points, lines and rectangles the envelope is the smallest box covering the shape, the reported nearest point belongs to the shape and realises the reported squared distance, and no point of the shape is closer. Testing for a point is consistent with the shape's geometry, and the bounded distance query returns the distance exactly when it does not exceed the bound.",
 ["inputs"],"all shapes and query points, rounding aside for floating-point lines",
 "tests evaluate a few literals per primitive",
 ["primitives/line.rs","primitives/rectangle.rs","object.rs"],[("Line","primitives/line.rs"),("Rectangle","primitives/rectangle.rs"),("PointDistance for P / default distance_2_if_less_or_equal","object.rs")])
p("C19","Wrapper objects behave exactly like what they wrap",
 "An object wrapped with extra data, with a cached envelope, behind a reference, an Rc or an Arc, or a point with data, reports the same envelope, distances, containment and bounded distance as the wrapped object itself, for every input, and gives back the wrapped object and data unchanged.",
 ["inputs","configurations"],"every wrapped object, query point and bound, including types with their own overridden containment and bounded distance",
 "tests construct single examples",
 ["primitives/geom_with_data.rs","primitives/cached_envelope.rs","primitives/object_ref.rs","primitives/point_with_data.rs","object.rs"],[("GeomWithData","primitives/geom_with_data.rs"),("CachedEnvelope","primitives/cached_envelope.rs"),("ObjectRef","primitives/object_ref.rs"),("Rc / Arc impls","object.rs")])
p("C20","Invalid tree parameters are always rejected",
 "Creating a tree, empty or by bulk loading, panics exactly when the parameters are invalid: MAX_SIZE below 4, MIN_SIZE zero or above half of MAX_SIZE rounded up, REINSERTION_COUNT not below MAX_SIZE minus MIN_SIZE, or fewer than two dimensions. Every other parameter set is accepted.",
 ["configurations"],"all values of MIN_SIZE, MAX_SIZE, REINSERTION_COUNT and dimension",
 "tests instantiate a handful of parameter sets",
 ["params.rs","rtree.rs"],[("verify_parameters","params.rs"),("new_with_params / new_from_bulk_loading","rtree.rs")])
p("C21","Consuming a tree yields each stored object exactly once",
 "Turning a tree into an iterator by value yields every stored object exactly once and nothing else, however the tree was built and however far it is consumed.",
 ["inputs","histories"],"every tree",
 "one test consumes one small tree",
 ["algorithm/removal.rs","rtree.rs"],[("IntoIter","algorithm/removal.rs"),("IntoIterator for RTree","rtree.rs")],ST)
p("C22","Serialization round trip preserves the tree",
 "With the serde feature, serializing any tree and deserializing the result yields a tree with the same contents, size and structure, on which every query answers the same.",
 ["inputs","histories"],"every tree of serializable objects",
 "one test serializes one object per type",
 ["rtree.rs","node.rs","aabb.rs"],[("derive(Serialize, Deserialize)","rtree.rs")],ST)
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+"\n" for x in P))
for x in P:
    assert len(x["title"])<=80
    print(x["id"],x["title"])
