"""writes vx/props.json and MANIFEST.json"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
titles = {json.loads(l)["id"]: json.loads(l)["title"] for l in open(V + "/properties.jsonl")}
INS_F = [r"^algorithm::rstar::", r"^node::", r"^rtree::RTree::(insert|root|root_mut|size|size_mut)$"]
INS_I = [r"^algorithm/rstar.rs::", r"^node.rs::", r"^rtree.rs::impl RTree::(insert|root|root_mut|size|size_mut)$"]
INS_FILES = [r"^algorithm/rstar.rs", r"^node.rs", r"^envelope.rs", r"^rtree.rs::impl RTree::(insert|root|root_mut|size|size_mut)$"]
GEN = ["Envelope implementations satisfy the laws stated in vx/contracts/envelope.vc (AABB's are checked under C15/C16)",
       "machine arithmetic on user coordinates is exact (no overflow, no rounding) and totally ordered (no NaN)",
       "Clone returns an equal value; Vec, slice and mem functions behave as vstd / the prelude states",
       "the extraction rules (vx/extract/src/rules.rs) preserve meaning; the evidence lists how often each was applied"]
P = {}
def p(id, level="exploration", functions=(), items=(), files=(), note="", technique="", bounded="", **k):
    P[id] = dict(level=level, functions=list(functions), items=list(items), files=list(files), bounded=bounded, note=note, technique=technique, **k)
SEARCH = "bounded: random search on the real crate against a brute-force model (stated counts in the evidence), never counted as proved"
VT = "contract-based deductive verification (Verus on mechanically extracted source); bounded search on the real crate finds inputs"
NT = "bounded search against a brute-force oracle, standing in until the contracts below it are discharged"
SORT_I, SORT_F = r"^aabb.rs::impl Envelope for AABB::(sort_envelopes|center)$", r"^aabb::(aabb_sort_envelopes|AABB::center)$"
p("C01", "proof", INS_F + [SORT_F], INS_I + [SORT_I], INS_FILES + [SORT_I], "Every obligation of insertion is discharged for all trees, objects and parameters; see the assumptions in the evidence.", VT, SEARCH)
p("C02", note=SEARCH, technique=NT, bounded=SEARCH)
p("C03", "proof", INS_F, INS_I, INS_FILES, "Fill bounds are part of insertion's postcondition, discharged for all trees and accepted parameters.", VT, SEARCH)
for i in list(range(4, 22)): p("C%02d" % i, note=SEARCH, technique=NT, bounded=SEARCH)
NUM = "scalars form an exactly computed ordered field (vx/prelude/20_num.rs: num_laws); Point::generate / nth / nth_mut behave as a coordinate vector of DIMENSIONS scalars (checked for the built-in points under C17); points compare equal when all coordinates do"
BOX_F, BOX_I = [r"^aabb::", r"^point::"], [r"^aabb.rs::", r"^point.rs::"]
BOX_FILES = [r"^aabb.rs", r"^point.rs", r"^envelope.rs"]
p("C15", "proof", BOX_F, BOX_I, BOX_FILES, "Every AABB operation is discharged against coordinate-wise interval reasoning for all points, dimensions and scalars with exact arithmetic.", VT, SEARCH, assumptions=[NUM])
p("C16", "proof", BOX_F, BOX_I, BOX_FILES, "distance_2 and min_max_dist_2 are discharged against the minimum over the box and the face bound; the bounds on contained points are lemmas over these contracts.", VT, SEARCH, assumptions=[NUM])
p("C18", "proof", [r"^object::", r"^primitives::(line|rectangle)::"] + BOX_F, [r"^object.rs::", r"^primitives/(line|rectangle).rs::"] + BOX_I, [r"^object.rs", r"^primitives/(line|rectangle).rs"] + BOX_FILES,
  "Points, rectangles and lines are discharged against their geometry; line arithmetic is treated as exact real arithmetic.", VT, SEARCH,
  assumptions=[NUM, "Line: division never panics and is exact for a non-zero divisor (float_laws), so rounding is ignored; 0.0 and -0.0 are not told apart"])
p("C19", "proof", [r"^object::", r"^primitives::(cached_envelope|geom_with_data|object_ref|point_with_data)::"], [r"^object.rs::", r"^primitives/(cached_envelope|geom_with_data|object_ref|point_with_data).rs::"],
  [r"^object.rs", r"^primitives/(cached_envelope|geom_with_data|object_ref|point_with_data).rs"],
  "Every wrapper method is discharged against the wrapped object's specification.", VT, SEARCH, assumptions=[NUM, "Rc/Arc: `?Sized` is dropped from their impls"])
# what the queries rest on
ENV_I = [r"^envelope.rs::", r"^aabb.rs::impl AABB::(from_.*|new|lower|upper)$", r"^aabb.rs::impl Envelope for AABB::(new_empty|is_empty|merge|merged)$"]
ENV_F = [r"^envelope::", r"^aabb::AABB::(from_.*|new|lower|upper|new_empty|is_empty|merge|merged)$"]
HIT_I = ENV_I + [r"^aabb.rs::impl (Envelope for )?AABB::(contains_point|contains_envelope|intersects|distance_2|min_point)$", r"^object.rs::", r"^primitives/", r"^point.rs::"]
HIT_F = ENV_F + [r"^aabb::AABB::(contains_point|contains_envelope|intersects|distance_2|min_point)$", r"^object::", r"^primitives::", r"^point::"]
HIT_FILES = [r"^envelope.rs", r"^aabb.rs", r"^object.rs", r"^primitives/(line|rectangle|cached_envelope|geom_with_data|object_ref|point_with_data).rs", r"^point.rs"]
def rt(names): return [r"^rtree.rs::impl RTree::(%s)$" % names], [r"^rtree::RTree::(%s)$" % names]
# functions of those files a property does not rest on
MUT = r"SelectionIteratorMut|select_nodes_mut"
INTO = r"^algorithm(/|::)removal.*\bIntoIter::"
DRAIN = r"^algorithm(/|::)removal.*(DrainIterator|drain_drop)"
ONE = r"^algorithm.*\bnearest_neighbor_with_distance_2"
ALL = r"^algorithm.*\bnearest_neighbors_with_distance_2"
NNIT = r"\bNearestNeighborIterator::"
OBJ_AT = r"^(object|primitives).*(contains_point|distance_2_if_less_or_equal)"
OBJ_ALL = r"^(object|primitives).*(contains_point|distance_2|nearest_point|length_2|project_point)"
BOX_HIT = r"^aabb.*::(contains_envelope|intersects)$"
BOX_ALL = r"^aabb.*::(contains_envelope|contains_point|distance_2|min_point)$"
BOX_MEET = r"^aabb.*::intersects$"
def prop(id, names, mods, files, note, hit=True, extra_i=(), extra_f=(), **k):
    i, f = rt(names)
    p(id, "proof", [r"^algorithm::%s::" % m for m in mods] + f + (HIT_F if hit else []) + list(extra_f),
      [r"^algorithm/%s.rs::" % m for m in mods] + i + (HIT_I if hit else []) + list(extra_i),
      [r"^algorithm/%s.rs" % m for m in mods] + i + (HIT_FILES if hit else []) + list(files), note, VT, SEARCH, **k)
BASE = "root|root_mut|size|size_mut"
PLAIN = "iter|locate_in_envelope|locate_in_envelope_intersecting|locate_all_at_point|locate_with_selection_function|locate_within_distance|locate_at_point|contains"
SELF = ["selection functions supplied by a user keep the promise of the trait: they never reject an envelope covering a selected object, and answer by value", "user PartialEq is symmetric (ob_sym), and equal objects have equal envelopes (eq_ok): required by contains / remove"]
NODE_F, NODE_I = [r"^node::"], [r"^node.rs::"]
prop("C05", BASE + "|locate_at_point_int|" + PLAIN, ["selection_functions", "iterators"], [r"^node.rs"], "Each query's iterator is shown to have exactly the matching objects left to yield, and each step to hand out one of them, for all trees and queries.",
     extra_i=NODE_I + [r"^rtree.rs::impl IntoIterator for &RTree::"], extra_f=NODE_F + [r"^rtree::rtree_ref_into_iter$"], assumptions=SELF + [NUM], skip=[MUT])
prop("C06", BASE + "|(iter|locate)_.*", ["selection_functions", "iterators"], [r"^node.rs"], "The mutable and the visitor forms are discharged against the same multiset of matching objects, together with a frame relation between the tree before and after.",
     extra_i=NODE_I + [r"^rtree.rs::impl IntoIterator for &mut RTree::"], extra_f=NODE_F + [r"^rtree::rtree_mut_into_iter$"],
     assumptions=SELF + [NUM, "visitors: FnMut(..) -> ControlFlow is modelled by a trait with a ghost log of the objects handed over (R-visitor)", "a user changes an object handed out mutably only so that its envelope and the selection stay the same"])
RM = ["the destructor of DrainIterator runs where the extractor's R-drop rule places it (end of the temporary's or local's life); a leaked iterator is one whose destructor does not run"]
prop("C07", BASE + "|remove.*|drain_with_selection_function", ["removal", "selection_functions"], [r"^node.rs"], "remove* are discharged over the drain iterator's contracts: one step, then the destructor.", extra_i=NODE_I, extra_f=NODE_F, assumptions=SELF + RM + [NUM], skip=[INTO])
prop("C08", BASE + "|drain.*", ["removal", "selection_functions"], [r"^node.rs"], "next's contract conserves yielded + remaining objects; on exhaustion nothing selected is left and the tree is well formed.", extra_i=NODE_I, extra_f=NODE_F, assumptions=SELF + RM + [NUM], skip=[INTO])
prop("C09", BASE + "|drain.*", ["removal", "selection_functions"], [r"^node.rs"], "Drop's code is discharged as a function over the iterator's state; at every moment the tree behind the iterator is well formed and, until exhaustion, empty.", extra_i=NODE_I, extra_f=NODE_F, assumptions=SELF + RM + [NUM], skip=[INTO, OBJ_ALL, BOX_HIT, BOX_ALL, r"^algorithm.*selection_functions.*\bSelect\w+::"])
prop("C21", "root|size", ["removal"], [], "IntoIter's next is discharged: the stack holds exactly the objects not yet yielded.", hit=False,
     extra_i=[r"^rtree.rs::impl IntoIterator for RTree::"], extra_f=[r"^rtree::rtree_into_iter$"], skip=[DRAIN])
HEAP = ["alloc::collections::BinaryHeap and heapless::BinaryHeap keep their documented contract: push/extend/into_vec keep the contents, pop removes a greatest one, the fixed one holds 32 (prelude/30_heap.rs)"]
NNX = dict(extra_i=NODE_I, extra_f=NODE_F)
MM_I, MM_F = [r"^aabb.rs::impl Envelope for AABB::min_max_dist_2$"], [r"^aabb::AABB::(min_max_dist_2|law.*)$"]
prop("C10", BASE + "|nearest_neighbor|nearest_neighbor_with_distance_2|nearest_neighbor_iter_with_distance_2", ["nearest_neighbor"], [r"^node.rs"],
     "The branch-and-bound search is discharged with its pruning invariant: whatever was given up on is farther than the bound, and an object within the bound is still queued.", extra_i=NODE_I + MM_I, extra_f=NODE_F + MM_F, assumptions=[NUM] + HEAP, skip=[ALL, NNIT, OBJ_AT, BOX_HIT])
prop("C11", BASE + "|nearest_neighbor_iter.*", ["nearest_neighbor"], [r"^node.rs"], "next() is discharged: it yields a nearest object of those left, for all trees; c11_run lifts this to whole runs.", assumptions=[NUM] + HEAP, skip=[ONE, ALL, OBJ_AT, BOX_HIT], **NNX)
prop("C12", BASE + "|nearest_neighbors.*", ["nearest_neighbor"], [r"^node.rs"], "The result is shown to be exactly the stored objects at the least distance, each as often as stored.", assumptions=[NUM] + HEAP, skip=[ONE, NNIT, OBJ_AT, BOX_HIT], **NNX)
prop("C13", BASE + "|nearest_neighbor|nearest_neighbor_with_distance_2|pop_nearest_neighbor|remove_with_selection_function|drain_with_selection_function", ["nearest_neighbor", "removal", "selection_functions"], [r"^node.rs"],
     "pop_nearest_neighbor is discharged over the contracts of the search and of removal.", extra_i=NODE_I + MM_I, extra_f=NODE_F + MM_F,
     assumptions=SELF + RM + [NUM] + HEAP + ["comparing addresses of references into one tree is comparing elements that carry an identity (prelude/00_base.rs: ptr_eq)"], skip=[INTO, ALL, NNIT, OBJ_AT, BOX_MEET, r"^algorithm.*selection_functions.*\bSelect(In|All|At|Equals|Within)\w+::"])
prop("C14", BASE + "|intersection_candidates_with_other_tree", ["intersection_iterator"], [r"^node.rs"], "Every step of the pair iterator is discharged: the pairs left at the start are exactly the intersecting ones, each step hands out one of them; c14_run lifts this to whole runs.", assumptions=[NUM], skip=[OBJ_ALL, BOX_ALL], **NNX)
BL_N = "root|root_mut|size|size_mut|new|new_with_params|bulk_load|bulk_load_with_params|new_from_bulk_loading"
BL = ["bulk_load/bulk_load_sequential", "bulk_load/cluster_group_iterator"]
BLM = [m.replace("/", "::") for m in BL]
BLA = ["calculate_number_of_clusters_on_axis (f32 arithmetic) may return any number: nothing is assumed about it except that it returns",
       "the partial selection behind Envelope::partition_envelopes permutes its slice (aabb.vc)"]
BL_I = [r"^algorithm/%s.rs::" % m for m in BL]; BL_F = [r"^algorithm::%s::" % m for m in BLM]; BL_FILES = [r"^algorithm/%s.rs" % m for m in BL]
i4, f4 = rt(BL_N)
PART_F = r"^aabb::aabb_partition_envelopes$"
PART = r"^aabb.rs::impl Envelope for AABB::partition_envelopes$"
p("C04", "proof", BL_F + f4 + ENV_F + NODE_F + [r"^params::", PART_F], BL_I + i4 + ENV_I + NODE_I + [r"^params.rs::", PART], BL_FILES + i4 + [r"^node.rs", r"^envelope.rs", r"^params.rs", PART],
  "Bulk loading is discharged for every list, dimension and parameter set: contents, size, a uniform leaf depth, leaf fill, termination, no panic.", VT, SEARCH, assumptions=BLA)
i2, f2 = rt(BL_N + "|insert|default|remove.*|drain.*")
p("C02", "proof", INS_F + BL_F + f2 + ENV_F + NODE_F + [r"^algorithm::removal::"], INS_I + BL_I + i2 + ENV_I + NODE_I + [r"^algorithm/removal.rs::"], INS_FILES + BL_FILES + i2 + [r"^algorithm/removal.rs"],
  "The shape invariant t_wf is part of the contract of every constructor and of every function that changes a tree.", VT, SEARCH, assumptions=BLA + SELF + RM, skip=[INTO])
p("C20", "proof", [r"^params::", r"^rtree::RTree::(new|new_with_params|default|bulk_load|bulk_load_with_params|new_from_bulk_loading)$"], [r"^params.rs::", r"^rtree.rs::impl (RTree|Default for RTree)::(new|new_with_params|default|bulk_load|bulk_load_with_params|new_from_bulk_loading)$"], [r"^params.rs", r"^rtree.rs::impl (RTree|Default for RTree)::(new|new_with_params|default|bulk_load|bulk_load_with_params|new_from_bulk_loading)$"],
  "verify_parameters is discharged twice: it returns only for valid parameters, and its assertions hold for every valid set.", VT, SEARCH)
p("C17", "proof", [r"^builtin::"], [r"^expanded/", r"^point.rs::trait Point::"], [r"^expanded/", r"^point.rs::trait Point"],
  "Every provided Point implementation (macro-expanded by rustc on each run) is discharged against the contract of Point, and once more with a generator that records its calls.", VT, SEARCH,
  assumptions=["scalars: Copy returns an equal value", "array: `[(); N].map(|_| body)` evaluates body once per element, in order; `[S; 0]` is excluded", "mint::Point2 / Point3 are plain structs with fields x, y (z)",
               "Verus is run with --no-trait-conflicts: its own coherence check does not know that tuples are Clone (rustc's does)"], expand="builtin", verus_flags=["--no-trait-conflicts", "--verify-module", "builtin::point", "--verify-module", "builtin::mint_points"])
P["C01"]["claims"] = ["contents", "other"]
P["C02"]["claims"] = ["shape", "contents", "other"]
P["C03"]["claims"] = ["fill", "other"]
cfg = {"properties": P, "unknown_ok": [], "assumptions": GEN}
json.dump(cfg, open(V + "/vx/props.json", "w"), indent=1)
man = {"version": 1, "setup_cmd": "bash bin/setup.sh",
       "checks": [{"property": i, "quick_cmd": "VERIF_TIER=quick python3 bin/check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 bin/check.py " + i,
                   "technique": c["technique"], "level": c["level"], "level_note": c["note"]} for i, c in sorted(P.items())],
       "not_applicable": [{"property": "C22", "reason": "serde's derive expansion and the data formats lie outside the source a Rust deductive verifier can be given: there is no function body in /repo to put under contract."}],
       "notes": "See DESIGN.md. known-findings.txt lists repaired defects."}
json.dump(man, open(V + "/MANIFEST.json", "w"), indent=1)
