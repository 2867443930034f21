#!/usr/bin/env python3
"""refactors.py: behaviour-preserving edits as patches in /tmp/ref (dev tool); sweep with: sweep.py -d /tmp/ref"""
import subprocess, json, os, sys
OUT = '/tmp/ref'
S = 'rstar/src/'
R = {}
def r(name, props, *edits): R[name] = (props.split(), edits)
r('helper_new_root', 'C01 C02 C03', (S + 'algorithm/rstar.rs', '''                    let new_root = ParentNode::new_root::<Params>();
                    let old_root = ::core::mem::replace(tree.root_mut(), new_root);
                    let new_envelope = old_root.envelope.merged(&node.envelope());
                    let root = tree.root_mut();
                    root.envelope = new_envelope;
                    root.children.push(RTreeNode::Parent(old_root));
                    root.children.push(node);
                    target_height += 1;''', '''                    grow_root(tree, node);
                    target_height += 1;'''), (S + 'algorithm/rstar.rs', '''fn forced_insertion<T, Params>(''', '''/// Puts the old root and the node split off it below a new root
fn grow_root<T, Params>(tree: &mut RTree<T, Params>, node: RTreeNode<T>)
where
    T: RTreeObject,
    Params: RTreeParams,
{
    let new_root = ParentNode::new_root::<Params>();
    let old_root = ::core::mem::replace(tree.root_mut(), new_root);
    let new_envelope = old_root.envelope.merged(&node.envelope());
    let root = tree.root_mut();
    root.envelope = new_envelope;
    root.children.push(RTreeNode::Parent(old_root));
    root.children.push(node);
}

fn forced_insertion<T, Params>('''))
r('split_reorder', 'C01 C03', (S + 'algorithm/rstar.rs', '''    let zero = Distance::<T>::zero();
    debug_assert!(node.children.len() >= 2);
    // Sort along axis
    T::Envelope::sort_envelopes(axis, &mut node.children);
    let mut best = (zero, zero);
    let min_size = Params::MIN_SIZE;
''', '''    debug_assert!(node.children.len() >= 2);
    let min_size = Params::MIN_SIZE;
    // Sort along axis
    T::Envelope::sort_envelopes(axis, &mut node.children);
    let zero = Distance::<T>::zero();
    let mut best = (zero, zero);
'''))
r('split_while', 'C02 C03', (S + 'algorithm/rstar.rs', '''    for k in min_size..=node.children.len() - min_size {
        let mut first_envelope = node.children[k - 1].envelope();''', '''    let mut k = min_size;
    while k <= node.children.len() - min_size {
        let mut first_envelope = node.children[k - 1].envelope();'''), (S + 'algorithm/rstar.rs', '''            best = new_best;
            best_index = k;
        }
    }''', '''            best = new_best;
            best_index = k;
        }
        k += 1;
    }'''))
r('choose_helper', 'C01 C02', (S + 'algorithm/rstar.rs', '''        let envelope = child.envelope();
        if envelope.contains_envelope(&insertion_envelope) {
            inclusion_count += 1;
            let area = envelope.area();
            if area < min_area {
                min_area = area;
                min_index = index;
            }
        }''', '''        let envelope = child.envelope();
        if !envelope.contains_envelope(&insertion_envelope) {
            continue;
        }
        inclusion_count += 1;
        let area = envelope.area();
        if area < min_area {
            min_area = area;
            min_index = index;
        }'''))
r('sel_next_match', 'C05 C07', (S + 'algorithm/iterators.rs', '''        while let Some(next) = self.current_nodes.pop() {
            match next {
                RTreeNode::Leaf(ref t) => {
                    if self.func.should_unpack_leaf(t) {
                        return Some(t);
                    }
                }
                RTreeNode::Parent(ref data) => {
                    if self.func.should_unpack_parent(&data.envelope) {
                        self.current_nodes.extend(&data.children);
                    }
                }
            }
        }
        None
    }
}

/// Internal iteration variant of [`SelectionIterator`]''', '''        loop {
            let next = self.current_nodes.pop()?;
            match next {
                RTreeNode::Parent(ref data) => {
                    if self.func.should_unpack_parent(&data.envelope) {
                        self.current_nodes.extend(&data.children);
                    }
                }
                RTreeNode::Leaf(ref t) => {
                    if self.func.should_unpack_leaf(t) {
                        return Some(t);
                    }
                }
            }
        }
    }
}

/// Internal iteration variant of [`SelectionIterator`]'''))
r('sel_new_if', 'C05 C06 C07', (S + 'algorithm/iterators.rs', '''        let current_nodes =
            if !root.children.is_empty() && func.should_unpack_parent(&root.envelope()) {
                root.children.iter().collect()
            } else {
                SmallVec::new()
            };
''', '''        let mut current_nodes = SmallVec::new();
        if !root.children.is_empty() && func.should_unpack_parent(&root.envelope()) {
            current_nodes.extend(root.children.iter());
        }
'''))
r('visit_mut_early', 'C06 C05', (S + 'algorithm/iterators.rs', '''    if !root.children.is_empty() && func.should_unpack_parent(&root.envelope()) {
        inner(root, &mut Args { func, visitor })?;
    }

    ControlFlow::Continue(())
}

#[cfg(test)]''', '''    if root.children.is_empty() || !func.should_unpack_parent(&root.envelope()) {
        return ControlFlow::Continue(());
    }

    inner(root, &mut Args { func, visitor })
}

#[cfg(test)]'''))
r('drain_helper', 'C08 C09 C02', (S + 'algorithm/removal.rs', '''        loop {
            debug_assert!(!self.node_stack.is_empty());
            if let Some((new_root, total_removed)) = self.pop_node(false) {
                *self.rtree.root_mut() = new_root;
                *self.rtree.size_mut() = self.original_size - total_removed;
                break;
            }
        }''', '''        let (new_root, total_removed) = loop {
            debug_assert!(!self.node_stack.is_empty());
            if let Some(done) = self.pop_node(false) {
                break done;
            }
        };
        self.restore(new_root, total_removed);'''), (S + 'algorithm/removal.rs', '''    fn pop_node(&mut self, increment_idx: bool)''', '''    /// Puts the tree back together
    fn restore(&mut self, new_root: ParentNode<T>, total_removed: usize) {
        *self.rtree.size_mut() = self.original_size - total_removed;
        *self.rtree.root_mut() = new_root;
    }

    fn pop_node(&mut self, increment_idx: bool)'''))
r('drain_order', 'C08 C02 C21', (S + 'algorithm/removal.rs', '''                *self.rtree.root_mut() = new_root;
                *self.rtree.size_mut() = self.original_size - total_removed;
                return None;''', '''                *self.rtree.size_mut() = self.original_size - total_removed;
                *self.rtree.root_mut() = new_root;
                return None;'''))
r('pop_node_if', 'C02 C08', (S + 'algorithm/removal.rs', '''        // If the node has no children, we don't need to add it back to the parent
        if node.children.is_empty() {
            return None;
        }

        // Put the child back (but re-arranged)
        parent_node.children.push(RTreeNode::Parent(node));

        // Swap it with the current item and increment idx.

        // A minor optimization is to avoid the swap in the destructor,
        // where we aren't going to be iterating any more.
        if !increment_idx {
            return None;
        }

        // Note that during iteration, parent_idx may be equal to
        // (previous) children.len(), but this is okay as the swap will be
        // a no-op.
        let parent_len = parent_node.children.len();
        parent_node.children.swap(*parent_idx, parent_len - 1);
        *parent_idx += 1;

        None''', '''        // If the node has no children, we don't need to add it back to the parent
        if !node.children.is_empty() {
            // Put the child back (but re-arranged)
            let last = parent_node.children.len();
            parent_node.children.push(RTreeNode::Parent(node));

            // Swap it with the current item and increment idx.
            if increment_idx {
                parent_node.children.swap(*parent_idx, last);
                *parent_idx += 1;
            }
        }

        None'''))
r('nn_iflet', 'C10 C12', (S + 'algorithm/nearest_neighbor.rs', '''                    if distance <= *min_max_distance {
                        Some(distance)
                    } else {
                        None
                    }''', '''                    (distance <= *min_max_distance).then_some(distance)'''))
r('nn_order', 'C10 C11 C12', (S + 'algorithm/nearest_neighbor.rs', '''                *min_max_distance = min_inline(
                    *min_max_distance,
                    child.envelope().min_max_dist_2(query_point),
                );
                nodes.push(RTreeNodeDistanceWrapper {
                    node: child,
                    distance,
                });''', '''                let upper_bound = child.envelope().min_max_dist_2(query_point);
                nodes.push(RTreeNodeDistanceWrapper {
                    node: child,
                    distance,
                });
                *min_max_distance = min_inline(*min_max_distance, upper_bound);'''))
r('nn_loop', 'C12 C10', (S + 'algorithm/nearest_neighbor.rs', '''    result.extend(
        nearest_neighbors
            .take_while(|(_, next_distance_2)| next_distance_2 == &first_distance_2)
            .map(|(next, _)| next),
    );
''', '''    for (next, next_distance_2) in nearest_neighbors {
        if next_distance_2 != first_distance_2 {
            break;
        }
        result.push(next);
    }
'''))
r('inter_for', 'C14', (S + 'algorithm/intersection_iterator.rs', '''                (leaf @ Leaf(_), Parent(p)) => {
                    p.children()
                        .iter()
                        .for_each(|c| self.push_if_intersecting(leaf, c));
                }''', '''                (leaf @ Leaf(_), Parent(p)) => {
                    for c in p.children() {
                        self.push_if_intersecting(leaf, c);
                    }
                }'''))
r('aabb_let', 'C15 C16', (S + 'aabb.rs', '''        self.lower.all_component_wise(&other.upper, |l, r| l <= r)
            && self.upper.all_component_wise(&other.lower, |l, r| l >= r)''', '''        let starts_before_end = self.lower.all_component_wise(&other.upper, |l, r| l <= r);
        let ends_after_start = self.upper.all_component_wise(&other.lower, |l, r| l >= r);
        starts_before_end && ends_after_start'''), (S + 'aabb.rs', '''        self.lower = self.lower.min_point(&other.lower);
        self.upper = self.upper.max_point(&other.upper);
    }

    fn merged(&self, other: &Self) -> Self {
        AABB {
            lower: self.lower.min_point(&other.lower),
            upper: self.upper.max_point(&other.upper),
        }
    }''', '''        *self = self.merged(other);
    }

    fn merged(&self, other: &Self) -> Self {
        let lower = self.lower.min_point(&other.lower);
        let upper = self.upper.max_point(&other.upper);
        AABB { lower, upper }
    }'''))
r('mm_shadow', 'C16 C10', (S + 'aabb.rs', '''            let mut min = l.nth(i);
            let mut max = u.nth(i);
            max = max * max;
            min = min * min;
            if max < min {
                core::mem::swap(&mut min, &mut max);
            }
''', '''            let a = l.nth(i) * l.nth(i);
            let b = u.nth(i) * u.nth(i);
            let (min, max) = if b < a { (b, a) } else { (a, b) };
'''))
r('bulk_else', 'C04 C03', (S + 'algorithm/bulk_load/cluster_group_iterator.rs', '''        match self.remaining.len() {
            0 => None,
            len if len <= self.slab_size => {
                let mut last = ::core::mem::take(&mut self.remaining);
                // self.remaining retains its full original capacity across iterations
                // (drain doesn't shrink), so the final slab needs shrinking.
                last.shrink_to_fit();
                last.into()
            }
            len => {''', '''        let len = self.remaining.len();
        match len {
            0 => None,
            _ if len <= self.slab_size => {
                let mut last = ::core::mem::take(&mut self.remaining);
                // self.remaining retains its full original capacity across iterations
                // (drain doesn't shrink), so the final slab needs shrinking.
                last.shrink_to_fit();
                last.into()
            }
            _ => {'''))
r('rtree_remove', 'C08 C13 C19', (S + 'rtree.rs', '''        if let Some(neighbor) = self.nearest_neighbor(query_point) {
            let removal_function = SelectByAddressFunction::new(neighbor.envelope(), neighbor);
            self.remove_with_selection_function(removal_function)
        } else {
            None
        }''', '''        let neighbor = self.nearest_neighbor(query_point)?;
        let removal_function = SelectByAddressFunction::new(neighbor.envelope(), neighbor);
        self.remove_with_selection_function(removal_function)'''))
r('rtree_insert', 'C01 C21', (S + 'rtree.rs', '''        Params::DefaultInsertionStrategy::insert(self, t);
        self.size += 1;''', '''        self.size += 1;
        Params::DefaultInsertionStrategy::insert(self, t);'''))
r('selfn_env', 'C05 C07 C09', (S + 'algorithm/selection_functions.rs', '''        self.envelope.contains_envelope(&leaf.envelope())''', '''        let leaf_envelope = leaf.envelope();
        self.envelope.contains_envelope(&leaf_envelope)'''))
A = S + 'algorithm/'
r('b_forced_match', 'C01 C02', (A + 'rstar.rs', '''    if let RTreeNode::Parent(ref mut follow) = node.children[expand_index] {
        match forced_insertion::<_, Params>(follow, t, target_height - 1) {
            InsertionResult::Split(child) => {
                node.envelope.merge(&child.envelope());
                node.children.push(child);
                resolve_overflow_without_reinsertion::<_, Params>(node)
            }
            other => other,
        }
    } else {
        unreachable!("This is a bug in rstar.")
    }''', '''    let follow = match node.children[expand_index] {
        RTreeNode::Parent(ref mut follow) => follow,
        RTreeNode::Leaf(_) => unreachable!("This is a bug in rstar."),
    };
    let result = forced_insertion::<_, Params>(follow, t, target_height - 1);
    if let InsertionResult::Split(child) = result {
        node.envelope.merge(&child.envelope());
        node.children.push(child);
        return resolve_overflow_without_reinsertion::<_, Params>(node);
    }
    result'''))
r('b_recursive_match', 'C01 C03', (A + 'rstar.rs', '''    let expand = if let RTreeNode::Parent(ref mut follow) = node.children[expand_index] {
        recursive_insert::<_, Params>(follow, t, current_height + 1)
    } else {
        panic!("This is a bug in rstar.")
    };

    match expand {''', '''    let expand = match &mut node.children[expand_index] {
        RTreeNode::Parent(follow) => recursive_insert::<_, Params>(follow, t, current_height + 1),
        RTreeNode::Leaf(_) => panic!("This is a bug in rstar."),
    };

    match expand {'''))
r('b_overflow_early', 'C01 C03', (A + 'rstar.rs', '''    if Params::REINSERTION_COUNT == 0 {
        resolve_overflow_without_reinsertion::<_, Params>(node)
    } else if node.children.len() > Params::MAX_SIZE {
        let nodes_for_reinsertion = get_nodes_for_reinsertion::<_, Params>(node);
        InsertionResult::Reinsert(nodes_for_reinsertion, current_depth)
    } else {
        InsertionResult::Complete
    }''', '''    if node.children.len() <= Params::MAX_SIZE {
        return InsertionResult::Complete;
    }
    if Params::REINSERTION_COUNT == 0 {
        return resolve_overflow_without_reinsertion::<_, Params>(node);
    }
    InsertionResult::Reinsert(get_nodes_for_reinsertion::<_, Params>(node), current_depth)'''))
r('b_reins_keep', 'C01 C02', (A + 'rstar.rs', '''    let num_children = node.children.len();
    let result = node
        .children
        .split_off(num_children - Params::REINSERTION_COUNT);
    node.envelope = envelope_for_children(&node.children);
    result''', '''    let keep = node.children.len() - Params::REINSERTION_COUNT;
    let to_reinsert = node.children.split_off(keep);
    node.envelope = envelope_for_children(&node.children);
    to_reinsert'''))
r('b_insert_push', 'C01 C02', (A + 'rstar.rs', '''                insertion_stack.extend(nodes_to_reinsert.into_iter().map(PerformReinsert));
                target_height = real_target_height;''', '''                for node in nodes_to_reinsert {
                    insertion_stack.push(PerformReinsert(node));
                }
                target_height = real_target_height;'''))
r('b_split_env', 'C01 C03', (A + 'rstar.rs', '''        let mut first_envelope = node.children[k - 1].envelope();
        let mut second_envelope = node.children[k].envelope();
        let (l, r) = node.children.split_at(k);
        for child in l {
            first_envelope.merge(&child.envelope());
        }
        for child in r {
            second_envelope.merge(&child.envelope());
        }
''', '''        let (l, r) = node.children.split_at(k);
        let first_envelope = envelope_for_children(l);
        let second_envelope = envelope_for_children(r);
'''))
r('b_axis_inline', 'C01 C03', (A + 'rstar.rs', '''    let mut best_goodness = Distance::<T>::max_value();
    let mut best_axis = 0;
    let min_size = Params::MIN_SIZE;
    let until = node.children.len() - min_size + 1;''', '''    let min_size = Params::MIN_SIZE;
    let until = node.children.len() + 1 - min_size;
    let mut best_axis = 0;
    let mut best_goodness = Distance::<T>::max_value();'''))
r('b_choose_split', 'C01 C02', (A + 'rstar.rs', '''            let area = envelope.area();
            if area < min_area {
                min_area = area;
                min_index = index;
            }
        }
    }
    if inclusion_count == 0 {''', '''            let area = envelope.area();
            if min_area > area {
                min_index = index;
                min_area = area;
            }
        }
    }
    if inclusion_count > 0 {
        return min_index;
    }
    {'''))
r('b_pop_letelse', 'C08 C09', (A + 'removal.rs', '''        let (parent_node, parent_idx, parent_removed) = match self.node_stack.last_mut() {
            Some(pn) => (&mut pn.0, &mut pn.1, &mut pn.2),
            None => return Some((node, num_removed)),
        };
''', '''        let Some((parent_node, parent_idx, parent_removed)) = self.node_stack.last_mut() else {
            return Some((node, num_removed));
        };
'''))
r('b_intoiter_loop', 'C21 C08', (A + 'removal.rs', '''        while let Some(node) = self.node_stack.pop() {
            match node {
                RTreeNode::Leaf(object) => return Some(object),
                RTreeNode::Parent(parent) => self.node_stack.extend(parent.children),
            }
        }

        None''', '''        loop {
            match self.node_stack.pop()? {
                RTreeNode::Leaf(object) => return Some(object),
                RTreeNode::Parent(parent) => self.node_stack.extend(parent.children),
            }
        }'''))
r('b_intoiter_for', 'C21', (A + 'removal.rs', '''                RTreeNode::Parent(parent) => self.node_stack.extend(parent.children),''', '''                RTreeNode::Parent(parent) => {
                    for child in parent.children {
                        self.node_stack.push(child);
                    }
                }'''))
r('b_drop_while', 'C09 C02', (A + 'removal.rs', '''        if self.node_stack.is_empty() {
            // The iteration handled everything, nothing to do.
            return;
        }

        loop {
            debug_assert!(!self.node_stack.is_empty());
            if let''', '''        while !self.node_stack.is_empty() {
            if let'''))
r('b_drain_new', 'C08 C02 C13', (A + 'removal.rs', '''        let original_size = replace(rtree.size_mut(), 0);
''', ''), (A + 'removal.rs', '''        let root = replace(
            rtree.root_mut(),
            ParentNode {
                children: vec![],
                envelope: Envelope::new_empty(),
            },
        );''', '''        let original_size = replace(rtree.size_mut(), 0);
        let empty_root = ParentNode {
            children: Vec::new(),
            envelope: Envelope::new_empty(),
        };
        let root = replace(rtree.root_mut(), empty_root);'''))
r('b_drain_next', 'C08 C07', (A + 'removal.rs', '''                            if self.removal_function.should_unpack_leaf(leaf) {''', '''                            let selected = self.removal_function.should_unpack_leaf(leaf);
                            if selected {'''))
r('b_heap_push', 'C10 C11', (A + 'nearest_neighbor.rs', '''                if let Err(item) = heap.push(item) {
                    let capacity = heap.len() + 1;
                    let new_heap = self.spill(capacity);
                    new_heap.push(item);
                }''', '''                if heap.len() < heap.capacity() {
                    if heap.push(item).is_err() {
                        unreachable!();
                    }
                } else {
                    let capacity = heap.len() + 1;
                    self.spill(capacity).push(item);
                }'''))
r('b_nn_current', 'C11 C12', (A + 'nearest_neighbor.rs', '''            match current {
                RTreeNodeDistanceWrapper {
                    node: RTreeNode::Parent(ref data),
                    ..
                } => {
                    self.extend_heap(&data.children);
                }
                RTreeNodeDistanceWrapper {
                    node: RTreeNode::Leaf(ref t),
                    distance,
                } => {
                    return Some((t, distance));
                }
            }''', '''            match current.node {
                RTreeNode::Parent(data) => self.extend_heap(&data.children),
                RTreeNode::Leaf(t) => return Some((t, current.distance)),
            }'''))
r('b_nn_first', 'C12', (A + 'nearest_neighbor.rs', '''    result.extend(
        nearest_neighbors
            .take_while(|(_, next_distance_2)| next_distance_2 == &first_distance_2)
            .map(|(next, _)| next),
    );
''', '''    let ties = nearest_neighbors.take_while(|(_, distance_2)| *distance_2 == first_distance_2);
    result.extend(ties.map(|(next, _)| next));
'''))
r('b_nn_ext', 'C11 C10', (A + 'nearest_neighbor.rs', '''        let &mut NearestNeighborDistance2Iterator {
            ref mut nodes,
            ref query_point,
        } = self;
        nodes.extend(children.iter().map(|child: &RTreeNode<T>| {''', '''        let query_point = &self.query_point;
        self.nodes.extend(children.iter().map(|child| {'''))
r('b_inter_let', 'C14', (A + 'intersection_iterator.rs', '''        if !parent1.envelope().intersects(&parent2.envelope()) {
            return;
        }
        let children1 = parent1
            .children()
            .iter()
            .filter(|c1| c1.envelope().intersects(&parent2.envelope()));
''', '''        let envelope1 = parent1.envelope();
        let envelope2 = parent2.envelope();
        if !envelope1.intersects(&envelope2) {
            return;
        }
        let children1 = parent1
            .children()
            .iter()
            .filter(|c1| c1.envelope().intersects(&envelope2));
'''), (A + 'intersection_iterator.rs', '''                .filter(|c2| c2.envelope().intersects(&parent1.envelope())),''', '''                .filter(|c2| c2.envelope().intersects(&envelope1)),'''))
r('b_inter_if', 'C14', (A + 'intersection_iterator.rs', '''        for child1 in children1 {
            for child2 in &children2 {''', '''        for child2 in &children2 {
            for child1 in children1.clone() {'''))
r('b_part_invert', 'C04 C02', (A + 'bulk_load/bulk_load_sequential.rs', '''            let PartitioningState {
                elements,
                current_axis,
            } = next;
            if current_axis == 0 {
                // Partitioning finished successfully on all axis. The remaining cluster forms a new node
                let data = bulk_load_recursive::<_, Params>(elements, self.clusters_per_level);
                return RTreeNode::Parent(data).into();
            } else {
                // The cluster group needs to be partitioned further along the next axis
                let iterator = ClusterGroupIterator::new(
                    elements,
                    self.number_of_clusters_on_axis,
                    current_axis - 1,
                );
                self.work_queue
                    .extend(iterator.map(|slab| PartitioningState {
                        elements: slab,
                        current_axis: current_axis - 1,
                    }));
            }''', '''            let PartitioningState {
                elements,
                current_axis,
            } = next;
            if current_axis == 0 {
                let data = bulk_load_recursive::<_, Params>(elements, self.clusters_per_level);
                return Some(RTreeNode::Parent(data));
            }
            let next_axis = current_axis - 1;
            let slabs =
                ClusterGroupIterator::new(elements, self.number_of_clusters_on_axis, next_axis);
            self.work_queue.extend(slabs.map(|elements| PartitioningState {
                elements,
                current_axis: next_axis,
            }));'''))
r('b_bulk_match', 'C04', (A + 'bulk_load/bulk_load_sequential.rs', '''    let iterator = PartitioningTask::<_, Params> {
        number_of_clusters_on_axis,
        clusters_per_level,
        work_queue: vec![PartitioningState {
            current_axis: <T::Envelope as Envelope>::Point::DIMENSIONS,
            elements,
        }],
        _params: Default::default(),
    };
    ParentNode::new_parent(iterator.collect())''', '''    let initial_state = PartitioningState {
        current_axis: <T::Envelope as Envelope>::Point::DIMENSIONS,
        elements,
    };
    let iterator = PartitioningTask::<_, Params> {
        number_of_clusters_on_axis,
        clusters_per_level,
        work_queue: vec![initial_state],
        _params: Default::default(),
    };
    let children: Vec<_> = iterator.collect();
    ParentNode::new_parent(children)'''))
r('b_cgi', 'C04', (A + 'bulk_load/cluster_group_iterator.rs', '''                self.remaining
                    .drain(partition_point..)
                    .collect::<Vec<_>>()
                    .into()''', '''                let slab = self.remaining.split_off(partition_point);
                Some(slab)'''))
r('b_sel_and', 'C05 C07', (A + 'iterators.rs', '''                RTreeNode::Leaf(ref t) => {
                    if self.func.should_unpack_leaf(t) {
                        return Some(t);
                    }
                }
                RTreeNode::Parent(ref data) => {
                    if self.func.should_unpack_parent(&data.envelope) {
                        self.current_nodes.extend(&data.children);
                    }
                }''', '''                RTreeNode::Leaf(t) if self.func.should_unpack_leaf(t) => return Some(t),
                RTreeNode::Parent(data) if self.func.should_unpack_parent(&data.envelope) => {
                    self.current_nodes.extend(&data.children)
                }
                _ => {}'''))
r('b_env_children', 'C02 C04', (S + 'node.rs', '''    let mut result = T::Envelope::new_empty();
    for child in children {
        result.merge(&child.envelope());
    }
    result''', '''    children
        .iter()
        .fold(T::Envelope::new_empty(), |envelope, child| {
            envelope.merged(&child.envelope())
        })'''))
# loops in another form
r('c_env_fold', 'C02 C04', (S + 'node.rs', '''    let mut result = T::Envelope::new_empty();
    for child in children {
        result.merge(&child.envelope());
    }
    result''', '''    children
        .iter()
        .fold(T::Envelope::new_empty(), |mut result, child| {
            result.merge(&child.envelope());
            result
        })'''))
r('c_env_index', 'C02 C04', (S + 'node.rs', '''    for child in children {
        result.merge(&child.envelope());''', '''    for index in 0..children.len() {
        let child = &children[index];
        result.merge(&child.envelope());'''))
r('c_choose_index', 'C01 C03', (S + 'algorithm/rstar.rs', 'for (index, child) in node.children.iter().enumerate() {', 'for index in 0..node.children.len() {\n        let child = &node.children[index];'))
r('c_k_while', 'C01 C03', (S + 'algorithm/rstar.rs', '        for k in min_size..until {', '        let mut k = min_size;\n        while k < until {'), (S + 'algorithm/rstar.rs', '''                best_goodness = perimeter_value;
            }
''', '''                best_goodness = perimeter_value;
            }
            k += 1;
'''))
r('c_l_fold', 'C01 C03', (S + 'algorithm/rstar.rs', '''            let mut first_modified = first_envelope.clone();
            let mut second_modified = second_envelope.clone();
            let (l, r) = node.children.split_at(k);
            for child in l {
                first_modified.merge(&child.envelope());
            }
''', '''            let mut second_modified = second_envelope.clone();
            let (l, r) = node.children.split_at(k);
            let first_modified = l.iter().fold(first_envelope.clone(), |mut acc, child| {
                acc.merge(&child.envelope());
                acc
            });
'''))
r('c_axis_while', 'C01 C03', (S + 'algorithm/rstar.rs', 'for axis in 0..<T::Envelope as Envelope>::Point::DIMENSIONS {', 'let mut axis = 0;\n    while axis < <T::Envelope as Envelope>::Point::DIMENSIONS {'), (S + 'algorithm/rstar.rs', '''                best_goodness = perimeter_value;
            }
        }
''', '''                best_goodness = perimeter_value;
            }
        }
        axis += 1;
'''))
# geometry
r('d_from_points_loop', 'C15', (S + 'aabb.rs', '''        i.into_iter().fold(
            Self {
                lower: P::from_value(P::Scalar::max_value()),
                upper: P::from_value(P::Scalar::min_value()),
            },
            |aabb, p| Self {
                lower: aabb.lower.min_point(p),
                upper: aabb.upper.max_point(p),
            },
        )''', '''        let mut lower = P::from_value(P::Scalar::max_value());
        let mut upper = P::from_value(P::Scalar::min_value());
        for p in i {
            lower = lower.min_point(p);
            upper = upper.max_point(p);
        }
        Self { lower, upper }'''))
r('d_from_points_empty', 'C15', (S + 'aabb.rs', '''            Self {
                lower: P::from_value(P::Scalar::max_value()),
                upper: P::from_value(P::Scalar::min_value()),
            },
            |aabb, p|''', '''            Self::new_empty(),
            |aabb, p|'''))
r('d_point_loops', 'C15 C16', (S + 'point.rs', '        (0..Self::DIMENSIONS).all(|i| f(self.nth(i), other.nth(i)))', '''        for i in 0..Self::DIMENSIONS {
            if !f(self.nth(i), other.nth(i)) {
                return false;
            }
        }
        true'''), (S + 'point.rs', '        (0..Self::DIMENSIONS).fold(start_value, |accumulated, i| f(accumulated, self.nth(i)))', '''        let mut accumulated = start_value;
        for i in 0..Self::DIMENSIONS {
            accumulated = f(accumulated, self.nth(i));
        }
        accumulated'''))
r('d_point_defs', 'C15 C16', (S + 'point.rs', '        self.sub(other).length_2()', '''        let difference = self.sub(other);
        difference.length_2()'''), (S + 'point.rs', '''        self.fold(Zero::zero(), |acc, cur| cur * cur + acc)''', '''        self.dot(self)'''))
r('d_min_inline', 'C15 C16', (S + 'point.rs', '''    if a < b {
        a
    } else {
        b
    }''', '''    match a < b {
        true => a,
        false => b,
    }'''))
r('d_max_flip', 'C15 C16', (S + 'point.rs', '''    if a > b {
        a''', '''    if b < a {
        a'''))
r('d_merge_merged', 'C15', (S + 'aabb.rs', '''        self.lower = self.lower.min_point(&other.lower);
        self.upper = self.upper.max_point(&other.upper);''', '''        *self = self.merged(other);'''))
r('d_dist_early', 'C16', (S + 'aabb.rs', '''        if self.contains_point(point) {
            Zero::zero()
        } else {
            self.min_point(point).sub(point).length_2()
        }''', '''        if self.contains_point(point) {
            return Zero::zero();
        }
        let nearest = self.min_point(point);
        nearest.sub(point).length_2()'''))
r('d_min_point_order', 'C15 C16', (S + 'aabb.rs', '        self.upper.min_point(&self.lower.max_point(point))', '''        let above_lower = self.lower.max_point(point);
        self.upper.min_point(&above_lower)'''))
r('d_mmd_if', 'C16', (S + 'aabb.rs', '''            let mut min = l.nth(i);
            let mut max = u.nth(i);
            max = max * max;
            min = min * min;
            if max < min {
                core::mem::swap(&mut min, &mut max);
            }
''', '''            let lower = l.nth(i) * l.nth(i);
            let upper = u.nth(i) * u.nth(i);
            let (min, max) = if upper < lower {
                (upper, lower)
            } else {
                (lower, upper)
            };
'''))
r('d_mmd_vars', 'C16', (S + 'aabb.rs', 'let mut max_diff = (Zero::zero(), Zero::zero(), 0); // diff, min, index', '''let mut max_difference = Zero::zero();
        let mut smallest = Zero::zero();
        let mut max_axis = 0;'''), (S + 'aabb.rs', '''            if diff >= max_diff.0 {
                max_diff = (diff, min, i);
            }''', '''            if diff >= max_difference {
                max_difference = diff;
                smallest = min;
                max_axis = i;
            }'''), (S + 'aabb.rs', '*result.nth_mut(max_diff.2) = max_diff.1;', '*result.nth_mut(max_axis) = smallest;'))
r('d_contains_pair', 'C15', (S + 'aabb.rs', '''        self.lower.all_component_wise(point, |x, y| x <= y)
            && self.upper.all_component_wise(point, |x, y| x >= y)''', '''        let above = self.lower.all_component_wise(point, |x, y| x <= y);
        let below = self.upper.all_component_wise(point, |x, y| x >= y);
        above && below'''))
r('d_contains_neg', 'C15', (S + 'aabb.rs', '''        self.lower.all_component_wise(&other.lower, |l, r| l <= r)
            && self.upper.all_component_wise(&other.upper, |l, r| l >= r)''', '''        if !self.lower.all_component_wise(&other.lower, |l, r| l <= r) {
            return false;
        }
        self.upper.all_component_wise(&other.upper, |l, r| l >= r)'''))
r('d_intersection_let', 'C15', (S + 'aabb.rs', '''        AABB {
            lower: self.lower.max_point(&other.lower),
            upper: self.upper.min_point(&other.upper),
        }
        .area()''', '''        let lower = self.lower.max_point(&other.lower);
        let upper = self.upper.min_point(&other.upper);
        let common = AABB { lower, upper };
        common.area()'''))
r('d_line_split', 'C18', (S + 'primitives/line.rs', '''        if P::Scalar::zero() < s && s < One::one() {
            p1.add(&dir.mul(s))
        } else if s <= P::Scalar::zero() {
            p1
        } else {
            p2
        }''', '''        let zero = P::Scalar::zero();
        let one: P::Scalar = One::one();
        if zero < s && s < one {
            return p1.add(&dir.mul(s));
        }
        if s <= zero {
            return p1;
        }
        p2'''))
r('d_line_ref', 'C18', (S + 'primitives/line.rs', '''        let (ref p1, ref p2) = (self.from.clone(), self.to.clone());
        let dir = p2.sub(p1);
        query_point.sub(p1).dot(&dir) / dir.length_2()''', '''        let dir = self.to.sub(&self.from);
        let offset = query_point.sub(&self.from);
        offset.dot(&dir) / dir.length_2()'''))
r('d_rect_if', 'C18', (S + 'primitives/rectangle.rs', '''        if distance_2 <= max_distance_2 {
            Some(distance_2)
        } else {
            None
        }''', '''        Some(distance_2).filter(|_| distance_2 <= max_distance_2)'''))
r('d_rect_then', 'C18', (S + 'primitives/rectangle.rs', '''        if distance_2 <= max_distance_2 {
            Some(distance_2)
        } else {
            None
        }''', '''        (distance_2 <= max_distance_2).then_some(distance_2)'''))
r('d_params_order', 'C14', (S + 'params.rs', '''    assert!(P::MAX_SIZE >= 4, "MAX_SIZE too small. Must be at least 4.");

    assert!(P::MIN_SIZE > 0, "MIN_SIZE must be at least 1",);
''', '''    assert!(P::MIN_SIZE > 0, "MIN_SIZE must be at least 1",);

    assert!(P::MAX_SIZE >= 4, "MAX_SIZE too small. Must be at least 4.");
'''))
r('d_params_panic', 'C14', (S + 'params.rs', '''    assert!(P::MIN_SIZE > 0, "MIN_SIZE must be at least 1",);''', '''    if P::MIN_SIZE < 1 {
        panic!("MIN_SIZE must be at least 1");
    }'''))
# helpers extracted, queries said another way
N = A + 'nearest_neighbor.rs'
r('e_nn_wrapper_new', 'C10 C11', (N, '''impl<T> PartialEq for RTreeNodeDistanceWrapper<'_, T>''', '''impl<'a, T> RTreeNodeDistanceWrapper<'a, T>
where
    T: PointDistance,
{
    fn new(node: &'a RTreeNode<T>, distance: Distance<T>) -> Self {
        RTreeNodeDistanceWrapper { node, distance }
    }
}

impl<T> PartialEq for RTreeNodeDistanceWrapper<'_, T>'''), (N, '''            RTreeNodeDistanceWrapper {
                node: child,
                distance,
            }
        }));''', '''            RTreeNodeDistanceWrapper::new(child, distance)
        }));'''), (N, '''                nodes.push(RTreeNodeDistanceWrapper {
                    node: child,
                    distance,
                });''', '''                nodes.push(RTreeNodeDistanceWrapper::new(child, distance));'''))
r('e_nn_child_distance', 'C11 C10', (N, '''            let distance = match child {
                RTreeNode::Parent(ref data) => data.envelope.distance_2(query_point),
                RTreeNode::Leaf(ref t) => t.distance_2(query_point),
            };

            RTreeNode''', '''            let distance = distance_to_child(child, query_point);

            RTreeNode'''), (N, '''impl<'a, T> Iterator for NearestNeighborDistance2Iterator<'a, T>''', '''/// The squared distance from a point to an object, or to the envelope of an inner node
fn distance_to_child<T>(
    child: &RTreeNode<T>,
    query_point: &<T::Envelope as Envelope>::Point,
) -> Distance<T>
where
    T: PointDistance,
{
    match child {
        RTreeNode::Parent(ref data) => data.envelope.distance_2(query_point),
        RTreeNode::Leaf(ref t) => t.distance_2(query_point),
    }
}

impl<'a, T> Iterator for NearestNeighborDistance2Iterator<'a, T>'''))
r('e_nn_within', 'C10 C12', (N, '''            let distance_if_less_or_equal = match child {
                RTreeNode::Parent(ref data) => {
                    let distance = data.envelope.distance_2(query_point);
                    if distance <= *min_max_distance {
                        Some(distance)
                    } else {
                        None
                    }
                }
                RTreeNode::Leaf(ref t) => {
                    t.distance_2_if_less_or_equal(query_point, *min_max_distance)
                }
            };
''', '''            let distance_if_less_or_equal =
                distance_within(child, query_point, *min_max_distance);
'''), (N, '''pub fn nearest_neighbors_with_distance_2<T>(''', '''fn distance_within<T>(
    child: &RTreeNode<T>,
    query_point: &<T::Envelope as Envelope>::Point,
    max_distance_2: Distance<T>,
) -> Option<Distance<T>>
where
    T: PointDistance,
{
    match child {
        RTreeNode::Parent(ref data) => {
            let distance = data.envelope.distance_2(query_point);
            if distance <= max_distance_2 {
                Some(distance)
            } else {
                None
            }
        }
        RTreeNode::Leaf(ref t) => t.distance_2_if_less_or_equal(query_point, max_distance_2),
    }
}

pub fn nearest_neighbors_with_distance_2<T>('''))
r('e_heap_spill', 'C10 C11', (N, '''        let new_heap = match self {
            SmallHeap::Heap(new_heap) => new_heap,
            SmallHeap::Stack(_) => unreachable!(),
        };
        let old_heap = match old_heap {
            SmallHeap::Stack(old_heap) => old_heap,
            SmallHeap::Heap(_) => unreachable!(),
        };
''', '''        let old_heap = match old_heap {
            SmallHeap::Stack(old_heap) => old_heap,
            SmallHeap::Heap(_) => unreachable!(),
        };
        let SmallHeap::Heap(new_heap) = self else {
            unreachable!()
        };
'''))
r('e_heap_extend', 'C10 C11', (N, '''                if heap.capacity() >= heap.len() + iter.len() {
                    for item in iter {
                        if heap.push(item).is_err() {
                            unreachable!();
                        }
                    }
                } else {
                    let capacity = heap.len() + iter.len();
                    let new_heap = self.spill(capacity);
                    new_heap.extend(iter);
                }''', '''                let needed = heap.len() + iter.len();
                if needed > heap.capacity() {
                    self.spill(needed).extend(iter);
                } else {
                    for item in iter {
                        if heap.push(item).is_err() {
                            unreachable!();
                        }
                    }
                }'''))
r('e_nns_loop', 'C12', (N, '''    result.extend(
        nearest_neighbors
            .take_while(|(_, next_distance_2)| next_distance_2 == &first_distance_2)
            .map(|(next, _)| next),
    );
''', '''    for (next, next_distance_2) in nearest_neighbors {
        if next_distance_2 != first_distance_2 {
            break;
        }
        result.push(next);
    }
'''))
r('e_cmp_reverse', 'C11 C10', (N, '''        other.distance.partial_cmp(&self.distance).unwrap()''', '''        self.distance.partial_cmp(&other.distance).unwrap().reverse()'''))
C = A + 'bulk_load/cluster_group_iterator.rs'
r('e_cgi_early', 'C04', (C, '''        match self.remaining.len() {
            0 => None,
            len if len <= self.slab_size => {
                let mut last = ::core::mem::take(&mut self.remaining);
                // self.remaining retains its full original capacity across iterations
                // (drain doesn't shrink), so the final slab needs shrinking.
                last.shrink_to_fit();
                last.into()
            }
            len => {
                let slab_axis = self.cluster_dimension;
                let partition_point = len - self.slab_size;
                // Partition so that the slab elements end up at the tail.
                T::Envelope::partition_envelopes(slab_axis, &mut self.remaining, partition_point);
                // Drain from the end into a new Vec with exact capacity.
                // self.remaining keeps its allocation for reuse on the next iteration.
                self.remaining
                    .drain(partition_point..)
                    .collect::<Vec<_>>()
                    .into()
            }
        }''', '''        let len = self.remaining.len();
        if len == 0 {
            return None;
        }
        if len <= self.slab_size {
            let mut last = ::core::mem::take(&mut self.remaining);
            last.shrink_to_fit();
            return Some(last);
        }
        let partition_point = len - self.slab_size;
        T::Envelope::partition_envelopes(
            self.cluster_dimension,
            &mut self.remaining,
            partition_point,
        );
        Some(self.remaining.drain(partition_point..).collect::<Vec<_>>())'''))
r('e_cgi_split_off', 'C04', (C, '''                self.remaining
                    .drain(partition_point..)
                    .collect::<Vec<_>>()
                    .into()''', '''                let slab: Vec<_> = self.remaining.drain(partition_point..).collect();
                Some(slab)'''))
r('e_cgi_helper', 'C04', (C, '''                let slab_axis = self.cluster_dimension;
                let partition_point = len - self.slab_size;
                // Partition so that the slab elements end up at the tail.
                T::Envelope::partition_envelopes(slab_axis, &mut self.remaining, partition_point);
                // Drain from the end into a new Vec with exact capacity.
                // self.remaining keeps its allocation for reuse on the next iteration.
                self.remaining
                    .drain(partition_point..)
                    .collect::<Vec<_>>()
                    .into()
            }''', '''                let partition_point = len - self.slab_size;
                self.take_slab(partition_point).into()
            }'''), (C, '''impl<T: RTreeObject> Iterator for ClusterGroupIterator<T> {''', '''impl<T: RTreeObject> ClusterGroupIterator<T> {
    fn take_slab(&mut self, partition_point: usize) -> Vec<T> {
        let slab_axis = self.cluster_dimension;
        T::Envelope::partition_envelopes(slab_axis, &mut self.remaining, partition_point);
        self.remaining.drain(partition_point..).collect::<Vec<_>>()
    }
}

impl<T: RTreeObject> Iterator for ClusterGroupIterator<T> {'''))
B = A + 'bulk_load/bulk_load_sequential.rs'
r('e_part_helper', 'C04', (B, '''                let iterator = ClusterGroupIterator::new(
                    elements,
                    self.number_of_clusters_on_axis,
                    current_axis - 1,
                );
                self.work_queue
                    .extend(iterator.map(|slab| PartitioningState {
                        elements: slab,
                        current_axis: current_axis - 1,
                    }));''', '''                self.partition_along(elements, current_axis - 1);'''), (B, '''impl<T: RTreeObject, Params: RTreeParams> Iterator for PartitioningTask<'_, T, Params> {''', '''impl<T: RTreeObject, Params: RTreeParams> PartitioningTask<'_, T, Params> {
    fn partition_along(&mut self, elements: Vec<T>, axis: usize) {
        let iterator = ClusterGroupIterator::new(elements, self.number_of_clusters_on_axis, axis);
        self.work_queue
            .extend(iterator.map(|slab| PartitioningState {
                elements: slab,
                current_axis: axis,
            }));
    }
}

impl<T: RTreeObject, Params: RTreeParams> Iterator for PartitioningTask<'_, T, Params> {'''))
r('e_part_axis', 'C04', (B, '''                let iterator = ClusterGroupIterator::new(
                    elements,
                    self.number_of_clusters_on_axis,
                    current_axis - 1,
                );
                self.work_queue
                    .extend(iterator.map(|slab| PartitioningState {
                        elements: slab,
                        current_axis: current_axis - 1,
                    }));''', '''                let next_axis = current_axis - 1;
                let slabs =
                    ClusterGroupIterator::new(elements, self.number_of_clusters_on_axis, next_axis);
                for slab in slabs {
                    self.work_queue.push(PartitioningState {
                        elements: slab,
                        current_axis: next_axis,
                    });
                }'''))
r('e_part_some', 'C04', (B, '''                return RTreeNode::Parent(data).into();''', '''                return Some(RTreeNode::Parent(data));'''))
O = S + 'object.rs'
r('e_pd_guards', 'C18 C10', (O, '''        let envelope_distance = self.envelope().distance_2(point);
        if envelope_distance <= max_distance_2 {
            let distance_2 = self.distance_2(point);
            if distance_2 <= max_distance_2 {
                return Some(distance_2);
            }
        }
        None''', '''        let envelope_distance = self.envelope().distance_2(point);
        if !(envelope_distance <= max_distance_2) {
            return None;
        }
        let distance_2 = self.distance_2(point);
        if distance_2 <= max_distance_2 {
            Some(distance_2)
        } else {
            None
        }'''))
r('e_pd_point', 'C18 C10', (O, '''        let distance_2 = <Self as PointExt>::distance_2(self, point);
        if distance_2 <= max_distance_2 {
            Some(distance_2)
        } else {
            None
        }''', '''        let distance_2 = <Self as PointExt>::distance_2(self, point);
        if distance_2 <= max_distance_2 {
            return Some(distance_2);
        }
        None'''))
I = A + 'intersection_iterator.rs'
r('e_inter_foreach', 'C14', (I, '''                    p.children()
                        .iter()
                        .for_each(|c| self.push_if_intersecting(leaf, c));''', '''                    for c in p.children() {
                        self.push_if_intersecting(leaf, c);
                    }'''), (I, '''                    p.children()
                        .iter()
                        .for_each(|c| self.push_if_intersecting(c, leaf));''', '''                    for c in p.children() {
                        self.push_if_intersecting(c, leaf);
                    }'''))
r('e_inter_helper', 'C14', (I, '''        if node1.envelope().intersects(&node2.envelope()) {
            self.todo_list''', '''        if envelopes_intersect(node1, node2) {
            self.todo_list'''), (I, '''impl<'a, T, U> Iterator for IntersectionIterator<'a, T, U>''', '''fn envelopes_intersect<T, U>(node1: &RTreeNode<T>, node2: &RTreeNode<U>) -> bool
where
    T: RTreeObject,
    U: RTreeObject<Envelope = T::Envelope>,
{
    node1.envelope().intersects(&node2.envelope())
}

impl<'a, T, U> Iterator for IntersectionIterator<'a, T, U>'''))
r('e_inter_nested', 'C14', (I, '''        if !parent1.envelope().intersects(&parent2.envelope()) {
            return;
        }
        let children1 = parent1
            .children()
            .iter()
            .filter(|c1| c1.envelope().intersects(&parent2.envelope()));

        let mut children2 = take(&mut self.candidates);
        children2.extend(
            parent2
                .children()
                .iter()
                .filter(|c2| c2.envelope().intersects(&parent1.envelope())),
        );

        for child1 in children1 {
            for child2 in &children2 {''', '''        let envelope1 = parent1.envelope();
        let envelope2 = parent2.envelope();
        if !envelope1.intersects(&envelope2) {
            return;
        }
        let children1 = parent1
            .children()
            .iter()
            .filter(|c1| c1.envelope().intersects(&envelope2));

        let mut children2 = take(&mut self.candidates);
        children2.extend(
            parent2
                .children()
                .iter()
                .filter(|c2| c2.envelope().intersects(&envelope1)),
        );

        for child1 in children1 {
            for child2 in children2.iter() {'''))
T = A + 'iterators.rs'
r('e_sel_root', 'C05 C07', (T, '''        let current_nodes =
            if !root.children.is_empty() && func.should_unpack_parent(&root.envelope()) {
                root.children.iter().collect()
            } else {
                SmallVec::new()
            };

        SelectionIterator {''', '''        let unpack_root = !root.children.is_empty() && func.should_unpack_parent(&root.envelope());
        let current_nodes = if unpack_root {
            root.children.iter().collect()
        } else {
            SmallVec::new()
        };

        SelectionIterator {'''))
r('e_sel_helper', 'C05 C07', (T, '''        let current_nodes =
            if !root.children.is_empty() && func.should_unpack_parent(&root.envelope()) {
                root.children.iter().collect()
            } else {
                SmallVec::new()
            };

        SelectionIterator {''', '''        let current_nodes = if unpacks_root(root, &func) {
            root.children.iter().collect()
        } else {
            SmallVec::new()
        };

        SelectionIterator {'''), (T, '''/// Iterator type returned by `RTree::locate_*_mut` methods.''', '''fn unpacks_root<T, Func>(root: &ParentNode<T>, func: &Func) -> bool
where
    T: RTreeObject,
    Func: SelectionFunction<T>,
{
    !root.children.is_empty() && func.should_unpack_parent(&root.envelope())
}

/// Iterator type returned by `RTree::locate_*_mut` methods.'''))
r('e_sel_guard', 'C05 C07', (T, '''                RTreeNode::Leaf(ref t) => {
                    if self.func.should_unpack_leaf(t) {
                        return Some(t);
                    }
                }
                RTreeNode::Parent(ref data) => {
                    if self.func.should_unpack_parent(&data.envelope) {
                        self.current_nodes.extend(&data.children);
                    }
                }''', '''                RTreeNode::Leaf(ref t) if self.func.should_unpack_leaf(t) => return Some(t),
                RTreeNode::Parent(ref data) if self.func.should_unpack_parent(&data.envelope) => {
                    self.current_nodes.extend(&data.children);
                }
                _ => {}'''))
r('e_vis_flip', 'C05 C06', (T, '''                RTreeNode::Leaf(ref t) => {
                    if args.func.should_unpack_leaf(t) {
                        (args.visitor)(t)?;
                    }
                }
                RTreeNode::Parent(ref data) => {
                    if args.func.should_unpack_parent(&data.envelope()) {
                        inner(data, args)?;
                    }
                }''', '''                RTreeNode::Parent(ref data) => {
                    if args.func.should_unpack_parent(&data.envelope) {
                        inner(data, args)?;
                    }
                }
                RTreeNode::Leaf(ref t) => {
                    if !args.func.should_unpack_leaf(t) {
                        continue;
                    }
                    (args.visitor)(t)?;
                }'''))
Q = S + 'rtree.rs'
r('e_nn_guard', 'C10', (Q, '''        if self.size > 0 {
            // The single-nearest-neighbor retrieval may in rare cases return None due to
            // rounding issues. The iterator will still work, though.
            nearest_neighbor::nearest_neighbor_with_distance_2(&self.root, query_point.clone())
                .or_else(|| {
                    self.nearest_neighbor_iter_with_distance_2(query_point)
                        .next()
                })
        } else {
            None
        }''', '''        if self.size == 0 {
            return None;
        }
        nearest_neighbor::nearest_neighbor_with_distance_2(&self.root, query_point.clone()).or_else(
            || {
                self.nearest_neighbor_iter_with_distance_2(query_point)
                    .next()
            },
        )'''))
r('e_nn_match', 'C10', (Q, '''            nearest_neighbor::nearest_neighbor_with_distance_2(&self.root, query_point.clone())
                .or_else(|| {
                    self.nearest_neighbor_iter_with_distance_2(query_point)
                        .next()
                })''', '''            let found =
                nearest_neighbor::nearest_neighbor_with_distance_2(&self.root, query_point.clone());
            match found {
                Some(neighbor) => Some(neighbor),
                None => self
                    .nearest_neighbor_iter_with_distance_2(query_point)
                    .next(),
            }'''))
r('e_bulk_empty', 'C04 C20', (Q, '''        let root = if size == 0 {
            ParentNode::new_root::<Params>()
        } else {
            root_loader(elements)
        };''', '''        let root = if elements.is_empty() {
            ParentNode::new_root::<Params>()
        } else {
            root_loader(elements)
        };'''))
r('e_bulk_match', 'C04 C20', (Q, '''        let root = if size == 0 {
            ParentNode::new_root::<Params>()
        } else {
            root_loader(elements)
        };''', '''        let root = match size {
            0 => ParentNode::new_root::<Params>(),
            _ => root_loader(elements),
        };'''))
r('e_pop_match', 'C13', (Q, '''        if let Some(neighbor) = self.nearest_neighbor(query_point) {
            let removal_function = SelectByAddressFunction::new(neighbor.envelope(), neighbor);
            self.remove_with_selection_function(removal_function)
        } else {
            None
        }''', '''        let neighbor = self.nearest_neighbor(query_point)?;
        let removal_function = SelectByAddressFunction::new(neighbor.envelope(), neighbor);
        self.remove_with_selection_function(removal_function)'''))
r('e_remove_next', 'C08 C13', (Q, '''        removal::DrainIterator::new(self, function).take(1).last()''', '''        self.drain_with_selection_function(function).take(1).last()'''))
r('e_contains_find', 'C05', (Q, '''        self.locate_in_envelope(t.envelope()).any(|e| e == t)''', '''        let envelope = t.envelope();
        self.locate_in_envelope(envelope).any(|e| e == t)'''))
r('e_point_int', 'C05 C07', (Q, '''        match self.locate_all_at_point_int(point, ControlFlow::Break) {
            ControlFlow::Break(node) => Some(node),
            ControlFlow::Continue(()) => None,
        }''', '''        if let ControlFlow::Break(node) = self.locate_all_at_point_int(point, ControlFlow::Break) {
            Some(node)
        } else {
            None
        }'''))
D = A + 'removal.rs'
r('e_drain_let', 'C08 C21', (D, '''        let original_size = replace(rtree.size_mut(), 0);

        let m''', '''        let size = rtree.size_mut();
        let original_size = *size;
        *size = 0;

        let m'''))
r('e_pop_removed', 'C09 C02', (D, '''        // If the node has no children, we don't need to add it back to the parent
        if node.children.is_empty() {
            return None;
        }
''', '''        let is_gone = node.children.is_empty();
        if is_gone {
            return None;
        }
'''))
r('e_sel_dist', 'C05 C09', (A + 'selection_functions.rs', '''        let envelope_distance = parent_envelope.distance_2(&self.circle_origin);
        envelope_distance <= self.squared_max_distance''', '''        parent_envelope.distance_2(&self.circle_origin) <= self.squared_max_distance'''))
r('e_sel_some', 'C05 C09', (A + 'selection_functions.rs', '''        leaf.distance_2_if_less_or_equal(&self.circle_origin, self.squared_max_distance)
            .is_some()''', '''        matches!(
            leaf.distance_2_if_less_or_equal(&self.circle_origin, self.squared_max_distance),
            Some(_)
        )'''))
# insertion
F = A + 'rstar.rs'
r('f_merge_halves', 'C01 C03', (F, '''        let mut first_envelope = node.children[k - 1].envelope();
        let mut second_envelope = node.children[k].envelope();
        let (l, r) = node.children.split_at(k);
        for child in l {
            first_envelope.merge(&child.envelope());
        }
        for child in r {
            second_envelope.merge(&child.envelope());
        }
''', '''        let (l, r) = node.children.split_at(k);
        let first_envelope = envelope_for_children(l);
        let second_envelope = envelope_for_children(r);
'''))
r('f_merge_helper', 'C01 C03', (F, '''            let mut first_modified = first_envelope.clone();
            let mut second_modified = second_envelope.clone();
            let (l, r) = node.children.split_at(k);
            for child in l {
                first_modified.merge(&child.envelope());
            }
            for child in r {
                second_modified.merge(&child.envelope());
            }
''', '''            let (l, r) = node.children.split_at(k);
            let first_modified = merge_all(&first_envelope, l);
            let second_modified = merge_all(&second_envelope, r);
'''), (F, '''fn get_nodes_for_reinsertion<T, Params>(''', '''fn merge_all<T: RTreeObject>(start: &T::Envelope, children: &[RTreeNode<T>]) -> T::Envelope {
    let mut result = start.clone();
    for child in children {
        result.merge(&child.envelope());
    }
    result
}

fn get_nodes_for_reinsertion<T, Params>('''))
r('f_cmp_helper', 'C01 C02', (F, '''        let l_center = l.envelope().center();
        let r_center = r.envelope().center();
        l_center
            .sub(&center)
            .length_2()
            .partial_cmp(&(r_center.sub(&center)).length_2())
            .unwrap()''', '''        let l_distance = l.envelope().center().sub(&center).length_2();
        let r_distance = r.envelope().center().sub(&center).length_2();
        l_distance.partial_cmp(&r_distance).unwrap()'''))
r('f_cmp_distance', 'C01 C02', (F, '''        let l_center = l.envelope().center();
        let r_center = r.envelope().center();
        l_center
            .sub(&center)
            .length_2()
            .partial_cmp(&(r_center.sub(&center)).length_2())
            .unwrap()''', '''        let l_distance = l.envelope().center().distance_2(&center);
        let r_distance = r.envelope().center().distance_2(&center);
        l_distance.partial_cmp(&r_distance).unwrap()'''))
r('f_overlap_helper', 'C01 C02', (F, '''                let mut overlap = zero;
                let mut new_overlap = zero;
                for (index2, child2) in node.children.iter().enumerate() {
                    if index2 != index1 {
                        let child_envelope = child2.envelope();
                        let temp1 = envelope.intersection_area(&child_envelope);
                        overlap = overlap + temp1;
                        let temp2 = new_envelope.intersection_area(&child_envelope);
                        new_overlap = new_overlap + temp2;
                    }
                }
                new_overlap - overlap''', '''                overlap_increase_of(node, index1, &envelope, &new_envelope)'''), (F, '''fn resolve_overflow_without_reinsertion<T, Params>(node''', '''fn overlap_increase_of<T: RTreeObject>(
    node: &ParentNode<T>,
    index: usize,
    envelope: &T::Envelope,
    new_envelope: &T::Envelope,
) -> Distance<T> {
    let mut overlap: Distance<T> = Zero::zero();
    let mut new_overlap: Distance<T> = Zero::zero();
    for (other, child) in node.children.iter().enumerate() {
        if other != index {
            let child_envelope = child.envelope();
            overlap = overlap + envelope.intersection_area(&child_envelope);
            new_overlap = new_overlap + new_envelope.intersection_area(&child_envelope);
        }
    }
    new_overlap - overlap
}

fn resolve_overflow_without_reinsertion<T, Params>(node'''))
r('f_resolve_match', 'C01 C03', (F, '''    if Params::REINSERTION_COUNT == 0 {
        resolve_overflow_without_reinsertion::<_, Params>(node)
    } else if node.children.len() > Params::MAX_SIZE {
        let nodes_for_reinsertion = get_nodes_for_reinsertion::<_, Params>(node);
        InsertionResult::Reinsert(nodes_for_reinsertion, current_depth)
    } else {
        InsertionResult::Complete
    }''', '''    if node.children.len() <= Params::MAX_SIZE {
        return InsertionResult::Complete;
    }
    if Params::REINSERTION_COUNT == 0 {
        return resolve_overflow_without_reinsertion::<_, Params>(node);
    }
    let nodes_for_reinsertion = get_nodes_for_reinsertion::<_, Params>(node);
    InsertionResult::Reinsert(nodes_for_reinsertion, current_depth)'''))
r('f_add_child', 'C01 C02 C03', (F, '''        InsertionResult::Split(child) => {
            node.envelope.merge(&child.envelope());
            node.children.push(child);
            resolve_overflow::<_, Params>(node, current_height)
        }''', '''        InsertionResult::Split(child) => {
            add_child(node, child);
            resolve_overflow::<_, Params>(node, current_height)
        }'''), (F, '''            InsertionResult::Split(child) => {
                node.envelope.merge(&child.envelope());
                node.children.push(child);
''', '''            InsertionResult::Split(child) => {
                add_child(node, child);
'''), (F, '''fn recursive_insert<T, Params>(''', '''fn add_child<T: RTreeObject>(node: &mut ParentNode<T>, child: RTreeNode<T>) {
    node.envelope.merge(&child.envelope());
    node.children.push(child);
}

fn recursive_insert<T, Params>('''))
r('f_recursive_else', 'C01 C02 C03', (F, '''    let expand = if let RTreeNode::Parent(ref mut follow) = node.children[expand_index] {
        recursive_insert::<_, Params>(follow, t, current_height + 1)
    } else {
        panic!("This is a bug in rstar.")
    };
''', '''    let RTreeNode::Parent(ref mut follow) = node.children[expand_index] else {
        panic!("This is a bug in rstar.")
    };
    let expand = recursive_insert::<_, Params>(follow, t, current_height + 1);
'''))
r('f_all_leaves', 'C01 C02', (F, '''        Some(RTreeNode::Parent(ref data)) => data.children.first().is_none_or(RTreeNode::is_leaf),
        None | Some(RTreeNode::Leaf(_)) => return usize::MAX,''', '''        None | Some(RTreeNode::Leaf(_)) => return usize::MAX,
        Some(RTreeNode::Parent(ref data)) => match data.children.first() {
            Some(child) => child.is_leaf(),
            None => true,
        },'''))
r('f_included', 'C01 C02', (F, '''    let mut inclusion_count = 0;''', '''    let mut is_included = false;'''), (F, '''            inclusion_count += 1;''', '''            is_included = true;'''), (F, '''    if inclusion_count == 0 {''', '''    if !is_included {'''))
r('f_min_first', 'C01 C02', (F, '''            if new_min < min || index1 == 0 {''', '''            if index1 == 0 || new_min < min {'''))
r('f_root_struct', 'C01 C02 C03', (F, '''                    let new_envelope = old_root.envelope.merged(&node.envelope());
                    let root = tree.root_mut();
                    root.envelope = new_envelope;
                    root.children.push(RTreeNode::Parent(old_root));
                    root.children.push(node);
''', '''                    let root = tree.root_mut();
                    root.envelope = old_root.envelope.merged(&node.envelope());
                    root.children.push(RTreeNode::Parent(old_root));
                    root.children.push(node);
'''))
r('f_iflet_stack', 'C01 C02 C03', (F, '''        while let Some(next) = insertion_stack.pop() {
            match next {''', '''        while let Some(action) = insertion_stack.pop() {
            match action {'''))
r('f_split_len', 'C01 C03', (F, '''    for k in min_size..=node.children.len() - min_size {''', '''    let last = node.children.len() - min_size;
    for k in min_size..=last {'''))
r('f_split_drain', 'C01 C03', (F, '''    let off_split = node.children.split_off(best_index);
    node.envelope = envelope_for_children(&node.children);
    RTreeNode::Parent(ParentNode::new_parent(off_split))''', '''    let split_children = node.children.split_off(best_index);
    let new_parent = ParentNode::new_parent(split_children);
    node.envelope = envelope_for_children(&node.children);
    RTreeNode::Parent(new_parent)'''))
if __name__ == '__main__':
    subprocess.run(f'mkdir -p {OUT}; rm -rf /tmp/refw; cp -a /repo /tmp/refw; rm -rf /tmp/refw/target', shell=True)
    for n, (props, edits) in R.items():
        if sys.argv[1:] and n not in sys.argv[1:]: continue
        subprocess.run('git checkout -q -- .', shell=True, cwd='/tmp/refw')
        ok = True
        for f, a, b in edits:
            p = '/tmp/refw/' + f
            s = open(p).read()
            if s.count(a) < 1 or a == b: print(n, 'text not found', s.count(a)); ok = False; break
            open(p, 'w').write(s.replace(a, b, 1))
        if not ok: continue
        x = subprocess.run('cargo test -p rstar --offline --all-features --lib 2>&1 | tail -30', shell=True, cwd='/tmp/refw', capture_output=True, text=True, env=dict(os.environ, CARGO_TARGET_DIR='/tmp/refw/target', RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu'))
        if 'test result: ok' not in x.stdout: print(n, 'FAILS', x.stdout[-1500:]); continue
        os.makedirs(f'{OUT}/{n}', exist_ok=True)
        open(f'{OUT}/{n}/patch.diff', 'w').write(subprocess.run('git diff', shell=True, cwd='/tmp/refw', capture_output=True, text=True).stdout)
        json.dump({'property': props[0], 'props': props}, open(f'{OUT}/{n}/meta.json', 'w'))
        print(n, 'ok', flush=True)
    subprocess.run('rm -rf /tmp/refw', shell=True)
