mod quadtree {
    mod radius_search {
        #[spec(feature("3d"), keep_abs)]
        fn relative_bounding_box_overlap(dist: VecLength, total_size: VecLength) -> bool {
            !(dist.x().abs() > total_size.x() || dist.y().abs() > total_size.y() || dist.z().abs() > total_size.z())
        }
        #[spec(feature("2d"), keep_abs)]
        fn relative_bounding_box_overlap(dist: VecLength, total_size: VecLength) -> bool {
            !(dist.x().abs() > total_size.x() || dist.y().abs() > total_size.y())
        }
        #[spec(opaque(periodic_distance_vec, relative_bounding_box_overlap))]
        fn bounding_boxes_overlap_periodic(box_: &SimulationBox, pos1: &VecLength, size1: &VecLength, pos2: &VecLength, size2: &VecLength) -> bool {
            relative_bounding_box_overlap(box_.periodic_distance_vec(pos1, pos2), *size1 + *size2)
        }
        #[spec(opaque(periodic_distance))]
        fn within_radius_periodic(box_: &SimulationBox, pos1: &VecLength, pos2: &VecLength, radius: Length) -> bool {
            box_.periodic_distance(pos1, pos2) < radius
        }
        impl<N, L: LeafDataType> QuadTree<N, L> {
            #[spec(opaque(should_visit_node))]
            fn iter_particles_in_radius<'a>(&'a self, box_size: &'a SimulationBox, pos: VecLength, radius: Length) -> TreeIter<'a, N, L, PeriodicRadiusSearch<'a>> {
                TreeIter::new(self, PeriodicRadiusSearch { box_size, pos, radius })
            }
        }
        impl<N, L> QuadTree<N, L> {
            #[spec(opaque(should_visit_node))]
            fn iter(&self) -> TreeIter<N, L, EntireTree> {
                TreeIter::new(self, EntireTree)
            }
        }
        impl<'a, N, L, C: SearchCriterion<N, L>> TreeIter<'a, N, L, C> {
            #[spec(opaque(should_visit_node))]
            fn new(tree: &'a QuadTree<N, L>, criterion: C) -> Self {
                let visit = criterion.should_visit_node(tree);
                TreeIter {
                    stack: vec![StackItem { tree, pos_in_parent: 0, should_be_visited: visit }],
                    current_leaf_pos: 0,
                    criterion,
                }
            }
            // depth first: an unvisited inner node leads to its first child,
            // everything else to the next sibling or back to the parent
            #[spec(opaque(should_visit_node))]
            fn goto_next_node(&mut self) -> Option<()> {
                let n = self.stack.len();
                if n == 0 {
                    return None;
                }
                let top = self.stack[n - 1].clone();
                if top.should_be_visited {
                    if let Node::Tree(children) = &top.tree.node {
                        self.stack[n - 1].should_be_visited = false;
                        let child = &children[0];
                        let visit = self.criterion.should_visit_node(child);
                        self.stack.push(StackItem { tree: child, pos_in_parent: 0, should_be_visited: visit });
                        return Some(());
                    }
                }
                self.stack.pop();
                if n < 2 {
                    return None;
                }
                let next = top.pos_in_parent + 1;
                if next < TWO_TO_NUM_DIMENSIONS {
                    let sibling = &self.stack[n - 2].tree.node.unwrap_tree()[next];
                    let visit = self.criterion.should_visit_node(sibling);
                    self.stack.push(StackItem { tree: sibling, pos_in_parent: next, should_be_visited: visit });
                }
                Some(())
            }
            #[spec]
            fn get_current_node_if_it_should_be_visited(&self) -> Option<&'a Node<N, L>> {
                if self.stack.is_empty() {
                    return None;
                }
                let top = &self.stack[self.stack.len() - 1];
                if top.should_be_visited {
                    Some(&top.tree.node)
                } else {
                    None
                }
            }
        }
        impl<'a, N, L, C: SearchCriterion<N, L>> Iterator for TreeIter<'a, N, L, C> {
            #[spec(opaque(should_include_leaf, get_current_node_if_it_should_be_visited, goto_next_node))]
            fn next(&mut self) -> Option<&'a L> {
                loop {
                    match self.get_current_node_if_it_should_be_visited() {
                        Some(Node::Leaf(leaf)) => {
                            if self.current_leaf_pos < leaf.len() {
                                let item = &leaf[self.current_leaf_pos];
                                self.current_leaf_pos += 1;
                                if self.criterion.should_include_leaf(item) {
                                    return Some(item);
                                }
                                continue;
                            }
                            self.current_leaf_pos = 0;
                        }
                        _ => {}
                    }
                    if self.goto_next_node().is_none() {
                        return None;
                    }
                }
            }
        }
        impl<N, L> SearchCriterion<N, L> for EntireTree {
            #[spec]
            fn should_visit_node(&self, _tree: &QuadTree<N, L>) -> bool {
                true
            }
            #[spec]
            fn should_include_leaf(&self, _l: &L) -> bool {
                true
            }
        }
        impl<'a, N, L: LeafDataType> SearchCriterion<N, L> for PeriodicRadiusSearch<'a> {
            #[spec(opaque(bounding_boxes_overlap_periodic, center, side_lengths))]
            fn should_visit_node(&self, tree: &QuadTree<N, L>) -> bool {
                bounding_boxes_overlap_periodic(
                    self.box_size,
                    &tree.extent.center(),
                    &tree.extent.side_lengths(),
                    &self.pos,
                    &VecLength::from_vector_and_scale(MVec::ONE, self.radius),
                )
            }
            #[spec(opaque(periodic_distance, pos))]
            fn should_include_leaf(&self, particle: &L) -> bool {
                self.box_size.periodic_distance(&self.pos, particle.pos()) < self.radius
            }
        }
    }
    impl<N, L> Node<N, L> {
        #[spec]
        fn make_node(&mut self, children: Tree<N, L>) -> Leaf<L> {
            match std::mem::replace(self, Node::Tree(children)) {
                Node::Leaf(leaf) => leaf,
                _ => panic!(""),
            }
        }
        #[spec]
        fn unwrap_tree(&self) -> &[QuadTree<N, L>; TWO_TO_NUM_DIMENSIONS] {
            match self {
                Node::Tree(tree) => tree,
                _ => panic!(""),
            }
        }
    }
    impl<N: NodeDataType<L>, L: LeafDataType> QuadTree<N, L> {
        #[spec(effects(insert_new))]
        fn new(config: &QuadTreeConfig, particles: Vec<L>, extent: &Extent) -> Self {
            let mut tree = QuadTree { node: Node::Leaf(vec![]), data: N::default(), extent: extent.clone() };
            for particle in particles.into_iter() {
                tree.insert_new(config, particle, 0);
            }
            tree
        }
        #[spec(effects(update_with, insert))]
        fn insert_new(&mut self, config: &QuadTreeConfig, leaf_data: L, depth: usize) {
            self.data.update_with(&leaf_data);
            self.insert(config, leaf_data, depth)
        }
        #[spec(effects(insert_new, subdivide), opaque(get_quadrant_index, pos))]
        fn insert(&mut self, config: &QuadTreeConfig, leaf_data: L, depth: usize) {
            if let Node::Leaf(ref mut leaf) = self.node {
                if depth >= config.max_depth || leaf.len() <= config.max_num_particles_per_leaf {
                    leaf.push(leaf_data);
                    return;
                }
                self.subdivide(config, depth);
            }
            if let Node::Tree(ref mut children) = self.node {
                children[self.extent.get_quadrant_index(leaf_data.pos())].insert_new(config, leaf_data, depth + 1);
            }
        }
        #[spec(effects(insert), opaque(get_quadrants))]
        fn subdivide(&mut self, config: &QuadTreeConfig, depth: usize) {
            assert!(matches!(self.node, Node::Leaf(_)));
            let children = Box::new(self.extent.get_quadrants().map(|extent| QuadTree { node: Node::Leaf(vec![]), data: N::default(), extent }));
            let old = self.node.make_node(children);
            for particle in old.into_iter() {
                self.insert(config, particle, depth);
            }
        }
        #[spec]
        fn make_empty_leaf_from_extent(extent: Extent) -> Self {
            QuadTree { node: Node::Leaf(vec![]), data: N::default(), extent }
        }
        #[spec(effects(apply, depth_first_map_leaf))]
        fn depth_first_map_leaf<'a>(&'a self, closure: &mut impl FnMut(&'a Extent, &'a [L])) {
            match &self.node {
                Node::Leaf(leaf) => {
                    closure(&self.extent, leaf);
                }
                Node::Tree(children) => {
                    for child in children.iter() {
                        child.depth_first_map_leaf(closure);
                    }
                }
            }
        }
    }
}
mod domain {
    mod quadtree {
        impl LeafDataType for LeafData {
            #[spec]
            fn pos(&self) -> &VecLength {
                &self.pos
            }
        }
        impl NodeDataType<LeafData> for NodeData {
            #[spec]
            fn update_with(&mut self, _leaf: &LeafData) {
                self.work += 1;
            }
        }
    }
}
mod quadtree {
    #[law(feature("3d"))]
    fn eight_children() -> bool {
        NUM_DIMENSIONS == 3 && TWO_TO_NUM_DIMENSIONS == 8
    }
    #[law(feature("2d"))]
    fn four_children() -> bool {
        NUM_DIMENSIONS == 2 && TWO_TO_NUM_DIMENSIONS == 4
    }
}
