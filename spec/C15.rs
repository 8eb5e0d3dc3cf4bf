mod quadtree {
    mod node_index {
        #[law]
        fn this_node_roundtrip(n: u8) -> bool {
            let to: u8 = NodeIndex::ThisNode.into();
            NodeIndex::from(to) == NodeIndex::ThisNode
        }
        // every child of a node with `TWO_TO_NUM_DIMENSIONS` children
        #[law]
        fn child_roundtrip(n: u8) -> bool {
            let c = NodeIndex::Child(n);
            let to: u8 = c.into();
            n >= TWO_TO_NUM_DIMENSIONS as u8 || NodeIndex::from(to) == c
        }
        #[law]
        fn distinct_forms(n: u8) -> bool {
            let c: u8 = NodeIndex::Child(n).into();
            let t: u8 = NodeIndex::ThisNode.into();
            n >= TWO_TO_NUM_DIMENSIONS as u8 || c != t
        }
        #[law(feature("2d"))]
        fn child_roundtrip_2d(n: u8) -> bool {
            let c = NodeIndex::Child(n);
            let to: u8 = c.into();
            n >= TWO_TO_NUM_DIMENSIONS as u8 || NodeIndex::from(to) == c
        }
        #[law(feature("2d"))]
        fn this_node_roundtrip_2d(n: u8) -> bool {
            let to: u8 = NodeIndex::ThisNode.into();
            NodeIndex::from(to) == NodeIndex::ThisNode
        }
        impl From<NodeIndex> for u8 {
            #[spec]
            fn from(val: NodeIndex) -> Self {
                match val {
                    NodeIndex::Child(num) => num,
                    NodeIndex::ThisNode => TWO_TO_NUM_DIMENSIONS as u8,
                }
            }
        }
    }
}
mod domain {
    mod extent {
        impl Extent2d {
            // bit k of the number is set iff the position is in the upper half along axis k
            #[spec]
            fn get_quadrant_index(&self, pos: &Vec2Length) -> usize {
                let bx = if pos.x() < self.center.x() { 0 } else { 1 };
                let by = if pos.y() < self.center.y() { 0 } else { 2 };
                bx + by
            }
            #[spec]
            fn get_quadrants(&self) -> [Self; 4] {
                let cell = |bx: bool, by: bool| {
                    Extent2d::from_min_max(
                        Vec2Length::new(
                            if bx { self.center.x() } else { self.min.x() },
                            if by { self.center.y() } else { self.min.y() },
                        ),
                        Vec2Length::new(
                            if bx { self.max.x() } else { self.center.x() },
                            if by { self.max.y() } else { self.center.y() },
                        ),
                    )
                };
                [cell(false, false), cell(true, false), cell(false, true), cell(true, true)]
            }
        }
        impl Extent3d {
            #[spec]
            fn get_quadrant_index(&self, pos: &Vec3Length) -> usize {
                let bx = if pos.x() < self.center.x() { 0 } else { 1 };
                let by = if pos.y() < self.center.y() { 0 } else { 2 };
                let bz = if pos.z() < self.center.z() { 0 } else { 4 };
                bx + by + bz
            }
            #[spec]
            fn get_quadrants(&self) -> [Self; 8] {
                let cell = |bx: bool, by: bool, bz: bool| {
                    Extent3d::from_min_max(
                        Vec3Length::new(
                            if bx { self.center.x() } else { self.min.x() },
                            if by { self.center.y() } else { self.min.y() },
                            if bz { self.center.z() } else { self.min.z() },
                        ),
                        Vec3Length::new(
                            if bx { self.max.x() } else { self.center.x() },
                            if by { self.max.y() } else { self.center.y() },
                            if bz { self.max.z() } else { self.center.z() },
                        ),
                    )
                };
                [
                    cell(false, false, false),
                    cell(true, false, false),
                    cell(false, true, false),
                    cell(true, true, false),
                    cell(false, false, true),
                    cell(true, false, true),
                    cell(false, true, true),
                    cell(true, true, true),
                ]
            }
        }
    }
}
