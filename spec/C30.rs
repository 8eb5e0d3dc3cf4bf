mod voronoi {
    mod delaunay {
        mod dimension {
            // face k lies opposite of point k
            #[law]
            fn faces_are_found_in_tetrahedra(t: Tetrahedron) -> bool {
                assume!(t.p1 != t.p2 && t.p1 != t.p3 && t.p1 != t.p4 && t.p2 != t.p3 && t.p2 != t.p4 && t.p3 != t.p4);
                let faces = t.find_face_opposite(t.p1) == t.f1 && t.find_face_opposite(t.p2) == t.f2 && t.find_face_opposite(t.p3) == t.f3 && t.find_face_opposite(t.p4) == t.f4;
                faces
            }
            #[law]
            fn points_are_found_in_tetrahedra(t: Tetrahedron) -> bool {
                assume!(t.f1.face != t.f2.face && t.f1.face != t.f3.face && t.f1.face != t.f4.face && t.f2.face != t.f3.face && t.f2.face != t.f4.face && t.f3.face != t.f4.face);
                let found = t.find_face(t.f1.face) == t.f1 && t.find_face(t.f2.face) == t.f2 && t.find_face(t.f3.face) == t.f3 && t.find_face(t.f4.face) == t.f4;
                let points = t.find_point_opposite(t.f1.face) == t.p1 && t.find_point_opposite(t.f2.face) == t.p2 && t.find_point_opposite(t.f3.face) == t.p3 && t.find_point_opposite(t.f4.face) == t.p4;
                found && points
            }
            #[law]
            fn faces_are_found_in_triangles(t: TriangleWithFaces) -> bool {
                assume!(t.p1 != t.p2 && t.p1 != t.p3 && t.p2 != t.p3);
                t.find_face_opposite(t.p1) == t.f1 && t.find_face_opposite(t.p2) == t.f2 && t.find_face_opposite(t.p3) == t.f3
            }
            #[law]
            fn points_are_found_in_triangles(t: TriangleWithFaces) -> bool {
                assume!(t.f1.face != t.f2.face && t.f1.face != t.f3.face && t.f2.face != t.f3.face);
                let found = t.find_face(t.f1.face) == t.f1 && t.find_face(t.f2.face) == t.f2 && t.find_face(t.f3.face) == t.f3;
                let points = t.find_point_opposite(t.f1.face) == t.p1 && t.find_point_opposite(t.f2.face) == t.p2 && t.find_point_opposite(t.f3.face) == t.p3;
                found && points
            }
            #[law]
            fn a_tetrahedron_contains_its_points(t: Tetrahedron, p: PointIndex) -> bool {
                t.contains_point(p) == (p == t.p1 || p == t.p2 || p == t.p3 || p == t.p4)
            }
            #[law]
            fn a_triangle_contains_its_points(t: TriangleWithFaces, p: PointIndex) -> bool {
                t.contains_point(p) == (p == t.p1 || p == t.p2 || p == t.p3)
            }
            #[law]
            fn a_face_contains_its_points(f: Triangle, l: Line, p: PointIndex) -> bool {
                f.contains_point(p) == (p == f.p1 || p == f.p2 || p == f.p3) && l.contains_point(p) == (p == l.p1 || p == l.p2)
            }
        }
        mod face_info {
            impl FaceInfo {
                #[spec]
                fn flipped(self) -> FaceInfo {
                    FaceInfo { face: self.face, opposing: self.opposing, flipped: !self.flipped }
                }
            }
        }
        impl Triangulation<D> {
            // a new simplex is entered as the neighbour of every simplex it names as a neighbour
            #[spec(effects(insert))]
            fn insert_tetra(&mut self, tetra: Tetra<D>) -> TetraIndex {
                let index = self.tetras.insert(tetra);
                self.update_connections_in_existing_tetra(index);
                index
            }
            #[spec(opaque(faces_and_points), handles(find_face_mut))]
            fn update_connections_in_existing_tetra(&mut self, tetra_index: TetraIndex) {
                let tetra = self.tetras[tetra_index].clone();
                for (face, point) in tetra.faces_and_points() {
                    if let Some(opposing) = face.opposing {
                        self.tetras[opposing.tetra].find_face_mut(face.face).opposing = Some(ConnectionData { tetra: tetra_index, point });
                    }
                }
            }
            #[spec(handles(find_face_mut))]
            fn set_opposing_in_new_tetra(&mut self, new_tetra: TetraIndex, face: FaceIndex, tetra: TetraIndex, point: PointIndex) {
                self.tetras[new_tetra].find_face_mut(face).opposing = Some(ConnectionData { tetra, point });
            }
            #[spec(opaque(get_remapped_point, find_containing_tetra, split, perform_flip_checks))]
            fn insert(&mut self, point: Point<D>, kind: PointKind) -> (PointIndex, Vec<TetraIndex>) {
                let index = self.points.insert(point);
                let containing = self.find_containing_tetra(self.get_remapped_point(index)).unwrap();
                self.point_kinds.insert(index, kind);
                let new_tetras = self.split(containing, index);
                let new_tetras = self.perform_flip_checks(index, new_tetras);
                (index, new_tetras)
            }
            // the face is illegal if the point behind it lies in the circumcircle
            #[spec(opaque(circumcircle_contains_point, find_face))]
            fn face_is_invalid(&self, to_check: &FlipCheckData) -> bool {
                match self.tetras.get(to_check.tetra) {
                    Some(tetra) => match tetra.find_face(to_check.face).opposing {
                        Some(opposing) => self.circumcircle_contains_point(tetra, opposing.point),
                        None => false,
                    },
                    None => false,
                }
            }
            #[spec(opaque(face_is_invalid), effects(flip, extend))]
            fn flip_check(&mut self, stack: &mut FlipCheckStack, to_check: FlipCheckData) {
                if self.face_is_invalid(&to_check) {
                    let new = self.flip(to_check);
                    stack.extend(new);
                }
            }
            #[spec(opaque(circumcircle_contains, get_remapped_point))]
            fn circumcircle_contains_point(&self, tetra: &Tetra<D>, point: PointIndex) -> bool {
                let data: TetraData<D> = tetra.points().map(|p| self.get_remapped_point(p)).collect();
                data.circumcircle_contains(self.get_remapped_point(point))
            }
            #[spec(opaque(remap_point))]
            fn get_remapped_point(&self, point: PointIndex) -> Point<D> {
                D::remap_point(self.points[point], &self.extent)
            }
        }
        impl FlipCheckStack {
            #[spec]
            fn get_next(&mut self) -> Option<TetraIndex> {
                let i = self.current_index;
                self.current_index = i + 1;
                if i < self.tetras.len() {
                    Some(self.tetras[i])
                } else {
                    None
                }
            }
            #[spec]
            fn extend(&mut self, t: Vec<TetraIndex>) {
                for x in t {
                    self.tetras.push(x);
                }
            }
        }
        mod impl_2d {
            fn info(face: FaceIndex, flipped: bool) -> FaceInfo {
                FaceInfo { face, opposing: None, flipped }
            }
            impl Delaunay<TwoD> for Triangulation<TwoD> {
                // one triangle per edge of the old one, each pair of neighbours shares the new edge to a common vertex
                #[spec(of_trait(Delaunay), target("voronoi::delaunay::impl_2d::Triangulation::split"), unordered, effects(insert, remove, insert_tetra, set_opposing_in_new_tetra))]
                fn split(&mut self, old_tetra_index: TetraIndex, point: PointIndex) -> TetrasRequiringCheck {
                    let old = self.tetras.remove(old_tetra_index).unwrap();
                    let f1 = self.faces.insert(Line { p1: point, p2: old.p1 });
                    let f2 = self.faces.insert(Line { p1: point, p2: old.p2 });
                    let f3 = self.faces.insert(Line { p1: point, p2: old.p3 });
                    let t1 = self.insert_tetra(TriangleWithFaces { p1: old.p2, p2: old.p3, p3: point, f1: info(f3, true), f2: info(f2, false), f3: old.f1 });
                    let t2 = self.insert_tetra(TriangleWithFaces { p1: old.p3, p2: old.p1, p3: point, f1: info(f1, true), f2: info(f3, false), f3: old.f2 });
                    let t3 = self.insert_tetra(TriangleWithFaces { p1: old.p1, p2: old.p2, p3: point, f1: info(f2, true), f2: info(f1, false), f3: old.f3 });
                    self.set_opposing_in_new_tetra(t1, f3, t2, old.p1);
                    self.set_opposing_in_new_tetra(t1, f2, t3, old.p1);
                    self.set_opposing_in_new_tetra(t2, f3, t1, old.p2);
                    self.set_opposing_in_new_tetra(t2, f1, t3, old.p2);
                    self.set_opposing_in_new_tetra(t3, f1, t2, old.p3);
                    self.set_opposing_in_new_tetra(t3, f2, t1, old.p3);
                    vec![t1, t2, t3]
                }
                // the shared edge is replaced by the one between the two opposite points
                #[spec(of_trait(Delaunay), target("voronoi::delaunay::impl_2d::Triangulation::flip"), unordered, handles(find_face_mut), effects(insert, remove, insert_tetra))]
                fn flip(&mut self, check: FlipCheckData) -> TetrasRequiringCheck {
                    let old = self.tetras.remove(check.tetra).unwrap();
                    let edge = self.faces.remove(check.face).unwrap();
                    let face = old.find_face(check.face);
                    let opposing = face.opposing.unwrap();
                    let other = self.tetras.remove(opposing.tetra).unwrap();
                    let a = old.find_point_opposite(check.face);
                    let b = opposing.point;
                    let (p1, p2) = if face.flipped { (edge.p2, edge.p1) } else { (edge.p1, edge.p2) };
                    let new_face = self.faces.insert(Line { p1: a, p2: b });
                    let t1 = self.insert_tetra(TriangleWithFaces {
                        p1: a,
                        p2: p1,
                        p3: b,
                        f1: *other.find_face_opposite(p2),
                        f2: info(new_face, true),
                        f3: *old.find_face_opposite(p2),
                    });
                    let t2 = self.insert_tetra(TriangleWithFaces {
                        p1: p2,
                        p2: a,
                        p3: b,
                        f1: info(new_face, false),
                        f2: *other.find_face_opposite(p1),
                        f3: *old.find_face_opposite(p1),
                    });
                    self.tetras[t1].find_face_mut(new_face).opposing = Some(ConnectionData { tetra: t2, point: p2 });
                    self.tetras[t2].find_face_mut(new_face).opposing = Some(ConnectionData { tetra: t1, point: p1 });
                    vec![t1, t2]
                }
                #[spec(of_trait(Delaunay), target("voronoi::delaunay::impl_2d::Triangulation::insert_basic_tetra"), unordered, effects(insert, insert_tetra))]
                fn insert_basic_tetra(&mut self, tetra: TriangleData<Point2d>) {
                    let a = self.points.insert(tetra.p1);
                    let b = self.points.insert(tetra.p2);
                    let c = self.points.insert(tetra.p3);
                    self.point_kinds.insert(a, PointKind::Outer);
                    self.point_kinds.insert(b, PointKind::Outer);
                    self.point_kinds.insert(c, PointKind::Outer);
                    let fa = self.faces.insert(Line { p1: b, p2: c });
                    let fb = self.faces.insert(Line { p1: c, p2: a });
                    let fc = self.faces.insert(Line { p1: a, p2: b });
                    self.insert_tetra(TriangleWithFaces { p1: a, p2: b, p3: c, f1: info(fa, false), f2: info(fb, false), f3: info(fc, false) });
                }
            }
        }
        mod impl_3d {
            fn info(face: FaceIndex, flipped: bool) -> FaceInfo {
                FaceInfo { face, opposing: None, flipped }
            }
            impl Delaunay<ThreeD> for Triangulation<ThreeD> {
                // one tetrahedron per face of the old one; neighbours share the face of the new point and the common edge
                #[spec(of_trait(Delaunay), target("voronoi::delaunay::impl_3d::Triangulation::split"), unordered, effects(insert, remove, insert_tetra, set_opposing_in_new_tetra))]
                fn split(&mut self, old_tetra_index: TetraIndex, point: PointIndex) -> TetrasRequiringCheck {
                    let old = self.tetras.remove(old_tetra_index).unwrap();
                    let f12 = self.faces.insert(Triangle { p1: point, p2: old.p1, p3: old.p2 });
                    let f13 = self.faces.insert(Triangle { p1: point, p2: old.p1, p3: old.p3 });
                    let f14 = self.faces.insert(Triangle { p1: point, p2: old.p1, p3: old.p4 });
                    let f23 = self.faces.insert(Triangle { p1: point, p2: old.p2, p3: old.p3 });
                    let f24 = self.faces.insert(Triangle { p1: point, p2: old.p2, p3: old.p4 });
                    let f34 = self.faces.insert(Triangle { p1: point, p2: old.p3, p3: old.p4 });
                    let t1 = self.insert_tetra(Tetrahedron { p1: old.p3, p2: old.p2, p3: old.p4, p4: point, f1: info(f24, true), f2: info(f34, false), f3: info(f23, false), f4: old.f1 });
                    let t2 = self.insert_tetra(Tetrahedron { p1: old.p1, p2: old.p3, p3: old.p4, p4: point, f1: info(f34, true), f2: info(f14, false), f3: info(f13, true), f4: old.f2 });
                    let t3 = self.insert_tetra(Tetrahedron { p1: old.p2, p2: old.p1, p3: old.p4, p4: point, f1: info(f14, true), f2: info(f24, false), f3: info(f12, false), f4: old.f3 });
                    let t4 = self.insert_tetra(Tetrahedron { p1: old.p1, p2: old.p2, p3: old.p3, p4: point, f1: info(f23, true), f2: info(f13, false), f3: info(f12, true), f4: old.f4 });
                    self.set_opposing_in_new_tetra(t1, f34, t2, old.p1);
                    self.set_opposing_in_new_tetra(t1, f24, t3, old.p1);
                    self.set_opposing_in_new_tetra(t1, f23, t4, old.p1);
                    self.set_opposing_in_new_tetra(t2, f34, t1, old.p2);
                    self.set_opposing_in_new_tetra(t2, f14, t3, old.p2);
                    self.set_opposing_in_new_tetra(t2, f13, t4, old.p2);
                    self.set_opposing_in_new_tetra(t3, f24, t1, old.p3);
                    self.set_opposing_in_new_tetra(t3, f14, t2, old.p3);
                    self.set_opposing_in_new_tetra(t3, f12, t4, old.p3);
                    self.set_opposing_in_new_tetra(t4, f23, t1, old.p4);
                    self.set_opposing_in_new_tetra(t4, f13, t2, old.p4);
                    self.set_opposing_in_new_tetra(t4, f12, t3, old.p4);
                    vec![t1, t2, t3, t4]
                }
                // the kind of flip follows from where the line between the opposite points passes the shared face
                #[spec(of_trait(Delaunay), target("voronoi::delaunay::impl_3d::Triangulation::flip"), opaque(find_face, find_face_opposite, find_point_opposite, two_to_three_flip, three_to_two_flip, get_line_intersection_type, get_remapped_point))]
                fn flip(&mut self, check: FlipCheckData) -> TetrasRequiringCheck {
                    let t1 = self.tetras[check.tetra];
                    let face = self.faces[check.face];
                    let opposing = t1.find_face(check.face).opposing.unwrap();
                    let t2 = self.tetras[opposing.tetra];
                    let p1 = t1.find_point_opposite(check.face);
                    let p2 = t2.find_point_opposite(check.face);
                    let data = self.get_remapped_face_data(&face);
                    match data.get_line_intersection_type(self.get_remapped_point(p1), self.get_remapped_point(p2)) {
                        IntersectionType::Inside => self.two_to_three_flip(check.tetra, opposing.tetra, p1, p2, check.face),
                        IntersectionType::OutsideOneEdge(edge) => {
                            let q = face.get_point_opposite(edge);
                            let (a, b) = face.get_points_of(edge);
                            let t3 = t1.find_face_opposite(q).opposing.unwrap().tetra;
                            let same = t2.find_face_opposite(q).opposing.unwrap().tetra;
                            if t3 == same {
                                self.three_to_two_flip(check.tetra, opposing.tetra, t3, p2, p1, q, a, b)
                            } else {
                                vec![]
                            }
                        }
                        IntersectionType::OutsideTwoEdges(_, _) => vec![],
                    }
                }
                #[spec(of_trait(Delaunay), target("voronoi::delaunay::impl_3d::Triangulation::insert_basic_tetra"), unordered, effects(insert, insert_tetra))]
                fn insert_basic_tetra(&mut self, tetra: TetrahedronData) {
                    let p1 = self.points.insert(tetra.p1);
                    let p2 = self.points.insert(tetra.p2);
                    let p3 = self.points.insert(tetra.p3);
                    let p4 = self.points.insert(tetra.p4);
                    self.point_kinds.insert(p1, PointKind::Outer);
                    self.point_kinds.insert(p2, PointKind::Outer);
                    self.point_kinds.insert(p3, PointKind::Outer);
                    self.point_kinds.insert(p4, PointKind::Outer);
                    let fa = self.faces.insert(Triangle { p1: p3, p2: p2, p3: p4 });
                    let fb = self.faces.insert(Triangle { p1: p3, p2: p4, p3: p1 });
                    let fc = self.faces.insert(Triangle { p1: p1, p2: p4, p3: p2 });
                    let fd = self.faces.insert(Triangle { p1: p1, p2: p2, p3: p3 });
                    self.insert_tetra(Tetrahedron { p1, p2, p3, p4, f1: info(fa, false), f2: info(fb, false), f3: info(fc, false), f4: info(fd, false) });
                }
            }
            impl Triangulation<ThreeD> {
                #[spec(unordered, handles(find_face_mut), opaque(find_face_opposite, find_face), effects(insert, remove, insert_tetra))]
                fn two_to_three_flip(&mut self, ta_index: TetraIndex, tb_index: TetraIndex, p1: PointIndex, p2: PointIndex, shared_face: FaceIndex) -> TetrasRequiringCheck {
                    let ta = self.tetras.remove(ta_index).unwrap();
                    let tb = self.tetras.remove(tb_index).unwrap();
                    let flipped = ta.find_face(shared_face).flipped;
                    let old = self.faces.remove(shared_face).unwrap();
                    let f1 = self.faces.insert(Triangle { p1, p2, p3: old.p1 });
                    let f2 = self.faces.insert(Triangle { p1, p2, p3: old.p2 });
                    let f3 = self.faces.insert(Triangle { p1, p2, p3: old.p3 });
                    let (a, b) = if flipped { (p1, p2) } else { (p2, p1) };
                    let (na, nb) = if flipped { (&ta, &tb) } else { (&tb, &ta) };
                    let t1 = self.insert_tetra(Tetrahedron { p1: a, p2: b, p3: old.p2, p4: old.p3, f1: *nb.find_face_opposite(old.p1), f2: *na.find_face_opposite(old.p1), f3: info(f3, flipped), f4: info(f2, !flipped) });
                    let t2 = self.insert_tetra(Tetrahedron { p1: a, p2: b, p3: old.p3, p4: old.p1, f1: *nb.find_face_opposite(old.p2), f2: *na.find_face_opposite(old.p2), f3: info(f1, flipped), f4: info(f3, !flipped) });
                    let t3 = self.insert_tetra(Tetrahedron { p1: a, p2: b, p3: old.p1, p4: old.p2, f1: *nb.find_face_opposite(old.p3), f2: *na.find_face_opposite(old.p3), f3: info(f2, flipped), f4: info(f1, !flipped) });
                    self.tetras[t1].find_face_mut(f2).opposing = Some(ConnectionData { tetra: t3, point: old.p1 });
                    self.tetras[t1].find_face_mut(f3).opposing = Some(ConnectionData { tetra: t2, point: old.p1 });
                    self.tetras[t2].find_face_mut(f3).opposing = Some(ConnectionData { tetra: t1, point: old.p2 });
                    self.tetras[t2].find_face_mut(f1).opposing = Some(ConnectionData { tetra: t3, point: old.p2 });
                    self.tetras[t3].find_face_mut(f1).opposing = Some(ConnectionData { tetra: t2, point: old.p3 });
                    self.tetras[t3].find_face_mut(f2).opposing = Some(ConnectionData { tetra: t1, point: old.p3 });
                    vec![t1, t2, t3]
                }
                #[spec(unordered, handles(find_face_mut), opaque(find_face_opposite, find_face), effects(insert, remove, insert_tetra))]
                fn three_to_two_flip(&mut self, t1_index: TetraIndex, t2_index: TetraIndex, t3_index: TetraIndex, p1: PointIndex, p2: PointIndex, p3: PointIndex, shared_edge_p1: PointIndex, shared_edge_p2: PointIndex) -> TetrasRequiringCheck {
                    let t1 = self.tetras.remove(t1_index).unwrap();
                    let t2 = self.tetras.remove(t2_index).unwrap();
                    let t3 = self.tetras.remove(t3_index).unwrap();
                    let inner = t2.find_face_opposite(p1);
                    self.faces.remove(t3.find_face_opposite(p2).face);
                    self.faces.remove(t1.find_face_opposite(p3).face);
                    self.faces.remove(inner.face);
                    let face = self.faces.insert(Triangle { p1, p2, p3 });
                    let (a, b) = (shared_edge_p1, shared_edge_p2);
                    let flip = !inner.flipped;
                    let (q1, q2, ga, gb) = if flip { (p2, p1, &t2, &t1) } else { (p1, p2, &t1, &t2) };
                    let ta = self.insert_tetra(Tetrahedron { p1: q1, p2: q2, p3, p4: a, f1: *ga.find_face_opposite(b), f2: *gb.find_face_opposite(b), f3: *t3.find_face_opposite(b), f4: info(face, flip) });
                    let (q1, q2, ga, gb) = if flip { (p1, p2, &t1, &t2) } else { (p2, p1, &t2, &t1) };
                    let tb = self.insert_tetra(Tetrahedron { p1: q1, p2: q2, p3, p4: b, f1: *ga.find_face_opposite(a), f2: *gb.find_face_opposite(a), f3: *t3.find_face_opposite(a), f4: info(face, !flip) });
                    self.tetras[ta].find_face_mut(face).opposing = Some(ConnectionData { tetra: tb, point: b });
                    self.tetras[tb].find_face_mut(face).opposing = Some(ConnectionData { tetra: ta, point: a });
                    vec![ta, tb]
                }
            }
        }
        mod point_location {
            // the heap yields the closest candidate first
            impl CheckData {
                #[spec(of_trait(PartialOrd))]
                fn partial_cmp(&self, other: &CheckData) -> Option<Ordering> {
                    Some(other.heuristic_distance.cmp(&self.heuristic_distance))
                }
            }
            #[spec(opaque(find_breadth_first, tetra_contains_point))]
            fn find_containing_tetra<D>(t: &Triangulation<D>, point: D::Point) -> Option<TetraIndex> {
                match t.last_insertion_tetra {
                    Some(start) => find_breadth_first(t, point, start),
                    None => match t.tetras.iter().find(|(_, tetra)| tetra_contains_point(t, tetra, point)) {
                        Some((i, _)) => Some(i),
                        None => None,
                    },
                }
            }
        }
    }
    mod utils {
        impl PeriodicWindows2<T> {
            #[spec(of_trait(Iterator))]
            fn next(&mut self) -> Option<(&T, &T)> {
                let n = self.values.len();
                let i = self.cursor;
                if n < 2 {
                    return None;
                }
                self.cursor = i + 1;
                if i >= n {
                    None
                } else if i + 1 == n {
                    Some((&self.values[i], &self.values[0]))
                } else {
                    Some((&self.values[i], &self.values[i + 1]))
                }
            }
        }
    }
    mod primitives {
        mod triangle {
            impl Triangle {
                #[spec]
                fn get_point_opposite(&self, edge_identifier: EdgeIdentifier) -> PointIndex {
                    match edge_identifier {
                        EdgeIdentifier::One => self.p1,
                        EdgeIdentifier::Two => self.p2,
                        EdgeIdentifier::Three => self.p3,
                    }
                }
                #[spec]
                fn get_points_of(&self, edge_identifier: EdgeIdentifier) -> (PointIndex, PointIndex) {
                    match edge_identifier {
                        EdgeIdentifier::One => (self.p2, self.p3),
                        EdgeIdentifier::Two => (self.p3, self.p1),
                        EdgeIdentifier::Three => (self.p1, self.p2),
                    }
                }
                #[law]
                fn points_law(t: Triangle) -> bool {
                    let v: Vec<PointIndex> = t.points().collect();
                    v.len() == 3 && v[0] == t.p1 && v[1] == t.p2 && v[2] == t.p3
                }
            }
        }
    }
}
