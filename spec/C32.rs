mod voronoi {
    mod math {
        mod precision_types {
            impl PrecisionPoint3d {
                #[spec]
                fn new(p: Point3d) -> Self {
                    let lift = |v: f64| PrecisionFloat::from_f64(v).unwrap();
                    PrecisionPoint3d { x: lift(p.x), y: lift(p.y), z: lift(p.z) }
                }
            }
            impl PrecisionPoint2d {
                #[spec]
                fn new(p: Point2d) -> Self {
                    let lift = |v: f64| PrecisionFloat::from_f64(v).unwrap();
                    PrecisionPoint2d { x: lift(p.x), y: lift(p.y) }
                }
            }
            impl Vector3d for PrecisionPoint3d {
                #[spec]
                fn x(&self) -> <Self as Vector>::Float {
                    self.x
                }
                #[spec]
                fn y(&self) -> <Self as Vector>::Float {
                    self.y
                }
                #[spec]
                fn z(&self) -> <Self as Vector>::Float {
                    self.z
                }
            }
            impl Vector2d for PrecisionPoint2d {
                #[spec]
                fn x(&self) -> <Self as Vector>::Float {
                    self.x
                }
                #[spec]
                fn y(&self) -> <Self as Vector>::Float {
                    self.y
                }
            }
            impl Cross3d for PrecisionPoint3d {
                #[spec]
                fn cross(&self, other: &Self) -> Self {
                    PrecisionPoint3d {
                        x: self.y * other.z - self.z * other.y,
                        y: self.z * other.x - self.x * other.z,
                        z: self.x * other.y - self.y * other.x,
                    }
                }
            }
            impl Dot for PrecisionPoint3d {
                #[spec]
                fn dot(self, other: Self) -> Self::Float {
                    self.x * other.x + self.y * other.y + self.z * other.z
                }
            }
        }
        mod traits {
            impl Cross3d for Point3d {
                #[spec]
                fn cross(&self, other: &Self) -> Self {
                    Point3d::new(
                        self.y * other.z - self.z * other.y,
                        self.z * other.x - self.x * other.z,
                        self.x * other.y - self.y * other.x,
                    )
                }
            }
            impl DVector for f64 {
                #[spec]
                fn distance(&self, p: Self) -> f64 {
                    (p - *self).abs()
                }
                #[spec]
                fn distance_squared(&self, p: Self) -> f64 {
                    (p - *self) * (p - *self)
                }
                #[spec]
                fn normalize(&self) -> Self {
                    self.signum()
                }
                #[spec]
                fn max_element(self) -> f64 {
                    self
                }
            }
            impl Dot for f64 {
                #[spec]
                fn dot(self, other: Self) -> f64 {
                    self * other
                }
            }
            impl Vector2d for Point2d {
                #[spec]
                fn x(&self) -> <Self as Vector>::Float {
                    self.x
                }
                #[spec]
                fn y(&self) -> <Self as Vector>::Float {
                    self.y
                }
            }
            impl Vector3d for Point3d {
                #[spec]
                fn x(&self) -> <Self as Vector>::Float {
                    self.x
                }
                #[spec]
                fn y(&self) -> <Self as Vector>::Float {
                    self.y
                }
                #[spec]
                fn z(&self) -> <Self as Vector>::Float {
                    self.z
                }
            }
            impl DVector for DVec2 {
                #[spec]
                fn normalize(&self) -> Self {
                    let length = (self.x * self.x + self.y * self.y).sqrt();
                    DVec2::new(self.x / length, self.y / length)
                }
                #[spec]
                fn distance(&self, p: Self) -> f64 {
                    ((self.x - p.x) * (self.x - p.x) + (self.y - p.y) * (self.y - p.y)).sqrt()
                }
                #[spec]
                fn distance_squared(&self, p: Self) -> f64 {
                    (self.x - p.x) * (self.x - p.x) + (self.y - p.y) * (self.y - p.y)
                }
                #[spec]
                fn max_element(self) -> f64 {
                    self.x.max(self.y)
                }
            }
            impl DVector for DVec3 {
                #[spec]
                fn normalize(&self) -> Self {
                    let length = (self.x * self.x + self.y * self.y + self.z * self.z).sqrt();
                    DVec3::new(self.x / length, self.y / length, self.z / length)
                }
                #[spec]
                fn distance(&self, p: Self) -> f64 {
                    ((self.x - p.x) * (self.x - p.x) + (self.y - p.y) * (self.y - p.y) + (self.z - p.z) * (self.z - p.z)).sqrt()
                }
                #[spec]
                fn distance_squared(&self, p: Self) -> f64 {
                    (self.x - p.x) * (self.x - p.x) + (self.y - p.y) * (self.y - p.y) + (self.z - p.z) * (self.z - p.z)
                }
                #[spec]
                fn max_element(self) -> f64 {
                    self.x.max(self.y).max(self.z)
                }
            }
            impl Dot for DVec2 {
                #[spec]
                fn dot(self, other: Self) -> f64 {
                    self.x * other.x + self.y * other.y
                }
            }
            impl Dot for DVec3 {
                #[spec]
                fn dot(self, other: Self) -> f64 {
                    self.x * other.x + self.y * other.y + self.z * other.z
                }
            }
            impl MinMax for Vec2Length {
                #[spec]
                fn min(self, other: Self) -> Self {
                    Vec2Length::min(self, other)
                }
                #[spec]
                fn max(self, other: Self) -> Self {
                    Vec2Length::max(self, other)
                }
            }
            impl MinMax for Vec3Length {
                #[spec]
                fn min(self, other: Self) -> Self {
                    Vec3Length::min(self, other)
                }
                #[spec]
                fn max(self, other: Self) -> Self {
                    Vec3Length::max(self, other)
                }
            }
            impl MinMax for DVec2 {
                #[spec]
                fn min(self, other: Self) -> Self {
                    DVec2::new(self.x.min(other.x), self.y.min(other.y))
                }
                #[spec]
                fn max(self, other: Self) -> Self {
                    DVec2::new(self.x.max(other.x), self.y.max(other.y))
                }
            }
            impl MinMax for DVec3 {
                #[spec]
                fn min(self, other: Self) -> Self {
                    DVec3::new(self.x.min(other.x), self.y.min(other.y), self.z.min(other.z))
                }
                #[spec]
                fn max(self, other: Self) -> Self {
                    DVec3::new(self.x.max(other.x), self.y.max(other.y), self.z.max(other.z))
                }
            }
            impl MinMax for f64 {
                #[spec]
                fn min(self, other: Self) -> Self {
                    if self < other { self } else { other }
                }
                #[spec]
                fn max(self, other: Self) -> Self {
                    if self > other { self } else { other }
                }
            }
        }
    }
    mod primitives {
        mod line {
            impl Line {
                #[spec]
                fn contains(&self, point: PointIndex) -> bool {
                    point == self.p2 || point == self.p1
                }
                #[spec]
                fn other_point(&self, point: PointIndex) -> PointIndex {
                    if point == self.p1 {
                        self.p2
                    } else if point == self.p2 {
                        self.p1
                    } else {
                        panic!()
                    }
                }
            }
            impl DFace for Line {
                #[spec]
                fn points(&self) -> Self::PointsIter {
                    [self.p1, self.p2].into_iter()
                }
            }
        }
        mod triangle {
            impl DFace for Triangle {
                #[spec]
                fn points(&self) -> Self::PointsIter {
                    [self.p1, self.p2, self.p3].into_iter()
                }
            }
            impl Triangle {
                #[spec]
                fn get_point_opposite(&self, edge: EdgeIdentifier) -> PointIndex {
                    match edge {
                        EdgeIdentifier::One => self.p1,
                        EdgeIdentifier::Two => self.p2,
                        EdgeIdentifier::Three => self.p3,
                    }
                }
                #[spec]
                fn get_points_of(&self, edge: EdgeIdentifier) -> (PointIndex, PointIndex) {
                    match edge {
                        EdgeIdentifier::One => (self.p2, self.p3),
                        EdgeIdentifier::Two => (self.p3, self.p1),
                        EdgeIdentifier::Three => (self.p1, self.p2),
                    }
                }
            }
            impl DTetra for TriangleWithFaces {
                #[spec]
                fn points(&self) -> Self::PointsIter {
                    [self.p1, self.p2, self.p3].into_iter()
                }
                #[spec]
                fn faces(&self) -> Self::FacesIter<'_> {
                    [&self.f1, &self.f2, &self.f3].into_iter()
                }
                #[spec]
                fn contains_point(&self, p: PointIndex) -> bool {
                    p == self.p1 || p == self.p2 || p == self.p3
                }
            }
            impl TriangleData<V> {
                // p = p1 + r (p2 - p1) + s (p3 - p1)
                #[spec(opaque(solve_system_of_equations))]
                fn transform_point_to_canonical_coordinates(&self, point: V) -> (V::Float, V::Float) {
                    let [r, s] = solve_system_of_equations([
                        [self.p2.x() - self.p1.x(), self.p3.x() - self.p1.x(), point.x() - self.p1.x()],
                        [self.p2.y() - self.p1.y(), self.p3.y() - self.p1.y(), point.y() - self.p1.y()],
                    ]);
                    (r, s)
                }
                #[spec(opaque(transform_point_to_canonical_coordinates, try_from_val))]
                fn generic_contains(&self, p: V) -> Result<bool, PrecisionError> {
                    let (r, s) = self.transform_point_to_canonical_coordinates(p);
                    let sign = |x| Sign::try_from_val(&x, TRIANGLE_CONTAINS_EPSILON);
                    let a = sign(r);
                    let b = sign(s);
                    let c = sign(1.0 - r - s);
                    if a == Ok(Sign::Negative) || b == Ok(Sign::Negative) || c == Ok(Sign::Negative) {
                        return Ok(false);
                    }
                    a?.panic_if_zero(|| "");
                    b?.panic_if_zero(|| "");
                    c?.panic_if_zero(|| "");
                    Ok(true)
                }
                #[spec(opaque(solve_system_of_equations, get_intersection_type))]
                fn generic_get_line_intersection_type(&self, q1: V, q2: V) -> Result<IntersectionType, PrecisionError> {
                    // p1 + r (p2 - p1) + s (p3 - p1) = q1 + t (q2 - q1)
                    let [r, s, _] = solve_system_of_equations([
                        [self.p2.x() - self.p1.x(), self.p3.x() - self.p1.x(), q1.x() - q2.x(), q1.x() - self.p1.x()],
                        [self.p2.y() - self.p1.y(), self.p3.y() - self.p1.y(), q1.y() - q2.y(), q1.y() - self.p1.y()],
                        [self.p2.z() - self.p1.z(), self.p3.z() - self.p1.z(), q1.z() - q2.z(), q1.z() - self.p1.z()],
                    ]);
                    self.get_intersection_type(r, s)
                }
                #[spec(opaque(try_from_val))]
                fn get_intersection_type(&self, r: V::Float, s: V::Float) -> Result<IntersectionType, PrecisionError> {
                    let sign = |x| {
                        let sign = Sign::try_from_val(&x, TRIANGLE_INTERSECTION_TYPE_EPSILON);
                        if let Ok(sign) = sign {
                            sign.panic_if_zero(|| "");
                        }
                        sign
                    };
                    let a = sign(r.clone());
                    let b = sign(s.clone());
                    let c = sign(1.0 - r - s);
                    let two = a?.is_negative();
                    let three = b?.is_negative();
                    let one = c?.is_negative();
                    Ok(match (two, three, one) {
                        (false, false, false) => IntersectionType::Inside,
                        (true, false, false) => IntersectionType::OutsideOneEdge(EdgeIdentifier::Two),
                        (false, true, false) => IntersectionType::OutsideOneEdge(EdgeIdentifier::Three),
                        (false, false, true) => IntersectionType::OutsideOneEdge(EdgeIdentifier::One),
                        (true, true, false) => IntersectionType::OutsideTwoEdges(EdgeIdentifier::Two, EdgeIdentifier::Three),
                        (true, false, true) => IntersectionType::OutsideTwoEdges(EdgeIdentifier::Two, EdgeIdentifier::One),
                        (false, true, true) => IntersectionType::OutsideTwoEdges(EdgeIdentifier::Three, EdgeIdentifier::One),
                        _ => panic!(),
                    })
                }
            }
            impl TriangleData<Point2d> {
                #[spec(opaque(generic_contains))]
                fn arbitrary_precision_contains(&self, p: Point2d) -> bool {
                    let lifted = TriangleData { p1: PrecisionPoint2d::new(self.p1), p2: PrecisionPoint2d::new(self.p2), p3: PrecisionPoint2d::new(self.p3) };
                    lifted.generic_contains(PrecisionPoint2d::new(p)).unwrap()
                }
            }
            impl DTetraData for TriangleData<Point2d> {
                #[spec(opaque(Extent::from_points))]
                fn extent(&self) -> Extent<Point<Self::Dimension>> {
                    Extent::from_points([self.p1, self.p2, self.p3].into_iter()).unwrap()
                }
                #[spec(opaque(generic_contains, arbitrary_precision_contains))]
                fn contains(&self, p: Point<Self::Dimension>) -> bool {
                    match self.generic_contains(p) {
                        Ok(inside) => inside,
                        Err(_) => self.arbitrary_precision_contains(p),
                    }
                }
                #[spec(opaque(determinant3x3_sign))]
                fn circumcircle_contains(&self, point: Point2d) -> bool {
                    let row = |q: Point2d| {
                        let x = q.x - self.p1.x;
                        let y = q.y - self.p1.y;
                        [x, y, x * x + y * y]
                    };
                    let sign = determinant3x3_sign([row(self.p2), row(self.p3), row(point)]);
                    match sign {
                        Sign::Zero => panic!(),
                        Sign::Negative => true,
                        Sign::Positive => false,
                    }
                }
                #[spec]
                fn distance_to_point(&self, p: Point2d) -> Float {
                    let side = |a: Point2d, b: Point2d| ((b.y - a.y) * p.x - (b.x - a.x) * p.y + b.x * a.y - b.y * a.x) / (b - a).length();
                    side(self.p1, self.p2).max(side(self.p2, self.p3)).max(side(self.p3, self.p1))
                }
            }
            // the centre is equally far from the corners
            #[law]
            fn center_2d_ab(t: TriangleData<Point2d>) -> bool {
                let m = t.get_center_of_circumcircle();
                (m.x - t.p1.x) * (m.x - t.p1.x) + (m.y - t.p1.y) * (m.y - t.p1.y) == (m.x - t.p2.x) * (m.x - t.p2.x) + (m.y - t.p2.y) * (m.y - t.p2.y)
            }
            #[law]
            fn center_2d_ac(t: TriangleData<Point2d>) -> bool {
                let m = t.get_center_of_circumcircle();
                (m.x - t.p1.x) * (m.x - t.p1.x) + (m.y - t.p1.y) * (m.y - t.p1.y) == (m.x - t.p3.x) * (m.x - t.p3.x) + (m.y - t.p3.y) * (m.y - t.p3.y)
            }
            // the first triangle is positively oriented
            #[law]
            fn all_encompassing_oriented(e: Extent<Point2d>) -> bool {
                let t = TriangleData::<Point2d>::all_encompassing(&e);
                let w = e.max.x - e.min.x;
                let h = e.max.y - e.min.y;
                (t.p2.x - t.p1.x) * (t.p3.y - t.p1.y) - (t.p2.y - t.p1.y) * (t.p3.x - t.p1.x) == 15.0 * w * h
            }
            impl TriangleData<Point3d> {
                #[spec(opaque(generic_get_line_intersection_type))]
                fn get_line_intersection_type(&self, q1: Point3d, q2: Point3d) -> IntersectionType {
                    match self.generic_get_line_intersection_type(q1, q2) {
                        Ok(t) => t,
                        Err(_) => {
                            let lifted = TriangleData { p1: PrecisionPoint3d::new(self.p1), p2: PrecisionPoint3d::new(self.p2), p3: PrecisionPoint3d::new(self.p3) };
                            lifted.generic_get_line_intersection_type(PrecisionPoint3d::new(q1), PrecisionPoint3d::new(q2)).unwrap()
                        }
                    }
                }
                #[spec(opaque(closest_point))]
                fn distance_to_point(&self, p: Point3d) -> Float {
                    (self.closest_point(p) - p).length()
                }
            }
        }
        mod tetrahedron {
            impl DTetra for Tetrahedron {
                #[spec]
                fn points(&self) -> Self::PointsIter {
                    [self.p1, self.p2, self.p3, self.p4].into_iter()
                }
                #[spec]
                fn faces(&self) -> Self::FacesIter<'_> {
                    [&self.f1, &self.f2, &self.f3, &self.f4].into_iter()
                }
                #[spec]
                fn contains_point(&self, p: PointIndex) -> bool {
                    p == self.p1 || p == self.p2 || p == self.p3 || p == self.p4
                }
            }
            // the point is on the side of each face where the opposite corner is
            #[spec(opaque(try_from_val))]
            fn points_are_on_same_side_of_triangle<P>(p1: P, p2: P, triangle: (P, P, P)) -> Result<bool, PrecisionError> {
                let (a, b, c) = triangle;
                let normal = (b - a.clone()).cross(&(c - a.clone()));
                let s1 = Sign::try_from_val(&(p1 - a.clone()).dot(normal.clone()), TETRAHEDRON_POINTS_ON_SAME_SIDE_EPSILON)?;
                let s2 = Sign::try_from_val(&(p2 - a).dot(normal), TETRAHEDRON_POINTS_ON_SAME_SIDE_EPSILON)?;
                match (s1, s2) {
                    (Sign::Zero, _) => panic!(),
                    (_, Sign::Zero) => panic!(),
                    (Sign::Positive, Sign::Positive) => Ok(true),
                    (Sign::Negative, Sign::Negative) => Ok(true),
                    _ => Ok(false),
                }
            }
            impl TetrahedronData {
                #[spec(opaque(points_are_on_same_side_of_triangle))]
                fn f64_contains(&self, point: Point3d) -> Result<bool, PrecisionError> {
                    let (a, b, c, d) = (self.p1, self.p2, self.p3, self.p4);
                    if !points_are_on_same_side_of_triangle(point, a, (b, c, d))? {
                        return Ok(false);
                    }
                    if !points_are_on_same_side_of_triangle(point, b, (a, c, d))? {
                        return Ok(false);
                    }
                    if !points_are_on_same_side_of_triangle(point, c, (a, b, d))? {
                        return Ok(false);
                    }
                    points_are_on_same_side_of_triangle(point, d, (a, b, c))
                }
                #[spec(opaque(points_are_on_same_side_of_triangle))]
                fn arbitrary_precision_contains(&self, point: Point3d) -> bool {
                    let a = PrecisionPoint3d::new(self.p1);
                    let b = PrecisionPoint3d::new(self.p2);
                    let c = PrecisionPoint3d::new(self.p3);
                    let d = PrecisionPoint3d::new(self.p4);
                    let p = PrecisionPoint3d::new(point);
                    points_are_on_same_side_of_triangle(p, a, (b, c, d)).unwrap()
                        && points_are_on_same_side_of_triangle(p, b, (a, c, d)).unwrap()
                        && points_are_on_same_side_of_triangle(p, c, (a, b, d)).unwrap()
                        && points_are_on_same_side_of_triangle(p, d, (a, b, c)).unwrap()
                }
                #[spec(opaque(try_from_val), keep_abs)]
                fn circumcircle_contains_float(&self, point: Point3d) -> Result<bool, PrecisionError> {
                    let a = self.p1 - point;
                    let b = self.p2 - point;
                    let c = self.p3 - point;
                    let d = self.p4 - point;
                    let det2 = |p: Point3d, q: Point3d| p.x * q.y - q.x * p.y;
                    let bound2 = |p: Point3d, q: Point3d| (p.x * q.y).abs() + (q.x * p.y).abs();
                    let det3 = |p: Point3d, q: Point3d, r: Point3d| p.z * det2(q, r) - q.z * det2(p, r) + r.z * det2(p, q);
                    let bound3 = |p: Point3d, q: Point3d, r: Point3d| p.z.abs() * bound2(q, r) + q.z.abs() * bound2(p, r) + r.z.abs() * bound2(p, q);
                    let sq = |p: Point3d| p.x * p.x + p.y * p.y + p.z * p.z;
                    let x = sq(a) * det3(b, c, d) - sq(b) * det3(a, c, d) + sq(c) * det3(a, b, d) - sq(d) * det3(a, b, c);
                    let size = sq(a) * bound3(b, c, d) + sq(b) * bound3(a, c, d) + sq(c) * bound3(a, b, d) + sq(d) * bound3(a, b, c);
                    Ok(Sign::try_from_val(&x, 1.0e-14 * size)? == Sign::Positive)
                }
                #[spec(opaque(solve_3x4_system_of_equations_error))]
                fn get_center_of_circumcircle_float(&self) -> Result<Point3d, PrecisionError> {
                    let row = |p: Point3d| {
                        let d = p - self.p1;
                        [d.x, d.y, d.z, 0.5 * (d.x * d.x + d.y * d.y + d.z * d.z)]
                    };
                    let x = solve_3x4_system_of_equations_error([row(self.p2), row(self.p3), row(self.p4)])?;
                    Ok(Point3d::new(x[0] + self.p1.x, x[1] + self.p1.y, x[2] + self.p1.z))
                }
            }
            impl DTetraData for TetrahedronData {
                #[spec(opaque(Extent::from_points))]
                fn extent(&self) -> Extent<Point3d> {
                    Extent::from_points([self.p1, self.p2, self.p3, self.p4].into_iter()).unwrap()
                }
                #[spec(opaque(f64_contains, arbitrary_precision_contains))]
                fn contains(&self, point: Point3d) -> bool {
                    match self.f64_contains(point) {
                        Ok(inside) => inside,
                        Err(_) => self.arbitrary_precision_contains(point),
                    }
                }
                #[spec(opaque(f64_contains, arbitrary_precision_contains, TriangleData::distance_to_point))]
                fn distance_to_point(&self, p: Point3d) -> Float {
                    let inside = match self.f64_contains(p) {
                        Ok(inside) => inside,
                        Err(_) => self.arbitrary_precision_contains(p),
                    };
                    if inside {
                        return 0.0;
                    }
                    let face = |a: Point3d, b: Point3d, c: Point3d| TriangleData { p1: a, p2: b, p3: c }.distance_to_point(p);
                    let (a, b, c, d) = (self.p1, self.p2, self.p3, self.p4);
                    face(a, b, c).min(face(b, c, d)).min(face(c, d, a)).min(face(d, a, b))
                }
                #[spec(opaque(circumcircle_contains_float))]
                fn circumcircle_contains(&self, point: Point3d) -> bool {
                    match self.circumcircle_contains_float(point) {
                        Ok(inside) => inside,
                        Err(_) => {
                            let row = |p: Point3d| [1.0, p.x, p.y, p.z, p.x * p.x + p.y * p.y + p.z * p.z];
                            let m = [row(self.p1), row(self.p2), row(self.p3), row(self.p4), row(point)];
                            let sign = Sign::of(determinant5x5(lift_matrix(m)));
                            match sign {
                                Sign::Zero => panic!(),
                                Sign::Negative => true,
                                Sign::Positive => false,
                            }
                        }
                    }
                }
            }
        }
    }
}
mod units {
    mod helpers {
        impl<const D: Dimension> Quantity<MVec, D> {
            #[spec]
            fn from_xy(x: Quantity<f64, D>, y: Quantity<f64, D>) -> Self {
                MVec::new(x, y, 0.0)
            }
            #[spec(feature("2d"), target("units::helpers::Quantity::from_xy"))]
            fn from_xy_2d(x: Quantity<f64, D>, y: Quantity<f64, D>) -> Self {
                MVec::new(x, y)
            }
        }
    }
}
