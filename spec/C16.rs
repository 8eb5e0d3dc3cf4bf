mod simulation_box {
    impl SimulationBox {
        #[spec]
        fn periodic_wrap(&self, pos: VecLength) -> VecLength {
            let wrap = |v: Length, min: Length, max: Length| min + (v - min).rem_euclid(max - min);
            let (min, max) = (self.0.min, self.0.max);
            VecLength::new(wrap(pos.x(), min.x(), max.x()), wrap(pos.y(), min.y(), max.y()), wrap(pos.z(), min.z(), max.z()))
        }
        #[spec(feature("2d"), target("simulation_box::SimulationBox::periodic_wrap"))]
        fn periodic_wrap_2d(&self, pos: VecLength) -> VecLength {
            let wrap = |v: Length, min: Length, max: Length| min + (v - min).rem_euclid(max - min);
            let (min, max) = (self.0.min, self.0.max);
            VecLength::new(wrap(pos.x(), min.x(), max.x()), wrap(pos.y(), min.y(), max.y()))
        }
        #[spec(opaque(periodic_distance_vec))]
        fn periodic_distance(&self, p1: &VecLength, p2: &VecLength) -> Length {
            self.periodic_distance_vec(p1, p2).length()
        }
        #[spec]
        fn new(extent: Extent) -> Self {
            SimulationBox(extent)
        }
        #[spec]
        fn iter_periodic_images(&self, point: VecLength) -> Vec<(PeriodicWrapType3d, VecLength)> {
            let l = self.0.max - self.0.min;
            let shifts = [(WrapType::NoWrap, 0.0), (WrapType::Minus, -1.0), (WrapType::Plus, 1.0)];
            let mut images = vec![];
            for (x, dx) in shifts {
                for (y, dy) in shifts {
                    for (z, dz) in shifts {
                        images.push((
                            PeriodicWrapType3d { x, y, z },
                            VecLength::new(point.x() + dx * l.x(), point.y() + dy * l.y(), point.z() + dz * l.z()),
                        ));
                    }
                }
            }
            images.into_iter()
        }
        #[spec(feature("2d"), target("simulation_box::SimulationBox::iter_periodic_images"))]
        fn iter_periodic_images_2d(&self, point: VecLength) -> Vec<(PeriodicWrapType2d, VecLength)> {
            let l = self.0.max - self.0.min;
            let shifts = [(WrapType::NoWrap, 0.0), (WrapType::Minus, -1.0), (WrapType::Plus, 1.0)];
            let mut images = vec![];
            for (x, dx) in shifts {
                for (y, dy) in shifts {
                    images.push((PeriodicWrapType2d { x, y }, VecLength::new(point.x() + dx * l.x(), point.y() + dy * l.y())));
                }
            }
            images.into_iter()
        }
    }
    fn near(d: Length, l: Length) -> bool {
        -0.5 * l <= d && d <= 0.5 * l
    }
    fn shifted(d: Length, r: Length, l: Length) -> bool {
        d == r || d == r + l || d == r - l
    }
    // each component of the periodic difference lies within half a box length
    #[law]
    fn difference_x_near(b: SimulationBox, p: VecLength, q: VecLength) -> bool {
        let l = b.0.max.x() - b.0.min.x();
        let r = p.x() - q.x();
        l <= 0.0 || r > l || r < -l || near(b.periodic_distance_vec(&p, &q).x(), l)
    }
    #[law]
    fn difference_y_near(b: SimulationBox, p: VecLength, q: VecLength) -> bool {
        let l = b.0.max.y() - b.0.min.y();
        let r = p.y() - q.y();
        l <= 0.0 || r > l || r < -l || near(b.periodic_distance_vec(&p, &q).y(), l)
    }
    #[law]
    fn difference_z_near(b: SimulationBox, p: VecLength, q: VecLength) -> bool {
        let l = b.0.max.z() - b.0.min.z();
        let r = p.z() - q.z();
        l <= 0.0 || r > l || r < -l || near(b.periodic_distance_vec(&p, &q).z(), l)
    }
    // and is the difference up to one box length of that axis
    #[law]
    fn difference_x_shifted(b: SimulationBox, p: VecLength, q: VecLength) -> bool {
        shifted(b.periodic_distance_vec(&p, &q).x(), p.x() - q.x(), b.0.max.x() - b.0.min.x())
    }
    #[law]
    fn difference_y_shifted(b: SimulationBox, p: VecLength, q: VecLength) -> bool {
        shifted(b.periodic_distance_vec(&p, &q).y(), p.y() - q.y(), b.0.max.y() - b.0.min.y())
    }
    #[law]
    fn difference_z_shifted(b: SimulationBox, p: VecLength, q: VecLength) -> bool {
        shifted(b.periodic_distance_vec(&p, &q).z(), p.z() - q.z(), b.0.max.z() - b.0.min.z())
    }
    #[law(feature("2d"))]
    fn difference_x_near_2d(b: SimulationBox, p: VecLength, q: VecLength) -> bool {
        let l = b.0.max.x() - b.0.min.x();
        let r = p.x() - q.x();
        l <= 0.0 || r > l || r < -l || near(b.periodic_distance_vec(&p, &q).x(), l)
    }
    #[law(feature("2d"))]
    fn difference_y_near_2d(b: SimulationBox, p: VecLength, q: VecLength) -> bool {
        let l = b.0.max.y() - b.0.min.y();
        let r = p.y() - q.y();
        l <= 0.0 || r > l || r < -l || near(b.periodic_distance_vec(&p, &q).y(), l)
    }
    #[law(feature("2d"))]
    fn difference_x_shifted_2d(b: SimulationBox, p: VecLength, q: VecLength) -> bool {
        shifted(b.periodic_distance_vec(&p, &q).x(), p.x() - q.x(), b.0.max.x() - b.0.min.x())
    }
    #[law(feature("2d"))]
    fn difference_y_shifted_2d(b: SimulationBox, p: VecLength, q: VecLength) -> bool {
        shifted(b.periodic_distance_vec(&p, &q).y(), p.y() - q.y(), b.0.max.y() - b.0.min.y())
    }
    impl PeriodicWrapType3d {
        #[spec]
        fn no_wrap() -> Self {
            PeriodicWrapType3d { x: WrapType::NoWrap, y: WrapType::NoWrap, z: WrapType::NoWrap }
        }
        #[spec]
        fn is_periodic(&self) -> bool {
            !(self.x == WrapType::NoWrap && self.y == WrapType::NoWrap && self.z == WrapType::NoWrap)
        }
    }
    impl PeriodicWrapType2d {
        #[spec]
        fn no_wrap() -> Self {
            PeriodicWrapType2d { x: WrapType::NoWrap, y: WrapType::NoWrap }
        }
        #[spec]
        fn is_periodic(&self) -> bool {
            !(self.x == WrapType::NoWrap && self.y == WrapType::NoWrap)
        }
    }
    #[spec(opaque(make_non_cosmological))]
    fn get_simulation_box(box_: &SimulationBoxParameters, cosmology: &Cosmology) -> SimulationBox {
        let l = match box_ {
            SimulationBoxParameters::Comoving(l) => l.make_non_cosmological(cosmology),
            SimulationBoxParameters::Normal(l) => *l,
        };
        SimulationBox(Extent::cube_from_side_length(l))
    }
}
