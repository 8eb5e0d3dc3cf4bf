mod extent {
    impl<P> Extent<P> {
        #[spec]
        fn from_min_max(min: P, max: P) -> Extent<P> {
            Extent { min, max, center: 0.5 * min + 0.5 * max }
        }
        #[spec]
        fn center(&self) -> P {
            self.center
        }
        #[spec]
        fn side_lengths(&self) -> P {
            self.max - self.min
        }
        #[spec]
        fn max_side_length(&self) -> f64 {
            (self.max - self.min).max_element()
        }
        #[spec]
        fn from_points(points: impl Iterator<Item = P>) -> Option<Extent<P>> {
            let first = points.next()?;
            let mut lo = first;
            let mut hi = first;
            for p in points {
                lo = P::min(lo, p);
                hi = P::max(hi, p);
            }
            Some(Extent { min: lo, max: hi, center: (lo + hi) / 2.0 })
        }
    }
    #[law]
    fn periodic_images<P>(min: P, max: P) -> bool {
        // an extent is as from_min_max makes it: its centre is that of its corners
        let e = Extent { min, max, center: (min + max) / 2.0 }.including_periodic_images();
        e.min == 2.0 * min - max && e.max == 2.0 * max - min && e.center == (min + max) / 2.0
    }
    #[spec]
    fn get_extent_from_min_and_max_reduce<P>(mut vs: impl Iterator<Item = P>, min: fn(P, P) -> P, max: fn(P, P) -> P) -> Option<Extent<P>> {
        let first = vs.next()?;
        let mut lo = first;
        let mut hi = first;
        for p in vs {
            lo = min(lo, p);
            hi = max(hi, p);
        }
        Some(Extent { min: lo, max: hi, center: (lo + hi) / 2.0 })
    }
}
mod domain {
    mod extent {
        impl Extent2d {
            #[spec]
            fn from_positions<'a>(positions: impl Iterator<Item = &'a Vec2Length>) -> Option<Self> {
                let mut corners: Option<(Vec2Length, Vec2Length)> = None;
                let mut lo = None;
                let mut hi = None;
                for p in positions {
                    lo = match lo {
                        None => Some(*p),
                        Some(l) => Some(Vec2Length::min(l, *p)),
                    };
                    hi = match hi {
                        None => Some(*p),
                        Some(h) => Some(Vec2Length::max(h, *p)),
                    };
                }
                let lo = lo?;
                let hi = hi?;
                Some(Self { min: lo, max: hi, center: (lo + hi) / 2.0 })
            }
            #[spec]
            fn get_all_encompassing<'a>(extent: impl Iterator<Item = &'a Self>) -> Option<Self> {
                Self::from_positions(extent.flat_map(|e: &Self| [&e.min, &e.max].into_iter()))
            }
            #[spec]
            fn cube_from_side_length(side_length: Length) -> Self {
                let z = Length::zero();
                Self {
                    min: Vec2Length::new(z, z),
                    max: Vec2Length::new(side_length, side_length),
                    center: Vec2Length::new(side_length / 2.0, side_length / 2.0),
                }
            }
            #[spec]
            fn cube_from_side_length_centered(side_length: Length) -> Self {
                let h = side_length / 2.0;
                Self { min: Vec2Length::new(-h, -h), max: Vec2Length::new(h, h), center: Vec2Length::new(0.0 * h, 0.0 * h) }
            }
            #[spec]
            fn contains(&self, pos: &Vec2Length) -> bool {
                !(pos.x() < self.min.x() || pos.x() > self.max.x() || pos.y() < self.min.y() || pos.y() > self.max.y())
            }
            #[spec]
            fn max_side_length(&self) -> Length {
                (self.max.x() - self.min.x()).max(self.max.y() - self.min.y())
            }
            #[spec]
            fn volume(&self) -> Volume2D {
                (self.max.x() - self.min.x()) * (self.max.y() - self.min.y())
            }
        }
        impl Extent3d {
            #[spec]
            fn from_positions<'a>(positions: impl Iterator<Item = &'a Vec3Length>) -> Option<Self> {
                let mut lo = None;
                let mut hi = None;
                for p in positions {
                    lo = match lo {
                        None => Some(*p),
                        Some(l) => Some(Vec3Length::min(l, *p)),
                    };
                    hi = match hi {
                        None => Some(*p),
                        Some(h) => Some(Vec3Length::max(h, *p)),
                    };
                }
                let lo = lo?;
                let hi = hi?;
                Some(Self { min: lo, max: hi, center: (lo + hi) / 2.0 })
            }
            #[spec]
            fn get_all_encompassing<'a>(extent: impl Iterator<Item = &'a Self>) -> Option<Self> {
                Self::from_positions(extent.flat_map(|e: &Self| [&e.min, &e.max].into_iter()))
            }
            #[spec]
            fn cube_from_side_length(side_length: Length) -> Self {
                let z = Length::zero();
                let s = side_length;
                Self {
                    min: Vec3Length::new(z, z, z),
                    max: Vec3Length::new(s, s, s),
                    center: Vec3Length::new(s / 2.0, s / 2.0, s / 2.0),
                }
            }
            #[spec]
            fn cube_from_side_length_centered(side_length: Length) -> Self {
                let h = side_length / 2.0;
                let z = Length::zero();
                Self { min: Vec3Length::new(-h, -h, -h), max: Vec3Length::new(h, h, h), center: Vec3Length::new(z, z, z) }
            }
            #[spec]
            fn contains(&self, pos: &Vec3Length) -> bool {
                let inside = |v: Length, lo: Length, hi: Length| v >= lo && v <= hi;
                inside(pos.x(), self.min.x(), self.max.x())
                    && inside(pos.y(), self.min.y(), self.max.y())
                    && inside(pos.z(), self.min.z(), self.max.z())
            }
            #[spec]
            fn max_side_length(&self) -> Length {
                let d = self.max - self.min;
                d.x().max(d.y()).max(d.z())
            }
            #[spec]
            fn volume(&self) -> Volume3D {
                let d = self.max - self.min;
                d.x() * d.y() * d.z()
            }
            #[spec]
            fn squared_distance_to_pos(&self, pos: &VecLength) -> Area {
                let z = Length::zero();
                let d = |v: Length, lo: Length, hi: Length| {
                    let a = z.max(lo - v).max(v - hi);
                    a * a
                };
                d(pos.x(), self.min.x(), self.max.x()) + d(pos.y(), self.min.y(), self.max.y()) + d(pos.z(), self.min.z(), self.max.z())
            }
        }
        impl VExtent<MVec2> {
            #[spec]
            fn cube_around_sphere(center: MVec2, radius: f64) -> Self {
                let r = MVec2::new(radius, radius);
                Self { center, min: center - r, max: center + r }
            }
            #[spec]
            fn contains(&self, pos: &MVec2) -> bool {
                pos.x >= self.min.x && pos.x <= self.max.x && pos.y >= self.min.y && pos.y <= self.max.y
            }
            #[spec]
            fn contains_extent(&self, other: &Self) -> bool {
                other.min.x >= self.min.x
                    && other.min.x <= self.max.x
                    && other.min.y >= self.min.y
                    && other.min.y <= self.max.y
                    && other.max.x >= self.min.x
                    && other.max.x <= self.max.x
                    && other.max.y >= self.min.y
                    && other.max.y <= self.max.y
            }
        }
        impl VExtent<MVec3> {
            #[spec]
            fn cube_around_sphere(center: MVec3, radius: f64) -> Self {
                let r = MVec3::new(radius, radius, radius);
                Self { center, min: center - r, max: center + r }
            }
            #[spec]
            fn contains(&self, pos: &MVec3) -> bool {
                let inside = |v: f64, lo: f64, hi: f64| v >= lo && v <= hi;
                inside(pos.x, self.min.x, self.max.x) && inside(pos.y, self.min.y, self.max.y) && inside(pos.z, self.min.z, self.max.z)
            }
            #[spec]
            fn contains_extent(&self, other: &Self) -> bool {
                let inside = |p: MVec3| {
                    p.x >= self.min.x && p.x <= self.max.x && p.y >= self.min.y && p.y <= self.max.y && p.z >= self.min.z && p.z <= self.max.z
                };
                inside(other.min) && inside(other.max)
            }
        }
    }
}
