mod sweep {
    mod direction {
        fn close(a: f64, b: f64) -> bool {
            a - b < 0.00002 && b - a < 0.00002
        }
        // exactly num vectors of length one
        fn unit_vectors(num: usize) -> bool {
            let d = Directions::from_num(num).directions;
            let mut units = true;
            for v in d.iter() {
                units = units && close(v.x * v.x + v.y * v.y + v.z * v.z, 1.0);
            }
            d.len() == num && units
        }
        fn balanced(num: usize) -> bool {
            let d = Directions::from_num(num).directions;
            let mut x = 0.0;
            let mut y = 0.0;
            let mut z = 0.0;
            for v in d.iter() {
                x += v.x;
                y += v.y;
                z += v.z;
            }
            close(x, 0.0) && close(y, 0.0) && close(z, 0.0)
        }
        // every pair of directions is separated
        fn distinct(num: usize) -> bool {
            let d = Directions::from_num(num).directions;
            let mut ok = true;
            for i in 0..num {
                for j in 0..i {
                    let (dx, dy, dz) = (d[i].x - d[j].x, d[i].y - d[j].y, d[i].z - d[j].z);
                    ok = ok && dx * dx + dy * dy + dz * dz > 0.01;
                }
            }
            ok
        }
        #[law(feature("3d"), unroll(100))]
        fn one() -> bool {
            unit_vectors(1)
        }
        #[law(feature("3d"), unroll(100))]
        fn sixteen() -> bool {
            unit_vectors(16)
        }
        #[law(feature("3d"), unroll(100))]
        fn sixteen_balanced() -> bool {
            balanced(16)
        }
        #[law(feature("3d"), unroll(100))]
        fn sixteen_distinct() -> bool {
            distinct(16)
        }
        #[law(feature("3d"), unroll(100))]
        fn twenty_one() -> bool {
            unit_vectors(21)
        }
        #[law(feature("3d"), unroll(100))]
        fn twenty_one_balanced() -> bool {
            balanced(21)
        }
        #[law(feature("3d"), unroll(100))]
        fn twenty_one_distinct() -> bool {
            distinct(21)
        }
        #[law(feature("3d"), unroll(100))]
        fn thirty_two() -> bool {
            unit_vectors(32)
        }
        #[law(feature("3d"), unroll(100))]
        fn thirty_two_balanced() -> bool {
            balanced(32)
        }
        #[law(feature("3d"), unroll(100))]
        fn thirty_two_distinct() -> bool {
            distinct(32)
        }
        #[law(feature("3d"), unroll(100))]
        fn sixty_four() -> bool {
            unit_vectors(64)
        }
        #[law(feature("3d"), unroll(100))]
        fn sixty_four_balanced() -> bool {
            balanced(64)
        }
        #[law(feature("3d"), unroll(100))]
        fn sixty_four_distinct() -> bool {
            distinct(64)
        }
        #[law(feature("3d"), unroll(100))]
        fn eighty_four() -> bool {
            unit_vectors(84)
        }
        #[law(feature("3d"), unroll(100))]
        fn eighty_four_balanced() -> bool {
            balanced(84)
        }
        #[law(feature("3d"), unroll(100))]
        fn eighty_four_distinct() -> bool {
            distinct(84)
        }

        // any other number is refused
        #[law(feature("3d"), unroll(100))]
        fn supported_numbers(num: usize) -> bool {
            let d = Directions::from_num(num);
            num == 1 || num == 16 || num == 21 || num == 32 || num == 64 || num == 84
        }
        impl Directions {
            #[spec(feature("3d"))]
            fn enumerate(&self) -> impl Iterator<Item = (DirectionIndex, &Direction)> {
                self.directions.iter().enumerate().map(|(i, dir)| (DirectionIndex(i), dir))
            }
            #[spec]
            fn len(&self) -> usize {
                self.directions.len()
            }
            // two dimensions: num angles, equally spaced over the circle
            #[spec(feature("2d"))]
            fn from_num(num: usize) -> Self {
                let mut directions = vec![];
                for i in 0..num {
                    let angle = 2.0 * PI * (0.125 + (i as f64) / (num as f64));
                    directions.push(Direction(MVec::new(angle.cos(), angle.sin())));
                }
                Directions { directions }
            }
        }
        impl std::ops::Index<DirectionIndex> for Directions {
            #[spec]
            fn index(&self, index: DirectionIndex) -> &Direction {
                &self.directions[index.0]
            }
        }
        impl From<&DirectionsSpecification> for Directions {
            #[spec(opaque(from_num))]
            fn from(value: &DirectionsSpecification) -> Self {
                match value {
                    DirectionsSpecification::Num(num) => Directions::from_num(*num),
                    DirectionsSpecification::Explicit(directions) => {
                        let mut v = vec![];
                        for dir in directions.iter() {
                            v.push(Direction(dir.clone().normalize()));
                        }
                        Directions { directions: v }
                    }
                }
            }
        }
    }
}
