mod peano_hilbert {
    #[spec(known("toint_u32", "narrow_u32"))]
    fn get_integer_position_2d(pos: DVec2) -> (u64, u64) {
        let n = NUM_SUBDIVISIONS_2D as f64;
        ((n * pos.x) as u64, (n * pos.y) as u64)
    }
    #[spec(known("toint_u32", "narrow_u32"))]
    fn get_integer_position_3d(pos: DVec3) -> (u128, u128, u128) {
        let n = NUM_SUBDIVISIONS_3D as f64;
        ((n * pos.x) as u128, (n * pos.y) as u128, (n * pos.z) as u128)
    }
    #[law]
    fn key_bits() -> bool {
        NUM_BITS_PER_DIMENSION_2D == 32 && NUM_BITS_PER_DIMENSION_3D == 42 && NUM_SUBDIVISIONS_2D == 4294967296 && NUM_SUBDIVISIONS_3D == 4398046511104
    }
    impl PeanoKey2d {
        #[spec(opaque(from_scaled_vec))]
        fn from_point_and_min_max(pos: DVec2, min: DVec2, max: DVec2) -> Self {
            // one thousandth of the box on either side
            let side = max - min;
            let corner = min - 0.001 * side;
            Self::from_scaled_vec((pos - corner) / (1.002 * side))
        }
        #[spec(opaque(get_integer_position_2d, from_integer_pos))]
        fn from_scaled_vec(pos: DVec2) -> Self {
            Self::from_integer_pos(get_integer_position_2d(pos))
        }
        #[spec(known("narrow_u32"))]
        fn from_integer_pos((mut x, mut y): (u64, u64)) -> Self {
            let mut key = 0;
            for level in 0..32 {
                let side = 1 << (31 - level);
                let right = x & side != 0;
                let upper = y & side != 0;
                // quadrants in the order lower left, upper left, upper right, lower right
                let quadrant = match (right, upper) {
                    (false, false) => 0,
                    (false, true) => 1,
                    (true, true) => 2,
                    (true, false) => 3,
                };
                key += quadrant * side * side;
                if !upper {
                    let (a, b) = if right { (4294967295 - x, 4294967295 - y) } else { (x, y) };
                    x = b;
                    y = a;
                }
            }
            PeanoKey2d(key)
        }
    }
    impl PeanoKey3d {
        #[spec(opaque(from_scaled_vec))]
        fn from_point_and_min_max(pos: DVec3, min: DVec3, max: DVec3) -> Self {
            let side = max - min;
            let corner = min - 0.001 * side;
            Self::from_scaled_vec((pos - corner) / (1.002 * side))
        }
        #[spec(opaque(get_integer_position_3d, from_integer_pos))]
        fn from_scaled_vec(pos: DVec3) -> Self {
            Self::from_integer_pos(get_integer_position_3d(pos))
        }
        #[spec(known("narrow_u32"))]
        fn from_integer_pos((x, y, z): (u128, u128, u128)) -> Self {
            let mut state: usize = 0;
            let mut key: u128 = 0;
            for level in 0..42 {
                let side = 1 << (41 - level);
                let octant = (if x & side != 0 { 4 } else { 0 }) + (if y & side != 0 { 2 } else { 0 }) + (if z & side != 0 { 1 } else { 0 });
                key = 8 * key + SUBPIX_TABLE[state][octant];
                state = ROTATION_TABLE[state][octant];
            }
            PeanoKey3d(key)
        }
    }
    // the octant visited k-th in orientation r
    fn octant_at(r: usize, k: usize) -> usize {
        let mut found = 8;
        for p in 0..8 {
            if SUBPIX_TABLE[r][p] == k {
                found = p;
            }
        }
        found
    }
    // the orientations that occur, starting from the first
    fn occurring() -> Vec<usize> {
        let mut seen = vec![false; 48];
        let mut found = vec![0];
        seen[0] = true;
        for k in 0..48 {
            if k < found.len() {
                for p in 0..8 {
                    let next = ROTATION_TABLE[found[k]][p];
                    if !seen[next] {
                        seen[next] = true;
                        found.push(next);
                    }
                }
            }
        }
        found
    }
    // each octant has its own place in the order
    #[law(unroll(64))]
    fn octants_are_permuted() -> bool {
        let mut ok = true;
        for r in occurring() {
            for k in 0..8 {
                ok = ok && octant_at(r, k) < 8;
            }
        }
        ok
    }
    #[law(unroll(64))]
    fn orientations_exist() -> bool {
        let mut ok = true;
        for r in occurring() {
            ok = ok && r < ROTATION_TABLE.len() && r < SUBPIX_TABLE.len();
        }
        ok
    }
    // octants visited one after the other share a face
    #[law(unroll(64))]
    fn consecutive_octants_touch() -> bool {
        let mut ok = true;
        for r in occurring() {
            for k in 0..7 {
                let d = octant_at(r, k) ^ octant_at(r, k + 1);
                ok = ok && (d == 1 || d == 2 || d == 4);
            }
        }
        ok
    }
    // the curve enters and leaves through the same corner at every level
    #[law(unroll(64))]
    fn corners_are_kept() -> bool {
        let mut ok = true;
        for r in occurring() {
            let first = octant_at(r, 0);
            let last = octant_at(r, 7);
            ok = ok && octant_at(ROTATION_TABLE[r][first], 0) == first && octant_at(ROTATION_TABLE[r][last], 7) == last;
        }
        ok
    }
    // the corner where it leaves an octant touches the one where it enters the next
    #[law(unroll(64))]
    fn consecutive_octants_join() -> bool {
        let mut ok = true;
        for r in occurring() {
            let mut a = octant_at(r, 0);
            for k in 0..7 {
                let b = octant_at(r, k + 1);
                let d = a ^ b;
                let leave = octant_at(ROTATION_TABLE[r][a], 7);
                let enter = octant_at(ROTATION_TABLE[r][b], 0);
                ok = ok && (leave ^ enter) == d && (leave & d) == (b & d);
                a = b;
            }
        }
        ok
    }
    // keys are ordered as the numbers they hold
    #[law]
    fn order_2d(a: u64, b: u64) -> bool {
        (PeanoKey2d(a) < PeanoKey2d(b)) == (a < b) && (PeanoKey2d(a) == PeanoKey2d(b)) == (a == b) && (PeanoKey2d(a).cmp(&PeanoKey2d(b)) == a.cmp(&b))
    }
    #[law]
    fn order_3d(a: u128, b: u128) -> bool {
        (PeanoKey3d(a) < PeanoKey3d(b)) == (a < b) && (PeanoKey3d(a) == PeanoKey3d(b)) == (a == b) && (PeanoKey3d(a).cmp(&PeanoKey3d(b)) == a.cmp(&b))
    }
}
