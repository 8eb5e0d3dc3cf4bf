mod sweep {
    mod direction {
        // every unit axis is of this form for some angles phi and theta
        fn unit(phi: f64, theta: f64) -> MVec {
            MVec::new(phi.cos() * theta.sin(), phi.sin() * theta.sin(), theta.cos())
        }
        fn column_dot(m: [[f64; 3]; 3], i: usize, j: usize) -> f64 {
            m[0][i] * m[0][j] + m[1][i] * m[1][j] + m[2][i] * m[2][j]
        }
        fn det(m: [[f64; 3]; 3]) -> f64 {
            m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1])
                - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0])
                + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0])
        }
        #[law]
        fn orthonormal_columns(phi: f64, theta: f64, angle: f64) -> bool {
            let m = get_rotation_matrix(unit(phi, theta), angle);
            column_dot(m, 0, 0) == 1.0
                && column_dot(m, 1, 1) == 1.0
                && column_dot(m, 2, 2) == 1.0
                && column_dot(m, 0, 1) == 0.0
                && column_dot(m, 0, 2) == 0.0
                && column_dot(m, 1, 2) == 0.0
        }
        #[law]
        fn determinant_one(phi: f64, theta: f64, angle: f64) -> bool {
            det(get_rotation_matrix(unit(phi, theta), angle)) == 1.0
        }
        #[law]
        fn axis_is_fixed(phi: f64, theta: f64, angle: f64) -> bool {
            let a = unit(phi, theta);
            let mut v = unit(phi, theta);
            multiply_by_matrix(&mut v, &get_rotation_matrix(a, angle));
            v.x == a.x && v.y == a.y && v.z == a.z
        }
        // v cos + (a x v) sin + a (a.v) (1 - cos), with the original components only
        #[law]
        fn right_handed_rotation(phi: f64, theta: f64, angle: f64, v: MVec) -> bool {
            let a = unit(phi, theta);
            let (vx, vy, vz) = (v.x, v.y, v.z);
            let (c, s) = (angle.cos(), angle.sin());
            let d = (a.x * vx + a.y * vy + a.z * vz) * (1.0 - c);
            let mut r = MVec::new(vx, vy, vz);
            multiply_by_matrix(&mut r, &get_rotation_matrix(a, angle));
            r.x == vx * c + (a.y * vz - a.z * vy) * s + a.x * d
                && r.y == vy * c + (a.z * vx - a.x * vz) * s + a.y * d
                && r.z == vz * c + (a.x * vy - a.y * vx) * s + a.z * d
        }
        #[law]
        fn applies_the_matrix(v: MVec, m: [[f64; 3]; 3]) -> bool {
            let (x, y, z) = (v.x, v.y, v.z);
            let mut r = v;
            multiply_by_matrix(&mut r, &m);
            r.x == m[0][0] * x + m[0][1] * y + m[0][2] * z
                && r.y == m[1][0] * x + m[1][1] * y + m[1][2] * z
                && r.z == m[2][0] * x + m[2][1] * y + m[2][2] * z
        }
        #[law(known("m:gen_range", "m:gen_range!0"))]
        fn random_matrix_is_a_rotation(rng: &mut StdRng) -> bool {
            let m = get_random_rotation_matrix(rng);
            column_dot(m, 0, 0) == 1.0
                && column_dot(m, 1, 1) == 1.0
                && column_dot(m, 2, 2) == 1.0
                && column_dot(m, 0, 1) == 0.0
                && column_dot(m, 0, 2) == 0.0
                && column_dot(m, 1, 2) == 0.0
                && det(m) == 1.0
        }
        // the rate of a direction goes to the new direction most aligned with it, and none is lost
        #[spec]
        fn kernel_f(d1: &Direction, dirs: &[Direction]) -> Vec<f64> {
            let best = dirs.iter().map(|d2| OrderedFloat(1.0 + d1.dot(*d2))).enumerate().max_by_key(|(_, v)| *v).unwrap().0;
            let mut out = vec![];
            for i in 0..dirs.len() {
                out.push(if i == best { 1.0 } else { 0.0 });
            }
            out
        }
        // one rotation for all directions; everything stored per direction follows
        #[spec(opaque(get_random_rotation_matrix, remap), unordered)]
        fn rotate_directions_system(mut solver: NonSendMut<Option<Sweep<HydrogenOnly>>>, mut rng: ResMut<DirectionsRng>) {
            let solver = (*solver).as_mut().unwrap();
            let m = get_random_rotation_matrix(&mut rng);
            let before = solver.directions.directions.clone();
            for dir in solver.directions.directions.iter_mut() {
                multiply_by_matrix(&mut dir.0 .0, &m);
            }
            let after = solver.directions.directions.clone();
            for site in solver.sites.iter_mut() {
                remap(&mut site.incoming_total_rate, &before, &after);
                remap(&mut site.outgoing_total_rate, &before, &after);
                remap(&mut site.periodic_source, &before, &after);
            }
        }
        #[spec(opaque(kernel_f))]
        fn remap(values: &mut [PhotonRate], old_dirs: &[Direction], new_dirs: &[Direction]) {
            let n = old_dirs.len();
            // one value per direction
            assume!(values.len() == old_dirs.len());
            assume!(new_dirs.len() == old_dirs.len());
            let old = values.to_vec();
            for j in 0..n {
                let mut sum = 0.0;
                for i in 0..n {
                    sum += old[i] * kernel_f(&old_dirs[i], new_dirs)[j];
                }
                values[j] = sum;
            }
        }
    }
}
