mod voronoi {
    mod math {
        mod utils {
            #[spec]
            fn swap_rows<const M: usize, const N: usize, F: Clone>(a: &mut Matrix<M, N, F>, r1: usize, r2: usize) {
                for c in 0..N {
                    let x = a[r2][c].clone();
                    let y = a[r1][c].clone();
                    a[r1][c] = x;
                    a[r2][c] = y;
                }
            }
            #[spec]
            fn add_row_to_another(m: &mut Matrix<3, 4, f64>, r1: usize, r2: usize, factor: f64) {
                for k in 0..4 {
                    m[r1][k] = m[r1][k] + m[r2][k] * factor;
                }
            }
            #[spec]
            fn backward_substitution<const M: usize, F: Num>(a: Matrix<M, { M + 1 }, F>) -> [F; M] {
                let mut x = array_init::array_init(|_| F::zero());
                for i in (0..M).rev() {
                    let mut rest = a[i][M].clone();
                    for j in (i + 1)..M {
                        rest = rest - a[i][j].clone() * x[j].clone();
                    }
                    x[i] = rest / a[i][i].clone();
                }
                x
            }
            #[spec(opaque(swap_rows, backward_substitution))]
            fn solve_system_of_equations<const M: usize, F: Num>(mut a: Matrix<M, { M + 1 }, F>) -> [F; M] {
                let mut row = 0;
                let mut column = 0;
                while row < M && column < M + 1 {
                    let best = (row..M)
                        .max_by(|i, j| a[*i][column].abs().partial_cmp(&a[*j][column].abs()).unwrap())
                        .unwrap();
                    if a[best][column] == F::zero() {
                        column += 1;
                    } else {
                        swap_rows(&mut a, row, best);
                        for i in row + 1..M {
                            let f = a[i][column].clone() / a[row][column].clone();
                            a[i][column] = F::zero();
                            for j in (column + 1)..(M + 1) {
                                a[i][j] = a[i][j].clone() - f.clone() * a[row][j].clone();
                            }
                        }
                        row += 1;
                        column += 1;
                    }
                }
                backward_substitution(a)
            }
            fn regular(a: f64, c: f64, e: f64) -> bool {
                // none of the pivots is too small to divide by
                !(a.abs() < GAUSS_3X4_EPSILON) && !(c.abs() < GAUSS_3X4_EPSILON) && !(e.abs() < GAUSS_3X4_EPSILON)
            }
            #[law]
            fn triangular_2(a: f64, b: f64, c: f64, d: f64, e: f64, f: f64) -> bool {
                let x = backward_substitution([[a, b, c], [d, e, f]]);
                x[1] == f / e && x[0] == (c - b * (f / e)) / a
            }
            #[law]
            fn triangular_3(a: [[f64; 4]; 3]) -> bool {
                let x = backward_substitution(a);
                let z = a[2][3] / a[2][2];
                let y = (a[1][3] - a[1][2] * z) / a[1][1];
                x[2] == z && x[1] == y && x[0] == (a[0][3] - a[0][1] * y - a[0][2] * z) / a[0][0]
            }
            #[law(keep_abs)]
            fn solves_upper_first_second_third(a: f64, c: f64, e: f64, u: f64, v: f64, w: f64, x: f64, y: f64, z: f64) -> bool {
                assume!(a.abs() > 0.0 && c.abs() > 0.0);
                match solve_3x4_system_of_equations_error([[a, u, v, a * x + u * y + v * z], [0.0, c, w, c * y + w * z], [0.0, 0.0, e, e * z]]) {
                    Ok(s) => s[0] == x && s[1] == y && s[2] == z && regular(a, c, e),
                    Err(_) => !regular(a, c, e),
                }
            }
            #[law(keep_abs)]
            fn solves_upper_first_third_second(a: f64, c: f64, e: f64, u: f64, v: f64, w: f64, x: f64, y: f64, z: f64) -> bool {
                assume!(a.abs() > 0.0 && c.abs() > 0.0);
                match solve_3x4_system_of_equations_error([[a, u, v, a * x + u * y + v * z], [0.0, 0.0, e, e * z], [0.0, c, w, c * y + w * z]]) {
                    Ok(s) => s[0] == x && s[1] == y && s[2] == z && regular(a, c, e),
                    Err(_) => !regular(a, c, e),
                }
            }
            #[law(keep_abs)]
            fn solves_upper_second_first_third(a: f64, c: f64, e: f64, u: f64, v: f64, w: f64, x: f64, y: f64, z: f64) -> bool {
                assume!(a.abs() > 0.0 && c.abs() > 0.0);
                match solve_3x4_system_of_equations_error([[0.0, c, w, c * y + w * z], [a, u, v, a * x + u * y + v * z], [0.0, 0.0, e, e * z]]) {
                    Ok(s) => s[0] == x && s[1] == y && s[2] == z && regular(a, c, e),
                    Err(_) => !regular(a, c, e),
                }
            }
            #[law(keep_abs)]
            fn solves_upper_second_third_first(a: f64, c: f64, e: f64, u: f64, v: f64, w: f64, x: f64, y: f64, z: f64) -> bool {
                assume!(a.abs() > 0.0 && c.abs() > 0.0);
                match solve_3x4_system_of_equations_error([[0.0, c, w, c * y + w * z], [0.0, 0.0, e, e * z], [a, u, v, a * x + u * y + v * z]]) {
                    Ok(s) => s[0] == x && s[1] == y && s[2] == z && regular(a, c, e),
                    Err(_) => !regular(a, c, e),
                }
            }
            #[law(keep_abs)]
            fn solves_upper_third_first_second(a: f64, c: f64, e: f64, u: f64, v: f64, w: f64, x: f64, y: f64, z: f64) -> bool {
                assume!(a.abs() > 0.0 && c.abs() > 0.0);
                match solve_3x4_system_of_equations_error([[0.0, 0.0, e, e * z], [a, u, v, a * x + u * y + v * z], [0.0, c, w, c * y + w * z]]) {
                    Ok(s) => s[0] == x && s[1] == y && s[2] == z && regular(a, c, e),
                    Err(_) => !regular(a, c, e),
                }
            }
            #[law(keep_abs)]
            fn solves_upper_third_second_first(a: f64, c: f64, e: f64, u: f64, v: f64, w: f64, x: f64, y: f64, z: f64) -> bool {
                assume!(a.abs() > 0.0 && c.abs() > 0.0);
                match solve_3x4_system_of_equations_error([[0.0, 0.0, e, e * z], [0.0, c, w, c * y + w * z], [a, u, v, a * x + u * y + v * z]]) {
                    Ok(s) => s[0] == x && s[1] == y && s[2] == z && regular(a, c, e),
                    Err(_) => !regular(a, c, e),
                }
            }
            #[law(keep_abs)]
            fn solves_pivots_first_second_third(a: f64, b: f64, c: f64, d: f64, e: f64, f: f64, x: f64, y: f64, z: f64) -> bool {
                assume!(a.abs() > b.abs() && a.abs() > d.abs() && c.abs() > f.abs());
                match solve_3x4_system_of_equations_error([[a, 0.0, 0.0, a * x], [b, c, 0.0, b * x + c * y], [d, f, e, d * x + f * y + e * z]]) {
                    Ok(s) => s[0] == x && s[1] == y && s[2] == z && regular(a, c, e),
                    Err(_) => !regular(a, c, e),
                }
            }
            #[law(keep_abs)]
            fn solves_pivots_first_third_second(a: f64, b: f64, c: f64, d: f64, e: f64, f: f64, x: f64, y: f64, z: f64) -> bool {
                assume!(a.abs() > b.abs() && a.abs() > d.abs() && c.abs() > f.abs());
                match solve_3x4_system_of_equations_error([[a, 0.0, 0.0, a * x], [d, f, e, d * x + f * y + e * z], [b, c, 0.0, b * x + c * y]]) {
                    Ok(s) => s[0] == x && s[1] == y && s[2] == z && regular(a, c, e),
                    Err(_) => !regular(a, c, e),
                }
            }
            #[law(keep_abs)]
            fn solves_pivots_second_first_third(a: f64, b: f64, c: f64, d: f64, e: f64, f: f64, x: f64, y: f64, z: f64) -> bool {
                assume!(a.abs() > b.abs() && a.abs() > d.abs() && c.abs() > f.abs());
                match solve_3x4_system_of_equations_error([[b, c, 0.0, b * x + c * y], [a, 0.0, 0.0, a * x], [d, f, e, d * x + f * y + e * z]]) {
                    Ok(s) => s[0] == x && s[1] == y && s[2] == z && regular(a, c, e),
                    Err(_) => !regular(a, c, e),
                }
            }
            #[law(keep_abs)]
            fn solves_pivots_second_third_first(a: f64, b: f64, c: f64, d: f64, e: f64, f: f64, x: f64, y: f64, z: f64) -> bool {
                assume!(a.abs() > b.abs() && a.abs() > d.abs() && c.abs() > f.abs());
                match solve_3x4_system_of_equations_error([[b, c, 0.0, b * x + c * y], [d, f, e, d * x + f * y + e * z], [a, 0.0, 0.0, a * x]]) {
                    Ok(s) => s[0] == x && s[1] == y && s[2] == z && regular(a, c, e),
                    Err(_) => !regular(a, c, e),
                }
            }
            #[law(keep_abs)]
            fn solves_pivots_third_first_second(a: f64, b: f64, c: f64, d: f64, e: f64, f: f64, x: f64, y: f64, z: f64) -> bool {
                assume!(a.abs() > b.abs() && a.abs() > d.abs() && c.abs() > f.abs());
                match solve_3x4_system_of_equations_error([[d, f, e, d * x + f * y + e * z], [a, 0.0, 0.0, a * x], [b, c, 0.0, b * x + c * y]]) {
                    Ok(s) => s[0] == x && s[1] == y && s[2] == z && regular(a, c, e),
                    Err(_) => !regular(a, c, e),
                }
            }
            #[law(keep_abs)]
            fn solves_pivots_third_second_first(a: f64, b: f64, c: f64, d: f64, e: f64, f: f64, x: f64, y: f64, z: f64) -> bool {
                assume!(a.abs() > b.abs() && a.abs() > d.abs() && c.abs() > f.abs());
                match solve_3x4_system_of_equations_error([[d, f, e, d * x + f * y + e * z], [b, c, 0.0, b * x + c * y], [a, 0.0, 0.0, a * x]]) {
                    Ok(s) => s[0] == x && s[1] == y && s[2] == z && regular(a, c, e),
                    Err(_) => !regular(a, c, e),
                }
            }
            #[law(keep_abs, unroll(8))]
            fn general_2_in_order(a: f64, b: f64, c: f64, x: f64, y: f64) -> bool {
                assume!(a.abs() > b.abs() && a != 0.0 && c != 0.0);
                let s = solve_system_of_equations([[a, 0.0, a * x], [b, c, b * x + c * y]]);
                s[0] == x && s[1] == y
            }
            #[law(keep_abs, unroll(8))]
            fn general_2_swapped(a: f64, b: f64, c: f64, x: f64, y: f64) -> bool {
                assume!(a.abs() > b.abs() && a != 0.0 && c != 0.0);
                let s = solve_system_of_equations([[b, c, b * x + c * y], [a, 0.0, a * x]]);
                s[0] == x && s[1] == y
            }
            #[law(keep_abs, unroll(8))]
            fn general_3_pivots_first_second_third(a: f64, b: f64, c: f64, d: f64, e: f64, f: f64, x: f64, y: f64, z: f64) -> bool {
                assume!(a.abs() > b.abs() && a.abs() > d.abs() && c.abs() > f.abs() && a != 0.0 && c != 0.0 && e != 0.0);
                let s = solve_system_of_equations([[a, 0.0, 0.0, a * x], [b, c, 0.0, b * x + c * y], [d, f, e, d * x + f * y + e * z]]);
                s[0] == x && s[1] == y && s[2] == z
            }
            #[law(keep_abs, unroll(8))]
            fn general_3_pivots_first_third_second(a: f64, b: f64, c: f64, d: f64, e: f64, f: f64, x: f64, y: f64, z: f64) -> bool {
                assume!(a.abs() > b.abs() && a.abs() > d.abs() && c.abs() > f.abs() && a != 0.0 && c != 0.0 && e != 0.0);
                let s = solve_system_of_equations([[a, 0.0, 0.0, a * x], [d, f, e, d * x + f * y + e * z], [b, c, 0.0, b * x + c * y]]);
                s[0] == x && s[1] == y && s[2] == z
            }
            #[law(keep_abs, unroll(8))]
            fn general_3_pivots_second_first_third(a: f64, b: f64, c: f64, d: f64, e: f64, f: f64, x: f64, y: f64, z: f64) -> bool {
                assume!(a.abs() > b.abs() && a.abs() > d.abs() && c.abs() > f.abs() && a != 0.0 && c != 0.0 && e != 0.0);
                let s = solve_system_of_equations([[b, c, 0.0, b * x + c * y], [a, 0.0, 0.0, a * x], [d, f, e, d * x + f * y + e * z]]);
                s[0] == x && s[1] == y && s[2] == z
            }
            #[law(keep_abs, unroll(8))]
            fn general_3_pivots_second_third_first(a: f64, b: f64, c: f64, d: f64, e: f64, f: f64, x: f64, y: f64, z: f64) -> bool {
                assume!(a.abs() > b.abs() && a.abs() > d.abs() && c.abs() > f.abs() && a != 0.0 && c != 0.0 && e != 0.0);
                let s = solve_system_of_equations([[b, c, 0.0, b * x + c * y], [d, f, e, d * x + f * y + e * z], [a, 0.0, 0.0, a * x]]);
                s[0] == x && s[1] == y && s[2] == z
            }
            #[law(keep_abs, unroll(8))]
            fn general_3_pivots_third_first_second(a: f64, b: f64, c: f64, d: f64, e: f64, f: f64, x: f64, y: f64, z: f64) -> bool {
                assume!(a.abs() > b.abs() && a.abs() > d.abs() && c.abs() > f.abs() && a != 0.0 && c != 0.0 && e != 0.0);
                let s = solve_system_of_equations([[d, f, e, d * x + f * y + e * z], [a, 0.0, 0.0, a * x], [b, c, 0.0, b * x + c * y]]);
                s[0] == x && s[1] == y && s[2] == z
            }
            #[law(keep_abs, unroll(8))]
            fn general_3_pivots_third_second_first(a: f64, b: f64, c: f64, d: f64, e: f64, f: f64, x: f64, y: f64, z: f64) -> bool {
                assume!(a.abs() > b.abs() && a.abs() > d.abs() && c.abs() > f.abs() && a != 0.0 && c != 0.0 && e != 0.0);
                let s = solve_system_of_equations([[d, f, e, d * x + f * y + e * z], [b, c, 0.0, b * x + c * y], [a, 0.0, 0.0, a * x]]);
                s[0] == x && s[1] == y && s[2] == z
            }
            #[law]
            fn tolerance_positive() -> bool {
                GAUSS_3X4_EPSILON > 2.3e-16
            }
        }
    }
}
