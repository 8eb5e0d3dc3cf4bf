mod voronoi {
    mod math {
        mod utils {
            // sum over all permutations of the signed products of entries
            #[spec]
            fn determinant3x3<F: Num>(a: Matrix<3, 3, F>) -> F {
                a[0][0].clone() * a[1][1].clone() * a[2][2].clone()
                - a[0][0].clone() * a[1][2].clone() * a[2][1].clone()
                - a[0][1].clone() * a[1][0].clone() * a[2][2].clone()
                + a[0][1].clone() * a[1][2].clone() * a[2][0].clone()
                + a[0][2].clone() * a[1][0].clone() * a[2][1].clone()
                - a[0][2].clone() * a[1][1].clone() * a[2][0].clone()
            }
            // sum over all permutations of the signed products of entries
            #[spec]
            fn determinant4x4<F: Num>(a: Matrix<4, 4, F>) -> F {
                a[0][0].clone() * a[1][1].clone() * a[2][2].clone() * a[3][3].clone()
                - a[0][0].clone() * a[1][1].clone() * a[2][3].clone() * a[3][2].clone()
                - a[0][0].clone() * a[1][2].clone() * a[2][1].clone() * a[3][3].clone()
                + a[0][0].clone() * a[1][2].clone() * a[2][3].clone() * a[3][1].clone()
                + a[0][0].clone() * a[1][3].clone() * a[2][1].clone() * a[3][2].clone()
                - a[0][0].clone() * a[1][3].clone() * a[2][2].clone() * a[3][1].clone()
                - a[0][1].clone() * a[1][0].clone() * a[2][2].clone() * a[3][3].clone()
                + a[0][1].clone() * a[1][0].clone() * a[2][3].clone() * a[3][2].clone()
                + a[0][1].clone() * a[1][2].clone() * a[2][0].clone() * a[3][3].clone()
                - a[0][1].clone() * a[1][2].clone() * a[2][3].clone() * a[3][0].clone()
                - a[0][1].clone() * a[1][3].clone() * a[2][0].clone() * a[3][2].clone()
                + a[0][1].clone() * a[1][3].clone() * a[2][2].clone() * a[3][0].clone()
                + a[0][2].clone() * a[1][0].clone() * a[2][1].clone() * a[3][3].clone()
                - a[0][2].clone() * a[1][0].clone() * a[2][3].clone() * a[3][1].clone()
                - a[0][2].clone() * a[1][1].clone() * a[2][0].clone() * a[3][3].clone()
                + a[0][2].clone() * a[1][1].clone() * a[2][3].clone() * a[3][0].clone()
                + a[0][2].clone() * a[1][3].clone() * a[2][0].clone() * a[3][1].clone()
                - a[0][2].clone() * a[1][3].clone() * a[2][1].clone() * a[3][0].clone()
                - a[0][3].clone() * a[1][0].clone() * a[2][1].clone() * a[3][2].clone()
                + a[0][3].clone() * a[1][0].clone() * a[2][2].clone() * a[3][1].clone()
                + a[0][3].clone() * a[1][1].clone() * a[2][0].clone() * a[3][2].clone()
                - a[0][3].clone() * a[1][1].clone() * a[2][2].clone() * a[3][0].clone()
                - a[0][3].clone() * a[1][2].clone() * a[2][0].clone() * a[3][1].clone()
                + a[0][3].clone() * a[1][2].clone() * a[2][1].clone() * a[3][0].clone()
            }
            // sum over all permutations of the signed products of entries
            #[spec]
            fn determinant5x5<F: Num>(a: Matrix<5, 5, F>) -> F {
                a[0][0].clone() * a[1][1].clone() * a[2][2].clone() * a[3][3].clone() * a[4][4].clone()
                - a[0][0].clone() * a[1][1].clone() * a[2][2].clone() * a[3][4].clone() * a[4][3].clone()
                - a[0][0].clone() * a[1][1].clone() * a[2][3].clone() * a[3][2].clone() * a[4][4].clone()
                + a[0][0].clone() * a[1][1].clone() * a[2][3].clone() * a[3][4].clone() * a[4][2].clone()
                + a[0][0].clone() * a[1][1].clone() * a[2][4].clone() * a[3][2].clone() * a[4][3].clone()
                - a[0][0].clone() * a[1][1].clone() * a[2][4].clone() * a[3][3].clone() * a[4][2].clone()
                - a[0][0].clone() * a[1][2].clone() * a[2][1].clone() * a[3][3].clone() * a[4][4].clone()
                + a[0][0].clone() * a[1][2].clone() * a[2][1].clone() * a[3][4].clone() * a[4][3].clone()
                + a[0][0].clone() * a[1][2].clone() * a[2][3].clone() * a[3][1].clone() * a[4][4].clone()
                - a[0][0].clone() * a[1][2].clone() * a[2][3].clone() * a[3][4].clone() * a[4][1].clone()
                - a[0][0].clone() * a[1][2].clone() * a[2][4].clone() * a[3][1].clone() * a[4][3].clone()
                + a[0][0].clone() * a[1][2].clone() * a[2][4].clone() * a[3][3].clone() * a[4][1].clone()
                + a[0][0].clone() * a[1][3].clone() * a[2][1].clone() * a[3][2].clone() * a[4][4].clone()
                - a[0][0].clone() * a[1][3].clone() * a[2][1].clone() * a[3][4].clone() * a[4][2].clone()
                - a[0][0].clone() * a[1][3].clone() * a[2][2].clone() * a[3][1].clone() * a[4][4].clone()
                + a[0][0].clone() * a[1][3].clone() * a[2][2].clone() * a[3][4].clone() * a[4][1].clone()
                + a[0][0].clone() * a[1][3].clone() * a[2][4].clone() * a[3][1].clone() * a[4][2].clone()
                - a[0][0].clone() * a[1][3].clone() * a[2][4].clone() * a[3][2].clone() * a[4][1].clone()
                - a[0][0].clone() * a[1][4].clone() * a[2][1].clone() * a[3][2].clone() * a[4][3].clone()
                + a[0][0].clone() * a[1][4].clone() * a[2][1].clone() * a[3][3].clone() * a[4][2].clone()
                + a[0][0].clone() * a[1][4].clone() * a[2][2].clone() * a[3][1].clone() * a[4][3].clone()
                - a[0][0].clone() * a[1][4].clone() * a[2][2].clone() * a[3][3].clone() * a[4][1].clone()
                - a[0][0].clone() * a[1][4].clone() * a[2][3].clone() * a[3][1].clone() * a[4][2].clone()
                + a[0][0].clone() * a[1][4].clone() * a[2][3].clone() * a[3][2].clone() * a[4][1].clone()
                - a[0][1].clone() * a[1][0].clone() * a[2][2].clone() * a[3][3].clone() * a[4][4].clone()
                + a[0][1].clone() * a[1][0].clone() * a[2][2].clone() * a[3][4].clone() * a[4][3].clone()
                + a[0][1].clone() * a[1][0].clone() * a[2][3].clone() * a[3][2].clone() * a[4][4].clone()
                - a[0][1].clone() * a[1][0].clone() * a[2][3].clone() * a[3][4].clone() * a[4][2].clone()
                - a[0][1].clone() * a[1][0].clone() * a[2][4].clone() * a[3][2].clone() * a[4][3].clone()
                + a[0][1].clone() * a[1][0].clone() * a[2][4].clone() * a[3][3].clone() * a[4][2].clone()
                + a[0][1].clone() * a[1][2].clone() * a[2][0].clone() * a[3][3].clone() * a[4][4].clone()
                - a[0][1].clone() * a[1][2].clone() * a[2][0].clone() * a[3][4].clone() * a[4][3].clone()
                - a[0][1].clone() * a[1][2].clone() * a[2][3].clone() * a[3][0].clone() * a[4][4].clone()
                + a[0][1].clone() * a[1][2].clone() * a[2][3].clone() * a[3][4].clone() * a[4][0].clone()
                + a[0][1].clone() * a[1][2].clone() * a[2][4].clone() * a[3][0].clone() * a[4][3].clone()
                - a[0][1].clone() * a[1][2].clone() * a[2][4].clone() * a[3][3].clone() * a[4][0].clone()
                - a[0][1].clone() * a[1][3].clone() * a[2][0].clone() * a[3][2].clone() * a[4][4].clone()
                + a[0][1].clone() * a[1][3].clone() * a[2][0].clone() * a[3][4].clone() * a[4][2].clone()
                + a[0][1].clone() * a[1][3].clone() * a[2][2].clone() * a[3][0].clone() * a[4][4].clone()
                - a[0][1].clone() * a[1][3].clone() * a[2][2].clone() * a[3][4].clone() * a[4][0].clone()
                - a[0][1].clone() * a[1][3].clone() * a[2][4].clone() * a[3][0].clone() * a[4][2].clone()
                + a[0][1].clone() * a[1][3].clone() * a[2][4].clone() * a[3][2].clone() * a[4][0].clone()
                + a[0][1].clone() * a[1][4].clone() * a[2][0].clone() * a[3][2].clone() * a[4][3].clone()
                - a[0][1].clone() * a[1][4].clone() * a[2][0].clone() * a[3][3].clone() * a[4][2].clone()
                - a[0][1].clone() * a[1][4].clone() * a[2][2].clone() * a[3][0].clone() * a[4][3].clone()
                + a[0][1].clone() * a[1][4].clone() * a[2][2].clone() * a[3][3].clone() * a[4][0].clone()
                + a[0][1].clone() * a[1][4].clone() * a[2][3].clone() * a[3][0].clone() * a[4][2].clone()
                - a[0][1].clone() * a[1][4].clone() * a[2][3].clone() * a[3][2].clone() * a[4][0].clone()
                + a[0][2].clone() * a[1][0].clone() * a[2][1].clone() * a[3][3].clone() * a[4][4].clone()
                - a[0][2].clone() * a[1][0].clone() * a[2][1].clone() * a[3][4].clone() * a[4][3].clone()
                - a[0][2].clone() * a[1][0].clone() * a[2][3].clone() * a[3][1].clone() * a[4][4].clone()
                + a[0][2].clone() * a[1][0].clone() * a[2][3].clone() * a[3][4].clone() * a[4][1].clone()
                + a[0][2].clone() * a[1][0].clone() * a[2][4].clone() * a[3][1].clone() * a[4][3].clone()
                - a[0][2].clone() * a[1][0].clone() * a[2][4].clone() * a[3][3].clone() * a[4][1].clone()
                - a[0][2].clone() * a[1][1].clone() * a[2][0].clone() * a[3][3].clone() * a[4][4].clone()
                + a[0][2].clone() * a[1][1].clone() * a[2][0].clone() * a[3][4].clone() * a[4][3].clone()
                + a[0][2].clone() * a[1][1].clone() * a[2][3].clone() * a[3][0].clone() * a[4][4].clone()
                - a[0][2].clone() * a[1][1].clone() * a[2][3].clone() * a[3][4].clone() * a[4][0].clone()
                - a[0][2].clone() * a[1][1].clone() * a[2][4].clone() * a[3][0].clone() * a[4][3].clone()
                + a[0][2].clone() * a[1][1].clone() * a[2][4].clone() * a[3][3].clone() * a[4][0].clone()
                + a[0][2].clone() * a[1][3].clone() * a[2][0].clone() * a[3][1].clone() * a[4][4].clone()
                - a[0][2].clone() * a[1][3].clone() * a[2][0].clone() * a[3][4].clone() * a[4][1].clone()
                - a[0][2].clone() * a[1][3].clone() * a[2][1].clone() * a[3][0].clone() * a[4][4].clone()
                + a[0][2].clone() * a[1][3].clone() * a[2][1].clone() * a[3][4].clone() * a[4][0].clone()
                + a[0][2].clone() * a[1][3].clone() * a[2][4].clone() * a[3][0].clone() * a[4][1].clone()
                - a[0][2].clone() * a[1][3].clone() * a[2][4].clone() * a[3][1].clone() * a[4][0].clone()
                - a[0][2].clone() * a[1][4].clone() * a[2][0].clone() * a[3][1].clone() * a[4][3].clone()
                + a[0][2].clone() * a[1][4].clone() * a[2][0].clone() * a[3][3].clone() * a[4][1].clone()
                + a[0][2].clone() * a[1][4].clone() * a[2][1].clone() * a[3][0].clone() * a[4][3].clone()
                - a[0][2].clone() * a[1][4].clone() * a[2][1].clone() * a[3][3].clone() * a[4][0].clone()
                - a[0][2].clone() * a[1][4].clone() * a[2][3].clone() * a[3][0].clone() * a[4][1].clone()
                + a[0][2].clone() * a[1][4].clone() * a[2][3].clone() * a[3][1].clone() * a[4][0].clone()
                - a[0][3].clone() * a[1][0].clone() * a[2][1].clone() * a[3][2].clone() * a[4][4].clone()
                + a[0][3].clone() * a[1][0].clone() * a[2][1].clone() * a[3][4].clone() * a[4][2].clone()
                + a[0][3].clone() * a[1][0].clone() * a[2][2].clone() * a[3][1].clone() * a[4][4].clone()
                - a[0][3].clone() * a[1][0].clone() * a[2][2].clone() * a[3][4].clone() * a[4][1].clone()
                - a[0][3].clone() * a[1][0].clone() * a[2][4].clone() * a[3][1].clone() * a[4][2].clone()
                + a[0][3].clone() * a[1][0].clone() * a[2][4].clone() * a[3][2].clone() * a[4][1].clone()
                + a[0][3].clone() * a[1][1].clone() * a[2][0].clone() * a[3][2].clone() * a[4][4].clone()
                - a[0][3].clone() * a[1][1].clone() * a[2][0].clone() * a[3][4].clone() * a[4][2].clone()
                - a[0][3].clone() * a[1][1].clone() * a[2][2].clone() * a[3][0].clone() * a[4][4].clone()
                + a[0][3].clone() * a[1][1].clone() * a[2][2].clone() * a[3][4].clone() * a[4][0].clone()
                + a[0][3].clone() * a[1][1].clone() * a[2][4].clone() * a[3][0].clone() * a[4][2].clone()
                - a[0][3].clone() * a[1][1].clone() * a[2][4].clone() * a[3][2].clone() * a[4][0].clone()
                - a[0][3].clone() * a[1][2].clone() * a[2][0].clone() * a[3][1].clone() * a[4][4].clone()
                + a[0][3].clone() * a[1][2].clone() * a[2][0].clone() * a[3][4].clone() * a[4][1].clone()
                + a[0][3].clone() * a[1][2].clone() * a[2][1].clone() * a[3][0].clone() * a[4][4].clone()
                - a[0][3].clone() * a[1][2].clone() * a[2][1].clone() * a[3][4].clone() * a[4][0].clone()
                - a[0][3].clone() * a[1][2].clone() * a[2][4].clone() * a[3][0].clone() * a[4][1].clone()
                + a[0][3].clone() * a[1][2].clone() * a[2][4].clone() * a[3][1].clone() * a[4][0].clone()
                + a[0][3].clone() * a[1][4].clone() * a[2][0].clone() * a[3][1].clone() * a[4][2].clone()
                - a[0][3].clone() * a[1][4].clone() * a[2][0].clone() * a[3][2].clone() * a[4][1].clone()
                - a[0][3].clone() * a[1][4].clone() * a[2][1].clone() * a[3][0].clone() * a[4][2].clone()
                + a[0][3].clone() * a[1][4].clone() * a[2][1].clone() * a[3][2].clone() * a[4][0].clone()
                + a[0][3].clone() * a[1][4].clone() * a[2][2].clone() * a[3][0].clone() * a[4][1].clone()
                - a[0][3].clone() * a[1][4].clone() * a[2][2].clone() * a[3][1].clone() * a[4][0].clone()
                + a[0][4].clone() * a[1][0].clone() * a[2][1].clone() * a[3][2].clone() * a[4][3].clone()
                - a[0][4].clone() * a[1][0].clone() * a[2][1].clone() * a[3][3].clone() * a[4][2].clone()
                - a[0][4].clone() * a[1][0].clone() * a[2][2].clone() * a[3][1].clone() * a[4][3].clone()
                + a[0][4].clone() * a[1][0].clone() * a[2][2].clone() * a[3][3].clone() * a[4][1].clone()
                + a[0][4].clone() * a[1][0].clone() * a[2][3].clone() * a[3][1].clone() * a[4][2].clone()
                - a[0][4].clone() * a[1][0].clone() * a[2][3].clone() * a[3][2].clone() * a[4][1].clone()
                - a[0][4].clone() * a[1][1].clone() * a[2][0].clone() * a[3][2].clone() * a[4][3].clone()
                + a[0][4].clone() * a[1][1].clone() * a[2][0].clone() * a[3][3].clone() * a[4][2].clone()
                + a[0][4].clone() * a[1][1].clone() * a[2][2].clone() * a[3][0].clone() * a[4][3].clone()
                - a[0][4].clone() * a[1][1].clone() * a[2][2].clone() * a[3][3].clone() * a[4][0].clone()
                - a[0][4].clone() * a[1][1].clone() * a[2][3].clone() * a[3][0].clone() * a[4][2].clone()
                + a[0][4].clone() * a[1][1].clone() * a[2][3].clone() * a[3][2].clone() * a[4][0].clone()
                + a[0][4].clone() * a[1][2].clone() * a[2][0].clone() * a[3][1].clone() * a[4][3].clone()
                - a[0][4].clone() * a[1][2].clone() * a[2][0].clone() * a[3][3].clone() * a[4][1].clone()
                - a[0][4].clone() * a[1][2].clone() * a[2][1].clone() * a[3][0].clone() * a[4][3].clone()
                + a[0][4].clone() * a[1][2].clone() * a[2][1].clone() * a[3][3].clone() * a[4][0].clone()
                + a[0][4].clone() * a[1][2].clone() * a[2][3].clone() * a[3][0].clone() * a[4][1].clone()
                - a[0][4].clone() * a[1][2].clone() * a[2][3].clone() * a[3][1].clone() * a[4][0].clone()
                - a[0][4].clone() * a[1][3].clone() * a[2][0].clone() * a[3][1].clone() * a[4][2].clone()
                + a[0][4].clone() * a[1][3].clone() * a[2][0].clone() * a[3][2].clone() * a[4][1].clone()
                + a[0][4].clone() * a[1][3].clone() * a[2][1].clone() * a[3][0].clone() * a[4][2].clone()
                - a[0][4].clone() * a[1][3].clone() * a[2][1].clone() * a[3][2].clone() * a[4][0].clone()
                - a[0][4].clone() * a[1][3].clone() * a[2][2].clone() * a[3][0].clone() * a[4][1].clone()
                + a[0][4].clone() * a[1][3].clone() * a[2][2].clone() * a[3][1].clone() * a[4][0].clone()
            }
        }
    }
}
