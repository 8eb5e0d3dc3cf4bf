mod voronoi {
    mod math {
        mod precision_types {
            impl PrecisionError {
                #[spec]
                fn check<F: Signed + FloatError>(a: &F, epsilon: f64) -> Result<(), PrecisionError> {
                    match FloatError::is_too_close_to_zero(a, epsilon) {
                        true => Err(PrecisionError),
                        false => Ok(()),
                    }
                }
            }
            impl FloatError for f64 {
                #[spec]
                fn is_too_close_to_zero(&self, epsilon: f64) -> bool {
                    self.abs() < epsilon
                }
            }
            impl FloatError for PrecisionFloat {
                #[spec]
                fn is_too_close_to_zero(&self, _epsilon: f64) -> bool {
                    false
                }
            }
            // a value of either sign within the tolerance is imprecise, at the tolerance it is not
            #[law]
            fn imprecise_iff_within_tolerance(x: f64, eps: f64) -> bool {
                let bad = PrecisionError::check(&x, eps).is_err();
                bad == (x < eps && -x < eps)
            }
            #[law]
            fn tolerances_positive() -> bool {
                TRIANGLE_CONTAINS_EPSILON > 2.3e-16
                    && TRIANGLE_INTERSECTION_TYPE_EPSILON > 2.3e-16
                    && TETRAHEDRON_POINTS_ON_SAME_SIDE_EPSILON > 2.3e-16
                    && DETERMINANT_3X3_EPSILON > 2.3e-16
                    && DETERMINANT_4X4_EPSILON > 2.3e-16
                    && DETERMINANT_5X5_EPSILON > 2.3e-16
            }
        }
        mod utils {
            impl std::ops::Mul<Sign> for Sign {
                #[spec]
                fn mul(self, rhs: Sign) -> Sign {
                    match (self, rhs) {
                        (Sign::Zero, _) => Sign::Zero,
                        (_, Sign::Zero) => Sign::Zero,
                        (Sign::Positive, Sign::Positive) => Sign::Positive,
                        (Sign::Negative, Sign::Negative) => Sign::Positive,
                        _ => Sign::Negative,
                    }
                }
            }
            impl Sign {
                #[spec]
                fn of<T: Zero + PartialOrd>(val: T) -> Sign {
                    if val < T::zero() {
                        Sign::Negative
                    } else if val == T::zero() {
                        Sign::Zero
                    } else {
                        Sign::Positive
                    }
                }
                #[spec(opaque(is_too_close_to_zero))]
                fn try_from_val<T: Zero + PartialOrd + Signed + FloatError>(val: &T, epsilon: f64) -> Result<Sign, PrecisionError> {
                    if FloatError::is_too_close_to_zero(val, epsilon) {
                        return Err(PrecisionError);
                    }
                    Ok(if *val < T::zero() {
                        Sign::Negative
                    } else if *val == T::zero() {
                        Sign::Zero
                    } else {
                        Sign::Positive
                    })
                }
                #[spec]
                fn is_positive(self) -> bool {
                    self == Sign::Positive
                }
                #[spec]
                fn is_negative(self) -> bool {
                    self == Sign::Negative
                }
                #[spec(no_panic)]
                fn panic_if_zero<U: std::fmt::Display>(&self, arg: impl Fn() -> U) -> &Sign {
                    match self {
                        Sign::Zero => panic!(),
                        _ => self,
                    }
                }
            }
            #[law]
            fn sign_of_float(x: f64) -> bool {
                match Sign::of(x) {
                    Sign::Positive => x > 0.0,
                    Sign::Negative => x < 0.0,
                    Sign::Zero => x == 0.0,
                }
            }
            #[spec]
            fn lift_matrix<const D: usize>(m: Matrix<D, D, f64>) -> Matrix<D, D, PrecisionFloat> {
                array_init::array_init(|i| array_init::array_init(|j| PrecisionFloat::from_f64(m[i][j]).unwrap()))
            }
            #[spec(opaque(is_too_close_to_zero))]
            fn compare_result_against_entries<const D: usize>(val: f64, m: &Matrix<D, D, f64>, epsilon: f64) -> Result<f64, PrecisionError> {
                let bad = m.iter().any(|row| row.iter().any(|entry| FloatError::is_too_close_to_zero(&(val / *entry), epsilon)));
                if bad {
                    Err(PrecisionError)
                } else {
                    Ok(val)
                }
            }
            impl<T> OperationResult<T> {
                #[spec]
                fn unpack(self) -> T {
                    match self {
                        OperationResult::Float(x) => x,
                        OperationResult::ArbitraryPrecision(x) => x,
                    }
                }
            }
            #[spec(opaque(determinant3x3, is_too_close_to_zero))]
            fn determinant3x3_sign(a: Matrix<3, 3, f64>) -> Sign {
                let val = determinant3x3(a);
                let bad = (0..3).any(|i| (0..3).any(|j| FloatError::is_too_close_to_zero(&(val / a[i][j]), DETERMINANT_3X3_EPSILON)));
                if bad {
                    Sign::of(determinant3x3(lift_matrix(a)))
                } else {
                    Sign::of(val)
                }
            }
            #[spec(opaque(determinant4x4, is_too_close_to_zero))]
            fn determinant4x4_sign(a: Matrix<4, 4, f64>) -> Sign {
                let val = determinant4x4(a);
                let bad = (0..4).any(|i| (0..4).any(|j| FloatError::is_too_close_to_zero(&(val / a[i][j]), DETERMINANT_4X4_EPSILON)));
                if bad {
                    Sign::of(determinant4x4(lift_matrix(a)))
                } else {
                    Sign::of(val)
                }
            }
            #[spec(opaque(determinant5x5, is_too_close_to_zero))]
            fn determinant5x5_sign(a: Matrix<5, 5, f64>) -> Sign {
                let val = determinant5x5(a);
                let bad = (0..5).any(|i| (0..5).any(|j| FloatError::is_too_close_to_zero(&(val / a[i][j]), DETERMINANT_5X5_EPSILON)));
                if bad {
                    Sign::of(determinant5x5(lift_matrix(a)))
                } else {
                    Sign::of(val)
                }
            }
        }
    }
}
