mod cosmology {
    #[spec]
    fn scalefactor_to_redshift(a: Dimensionless) -> Dimensionless {
        1.0 / a - 1.0
    }
    // the smaller half keeps the root of an increasing function
    #[spec(opaque(depth_limited_binary_search))]
    fn depth_limited_binary_search(f: impl Fn(f64) -> f64, min: f64, max: f64, threshold: f64, depth: usize) -> f64 {
        if depth > 100 {
            panic!();
        }
        let middle = 0.5 * (min + max);
        let value = f(middle);
        if value.abs() <= threshold {
            return middle;
        }
        if value.is_sign_negative() {
            depth_limited_binary_search(f, middle, max, threshold, depth + 1)
        } else {
            depth_limited_binary_search(f, min, middle, threshold, depth + 1)
        }
    }
    impl Cosmology {
        #[spec]
        fn redshift(&self) -> Dimensionless {
            match self {
                Cosmology::Cosmological { a, .. } => 1.0 / *a - 1.0,
                Cosmology::NonCosmological => 0.0,
            }
        }
        #[spec]
        fn scale_factor(&self) -> Dimensionless {
            match self {
                Cosmology::Cosmological { a, .. } => *a,
                Cosmology::NonCosmological => 1.0,
            }
        }
        #[spec]
        fn little_h(&self) -> Dimensionless {
            match self {
                Cosmology::Cosmological { h, .. } => *h,
                Cosmology::NonCosmological => panic!(),
            }
        }
        #[spec]
        fn get_factor(&self, dimension: &Dimension) -> f64 {
            match self {
                Cosmology::Cosmological { a, h, .. } => a.powi(-dimension.a) * h.powi(-dimension.h),
                Cosmology::NonCosmological => panic!(),
            }
        }
        #[spec(opaque(CosmologyParams::time_difference_between_scalefactors))]
        fn time_difference_between_scalefactors(&self, a0: Dimensionless, a1: Dimensionless) -> Time {
            match self {
                Cosmology::Cosmological { h, params, .. } => params.unwrap().time_difference_between_scalefactors(a0, a1, *h),
                Cosmology::NonCosmological => panic!(),
            }
        }
    }
    impl CosmologyParams {
        // no time passes between equal scale factors
        #[law]
        fn equal_scale_factors(p: CosmologyParams, a: Dimensionless, h: Dimensionless) -> bool {
            p.time_difference_between_scalefactors(a, a, h) == Time::seconds(0.0)
        }
        // time differences add up
        #[law]
        fn differences_add_up(p: CosmologyParams, a: Dimensionless, b: Dimensionless, c: Dimensionless, h: Dimensionless) -> bool {
            p.time_difference_between_scalefactors(a, b, h) + p.time_difference_between_scalefactors(b, c, h)
                == p.time_difference_between_scalefactors(a, c, h)
        }
        // flat universe: t = 2 / (3 H0 sqrt(L)) ln(sqrt(L/M) a^(3/2) + sqrt(1 + L/M a^3))
        #[spec]
        fn time_difference_between_scalefactors(&self, a0: Dimensionless, a1: Dimensionless, h: Dimensionless) -> Time {
            if (self.omega_lambda + self.omega_0 - 1.0).abs() > 0.01 {
                panic!();
            }
            let ratio = self.omega_lambda / self.omega_0;
            let end = (ratio.sqrt() * a1.powf(1.5) + (1.0 + ratio * a1 * a1 * a1).sqrt()).ln();
            let start = (ratio.sqrt() * a0.powf(1.5) + (1.0 + ratio * a0 * a0 * a0).sqrt()).ln();
            Time::seconds(2.0 / 3.0 / self.omega_lambda.sqrt() * (end - start) / (3.2407789e-18 * h))
        }
    }
}
mod units {
    mod dimension {
        impl Dimension {
            #[spec]
            fn base_conversion_factor(&self) -> f64 {
                LENGTH_TO_SI.powi(self.length) * TIME_TO_SI.powi(self.time) * MASS_TO_SI.powi(self.mass) * TEMPERATURE_TO_SI.powi(self.temperature)
            }
            #[spec]
            fn non_cosmological(self) -> Self {
                Dimension { length: self.length, time: self.time, mass: self.mass, temperature: self.temperature, h: 0, a: 0 }
            }
        }
    }
    mod specific_impls {
        impl Vec3Length {
            #[spec]
            fn from_vector_and_scale(m: MVec3, l: Length) -> Vec3Length {
                Vec3Length::new(m.x * l, m.y * l, m.z * l)
            }
        }
        impl Vec2Length {
            #[spec(feature("2d"))]
            fn from_vector_and_scale(m: MVec2, l: Length) -> Vec2Length {
                Vec2Length::new(m.x * l, m.y * l)
            }
        }
        impl Temperature {
            #[spec]
            fn to_internal_energy(&self, molecular_weight: Dimensionless) -> EnergyPerMass {
                *self * BOLTZMANN_CONSTANT / (PROTON_MASS * molecular_weight * (GAMMA - 1.0))
            }
            #[spec]
            fn from_internal_energy_density_hydrogen_only(energy: EnergyDensity, fraction: Dimensionless, density: Density) -> Self {
                energy / density * PROTON_MASS * (GAMMA - 1.0) / (BOLTZMANN_CONSTANT * (1.0 + fraction))
            }
            #[law]
            fn there_and_back(t: Temperature, weight: Dimensionless) -> bool {
                t.to_internal_energy(weight).to_temperature(weight) == t
            }
            #[law]
            fn density_there_and_back(t: Temperature, fraction: Dimensionless, density: Density) -> bool {
                Temperature::from_internal_energy_density_hydrogen_only(EnergyDensity::from_temperature_hydrogen_only(t, fraction, density), fraction, density) == t
            }
        }
        impl EnergyPerMass {
            #[spec]
            fn to_temperature(&self, molecular_weight: Dimensionless) -> Temperature {
                *self * PROTON_MASS * molecular_weight * (GAMMA - 1.0) / BOLTZMANN_CONSTANT
            }
        }
        impl EnergyDensity {
            #[spec]
            fn from_temperature_hydrogen_only(temperature: Temperature, fraction: Dimensionless, density: Density) -> Self {
                temperature * density * BOLTZMANN_CONSTANT * (1.0 + fraction) / (PROTON_MASS * (GAMMA - 1.0))
            }
        }
        impl<const D: Dimension, S> Quantity<S, D> {
            #[spec(opaque(get_factor))]
            fn make_non_cosmological(self, cosmology: &Cosmology) -> Quantity {
                self.0 * cosmology.get_factor(&D)
            }
        }
    }
}
mod dimension {
    impl Dimension for TwoD {
        #[spec]
        fn remap_point(point: MVec2, extent: &Extent<MVec2>) -> MVec2 {
            MVec2::new(
                1.0 + (point.x - extent.min.x) / (extent.max.x - extent.min.x),
                1.0 + (point.y - extent.min.y) / (extent.max.y - extent.min.y),
            )
        }
    }
    impl Dimension for ThreeD {
        #[spec]
        fn remap_point(point: MVec3, extent: &Extent<MVec3>) -> MVec3 {
            MVec3::new(
                1.0 + (point.x - extent.min.x) / (extent.max.x - extent.min.x),
                1.0 + (point.y - extent.min.y) / (extent.max.y - extent.min.y),
                1.0 + (point.z - extent.min.z) / (extent.max.z - extent.min.z),
            )
        }
    }
}
