mod chemistry {
    impl Photons for PhotonRate {
        #[spec]
        fn zero() -> Self {
            0.0
        }
        #[spec]
        fn relative_change_to(&self, other: &Self) -> Dimensionless {
            ((self - other) / self).abs().min(1.0 / f64::EPSILON)
        }
        #[spec]
        fn below_threshold(&self, threshold: PhotonRate) -> bool {
            self.abs() < threshold.abs()
        }
    }
    mod timescale {
        impl Timescale {
            #[spec]
            fn ionization_fraction(time: Time) -> Self {
                Timescale { time: time, process: Process::IonizationFraction }
            }
            #[spec]
            fn temperature(time: Time) -> Self {
                Timescale { time: time, process: Process::Temperature }
            }
            #[spec]
            fn photon_rate(time: Time) -> Self {
                Timescale { time: time, process: Process::PhotonRate }
            }
            // the shorter one wins
            #[law]
            fn min_is_shorter(a: Timescale, b: Timescale) -> bool {
                a.min(b).time == a.time.min(b.time)
            }
            #[law]
            fn min_keeps_process(a: Timescale, b: Timescale) -> bool {
                let m = a.min(b);
                a.time >= b.time || m.process == a.process
            }
            #[law]
            fn min_keeps_other_process(a: Timescale, b: Timescale) -> bool {
                let m = a.min(b);
                b.time >= a.time || m.process == b.process
            }
        }
    }
    mod hydrogen_only {
        #[spec]
        fn update(value: &mut f64, change: f64, max_allowed_change: f64, timestep: f64) -> Result<f64, TimestepCriterionViolated> {
            let relative = (change / *value).abs().min(1.0 / f64::EPSILON);
            if relative > max_allowed_change {
                return Err(TimestepCriterionViolated);
            }
            *value = *value + change;
            Ok(timestep * max_allowed_change / relative)
        }
        impl Solver {
            #[spec]
            fn clamp(&mut self) {
                let lowest = match self.floor {
                    Some((_, fraction)) => fraction.value(),
                    None => 1e-10,
                };
                self.ionized_hydrogen_fraction = self.ionized_hydrogen_fraction.clamp(lowest, 1.0 - 1e-10);
                if let Some((temperature, _)) = self.floor {
                    if self.temperature < temperature {
                        self.temperature = temperature;
                    }
                }
            }
            #[law]
            fn clamped_fraction_is_at_most_the_ceiling(s: Solver) -> bool {
                let mut c = s;
                c.clamp();
                c.ionized_hydrogen_fraction <= 1.0 - 1e-10
            }
            #[law]
            fn clamped_fraction_is_at_least_the_floor(s: Solver) -> bool {
                let mut c = s;
                c.clamp();
                match s.floor {
                    None => c.ionized_hydrogen_fraction >= 1e-10,
                    Some((_, f)) => f > 1.0 - 1e-10 || c.ionized_hydrogen_fraction >= f,
                }
            }
            #[law]
            fn clamped_temperature_is_at_least_the_floor(s: Solver) -> bool {
                let mut c = s;
                c.clamp();
                match s.floor {
                    None => c.temperature == s.temperature,
                    Some((t, _)) => c.temperature >= t,
                }
            }
            #[spec(opaque(photoheating_rate, cooling_rate, cooling_rate_derivative))]
            fn temperature_change(&mut self, timestep: Time) -> Temperature {
                let k = (GAMMA - 1.0) * PROTON_MASS / (self.density * BOLTZMANN_CONSTANT) * self.mu();
                let heating = self.photoheating_rate(timestep) - self.cooling_rate();
                k * heating * timestep / (1.0 + k * self.cooling_rate_derivative() * timestep)
            }
            #[spec(opaque(photoionization_rate, case_b_recombination_rate, case_b_recombination_rate_derivative, collisional_ionization_rate, collisional_ionization_rate_derivative))]
            fn ionized_fraction_change(&mut self, timestep: Time) -> Dimensionless {
                let nh = self.hydrogen_number_density();
                let ne = self.electron_number_density();
                let x = self.ionized_hydrogen_fraction;
                let creation = self.collisional_ionization_rate() * ne + self.photoionization_rate(timestep);
                let destruction = self.case_b_recombination_rate() * ne;
                let dcreation = nh * self.collisional_ionization_rate() - ne * self.temperature * self.mu() * self.collisional_ionization_rate_derivative();
                let ddestruction = nh * self.case_b_recombination_rate() - ne * self.temperature * self.mu() * self.case_b_recombination_rate_derivative();
                let j = dcreation - (creation + destruction) - x * (dcreation + ddestruction);
                timestep * (creation - x * (creation + destruction)) / (1.0 - j * timestep)
            }
            #[spec(opaque(temperature_change, ionized_fraction_change, update, clamp))]
            fn try_timestep_update(&mut self, timestep: Time, factor: Dimensionless) -> Result<Timescale, TimestepCriterionViolated> {
                let change = self.temperature_change(timestep);
                let a = update(&mut self.temperature, change, factor, timestep)?;
                let change = self.ionized_fraction_change(timestep);
                let b = update(&mut self.ionized_hydrogen_fraction, change, factor, timestep)?;
                self.clamp();
                Ok(Timescale::temperature(a).min(Timescale::ionization_fraction(b)))
            }
            #[spec(opaque(try_timestep_update, clamp, perform_timestep_internal))]
            fn perform_timestep_internal(&mut self, timestep: Time, factor: Dimensionless, depth: usize, max_depth: usize) -> Result<Timescale, TimestepConvergenceFailed> {
                self.clamp();
                let temperature = self.temperature;
                let fraction = self.ionized_hydrogen_fraction;
                if depth > max_depth {
                    return Err(TimestepConvergenceFailed);
                }
                if let Ok(t) = self.try_timestep_update(timestep, factor) {
                    return Ok(t);
                }
                self.temperature = temperature;
                self.ionized_hydrogen_fraction = fraction;
                self.perform_timestep_internal(timestep / 2.0, factor, depth + 1, max_depth)?;
                self.perform_timestep_internal(timestep / 2.0, factor, depth + 1, max_depth)
            }
            #[spec(opaque(perform_timestep_internal))]
            fn perform_timestep(&mut self, timestep: Time, factor: Dimensionless) -> Timescale {
                match self.perform_timestep_internal(timestep, factor, 0, 100) {
                    Ok(t) => t,
                    Err(_) => Timescale::temperature(timestep / 10.0),
                }
            }
            #[spec]
            fn hydrogen_number_density(&self) -> NumberDensity {
                self.density / PROTON_MASS
            }
            #[spec]
            fn ionized_hydrogen_number_density(&self) -> NumberDensity {
                self.density / PROTON_MASS * self.ionized_hydrogen_fraction
            }
            #[spec]
            fn neutral_hydrogen_number_density(&self) -> NumberDensity {
                self.density / PROTON_MASS * (1.0 - self.ionized_hydrogen_fraction)
            }
            #[spec]
            fn electron_number_density(&self) -> NumberDensity {
                self.density / PROTON_MASS * self.ionized_hydrogen_fraction
            }
            #[spec]
            fn mu(&self) -> Dimensionless {
                1.0 / (1.0 + self.ionized_hydrogen_fraction)
            }
            #[spec]
            fn num_newly_ionized_hydrogen_atoms(&self, timestep: Time) -> Dimensionless {
                let depth = self.neutral_hydrogen_number_density() * NUMBER_WEIGHTED_AVERAGE_CROSS_SECTION * self.length;
                timestep * self.rate * (1.0 - (-depth).exp())
            }
            #[spec]
            fn photoheating_rate(&self, timestep: Time) -> HeatingRate {
                self.num_newly_ionized_hydrogen_atoms(timestep) / self.volume / timestep * (PHOTON_AVERAGE_ENERGY - RYDBERG_CONSTANT)
            }
            #[spec]
            fn photoionization_rate(&self, timestep: Time) -> Rate {
                self.num_newly_ionized_hydrogen_atoms(timestep) / self.volume / timestep / self.neutral_hydrogen_number_density()
            }
            // the number of atoms ionized by absorbed photons equals the number of absorbed photons
            #[law]
            fn one_ionization_per_absorbed_photon(s: Solver, timestep: Time) -> bool {
                let atoms = s.photoionization_rate(timestep) * timestep * s.neutral_hydrogen_number_density() * s.volume;
                atoms == s.num_newly_ionized_hydrogen_atoms(timestep)
            }
        }
        impl Chemistry for HydrogenOnly {
            #[spec]
            fn get_outgoing_rate(&self, cell: &Cell, site: &Site<Self>, incoming: PhotonRate) -> PhotonRate {
                if incoming < self.rate_threshold {
                    return PhotonRate::zero();
                }
                let density = site.density / PROTON_MASS * (1.0 - site.species.ionized_hydrogen_fraction);
                incoming * (-density * NUMBER_WEIGHTED_AVERAGE_CROSS_SECTION * cell.size).exp()
            }
            #[spec(opaque(perform_timestep))]
            fn update_abundances(&self, site: &mut Site<Self>, rate: PhotonRate, timestep: Time, volume: Volume, length: Length) -> Timescale {
                let mut solver = Solver {
                    ionized_hydrogen_fraction: site.species.ionized_hydrogen_fraction,
                    temperature: site.species.temperature,
                    density: site.density,
                    volume: volume,
                    length: length,
                    rate: rate,
                    scale_factor: self.scale_factor,
                    floor: if self.prevent_cooling {
                        Some((site.species.temperature, site.species.ionized_hydrogen_fraction))
                    } else {
                        None
                    },
                };
                let used = solver.perform_timestep(timestep, self.timestep_safety_factor);
                site.species.temperature = solver.temperature;
                site.species.ionized_hydrogen_fraction = solver.ionized_hydrogen_fraction;
                site.species.timestep = used.time;
                used
            }
        }
    }
}
