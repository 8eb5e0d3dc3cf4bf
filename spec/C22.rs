mod chemistry {
    mod hydrogen_only {
        impl Solver {
            // the analytic derivatives used by the implicit steps are the derivatives of the rates
            #[law]
            fn collision_fit_function_pair(s: Solver) -> bool {
                derivative(s.collision_fit_function(), s.temperature) * Temperature::kelvins(1.0) == s.collision_fit_function_derivative()
            }
            #[law]
            fn case_b_recombination_rate_pair(s: Solver) -> bool {
                derivative(s.case_b_recombination_rate(), s.temperature) == s.case_b_recombination_rate_derivative()
            }
            #[law]
            fn case_b_recombination_cooling_rate_pair(s: Solver) -> bool {
                derivative(s.case_b_recombination_cooling_rate(), s.temperature) == s.case_b_recombination_cooling_rate_derivative()
            }
            #[law]
            fn collisional_ionization_rate_pair(s: Solver) -> bool {
                derivative(s.collisional_ionization_rate(), s.temperature) == s.collisional_ionization_rate_derivative()
            }
            #[law]
            fn collisional_ionization_cooling_rate_pair(s: Solver) -> bool {
                derivative(s.collisional_ionization_cooling_rate(), s.temperature) == s.collisional_ionization_cooling_rate_derivative()
            }
            #[law]
            fn collisional_excitation_cooling_rate_pair(s: Solver) -> bool {
                derivative(s.collisional_excitation_cooling_rate(), s.temperature) == s.collisional_excitation_cooling_rate_derivative()
            }
            #[law]
            fn bremsstrahlung_cooling_rate_pair(s: Solver) -> bool {
                derivative(s.bremsstrahlung_cooling_rate(), s.temperature) == s.bremsstrahlung_cooling_rate_derivative()
            }
            #[law]
            fn compton_cooling_rate_pair(s: Solver) -> bool {
                derivative(s.compton_cooling_rate(), s.temperature) == s.compton_cooling_rate_derivative()
            }
            #[law]
            fn cooling_rate_pair(s: Solver) -> bool {
                derivative(s.cooling_rate(), s.temperature) == s.cooling_rate_derivative()
            }
        }
    }
}
