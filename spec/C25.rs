mod io {
    mod output {
        #[spec(effects(remove_dir_all, create_dir_all))]
        fn make_output_dirs(parameters: &OutputParameters) {
            if parameters.output_dir.exists() {
                match parameters.handle_existing_output {
                    parameters::HandleExistingOutput::Panic => panic!("exists"),
                    parameters::HandleExistingOutput::Delete => {
                        fs::remove_dir_all(&parameters.output_dir).unwrap();
                    }
                    parameters::HandleExistingOutput::Overwrite => {}
                }
            }
            fs::create_dir_all(&parameters.output_dir).unwrap();
            fs::create_dir_all(parameters.snapshot_dir()).unwrap();
        }
    }
}
mod simulation_builder {
    impl SimulationBuilder {
        #[spec(effects(make_output_dirs, barrier))]
        fn make_output_dir(&self, rank: i32, output_params: &OutputParameters) {
            if rank == 0 {
                make_output_dirs(output_params);
            }
            MPI_UNIVERSE.barrier();
        }
    }
}
mod communication {
    impl WorldRank {
        // one rank, the first, is the main rank
        #[spec]
        fn is_main(&self) -> bool {
            self.0 == 0
        }
        #[spec]
        fn main() -> Rank {
            0
        }
    }
}
