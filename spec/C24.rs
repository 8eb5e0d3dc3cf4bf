mod io {
    mod output {
        #[spec(opaque(get_rank_output_assignment_for_rank), effects(get_output_files))]
        fn create_file_system(file: ResMut<OutputFiles>, parameters: Res<OutputParameters>, output_timer: Res<Timer>, num_particles_total: Res<NumParticlesTotal>, _rank: Res<WorldRank>) {
            assert!(file.0.is_none());
            let whole = get_rank_output_assignment_for_rank(&[num_particles_total.0], parameters.num_output_files, 0);
            file.0 = Some(get_output_files(&parameters, &output_timer, &whole, create_file_rw));
        }
        #[spec(effects(get_output_files))]
        fn open_file_system(file: ResMut<OutputFiles>, parameters: Res<OutputParameters>, output_timer: Res<Timer>, assignment: Res<RankAssignment>) {
            assert!(file.0.is_none());
            file.0 = Some(get_output_files(&parameters, &output_timer, &assignment, open_file_rw));
        }
        #[spec]
        fn close_file_system(file: ResMut<OutputFiles>) {
            file.0 = None;
        }
        // consecutive parts of the data of this rank go to the regions of its files
        #[spec(effects(write_slice))]
        fn write_dataset_to_files<T: ToDataset>(data: Vec<T>, files: &[FileWithRegion], descriptor: &DatasetDescriptor) {
            let mut start = 0;
            for f in files.iter() {
                let dataset = f.file.dataset(&descriptor.dataset_name()).expect("Failed to open dataset");
                let n = f.region.end - f.region.start;
                dataset.write_slice(&data[start..start + n], f.region.start..f.region.end).expect("Failed to write slice to dataset");
                start += n;
            }
            assert_eq!(start, data.len());
        }
        #[spec(opaque(get_rank_output_assignment_for_rank), effects(all_gather, insert_resource))]
        fn compute_output_rank_assignment_system(commands: Commands, rank: Res<WorldRank>, parameters: Res<OutputParameters>, particles: Particles<Entity>, num_particles_total: Res<NumParticlesTotal>) {
            let local = NumParticles(particles.iter().count());
            let counts = Communicator::<NumParticles>::new().all_gather(&local);
            let per_rank: Vec<_> = counts.into_iter().map(|x| x.0).collect();
            assert_eq!(per_rank.iter().sum::<usize>(), num_particles_total.0);
            let assignment = get_rank_output_assignment_for_rank(&per_rank, parameters.num_output_files, rank.0);
            commands.insert_resource(assignment);
        }
        mod timer {
            impl Timer {
                #[spec(effects(insert_resource))]
                fn initialize_system(commands: Commands, parameters: Res<OutputParameters>) {
                    let first = match parameters.time_first_snapshot {
                        Some(t) => t,
                        None => units::Time::zero(),
                    };
                    commands.insert_resource(Timer { next_output_time: first, snapshot_num: 0 });
                }
                #[spec]
                fn run_criterion(time: Res<SimulationTime>, timer: Res<Timer>, events: EventReader<StopSimulationEvent>) -> ShouldRun {
                    if !events.is_empty() || timer.next_output_time <= time.0 {
                        ShouldRun::Yes
                    } else {
                        ShouldRun::No
                    }
                }
                // static data is written with the first snapshot only
                #[spec(opaque(is_static))]
                fn dataset_write_run_criterion<T: ToDataset>(time: Res<SimulationTime>, timer: Res<Timer>, events: EventReader<StopSimulationEvent>) -> ShouldRun {
                    let due = !events.is_empty() || timer.next_output_time <= time.0;
                    if due && (!T::is_static() || timer.snapshot_num == 0) {
                        ShouldRun::Yes
                    } else {
                        ShouldRun::No
                    }
                }
                #[spec]
                fn update_system(output_timer: ResMut<Timer>, parameters: Res<OutputParameters>) {
                    output_timer.snapshot_num = output_timer.snapshot_num + 1;
                    output_timer.next_output_time = output_timer.next_output_time + parameters.time_between_snapshots;
                }
                #[spec]
                fn snapshot_num(&self) -> usize {
                    self.snapshot_num
                }
                #[spec]
                fn is_first_snapshot(&self) -> bool {
                    self.snapshot_num == 0
                }
            }
        }
    }
}
