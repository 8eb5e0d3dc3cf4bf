// Bookkeeping of the sweep: what is counted is what is delivered.
mod sweep {
    mod task {
        impl PartialOrd for Task {
            #[spec]
            fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
                self.dir.0.partial_cmp(&other.dir.0)
            }
        }
        impl Ord for Task {
            #[spec]
            fn cmp(&self, other: &Self) -> std::cmp::Ordering {
                self.dir.0.cmp(&other.dir.0)
            }
        }
    }
    mod grid {
        mod cell {
            impl ParticleType {
                #[spec]
                fn is_boundary(&self) -> bool {
                    match self {
                        ParticleType::Boundary => true,
                        _ => false,
                    }
                }
                #[spec]
                fn is_local(&self) -> bool {
                    match self {
                        ParticleType::Local(_) => true,
                        _ => false,
                    }
                }
                #[spec]
                fn unwrap_id(&self) -> ParticleId {
                    match self {
                        ParticleType::Local(id) => *id,
                        ParticleType::Remote(n) => n.id,
                        ParticleType::LocalPeriodic(n) => n.id,
                        ParticleType::RemotePeriodic(n) => n.id,
                        _ => panic!(),
                    }
                }
            }
        }
    }
    impl<C: Chemistry> Sweep<C> {
        #[spec]
        fn get_level(&self, id: ParticleId) -> TimestepLevel {
            if id.rank == self.rank {
                self.cells.levels[id.index as usize]
            } else {
                self.halo_levels[&id]
            }
        }
        #[spec(opaque(get_level))]
        fn is_active(&self, id: ParticleId) -> bool {
            self.get_level(id).0 >= self.current_level.0
        }
        // every active cell, in every direction, waits for one contribution per upwind face to an
        // active neighbour of the grid; periodic neighbours are not waited for; every
        // contribution from another rank is counted as a message item to be received
        #[spec(opaque(is_active, "Face::points_upwind", "ActiveList::enumerate_active", "Directions::enumerate", other_ranks))]
        fn init_counts(&mut self) {
            let num = self.directions.len();
            self.to_solve_count = CountByDir::new(num, self.cells.enumerate_active(self.current_level).count());
            self.to_receive_count = self.communicator.other_ranks().into_iter().map(|rank| (rank, 0)).collect();
            for (id, cell) in self.cells.enumerate_active(self.current_level) {
                let mut missing = CountByDir::new(num, 0);
                for (dir_index, dir) in self.directions.enumerate() {
                    for (face, neighbour) in cell.neighbours.iter() {
                        if face.points_upwind(dir) && !neighbour.is_boundary() && self.is_active(neighbour.unwrap_id()) {
                            match neighbour {
                                ParticleType::Local(_) => missing[dir_index] += 1,
                                ParticleType::Remote(n) => {
                                    missing[dir_index] += 1;
                                    self.to_receive_count[n.rank] += 1;
                                }
                                ParticleType::RemotePeriodic(n) => self.to_receive_count[n.rank] += 1,
                                _ => {}
                            }
                        }
                    }
                }
                self.sites.get_mut(id).num_missing_upwind = missing;
            }
        }
        // the initial tasks are those that wait for nothing
        #[spec]
        fn get_initial_tasks(&self) -> PriorityQueue<Task> {
            self.directions
                .enumerate()
                .flat_map(|(dir, _)| self.sites.enumerate_active(self.current_level).filter(|(_, site)| site.num_missing_upwind.count_by_dir[dir.0] == 0).map(|(id, _)| Task { id, dir }))
                .collect()
        }
        // a contribution to an active cell is counted, and the last one makes the task ready
        #[spec]
        fn handle_local_neighbour(&mut self, incoming_rate_correction: Rate<C>, dir: DirectionIndex, neighbour: ParticleId) {
            let i = neighbour.index as usize;
            self.sites.items[i].incoming_total_rate[dir.0] += incoming_rate_correction;
            if self.sites.levels[i].0 >= self.current_level.0 {
                let left = self.sites.items[i].num_missing_upwind.count_by_dir[dir.0] - 1;
                self.sites.items[i].num_missing_upwind.count_by_dir[dir.0] = left;
                if left == 0 {
                    self.to_solve.push(Task { dir, id: neighbour });
                }
            }
        }
        #[spec(opaque(is_active))]
        fn handle_remote_neighbour(&mut self, task: &Task, rate_correction: Rate<C>, remote: &RemoteNeighbour) {
            if self.is_active(remote.id) {
                self.to_send[remote.rank].push(RateData { dir: task.dir, rate: rate_correction, id: remote.id, periodic: false });
            }
        }
        #[spec(opaque(is_active))]
        fn handle_remote_periodic_neighbour(&mut self, task: &Task, rate_correction: Rate<C>, neighbour: &RemotePeriodicNeighbour) {
            if self.is_active(neighbour.id) {
                self.to_send[neighbour.rank].push(RateData { dir: task.dir, rate: rate_correction, id: neighbour.id, periodic: true });
            }
        }
        // every item received is taken off the count and handed to the cell it is for
        #[spec(effects(handle_local_neighbour, handle_local_periodic_neighbour, "SweepCommunicator::try_recv"))]
        fn receive_messages_from_rank(&mut self, rank: Rank) {
            if let Some(items) = self.communicator.try_recv(rank) {
                self.to_receive_count[rank] -= items.len();
                for item in items {
                    if item.periodic {
                        self.handle_local_periodic_neighbour(item.rate, item.dir, item.id);
                    } else {
                        self.handle_local_neighbour(item.rate, item.dir, item.id);
                    }
                }
            }
        }
        #[spec(effects(receive_messages_from_rank), opaque(other_ranks))]
        fn receive_all_messages(&mut self) {
            for rank in self.communicator.other_ranks() {
                if self.to_receive_count[rank] > 0 {
                    self.receive_messages_from_rank(rank);
                }
            }
        }
        #[spec(effects("SweepCommunicator::try_send_all"))]
        fn send_all_messages(&mut self) {
            self.communicator.try_send_all(&mut self.to_send);
        }
        #[spec(opaque("SweepCommunicator::count_remaining_to_send"))]
        fn remaining_to_send_count(&self) -> usize {
            self.communicator.count_remaining_to_send()
        }
        // the sweep ends when nothing is left to solve, to send or to receive
        #[spec(effects(receive_all_messages, solve_task, send_all_messages), opaque(remaining_to_send_count))]
        fn solve(&mut self) {
            while self.to_solve_count.total() > 0 || self.remaining_to_send_count() > 0 || self.to_receive_count.iter().map(|(_, num)| num).sum::<usize>() > 0 {
                if self.to_solve.is_empty() {
                    self.receive_all_messages();
                }
                let mut num_solved = 0;
                while let Some(task) = self.to_solve.pop() {
                    self.solve_task(task);
                    num_solved += 1;
                    if num_solved > self.num_tasks_to_solve_before_send_receive {
                        break;
                    }
                }
                self.send_all_messages();
            }
        }
        // counts first, then initial tasks, the sweep, and the chemistry last
        #[spec(skip("arg0"), effects(init_counts, check_deadlock, solve, update_chemistry), opaque(get_initial_tasks, "Performance::start", "Performance::stop"))]
        fn single_sweep(&mut self, timers: &mut Performance) {
            timers.start(self.current_level);
            self.init_counts();
            self.to_solve = self.get_initial_tasks();
            if self.check_deadlock {
                self.check_deadlock();
            }
            self.solve();
            timers.stop(self.current_level);
            self.update_chemistry(timers);
        }
        // both lists get the same level, and the neighbours on other ranks are told
        #[spec(skip("arg0"), effects(communicate_levels), opaque("Performance::time", "TimestepState::get_desired_level_from_desired_timestep"))]
        fn update_timestep_levels(&mut self, timers: &mut Performance) {
            for (id, level, site) in self.sites.enumerate_with_levels_mut() {
                let wanted = self.timestep_state.get_desired_level_from_desired_timestep(self.timestep_safety_factor * site.change_timescale);
                *level = wanted;
                self.cells.set_level(id, wanted);
            }
            self.sites.update_bins();
            self.cells.update_bins();
            self.communicate_levels();
        }
        #[spec(effects("ExchangeCommunicator::exchange_all"), opaque("ExchangeCommunicator::new", "DataByRank::from_communicator", "ActiveList::enumerate_with_levels"))]
        fn communicate_levels(&mut self) {
            let mut comm = ExchangeCommunicator::new();
            let mut data: DataByRank<Vec<TimestepLevelData>> = DataByRank::from_communicator(&comm);
            for (id, level, cell) in self.cells.enumerate_with_levels() {
                for (_, neighbour) in cell.neighbours.iter() {
                    match neighbour {
                        ParticleType::Remote(n) => data[n.rank].push(TimestepLevelData { level, id }),
                        ParticleType::RemotePeriodic(n) => data[n.rank].push(TimestepLevelData { level, id }),
                        _ => {}
                    }
                }
            }
            for (_, levels) in comm.exchange_all(data).iter() {
                for l in levels {
                    self.halo_levels.insert(l.id, l.level);
                }
            }
        }
    }
}
