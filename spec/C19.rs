// Photons leaving a cell reach the neighbours behind its downwind faces.
mod chemistry {
    trait Photons {
        #[spec]
        fn make_positive(&mut self) {
            if *self < Self::zero() {
                *self = Self::zero();
            }
        }
    }
    impl Photons for PhotonRate {
        #[spec]
        fn relative_change_to(&self, other: &Self) -> Dimensionless {
            ((*self - *other).abs() / self.abs()).min(1.0 / f64::EPSILON)
        }
        #[spec]
        fn below_threshold(&self, threshold: PhotonRate) -> bool {
            self.abs() < threshold.abs()
        }
    }
    mod timescale {
        impl Timescale {
            #[spec]
            fn photon_rate(time: Time) -> Self {
                Timescale { time, process: Process::PhotonRate }
            }
            #[spec]
            fn temperature(time: Time) -> Self {
                Timescale { time, process: Process::Temperature }
            }
            #[spec]
            fn ionization_fraction(time: Time) -> Self {
                Timescale { time, process: Process::IonizationFraction }
            }
            // the shorter of the two
            #[spec]
            fn min(&self, other: Self) -> Self {
                if self.time < other.time { *self } else { other }
            }
        }
    }
}
mod sweep {
    mod site {
        impl<C: Chemistry> Site<C> {
            // nothing has arrived or left yet; the source is the one given
            #[spec]
            fn new(directions: &Directions, species: Species<C>, density: Density, source: C::Photons) -> Self {
                let n = directions.directions.len();
                Site {
                    species,
                    density,
                    source,
                    num_missing_upwind: CountByDir { count_by_dir: vec![] },
                    incoming_total_rate: (0..n).map(|_| C::Photons::zero()).collect(),
                    outgoing_total_rate: (0..n).map(|_| C::Photons::zero()).collect(),
                    periodic_source: (0..n).map(|_| C::Photons::zero()).collect(),
                    previous_incoming_total_rate: C::Photons::zero(),
                    change_timescale: Time::zero(),
                }
            }
            #[spec]
            fn total_incoming_rate(&self) -> C::Photons {
                self.incoming_total_rate.iter().cloned().sum()
            }
            #[spec]
            fn source_per_direction_bin(&self, num_directions: usize) -> C::Photons {
                self.source / num_directions as f64
            }
            #[spec]
            fn get_rate(&self, num_directions: usize, dir: DirectionIndex) -> Rate<C> {
                self.incoming_total_rate[dir.0] + self.periodic_source[dir.0] + self.source / num_directions as f64
            }
        }
    }
    mod grid {
        mod cell {
            impl Cell {
                #[spec]
                fn iter_faces(&self) -> Vec<&Face> {
                    self.neighbours.iter().map(|n| &n.0)
                }
                #[spec(opaque(points_downwind))]
                fn iter_downwind_faces(&self, direction: &VecDimensionless) -> Vec<&Face> {
                    self.neighbours.iter().map(|n| &n.0).filter(|f| f.points_downwind(direction))
                }
                #[spec]
                fn volume(&self) -> Volume {
                    self.volume
                }
            }
            impl Face {
                #[spec]
                fn points_upwind(&self, dir: &VecDimensionless) -> bool {
                    self.normal.dot(*dir) < 0.0
                }
                #[spec]
                fn points_downwind(&self, dir: &VecDimensionless) -> bool {
                    self.normal.dot(*dir) > 0.0
                }
            }
        }
    }
    impl<C: Chemistry> Sweep<C> {
        // negative round-off is removed from the incoming rate before it is used
        #[spec(opaque("Chemistry::get_outgoing_rate"))]
        fn get_outgoing_rate(&mut self, task: &Task) -> Rate<C> {
            let i = task.id.index as usize;
            self.sites.items[i].incoming_total_rate[task.dir.0].make_positive();
            let rate = self.sites.items[i].get_rate(self.directions.directions.len(), task.dir);
            self.chemistry.get_outgoing_rate(&self.cells.items[i], &self.sites.items[i], rate)
        }
        // the change of the outgoing rate goes to the downwind neighbours in proportion to the projected areas
        #[spec(effects(handle_local_neighbour, handle_remote_neighbour, handle_local_periodic_neighbour, handle_remote_periodic_neighbour), opaque(get_outgoing_rate, points_downwind))]
        fn solve_task(&mut self, task: Task) {
            let rate = self.get_outgoing_rate(&task);
            let i = task.id.index as usize;
            let change = rate - self.sites.items[i].outgoing_total_rate[task.dir.0];
            self.sites.items[i].outgoing_total_rate[task.dir.0] = rate;
            self.to_solve_count.count_by_dir[task.dir.0] -= 1;
            let dir = &self.directions.directions[task.dir.0];
            let cell = &self.cells.items[i];
            let total: FaceArea = cell.neighbours.iter().filter(|n| n.0.points_downwind(dir)).map(|n| n.0.area * n.0.normal.dot(**dir)).sum();
            for (face, neighbour) in cell.neighbours.iter() {
                if face.points_downwind(dir) {
                    let share = change * (face.area * face.normal.dot(**dir) / total);
                    match neighbour {
                        ParticleType::Local(id) => self.handle_local_neighbour(share, task.dir, *id),
                        ParticleType::Remote(remote) => self.handle_remote_neighbour(&task, share, remote),
                        ParticleType::LocalPeriodic(n) => self.handle_local_periodic_neighbour(share, task.dir, n.id),
                        ParticleType::RemotePeriodic(remote) => self.handle_remote_periodic_neighbour(&task, share, remote),
                        ParticleType::Boundary => {}
                    }
                }
            }
        }
        #[spec]
        fn handle_local_neighbour(&mut self, incoming_rate_correction: Rate<C>, dir: DirectionIndex, neighbour: ParticleId) {
            let i = neighbour.index as usize;
            self.sites.items[i].incoming_total_rate[dir.0] += incoming_rate_correction;
            if self.sites.levels[i].0 >= self.current_level.0 {
                let left = self.sites.items[i].num_missing_upwind.count_by_dir[dir.0] - 1;
                self.sites.items[i].num_missing_upwind.count_by_dir[dir.0] = left;
                if left == 0 {
                    self.to_solve.push(Task { dir, id: neighbour });
                }
            }
        }
        #[spec]
        fn handle_local_periodic_neighbour(&mut self, incoming_rate_correction: Rate<C>, dir: DirectionIndex, neighbour: ParticleId) {
            self.sites.items[neighbour.index as usize].periodic_source[dir.0] += incoming_rate_correction;
        }
        // what is meant for a cell of another rank is queued for that rank
        #[law(opaque(is_active), known("fn:Sweep::is_active"))]
        fn every_share_for_a_remote_cell_is_sent(mut s: Sweep<C>, task: Task, rate: Rate<C>, remote: RemoteNeighbour) -> bool {
            let n = s.to_send[remote.rank].len();
            s.handle_remote_neighbour(&task, rate, &remote);
            s.to_send[remote.rank].len() == n + 1
        }
        #[law(opaque(is_active), known("fn:Sweep::is_active"))]
        fn every_share_for_a_remote_periodic_cell_is_sent(mut s: Sweep<C>, task: Task, rate: Rate<C>, remote: RemotePeriodicNeighbour) -> bool {
            let n = s.to_send[remote.rank].len();
            s.handle_remote_periodic_neighbour(&task, rate, &remote);
            s.to_send[remote.rank].len() == n + 1
        }
        #[spec(opaque(is_active))]
        fn handle_remote_neighbour(&mut self, task: &Task, rate_correction: Rate<C>, remote: &RemoteNeighbour) {
            if self.is_active(remote.id) {
                self.to_send[remote.rank].push(RateData { dir: task.dir, rate: rate_correction, id: remote.id, periodic: false });
            }
        }
        #[spec(opaque(is_active))]
        fn handle_remote_periodic_neighbour(&mut self, task: &Task, rate_correction: Rate<C>, neighbour: &RemotePeriodicNeighbour) {
            if self.is_active(neighbour.id) {
                self.to_send[neighbour.rank].push(RateData { dir: task.dir, rate: rate_correction, id: neighbour.id, periodic: true });
            }
        }
    }
}
