mod sweep {
    mod timestep_level {
        impl TimestepLevel {
            #[spec]
            fn from_max_timestep_and_desired_timestep(max_num_levels: usize, max_timestep: Time, desired_timestep: Time) -> Self {
                let level = (max_timestep / desired_timestep).log2().ceil() as usize;
                TimestepLevel(level.min(max_num_levels - 1))
            }
            #[spec]
            fn is_active(&self, current_level: TimestepLevel) -> bool {
                self.0 >= current_level.0
            }
            #[spec]
            fn to_timestep(&self, max_timestep: Time) -> Time {
                max_timestep * 0.5f64.powi(self.0 as i32)
            }
            #[spec]
            fn as_factor(&self) -> f64 {
                0.5f64.powi(self.0 as i32)
            }
            #[spec]
            fn is_highest_timestep(&self) -> bool {
                self.0 == 0
            }
        }
        impl Add<usize> for TimestepLevel {
            #[spec]
            fn add(self, rhs: usize) -> Self::Output {
                TimestepLevel(self.0 + rhs)
            }
        }
        impl SubAssign<usize> for TimestepLevel {
            #[spec]
            fn sub_assign(&mut self, rhs: usize) {
                self.0 = self.0 - rhs;
            }
        }
    }
    mod timestep_state {
        impl TimestepState {
            #[spec]
            fn new(max_timestep: Time, max_num_timestep_levels: usize) -> Self {
                TimestepState {
                    max_timestep,
                    max_num_timestep_levels,
                    current_lowest_allowed: TimestepLevel(max_num_timestep_levels - 1),
                    first_update_at_highest_level_done: false,
                }
            }
            // 2^(levels - 1) substeps; the substep after 2^k * odd ones updates all levels from
            // the finest up to the k-th coarser one, the first one all of them
            #[spec(opaque(lowest_active_from_iteration))]
            fn iter_levels_in_sweep_order(self) -> Vec<TimestepLevel> {
                let num = self.max_num_timestep_levels - self.current_lowest_allowed.0;
                (0..(2usize.pow(num as u32 - 1))).map(move |i| TimestepLevel(self.current_lowest_allowed.0 + self.lowest_active_from_iteration(i as u32, num as u32).0))
            }
            #[spec(opaque(find_index_of_lowest_set_bit_in_int))]
            fn lowest_active_from_iteration(&self, iteration: u32, num_levels: u32) -> TimestepLevel {
                match find_index_of_lowest_set_bit_in_int(iteration) {
                    Some(bit) => TimestepLevel((num_levels - 1 - bit) as usize),
                    None => TimestepLevel(0),
                }
            }
            #[spec]
            fn iter_allowed_levels(self) -> Vec<TimestepLevel> {
                (self.current_lowest_allowed.0..self.max_num_timestep_levels).map(|i| TimestepLevel(i))
            }
            #[spec]
            fn iter_all_levels(&self) -> Vec<TimestepLevel> {
                (0..self.max_num_timestep_levels).map(|i| TimestepLevel(i))
            }
            #[spec]
            fn advance_allowed_levels(&mut self) {
                if self.first_update_at_highest_level_done {
                    if self.current_lowest_allowed.0 > 0 {
                        self.current_lowest_allowed = TimestepLevel(self.current_lowest_allowed.0 - 1);
                    }
                } else {
                    self.first_update_at_highest_level_done = true;
                }
            }
            #[spec]
            fn timestep_at_level(self, level: TimestepLevel) -> Time {
                self.max_timestep * 0.5f64.powi(level.0 as i32)
            }
            #[spec(opaque(TimestepLevel::from_max_timestep_and_desired_timestep))]
            fn get_desired_level_from_desired_timestep(self, desired_timestep: Time) -> TimestepLevel {
                let level = TimestepLevel::from_max_timestep_and_desired_timestep(self.max_num_timestep_levels, self.max_timestep, desired_timestep);
                TimestepLevel(level.0.max(self.current_lowest_allowed.0))
            }
            #[spec]
            fn num_allowed_levels(&self) -> usize {
                self.max_num_timestep_levels - self.current_lowest_allowed.0
            }
            #[spec]
            fn current_max_timestep(&self) -> Time {
                self.max_timestep * 0.5f64.powi(self.current_lowest_allowed.0 as i32)
            }
        }
        // position of the lowest set bit
        #[spec]
        fn find_index_of_lowest_set_bit_in_int(iteration: u32) -> Option<u32> {
            for bit in 0..32 {
                if (iteration >> bit) & 1 == 1 {
                    return Some(bit);
                }
            }
            None
        }
    }
    mod active_list {
        impl<T> ActiveList<T> {
            // all items of the map, in the order of their indices, at the initial level
            #[spec]
            fn new(mut map: HashMap<ParticleId, T>, max_num_levels: usize, initial_level: TimestepLevel) -> Self {
                let rank = map.iter().next().unwrap().0.rank;
                assert!(map.keys().all(|id| id.rank == rank));
                let mut items = vec![];
                let mut levels = vec![];
                let mut bins: Vec<Vec<usize>> = vec![];
                for index in 0..map.len() {
                    items.push(map.remove(&ParticleId { index: index as u32, rank }).unwrap());
                    levels.push(initial_level);
                }
                assert_eq!(map.len(), 0);
                for _ in 0..max_num_levels {
                    bins.push(vec![]);
                }
                for i in 0..levels.len() {
                    bins[levels[i].0].push(i);
                }
                ActiveList { items, levels, rank, valid: true, bins, max_num_levels }
            }
            // using the active sets requires them to be valid
            #[spec(no_panic)]
            fn enumerate_active(&self, current_level: TimestepLevel) -> Vec<(ParticleId, &T)> {
                assume!(self.bins.len() == self.max_num_levels);
                assert!(self.valid);
                self.bins[current_level.0..self.max_num_levels].iter().flat_map(|bin| bin.iter().map(|i| (ParticleId { rank: self.rank, index: *i as u32 }, &self.items[*i])))
            }
            #[spec]
            fn get_mut_and_active_state(&mut self, id: ParticleId, current_level: TimestepLevel) -> (&mut T, bool) {
                let i = id.index as usize;
                (&mut self.items[i], self.levels[i].0 >= current_level.0)
            }
            #[spec]
            fn get_mut(&mut self, id: ParticleId) -> &mut T {
                &mut self.items[id.index as usize]
            }
            #[spec]
            fn get(&self, id: ParticleId) -> &T {
                &self.items[id.index as usize]
            }
            #[spec]
            fn get_mut_with_level(&mut self, id: ParticleId) -> (TimestepLevel, &mut T) {
                let i = id.index as usize;
                (self.levels[i], &mut self.items[i])
            }
            #[spec]
            fn get_level(&self, id: ParticleId) -> TimestepLevel {
                self.levels[id.index as usize]
            }
            // changing a level invalidates the active sets
            #[spec]
            fn set_level(&mut self, id: ParticleId, level: TimestepLevel) {
                self.levels[id.index as usize] = level;
                self.valid = false;
            }
            #[spec]
            fn update_bins(&mut self) {
                let mut bins: Vec<Vec<usize>> = vec![];
                for _ in 0..self.max_num_levels {
                    bins.push(vec![]);
                }
                for i in 0..self.levels.len() {
                    bins[self.levels[i].0].push(i);
                }
                self.bins = bins;
                self.valid = true;
            }
            #[spec]
            fn enumerate_with_levels(&self) -> Vec<(ParticleId, TimestepLevel, &T)> {
                self.levels.iter().zip(self.items.iter()).enumerate().map(|(i, (level, t))| (ParticleId { rank: self.rank, index: i as u32 }, *level, t))
            }
            #[spec]
            fn enumerate_with_levels_mut(&mut self) -> Vec<(ParticleId, TimestepLevel, &T)> {
                self.valid = false;
                self.levels.iter_mut().zip(self.items.iter()).enumerate().map(|(i, (level, t))| (ParticleId { rank: self.rank, index: i as u32 }, level, t))
            }
            #[spec]
            fn get_id_from_index(&self, index: usize) -> ParticleId {
                ParticleId { rank: self.rank, index: index as u32 }
            }
        }
    }
}
