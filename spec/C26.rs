mod domain {
    #[spec(opaque(into_key, get_owning_rank))]
    fn set_outgoing_entities_system(
        outgoing_entities: ResMut<OutgoingEntities>,
        decomposition: Res<DecompositionState>,
        world_rank: Res<WorldRank>,
        box_: Res<SimulationBox>,
        particles: Particles<(Entity, &Position)>,
    ) {
        for (entity, pos) in particles.iter() {
            let owner = decomposition.get_owning_rank(pos.into_key(&*box_));
            if owner != **world_rank {
                outgoing_entities.0[owner].push(entity);
            }
        }
    }
    mod key {
        impl Key for PeanoKey2d {
            #[spec]
            fn middle(start: Self, end: Self) -> Self {
                PeanoKey2d(start.0 / 2 + end.0 / 2)
            }
            #[spec]
            fn next(self) -> Self {
                match self.0.checked_add(1) {
                    Some(x) => PeanoKey2d(x),
                    None => self,
                }
            }
        }
        impl Key for PeanoKey3d {
            #[spec]
            fn middle(start: Self, end: Self) -> Self {
                PeanoKey3d(start.0 / 2 + end.0 / 2)
            }
            #[spec]
            fn next(self) -> Self {
                match self.0.checked_add(1) {
                    Some(x) => PeanoKey3d(x),
                    None => self,
                }
            }
        }
        impl IntoKey for MVec2 {
            #[spec(opaque(from_point_and_min_max))]
            fn into_key(self, extent: &Extent<Self>) -> PeanoKey2d {
                PeanoKey2d::from_point_and_min_max(self, extent.min, extent.max)
            }
        }
        impl IntoKey for MVec3 {
            #[spec(opaque(from_point_and_min_max))]
            fn into_key(self, extent: &Extent<Self>) -> PeanoKey3d {
                PeanoKey3d::from_point_and_min_max(self, extent.min, extent.max)
            }
        }
        impl IntoKey for Vec2Length {
            #[spec(opaque(from_point_and_min_max))]
            fn into_key(self, extent: &Extent<Self>) -> PeanoKey2d {
                PeanoKey2d::from_point_and_min_max(self.value_unchecked(), extent.min.value_unchecked(), extent.max.value_unchecked())
            }
        }
        impl IntoKey for Vec3Length {
            #[spec(opaque(from_point_and_min_max))]
            fn into_key(self, extent: &Extent<Self>) -> PeanoKey3d {
                PeanoKey3d::from_point_and_min_max(self.value_unchecked(), extent.min.value_unchecked(), extent.max.value_unchecked())
            }
        }
    }
    mod decomposition {
        #[spec(opaque(binary_search, middle))]
        fn binary_search<T: Key>(start: T, end: T, eval: impl FnMut(T, usize) -> Ordering, depth: usize) -> T {
            let pos = T::middle(start, end);
            match eval(pos, depth) {
                Ordering::Less => binary_search(pos, end, eval, depth + 1),
                Ordering::Equal => pos,
                Ordering::Greater => binary_search(start, pos, eval, depth + 1),
            }
        }
        trait LoadCounter<K: Key> {
            #[spec(opaque(min_key, max_key, load_in_range, next))]
            fn total_load(&mut self) -> Work {
                let first = self.min_key();
                let last = self.max_key();
                self.load_in_range(first, last.next())
            }
        }
        impl<K: Key> Decomposition<K> {
            #[spec(opaque(find_segments, get_loads, total_load))]
            fn new<C: LoadCounter<K>>(counter: &mut C, num_ranks: usize) -> Self {
                let total = counter.total_load();
                let mut d = Decomposer {
                    counter: counter,
                    num_segments: num_ranks,
                    load_per_segment: total / (num_ranks as u64),
                    _marker: PhantomData,
                };
                let segments = d.find_segments();
                let loads = d.get_loads(&segments);
                let mut cuts = vec![];
                for s in segments.iter() {
                    cuts.push(s.end);
                }
                Decomposition { cuts: cuts, loads: loads, num_ranks: num_ranks, extents: vec![] }
            }
            // a key equal to a cut belongs to the next rank
            #[spec]
            fn get_owning_rank(&self, key: K) -> Rank {
                match self.cuts.binary_search(&key) {
                    Ok(x) => (x + 1) as i32,
                    Err(x) => x as i32,
                }
            }
            #[spec]
            fn get_imbalance(&self) -> f64 {
                let most = *self.loads.iter().max().unwrap();
                let least = *self.loads.iter().min().unwrap();
                (most - least) as f64 / most as f64
            }
            #[spec]
            fn set_extents(&mut self, extents: Vec<Extent<VecLength>>) {
                self.extents = extents;
            }
            #[spec(opaque(bounding_boxes_overlap_periodic))]
            fn rank_owns_part_of_search_radius(&self, rank: Rank, extent: &Extent<MVec>, box_: &SimulationBox) -> bool {
                let theirs = &self.extents[rank as usize];
                bounding_boxes_overlap_periodic(
                    box_,
                    &VecLength::new_unchecked(extent.center()),
                    &VecLength::new_unchecked(extent.side_lengths()),
                    &theirs.center(),
                    &theirs.side_lengths(),
                )
            }
        }
        impl<'a, K: Key, C: LoadCounter<K>> Decomposer<'a, K, C> {
            // every segment starts where the previous one ends
            #[spec(opaque(min_key, max_key, next, find_cut_for_next_segment))]
            fn find_segments(&mut self) -> Vec<Segment<K>> {
                let mut out = vec![];
                let mut begin = self.counter.min_key();
                for _ in 0..self.num_segments - 1 {
                    let cut = self.find_cut_for_next_segment(begin);
                    out.push(Segment { start: begin, end: cut });
                    begin = cut;
                }
                out.push(Segment { start: begin, end: self.counter.max_key().next() });
                out
            }
            #[spec]
            fn get_search_result(&self, load: Work, depth: usize) -> Ordering {
                if depth == K::MAX_DEPTH {
                    Ordering::Equal
                } else {
                    load.partial_cmp(&self.load_per_segment).unwrap()
                }
            }
            #[spec(opaque(load_in_range))]
            fn get_loads(&mut self, segments: &[Segment<K>]) -> Vec<Work> {
                let mut out = vec![];
                for s in segments.iter() {
                    out.push(self.counter.load_in_range(s.start, s.end));
                }
                out
            }
        }
        impl<K: Key> KeyCounter<K> {
            #[spec(opaque(into_key))]
            fn from_points_and_extent<P: IntoKey<Key = K> + Copy>(points: impl Iterator<Item = P>, extent: &Extent<P>) -> Self {
                let mut keys: Vec<K> = points.map(|p| p.into_key(extent)).collect();
                keys.sort();
                KeyCounter { keys: keys }
            }
            #[spec]
            fn new(keys: Vec<K>) -> Self {
                let mut k = keys;
                k.sort();
                KeyCounter { keys: k }
            }
        }
        impl<K: Key> LoadCounter<K> for KeyCounter<K> {
            #[spec]
            fn min_key(&mut self) -> K {
                *self.keys.iter().min().unwrap()
            }
            #[spec]
            fn max_key(&mut self) -> K {
                *self.keys.iter().max().unwrap()
            }
        }
        impl<K: Key + 'static> ParallelCounter<K> {
            #[spec(opaque(min_key, max_key), effects(all_gather_min, all_gather_max))]
            fn new(local_counter: KeyCounter<K>) -> Self {
                let mut local = local_counter;
                let mut comm: Communicator<K> = MpiWorld::new_custom_tag(9001);
                let min_key = comm.all_gather_min(&local.min_key()).unwrap();
                let max_key = comm.all_gather_max(&local.max_key()).unwrap();
                ParallelCounter { comm: MpiWorld::new_custom_tag(9000), local_counter: local, min_key: min_key, max_key: max_key }
            }
        }
        impl<K: Key> LoadCounter<K> for ParallelCounter<K> {
            #[spec(opaque(KeyCounter::load_in_range), effects(all_reduce_sum))]
            fn load_in_range(&mut self, start: K, end: K) -> Work {
                let work = self.local_counter.load_in_range(start, end);
                self.comm.all_reduce_sum(&work)
            }
            #[spec]
            fn min_key(&mut self) -> K {
                self.min_key
            }
            #[spec]
            fn max_key(&mut self) -> K {
                self.max_key
            }
        }
    }
    mod exchange_data_plugin {
        impl OutgoingEntities {
            #[spec]
            fn add(&mut self, rank: Rank, entity: Entity) {
                self.0[rank].push(entity);
            }
        }
        impl<T> ExchangeDataPlugin<T> {
            #[spec]
            fn fill_buffers_system(entity_exchange: Res<OutgoingEntities>, query: Particles<&T>, buffer: ResMut<ExchangeBuffers<T>>) {
                for (rank, entities) in entity_exchange.0.iter() {
                    let mut data = vec![];
                    for entity in entities.iter() {
                        data.push(query.get(*entity).unwrap().clone());
                    }
                    buffer.0.insert(rank, data);
                }
            }
            #[spec]
            fn reset_buffers_system(buffers: ResMut<ExchangeBuffers<T>>, size: Res<WorldSize>, rank: Res<WorldRank>) {
                *buffers = ExchangeBuffers(DataByRank::from_size_and_rank(size.0, rank.0));
            }
            #[spec(opaque(exchange_all), effects(insert))]
            fn exchange_buffers_system(commands: Commands, buffers: ResMut<ExchangeBuffers<T>>, spawned_entities: Res<SpawnedEntities>) {
                let mut communicator = ExchangeCommunicator::<T>::new();
                let outgoing = std::mem::take(&mut buffers.0);
                let mut incoming = communicator.exchange_all(outgoing);
                for (rank, data) in incoming.drain_all() {
                    let spawned = spawned_entities.0[rank].clone();
                    for (entity, component) in spawned.iter().zip(data.into_iter()) {
                        commands.entity(*entity).insert(component);
                    }
                }
            }
        }
        #[spec]
        fn reset_outgoing_entities_system(outgoing: ResMut<OutgoingEntities>, size: Res<WorldSize>, rank: Res<WorldRank>) {
            *outgoing = OutgoingEntities(DataByRank::from_size_and_rank(size.0, rank.0));
        }
        #[spec(effects(despawn))]
        fn despawn_outgoing_entities_system(commands: Commands, entity_exchange: Res<OutgoingEntities>) {
            for (_, entities) in entity_exchange.0.iter() {
                for entity in entities.iter() {
                    commands.entity(*entity).despawn();
                }
            }
        }
        #[spec(opaque(exchange_all), effects(spawn))]
        fn spawn_incoming_entities_system(commands: Commands, spawned_entities: ResMut<SpawnedEntities>, num_outgoing: Res<OutgoingEntities>) {
            let mut communicator: ExchangeCommunicator<NumEntities> = ExchangeCommunicator::new();
            let data: DataByRank<Vec<NumEntities>> = communicator
                .other_ranks()
                .into_iter()
                .map(|rank| (rank, vec![NumEntities(num_outgoing.get(&rank).unwrap().len())]))
                .collect();
            let incoming = communicator.exchange_all(data);
            for (rank, counts) in incoming {
                let mut new = vec![];
                for _ in 0..**(&counts[0]) {
                    new.push(commands.spawn(LocalParticle).id());
                }
                spawned_entities.0.insert(rank, new);
            }
        }
    }
}
