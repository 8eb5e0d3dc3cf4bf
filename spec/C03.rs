// All-to-all exchange protocol.
mod communication {
    mod sized_communicator {
        trait SizedCommunicator {
            #[spec]
            fn other_ranks(&self) -> Vec<Rank> {
                let mut v = Vec::new();
                for r in 0..self.size() as i32 {
                    if r != self.rank() {
                        v.push(r);
                    }
                }
                v
            }
            #[spec]
            fn all_ranks(&self) -> Vec<Rank> {
                let mut v = Vec::new();
                for r in 0..self.size() as i32 {
                    v.push(r);
                }
                v
            }
        }
    }
    mod exchange_communicator {
        impl<T> SizedCommunicator for ExchangeCommunicator<T> {
            #[spec(opaque("MpiWorld::size"))]
            fn size(&self) -> usize {
                self.communicator.size()
            }
            #[spec(opaque("MpiWorld::rank"))]
            fn rank(&self) -> Rank {
                self.communicator.rank()
            }
        }
        impl<T> ExchangeCommunicator<T> {
            #[spec(opaque("MpiWorld::new", "DataByRank::from_communicator"))]
            fn new() -> Self {
                let communicator = MpiWorld::new();
                let pending_data = DataByRank::from_communicator(&communicator);
                Self { pending_data, communicator, _marker: PhantomData }
            }
            // one message, and the peer is marked as served
            #[spec(effects("MpiWorld::blocking_send_vec"))]
            fn blocking_send_vec(&mut self, rank: i32, data: Vec<T>) {
                assert!(!self.pending_data[rank]);
                self.communicator.blocking_send_vec(rank, &data);
                self.pending_data[rank] = true;
            }
            #[spec(effects("ExchangeCommunicator::blocking_send_vec"))]
            fn empty_send_to_others(&mut self) {
                let peers = self.communicator.other_ranks();
                for r in peers {
                    if !self.pending_data[r] {
                        self.blocking_send_vec(r, Vec::new());
                    }
                }
            }
            // every item goes to the rank it is filed under; everything is received before the guards end
            #[spec(effects("MpiWorld::immediate_send_vec_wait_guard", "ExchangeCommunicator::receive_vec"))]
            fn exchange_all<U: AsRef<[T]>>(&mut self, data: DataByRank<U>) -> DataByRank<Vec<T>> {
                scope(|scope| {
                    let mut guards = vec![];
                    for (rank, items) in data.iter() {
                        assert!(!self.pending_data[rank]);
                        self.pending_data[rank] = true;
                        let guard = self.communicator.immediate_send_vec_wait_guard(scope, rank, items.as_ref());
                        guards.extend(guard.into_iter());
                    }
                    self.receive_vec()
                })
            }
            #[spec(effects("ExchangeCommunicator::exchange_all"))]
            fn exchange_same_for_all(&mut self, data: &[T]) -> DataByRank<Vec<T>> {
                let peers = self.other_ranks();
                let all: DataByRank<&[T]> = peers.into_iter().map(|r| (r, data)).collect();
                self.exchange_all(all)
            }
            #[spec(effects("ExchangeCommunicator::empty_send_to_others", "MpiWorld::receive_vec"), opaque("DataByRank::insert", "DataByRank::from_communicator"))]
            fn receive_vec(&mut self) -> DataByRank<Vec<T>> {
                self.empty_send_to_others();
                let mut got = DataByRank::from_communicator(&self.communicator);
                for r in self.communicator.other_ranks() {
                    assert!(self.pending_data[r]);
                }
                for r in self.communicator.other_ranks() {
                    let x = self.communicator.receive_vec(r);
                    got.insert(r, x);
                    self.pending_data[r] = false;
                }
                got
            }
        }
        impl<T> From<Communicator<T>> for ExchangeCommunicator<T> {
            #[spec(opaque("DataByRank::from_communicator"))]
            fn from(communicator: Communicator<T>) -> Self {
                let pending_data = DataByRank::from_communicator(&communicator);
                Self { pending_data, communicator, _marker: PhantomData }
            }
        }
        #[spec]
        fn div_ceil(x: usize, y: usize) -> usize {
            if x % y == 0 { x / y } else { x / y + 1 }
        }
        #[spec(effects(all_gather_max))]
        fn global_num_chunks(num_elements: usize, chunk_size: usize) -> usize {
            let mut comm: Communicator<usize> = Communicator::new();
            let mine = if num_elements % chunk_size == 0 { num_elements / chunk_size } else { num_elements / chunk_size + 1 };
            comm.all_gather_max(&mine).unwrap()
        }
        #[spec(opaque(global_num_chunks))]
        fn divide_into_chunks_with_same_num_globally<T>(items: &[T], chunk_size: usize) -> impl Iterator<Item = &[T]> + '_ {
            let n = global_num_chunks(items.len(), chunk_size);
            let mut chunks = items.chunks(chunk_size);
            (0..n).map(move |_| chunks.next().unwrap_or(&[]))
        }
    }
    mod mpi_world {
        impl<S> MpiWorld<S> {
            #[spec(effects(matched_probe_with_tag, matched_receive_vec))]
            fn receive_vec(&mut self, rank: Rank) -> Vec<S> {
                let peer = self.world.process_at_rank(rank);
                let message = peer.matched_probe_with_tag(self.tag);
                message.matched_receive_vec().0
            }
            #[spec(effects(immediate_matched_probe_with_tag, matched_receive_vec))]
            fn try_receive_vec(&mut self, rank: Rank) -> Option<Vec<S>> {
                match self.world.process_at_rank(rank).immediate_matched_probe_with_tag(self.tag) {
                    Some(message) => Some(message.matched_receive_vec().0),
                    None => None,
                }
            }
            #[spec(effects(send_with_tag))]
            fn blocking_send_vec(&mut self, rank: Rank, data: &[S]) {
                self.world.process_at_rank(rank).send_with_tag(data, self.tag);
            }
            #[spec(effects(immediate_send_with_tag))]
            fn immediate_send_vec<'a, Sc: Scope<'a>>(&mut self, scope: Sc, rank: Rank, data: &'a [S]) -> Option<Request<'a, [S], Sc>> {
                Some(self.world.process_at_rank(rank).immediate_send_with_tag(scope, data, self.tag))
            }
            #[spec(effects("MpiWorld::immediate_send_vec", wait))]
            fn immediate_send_vec_wait_guard<'a, Sc: Scope<'a>>(&mut self, scope: Sc, rank: Rank, data: &'a [S]) -> Option<WaitGuard<'a, [S], Sc>> {
                match self.immediate_send_vec(scope, rank, data) {
                    Some(r) => Some(WaitGuard::from(r)),
                    None => None,
                }
            }
        }
    }
}
