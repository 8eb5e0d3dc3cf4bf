mod sweep {
    mod communicator {
        impl<C: Chemistry> SweepCommunicator<C> {
            #[spec]
            fn new() -> Self {
                let world = MpiWorld::<RateData<C>>::new();
                let buffers = DataByRank::from_communicator(&world);
                let pending = DataByRank::from_communicator(&world);
                SweepCommunicator { communicator: world, send_buffers: buffers, requests: pending }
            }
            #[spec]
            fn count_remaining_to_send(&self) -> usize {
                let mut n = 0;
                for (_, b) in self.send_buffers.iter() {
                    n += b.len();
                }
                n
            }
            // a buffer is emptied only once its request has completed
            #[spec(opaque(request_completed))]
            fn update_pending_requests(&mut self) {
                for rank in self.communicator.other_ranks() {
                    let done = match self.requests[rank] {
                        Some(request) => self.request_completed(request),
                        None => true,
                    };
                    if done {
                        self.requests[rank] = None;
                        self.send_buffers[rank].clear();
                    }
                }
            }
            // a buffer is filled only if nothing is pending for its peer; data for busy peers stays where it is
            #[spec(opaque(to_unscoped, immediate_send_vec), effects(update_pending_requests))]
            fn try_send_all(&mut self, to_send: &mut DataByRank<Vec<RateData<C>>>) {
                self.update_pending_requests();
                for (rank, data) in to_send.iter_mut() {
                    if !data.is_empty() && self.requests[rank].is_none() {
                        self.send_buffers[rank].append(data);
                        self.requests[rank] = scope(|s| {
                            let request = self.communicator.immediate_send_vec(s, rank, &self.send_buffers[rank][..]);
                            request.map(to_unscoped)
                        });
                    }
                }
            }
            #[spec(opaque(try_receive_vec))]
            fn try_recv(&mut self, rank: Rank) -> Option<Vec<RateData<C>>> {
                self.communicator.try_receive_vec(rank)
            }
        }
        impl<C: Chemistry> Drop for SweepCommunicator<C> {
            #[spec(effects(wait_for_request))]
            fn drop(&mut self) {
                for (rank, request) in self.requests.iter() {
                    if let Some(request) = request {
                        self.wait_for_request(rank, *request);
                    }
                }
            }
        }
    }
}
