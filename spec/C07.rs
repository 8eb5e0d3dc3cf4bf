// Global reductions and gathers.
mod communication {
    mod mpi_world {
        impl<S> MpiWorld<S> {
            #[spec(effects(unchecked_all_gather, "MpiWorld::verify_tag"))]
            fn all_gather_sum<T>(&mut self, send: &S) -> T {
                self.verify_tag();
                let all = unchecked_all_gather(&mut self.world, send);
                all.into_iter().map(|x| T::from(x)).sum()
            }
            #[spec(effects(unchecked_all_gather, "MpiWorld::verify_tag"))]
            fn all_gather_min<T>(&mut self, send: &S) -> Option<T> {
                self.verify_tag();
                let all = unchecked_all_gather(&mut self.world, send);
                all.into_iter().map(|x| T::from(x)).min_by(|x, y| x.partial_cmp(y).unwrap_or(std::cmp::Ordering::Equal))
            }
            #[spec(effects(unchecked_all_gather, "MpiWorld::verify_tag"))]
            fn all_gather_max<T>(&mut self, send: &S) -> Option<T> {
                self.verify_tag();
                let all = unchecked_all_gather(&mut self.world, send);
                all.into_iter().map(|x| T::from(x)).max_by(|x, y| x.partial_cmp(y).unwrap_or(std::cmp::Ordering::Equal))
            }
            #[spec(effects(unchecked_all_gather, "MpiWorld::verify_tag"))]
            fn all_gather(&mut self, send: &S) -> Vec<S> {
                self.verify_tag();
                unchecked_all_gather(&mut self.world, send)
            }
            #[spec(effects(all_reduce_into))]
            fn all_reduce_sum(&mut self, send: &u64) -> u64 {
                let mut total = 0;
                self.world.all_reduce_into(send, &mut total, SystemOperation::sum());
                total
            }
            #[spec(effects(all_gather_varcount_into, "MpiWorld::verify_tag"), opaque(get_buffer))]
            fn all_gather_varcount_with_counts(&mut self, send: &[S], counts: &[Count]) -> Vec<S> {
                self.verify_tag();
                let mut total = 0;
                for c in counts.iter() {
                    total += *c as usize;
                }
                let mut buffer: Vec<S> = unsafe { get_buffer(total) };
                let mut offsets = Vec::new();
                let mut next = 0;
                for i in 0..counts.len() {
                    offsets.push(next);
                    next += counts[i];
                }
                let mut partition = PartitionMut::new(&mut buffer, counts, &offsets[..]);
                self.world.all_gather_varcount_into(send, &mut partition);
                buffer
            }
            #[spec(effects("MpiWorld::all_gather", "MpiWorld::all_gather_varcount_with_counts"))]
            fn all_gather_varcount(&mut self, send: &[S]) -> Vec<S> {
                let mut counter: MpiWorld<usize> = self.unchecked_convert();
                let counts: Vec<Count> = counter.all_gather(&send.len()).into_iter().map(|n| n as Count).collect();
                self.all_gather_varcount_with_counts(send, &counts)
            }
            #[spec(effects(unchecked_all_gather))]
            fn all_ranks_have_same_value<T: Equivalence + PartialEq>(&mut self, value: &T) -> bool {
                let values = unchecked_all_gather(&mut self.world, value);
                values.into_iter().all(|v| v == *value)
            }
            #[spec(effects("MpiWorld::all_ranks_have_same_value"))]
            fn verify_tag(&mut self) {
                let tag = self.tag;
                assert!(self.all_ranks_have_same_value(&tag));
            }
            #[spec]
            fn unchecked_convert<S>(&self) -> MpiWorld<S> {
                MpiWorld::<S> { world: SimpleCommunicator::world(), _marker: PhantomData, tag: self.tag }
            }
        }
        impl<T: 'static> MpiWorld<T> {
            // the tag comes from the type, unless one is given
            #[spec(opaque(get_tag_for_type))]
            fn new() -> Self {
                MpiWorld { world: MPI_UNIVERSE.world(), _marker: PhantomData, tag: get_tag_for_type::<T>() }
            }
            #[spec]
            fn new_custom_tag(tag: Tag) -> Self {
                MpiWorld { world: MPI_UNIVERSE.world(), _marker: PhantomData, tag }
            }
        }
        impl<T> From<MpiWorld<T>> for MpiWorld<Identified<T>> {
            #[spec]
            fn from(other: MpiWorld<T>) -> Self {
                MpiWorld { tag: other.tag, world: other.world, _marker: PhantomData }
            }
        }
        #[spec(opaque(get_hash_for_type))]
        fn get_tag_for_type<T: 'static>() -> Tag {
            let h: u64 = get_hash_for_type::<T>();
            (h as i16).abs() as i32
        }
        #[spec(effects(hash))]
        fn get_hash_for_type<T: 'static>() -> u64 {
            let mut hasher = DefaultHasher::new();
            TypeId::of::<T>().hash(&mut hasher);
            hasher.finish()
        }
        #[spec(effects(set_len))]
        unsafe fn get_buffer<T>(n: usize) -> Vec<T> {
            let mut b: Vec<MaybeUninit<T>> = Vec::with_capacity(n);
            b.set_len(n);
            mem::transmute(b)
        }
        #[spec(effects(all_gather_into), opaque(get_buffer))]
        fn unchecked_all_gather<T: Equivalence>(world: &mut SimpleCommunicator, send: &T) -> Vec<T> {
            let n = world.size() as usize;
            let mut buffer = unsafe { get_buffer(n) };
            world.all_gather_into(send, &mut buffer[..]);
            buffer
        }
        impl<T> SizedCommunicator for MpiWorld<T> {
            #[spec]
            fn rank(&self) -> i32 {
                self.world.rank()
            }
            #[spec]
            fn size(&self) -> usize {
                self.world.size() as usize
            }
        }
    }
    mod mod_ {}
}
