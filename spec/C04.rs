// Containers indexed by rank.
mod communication {
    mod data_by_rank {
        impl<T> Default for DataByRank<T> {
            #[spec]
            fn default() -> Self {
                DataByRank(Vec::new())
            }
        }
        impl<T> Clone for DataByRank<T> {
            #[spec]
            fn clone(&self) -> Self {
                DataByRank(self.0.iter().map(|x| x.clone()).collect())
            }
        }
        impl<T> DataByRank<T> {
            #[spec]
            fn empty() -> Self {
                DataByRank(Vec::new())
            }
            #[spec]
            fn size(&self) -> usize {
                let mut n = 0;
                for x in self.0.iter() {
                    if let Some(v) = x {
                        n += v.len();
                    }
                }
                n
            }
            #[spec]
            fn from_closure_size_and_rank(f: impl Fn() -> T, size: usize, this_rank: Rank) -> Self {
                let mut v = Vec::new();
                for r in 0..size {
                    v.push(if r as Rank == this_rank { None } else { Some(f()) });
                }
                DataByRank(v)
            }
            #[spec]
            fn from_size_and_rank(size: usize, this_rank: Rank) -> Self {
                DataByRank((0..size).map(|r| if r as Rank == this_rank { None } else { Some(T::default()) }).collect())
            }
            #[spec]
            fn from_communicator(communicator: &impl SizedCommunicator) -> Self {
                let n = communicator.size();
                let me = communicator.rank();
                DataByRank((0..n).map(|r| if r as Rank == me { None } else { Some(T::default()) }).collect())
            }
            #[spec]
            fn same_for_other_ranks_in_communicator(t: T, communicator: &impl SizedCommunicator) -> Self {
                let n = communicator.size();
                let me = communicator.rank();
                DataByRank((0..n).map(|r| if r as Rank == me { None } else { Some(t.clone()) }).collect())
            }
            #[spec]
            fn same_for_all_ranks_in_communicator(t: T, communicator: &impl SizedCommunicator) -> Self {
                let n = communicator.size();
                DataByRank((0..n).map(|_| Some(t.clone())).collect())
            }
            #[spec]
            fn get(&self, rank: &Rank) -> Option<&T> {
                self.0[*rank as usize].as_ref()
            }
            #[spec]
            fn get_mut(&mut self, rank: &Rank) -> Option<&mut T> {
                self.0[*rank as usize].as_mut()
            }
            #[spec]
            fn remove(&mut self, rank: &Rank) -> Option<T> {
                let old = self.0[*rank as usize];
                self.0[*rank as usize] = None;
                old
            }
            #[spec]
            fn iter(&self) -> impl Iterator<Item = (Rank, &T)> + '_ {
                (0..self.0.len()).filter(|i| self.0[*i].is_some()).map(|i| (i as Rank, self.0[i].as_ref().unwrap()))
            }
            #[spec]
            fn iter_mut(&mut self) -> impl Iterator<Item = (Rank, &mut T)> + '_ {
                self.0.iter_mut().enumerate().filter_map(|(i, t)| match t {
                    Some(t) => Some((i as Rank, t)),
                    None => None,
                })
            }
            #[spec]
            fn drain_all(&mut self) -> impl Iterator<Item = (Rank, T)> + '_ {
                let old = self.0.clone();
                self.0 = Vec::new();
                (0..old.len()).filter(|i| old[*i].is_some()).map(|i| (i as Rank, old[i].unwrap()))
            }
            #[spec]
            fn insert(&mut self, rank: Rank, data: T) {
                while self.0.len() <= rank as usize {
                    self.0.push(None);
                }
                self.0[rank as usize] = Some(data);
            }
        }
        impl<T> Index<Rank> for DataByRank<T> {
            #[spec]
            fn index(&self, index: Rank) -> &T {
                self.0[index as usize].as_ref().unwrap()
            }
        }
        impl<T> IndexMut<Rank> for DataByRank<T> {
            #[spec]
            fn index_mut(&mut self, index: Rank) -> &mut T {
                self.0[index as usize].as_mut().unwrap()
            }
        }
        impl<T> IntoIter<T> {
            #[spec]
            fn new(data: DataByRank<T>) -> Self {
                IntoIter { data, cursor: 0 }
            }
        }
        impl<T> Iterator for IntoIter<T> {
            #[spec]
            fn next(&mut self) -> Option<(Rank, T)> {
                while self.cursor < self.data.0.len() as i32 {
                    let here = self.cursor;
                    self.cursor = here + 1;
                    let x = self.data.0[here as usize];
                    self.data.0[here as usize] = None;
                    if x.is_some() {
                        return Some((here, x.unwrap()));
                    }
                }
                None
            }
        }
        impl<T> FromIterator<(Rank, T)> for DataByRank<T> {
            #[spec(opaque("DataByRank::insert"))]
            fn from_iter<I: IntoIterator<Item = (Rank, T)>>(iter: I) -> Self {
                let mut d = DataByRank(Vec::new());
                for (r, x) in iter {
                    d.insert(r, x);
                }
                d
            }
        }
        // a stored item is found under its rank, the others are untouched
        #[law]
        fn inserted_item_is_found(mut d: DataByRank<f64>, r: Rank, x: f64) -> bool {
            d.insert(r, x);
            d[r] == x
        }
        #[law]
        fn insertion_leaves_the_others(mut d: DataByRank<f64>, r: Rank, s: Rank, x: f64) -> bool {
            let old = d.0[s as usize];
            let n = d.0.len();
            d.insert(r, x);
            r == s || s as usize >= n || d.0[s as usize] == old
        }
        #[law]
        fn removal_empties_the_slot(mut d: DataByRank<f64>, r: Rank) -> bool {
            let old = d.0[r as usize];
            let got = d.remove(&r);
            got == old && d.0[r as usize].is_none()
        }
    }
}
