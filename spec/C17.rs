// Indexed collections: what was stored under an index is what comes back.
mod voronoi {
    mod indexed_arena {
        impl<Id, T> IndexedArena<Id, T> {
            #[spec]
            fn get(&self, id: Id) -> Option<&T> {
                self.arena.get(id.into())
            }
            #[spec]
            fn insert(&mut self, t: T) -> Id {
                let id = self.arena.insert(t);
                id.into()
            }
            #[spec]
            fn remove(&mut self, index: Id) -> Option<T> {
                self.arena.remove(index.into())
            }
            #[spec]
            fn contains(&self, id: Id) -> bool {
                self.arena.contains(id.into())
            }
            #[spec]
            fn len(&self) -> usize {
                self.arena.len()
            }
            #[spec]
            fn size(&self) -> usize {
                self.arena.capacity()
            }
            #[spec]
            fn iter(&self) -> impl Iterator<Item = (Id, &T)> {
                self.arena.iter().map(|(idx, t)| (idx.into(), t))
            }
        }
        impl<Id, T> IntoIterator for IndexedArena<Id, T> {
            #[spec]
            fn into_iter(self) -> Self::IntoIter {
                self.arena.into_iter()
            }
        }
        impl<Id, T> std::ops::Index<Id> for IndexedArena<Id, T> {
            #[spec]
            fn index(&self, index: Id) -> &T {
                &self.arena[index.into()]
            }
        }
        impl<Id, T> std::ops::IndexMut<Id> for IndexedArena<Id, T> {
            #[spec]
            fn index_mut(&mut self, index: Id) -> &mut T {
                &mut self.arena[index.into()]
            }
        }
        impl<Id, T> Default for IndexedArena<Id, T> {
            #[spec]
            fn default() -> Self {
                Self { _marker: PhantomData, arena: Arena::default() }
            }
        }
        impl<Id, T> IndexedVec<Id, T> {
            #[spec]
            fn insert(&mut self, t: T) -> Id {
                let at = self.values.len();
                self.values.push(t);
                at.into()
            }
            #[spec]
            fn iter(&self) -> impl Iterator<Item = (Id, &T)> {
                (0..self.values.len()).map(|i| (i.into(), &self.values[i]))
            }
        }
        impl<Id, T> IntoIterator for IndexedVec<Id, T> {
            #[spec]
            fn into_iter(self) -> Self::IntoIter {
                self.values.into_iter()
            }
        }
        impl<Id, T> std::ops::Index<Id> for IndexedVec<Id, T> {
            #[spec]
            fn index(&self, index: Id) -> &T {
                &self.values[index.into()]
            }
        }
        impl<Id, T> std::ops::IndexMut<Id> for IndexedVec<Id, T> {
            #[spec]
            fn index_mut(&mut self, index: Id) -> &mut T {
                &mut self.values[index.into()]
            }
        }
        impl<Id, T> Default for IndexedVec<Id, T> {
            #[spec]
            fn default() -> Self {
                Self { _marker: PhantomData, values: vec![] }
            }
        }
        #[law]
        fn stored_value_comes_back(mut v: IndexedVec<usize, f64>, x: f64) -> bool {
            let id = v.insert(x);
            v[id] == x
        }
        #[law]
        fn new_index_is_next_position(mut v: IndexedVec<usize, f64>, x: f64) -> bool {
            let n = v.values.len();
            let id = v.insert(x);
            id == n && v.values.len() == n + 1
        }
        #[law]
        fn insertion_leaves_the_others(mut v: IndexedVec<usize, f64>, x: f64, i: usize) -> bool {
            let old = v.values[i];
            let n = v.values.len();
            v.insert(x);
            !(i < n) || v.values[i] == old
        }
    }
}
mod sweep {
    mod count_by_dir {
        impl CountByDir {
            #[spec]
            fn new(num_directions: usize, value: usize) -> Self {
                CountByDir { count_by_dir: vec![value; num_directions] }
            }
            #[spec]
            fn total(&self) -> usize {
                let mut n = 0;
                for i in 0..self.count_by_dir.len() {
                    n += self.count_by_dir[i];
                }
                n
            }
            #[spec]
            fn reduce(&mut self, dir: DirectionIndex) -> usize {
                let left = self.count_by_dir[dir.0] - 1;
                self.count_by_dir[dir.0] = left;
                left
            }
            #[spec]
            fn empty() -> Self {
                CountByDir { count_by_dir: Vec::new() }
            }
        }
        impl std::ops::Index<DirectionIndex> for CountByDir {
            #[spec]
            fn index(&self, index: DirectionIndex) -> &usize {
                &self.count_by_dir[index.0]
            }
        }
        impl std::ops::IndexMut<DirectionIndex> for CountByDir {
            #[spec]
            fn index_mut(&mut self, index: DirectionIndex) -> &mut usize {
                &mut self.count_by_dir[index.0]
            }
        }
    }
}
