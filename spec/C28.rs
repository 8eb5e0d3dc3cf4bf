mod io {
    mod output {
        // every dimension under its own name, and the scale factor is the factor to base units
        #[spec(unordered, effects(write_scalar), opaque(base_conversion_factor, dimension))]
        fn add_dimension_attrs<T: ToDataset>(dataset: &Dataset) {
            let d = T::dimension();
            let attr = dataset.new_attr::<f64>().shape(()).create(SCALE_FACTOR_IDENTIFIER).unwrap();
            attr.write_scalar(&d.base_conversion_factor()).unwrap();
            let l = dataset.new_attr::<i32>().shape(()).create(LENGTH_IDENTIFIER).unwrap();
            l.write_scalar(&d.length).unwrap();
            let t = dataset.new_attr::<i32>().shape(()).create(TIME_IDENTIFIER).unwrap();
            t.write_scalar(&d.time).unwrap();
            let m = dataset.new_attr::<i32>().shape(()).create(MASS_IDENTIFIER).unwrap();
            m.write_scalar(&d.mass).unwrap();
            let k = dataset.new_attr::<i32>().shape(()).create(TEMPERATURE_IDENTIFIER).unwrap();
            k.write_scalar(&d.temperature).unwrap();
            let h = dataset.new_attr::<i32>().shape(()).create(H_SCALING_IDENTIFIER).unwrap();
            h.write_scalar(&d.h).unwrap();
            let a = dataset.new_attr::<i32>().shape(()).create(A_SCALING_IDENTIFIER).unwrap();
            a.write_scalar(&d.a).unwrap();
        }
        #[law]
        fn attribute_names_are_distinct() -> bool {
            let names = [SCALE_FACTOR_IDENTIFIER, LENGTH_IDENTIFIER, TIME_IDENTIFIER, MASS_IDENTIFIER, TEMPERATURE_IDENTIFIER, H_SCALING_IDENTIFIER, A_SCALING_IDENTIFIER];
            let mut ok = true;
            for i in 0..7 {
                for j in 0..i {
                    ok = ok && names[i] != names[j];
                }
            }
            ok
        }
        mod attribute {
            #[spec(effects(write_scalar), opaque(to_value, name))]
            fn write_attribute<T: ToAttribute>(res: Res<T>, file: ResMut<OutputFiles>) {
                for f in file.0.as_ref().unwrap().iter() {
                    let attr = f.file.new_attr::<T::Output>().shape(()).create(T::name()).unwrap();
                    attr.write_scalar(&res.to_value()).unwrap();
                }
            }
        }
    }
    mod unit_reader {
        impl DefaultUnitReader {
            #[spec(of_trait(UnitReader))]
            fn read_scale_factor(&self, set: &Dataset) -> f64 {
                set.attr(SCALE_FACTOR_IDENTIFIER).expect("").read_scalar().unwrap()
            }
            #[spec(of_trait(UnitReader))]
            fn read_dimension(&self, set: &Dataset) -> Dimension {
                Dimension {
                    length: set.attr(LENGTH_IDENTIFIER).expect("").read_scalar().unwrap(),
                    time: set.attr(TIME_IDENTIFIER).expect("").read_scalar().unwrap(),
                    mass: set.attr(MASS_IDENTIFIER).expect("").read_scalar().unwrap(),
                    temperature: set.attr(TEMPERATURE_IDENTIFIER).expect("").read_scalar().unwrap(),
                    h: match set.attr(H_SCALING_IDENTIFIER) {
                        Ok(x) => x.read_scalar().unwrap(),
                        Err(_) => 0,
                    },
                    a: match set.attr(A_SCALING_IDENTIFIER) {
                        Ok(x) => x.read_scalar().unwrap(),
                        Err(_) => 0,
                    },
                }
            }
        }
        impl IdReader {
            #[spec(of_trait(UnitReader))]
            fn read_scale_factor(&self, _set: &Dataset) -> f64 {
                1.0
            }
            #[spec(of_trait(UnitReader))]
            fn read_dimension(&self, _set: &Dataset) -> Dimension {
                Dimension { length: 0, time: 0, mass: 0, temperature: 0, h: 0, a: 0 }
            }
        }
    }
    impl DatasetDescriptor {
        #[spec]
        fn read_scale_factor(&self, set: &Dataset) -> f64 {
            self.unit_reader.read_scale_factor(set)
        }
        #[spec]
        fn read_dimension(&self, set: &Dataset) -> Dimension {
            self.unit_reader.read_dimension(set)
        }
        #[spec(opaque(name))]
        fn default_for<T: Named>() -> DatasetDescriptor {
            DatasetDescriptor { dataset_name: T::name().into(), unit_reader: Box::new(DefaultUnitReader) }
        }
    }
    mod input {
        // a dataset in another dimension is refused; the factor is the one the file was written with
        #[spec(no_panic, opaque(dimension))]
        fn get_dataset_and_conversion_factor_for_file<T: ToDataset>(descriptor: &InputDatasetDescriptor<T>, file: &File) -> (Dataset, f64) {
            let set = file.dataset(descriptor.descriptor.dataset_name.as_str()).unwrap();
            let factor = descriptor.descriptor.unit_reader.read_scale_factor(&set);
            assert!(descriptor.descriptor.unit_reader.read_dimension(&set) == T::dimension());
            (set, factor)
        }
        #[spec]
        fn convert_dataset_units<T: ToDataset>(data: Chunk<T>, factor_read: f64, factor_written: f64) -> Vec<T> {
            data.into_iter().map(|x| x.convert_base_units(factor_written / factor_read)).collect()
        }
        impl Reader {
            #[spec(opaque(get_dataset_and_conversion_factor_for_file, get_chunk_sizes, read_chunk, base_conversion_factor, dimension))]
            fn read_region_chunked<T: ToDataset>(&self, descriptor: InputDatasetDescriptor<T>, region: &Region, chunk_size: usize) -> impl Iterator<Item = T> {
                let (set, written) = get_dataset_and_conversion_factor_for_file(&descriptor, &self.files[region.file_index]);
                let own = T::dimension().base_conversion_factor();
                ChunkIter::new(set, &descriptor, chunk_size, region)
                    .into_iter()
                    .flat_map(move |chunk| convert_dataset_units(chunk, own, written).into_iter())
            }
            #[spec(opaque(read_region_chunked))]
            fn read_region<T: ToDataset>(&self, descriptor: InputDatasetDescriptor<T>, region: &Region) -> impl Iterator<Item = T> {
                self.read_region_chunked(descriptor, region, region.end - region.start)
            }
            #[spec(opaque(get_num_entries, get_rank_input_assignment_for_rank))]
            fn get_assignment(&self, dataset_name: &str) -> RankAssignment {
                let sizes: Vec<usize> = self.files.iter().map(|f| self.get_num_entries(dataset_name, f)).collect();
                get_rank_input_assignment_for_rank(&sizes, self.num_ranks, self.rank)
            }
            #[spec]
            fn get_num_entries(&self, dataset_name: &str, file: &File) -> usize {
                match file.dataset(dataset_name) {
                    Ok(set) => set.shape()[0],
                    Err(_) => 0,
                }
            }
            #[spec(opaque(get_assignment))]
            fn get_num_entities(&self, dataset_name: &str) -> usize {
                let mut n = 0;
                for region in self.get_assignment(dataset_name).regions.iter() {
                    n += region.end - region.start;
                }
                n
            }
            #[spec(opaque(get_assignment, read_region))]
            fn read_dataset<T: ToDataset + Named>(&self, descriptor: InputDatasetDescriptor<T>) -> impl Iterator<Item = T> {
                self.get_assignment(descriptor.dataset_name()).regions.into_iter().flat_map(move |region| self.read_region(descriptor.clone(), &region))
            }
            #[spec(opaque(get_assignment, read_region_chunked))]
            fn read_dataset_chunked<T: ToDataset + Named>(&self, descriptor: InputDatasetDescriptor<T>, chunk_size: usize) -> impl Iterator<Item = T> {
                self.get_assignment(descriptor.dataset_name()).regions.into_iter().flat_map(move |region| self.read_region_chunked(descriptor.clone(), &region, chunk_size))
            }
            #[spec(opaque(open_file))]
            fn full<U: AsRef<Path>>(paths: impl Iterator<Item = U>) -> Reader {
                Reader { rank: 0, num_ranks: 1, files: paths.map(open_file).collect() }
            }
        }
        // chunk i covers chunk_size entries from i * chunk_size on, the last one the rest
        #[spec]
        fn get_chunk_sizes(region: &Region, chunk_size: usize) -> Vec<Range<usize>> {
            let n = region.end - region.start;
            let num_chunks = n / chunk_size + if n % chunk_size > 0 { 1 } else { 0 };
            (0..num_chunks)
                .map(|i| region.start + i * chunk_size..(region.start + (i + 1) * chunk_size).min(region.end))
                .collect()
        }
        impl ChunkIter<T> {
            #[spec(of_trait(Iterator), opaque(read_chunk))]
            fn next(&mut self) -> Option<Chunk<T>> {
                if self.slices.len() == 0 {
                    None
                } else {
                    Some(read_chunk(&self.set, &self.descriptor, self.slices.remove(0)))
                }
            }
        }
        #[spec(opaque(read_dataset, split_between_ranks, all_input_files), effects(insert))]
        fn read_dataset_system<T: ToDataset + Component + Named>(descriptor: NonSend<InputDatasetDescriptor<T>>, commands: Commands, spawned_entities: Res<SpawnedEntities>, parameters: Res<InputParameters>) {
            let reader = Reader::split_between_ranks(parameters.all_input_files());
            for (item, entity) in reader.read_dataset::<T>(descriptor.clone()).zip(spawned_entities.iter()) {
                commands.entity(*entity).insert(item);
            }
        }
        mod attribute {
            #[spec(opaque(name))]
            fn read_attribute<T: FromAttribute>(file: &Path) -> T {
                let f = File::open(file).unwrap();
                T::from_value(f.attr(T::name()).unwrap().read_scalar().unwrap())
            }
        }
    }
}
mod arepo_postprocess {
    mod unit_reader {
        #[spec]
        fn read_vec(data: &[Float]) -> Position {
            Position(VecLength::new_unchecked(MVec::new(data[0], data[1], data[2])))
        }
        impl ArepoUnitReader {
            // a velocity is a length per time
            #[spec]
            fn read_raw_dimension(&self, set: &Dataset) -> Dimension {
                let length: i32 = set.attr(LENGTH_IDENTIFIER).unwrap().read_scalar().unwrap();
                let mass: i32 = set.attr(MASS_IDENTIFIER).unwrap().read_scalar().unwrap();
                let velocity: i32 = set.attr(VELOCITY_IDENTIFIER).unwrap().read_scalar().unwrap();
                let a: i32 = set.attr(A_IDENTIFIER).unwrap().read_scalar().unwrap();
                let h: i32 = set.attr(H_IDENTIFIER).unwrap().read_scalar().unwrap();
                Dimension { length: length + velocity, mass, time: 0 - velocity, temperature: 0, h, a }
            }
            #[spec(of_trait(UnitReader), opaque(read_raw_dimension, get_factor))]
            fn read_scale_factor(&self, set: &Dataset) -> f64 {
                let d = self.read_raw_dimension(set);
                let cosmo = if d.a != 0 || d.h != 0 {
                    match self.cosmology {
                        Cosmology::Cosmological { .. } => {}
                        Cosmology::NonCosmological => panic!(),
                    }
                    1.0 / self.cosmology.get_factor(&d)
                } else {
                    1.0
                };
                let cgs: f64 = set.attr(SCALE_FACTOR_IDENTIFIER).unwrap().read_scalar().unwrap();
                let cgs = if cgs == 0.0 {
                    assert!(d == NONE);
                    1.0
                } else {
                    cgs
                };
                cosmo * 0.01f64.powi(d.length) * 0.001f64.powi(d.mass) * cgs
            }
            #[spec(of_trait(UnitReader), opaque(read_raw_dimension))]
            fn read_dimension(&self, set: &Dataset) -> Dimension {
                let d = self.read_raw_dimension(set);
                if d.a != 0 || d.h != 0 {
                    match self.cosmology {
                        Cosmology::Cosmological { .. } => {}
                        Cosmology::NonCosmological => panic!(),
                    }
                    Dimension { length: d.length, mass: d.mass, time: d.time, temperature: d.temperature, h: 0, a: 0 }
                } else {
                    d
                }
            }
        }
    }
}
