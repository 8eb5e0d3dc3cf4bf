mod voronoi {
    mod constructor {
        mod halo_iteration {
            #[law]
            fn factors() -> bool {
                SEARCH_SAFETY_FACTOR > 1.0 && SEARCH_RADIUS_INCREASE_FACTOR > 1.0 && INITIAL_SEARCH_RADIUS_GUESS_FACTOR > 0.0 && SEARCH_CHUNK_SIZE > 0
            }
            impl<D: Dimension + DDimension> SearchData<D> {
                // grows with every search until it covers the circumcircle, which
                // is then searched around its own centre
                #[spec(opaque(get_original_point, points))]
                fn new(undecided: &UndecidedTetraInfo, circumcircle: &Circumcircle<D>, triangulation: &Triangulation<D>, characteristic_length: f64) -> Self {
                    let enough = circumcircle.radius * SEARCH_SAFETY_FACTOR;
                    let wanted = match undecided.search_radius {
                        None => characteristic_length,
                        Some(previous) => previous * SEARCH_RADIUS_INCREASE_FACTOR,
                    };
                    let radius = if wanted < enough { wanted } else { enough };
                    let point = if radius < enough {
                        let inner = triangulation.tetras[undecided.tetra].points().find(|p| triangulation.point_kinds[p] == PointKind::Inner).unwrap();
                        triangulation.get_original_point(inner)
                    } else {
                        circumcircle.center
                    };
                    SearchData { point, radius }
                }
            }
            impl UndecidedTetraInfo {
                #[spec]
                fn search_radius_large_enough<D: DDimension>(&self, circumcircle: &Circumcircle<D>) -> bool {
                    !(self.search_radius.unwrap() < circumcircle.radius * SEARCH_SAFETY_FACTOR)
                }
                #[spec(opaque(get_original_tetra_circumcircle))]
                fn circumcircle<D: DDimension>(&self, triangulation: &Triangulation<D>) -> Circumcircle<D> {
                    triangulation.get_original_tetra_circumcircle(self.tetra)
                }
            }
            impl<D, F: RadiusSearch<D>> HaloIteration<D, F> {
                #[spec(effects(set_all_tetras_undecided))]
                fn new(triangulation: Triangulation<D>, search: F, characteristic_length: Float) -> Self {
                    let mut h = HaloIteration { triangulation, search, haloes: BiMap::default(), undecided_tetras: vec![], characteristic_length };
                    h.set_all_tetras_undecided();
                    h
                }
                #[spec(effects(everyone_finished, iterate))]
                fn run(&mut self) {
                    loop {
                        if self.search.everyone_finished(self.undecided_tetras.len()) {
                            break;
                        }
                        self.iterate();
                    }
                }
                #[spec(opaque(tetra_should_be_checked))]
                fn set_all_tetras_undecided(&mut self) {
                    let mut all = vec![];
                    for (tetra, _) in self.triangulation.tetras.iter() {
                        if self.tetra_should_be_checked(tetra) {
                            all.push(UndecidedTetraInfo { tetra, search_radius: None });
                        }
                    }
                    self.undecided_tetras = all;
                }
                #[spec]
                fn get_undecided_tetra_info_for_new_tetra(&self, tetra: TetraIndex) -> UndecidedTetraInfo {
                    UndecidedTetraInfo { tetra, search_radius: None }
                }
                #[spec(opaque(points))]
                fn tetra_should_be_checked(&self, tetra: TetraIndex) -> bool {
                    match self.triangulation.tetras.get(tetra) {
                        Some(t) => t.points().any(|p| self.triangulation.point_kinds[&p] == PointKind::Inner),
                        None => false,
                    }
                }
                #[spec(effects(radius_search, get_radius_search_data, insert), opaque(tetra_should_be_checked, rank, is_periodic))]
                fn iterate(&mut self) {
                    let searches = self.get_radius_search_data();
                    let found = self.search.radius_search(searches);
                    for (rank, results) in found.into_iter() {
                        for result in results {
                            let own = rank == self.search.rank();
                            let ptype = if own {
                                ParticleType::LocalPeriodic(PeriodicNeighbour { id: result.id, periodic_wrap_type: result.periodic_wrap_type })
                            } else if result.periodic_wrap_type.is_periodic() {
                                ParticleType::RemotePeriodic(RemotePeriodicNeighbour { id: result.id, rank, periodic_wrap_type: result.periodic_wrap_type })
                            } else {
                                ParticleType::Remote(RemoteNeighbour { id: result.id, rank })
                            };
                            assert!(self.haloes.get_by_left(&ptype).is_none());
                            let (point_index, changed_tetras) = self.triangulation.insert(result.point, PointKind::Halo(rank));
                            for tetra in changed_tetras.iter() {
                                if self.tetra_should_be_checked(*tetra) {
                                    self.undecided_tetras.push(UndecidedTetraInfo { tetra: *tetra, search_radius: None });
                                }
                            }
                            self.haloes.insert(ptype, point_index);
                        }
                    }
                }
                #[spec(opaque(new, circumcircle))]
                fn get_radius_search_data(&mut self) -> Vec<SearchData<D>> {
                    let n = if self.undecided_tetras.len() < SEARCH_CHUNK_SIZE { self.undecided_tetras.len() } else { SEARCH_CHUNK_SIZE };
                    let mut searches = vec![];
                    let mut again = vec![];
                    for mut undecided in self.undecided_tetras.drain(..n) {
                        if self.triangulation.tetras.contains(undecided.tetra) {
                            let circumcircle = undecided.circumcircle(&self.triangulation);
                            let search = SearchData::new(&undecided, &circumcircle, &self.triangulation, self.characteristic_length);
                            undecided.search_radius = Some(search.radius);
                            if search.radius < circumcircle.radius * SEARCH_SAFETY_FACTOR {
                                again.push(undecided);
                            }
                            searches.push(search);
                        }
                    }
                    self.undecided_tetras.extend(again);
                    searches
                }
            }
        }
        mod halo_cache {
            impl<D: Dimension> HaloCache<D> {
                // each image of a particle is sent to a rank once
                #[spec]
                fn get_new_haloes<'a>(&'a mut self, rank: Rank, iter: impl Iterator<Item = (Point<D>, ParticleId, WrapType<D>)> + 'a) -> Vec<SearchResult<D>> {
                    iter.filter(move |(_, id, wrap)| self.sent_previously.insert((rank, (*id, *wrap))))
                        .map(|(point, id, wrap)| SearchResult { point, id, periodic_wrap_type: wrap })
                }
            }
        }
        mod parallel {
            #[spec(opaque(iter_periodic_images))]
            fn find_wrapped_point(box_: &SimulationBox, search: &SearchData<ActiveDimension>, point: VecLength) -> (ActiveWrapType, Point<ActiveDimension>) {
                let mut inside = box_.iter_periodic_images(point).map(|(t, p)| (t, p.value_unchecked())).filter(|(_, p)| search.point.distance(*p) < search.radius);
                let first = inside.next().unwrap();
                assert!(inside.next().is_none());
                first
            }
            impl<'a> ParallelSearch<'a, ActiveDimension> {
                #[spec(opaque(cube_around_sphere, rank_owns_part_of_search_radius, other_ranks, same_for_other_ranks_in_communicator, to_equivalent))]
                fn get_outgoing_searches(&mut self, data: Vec<SearchData<ActiveDimension>>) -> OutgoingRequests<ActiveDimension> {
                    let mut outgoing = DataByRank::same_for_other_ranks_in_communicator(vec![], &self.data_comm);
                    for rank in self.data_comm.other_ranks() {
                        for search in data.iter() {
                            let extent = Extent::<Point<ActiveDimension>>::cube_around_sphere(search.point, search.radius);
                            if self.decomposition.rank_owns_part_of_search_radius(rank, &extent, &self.box_) {
                                outgoing[rank].push(search.to_equivalent());
                            }
                        }
                    }
                    outgoing
                }
                #[spec(effects(get_haloes_from_search), opaque(same_for_other_ranks_in_communicator, to_equivalent))]
                fn get_outgoing_results(&mut self, incoming: IncomingRequests<ActiveDimension>) -> OutgoingResults<ActiveDimension> {
                    let mut answers = DataByRank::same_for_other_ranks_in_communicator(vec![], &self.result_comm);
                    for (rank, searches) in incoming.iter() {
                        for search in searches {
                            let found = self.get_haloes_from_search(rank, search);
                            answers[rank].extend(found.map(|x| x.to_equivalent()));
                        }
                    }
                    answers
                }
                #[spec(effects(get_haloes_from_search), opaque(is_periodic, rank))]
                fn get_local_periodic_haloes(&mut self, data: &[SearchData<ActiveDimension>]) -> Vec<SearchResult<ActiveDimension>> {
                    let mut images = vec![];
                    for search in data.iter() {
                        let found = self.get_haloes_from_search(self.data_comm.rank(), search);
                        images.extend(found.into_iter().filter(|h| h.periodic_wrap_type.is_periodic()));
                    }
                    images
                }
                #[spec(effects(get_new_haloes), opaque(iter_particles_in_radius, find_wrapped_point, pos))]
                fn get_haloes_from_search<'b>(&'b mut self, rank: Rank, search: &'b SearchData<ActiveDimension>) -> Vec<SearchResult<ActiveDimension>> {
                    let near = self.tree.iter_particles_in_radius(&self.box_, VecLength::new_unchecked(search.point), Length::new_unchecked(search.radius));
                    self.halo_cache.get_new_haloes(
                        rank,
                        near.into_iter().map(|p| {
                            let (wrap, point) = find_wrapped_point(&self.box_, search, *p.pos());
                            (point, p.id, wrap)
                        }),
                    )
                }
                #[spec(effects(exchange_all), opaque(from_equivalent))]
                fn exchange_all_searches(&mut self, outgoing: OutgoingRequests<ActiveDimension>) -> IncomingRequests<ActiveDimension> {
                    let mut incoming = self.data_comm.exchange_all(outgoing);
                    incoming
                        .drain_all()
                        .map(|(rank, v)| (rank, v.into_iter().map(|x| SearchData::<ActiveDimension>::from_equivalent(&x)).collect()))
                        .collect()
                }
                #[spec(effects(exchange_all), opaque(from_equivalent))]
                fn exchange_all_results(&mut self, outgoing: OutgoingResults<ActiveDimension>) -> IncomingResults<ActiveDimension> {
                    let mut incoming = self.result_comm.exchange_all(outgoing);
                    incoming
                        .drain_all()
                        .map(|(rank, v)| (rank, v.into_iter().map(|x| SearchResult::<ActiveDimension>::from_equivalent(&x)).collect()))
                        .collect()
                }
            }
            impl<'a> RadiusSearch<ActiveDimension> for ParallelSearch<'a, ActiveDimension> {
                #[spec(effects(get_local_periodic_haloes, get_outgoing_searches, exchange_all_searches, get_outgoing_results, exchange_all_results, print_num_new_haloes), opaque(rank, size))]
                fn radius_search(&mut self, data: Vec<SearchData<ActiveDimension>>) -> DataByRank<SearchResults<ActiveDimension>> {
                    let own_images = self.get_local_periodic_haloes(&data);
                    let outgoing = self.get_outgoing_searches(data);
                    let incoming = self.exchange_all_searches(outgoing);
                    let answers = self.get_outgoing_results(incoming);
                    let mut results = self.exchange_all_results(answers);
                    results.insert(self.rank(), own_images);
                    self.print_num_new_haloes(results.size());
                    results
                }
                #[spec]
                fn determine_global_extent(&self) -> Option<Extent<Point<ActiveDimension>>> {
                    Some(self.extent.clone())
                }
                #[spec(effects(all_gather_sum))]
                fn everyone_finished(&mut self, num_undecided_this_rank: usize) -> bool {
                    let total: SendNum = self.finished_comm.all_gather_sum(&SendNum(num_undecided_this_rank));
                    total.0 == 0
                }
                #[spec(effects(all_gather_sum))]
                fn num_points(&mut self) -> usize {
                    let total: SendNum = self.finished_comm.all_gather_sum(&SendNum(self.num_points_local));
                    total.0
                }
            }
        }
    }
}
