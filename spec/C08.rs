mod io {
    mod output {
        #[spec(effects(barrier))]
        fn init_wait_for_other_ranks_system(world_size: Res<WorldSize>, rank: Res<WorldRank>) {
            let world = MPI_UNIVERSE.world();
            for i in 0..world_size.0 {
                if i < rank.0 as usize {
                    world.barrier();
                }
            }
        }
        #[spec(effects(barrier))]
        fn finish_wait_for_other_ranks_system(world_size: Res<WorldSize>, rank: Res<WorldRank>) {
            let world = MPI_UNIVERSE.world();
            for i in 0..world_size.0 {
                if !(i < rank.0 as usize) {
                    world.barrier();
                }
            }
        }
    }
}
mod mpi_log {
    #[spec(effects(barrier))]
    fn start_barrier() {
        let rank = crate::mpi_log::RANK.load(std::sync::atomic::Ordering::SeqCst);
        let world = MPI_UNIVERSE.world();
        for _ in 0..rank {
            world.barrier();
        }
    }
    #[spec(effects(barrier))]
    fn end_barrier() {
        let rank = crate::mpi_log::RANK.load(std::sync::atomic::Ordering::SeqCst);
        let size = crate::mpi_log::SIZE.load(std::sync::atomic::Ordering::SeqCst);
        let world = MPI_UNIVERSE.world();
        for _ in rank..size {
            world.barrier();
        }
    }
}
