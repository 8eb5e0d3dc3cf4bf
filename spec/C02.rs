// Assignment of file regions to ranks: a cursor (file, position) walks over the files once.
mod io {
    mod file_distribution {
        // Who skips a file that is used up, and who drops empty regions, is a matter of taste.
        // (The last region is never empty.)
        #[spec(target("io::file_distribution::get_regions_from"), scenario("cursor:skip_all"))]
        fn regions_skip_all(sizes: &[usize], mut start: Position, num: usize) -> (Vec<Region>, Position) {
            let mut out = vec![];
            if num == 0 {
                return (out, start);
            }
            if sizes[start.file_index] == start.pos {
                start = Position { file_index: start.file_index + 1, pos: 0 };
            }
            let mut from = start.pos;
            let mut file = start.file_index;
            let mut until = from + num;
            while until > sizes[file] {
                out.push(Region { file_index: file, start: from, end: sizes[file] });
                until -= sizes[file];
                from = 0;
                file += 1;
            }
            out.push(Region { file_index: file, start: from, end: until });
            (out, Position { file_index: file, pos: until })
        }
        #[spec(target("io::file_distribution::get_regions_from"), scenario("cursor:skip_loop", "cursor:skip_loop_unfiltered"))]
        fn regions_skip_loop(sizes: &[usize], mut start: Position, num: usize) -> (Vec<Region>, Position) {
            let mut out = vec![];
            if num == 0 {
                return (out, start);
            }
            if sizes[start.file_index] == start.pos {
                start = Position { file_index: start.file_index + 1, pos: 0 };
            }
            let mut from = start.pos;
            let mut file = start.file_index;
            let mut until = from + num;
            while until > sizes[file] {
                if sizes[file] - from > 0 { out.push(Region { file_index: file, start: from, end: sizes[file] }); }
                until -= sizes[file];
                from = 0;
                file += 1;
            }
            out.push(Region { file_index: file, start: from, end: until });
            (out, Position { file_index: file, pos: until })
        }
        #[spec(target("io::file_distribution::get_regions_from"), scenario("cursor:skip_both", "cursor:skip_both_unfiltered"))]
        fn regions_skip_both(sizes: &[usize], mut start: Position, num: usize) -> (Vec<Region>, Position) {
            let mut out = vec![];
            if num == 0 {
                return (out, start);
            }
            if sizes[start.file_index] == start.pos {
                start = Position { file_index: start.file_index + 1, pos: 0 };
            }
            let mut from = start.pos;
            let mut file = start.file_index;
            let mut until = from + num;
            while until > sizes[file] {
                if sizes[file] - from > 0 { out.push(Region { file_index: file, start: from, end: sizes[file] }); }
                until -= sizes[file];
                from = 0;
                file += 1;
            }
            if until - from > 0 { out.push(Region { file_index: file, start: from, end: until }); }
            (out, Position { file_index: file, pos: until })
        }
        #[spec(target("io::file_distribution::get_regions_from"), scenario("cursor:plain_all"))]
        fn regions_plain_all(sizes: &[usize], mut start: Position, num: usize) -> (Vec<Region>, Position) {
            let mut out = vec![];
            if num == 0 {
                return (out, start);
            }
            let mut from = start.pos;
            let mut file = start.file_index;
            let mut until = from + num;
            while until > sizes[file] {
                out.push(Region { file_index: file, start: from, end: sizes[file] });
                until -= sizes[file];
                from = 0;
                file += 1;
            }
            out.push(Region { file_index: file, start: from, end: until });
            (out, Position { file_index: file, pos: until })
        }
        #[spec(target("io::file_distribution::get_regions_from"), scenario("cursor:plain_loop", "cursor:plain_loop_unfiltered"))]
        fn regions_plain_loop(sizes: &[usize], mut start: Position, num: usize) -> (Vec<Region>, Position) {
            let mut out = vec![];
            if num == 0 {
                return (out, start);
            }
            let mut from = start.pos;
            let mut file = start.file_index;
            let mut until = from + num;
            while until > sizes[file] {
                if sizes[file] - from > 0 { out.push(Region { file_index: file, start: from, end: sizes[file] }); }
                until -= sizes[file];
                from = 0;
                file += 1;
            }
            out.push(Region { file_index: file, start: from, end: until });
            (out, Position { file_index: file, pos: until })
        }
        #[spec(target("io::file_distribution::get_regions_from"), scenario("cursor:plain_both", "cursor:plain_both_unfiltered"))]
        fn regions_plain_both(sizes: &[usize], mut start: Position, num: usize) -> (Vec<Region>, Position) {
            let mut out = vec![];
            if num == 0 {
                return (out, start);
            }
            let mut from = start.pos;
            let mut file = start.file_index;
            let mut until = from + num;
            while until > sizes[file] {
                if sizes[file] - from > 0 { out.push(Region { file_index: file, start: from, end: sizes[file] }); }
                until -= sizes[file];
                from = 0;
                file += 1;
            }
            if until - from > 0 { out.push(Region { file_index: file, start: from, end: until }); }
            (out, Position { file_index: file, pos: until })
        }
        #[spec(target("io::file_distribution::get_rank_assignment"), opaque("get_regions_from"), scenario("cursor:skip_all", "cursor:skip_loop", "cursor:skip_both", "cursor:plain_all", "cursor:plain_loop", "cursor:plain_both"))]
        fn assignment_filtered(sizes: &[usize], shares: &[usize]) -> Vec<RankAssignment> {
            let mut cursor = Position { file_index: 0, pos: 0 };
            let mut out = vec![];
            for n in shares {
                let (found, end) = get_regions_from(sizes, cursor, *n);
                cursor = end;
                out.push(RankAssignment { regions: found.into_iter().filter(|r| r.end - r.start > 0).collect() });
            }
            out
        }
        #[spec(target("io::file_distribution::get_rank_assignment"), opaque("get_regions_from"), scenario("cursor:skip_loop_unfiltered", "cursor:skip_both_unfiltered", "cursor:plain_loop_unfiltered", "cursor:plain_both_unfiltered"))]
        fn assignment_unfiltered(sizes: &[usize], shares: &[usize]) -> Vec<RankAssignment> {
            let mut cursor = Position { file_index: 0, pos: 0 };
            let mut out = vec![];
            for n in shares {
                let (found, end) = get_regions_from(sizes, cursor, *n);
                cursor = end;
                out.push(RankAssignment { regions: found });
            }
            out
        }
        #[spec(opaque("get_rank_assignment"))]
        fn get_input_rank_assignment(sizes: &[usize], ranks: usize) -> Vec<RankAssignment> {
            let total: usize = sizes.iter().sum();
            let share = total / ranks;
            let mut shares: Vec<usize> = (0..ranks - 1).map(|_| share).collect();
            shares.push(total - share * (ranks - 1));
            get_rank_assignment(sizes, &shares)
        }
        #[spec(opaque("get_rank_assignment"))]
        fn get_output_rank_assignment(shares: &[usize], files: usize) -> Vec<RankAssignment> {
            let total: usize = shares.iter().sum();
            let each = total / files;
            let mut sizes: Vec<usize> = (0..files - 1).map(|_| each).collect();
            sizes.push(total - each * (files - 1));
            get_rank_assignment(&sizes, shares)
        }
        #[spec(opaque("get_input_rank_assignment"))]
        fn get_rank_input_assignment_for_rank(sizes: &[usize], ranks: usize, rank: Rank) -> RankAssignment {
            get_input_rank_assignment(sizes, ranks).remove(rank as usize)
        }
        #[spec(opaque("get_output_rank_assignment"))]
        fn get_rank_output_assignment_for_rank(shares: &[usize], files: usize, rank: Rank) -> RankAssignment {
            get_output_rank_assignment(shares, files).remove(rank as usize)
        }
        impl Region {
            #[spec]
            fn size(&self) -> usize {
                self.end - self.start
            }
        }
    }
}
