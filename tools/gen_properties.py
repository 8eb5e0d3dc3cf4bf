#!/usr/bin/env python3
"""Single source for properties.jsonl (run by hand after editing)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),obs=()):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=list(mech),
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],observe_at=list(obs),hook_needed=False)))

p("C01","Space-filling-curve keys are a bijection and preserve locality",
 "Every grid cell of the box gets its own Peano-Hilbert key, no two different cells share a key and every key value in range belongs to a cell, in two and in three dimensions. In 3D, cells whose keys differ by one share a face. A position is assigned to a cell by the same monotone scaling of each of its own coordinates, with the box padded so that positions on the box border still fall inside the grid.",
 ["inputs"],"every position in every box, every one of the 2^126 (3D) or 2^64 (2D) cells",
 "The tests compare neighbouring positions of one small box and a handful of keys; injectivity and adjacency quantify over 2^126 cells.",
 ["src/peano_hilbert.rs"],["The 48-state rotation table and the sub-pixel table of the 3D curve; bit loop that consumes one bit per coordinate and level","The reflect-and-transpose loop of the 2D curve","The padding and scaling of positions to integers"],
 [("rotation state","orientation of the curve in the current octant","src/peano_hilbert.rs")],["PeanoKey3d / PeanoKey2d values"])

p("C02","Each entry is read by one rank and written to one place, in order",
 "For any sizes of the input files and any number of ranks, the regions assigned to the ranks cover every entry of every file exactly once and in file order, and each rank gets an equal share with the last rank taking the remainder. The same holds for output: for any number of entries per rank and any number of output files the assigned regions tile every output file exactly once, in rank order. No rank is ever given an empty region.",
 ["inputs","configurations"],"all file size vectors (including empty files), rank counts and file counts",
 "The tests try a few hand-picked size vectors; the partition must hold for every combination of sizes, ranks and files.",
 ["src/io/file_distribution.rs"],["the cursor (file, position) threaded from one rank's assignment to the next, and the region loop that splits at file ends"],
 [("cursor","next unassigned (file, position)","src/io/file_distribution.rs")],["regions returned for a rank"])

p("C03","All-to-all exchange: one message per peer, none lost or left pending",
 "In every exchange each rank sends exactly one message to each other rank (an empty one where it has no data), receives exactly one from each other rank, never sends to or receives from itself, and files what it received under the sender's rank. No second message goes to a peer before the exchange is completed, and after completion every peer can be sent to again. Buffers of non-blocking sends stay alive until all messages of the exchange have been received.",
 ["schedules","inputs","histories"],"all rank counts, message contents and interleavings of exchanges",
 "The build runs on one process, so no test ever exchanges between ranks; matching of sends and receives is a property of all ranks and histories.",
 ["src/communication/exchange_communicator.rs","src/communication/sized_communicator.rs","src/communication/mpi_world.rs"],["pending flag per peer, set with each send and cleared when the exchange is received","send guards collected in a scope that ends after receiving"],
 [("pending_data","whether a message to that peer was already sent in this exchange","src/communication/exchange_communicator.rs")],["messages on the wire","returned per-rank data"])

p("C04","Per-rank containers keep each item under its own rank",
 "A container of per-rank data always returns exactly the item stored last for a rank: insertion, removal, draining, iteration (by value, by reference, mutable), collecting from pairs and element-wise construction keep the association between rank and item, yield present items once, in ascending rank order, and never yield absent ones. Construction for all other ranks leaves out exactly the own rank. The reported total size is the sum of the lengths of all stored items.",
 ["inputs","histories"],"every sequence of container operations, rank count and item type",
 "Existing tests build one container; the association must survive any sequence of operations.",
 ["src/communication/data_by_rank.rs"],["vector of optional items indexed by rank; cursor of the owning iterator"],
 [("items","index = rank, None = absent","src/communication/data_by_rank.rs")],["iteration order and contents"])

p("C05","Optional values survive communication unchanged",
 "Turning an optional value into its communicated form and back returns exactly the same optional value: present stays present with the same payload, absent stays absent. The payload memory of an absent value is never read.",
 ["inputs"],"every payload type and value",
 "Tests convert a few values; reading uninitialised memory is undefined behaviour that a passing test cannot exclude.",
 ["src/communication/communicated_option.rs"],["validity flag written together with the payload and consulted before it is assumed initialised"],
 [("valid","whether the payload is initialised","src/communication/communicated_option.rs")],["Option value after the round trip"])

p("C06","Message datatypes describe every field once, in place and with its type",
 "For every structure that is sent between ranks, the datatype handed to the message layer lists each field exactly once, at the offset of that very field, with that field's own type, and with one block length per listed field, so that the receiver reconstructs exactly the value that was sent.",
 ["inputs"],"every value of every communicated structure",
 "No test communicates between processes; a wrong offset only shows up for particular field values on another rank.",
 ["src/communication/communicated_option.rs","src/communication/identified.rs","src/extent.rs","src/peano_hilbert.rs","src/sweep/task.rs","src/voronoi/constructor/parallel/mpi_types.rs","src/sweep/grid/cell.rs","src/particle.rs"],["hand-written user datatypes with offset_of for every field"],(),["MPI datatype of each structure"])

p("C07","Global reductions and gathers return the promised global result",
 "Reductions over ranks return the same sum, minimum or maximum over the contributions of all ranks on every rank, and a gather returns one contribution per rank, indexed by rank. A gather of variable-length data returns the concatenation of all contributions in rank order without gaps or overlap. Messages of different data types travel under tags derived from the type, and a tag mismatch between ranks is detected before collective communication.",
 ["inputs","configurations"],"all rank counts and contributions, including empty ones",
 "The test build has one rank only, on which every reduction is the identity.",
 ["src/communication/mpi_world.rs"],["all-gather plus local fold","counts gathered first, displacements as exclusive prefix sums"],(),["values returned by the communicator"])

p("C08","Collective communication is never skipped by a subset of ranks",
 "Whether a rank takes part in a collective operation never depends on data that can differ between ranks (its rank number, its local particles, its local counters): every branch or loop bound that guards a collective is computed from globally agreed values.",
 ["schedules","inputs"],"every distribution of particles over ranks and every interleaving",
 "A rank-dependent branch only deadlocks for particular distributions over several processes; the tests use one.",
 ["src/communication/mpi_world.rs","src/sweep/deadlock_detection.rs","src/sweep/mod.rs","src/domain/mod.rs","src/domain/decomposition.rs","src/io/output/mod.rs","src/voronoi/constructor/halo_iteration.rs"],["collectives called outside of rank-dependent control flow"],(),["set of ranks entering each collective"])

p("C09","Determinants are the exact signed sum over permutations",
 "The 3x3, 4x4 and 5x5 determinant routines compute, for every matrix, exactly the sum over all permutations of the signed products of entries, in floating point and in exact rational arithmetic alike.",
 ["inputs"],"all matrices over any number type",
 "The tests evaluate a few integer matrices, many with zero entries that mask wrong terms.",
 ["src/voronoi/math/utils.rs"],["cofactor expansion in straight-line arithmetic"],(),["returned determinant"])

p("C10","Geometric sign decisions never trust an unreliable floating-point value",
 "The sign of a determinant is taken from floating-point arithmetic only if the value is large compared with every matrix entry it was computed from; in every other case the same formula is evaluated in exact rational arithmetic on the same entries and its sign is returned. Conversion between values, signs and errors is faithful: negative, zero and positive map to the matching sign, a value within the tolerance of zero is reported as imprecise, exact values never are, and the product of two signs follows the rule of signs.",
 ["inputs"],"all matrices, including nearly degenerate ones",
 "Random test matrices almost never reach the near-degenerate region in which the fallback matters.",
 ["src/voronoi/math/utils.rs","src/voronoi/math/precision_types.rs"],["comparison of the result against each entry; error type that forces the fallback"],(),["sign returned by the determinant sign predicates"])

p("C11","Linear solvers return a solution of the given equations",
 "The general elimination solver only performs row operations that keep the solution set (swap two rows, subtract a multiple of the pivot row that clears the pivot column), chooses the pivot of largest magnitude in the remaining rows, and back-substitutes so that the returned vector satisfies every equation. The checked 3x4 solver does the same and reports an error instead of a result whenever a quantity it would divide by or rely on is too close to zero.",
 ["inputs"],"all non-singular systems over every supported number type",
 "The tests solve a handful of systems.",
 ["src/voronoi/math/utils.rs"],["Gaussian elimination with partial pivoting; explicit elimination of the 3x4 system with precision checks"],(),["returned solution vector or error"])

p("C12","Direction rotations are proper rotations and are applied consistently",
 "For every unit axis and every angle the rotation used to turn the set of directions is the right-handed rotation about that axis: it is orthogonal with determinant one and leaves the axis fixed. Applying it to a direction multiplies by that matrix using the original components only. Rates stored per direction are carried over to the rotated set by moving each rate to the new direction best aligned with its old one, so that their total is conserved.",
 ["inputs"],"all axes and angles",
 "Tests can only sample axes and angles, and existing ones check one quantity.",
 ["src/sweep/direction/mod.rs"],["Rodrigues formula written out entry by entry"],(),["rotated direction vectors"])

p("C13","Direction sets have the requested number of distinct unit directions",
 "For every supported number of directions the tabulated set contains exactly that many pairwise different unit vectors (which, for more than one direction, sum to zero), directions given explicitly are normalised, and an unsupported number is refused instead of silently replaced.",
 ["configurations"],"every direction count and explicit direction list",
 "Only the smallest set is exercised by tests.",
 ["src/sweep/direction/mod.rs","src/sweep/direction/healpix.rs"],["one constant table per supported count, selected by count"],(),["directions used by the sweep"])

p("C14","Extents bound exactly the points they were built from",
 "An extent built from points or from other extents has as its lower and upper corner the component-wise minimum and maximum over all of them, is absent only if there are none, and keeps its centre at the midpoint of its corners. Side lengths are upper minus lower corner, and enlarging an extent by periodic images moves both corners outward by the given distance.",
 ["inputs"],"all point sets and extents",
 "The tests build a few extents from a few points.",
 ["src/extent.rs","src/voronoi/math/traits.rs"],["running minimum and maximum seeded with the first element"],(),["corners and centre of extents"])

p("C15","Octree children tile their parent and points go to the child containing them",
 "The sub-cells of a tree node tile it without gap or overlap, their order agrees with the number computed for a position, and a position lies inside the sub-cell it is assigned to, in two and three dimensions. The stored identifier of a node or child converts to its integer form and back without change, for every child.",
 ["inputs"],"all extents and positions, all children",
 "Tests look up a few positions in one tree.",
 ["src/domain/extent.rs","src/quadtree/node_index.rs","src/quadtree/mod.rs"],["case table on comparisons with the centre; table of corner combinations"],(),["child index and child extent"])

p("C16","Periodic wrapping and image vectors stay consistent with the box",
 "Wrapping a position moves each coordinate by whole box lengths into the box, separately per axis; the periodic difference of two positions is their difference shifted per axis by at most one box length of that axis so that each component lies within half a box length. Iterating over periodic images yields every combination of shifts by minus one, zero and plus one box length per axis exactly once, each labelled with its own shift, and a label counts as periodic exactly when some axis is shifted.",
 ["inputs"],"all positions and boxes, 2D and 3D",
 "Tests check a few coordinates on one axis each.",
 ["src/simulation_box.rs"],["euclidean remainder per axis; three-way comparison with half the side length"],(),["wrapped positions, distances, image list"])

p("C17","Indexed collections return what was stored under an index",
 "The index handed out by an insertion always refers to the inserted element; lookup, mutable lookup, removal, containment and iteration through the typed index address exactly that element, and iteration yields every live element once together with its own index. Per-direction counters start at the given value for every direction, decrement only the addressed direction and return the new value, and their total is the sum over all directions.",
 ["inputs","histories"],"every sequence of operations",
 "No test covers these wrappers directly beyond trivial use.",
 ["src/voronoi/indexed_arena.rs","src/sweep/count_by_dir.rs"],["thin newtype wrappers over arena, vector and counter storage"],(),["elements and counters observed through the wrappers"])

p("C18","Sweep bookkeeping: every expected contribution is counted and delivered once",
 "For every cell and direction, the number of upstream contributions a task waits for equals the number of active non-boundary upwind neighbours that will announce themselves, and the number of messages expected from another rank equals the number of active upwind faces shared with it, periodic or not. Solving a task notifies every active downwind neighbour exactly once, a task becomes runnable exactly when its last expected contribution arrives, and the solve loop ends only when nothing is left to solve, send or receive.",
 ["inputs","schedules"],"all meshes, partitions over ranks, direction sets and message orders",
 "A lost or doubled count shows up as a hang or a wrong result only for particular meshes and rank layouts; sweep tests need several ranks and dependencies absent here.",
 ["src/sweep/mod.rs","src/sweep/site.rs","src/sweep/grid/cell.rs"],["count initialisation by neighbour type and the matching handlers of the solve and receive paths"],
 [("missing upwind counts, per-rank receive counts, to-solve counts","remaining work","src/sweep/mod.rs")],["termination and results of a sweep"])

p("C19","Photons leaving a cell are distributed over its downwind faces without loss",
 "The change in a cell's outgoing rate is split over its downwind faces in proportion to the projected face area, with shares adding up to one, and is added to the incoming rate of exactly the neighbour behind each face in the same direction. The rate used for a cell is the sum of its incoming, source and periodic contributions, and the source is split evenly over directions.",
 ["inputs"],"all cells, faces, directions and rates",
 "Only tiny meshes are tested; conservation must hold for every geometry.",
 ["src/sweep/mod.rs","src/sweep/site.rs","src/sweep/grid/cell.rs"],["effective area weights normalised by their sum; correction relative to the previous outgoing rate"],(),["rates per cell"])

p("C20","Substep levels schedule every level the right number of times",
 "A cell's level is the smallest one whose time step does not exceed the desired one, limited to the available range; a cell takes part in a substep exactly when its level is at least the current one, and the step of a level is the maximum step halved once per level. Over one full step each level is swept exactly as often as its step fits, and the sets of active cells are rebuilt before use after any level changed.",
 ["inputs","histories"],"all desired time steps, level counts and level histories",
 "Tests check a few levels; the schedule must hold for every number of levels and order of updates.",
 ["src/sweep/timestep_level.rs","src/sweep/timestep_state.rs","src/sweep/active_list.rs"],["level from a clamped logarithm; order of levels from trailing zeros; validity flag of the active list"],
 [("valid","active bins match the stored levels","src/sweep/active_list.rs")],["sequence of sweeps and active cells"])

p("C21","Chemistry keeps its state physical and rolls back rejected steps",
 "After every chemistry update of a cell the ionised fraction lies within its allowed bounds and the temperature is at least its floor. If a trial step changes the state by more than the allowed relative amount, the state is restored to the value before the trial and the step is redone as two half steps that together cover the same time; recursion is bounded and exceeding it is reported as an error. Rates and heating terms follow their documented formulas, and each absorbed photon ionizes one atom.",
 ["inputs"],"all cell states, rates and time steps",
 "Tests integrate a few cells from benign states.",
 ["src/chemistry/hydrogen_only/mod.rs"],["clamping before and after the update; saved initial state; depth counter"],(),["cell state after an update"])

p("C22","Analytic temperature derivatives match the rates they belong to",
 "For every temperature-dependent rate coefficient of the chemistry that comes with a derivative, the derivative is the exact analytic derivative of the rate with respect to temperature, and the total derivative sums the derivatives of the same terms as the total rate.",
 ["inputs"],"all temperatures, densities and fractions",
 "Tests compare a few finite differences at most.",
 ["src/chemistry/hydrogen_only/mod.rs"],["hand-written derivative next to each rate"],(),["rates and derivatives"])

p("C23","Memory of pending non-blocking sends is neither changed nor freed",
 "A buffer given to a non-blocking send is not modified, cleared or reallocated until that send has completed, new data for the same peer is queued meanwhile, and when the communicator goes away every pending send is waited for, not only the first.",
 ["schedules","histories"],"every order of sends and completions",
 "The race only corrupts data for particular message timings between processes.",
 ["src/sweep/communicator.rs"],["per-peer request slot checked before the send buffer is touched; waiting on drop"],
 [("requests","outstanding send per peer","src/sweep/communicator.rs")],["received rates"])

p("C24","Snapshot files are opened, filled and closed in order by one rank at a time",
 "In serial output mode ranks write strictly one after the other: before opening, rank r passes r barriers, after closing it passes the remaining ones, so that every rank passes the same number in total. Within a rank files are opened before any dataset is written and closed after all have been written, creation of files and datasets happens before, and the snapshot number and next output time advance only afterwards.",
 ["schedules","configurations"],"all rank counts, output configurations and system schedules",
 "The scheduler may run unordered systems in any order; a test observes one order on one rank.",
 ["src/io/output/mod.rs","src/io/output/plugin.rs","src/io/output/timer.rs"],["explicit before/after constraints between systems; barrier counts"],(),["contents of snapshot files"])

p("C25","Existing output is deleted only when the user asked for it",
 "An existing output directory is removed only under the delete policy and only by the main rank; under the panic policy the run stops before touching it, and under the overwrite policy nothing is deleted. No other part of the program deletes files.",
 ["inputs","configurations"],"every policy, rank and pre-existing directory",
 "Tests do not run with pre-existing output under each policy and rank.",
 ["src/simulation_builder.rs","src/io/output/parameters.rs","src/io/output/mod.rs","src/main.rs"],["single match on the policy, guarded by the main-rank check"],(),["file system"])

p("C26","Every particle has exactly one owner rank and moves there",
 "Ownership is a function of the position key: the key range is cut into one interval per rank, intervals are consecutive and cover all keys, and a key equal to a cut belongs to the next rank on every rank alike. Each particle not owned locally is sent to its owner with all its components and removed locally exactly once; particles owned locally stay.",
 ["inputs","schedules"],"all particle distributions and rank counts",
 "Needs several ranks; tests decompose one artificial distribution.",
 ["src/domain/mod.rs","src/domain/decomposition.rs","src/domain/exchange_data_plugin.rs","src/domain/key.rs"],["cuts and binary search; outgoing list filled for foreign owners only; ordered exchange systems"],(),["set of particles per rank"])

p("C27","Startup and step stages run in a consistent order",
 "Every stage used by any part of the program is registered exactly once, and the registered order respects the data flow: input before domain decomposition, decomposition before particle exchange, exchange before identifiers, identifiers before tree and grid construction, grid before sweep initialisation, and sweeps before output within a step.",
 ["configurations"],"every combination of plugins",
 "A test run uses one combination of plugins.",
 ["src/stages.rs","src/simulation_builder.rs"],["static ordered stage lists"],(),["order of system execution"])

p("C28","Physical units written to snapshots are the ones read back",
 "Each unit attribute written with a dataset holds the exponent of its own dimension of the quantity, no dimension is left out or swapped, and the reader interprets the same attribute as the same dimension and the scale factor as the conversion to base units. Reading data in other units multiplies by written over read scale, and a dimension mismatch aborts.",
 ["inputs"],"every dataset and dimension",
 "Round-trip tests need HDF5 and cover one or two quantities with symmetric exponents.",
 ["src/io/output/mod.rs","src/io/unit_reader.rs","src/io/input/mod.rs","src/units/dimension.rs"],["named attributes per dimension"],(),["attributes in files, values read"])

p("C29","Parameter overrides win over the file and touch nothing else",
 "A value overridden on the command line replaces exactly the addressed key of the addressed section, creating missing intermediate levels, leaves all other keys unchanged, and later overrides of the same key win over earlier ones; an override of a whole section replaces it and settles it. Overrides apply alike whether the section is present in the file or defaulted.",
 ["inputs","configurations"],"every parameter file and list of overrides",
 "Tests try single overrides of depth one.",
 ["src/parameter_plugin/parameter_file_contents.rs"],["recursive descent along the key list"],(),["parameters seen by the simulation"])

p("C30","Mesh updates keep neighbour links mutual and orientation consistent",
 "When a cell of the triangulation is split or flipped, the new simplices are exactly those spanned by the new point or edge and the faces of the old ones; every face shared by two simplices is recorded in both with each other as opposite neighbour and with the vertex not on the face as opposite point.",
 ["inputs","histories"],"every insertion sequence",
 "Tests triangulate a few point sets.",
 ["src/voronoi/delaunay/mod.rs","src/voronoi/delaunay/impl_2d.rs","src/voronoi/delaunay/impl_3d.rs"],["explicit opposite data for new faces, link repair of adjacent simplices"],(),["triangulation connectivity"])

p("C31","Unit and cosmology conversions are mutually consistent",
 "Removing cosmological scaling multiplies by the scale factor and the Hubble parameter raised to minus the respective exponents, redshift is one over scale factor minus one, and converting a temperature to an internal energy and back with the same molecular weight returns the same temperature. Every unit and physical constant has the value and the dimension its name stands for.",
 ["inputs"],"all values, exponents and cosmologies",
 "Tests check single values.",
 ["src/cosmology.rs","src/units/mod.rs","src/units/specific_impls.rs","src/units/dimension.rs","src/units/helpers.rs","src/dimension.rs"],["closed formulas","unit and constant tables"],(),["converted quantities"])

p("C32","Geometric mesh predicates use the right points and formulas",
 "Containment, circumcircle and circumcentre computations of triangles and tetrahedra are evaluated from all their own corners with the correct formula: the circumcentre is equidistant from all corners, and the in-circle decision is the sign of the standard determinant. The vector operations they rely on (distances, dot and cross products, component-wise minima and maxima, normalisation, component access, construction from components, lifting to exact arithmetic) match their definitions.",
 ["inputs"],"all non-degenerate simplices and points",
 "Tests sample a few simplices.",
 ["src/voronoi/primitives/triangle.rs","src/voronoi/primitives/tetrahedron.rs","src/voronoi/primitives/line.rs","src/voronoi/math/traits.rs","src/voronoi/math/precision_types.rs","src/units/helpers.rs"],["closed formulas with exact fallback"],(),["predicate results"])

p("C33","The constructed triangulation is globally Delaunay",
 "After any sequence of insertions no point of the mesh lies inside the circumsphere of any simplex, and point location always finds the containing simplex.",
 ["inputs","histories"],"all point sets","Tests triangulate a few point sets.",
 ["src/voronoi/delaunay/mod.rs","src/voronoi/delaunay/point_location.rs"],["flip loop until no invalid face remains"],(),["triangulation"])

p("C34","Radiative transfer converges to the physical solution",
 "The computed ionisation state converges to the analytic solution as resolution, directions and time steps are refined.",
 ["inputs","configurations"],"all problems and resolutions","Only single benchmark setups are compared.",
 ["src/sweep/mod.rs","src/chemistry/hydrogen_only/mod.rs"],["discretisation"],(),["ionised fractions over time"])

p("C35","Sweeps make progress and terminate on every mesh",
 "Each sweep terminates: there is never a cyclic dependency among tasks that no rank can resolve.",
 ["inputs","schedules"],"all meshes and rank layouts","Only small meshes are tested.",
 ["src/sweep/mod.rs","src/sweep/deadlock_detection.rs"],["acyclicity of upwind dependencies of Voronoi meshes; periodic contributions deferred"],(),["termination"])

p("C36","Tree construction and radius search lose no particle and invent none",
 "Every particle handed to the tree is stored in exactly one leaf, the one its position belongs to; leaves are divided only when over-full and not too deep, without losing what they held. Walking the tree visits every node that can contain a match once and in order, and a radius search returns exactly the particles whose periodic distance is below the radius.",
 ["inputs"],"all particle sets, tree depths and search radii",
 "Tests search one regular grid.",
 ["src/quadtree/mod.rs","src/quadtree/radius_search.rs","src/domain/quadtree.rs"],["recursive insertion, explicit stack of nodes to visit"],(),["particles found"])

p("C37","Halo import covers every circumsphere of a local cell, each image once",
 "A simplex with a local corner stays undecided until the region searched for it covers its circumsphere with a safety margin; radii only grow, and simplices created by imported points are examined again. Searches go to every rank that may own part of the region, are answered by the tree search of that rank, and each periodic image of a particle is delivered to a rank once and entered with its own identifier, rank and wrapping. Iteration ends only when no rank has undecided simplices.",
 ["inputs","schedules"],"all point sets, rank layouts and iteration histories",
 "One test compares two fixed point sets.",
 ["src/voronoi/constructor/halo_iteration.rs","src/voronoi/constructor/halo_cache.rs","src/voronoi/constructor/parallel/mod.rs"],["work list of undecided simplices","set of images sent before"],(),["points imported"])

with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P), max(len(x["title"]) for x in P))
