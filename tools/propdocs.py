"""Text of the properties; tools/gen.py writes properties.jsonl and
MANIFEST.json from this file and props.py."""


def D(title, statement, over, text, why, files, mech, note="", technique=None):
    return dict(title=title, statement=statement, over=over.split(), text=text, why=why, files=files,
                mech=mech, note=note, technique=technique)


TECH = "runtime monitoring: real code on a monitored SYCL runtime, online oracles, ASan+UBSan"

DOCS = {
    "P01": D(
        "Global and hybrid particle movement conserves and correctly places particles",
        "Moving particles globally between MPI ranks delivers every particle exactly once to the rank it requested, leaves particles that requested no rank or their own rank untouched in their cell, and carries every property value unchanged. After a hybrid move followed by a cell move every particle inside the domain is stored exactly once, on the rank and in the cell that own its position.",
        "schedules inputs histories configurations",
        "every number of ranks, particle distribution, destination pattern, displacement, sequence of moves, device command schedule and MPI timing",
        "The tests move one fixed random distribution on one rank with one in-order style schedule; conservation must hold for every pattern of departures and arrivals and every completion order.",
        ["src/particle_group.cpp", "include/neso_particles/global_move.hpp", "include/neso_particles/global_move_exchange.hpp", "include/neso_particles/departing_particle_identification.hpp", "src/global_mapping.cpp", "src/packing_unpacking.cpp"],
        [("identification of leaving particles, packing, exchange of counts and data, removal of sent and insertion of received particles", "global_move.hpp, global_move_exchange.hpp, packing_unpacking.cpp"),
         ("mapping positions to owning rank", "global_mapping.cpp, mesh_hierarchy.cpp")]),
    "P02": D(
        "Neighbour (local) particle movement conserves and delivers particles",
        "A local move sends every particle that names a neighbouring rank to exactly that rank, exactly once and with all property values unchanged, and leaves every other particle in place.",
        "schedules inputs histories configurations",
        "every neighbour topology, subset of leaving particles, sequence of moves and completion order",
        "Existing tests run on one rank, where the neighbour exchange transfers nothing.",
        ["include/neso_particles/local_move.hpp", "src/packing_unpacking.cpp", "src/departing_particle_identification.cpp", "src/particle_group.cpp"],
        [("exchange of counts then packed particles with the neighbours", "local_move.hpp"), ("pack and unpack kernels", "packing_unpacking.cpp")]),
    "P03": D(
        "Cell movement puts every particle in the cell it names",
        "After a cell move every particle is stored exactly once in exactly the cell named by its cell property, with all property values unchanged and without gaps in any cell.",
        "schedules inputs histories",
        "every combination of source and destination cells, occupancy, sequence of moves and kernel schedule",
        "Tests use a few random distributions; the result depends on atomics order, on which rows are compacted and on the reallocation pattern.",
        ["src/cell_dat_move.cpp", "src/cell_dat_compression.cpp", "include/neso_particles/cell_dat_compression.hpp"],
        [("identify movers, allocate layers, copy and compress", "cell_dat_move.cpp"), ("hole filling", "cell_dat_compression.hpp")]),
    "P04": D(
        "Adding particles to a group stores exactly the given particles and values",
        "Adding particles from a particle set, another group or sub group, a product matrix or descendant products stores each given particle exactly once in the cell it names with exactly the given property values (properties that were not given are zero, or the parent's values for descendants), leaves all particles already stored unchanged, and leaves the source unchanged.",
        "inputs histories schedules configurations",
        "every sequence of additions interleaved with removals, moves and property changes, every subset of given properties, occupancy and kernel schedule",
        "Each test adds once to a fresh group; layers, reallocation and reused buffers depend on the whole history.",
        ["src/particle_group.cpp", "include/neso_particles/particle_group.hpp", "include/neso_particles/particle_group_impl.hpp", "include/neso_particles/containers/product_matrix.hpp", "include/neso_particles/loop/particle_loop_utility.hpp"],
        [("add_particles_local for sets, groups, sub groups, product matrices, descendants", "src/particle_group.cpp")]),
    "P05": D(
        "Removing particles removes exactly the selected particles",
        "Removing particles by cell and layer lists, by sub group, with a particle remover or by clearing removes exactly the named particles; every other particle stays stored exactly once in its cell with its values unchanged, cells stay without gaps, and the removed particles are not seen again.",
        "inputs histories schedules configurations",
        "every selection (none, some, all of a cell), cell occupancy, history before it and kernel schedule",
        "Hole filling depends on which rows of each cell are removed; tests remove a few fixed patterns.",
        ["src/cell_dat_compression.cpp", "include/neso_particles/cell_dat_compression.hpp", "src/particle_group.cpp"],
        [("hole filling", "cell_dat_compression.hpp"), ("remove_particles overloads and sub group removal", "particle_group.cpp")]),
    "P06": D(
        "Group bookkeeping and host copies agree with the stored particles",
        "At every point of a history of additions, removals, moves, property creation and deletion, the occupancies, totals, offsets, property specification and host copies of cells and of selected particles reported by a particle group are mutually consistent and equal to the particles actually stored, for every property.",
        "inputs histories schedules configurations",
        "every history of mutating operations and queries",
        "Cached copies of counts (host, device, offsets) must be refreshed on every mutation path; tests query after single operations.",
        ["src/particle_group.cpp", "include/neso_particles/particle_group.hpp", "include/neso_particles/particle_group_impl.hpp", "include/neso_particles/particle_dat.hpp", "include/neso_particles/cell_dat.hpp", "include/neso_particles/particle_spec.hpp"],
        [("get_npart_cell, get_npart_local, get_cell, get_particles, contains_dat, get_particle_spec", "src/particle_group.cpp")]),
    "P07": D(
        "A particle loop runs its kernel exactly once per selected particle",
        "Executing a particle loop over a group, a sub group or a particle dat, over all cells, one cell or a cell range, synchronously or by submit and wait, invokes the kernel exactly once for every selected particle and for no other, and each invocation reads and writes that particle's own property values and sees its true cell, layer and linear indices.",
        "inputs schedules configurations",
        "every occupancy, cell range, iteration target, local size, number of bins, device limits and work item order",
        "The mapping from work items to particles depends on occupancy and launch configuration, which the tests barely vary.",
        ["include/neso_particles/loop/particle_loop_base.hpp", "src/loop/particle_loop_iteration_set.cpp", "include/neso_particles/loop/access_descriptors.hpp", "include/neso_particles/loop/particle_loop_index.hpp"],
        [("iteration set creation", "src/loop/particle_loop_iteration_set.cpp"), ("kernel launch, index objects", "loop/particle_loop*.hpp")]),
    "P08": D(
        "Loop arguments deliver data to kernels and collect every contribution",
        "Every contribution a particle loop kernel makes through a local array, n-dimensional array, global array, cell data, cell reduction or symbol vector argument is combined exactly once with the argument's previous content by the requested access mode (write, add, min, max, reduction), global arrays end with the same value on all ranks, and read arguments and local memory deliver exactly the stored values.",
        "inputs schedules configurations",
        "every occupancy, access mode, argument size, launch configuration, number of ranks and work item order",
        "Lost or doubled contributions depend on interleaving and launch configuration.",
        ["include/neso_particles/containers/local_array.hpp", "include/neso_particles/containers/global_array.hpp", "include/neso_particles/containers/cell_dat_const.hpp", "include/neso_particles/containers/nd_local_array.hpp", "include/neso_particles/containers/sym_vector.hpp", "include/neso_particles/loop/particle_loop_base.hpp", "include/neso_particles/containers/local_memory_block.hpp"],
        [("create_loop_arg, create_kernel_arg, pre and post loop hooks of each argument type", "containers/*.hpp")]),
    "P09": D(
        "A particle sub group contains exactly the particles its selection names",
        "A sub group created by a selection kernel, a cell range, truncation or discarding of the leading particles of each cell, copying, partitioning, disjoint union, or any nesting of these, contains exactly the particles of its parent that satisfy the selection, each exactly once; its counts, its loops and its host copies agree with that set; and the parts of a partition are disjoint and cover the parent.",
        "inputs schedules configurations",
        "every group content, selector combination and nesting, cell occupancy, launch configuration and work item order",
        "Selector kernels race on atomics and index maps are rebuilt per cell; tests check a few fixed selections.",
        ["src/particle_sub_group/particle_sub_group_base.cpp", "src/particle_sub_group/sub_group_selector_base.cpp", "include/neso_particles/particle_sub_group/sub_group_selector.hpp", "include/neso_particles/particle_sub_group/particle_sub_group_base.hpp"],
        [("selectors and the cell and layer maps they build", "src/particle_sub_group"), ("sub group creation functions", "include/neso_particles/particle_sub_group")]),
    "P10": D(
        "Sub groups follow changes of the particles unless they are static",
        "After any change of the group (particles added, removed or moved, or a property the selection reads written) a non static sub group selects according to the current particles the next time it is used, a static sub group keeps exactly the particles it had while the group is not restructured and refuses use once it was, and a write to a property the selection does not read changes no selection.",
        "inputs histories schedules",
        "every history of mutations and uses of nested, partitioned and copied sub groups",
        "Freshness rests on version counters bumped on every mutation path; tests exercise single mutations.",
        ["src/particle_sub_group/particle_sub_group_base.cpp", "src/particle_group.cpp", "include/neso_particles/particle_group.hpp", "include/neso_particles/particle_sub_group/particle_sub_group_base.hpp"],
        [("version checks", "particle_group.hpp check_validation / invalidate callbacks"), ("create_if_required", "particle_sub_group_base.cpp")]),
    "P11": D(
        "Ephemeral dats hold their values until their sub group changes",
        "An ephemeral dat added to a sub group delivers to later loops over that sub group exactly the values written for each member, whether it is named directly or in a symbol vector and also after a dat of the same name was removed and added again; it disappears when the members of the sub group are selected anew and never otherwise.",
        "inputs histories schedules",
        "every sequence of adding, writing, removing and re-adding ephemeral dats interleaved with changes of the group",
        "Cached device pointers must follow every removal and re-creation; tests add dats once.",
        ["src/containers/ephemeral_dats.cpp", "include/neso_particles/containers/ephemeral_dats.hpp", "include/neso_particles/containers/sym_vector_pointer_cache.hpp", "src/particle_sub_group/particle_sub_group_base.cpp"],
        [("ephemeral dat store and invalidation", "ephemeral_dats.cpp"), ("pointer caches", "sym_vector_pointer_cache.hpp")]),
    "P12": D(
        "Pair loops run their kernel exactly once per listed pair, wave by wave",
        "A pair loop over one or several pair lists, over all cells, one cell or a range of cells, invokes its kernel exactly once for each listed pair of the selected cells and for no other; each invocation reads and writes the properties of its two particles and sees its true cell, wave and linear pair index; pairs of a later wave see the effects of the earlier ones; and a pair list reports on the host exactly the pairs it was given since it was last cleared.",
        "inputs histories schedules configurations",
        "every list content and history of building it, cell range, number of lists, launch configuration and work item order",
        "Lists, cells, waves and blocks are flattened into one launch whose index arithmetic depends on all of them; tests use one list of a fixed shape.",
        ["include/neso_particles/pair_loop/particle_pair_loop_cellwise_pair_list.hpp", "include/neso_particles/pair_loop/particle_pair_loop_cellwise_pair_list_block.hpp", "include/neso_particles/pair_loop/particle_pair_loop_args.hpp", "src/pair_loop/cellwise_pair_list_simple.cpp", "src/pair_loop/cellwise_pair_list_block.cpp", "src/pair_loop/cellwise_pair_list_host.cpp", "src/pair_loop/cellwise_pair_list.cpp"],
        [("execute, submit, apply_pre/apply_post", "particle_pair_loop_*.hpp"), ("push_back, set, clear", "cellwise_pair_list_*.cpp")]),
    "P13": D(
        "DSMC pair sampling draws the requested number of valid pairs",
        "The DSMC samplers deliver, for every cell and collision cell, exactly the requested number of pairs; each pair consists of two different particles of that cell and collision cell which belong to the requested species or sub groups, no particle occurs twice in one wave nor, without replacement, in the whole list, and all admissible particles are drawn with equal probability; collision cell partitions list each particle exactly once under its collision cell and species with matching counts; the all to all iteration visits each pair of particles exactly once; and the reported wave occupancies are those of the list.",
        "inputs schedules configurations random streams",
        "every occupancy, partition into collision cells and species, requested count, launch configuration and work item order",
        "Waves are formed by racing atomics and offsets by scans; tests check small fixed configurations.",
        ["src/algorithms/dsmc/pair_sampler_ntc.cpp", "src/algorithms/dsmc/pair_sampler_no_replacement.cpp", "src/algorithms/dsmc/collision_cell_partition.cpp", "include/neso_particles/algorithms/dsmc/cellwise_all_to_all.hpp", "include/neso_particles/algorithms/dsmc/collision_cell_partition.hpp", "src/pair_loop/cellwise_pair_list_block.cpp"],
        [("sample", "pair_sampler_ntc.cpp, pair_sampler_no_replacement.cpp"), ("construct, max pairs", "collision_cell_partition.cpp")]),
    "P14": D(
        "Kernel random numbers deliver every drawn sample to exactly one place",
        "A per particle block generator draws exactly one sample per component and iteration (particle or pair) of the launch and delivers to each iteration its own samples and no others; an atomic block generator hands each drawn sample to at most one request over its whole life, satisfies every request while the requested amount is within the supplied amount, marks the requests it cannot satisfy as invalid, reports an invalid state exactly when that happened, and draws no more than the launch needs; tuples and null generators follow their parts.",
        "inputs histories schedules configurations",
        "every number of particles or pairs, of components and of samples per kernel, cell range, block size, sequence of launches and work item order",
        "A sample used twice or a draw too many is invisible in one launch with a pseudo random stream; the monitor gives each sample an identity.",
        ["include/neso_particles/containers/rng/host_per_particle_block_rng.hpp", "include/neso_particles/containers/rng/host_atomic_block_kernel_rng.hpp", "include/neso_particles/containers/rng/host_rng_common.hpp", "include/neso_particles/containers/rng/tuple_rng.hpp", "include/neso_particles/loop/particle_loop_utility.hpp"],
        [("draw, allocate and refill before the launch", "impl_pre_loop_read"), ("index or counter to sample", "PerParticleBlockRNG::at, AtomicBlockRNG::at")]),
    "P15": D(
        "Cellwise algorithms compute their result from exactly the selected particles",
        "Reductions of particle properties per cell, counts of particles per cell, element wise operations on cell data, broadcasts of cell data to particles, copies of properties between particles, dats and host arrays, and the extraction of values not seen before produce exactly the result defined by the particles of the given group or sub group, for each cell and component separately, and change no other particle, cell or component.",
        "inputs histories schedules configurations",
        "every occupancy, selection, number of components, sequence of calls and work item order",
        "Work group reductions and cell indexed outputs depend on occupancy and launch shape; tests use one filled mesh.",
        ["src/algorithms/cellwise_methods.cpp", "src/algorithms/reduce_dat_cellwise.cpp", "src/algorithms/particle_data_movement.cpp", "src/algorithms/unseen_value_extractor.cpp", "include/neso_particles/algorithms/reduce_dat_cellwise.hpp", "include/neso_particles/algorithms/cellwise_methods.hpp"],
        [("reduction kernels", "reduce_dat_cellwise.*"), ("broadcast, element wise, copies", "cellwise_methods.*, particle_data_movement.*"), ("value extraction", "unseen_value_extractor.cpp")]),
    "P16": D(
        "The mesh hierarchy indexes cells, maps positions and agrees on owners",
        "Tuple and linear indices of mesh hierarchy cells convert into each other one to one; every position of the domain maps, on host and device alike, to a cell that contains it (including positions on faces and on the domain's end, and never to a cell outside the hierarchy), positions beyond the upper end are reported as such; the owner of each claimed cell is, on every rank, the highest rank among those with the largest claim, cells nobody claimed have no owner; and the neighbours of a cell are exactly the cells within the offset, with or without periodicity.",
        "inputs histories schedules configurations",
        "every number of dimensions, extents, origin, subdivision order, position, claim pattern, neighbour offset and number of ranks",
        "Rounding at faces and ties between claims appear only for particular widths, origins and rank counts; the tests use unit extents and origin zero.",
        ["src/mesh_hierarchy.cpp", "include/neso_particles/mesh_hierarchy.hpp", "include/neso_particles/communication/comm_pair.hpp"],
        [("index conversions, claims through shared windows, neighbours", "mesh_hierarchy.cpp"), ("map_to_tuple", "mesh_hierarchy.hpp MeshHierarchyDeviceMapper")]),
    "P17": D(
        "Mesh hierarchy data gathers every contributed object from the owner",
        "After each rank contributed variable sized objects for mesh hierarchy cells, gathering a set of cells on any rank yields for each cell with an owner exactly the objects all ranks contributed to it, each once and with its content unchanged, and nothing for cells without an owner, for every sequence of collective gather calls.",
        "inputs histories schedules",
        "every distribution of contributions, object sizes including none, sequence of gathered cell sets, ownership and MPI timing",
        "Serialisation offsets and the three message rounds depend on who contributes and asks for what; tests use one pattern.",
        ["include/neso_particles/mesh_hierarchy_data/mesh_hierarchy_container.hpp", "include/neso_particles/mesh_hierarchy_data/serial_container.hpp", "src/communication/communication_edges_counter.cpp"],
        [("construction, gather, get", "mesh_hierarchy_container.hpp"), ("packing", "serial_container.hpp")]),
    "P24": D(
        "Device primitives compute scans, reductions, sorts and transposes exactly",
        "Exclusive and segmented prefix sums, reductions, matrix transposes, the eight element sorting network, small matrix inverses and atomic add, min and max give the result of their sequential definition for every size and value, read only their input and write nothing outside their output.",
        "inputs schedules configurations",
        "every array size including none, one and sizes around the work group size, segment layout, alignment, device limits and work item order",
        "Index arithmetic is wrong only for particular sizes relative to the local size; tests use a few sizes.",
        ["include/neso_particles/algorithms/common.hpp", "src/algorithms/common.cpp", "src/device_limits.cpp", "include/neso_particles/device_functions.hpp"],
        [("scan kernels", "algorithms/common.*"), ("atomics", "compute_target.hpp, device functions")]),
    "P25": D(
        "Containers return exactly what was stored",
        "Device and host buffers, cell data with a varying or fixed number of rows per cell, cell constants, lookup tables, blocked trees, resource stacks, local and n-dimensional arrays and particle sets return after any sequence of resizing, writing, inserting and reading exactly the values last stored at each place, keep what a resize promises to keep, report their true sizes, and hand out each pooled resource to one owner at a time.",
        "inputs histories schedules configurations",
        "every sequence of container operations, sizes and shapes, and device command schedule",
        "Contents survive a reallocation only if old and new sizes are treated right for each sequence; tests grow once.",
        ["include/neso_particles/containers/cell_dat.hpp", "src/containers/cell_dat.cpp", "include/neso_particles/containers/cell_dat_const.hpp", "src/containers/cell_dat_const.cpp", "include/neso_particles/device_buffers.hpp", "include/neso_particles/containers/lookup_table.hpp", "include/neso_particles/containers/blocked_binary_tree.hpp", "include/neso_particles/containers/resource_stack.hpp", "src/containers/local_array.cpp", "src/particle_set.cpp", "src/containers/particle_set_device.cpp"],
        [("realloc and copies", "device_buffers.hpp, cell_dat.*"), ("lookup", "lookup_table.hpp, blocked_binary_tree.hpp")]),
    "P26": D(
        "Communication utilities deliver exactly the data the ranks provided",
        "Gathers of vectors, union, broadcast and transfer of sets, neighbour exchanges on arbitrary directed communication graphs (with self edges, repeated edges and ranks without edges), reversed graphs and the discovery of and exchange with unknown senders deliver on every rank exactly the values the other ranks provided; one collective never consumes the messages of another; and rank and cell decompositions multiply up and cover their range without gaps or overlap.",
        "inputs histories schedules configurations",
        "every communicator, root, graph, message size including none, sequence of collectives and MPI timing",
        "With one rank, as in the tests, nearly all of this transfers nothing; any-source receives can match a later collective only when another rank runs ahead.",
        ["src/communication/communication_utility.cpp", "include/neso_particles/communication/communication_utility.hpp", "src/communication/communication_edges_counter.cpp", "include/neso_particles/communication/communication_edges_counter.hpp", "include/neso_particles/utility.hpp"],
        [("set and vector collectives, neighbour exchanges", "communication_utility.*"), ("sender discovery", "communication_edges_counter.cpp")]),
    "P18": D(
        "The Cartesian mesh partitions space consistently and maps every position",
        "Every cell of a Cartesian mesh is owned by exactly one rank and every rank owns a box of cells; cell, face and mesh hierarchy index conversions are inverse to each other and name the owner that owns the cell; neighbour lists are the owners within the stencil; a position whose rank is unknown is mapped to the rank that owns it when it is within the halo, positions are binned into the cell that contains them, and periodic wrapping moves a position into the domain by a whole number of extents in the periodic dimensions only.",
        "inputs configurations",
        "every dimension, cell count, extent, subdivision, stencil, number of ranks and position including cell corners and several domains away",
        "The tests use one rank and a few meshes; index arithmetic and ownership only matter with several ranks and non square meshes, wrapping at corners and far outside.",
        ["src/cartesian_mesh/cartesian_h_mesh.cpp", "include/neso_particles/cartesian_mesh/cartesian_h_mesh.hpp", "src/cartesian_mesh/cartesian_cell_bin.cpp", "src/cartesian_mesh/cartesian_periodic.cpp", "src/cartesian_mesh.cpp"],
        [("decomposition and indices", "cartesian_h_mesh.cpp"), ("binning and wrapping", "cartesian_cell_bin.cpp, cartesian_periodic.cpp")]),
    "P19": D(
        "Trajectories meet the boundary where geometry says, once, and reflect or stop",
        "For every particle whose straight path from its previous to its current position leaves the Cartesian domain the intersection is reported exactly once, in the boundary group of the face it leaves through, with the intersection point, inward or outward normal and boundary element of that point; paths that stay inside are not reported. Truncation puts the particle at the intersection and records the fraction of the time step used; reflection additionally mirrors the velocity so that repeated reflection reproduces free flight in a box, and no particle ends outside of the domain.",
        "inputs configurations",
        "every box, set of boundary groups, step from inside of the domain, number of ranks and sub group of particles",
        "The tests fire a few particles at known faces; corners, several groups, sub groups and multi-bounce time steps are sampled there by at most one case.",
        ["src/cartesian_mesh/cartesian_trajectory_intersection.cpp", "include/neso_particles/cartesian_mesh/cartesian_trajectory_intersection.hpp", "src/boundary/boundary_reflection.cpp", "src/boundary/boundary_truncation.cpp", "src/boundary/boundary_interaction_specification.cpp"],
        [("intersection", "cartesian_trajectory_intersection.cpp"), ("reflection", "boundary_reflection.cpp"), ("truncation", "boundary_truncation.cpp")]),
    "P20": D(
        "Boundary functions integrate every contribution once and evaluate the right face",
        "The boundary mesh interface knows exactly the geometry objects that were requested by its extensions, gives them contiguous indices that host and device agree on, and exchanges values with their owners in both directions without loss. Functions on the boundary of the Cartesian mesh hold one value per owned face cell; projecting particle data adds the contribution of every particle that hit a face cell exactly once to that cell on whichever rank owns it and to no other, and evaluation gives every particle the value of the cell it hit.",
        "inputs histories configurations",
        "every set of requested objects and extensions, number of components, number of ranks, particle hits including none, and sequences of projections and evaluations",
        "With one rank, as in the tests, no value crosses ranks and stage buffers are only ever used at one size; stale stage values and wrong owners need growth and several ranks.",
        ["include/neso_particles/boundary/boundary_mesh_interface.hpp", "src/boundary/boundary_mesh_interface.cpp", "src/cartesian_mesh/cartesian_h_mesh_function.cpp", "src/cartesian_mesh/cartesian_trajectory_intersection.cpp"],
        [("exchange pattern", "boundary_mesh_interface.hpp"), ("projection and evaluation", "cartesian_trajectory_intersection.cpp")],
        "In 3D the repository scales projections by the inverse cell width (its test encodes that); an inverse area is accepted as well. Runs at several ranks use Open MPI's basic topology component because its default stalls sporadically in MPI_Dist_graph_create."),
    "P22": D(
        "H5Part files hold exactly the particles at the time of writing and read back",
        "Each step of an H5Part file holds one row per particle of the group or sub group at the time of the write, over all ranks, with the positions as x, y, z and each requested component as a dataset of the right type, all of one row belonging to the same particle and bitwise equal to its values; no other steps or datasets exist; closing and reopening the file between steps loses nothing; a step with no particles is valid; and reading a step gives the ranks together each row exactly once.",
        "inputs histories configurations",
        "every set of properties, group or sub group, distribution over ranks including ranks without particles and empty steps, sequence of writes, closes and reads",
        "The tests write non-empty steps on one rank; offsets, ranks without rows and empty steps only matter elsewhere.",
        ["src/particle_io.cpp", "include/neso_particles/particle_io.hpp"],
        [("write and read", "particle_io.*")]),
    "P21": D(
        "Overlay meshes, overlap claims, dof maps and coordinate maps are exact",
        "An overlay Cartesian mesh assigns every point of its box, on host and device, to the one cell that contains it, its linear and tuple indices are inverse to each other and identical on host and device, and the cells it lists for a box are exactly the cells the box reaches, those it only touches included. Claiming cells with the box of a geometric object claims exactly the mesh hierarchy cells that overlap it, once each, with the fraction of the cell that is covered. Maps of degrees of freedom to and from an external array carry every value to its place and back, and change nothing else. The coordinate maps (barycentric triangles and quadrilaterals, toroidal to Cartesian) and their inverses agree with their definitions and undo each other.",
        "inputs configurations",
        "every mesh of one, two or three dimensions, point including ones on faces, box, hierarchy, permutation of degrees of freedom, triangle, convex quadrilateral and angle",
        "The tests use one two dimensional mesh and a few fixed boxes and points; faces, other dimensions, non-square cells and general permutations are not sampled.",
        ["src/external_interfaces/common/overlay_cartesian_mesh.cpp", "include/neso_particles/external_interfaces/common/overlay_cartesian_mesh.hpp", "src/external_interfaces/common/local_claim.cpp", "include/neso_particles/external_interfaces/common/bounding_box.hpp", "src/external_interfaces/common/dof_mapper_dg.cpp", "include/neso_particles/external_interfaces/common/coordinate_mapping.hpp"],
        [("overlay cells", "overlay_cartesian_mesh.*"), ("overlap claims", "local_claim.*"), ("degrees of freedom", "dof_mapper_dg.*"), ("coordinate maps", "coordinate_mapping.hpp")]),
    "P23": D(
        "VTK files hold exactly the cells, points and data that were given",
        "A VTKHDF file written in parallel holds, per rank in rank order, exactly the cells that rank passed: their types, points, connectivity, offsets, point data and cell data, with consistent counts and the attributes the format requires, whatever the mixture of cell types and numbers of cells per rank including none. Files made from functions on Cartesian and unstructured meshes hold every owned cell once with its vertices and its value, and the mesh hierarchy writers draw exactly the cells that were passed.",
        "inputs configurations",
        "every number of cells per rank, mixture of cell types, set of data names, mesh and number of ranks",
        "The tests write files on one rank and do not read them back.",
        ["include/neso_particles/external_interfaces/vtk/vtk.hpp", "src/utility_mesh_hierarchy_plotting.cpp", "src/cartesian_mesh/cartesian_h_mesh_function.cpp", "src/external_interfaces/petsc/project_evaluate/dmplex_project_evaluate_dg.cpp"],
        [("parallel offsets and data", "vtk.hpp"), ("hierarchy drawing", "utility_mesh_hierarchy_plotting.cpp")]),
    "P27": D(
        "Projections and quadrature exchanges on unstructured meshes lose nothing",
        "Quadrature points added on any rank at positions of the domain are held by the owner of the cell, and values read from or written to the points reach exactly the point they belong to, for every number of components and wherever a point is held. Projecting a particle property onto cell-wise constant or barycentric functions conserves the total (and, barycentric, the first moments) of each cell, evaluation gives every particle the value of the function of its own cell at its position, degrees of freedom are read back as set, and coupling two meshes transfers to each cell exactly the sum of the contributions of its counterpart, in both directions.",
        "inputs histories configurations",
        "every mesh, decomposition and overlap, number of components, points and particles including empty cells, and sequence of projections, evaluations and transfers",
        "On one rank, as in the tests, every quadrature point and coupled cell is local; exchange, ordering and component strides are never exercised.",
        ["src/external_interfaces/common/quadrature_point_mapper.cpp", "src/external_interfaces/petsc/project_evaluate/dmplex_project_evaluate_dg.cpp", "src/external_interfaces/petsc/project_evaluate/dmplex_project_evaluate_barycentric.cpp", "src/external_interfaces/petsc/dmplex_mesh_coupler_dg0.cpp"],
        [("point exchange", "quadrature_point_mapper.cpp"), ("projection and evaluation", "project_evaluate/*.cpp"), ("coupling", "dmplex_mesh_coupler_dg0.cpp")]),
    "P28": D(
        "Unstructured meshes report true geometry and map particles to their cells",
        "A PETSc DMPlex mesh reports for every cell its true vertices, volume, bounding box, owner and indices on every rank, with halo copies equal to the originals; the point in cell test agrees with the geometry; created positions lie in their cells in the requested numbers; and moving particles between ranks and cells puts every particle at a position of the domain, in particular on edges, vertices and the domain boundary, exactly once in a cell that contains its position, with its properties unchanged.",
        "inputs histories configurations",
        "every mesh of triangles and quadrilaterals in 2D and of hexahedra or tetrahedra in 3D, decomposition, overlap, particle position and number of ranks",
        "The tests map random interior positions in fixed meshes; positions on faces and vertices, distorted cells, halos and ownership on several ranks are not sampled.",
        ["src/external_interfaces/petsc/dmplex_helper.cpp", "src/external_interfaces/petsc/dmplex_interface.cpp", "src/external_interfaces/petsc/dmplex_cell_serialise.cpp", "src/external_interfaces/petsc/dmplex_utility.cpp", "src/external_interfaces/petsc/particle_cell_mapping/dmplex_2d_mapper.cpp", "src/external_interfaces/petsc/particle_cell_mapping/dmplex_host_mapper.cpp"],
        [("cell geometry and containment", "dmplex_helper.cpp"), ("halo exchange and mesh hierarchy ownership", "dmplex_interface.cpp, dmplex_cell_serialise.cpp"), ("device and host point location", "particle_cell_mapping/*.cpp")],
        "Positions in mesh hierarchy cells which no rank claims (exactly on an upper face of the bounding box when it lies on a hierarchy cell border) are excluded: see DESIGN.md. tetrahedra are located on the host, quadrilaterals are planar and convex."),
    "P32": D(
        "Boundary interaction on unstructured meshes finds the first crossed edge",
        "For every particle whose straight path from its previous to its current position crosses boundary edges of a PETSc mesh in 2D that belong to a requested group, the interaction reports it exactly once, in the group of the first edge crossed, with the intersection point, edge and normal of that edge, and reports no other particle; reflection and truncation then place the particle, mirror its velocity and account its remaining time step as the geometry says.",
        "inputs histories configurations",
        "every mesh, assignment of boundary edges to groups, path including ones along the axes, and number of ranks and overlap",
        "The tests fire particles radially at a square; axis parallel paths, several groups on one rank, ranks without boundary and repeated steps are not sampled.",
        ["src/external_interfaces/petsc/boundary_interaction/boundary_interaction_2d.cpp", "src/external_interfaces/petsc/boundary_interaction/boundary_interaction_common.cpp", "include/neso_particles/device_functions.hpp", "src/boundary/boundary_reflection.cpp", "src/boundary/boundary_truncation.cpp"],
        [("collection of edges from the ranks that own them", "boundary_interaction_common.cpp"), ("intersection", "boundary_interaction_2d.cpp, line_segment_intersection_2d")]),
    "P29": D(
        "No memory error, undefined behaviour or misuse of the device runtime",
        "No sequence of valid operations makes the library access memory outside of an allocation or after its release on host or device, read or write out of range in kernels or local memory, overflow signed arithmetic, convert out of range, divide by zero, or use the device runtime in ways it does not define (invalid work group sizes, work-group divergence at barriers, freeing memory in use by a pending command, submitting from inside of a command group, leaving commands pending on freed objects).",
        "inputs histories schedules configurations",
        "every history of operations of all the other properties, admissible schedule, work group size and configuration",
        "Tests that pass say nothing about accesses that happen to land in mapped memory; device memory errors are invisible to host sanitizers in the production build.",
        ["include/neso_particles/compute_target.hpp", "include/neso_particles/device_buffers.hpp", "include/neso_particles/loop/particle_loop.hpp", "src/compute_target.cpp", "src/particle_group.cpp", "src/cell_dat_compression.cpp"],
        [("device allocations and queues", "compute_target.*, device_buffers.hpp"), ("every kernel", "include/, src/")],
        technique="AddressSanitizer and UndefinedBehaviorSanitizer over host and device code (kernels run in-process on a monitored SYCL runtime with red zones around every device allocation) under the workloads of all harnesses"),
    "P30": D(
        "Device work is free of data races",
        "Two work-items of a kernel touch the same memory, at least one of them writing, only through atomic operations or on the two sides of a barrier of their work-group; and two commands, or a command and the host, touch the same device or shared memory, at least one of them writing, only when an event dependency or a wait orders them.",
        "schedules inputs histories",
        "every launch geometry, order of work-items and commands, and every history of operations of all the other properties",
        "A lost update needs two work-items to collide at the right moment; on a CPU runtime with few threads and small tests that nearly never happens.",
        ["src/departing_particle_identification.cpp", "src/global_mapping.cpp", "src/cell_dat_move.cpp", "src/particle_group.cpp", "src/pair_loop/cellwise_pair_list_block.cpp", "include/neso_particles/cell_dat_compression.hpp", "include/neso_particles/device_functions.hpp", "include/neso_particles/loop/particle_loop.hpp", "include/neso_particles/particle_sub_group/sub_group_selector.hpp"],
        [("atomic counters and accumulations", "fetch_add, fetch_min, fetch_max in kernels"), ("waits and dependencies", "every queue submission")],
        technique="ThreadSanitizer over host and device code: every work-item runs in a logical thread of its own (fibers), ordered only by the dependencies, waits, barriers and atomics the SYCL runtime guarantees"),
    "P31": D(
        "Results do not depend on when and in which order the device works",
        "Whatever admissible schedule the device follows - commands run late, early, interleaved or out of order as far as their dependencies allow, work-items and work-groups in any order - operations give the results they give when every command runs to completion at submission; nothing reads results before they are complete or releases memory that pending commands use.",
        "inputs histories schedules",
        "every admissible order of execution of commands and of work-items of a kernel",
        "The production CPU runtime executes nearly always in submission order, so a missing dependency or wait is invisible to the tests.",
        ["include/neso_particles/loop/particle_loop.hpp", "src/cell_dat_compression.cpp", "src/cell_dat_move.cpp", "src/particle_group.cpp", "include/neso_particles/loop/particle_loop_args.hpp", "include/neso_particles/containers/cell_dat_const.hpp", "src/packing_unpacking.cpp"],
        [("waits and event dependencies", "every queue submission")],
        technique="differential monitoring: adversarial schedules of a monitored SYCL runtime against eager execution of the same case, with all oracles active"),
    "P33": D(
        "Host and device memory are kept apart",
        "Kernels only touch device memory, shared or host allocations of the device runtime, their local memory and their own arguments, never ordinary host memory; host code never reads or writes device memory except through copies of the device runtime; and MPI and HDF5 are handed device memory only when device aware MPI is enabled (HDF5 never).",
        "inputs histories configurations",
        "every history of operations of all the other properties and every configuration",
        "On the CPU runtime the tests run with, host and device share one address space, so a pointer to the wrong memory works; on a GPU it is a crash or garbage.",
        ["include/neso_particles/device_buffers.hpp", "src/packing_unpacking.cpp", "src/particle_group.cpp", "src/particle_io.cpp", "include/neso_particles/boundary/boundary_mesh_interface.hpp", "include/neso_particles/containers/cell_dat.hpp", "src/external_interfaces/common/quadrature_point_mapper.cpp", "src/departing_particle_identification.cpp"],
        [("device, host and staging buffers", "device_buffers.hpp"), ("every kernel capture and host access", "include/, src/")],
        technique="memory access monitor: every load and store is instrumented by the compiler (ThreadSanitizer instrumentation with own entry points) and judged against the kind of the memory and the side that accesses it"),
    "P34": D(
        "MPI operations are completed, matched and leave nothing behind",
        "Send buffers are not changed and receive buffers not used before the operation completes; every request is completed, every message received, every one-sided access is inside of an epoch and its result not used before the epoch ends; all ranks of a communicator call the same collectives in the same order; correctness never depends on sends being buffered; and communicators and windows made for an object are released when it is freed.",
        "schedules histories configurations",
        "every history of moves, mesh, boundary and i/o operations on several ranks, MPI timing and eager or rendezvous sends",
        "The tests run on one rank; a send that is only safe because it is buffered, or a buffer reused too early, works on any idle machine.",
        ["include/neso_particles/global_move_exchange.hpp", "include/neso_particles/global_move.hpp", "include/neso_particles/local_move.hpp", "src/mesh_hierarchy.cpp", "src/global_mapping.cpp", "include/neso_particles/communication/communication_utility.hpp", "include/neso_particles/communication/comm_pair.hpp"],
        [("exchanges", "global_move_exchange.hpp, local_move.hpp"), ("one-sided maps", "mesh_hierarchy.cpp")],
        technique="interposed MPI monitor: buffer checksums and poisoning, request and epoch tracking, synchronous sends, collective histories compared between ranks"),
    "P35": D(
        "Results do not depend on tuning parameters, devices or profiling",
        "The documented configuration - work group sizes, number of bins, in-order queues, device aware MPI, initial sizes, device selection by default, CPU or GPU selector, device limits and automatic profiling - changes performance only: the same operations give the same particles and values in every configuration.",
        "configurations inputs",
        "every combination of parameter values and device limits",
        "The tests run with one configuration; code paths chosen by local memory size, work group limits or device type are never executed by them.",
        ["src/compute_target.cpp", "include/neso_particles/compute_target.hpp", "src/device_limits.cpp", "src/loop/particle_loop_iteration_set.cpp", "include/neso_particles/parameters.hpp", "include/neso_particles/profiling.hpp"],
        [("parameters and limits", "compute_target.cpp, device_limits.cpp"), ("iteration sets", "particle_loop_iteration_set.cpp")],
        technique="differential monitoring: the same case in randomly drawn configurations against the default configuration, with all oracles active"),
    "P36": D(
        "Parallel initialisation puts every particle on the owner of its position",
        "Initialisation by advection delivers every particle, added on any rank at any position of the domain, to the rank that owns its position, exactly once, with bitwise unchanged position and properties and without leaving the helper property behind, for any number of steps; sampling points in Cartesian cells gives each owned cell the requested number of points, all inside of it; and the global particle count is the sum over the ranks.",
        "inputs configurations",
        "every distribution of particles over ranks and the domain, number of steps, mesh and number of ranks",
        "On one rank, as in the tests, nothing is ever on the wrong rank.",
        ["src/parallel_initialisation.cpp", "include/neso_particles/parallel_initialisation.hpp", "src/utility.cpp", "include/neso_particles/utility.hpp"],
        [("advection", "parallel_initialisation.cpp"), ("sampling in cells", "utility.cpp")]),
    "P37": D(
        "Kernel assertions are reported exactly and pooled objects come back clean",
        "An error flag reports a failure if and only if a kernel assertion on it failed since it was created, reset or taken from the pool, independent of other flags; resource pools never hand one object to two users, hand objects out in their clean state, reuse returned ones, refuse to be freed while objects are in use and release every object once. A temporary particle group is empty, has exactly the current properties of its source group, is nobody else's, and neither it nor its return affects the source or the other temporary groups.",
        "inputs histories schedules",
        "every interleaving of kernels, resets, reads, returns and takes over several flags and pools",
        "The tests raise one flag once; stale flags need reuse after a failure.",
        ["include/neso_particles/error_propagate.hpp", "include/neso_particles/containers/resource_stack.hpp", "include/neso_particles/containers/resource_stack_map.hpp", "src/particle_group_temporary.cpp", "include/neso_particles/particle_group_temporary.hpp"],
        [("flags", "error_propagate.hpp"), ("pools", "resource_stack*.hpp"), ("temporary groups", "particle_group_temporary.cpp")]),
}

NOT_APPLICABLE = {}
