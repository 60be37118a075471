"""What runs decide which property."""


def R(harness, only=None, ranks=1, quick=80, thorough=2000, **kw):
    d = dict(harness=harness, ranks=ranks, quick=quick, thorough=thorough, **kw)
    if only:
        d["only"] = only
    return d


PROPS = {
    "P01": dict(
        runs=[R("m_move", "global,hybrid", 4, 80, 3000), R("m_move", "global,hybrid", 3, 80, 3000),
              R("m_move", "global,hybrid", 2, 60, 2000), R("m_move", "global,hybrid", 1, 60, 1000)],
        rule="a case counts when particles changed rank (several ranks) or were present (one rank)",
        require={"particles_moved_rank": 50}),
    "P02": dict(
        runs=[R("m_move", "local", 4, 100, 3000), R("m_move", "local", 3, 100, 3000), R("m_move", "local", 2, 60, 1000)],
        rule="a case counts when particles changed rank through the neighbour exchange",
        require={"particles_moved_rank": 50}),
    "P03": dict(
        runs=[R("m_move", "cellmove", 1, 900, 12000), R("m_move", "cellmove", 2, 60, 1000)],
        rule="a case counts when at least one particle changed cell", require={"particles_moved_cell": 50}),
    "P04": dict(
        runs=[R("m_group", "add", 1, 900, 12000), R("m_group", "add", 2, 150, 2500)],
        rule="a case counts when particles were added to a group", require={"particles_added": 200}),
    "P05": dict(
        runs=[R("m_group", "remove", 1, 900, 12000), R("m_group", "remove", 2, 150, 2500)],
        rule="a case counts when particles were present in the history", require={"particles_removed": 100}),
    "P06": dict(
        runs=[R("m_group", "book", 1, 900, 12000), R("m_group", "book", 2, 200, 2500), R("m_group", "book", 3, 80, 1500)],
        rule="a case counts when particles were present in the history", require={"ops": 200, "particles_extracted": 50}),
    "P07": dict(
        runs=[R("m_loop", "iter,datloop", 1, 900, 12000), R("m_loop", "iter,datloop", 2, 60, 1500)],
        rule="a case counts when the kernel was invoked at least once", require={"visits": 500}),
    "P08": dict(
        runs=[R("m_loop", "args", 1, 900, 12000), R("m_loop", "args", 2, 80, 1500), R("m_loop", "args", 3, 40, 1500)],
        rule="a case counts when particles contributed to an argument", require={"contributions": 500}),
    "P09": dict(
        runs=[R("m_sub", "select", 1, 700, 8000), R("m_sub", "select", 2, 80, 1500)],
        rule="a case counts when a sub group with members was observed", require={"sub_groups": 100, "members_observed": 500}),
    "P10": dict(
        runs=[R("m_sub", "fresh", 1, 700, 10000), R("m_sub", "fresh", 2, 80, 1500)],
        rule="a case counts when the group changed between observations of sub groups with members",
        require={"mutations": 100, "sub_group_observations": 200}),
    "P11": dict(
        runs=[R("m_sub", "ephem", 1, 500, 6000), R("m_sub", "ephem", 2, 60, 1500)],
        rule="a case counts when ephemeral values were written", require={"ephemeral_writes": 200, "ephemeral_reads": 200}),
    "P12": dict(
        runs=[R("m_pair", "simple", 1, 700, 12000), R("m_pair", "simple", 2, 80, 1500)],
        rule="a case counts when listed pairs were visited", require={"pairs_visited": 500}),
    "P13": dict(
        runs=[R("m_pair", "ntc,nr,all", 1, 500, 10000), R("m_pair", "ntc,nr,all", 2, 80, 1500)],
        rule="a case counts when pairs were sampled", require={"pairs_sampled": 500, "wave_occupancies": 100, "partition_entries": 200, "pairs_all": 500}),
    "P14": dict(
        runs=[R("m_alg", "rng", 1, 500, 8000), R("m_alg", "rng", 2, 80, 1500), R("m_pair", "rngpair", 1, 500, 8000),
              R("m_pair", "rngpair", 2, 80, 1500)],
        rule="a case counts when samples were delivered to kernels",
        require={"samples_checked": 1000, "atomic_samples_checked": 500, "pair_samples": 500, "exhausted_loops": 5}),
    "P15": dict(
        runs=[R("m_alg", "reduce", 1, 500, 8000), R("m_alg", "reduce", 2, 100, 2000), R("m_alg", "reduce", 3, 60, 1000)],
        rule="a case counts when particles were present",
        require={"reduced_values": 500, "npart_values": 50, "element_wise_values": 100, "copied_values": 200,
                 "broadcast_values": 200, "unseen_values": 200}),
    "P24": dict(
        runs=[R("m_alg", "prim", 1, 900, 12000)],
        rule="every case evaluates a primitive",
        require={"scans": 100, "reductions": 50, "transposes": 50, "sorts": 100, "inverses": 20, "atomic_updates": 500}),
    "P25": dict(
        runs=[R("m_alg", "cont", 1, 900, 12000), R("m_alg", "cont", 2, 60, 1000)],
        rule="every case runs a history of container operations",
        require={"cell_dat_values": 500, "cell_dat_const_values": 200, "buffer_values": 500, "table_lookups": 200,
                 "tree_lookups": 200, "resource_steps": 100, "particle_set_values": 200}),
    "P16": dict(
        runs=[R("m_mesh", "hier", 1, 300, 3000), R("m_mesh", "hier", 2, 200, 3000), R("m_mesh", "hier", 3, 200, 3000),
              R("m_mesh", "hier", 4, 150, 3000)],
        rule="every case builds a hierarchy and checks its indices, positions, neighbours and owners",
        require={"mh_cells_indexed": 1000, "mh_positions": 2000, "mh_cells_claimed": 500, "mh_neighbours": 500}),
    "P17": dict(
        runs=[R("m_mesh", "mhdata", 3, 400, 6000), R("m_mesh", "mhdata", 2, 300, 5000), R("m_mesh", "mhdata", 4, 300, 6000),
              R("m_mesh", "mhdata", 1, 200, 2000)],
        rule="a case counts when objects were gathered", require={"mhd_objects": 2000}),
    "P26": dict(
        runs=[R("m_mesh", "comm", 3, 700, 10000), R("m_mesh", "comm", 4, 700, 10000), R("m_mesh", "comm", 2, 500, 6000)],
        rule="every case performs a communication test",
        require={"comm_values": 1000, "comm_edges": 500, "decompositions": 500}),
    "P18": dict(
        runs=[R("m_cart", "cart", 4, 200, 4000), R("m_cart", "cart", 3, 200, 4000), R("m_cart", "cart", 2, 200, 3000),
              R("m_cart", "cart", 1, 300, 5000)],
        rule="a case counts when cells, faces and particles of a mesh were compared",
        require={"cells_observed": 1000, "faces_observed": 1000, "mapped_particles": 500, "binned_particles": 500,
                 "wrapped_coordinates": 2000}),
    "P19": dict(
        runs=[R("m_cart", "traj", 1, 400, 8000), R("m_cart", "traj", 2, 200, 4000), R("m_cart", "traj", 3, 100, 3000)],
        rule="a case counts when trajectories were tested against the boundary",
        require={"trajectories": 3000, "intersections": 1000, "reflections": 300, "truncations": 300, "flights": 1000}),
    "P20": dict(
        runs=[R("m_cart", "bmi", 1, 200, 3000), R("m_cart", "bmi", 2, 200, 2000, shard=60),
              R("m_cart", "bmi", 3, 120, 2000, shard=60), R("m_cart", "bmi", 4, 80, 1500, shard=60)],
        rule="a case counts when values were exchanged or functions were projected and evaluated",
        require={"bmi_values": 2000, "function_values": 2000, "function_nonzero": 500, "evaluations": 500}),
    "P21": dict(
        runs=[R("m_geom", "overlay,claim,dof,cmap", 1, 3000, 40000), R("m_geom", "overlay,claim,dof,cmap", 2, 300, 5000)],
        rule="a case counts when points, boxes, claims, degrees of freedom or coordinates were compared",
        require={"overlay_points": 2000, "overlay_boxes": 1000, "touched_cells": 300, "claim_boxes": 100, "claims_observed": 500,
                 "dofs_copied": 500, "coordinate_maps": 500}),
    "P23": dict(
        runs=[R("m_geom", "vtk,vtkfn,mhvtk", 1, 240, 4000), R("m_geom", "vtk,vtkfn,mhvtk", 2, 160, 3000),
              R("m_geom", "vtk,vtkfn,mhvtk", 3, 120, 2000), R("m_geom", "vtk,vtkfn,mhvtk", 4, 80, 2000),
              R("m_petsc", "proj", 1, 40, 1000, shard=20), R("m_petsc", "proj", 3, 40, 1000, shard=20)],
        keys="^vtk/|^assert:vtk|^hang:vtk|^crash:|^san:",
        rule="a case counts when a file was written and read back",
        require={"vtk_cells_read": 1000, "vtk_files": 200, "vtk_lines_read": 500, "vtk_plex_cells": 500, "vtk_plex_values": 500}),
    "P22": dict(
        runs=[R("m_io", "h5", 1, 240, 4000), R("m_io", "h5", 2, 160, 3000), R("m_io", "h5", 3, 120, 2000),
              R("m_io", "h5", 4, 80, 2000)],
        rule="a case counts when at least one step was written",
        require={"h5_steps": 300, "h5_rows": 3000, "h5_rows_read": 1000, "h5_empty_steps": 20}),
    "P27": dict(
        runs=[R("m_petsc", "proj,qpm", 1, 120, 2500, shard=60), R("m_petsc", "proj,qpm", 2, 120, 2500, shard=60),
              R("m_petsc", "proj,qpm", 3, 80, 2000, shard=40), R("m_petsc", "proj,qpm", 4, 60, 1500, shard=30)],
        keys="^(?!mpi/|vtk/)",
        rule="a case counts when values were exchanged, projected or evaluated",
        require={"quadrature_values": 1000, "plex_projections": 50, "plex_evaluations": 100, "coupled_values": 200}),
    "P28": dict(
        runs=[R("m_petsc", "plex,plex3", 1, 120, 2500, shard=60), R("m_petsc", "plex,plex3", 2, 120, 2500, shard=60),
              R("m_petsc", "plex,plex3", 3, 80, 2000, shard=40), R("m_petsc", "plex,plex3", 4, 60, 1500, shard=30)],
        keys="^(?!mpi/|vtk/)",
        rule="a case counts when particles were mapped to the cells of a mesh",
        require={"cell_geometries": 1000, "mapped_particles": 2000, "mapped_between_ranks": 200, "point_in_cell": 1000,
                 "positions_created": 500, "mapped_particles_3d": 200, "halo_cells": 100}),
    "P29": dict(
        runs=[R("m_move", None, 2, 120, 2500), R("m_group", None, 1, 400, 6000), R("m_loop", None, 1, 400, 6000),
              R("m_sub", None, 1, 400, 6000), R("m_pair", None, 1, 300, 6000), R("m_alg", None, 1, 300, 6000),
              R("m_mesh", None, 2, 200, 3000), R("m_cart", None, 2, 120, 2500, shard=60), R("m_io", None, 2, 120, 2500),
              R("m_petsc", None, 2, 80, 2000, shard=40),
              R("m_geom", None, 2, 150, 3000)],
        keys="^(san|sycl|crash)[:]",
        rule="a case counts when its scenario did what it is about (moves, visits, pairs, ...)",
        require={"sycl_work_items": 1000000, "usm_allocs": 50000, "nontrivial": 500}),
    "P30": dict(
        runs=[R("m_move", None, 3, 60, 2000, flavour="tsan"), R("m_group", None, 1, 300, 5000, flavour="tsan"),
              R("m_loop", None, 1, 300, 5000, flavour="tsan"), R("m_loop", None, 3, 60, 1500, flavour="tsan"),
              R("m_sub", None, 1, 300, 5000, flavour="tsan"), R("m_pair", None, 1, 300, 5000, flavour="tsan"),
              R("m_alg", None, 1, 300, 5000, flavour="tsan"), R("m_mesh", None, 3, 80, 2000, flavour="tsan"),
              R("m_cart", None, 2, 100, 2000, flavour="tsan"), R("m_io", None, 2, 100, 2000, flavour="tsan"),
              R("m_petsc", None, 2, 40, 1500, flavour="tsan", shard=20),
              R("m_geom", None, 1, 150, 3000, flavour="tsan")],
        keys="^san:tsan-",
        rule="a case counts when its scenario did what it is about (moves, visits, pairs, ...)",
        require={"sycl_work_items": 1000000, "sycl_deferred": 20000, "nontrivial": 300}),
    "P31": dict(
        runs=[R("m_io", "cfg", 1, 250, 6000), R("m_move", None, 1, 250, 5000), R("m_group", None, 1, 300, 5000),
              R("m_loop", None, 1, 300, 5000), R("m_sub", None, 1, 300, 5000), R("m_pair", None, 1, 300, 5000),
              R("m_alg", None, 1, 300, 5000), R("m_mesh", None, 1, 100, 2000), R("m_cart", None, 1, 150, 3000),
              R("m_io", "h5,init,err", 1, 100, 2000), R("m_petsc", None, 1, 80, 2000, shard=20),
              R("m_geom", None, 1, 150, 3000)],
        differential="VH_FIX_SCHEDULE",
        rule="a case counts when its scenario did what it is about under a perturbed schedule",
        require={"sycl_deferred": 100000, "sycl_out_of_order": 20000, "configuration_runs": 300, "compared_rows": 3000}),
    "P32": dict(
        runs=[R("m_petsc", "bound", 1, 120, 2500, shard=60), R("m_petsc", "bound", 2, 120, 2500, shard=60),
              R("m_petsc", "bound", 3, 80, 2000, shard=40), R("m_petsc", "bound", 4, 60, 1500, shard=30)],
        keys="^(?!mpi/|vtk/)",
        rule="a case counts when trajectories were tested against the boundary",
        require={"plex_trajectories": 1000, "plex_intersections": 300, "plex_reflections": 100, "plex_truncations": 100,
                 "plex_axis_intersections": 50}),
    "P33": dict(
        runs=[R("m_move", None, 2, 100, 2500, flavour="hd"), R("m_group", None, 1, 300, 6000, flavour="hd"),
              R("m_loop", None, 1, 300, 6000, flavour="hd"), R("m_loop", None, 2, 60, 1500, flavour="hd"),
              R("m_sub", None, 1, 300, 6000, flavour="hd"), R("m_pair", None, 1, 300, 6000, flavour="hd"),
              R("m_alg", None, 1, 300, 6000, flavour="hd"), R("m_mesh", None, 2, 120, 2500, flavour="hd"),
              R("m_cart", None, 2, 120, 2500, flavour="hd", shard=60), R("m_io", None, 2, 120, 2500, flavour="hd"),
              R("m_petsc", None, 2, 80, 2000, flavour="hd", shard=40),
              R("m_geom", None, 2, 150, 3000, flavour="hd")],
        keys="^sycl:(a kernel|host code)|^hd/",
        rule="a case counts when its scenario did what it is about (moves, visits, pairs, ...)",
        require={"hd_kernel_accesses": 10000000, "hd_host_accesses": 10000000, "io_buffers": 2000, "nontrivial": 500}),
    "P34": dict(
        runs=[R("m_move", None, 3, 120, 2500), R("m_move", None, 4, 80, 2500), R("m_mesh", None, 3, 150, 2500),
              R("m_mesh", None, 4, 150, 2500), R("m_cart", None, 3, 120, 2000, shard=60), R("m_group", None, 2, 80, 1500),
              R("m_io", None, 3, 100, 2000), R("m_pair", None, 2, 40, 1500), R("m_loop", None, 3, 60, 1500),
              R("m_alg", None, 2, 60, 1500), R("m_petsc", None, 3, 60, 1500, shard=30),
              R("m_geom", None, 3, 100, 2000)],
        keys="^mpi/|^hang:",
        rule="a case counts when its scenario did what it is about on several ranks",
        require={"mpi_p2p": 5000, "mpi_collectives": 5000, "mpi_waits": 5000, "mpi_rma": 2000, "mpi_communicators": 1000,
                 "mpi_matched_histories": 500}),
    "P35": dict(
        runs=[R("m_io", "cfg", 1, 250, 6000), R("m_io", "cfg", 3, 60, 2000), R("m_move", None, 2, 120, 4000),
              R("m_group", None, 1, 300, 5000), R("m_loop", None, 1, 300, 5000), R("m_sub", None, 1, 300, 5000),
              R("m_pair", None, 1, 300, 5000), R("m_alg", None, 1, 300, 5000), R("m_cart", None, 1, 100, 3000),
              R("m_io", "h5,init,err", 1, 100, 2000), R("m_petsc", None, 1, 60, 2000, shard=15),
              R("m_geom", None, 1, 150, 3000)],
        differential="VH_FIX_CONFIG",
        rule="a case counts when its scenario did what it is about in a configuration drawn for it",
        require={"configuration_runs": 300, "compared_rows": 3000, "nontrivial": 500}),
    "P36": dict(
        runs=[R("m_io", "init", 1, 160, 3000), R("m_io", "init", 2, 120, 3000), R("m_io", "init", 3, 120, 3000),
              R("m_io", "init", 4, 120, 3000)],
        rule="a case counts when particles were placed",
        require={"advected": 2000, "advected_between_ranks": 500, "points_in_cells": 500}),
    "P37": dict(
        runs=[R("m_io", "err", 1, 400, 8000), R("m_io", "err", 2, 80, 1500), R("m_io", "temp", 1, 200, 4000),
              R("m_io", "temp", 2, 60, 1500)],
        rule="a case counts when it raised and read error flags and used pools, or reused temporary groups",
        require={"temporary_groups_reused": 30, "property_changes": 100, "kernel_assertions": 3000, "kernel_assertions_failed": 100, "flags_read": 500, "pool_operations": 2000}),
}
