From 9a62401c6ded7b27e62e3d2bdb52b46a241b8d59 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 19:56:53 +0000
Subject: [PATCH 01/33] fix: NPART_CELL_HINT must reserve space without
 changing the number of rows

---
 include/neso_particles/particle_group.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/neso_particles/particle_group.hpp b/include/neso_particles/particle_group.hpp
index d3dc6b6..f79fd98 100644
--- a/include/neso_particles/particle_group.hpp
+++ b/include/neso_particles/particle_group.hpp
@@ -306,6 +306,9 @@ protected:
         particle_dat->realloc(cellx, static_cast<int>(this->npart_cell_hint));
       }
       particle_dat->cell_dat.wait_set_nrow();
+      // The hint only reserves space, the number of rows is always the actual
+      // number of particles in each cell.
+      realloc_dat(particle_dat);
     }
     this->particle_group_pointer_map->invalidate();
   }
-- 
2.43.0


From 85acf96182631368a0bc16e1d77df46664fab00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:42 +0000
Subject: [PATCH 02/33] fix: cell ids of a ProductMatrix are found at the
 component offset of the property

---
 src/particle_group.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/particle_group.cpp b/src/particle_group.cpp
index db8864e..f9cf11c 100644
--- a/src/particle_group.cpp
+++ b/src/particle_group.cpp
@@ -326,7 +326,9 @@ void ParticleGroup::add_particles_local(
           .wait_and_throw();
     }
   } else { // Use cells explicitly defined in the product matrix
-    INT const *source_cells_ptr = d_pm.ptr_int + num_products * cell_id_index;
+    const int cell_id_offset =
+        product_matrix->dh_offsets_int->h_buffer.ptr[cell_id_index];
+    INT const *source_cells_ptr = d_pm.ptr_int + num_products * cell_id_offset;
     this->sycl_target->queue
         .memcpy(cells_ptr, source_cells_ptr, sizeof(INT) * num_products)
         .wait_and_throw();
-- 
2.43.0


From 07731b5a29c96aff41252f91a26c419a5174fdce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:43 +0000
Subject: [PATCH 03/33] fix: SymVector pointer caches follow a Sym to the dat
 it currently refers to

---
 .../containers/sym_vector_pointer_cache.hpp   | 43 +++++++++++++++++--
 1 file changed, 39 insertions(+), 4 deletions(-)

diff --git a/include/neso_particles/containers/sym_vector_pointer_cache.hpp b/include/neso_particles/containers/sym_vector_pointer_cache.hpp
index 80e7833..41d869a 100644
--- a/include/neso_particles/containers/sym_vector_pointer_cache.hpp
+++ b/include/neso_particles/containers/sym_vector_pointer_cache.hpp
@@ -29,6 +29,27 @@ protected:
   std::map<std::vector<Sym<T>>,
            std::unique_ptr<BufferDevice<ParticleDatImplGetConstT<T>>>>
       map_syms_const_ptrs;
+  /// The dats each entry was created from. A Sym may refer to a different dat
+  /// at a later time, e.g. if the dat is removed and a new dat is added with
+  /// the same Sym, in which case the cached pointers are no longer valid.
+  std::map<std::vector<Sym<T>>, std::vector<std::weak_ptr<ParticleDatT<T>>>>
+      map_syms_dats;
+  std::map<std::vector<Sym<T>>, std::vector<std::weak_ptr<ParticleDatT<T>>>>
+      map_syms_const_dats;
+
+  /**
+   * @returns True if the Syms still refer to the dats in the stored entry.
+   */
+  inline bool
+  is_current(std::vector<Sym<T>> &syms,
+             const std::vector<std::weak_ptr<ParticleDatT<T>>> &dats) {
+    for (std::size_t ix = 0; ix < syms.size(); ix++) {
+      if (dats.at(ix).lock() != this->find(syms[ix])) {
+        return false;
+      }
+    }
+    return true;
+  }
 
   // Keys that contain EphemeralDats.
   std::set<std::vector<Sym<T>>> ephemeral_keys;
@@ -43,6 +64,8 @@ public:
   inline void reset() {
     this->map_syms_ptrs.clear();
     this->map_syms_const_ptrs.clear();
+    this->map_syms_dats.clear();
+    this->map_syms_const_dats.clear();
   }
 
   /**
@@ -52,6 +75,8 @@ public:
     for (auto &keyx : this->ephemeral_keys) {
       this->map_syms_ptrs.erase(keyx);
       this->map_syms_const_ptrs.erase(keyx);
+      this->map_syms_dats.erase(keyx);
+      this->map_syms_const_dats.erase(keyx);
     }
     this->ephemeral_keys.clear();
   }
@@ -158,19 +183,24 @@ public:
    * @param syms Syms to create entry for.
    */
   inline void create(std::vector<Sym<T>> &syms) {
-    if (!this->in_cache(syms)) {
+    if (!this->in_cache(syms) ||
+        !this->is_current(syms, this->map_syms_dats.at(syms))) {
       const std::size_t n = syms.size();
       std::vector<ParticleDatImplGetT<T>> ptrs(n);
+      std::vector<std::weak_ptr<ParticleDatT<T>>> dats(n);
       bool is_ephemeral = false;
       for (std::size_t ix = 0; ix < n; ix++) {
         // Use d_ptr to avoid side effects from impl_get
         bool is_ephemeral_inner;
-        ptrs[ix] = this->find(syms[ix], &is_ephemeral_inner)->cell_dat.d_ptr;
+        auto dat = this->find(syms[ix], &is_ephemeral_inner);
+        ptrs[ix] = dat->cell_dat.d_ptr;
+        dats[ix] = dat;
         is_ephemeral = is_ephemeral || is_ephemeral_inner;
       }
       this->map_syms_ptrs[syms] =
           std::make_unique<BufferDevice<ParticleDatImplGetT<T>>>(
               this->sycl_target, ptrs);
+      this->map_syms_dats[syms] = dats;
       if (is_ephemeral) {
         this->ephemeral_keys.insert(syms);
       }
@@ -183,20 +213,25 @@ public:
    * @param syms Syms to create entry for.
    */
   inline void create_const(std::vector<Sym<T>> &syms) {
-    if (!this->in_const_cache(syms)) {
+    if (!this->in_const_cache(syms) ||
+        !this->is_current(syms, this->map_syms_const_dats.at(syms))) {
       const std::size_t n = syms.size();
       std::vector<ParticleDatImplGetConstT<T>> ptrs(n);
+      std::vector<std::weak_ptr<ParticleDatT<T>>> dats(n);
 
       bool is_ephemeral = false;
       for (std::size_t ix = 0; ix < n; ix++) {
         // Use d_ptr to avoid side effects from impl_get
         bool is_ephemeral_inner;
-        ptrs[ix] = this->find(syms[ix], &is_ephemeral_inner)->cell_dat.d_ptr;
+        auto dat = this->find(syms[ix], &is_ephemeral_inner);
+        ptrs[ix] = dat->cell_dat.d_ptr;
+        dats[ix] = dat;
         is_ephemeral = is_ephemeral || is_ephemeral_inner;
       }
       this->map_syms_const_ptrs[syms] =
           std::make_unique<BufferDevice<ParticleDatImplGetConstT<T>>>(
               this->sycl_target, ptrs);
+      this->map_syms_const_dats[syms] = dats;
       if (is_ephemeral) {
         this->ephemeral_keys.insert(syms);
       }
-- 
2.43.0


From 90df69c4860357d4274ab7fd46cd7ec222dff43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:43 +0000
Subject: [PATCH 04/33] fix: matrix_transpose writes the output of a matrix
 with one row or column

---
 include/neso_particles/algorithms/common.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neso_particles/algorithms/common.hpp b/include/neso_particles/algorithms/common.hpp
index 44a2fd6..077810b 100644
--- a/include/neso_particles/algorithms/common.hpp
+++ b/include/neso_particles/algorithms/common.hpp
@@ -452,7 +452,7 @@ template <typename T>
 matrix_transpose(SYCLTargetSharedPtr sycl_target, const std::size_t num_rows,
                  const std::size_t num_cols, const T *RESTRICT const d_src,
                  T *RESTRICT d_dst) {
-  if ((num_rows <= 1) || (num_cols <= 1)) {
+  if ((num_rows < 1) || (num_cols < 1)) {
     return sycl::event();
   }
   const std::size_t num_bytes_per_item = sizeof(T);
-- 
2.43.0


From 03eb18a6a8265ceed9e75fbb54db3986bec493a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:59 +0000
Subject: [PATCH 05/33] fix: bounding box of a cell with no particles is empty
 in BoundaryInteractionCommon::find_cells

---
 .../boundary_interaction/boundary_interaction_common.hpp      | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/neso_particles/external_interfaces/petsc/boundary_interaction/boundary_interaction_common.hpp b/include/neso_particles/external_interfaces/petsc/boundary_interaction/boundary_interaction_common.hpp
index 2e077c1..95882a6 100644
--- a/include/neso_particles/external_interfaces/petsc/boundary_interaction/boundary_interaction_common.hpp
+++ b/include/neso_particles/external_interfaces/petsc/boundary_interaction/boundary_interaction_common.hpp
@@ -238,7 +238,9 @@ protected:
                   k_cdc_min[index] = bound_min;
                   k_cdc_max[index] = bound_max;
 
-                  const int width = bound_max - bound_min + 1;
+                  // Cells with no particles have an empty box.
+                  const int width =
+                      bound_min <= bound_max ? bound_max - bound_min + 1 : 0;
                   volume *= width;
                 }
                 sycl::atomic_ref<int, sycl::memory_order::relaxed,
-- 
2.43.0


From e15387e9658ae20fc7871dbdb0688da29f737c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:15 +0000
Subject: [PATCH 06/33] fix: pair loop with a start cell and no end cell visits
 that cell only

---
 include/neso_particles/pair_loop/particle_pair_loop_args.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/neso_particles/pair_loop/particle_pair_loop_args.hpp b/include/neso_particles/pair_loop/particle_pair_loop_args.hpp
index 548834f..b28071b 100644
--- a/include/neso_particles/pair_loop/particle_pair_loop_args.hpp
+++ b/include/neso_particles/pair_loop/particle_pair_loop_args.hpp
@@ -266,6 +266,8 @@ protected:
 
     if (cell_start != std::nullopt) {
       cell_start_actual = cell_start.value();
+      // A start without an end describes exactly one cell.
+      cell_end_actual = cell_start_actual + 1;
     }
     if (cell_end != std::nullopt) {
       cell_end_actual = cell_end.value();
-- 
2.43.0


From 5adb9c3d12cd8bb1391e75050780de05e1c6673b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:15 +0000
Subject: [PATCH 07/33] fix: NTC pair sampler with a sub group that is the
 whole particle group

---
 src/algorithms/dsmc/pair_sampler_ntc.cpp | 25 ++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/algorithms/dsmc/pair_sampler_ntc.cpp b/src/algorithms/dsmc/pair_sampler_ntc.cpp
index b1847a6..2e222ca 100644
--- a/src/algorithms/dsmc/pair_sampler_ntc.cpp
+++ b/src/algorithms/dsmc/pair_sampler_ntc.cpp
@@ -97,6 +97,9 @@ void PairSamplerNTC::sample(ParticleSubGroupSharedPtr sub_group_a,
   this->version_b = sub_group_b->get_version();
   auto selection_a = sub_group_a->get_selection();
   auto selection_b = sub_group_b->get_selection();
+  // A selection which is the whole ParticleGroup does not have a layer map.
+  const bool k_whole_group_a = sub_group_a->is_entire_particle_group();
+  const bool k_whole_group_b = sub_group_b->is_entire_particle_group();
 
   const auto *k_npart_cell = particle_group->mpi_rank_dat->d_npart_cell;
   const auto *h_npart_cell = particle_group->mpi_rank_dat->h_npart_cell;
@@ -175,10 +178,14 @@ void PairSamplerNTC::sample(ParticleSubGroupSharedPtr sub_group_a,
                 const int i2 = i1;
                 const int j2 = a_is_b ? (i1 + 1 + j1) % npart_cell_a : j1;
 
-                const int i3 = selection_a.d_map_cells_to_particles
-                                   .map_loop_layer_to_layer(cell, i2);
-                const int j3 = selection_b.d_map_cells_to_particles
-                                   .map_loop_layer_to_layer(cell, j2);
+                const int i3 = k_whole_group_a
+                                   ? i2
+                                   : selection_a.d_map_cells_to_particles
+                                         .map_loop_layer_to_layer(cell, i2);
+                const int j3 = k_whole_group_b
+                                   ? j2
+                                   : selection_b.d_map_cells_to_particles
+                                         .map_loop_layer_to_layer(cell, j2);
 
                 const int wave_i = la_flags[i3];
                 const int wave_j = la_flags[j3];
@@ -267,10 +274,12 @@ void PairSamplerNTC::sample(ParticleSubGroupSharedPtr sub_group_a,
                 const int i2 = i1;
                 const int j2 = a_is_b ? (i1 + 1 + j1) % npart_cell_a : j1;
 
-                i3 = selection_a.d_map_cells_to_particles
-                         .map_loop_layer_to_layer(cell, i2);
-                j3 = selection_b.d_map_cells_to_particles
-                         .map_loop_layer_to_layer(cell, j2);
+                i3 = k_whole_group_a ? i2
+                                     : selection_a.d_map_cells_to_particles
+                                           .map_loop_layer_to_layer(cell, i2);
+                j3 = k_whole_group_b ? j2
+                                     : selection_b.d_map_cells_to_particles
+                                           .map_loop_layer_to_layer(cell, j2);
 
                 const int flag_i =
                     sycl::atomic_ref<int, sycl::memory_order::relaxed,
-- 
2.43.0


From ac84833ff555adde8fd3478bbffefde9955b31b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:15 +0000
Subject: [PATCH 08/33] fix: zero unused collision cell counts before they are
 scanned

---
 src/algorithms/dsmc/pair_sampler_no_replacement.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/algorithms/dsmc/pair_sampler_no_replacement.cpp b/src/algorithms/dsmc/pair_sampler_no_replacement.cpp
index e0d135f..17167a0 100644
--- a/src/algorithms/dsmc/pair_sampler_no_replacement.cpp
+++ b/src/algorithms/dsmc/pair_sampler_no_replacement.cpp
@@ -73,6 +73,15 @@ void PairSamplerNoReplacement::sample(
                                           this->cell_count);
   auto k_pair_counts_ccell_es = d_pair_counts_ccell_es->ptr;
 
+  // Mesh cells may have fewer collision cells than the maximum number and the
+  // scan below reads all entries.
+  if (max_num_collision_cells > 0) {
+    this->sycl_target->queue
+        .fill<int>(k_pair_counts_ccell, 0,
+                   max_num_collision_cells * this->cell_count)
+        .wait_and_throw();
+  }
+
   EventStack es;
   for (INT mx = 0; mx < this->cell_count; mx++) {
     const auto num_collision_cells = map_cells_to_counts.at(mx).size();
-- 
2.43.0


From 2042079948925ca50d5cec900875816840731be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:15 +0000
Subject: [PATCH 09/33] fix: a cleared pair list restarts its linear pair index
 at zero

---
 src/pair_loop/cellwise_pair_list_simple.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pair_loop/cellwise_pair_list_simple.cpp b/src/pair_loop/cellwise_pair_list_simple.cpp
index ffb2011..082344c 100644
--- a/src/pair_loop/cellwise_pair_list_simple.cpp
+++ b/src/pair_loop/cellwise_pair_list_simple.cpp
@@ -247,7 +247,7 @@ void CellwisePairListSimple::clear() {
   }
   this->max_pair_count = -1;
   this->max_wave_count = -1;
-  this->pair_count = -1;
+  this->pair_count = 0;
   this->mode = 0;
 }
 
-- 
2.43.0


From 3c905febf3d838baa27a0d524afd105d1e49da2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:15 +0000
Subject: [PATCH 10/33] fix: pair list that is set, cleared and appended to
 sizes its counts by cells

---
 src/pair_loop/cellwise_pair_list_simple.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/pair_loop/cellwise_pair_list_simple.cpp b/src/pair_loop/cellwise_pair_list_simple.cpp
index 082344c..2a14edb 100644
--- a/src/pair_loop/cellwise_pair_list_simple.cpp
+++ b/src/pair_loop/cellwise_pair_list_simple.cpp
@@ -36,7 +36,6 @@ void CellwisePairListSimple::push_back(const std::vector<int> &c,
   }
 
   std::vector<int> layers(n);
-  this->d_pair_counts->get(this->h_pair_counts);
 
   this->max_pair_count = -1;
   for (int ix = 0; ix < n; ix++) {
@@ -78,8 +77,11 @@ void CellwisePairListSimple::push_back(const std::vector<int> &c,
         k_cell_list[tc][1][tlayer] = tj;
       });
 
-  this->d_pair_counts->set(this->h_pair_counts);
   auto k_pair_counts = this->d_pair_counts->ptr;
+  this->sycl_target->queue
+      .memcpy(k_pair_counts, this->h_pair_counts.data(),
+              this->cell_count * sizeof(int))
+      .wait_and_throw();
 
   auto d_counts =
       get_resource<BufferDevice<INT>, ResourceStackInterfaceBufferDevice<INT>>(
@@ -242,7 +244,8 @@ void CellwisePairListSimple::clear() {
         });
 
     std::fill(this->h_wave_count.begin(), this->h_wave_count.end(), 0);
-    std::fill(this->h_pair_counts.begin(), this->h_pair_counts.end(), 0);
+    // A previous call to set may have sized the counts by the number of waves.
+    this->h_pair_counts.assign(this->cell_count, 0);
     e0.wait_and_throw();
   }
   this->max_pair_count = -1;
-- 
2.43.0


From d5acf5002b0f09c683b26e01152d2eb24b5017c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:05 +0000
Subject: [PATCH 11/33] fix: BufferBase::realloc copies no more elements than
 the new allocation holds

---
 include/neso_particles/device_buffers.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/neso_particles/device_buffers.hpp b/include/neso_particles/device_buffers.hpp
index 835334b..81214ac 100644
--- a/include/neso_particles/device_buffers.hpp
+++ b/include/neso_particles/device_buffers.hpp
@@ -117,7 +117,8 @@ public:
       this->ptr = this->malloc_wrapper(size * sizeof(T));
       const auto old_size = this->size;
       this->size = size;
-      this->memcpy_wrapper(this->ptr, ptr_old, old_size);
+      // The new allocation is smaller than the old one if the buffer shrinks.
+      this->memcpy_wrapper(this->ptr, ptr_old, std::min(old_size, size));
       this->free_wrapper(ptr_old);
     }
     return this->size;
-- 
2.43.0


From ff481295186cfd6c9df81cea1b7f349030afdae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:05 +0000
Subject: [PATCH 12/33] fix: initialise CellDat::nrow_min

---
 include/neso_particles/containers/cell_dat.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/neso_particles/containers/cell_dat.hpp b/include/neso_particles/containers/cell_dat.hpp
index 9767113..02050b6 100644
--- a/include/neso_particles/containers/cell_dat.hpp
+++ b/include/neso_particles/containers/cell_dat.hpp
@@ -379,8 +379,8 @@ public:
    */
   inline CellDat(SYCLTargetSharedPtr sycl_target, const int ncells,
                  const int ncol)
-      : nrow_max(0), sycl_target(sycl_target), ncells(ncells), ncol(ncol),
-        fixed_size(false) {
+      : nrow_max(0), nrow_min(0), sycl_target(sycl_target), ncells(ncells),
+        ncol(ncol), fixed_size(false) {
     this->create(ncells, ncol);
   };
 
-- 
2.43.0


From b9d17e63d203a0f23d2fedfb6c67652ace1e0660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:05 +0000
Subject: [PATCH 13/33] fix: initialise the counters of
 HostAtomicBlockKernelRNG before the first use

---
 .../containers/rng/host_atomic_block_kernel_rng.hpp            | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/neso_particles/containers/rng/host_atomic_block_kernel_rng.hpp b/include/neso_particles/containers/rng/host_atomic_block_kernel_rng.hpp
index da363d2..2d66b01 100644
--- a/include/neso_particles/containers/rng/host_atomic_block_kernel_rng.hpp
+++ b/include/neso_particles/containers/rng/host_atomic_block_kernel_rng.hpp
@@ -75,6 +75,7 @@ protected:
     if (!this->d_counters.count(sycl_target)) {
       this->d_counters[sycl_target] =
           std::make_shared<BufferDevice<int>>(sycl_target, 2);
+      this->reset_counter(sycl_target);
     }
   }
 
@@ -153,7 +154,7 @@ public:
                      static_cast<std::size_t>(std::numeric_limits<int>::max()),
                  "Number of RNG samples required exceeds int max.");
 
-      bool reallocated;
+      bool reallocated = false;
       auto d_ptr =
           this->allocate(sycl_target, num_random_numbers, &reallocated);
 
-- 
2.43.0


From 41f0c4b2b8dc294e42047c28bc428c76caa00077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:05 +0000
Subject: [PATCH 14/33] fix: block RNGs that never required samples have no
 buffer

---
 include/neso_particles/containers/rng/host_rng_common.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/neso_particles/containers/rng/host_rng_common.hpp b/include/neso_particles/containers/rng/host_rng_common.hpp
index 91b5669..2ced1b1 100644
--- a/include/neso_particles/containers/rng/host_rng_common.hpp
+++ b/include/neso_particles/containers/rng/host_rng_common.hpp
@@ -218,6 +218,10 @@ protected:
   }
 
   inline T *get_buffer_ptr(SYCLTargetSharedPtr sycl_target) {
+    // There is no buffer if no values were ever required.
+    if (!this->d_buffers.count(sycl_target)) {
+      return nullptr;
+    }
     return this->d_buffers.at(sycl_target)->ptr;
   }
 
-- 
2.43.0


From 6b4ab00cb70f2413dea47b7436cd44f55915656f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:37 +0000
Subject: [PATCH 15/33] fix: neighbouring mesh hierarchy cells for offsets
 larger than the hierarchy

---
 src/mesh_hierarchy.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mesh_hierarchy.cpp b/src/mesh_hierarchy.cpp
index 3ae4bb0..11e0186 100644
--- a/src/mesh_hierarchy.cpp
+++ b/src/mesh_hierarchy.cpp
@@ -270,7 +270,8 @@ void get_neighbour_mh_cells(std::shared_ptr<MeshHierarchy> mesh_hierarchy,
                               (offset_dim_linear_unmapped < cell_counts[dimx]));
           }
           const INT offset_dim_linear =
-              (offset_dim_linear_unmapped + cell_counts[dimx]) %
+              ((offset_dim_linear_unmapped % cell_counts[dimx]) +
+               cell_counts[dimx]) %
               cell_counts[dimx];
 
           // convert back to a mesh hierarchy tuple index
-- 
2.43.0


From e9d93bc17b6b58e817893b3fc683b58a40e3f554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:37 +0000
Subject: [PATCH 16/33] fix: set_recv keeps the values of sets of types other
 than int

---
 include/neso_particles/communication/communication_utility.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neso_particles/communication/communication_utility.hpp b/include/neso_particles/communication/communication_utility.hpp
index 3a0fb37..aff9364 100644
--- a/include/neso_particles/communication/communication_utility.hpp
+++ b/include/neso_particles/communication/communication_utility.hpp
@@ -158,7 +158,7 @@ std::set<T> set_recv(const int source, const int tag, MPI_Comm comm) {
     std::vector<T> recv_vector(recv_count);
     MPICHK(MPI_Recv(recv_vector.data(), recv_count, map_ctype_mpi_type<T>(),
                     source, tag, comm, MPI_STATUS_IGNORE));
-    for (int ix : recv_vector) {
+    for (auto ix : recv_vector) {
       return_set.insert(ix);
     }
   }
-- 
2.43.0


From 14d7ee66748e1d87ddcd959e1c56672cf3a1ffc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:37 +0000
Subject: [PATCH 17/33] fix: ordered count exchanges do not match the receives
 of unordered exchanges

---
 src/communication/communication_edges_counter.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/communication/communication_edges_counter.cpp b/src/communication/communication_edges_counter.cpp
index 5305d43..fce1a0d 100644
--- a/src/communication/communication_edges_counter.cpp
+++ b/src/communication/communication_edges_counter.cpp
@@ -43,16 +43,19 @@ void CommunicationEdgesCounter::exchange_send_recv_counts(
 
   std::vector<MPI_Request> send_requests(num_send_ranks);
   std::vector<MPI_Request> recv_requests(num_recv_ranks);
+  // The receives of an unordered exchange match any source, hence they must not
+  // match the messages of a subsequent ordered exchange.
+  const int tag = ordered ? 125 : 127;
 
   for (int rankx = 0; rankx < num_send_ranks; rankx++) {
     const int rank = ordered ? send_ranks.at(rankx) : MPI_ANY_SOURCE;
-    MPICHK(MPI_Irecv(&send_data[rankx], 1, MPI_INT64_T, rank, 127, this->comm,
+    MPICHK(MPI_Irecv(&send_data[rankx], 1, MPI_INT64_T, rank, tag, this->comm,
                      &send_requests[rankx]));
   }
 
   for (int rankx = 0; rankx < num_recv_ranks; rankx++) {
     const int rank = recv_ranks.at(rankx);
-    MPICHK(MPI_Isend(&recv_data[rankx], 1, MPI_INT64_T, rank, 127, this->comm,
+    MPICHK(MPI_Isend(&recv_data[rankx], 1, MPI_INT64_T, rank, tag, this->comm,
                      &recv_requests[rankx]));
   }
   std::vector<MPI_Status> send_status(num_send_ranks);
-- 
2.43.0


From 72d4a2bed9564612b12e61db48bddb43be4c9690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:19 +0000
Subject: [PATCH 18/33] fix: create the counters of HostAtomicBlockKernelRNG
 without components before the loop is submitted

---
 .../containers/rng/host_atomic_block_kernel_rng.hpp            | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/neso_particles/containers/rng/host_atomic_block_kernel_rng.hpp b/include/neso_particles/containers/rng/host_atomic_block_kernel_rng.hpp
index 2d66b01..f9e8e8c 100644
--- a/include/neso_particles/containers/rng/host_atomic_block_kernel_rng.hpp
+++ b/include/neso_particles/containers/rng/host_atomic_block_kernel_rng.hpp
@@ -193,6 +193,9 @@ public:
       sycl_target->profile_map.inc("HostAtomicBlockKernelRNG",
                                    "impl_pre_loop_read", 1,
                                    profile_elapsed(t0, profile_timestamp()));
+    } else {
+      // The counters must exist before the loop is submitted.
+      this->reset_counter(global_info->particle_group->sycl_target);
     }
   }
 
-- 
2.43.0


From 5fb154d80dc7172928ee2510327a8f1fb5f28a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:14 +0000
Subject: [PATCH 19/33] fix: initialise the whole staging buffer of a
 CartesianTrajectoryIntersection projection

---
 src/cartesian_mesh/cartesian_trajectory_intersection.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/cartesian_mesh/cartesian_trajectory_intersection.cpp b/src/cartesian_mesh/cartesian_trajectory_intersection.cpp
index 2a366c8..fed9091 100644
--- a/src/cartesian_mesh/cartesian_trajectory_intersection.cpp
+++ b/src/cartesian_mesh/cartesian_trajectory_intersection.cpp
@@ -163,8 +163,11 @@ void CartesianTrajectoryIntersection::function_project_initialise(
   func->d_dofs_stage->realloc_no_copy(tmp_buffer_size);
   REAL *k_buffer = func->d_dofs_stage->ptr;
 
-  if (tmp_buffer_size > 0) {
-    this->sycl_target->queue.fill(k_buffer, (REAL)0.0, tmp_buffer_size)
+  // Zero the whole buffer, geoms found by later trajectories use the entries
+  // which are past the currently accessible geoms.
+  const std::size_t stage_size = func->d_dofs_stage->size;
+  if (stage_size > 0) {
+    this->sycl_target->queue.fill(k_buffer, (REAL)0.0, stage_size)
         .wait_and_throw();
   }
   func->fill(0.0);
-- 
2.43.0


From c7c9994b46dfd8abd388ae5f93ade9d7626ee7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:14 +0000
Subject: [PATCH 20/33] fix: pass the device copy of the received dofs to the
 reverse exchange unpack

---
 include/neso_particles/boundary/boundary_mesh_interface.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neso_particles/boundary/boundary_mesh_interface.hpp b/include/neso_particles/boundary/boundary_mesh_interface.hpp
index 62e8ee4..30d4dc0 100644
--- a/include/neso_particles/boundary/boundary_mesh_interface.hpp
+++ b/include/neso_particles/boundary/boundary_mesh_interface.hpp
@@ -589,7 +589,7 @@ public:
       }
     }
 
-    this->reverse_exchange_from_device_unpack(m_recvd_packed, ncomp, d_dst)
+    this->reverse_exchange_from_device_unpack(d_recv_packed->ptr, ncomp, d_dst)
         .wait_and_throw();
 
     restore_resource(sycl_target->resource_stack_map,
-- 
2.43.0


From e9e758db739eaefe14654460c8cef46fc21aac1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:14 +0000
Subject: [PATCH 21/33] fix: H5Part::read of a step which was written with no
 particles

---
 src/particle_io.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/particle_io.cpp b/src/particle_io.cpp
index 7624b9a..899a345 100644
--- a/src/particle_io.cpp
+++ b/src/particle_io.cpp
@@ -81,9 +81,12 @@ ParticleSetSharedPtr H5Part::read(ParticleSpec &particle_spec, INT step,
 
   hid_t group_step;
   H5CHK(group_step = H5Gopen(this->file_id, step_name.c_str(), H5P_DEFAULT));
-  INT npart_total;
+  INT npart_total = 0;
 
-  {
+  // A step with no particles was written without any datasets.
+  htri_t x_exists;
+  H5CHK(x_exists = H5Lexists(group_step, "x", H5P_DEFAULT));
+  if (x_exists) {
     hid_t dataset;
     H5CHK(dataset = H5Dopen(group_step, "x", H5P_DEFAULT));
     hid_t filespace;
-- 
2.43.0


From 1790bbc959d71f2e579fd4ee4315cfce2872bbdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:14 +0000
Subject: [PATCH 22/33] fix: set the device limits and parameters of a
 SYCLTarget for all device selections

---
 src/compute_target.cpp | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/compute_target.cpp b/src/compute_target.cpp
index 0efd9f7..ad57beb 100644
--- a/src/compute_target.cpp
+++ b/src/compute_target.cpp
@@ -150,26 +150,28 @@ SYCLTarget::SYCLTarget(const int gpu_device, MPI_Comm comm, int local_rank)
     this->num_devices = devices.size();
     this->device_index = this->local_rank % this->num_devices;
     this->device = devices[this->device_index];
-    this->device_limits = DeviceLimits(this->device);
-
     this->profile_map.set("MPI", "MPI_COMM_WORLD_rank_local", this->local_rank);
     this->profile_map.set("SYCL", "DEVICE_COUNT", this->num_devices);
     this->profile_map.set("SYCL", "DEVICE_INDEX", this->device_index);
     this->profile_map.set("SYCL",
                           this->device.get_info<sycl::info::device::name>(), 0);
-
-    // Setup the parameter store
-    this->parameters = std::make_shared<Parameters>();
-    this->parameters->set("LOOP_LOCAL_SIZE", std::make_shared<SizeTParameter>(
-                                                 this->get_local_size()));
-    this->parameters->set("LOOP_NBIN",
-                          std::make_shared<SizeTParameter>(
-                              get_env_size_t("NESO_PARTICLES_LOOP_NBIN", 4)));
-    this->parameters->set("MAX_COMPUTE_UNITS",
-                          std::make_shared<SizeTParameter>(
-                              this->device_limits.get_max_compute_units()));
   }
 
+  // The device limits and parameters are required for all devices regardless
+  // of how the device was selected.
+  this->device_limits = DeviceLimits(this->device);
+
+  // Setup the parameter store
+  this->parameters = std::make_shared<Parameters>();
+  this->parameters->set("LOOP_LOCAL_SIZE", std::make_shared<SizeTParameter>(
+                                               this->get_local_size()));
+  this->parameters->set("LOOP_NBIN",
+                        std::make_shared<SizeTParameter>(
+                            get_env_size_t("NESO_PARTICLES_LOOP_NBIN", 4)));
+  this->parameters->set("MAX_COMPUTE_UNITS",
+                        std::make_shared<SizeTParameter>(
+                            this->device_limits.get_max_compute_units()));
+
   if (get_env_size_t("NESO_PARTICLES_IN_ORDER_QUEUE", 0)) {
     this->queue =
         sycl::queue(this->device, {sycl::property::queue::in_order{}});
-- 
2.43.0


From a079205ef74d57a63648163cdeb344fbffad953e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:14 +0000
Subject: [PATCH 23/33] fix: start the profile region of
 ParticlePairLoopCellwisePairList

---
 .../pair_loop/particle_pair_loop_cellwise_pair_list.hpp        | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/neso_particles/pair_loop/particle_pair_loop_cellwise_pair_list.hpp b/include/neso_particles/pair_loop/particle_pair_loop_cellwise_pair_list.hpp
index 4898dd2..bf5ad43 100644
--- a/include/neso_particles/pair_loop/particle_pair_loop_cellwise_pair_list.hpp
+++ b/include/neso_particles/pair_loop/particle_pair_loop_cellwise_pair_list.hpp
@@ -104,6 +104,9 @@ public:
          [[maybe_unused]] const std::optional<int> cell_end =
              std::nullopt) override {
 
+    this->profile_region = this->sycl_target->profile_map.start_region(
+        "ParticlePairLoopCellwisePairList", this->name);
+
     int max_pair_count = 0;
     INT pair_list_counts_es = 0;
     int max_wave_count = 0;
-- 
2.43.0


From 3de1ed65f301031cb6d89ff9e7e1d851197a1bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:44 +0000
Subject: [PATCH 24/33] fix: axis parallel trajectories in
 line_segment_intersection_2d

---
 include/neso_particles/device_functions.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/neso_particles/device_functions.hpp b/include/neso_particles/device_functions.hpp
index 0d45396..a671a8b 100644
--- a/include/neso_particles/device_functions.hpp
+++ b/include/neso_particles/device_functions.hpp
@@ -218,8 +218,12 @@ inline bool line_segment_intersection_2d(const REAL &xa, const REAL &ya,
     const REAL y_min = y_cond ? y0 : y1;
     const REAL y_max = y_cond ? y1 : y0;
 
-    const bool in_bounds_ab = (x_min - tol <= xi) && (xi <= x_max + tol) &&
-                              (y_min - tol <= yi) && (yi <= y_max + tol);
+    // The intersection point is on the line through (x0, y0) and (x1, y1) up to
+    // rounding hence only the dimension in which this segment is longest
+    // determines if the point is within the segment.
+    const bool in_bounds_ab = (KERNEL_ABS(v01x) > KERNEL_ABS(v01y))
+                                  ? ((x_min - tol <= xi) && (xi <= x_max + tol))
+                                  : ((y_min - tol <= yi) && (yi <= y_max + tol));
 
     return in_bounds_01 && in_bounds_ab;
   } else {
-- 
2.43.0


From ff1bb8d97f298742fb42c19a8053cf342d8f5d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:44 +0000
Subject: [PATCH 25/33] fix: find the cell of points on horizontal boundary
 faces of a DMPlex

---
 src/external_interfaces/petsc/dmplex_helper.cpp            | 7 ++++++-
 .../petsc/particle_cell_mapping/dmplex_2d_mapper.cpp       | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/external_interfaces/petsc/dmplex_helper.cpp b/src/external_interfaces/petsc/dmplex_helper.cpp
index e0b9d7e..131c01d 100644
--- a/src/external_interfaces/petsc/dmplex_helper.cpp
+++ b/src/external_interfaces/petsc/dmplex_helper.cpp
@@ -561,7 +561,12 @@ bool DMPlexHelper::cell_contains_point(const PetscInt index,
     consistent_line_orientation_2d(xi_t, yi_t, xj_t, yj_t, &xi, &yi, &xj, &yj);
 
     // Is the point in a corner
-    if ((x0 == xj) && (x1 == yj)) {
+    if (((x0 == xj) && (x1 == yj)) || ((x0 == xi) && (x1 == yi))) {
+      num_crossings = 1;
+      break;
+    }
+    // Is the point on a face which is parallel to the x axis
+    if ((x1 == yi) && (x1 == yj) && ((x0 < xi) != (x0 < xj))) {
       num_crossings = 1;
       break;
     }
diff --git a/src/external_interfaces/petsc/particle_cell_mapping/dmplex_2d_mapper.cpp b/src/external_interfaces/petsc/particle_cell_mapping/dmplex_2d_mapper.cpp
index d5afb1f..643eb29 100644
--- a/src/external_interfaces/petsc/particle_cell_mapping/dmplex_2d_mapper.cpp
+++ b/src/external_interfaces/petsc/particle_cell_mapping/dmplex_2d_mapper.cpp
@@ -217,7 +217,12 @@ void DMPlex2DMapper::map(ParticleGroup &particle_group, const int map_cell) {
                                            &xj, &yj);
 
             // Is the point in a corner
-            if ((x0 == xj) && (x1 == yj)) {
+            if (((x0 == xj) && (x1 == yj)) || ((x0 == xi) && (x1 == yi))) {
+              num_crossings = 1;
+              break;
+            }
+            // Is the point on a face which is parallel to the x axis
+            if ((x1 == yi) && (x1 == yj) && ((x0 < xi) != (x0 < xj))) {
               num_crossings = 1;
               break;
             }
-- 
2.43.0


From 95b4db303e1e70b6a6597e09f46c34a3f0039a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:44 +0000
Subject: [PATCH 26/33] fix: size of the receive buffer in
 QuadraturePointMapper::get

---
 src/external_interfaces/common/quadrature_point_mapper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/external_interfaces/common/quadrature_point_mapper.cpp b/src/external_interfaces/common/quadrature_point_mapper.cpp
index 8cdb0e9..cb1b9e4 100644
--- a/src/external_interfaces/common/quadrature_point_mapper.cpp
+++ b/src/external_interfaces/common/quadrature_point_mapper.cpp
@@ -326,7 +326,7 @@ void QuadraturePointMapper::get(const int ncomp, std::vector<REAL> &output) {
   // Need to exchange and populate the points where the evaluation point is
   // not owned by the rank which added the point.
   auto sizes = this->compute_num_bytes<REAL>(ncomp);
-  this->recv_buffer.resize(sizes.second);
+  this->recv_buffer.resize(sizes.second * ncomp);
   e1.wait_and_throw();
   this->compute_offsets<REAL>(ncomp, send_buffer, recv_buffer);
 
-- 
2.43.0


From 618844a2f6834c5ca165e26700bfde2d19a913ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:44 +0000
Subject: [PATCH 27/33] fix: send the values of remote points in
 QuadraturePointMapper::set

---
 .../common/quadrature_point_mapper.cpp        | 35 ++++++++++++++++---
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/src/external_interfaces/common/quadrature_point_mapper.cpp b/src/external_interfaces/common/quadrature_point_mapper.cpp
index cb1b9e4..cc3eabd 100644
--- a/src/external_interfaces/common/quadrature_point_mapper.cpp
+++ b/src/external_interfaces/common/quadrature_point_mapper.cpp
@@ -351,12 +351,35 @@ void QuadraturePointMapper::set(const int ncomp, std::vector<REAL> &input) {
   const int ncomp_local = this->npoint_local * ncomp;
   NESOASSERT(input.size() >= static_cast<std::size_t>(ncomp_local),
              "Input vector is too small.");
-  this->make_contribs_buffers(ncomp_local, 0);
+  const int ncomp_remote = this->npoint_remote * ncomp;
+  this->make_contribs_buffers(ncomp_local, ncomp_remote);
 
   auto k_local = this->d_local_contribs->ptr;
-  this->sycl_target->queue
-      .memcpy(k_local, input.data(), ncomp_local * sizeof(REAL))
-      .wait_and_throw();
+  auto k_remote = this->d_remote_contribs->ptr;
+  auto e0 = this->sycl_target->queue.memcpy(k_local, input.data(),
+                                            ncomp_local * sizeof(REAL));
+
+  // Send the values for the points which are not held by the rank which added
+  // the point to the rank which holds the point. This is the reverse of the
+  // exchange in the get method.
+  auto sizes = this->compute_num_bytes<REAL>(ncomp);
+  std::vector<REAL> send_buffer(sizes.second * ncomp);
+  const int num_entries = this->owning_point_indices.size();
+  for (int ix = 0; ix < num_entries; ix++) {
+    const int src_index = this->owning_point_indices.at(ix);
+    for (int cx = 0; cx < ncomp; cx++) {
+      send_buffer.at(ix * ncomp + cx) = input.at(src_index * ncomp + cx);
+    }
+  }
+  this->recv_buffer.resize(ncomp_remote);
+  this->compute_offsets<REAL>(ncomp, this->recv_buffer, send_buffer);
+  this->cec->exchange_send_recv_data(
+      this->owning_ranks, this->owning_num_bytes, this->owning_ptrs,
+      this->adding_ranks, this->adding_num_bytes, this->adding_ptrs);
+  auto e1 = this->sycl_target->queue.memcpy(k_remote, this->recv_buffer.data(),
+                                            ncomp_remote * sizeof(REAL));
+  e0.wait_and_throw();
+  e1.wait_and_throw();
 
   const int k_rank = this->rank;
   const int k_ncomp = ncomp;
@@ -368,6 +391,10 @@ void QuadraturePointMapper::set(const int ncomp, std::vector<REAL> &input) {
           for (int cx = 0; cx < k_ncomp; cx++) {
             CONTRIB.at(cx) = k_local[start + cx];
           }
+        } else {
+          for (int cx = 0; cx < k_ncomp; cx++) {
+            CONTRIB.at(cx) = k_remote[start + cx];
+          }
         }
       },
       Access::read(Sym<INT>("ADDING_RANK_INDEX")), Access::write(sym))
-- 
2.43.0


From 766a0ca4ae2249c352d311a4e4e5027b1ccffda2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:44 +0000
Subject: [PATCH 28/33] fix: index cells with the local cell index in
 DMPlexMeshCouplerDG0

---
 src/external_interfaces/petsc/dmplex_mesh_coupler_dg0.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/external_interfaces/petsc/dmplex_mesh_coupler_dg0.cpp b/src/external_interfaces/petsc/dmplex_mesh_coupler_dg0.cpp
index f6b9875..a77f69f 100644
--- a/src/external_interfaces/petsc/dmplex_mesh_coupler_dg0.cpp
+++ b/src/external_interfaces/petsc/dmplex_mesh_coupler_dg0.cpp
@@ -283,7 +283,10 @@ DMPlexMeshCouplerDG0::DMPlexMeshCouplerDG0(
   this->cell_count_B = dmh_B.get_cell_count();
   auto lambda_global_to_local = [&](std::vector<int> &cells) {
     std::for_each(cells.begin(), cells.end(), [&](auto &cellx) {
-      cellx = dmh_B.get_local_point_from_global_point(cellx);
+      // The local PETSc point is not the local cell index if the DMPlex holds
+      // overlap cells.
+      cellx = dmh_B.get_local_cell_index(
+          dmh_B.get_local_point_from_global_point(cellx));
     });
   };
 
-- 
2.43.0


From 03a59982687f7b306970357e1b1503e72580df85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:44 +0000
Subject: [PATCH 29/33] fix: cell indices of 3D overlay meshes in
 get_intersecting_cells

---
 src/external_interfaces/common/overlay_cartesian_mesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/external_interfaces/common/overlay_cartesian_mesh.cpp b/src/external_interfaces/common/overlay_cartesian_mesh.cpp
index b66b234..1f099f0 100644
--- a/src/external_interfaces/common/overlay_cartesian_mesh.cpp
+++ b/src/external_interfaces/common/overlay_cartesian_mesh.cpp
@@ -162,7 +162,7 @@ void OverlayCartesianMesh::get_intersecting_cells(
     size *= (cell_upper - cell_lower);
   }
   cells.reserve(size);
-  std::vector<int> index(2);
+  std::vector<int> index(this->ndim);
   this->get_all_cells(0, cell_starts, cell_ends, index, cells);
 }
 
-- 
2.43.0


From ead2a240e3f180dde4fc37a3b124c561e44da435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:44 +0000
Subject: [PATCH 30/33] fix: direction of the copy in
 DOFMapperDG::copy_from_external

---
 src/external_interfaces/common/dof_mapper_dg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/external_interfaces/common/dof_mapper_dg.cpp b/src/external_interfaces/common/dof_mapper_dg.cpp
index 6b3d550..bec1aba 100644
--- a/src/external_interfaces/common/dof_mapper_dg.cpp
+++ b/src/external_interfaces/common/dof_mapper_dg.cpp
@@ -86,7 +86,7 @@ void DOFMapperDG::copy_from_external(CellDatConstSharedPtr<REAL> cell_dat_const,
       k_num_cells_local * k_num_dofs_per_cell * sizeof(REAL);
 
   if (num_bytes > 0) {
-    this->sycl_target->queue.memcpy(h_external_dofs, k_dofs, num_bytes)
+    this->sycl_target->queue.memcpy(k_dofs, h_external_dofs, num_bytes)
         .wait_and_throw();
 
     auto e1 = this->sycl_target->queue.submit([&](sycl::handler &cgh) {
-- 
2.43.0


From 3ffe30239bca320c6e73c2618e145f4743d66c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:44 +0000
Subject: [PATCH 31/33] fix: write VTKHDF files when no rank has cells

---
 .../neso_particles/external_interfaces/vtk/vtk.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/neso_particles/external_interfaces/vtk/vtk.hpp b/include/neso_particles/external_interfaces/vtk/vtk.hpp
index 4f46117..f061fa1 100644
--- a/include/neso_particles/external_interfaces/vtk/vtk.hpp
+++ b/include/neso_particles/external_interfaces/vtk/vtk.hpp
@@ -96,8 +96,11 @@ protected:
     H5CHK(dset = H5Dcreate2(group, name.c_str(), out_datatype, filespace,
                             H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT));
 
-    H5CHK(
-        H5Dwrite(dset, datatype, memspace, filespace, partition, data.data()));
+    // A collective write of an empty dataset fails in HDF5.
+    if (global_size > 0) {
+      H5CHK(H5Dwrite(dset, datatype, memspace, filespace, partition,
+                     data.data()));
+    }
 
     H5CHK(H5Dclose(dset));
     H5CHK(H5Pclose(partition));
@@ -135,8 +138,11 @@ protected:
     H5CHK(dset = H5Dcreate2(group, name.c_str(), out_datatype, filespace,
                             H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT));
 
-    H5CHK(
-        H5Dwrite(dset, datatype, memspace, filespace, partition, data.data()));
+    // A collective write of an empty dataset fails in HDF5.
+    if (global_size > 0) {
+      H5CHK(H5Dwrite(dset, datatype, memspace, filespace, partition,
+                     data.data()));
+    }
 
     H5CHK(H5Dclose(dset));
     H5CHK(H5Pclose(partition));
-- 
2.43.0


From bd49fd9bf1bd524967458aa458a96bc7acd1989e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:33 +0000
Subject: [PATCH 32/33] fix: use the communicator of the mesh in
 DMPlexInterface::validate_halos

---
 src/external_interfaces/petsc/dmplex_interface.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/external_interfaces/petsc/dmplex_interface.cpp b/src/external_interfaces/petsc/dmplex_interface.cpp
index fc5f854..62b567b 100644
--- a/src/external_interfaces/petsc/dmplex_interface.cpp
+++ b/src/external_interfaces/petsc/dmplex_interface.cpp
@@ -297,7 +297,7 @@ bool DMPlexInterface::validate_halos(const bool fatal) {
   }
   int num_points;
   MPICHK(MPI_Allreduce(&max_global_point, &num_points, 1, MPI_INT, MPI_MAX,
-                       MPI_COMM_WORLD));
+                       this->comm));
   num_points++;
 
   const int num_components = 1 + 1 + 4 + 1;
@@ -364,9 +364,9 @@ bool DMPlexInterface::validate_halos(const bool fatal) {
   }
 
   MPICHK(MPI_Allreduce(int_data.data(), int_rdata.data(), int_rdata.size(),
-                       MPI_INT, MPI_MAX, MPI_COMM_WORLD));
+                       MPI_INT, MPI_MAX, this->comm));
   MPICHK(MPI_Allreduce(real_data.data(), real_rdata.data(), real_rdata.size(),
-                       MPI_DOUBLE, MPI_MAX, MPI_COMM_WORLD));
+                       MPI_DOUBLE, MPI_MAX, this->comm));
 
   if (this->dmh_halo) {
     // create map from halo points to original global points
-- 
2.43.0


From 52035628d28e7ba7cfd9dd908e72298cf9c2044f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:33 +0000
Subject: [PATCH 33/33] fix: DMPlex2DMapper keeps the bounding box of the local
 cells unchanged

---
 .../petsc/particle_cell_mapping/dmplex_2d_mapper.cpp          | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/external_interfaces/petsc/particle_cell_mapping/dmplex_2d_mapper.cpp b/src/external_interfaces/petsc/particle_cell_mapping/dmplex_2d_mapper.cpp
index 643eb29..041ecc0 100644
--- a/src/external_interfaces/petsc/particle_cell_mapping/dmplex_2d_mapper.cpp
+++ b/src/external_interfaces/petsc/particle_cell_mapping/dmplex_2d_mapper.cpp
@@ -17,7 +17,9 @@ DMPlex2DMapper::DMPlex2DMapper(SYCLTargetSharedPtr sycl_target,
   const int num_total_cells = num_local_cells + num_halo_cells;
 
   // Create a bounding box for halo cells and local cells.
-  auto bounding_box = dmplex_interface->dmh->get_bounding_box();
+  // Copy the bounding box as the helper holds the box of the local cells only.
+  auto bounding_box = std::make_shared<ExternalCommon::BoundingBox>();
+  bounding_box->expand(dmplex_interface->dmh->get_bounding_box());
   if (dmh_halo) {
     bounding_box->expand(dmh_halo->get_bounding_box());
   }
-- 
2.43.0

