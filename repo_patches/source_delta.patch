From 4883bfc37614e45c70d90ca8f276e3c398f1b3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:37 +0000
Subject: [PATCH 01/49] fix: remap coarsened octants whose siblings are
 scattered over several processes

MapUserData_mean exchanged the ghosts of the new mesh into arrays of the old mesh (abort on the ghost count) and then recursed for ever.
---
 core/src/amr/MapUserData_mean.cpp            | 15 ++++++++-------
 core/src/mpi/GhostCommunicator_full_blocks.h |  6 ++++++
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/core/src/amr/MapUserData_mean.cpp b/core/src/amr/MapUserData_mean.cpp
index 03b1530..755f5e2 100644
--- a/core/src/amr/MapUserData_mean.cpp
+++ b/core/src/amr/MapUserData_mean.cpp
@@ -1,3 +1,5 @@
+#include <memory>
+
 #include "amr/MapUserData_base.h"
 
 #include "amr/CellIndexRemapper.h"
@@ -23,6 +25,9 @@ public:
   void save_old_mesh() override
   {
     this->lmesh_old = this->foreach_cell.get_amr_mesh().getLightOctree();
+    // Communication pattern for the ghosts of the old mesh: once the mesh is adapted, the 
+    // ghosts of the new mesh cannot be used to exchange values in the old mesh
+    this->ghost_comm_old = std::make_unique<GhostCommunicator_full_blocks>( this->foreach_cell.get_amr_mesh() );
   }
 
   void remap( UserData& user_data ) override
@@ -84,9 +89,6 @@ public:
               }
         }
       }, ghost_coarsen_count);
-      if( ghost_coarsen_count > 0 )
-        std::cout << "Warning : detected ghost subcells in coarsened octant during remap - this is so unlikely that it was never tested" << std::endl;
-
       return ghost_coarsen_count;
     };
 
@@ -98,18 +100,17 @@ public:
       // In rare cases, a coarsened cell could have it's subcells scattered on multiple process
       // If this happens, we perform a complete full-block communication of all ghosts
       // before remapping again
-      // TODO : find a test-case that uses that
       // TODO : communicate only needed octants
 
-      GhostCommunicator_full_blocks ghost_comm(foreach_cell.get_amr_mesh(), Uin.getShape(), -1 );
-      ghost_comm.exchange_ghosts( Uin );
-      remap_aux(Uin, Uout);
+      ghost_comm_old->exchange_ghosts( Uin );
+      remap();
     }
   }
 
 private:
   ForeachCell& foreach_cell;
   LightOctree lmesh_old;
+  std::unique_ptr<GhostCommunicator_full_blocks> ghost_comm_old;
 };
 
 } // namespace dyablo;
diff --git a/core/src/mpi/GhostCommunicator_full_blocks.h b/core/src/mpi/GhostCommunicator_full_blocks.h
index f02125c..f2258e1 100644
--- a/core/src/mpi/GhostCommunicator_full_blocks.h
+++ b/core/src/mpi/GhostCommunicator_full_blocks.h
@@ -14,6 +14,12 @@ public:
     : ViewCommunicator( ViewCommunicator::from_mesh(amr_mesh, mpi_comm) )
     {}
 
+    /// Full blocks are exchanged: the communication pattern only depends on the mesh
+    template< typename AMRmesh_t >
+    explicit GhostCommunicator_full_blocks( const AMRmesh_t& amr_mesh )
+    : ViewCommunicator( ViewCommunicator::from_mesh(amr_mesh) )
+    {}
+
     static std::string name()
     {
       return "GhostCommunicator_full_blocks";
-- 
2.43.0


From 696cc93fa78a84ba06c7184645753fa39713995d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:49 +0000
Subject: [PATCH 02/49] fix: adapt() computed the morton interval of a process
 left without octants from octant 0

---
 core/src/amr/AMRmesh_hashmap_new.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/amr/AMRmesh_hashmap_new.cpp b/core/src/amr/AMRmesh_hashmap_new.cpp
index d4fac06..19466e8 100644
--- a/core/src/amr/AMRmesh_hashmap_new.cpp
+++ b/core/src/amr/AMRmesh_hashmap_new.cpp
@@ -909,7 +909,7 @@ void AMRmesh_hashmap_new::adapt(bool dummy)
     std::vector<morton_t> morton_intervals(mpi_size+1);
     {
       morton_t morton_interval_begin;
-      if( storage.getNumOctants() != 0 )
+      if( new_nbOcts != 0 )
       {
         Kokkos::View<morton_t> morton_interval_begin_device("morton_interval_begin");
         Kokkos::parallel_for( "adapt:compute_morton", 1, KOKKOS_LAMBDA(int)
-- 
2.43.0


From 0f313390e743b121860b0d149211bfd3cae04df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:49 +0000
Subject: [PATCH 03/49] fix: time step on processes without cells or particles

The reduction over no elements returned the identity of Kokkos::Max, i.e. a negative time step, and aborted.
---
 core/src/compute_dt/Compute_dt_hydro.cpp             | 3 ++-
 core/src/compute_dt/Compute_dt_parabolic.cpp         | 3 ++-
 core/src/compute_dt/Compute_dt_particle_velocity.cpp | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/core/src/compute_dt/Compute_dt_hydro.cpp b/core/src/compute_dt/Compute_dt_hydro.cpp
index e32b6c2..a5773a8 100644
--- a/core/src/compute_dt/Compute_dt_hydro.cpp
+++ b/core/src/compute_dt/Compute_dt_hydro.cpp
@@ -119,7 +119,8 @@ public:
 
     }, Kokkos::Max<real_t>(inv_dt) );
 
-    real_t dt = cfl / inv_dt;
+    // A process without cells does not limit the time step (inv_dt is then the identity of Kokkos::Max)
+    real_t dt = cfl / FMAX(0.0, inv_dt);
     DYABLO_ASSERT_HOST_RELEASE(dt>0, "invalid dt = " << dt);
     return dt;
   }
diff --git a/core/src/compute_dt/Compute_dt_parabolic.cpp b/core/src/compute_dt/Compute_dt_parabolic.cpp
index 9702db2..a815d45 100644
--- a/core/src/compute_dt/Compute_dt_parabolic.cpp
+++ b/core/src/compute_dt/Compute_dt_parabolic.cpp
@@ -102,7 +102,8 @@ public:
       inv_dt_update = FMAX( inv_dt_update, max_dt_visc );
     }, Kokkos::Max<real_t>(inv_dt) );
 
-    real_t dt = cfl / inv_dt;
+    // A process without cells does not limit the time step (inv_dt is then the identity of Kokkos::Max)
+    real_t dt = cfl / FMAX(0.0, inv_dt);
     DYABLO_ASSERT_HOST_RELEASE(dt>0, "invalid dt = " << dt);
     return dt;
   }
diff --git a/core/src/compute_dt/Compute_dt_particle_velocity.cpp b/core/src/compute_dt/Compute_dt_particle_velocity.cpp
index a36a67a..6483293 100644
--- a/core/src/compute_dt/Compute_dt_particle_velocity.cpp
+++ b/core/src/compute_dt/Compute_dt_particle_velocity.cpp
@@ -76,7 +76,8 @@ public:
       inv_dt_update = FMAX( inv_dt_update, v/dmin);
     }, Kokkos::Max<real_t>(inv_dt));
 
-    real_t dt = cfl / inv_dt;
+    // A process without particles does not limit the time step (inv_dt is then the identity of Kokkos::Max)
+    real_t dt = cfl / FMAX(0.0, inv_dt);
     DYABLO_ASSERT_HOST_RELEASE(dt>0, "invalid dt = " << dt);
     return dt;
   }
-- 
2.43.0


From 01e1ed53d4efa28ec0dc273e475296b712a4b903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:06 +0000
Subject: [PATCH 04/49] fix: getDomainFromPos() used wrong process boundaries
 on non-cubic coarse grids

The first morton key of each process was computed as if the coarse grid was cubic
(and read octant 0 on processes without octants), while the position was converted with
the actual cell count per direction.
---
 core/src/amr/LightOctree_hashmap.h | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/core/src/amr/LightOctree_hashmap.h b/core/src/amr/LightOctree_hashmap.h
index 79b987a..34ad5f7 100644
--- a/core/src/amr/LightOctree_hashmap.h
+++ b/core/src/amr/LightOctree_hashmap.h
@@ -47,22 +47,27 @@ public:
         private_init();
 
         // TODO use logical coords directly or even morton_intervals from AMRmesh
-        morton_t first_morton;
+        constexpr morton_t morton_max = uint64_t(-1);
+        morton_t first_morton = morton_max; // Process without octants
+        if( pmesh->getNumOctants() > 0 )
         {
             int ndim = getNdim();
             auto pos = pmesh->getCoordinates((uint32_t)0);
             index_t<3> logical_coords;
-            uint32_t octant_count = std::pow(2, max_level );
-            real_t octant_size = 1.0/octant_count;
-            logical_coords[IX] = std::floor(pos[IX]/octant_size);
-            logical_coords[IY] = std::floor(pos[IY]/octant_size);
-            logical_coords[IZ] = (ndim-2)*std::floor(pos[IZ]/octant_size);
+            // Round to nearest : pos is the corner of an octant
+            logical_coords[IX] = std::floor(pos[IX]*storage.cell_count(IX, max_level) + 0.5);
+            logical_coords[IY] = std::floor(pos[IY]*storage.cell_count(IY, max_level) + 0.5);
+            logical_coords[IZ] = (ndim-2)*std::floor(pos[IZ]*storage.cell_count(IZ, max_level) + 0.5);
 
             first_morton = compute_morton_key( logical_coords );
         }
         auto morton_intervals_host = Kokkos::create_mirror_view( morton_intervals );
         pmesh->getMpiComm().MPI_Allgather( &first_morton, morton_intervals_host.data(), 1 );
-        morton_intervals_host(morton_intervals_host.size()-1) = uint64_t(-1);
+        morton_intervals_host(morton_intervals_host.size()-1) = morton_max;
+        // Processes without octants have an empty interval, just before next process
+        for( int i=(int)morton_intervals_host.size()-2; i>=0; i-- )
+            if( morton_intervals_host(i) == morton_max )
+                morton_intervals_host(i) = morton_intervals_host(i+1);
         Kokkos::deep_copy(morton_intervals, morton_intervals_host);
 
     }
-- 
2.43.0


From 437fbb3e72bb8917302b22e8729c91782fcbc0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:05 +0000
Subject: [PATCH 05/49] fix: load balancing permuted the fields when they were
 not stored in alphabetical order

exchange_loadbalance() copied the i-th slot of the old array to the i-th field, but slots are
in any order (or unused) after fields are created, renamed or deleted.
---
 core/src/UserData_fields.h | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/core/src/UserData_fields.h b/core/src/UserData_fields.h
index f03dbc4..d1fd923 100644
--- a/core/src/UserData_fields.h
+++ b/core/src/UserData_fields.h
@@ -280,16 +280,21 @@ inline void UserData_fields::exchange_loadbalance( const ViewCommunicator& ghost
     {  
         UserData_fields::FieldAccessor fields_old = this->backup_and_realloc();
         int nb_fields = this->nbFields();
-        auto old_fields_View = Kokkos::subview( fields_old.fields.U, 
-                                                Kokkos::ALL(),
-                                                std::make_pair(0, nb_fields),
-                                                Kokkos::ALL()  );
-        auto new_fields_View = Kokkos::subview(this->fields.U, 
-                                                Kokkos::ALL(),
-                                                std::make_pair(0, nb_fields),
-                                                Kokkos::ALL()  );
-        
-        ghost_comm.exchange_ghosts<2>(old_fields_View, new_fields_View );
+        for( int i=0; i<nb_fields; i++ )
+        {
+            // Fields may be fragmented or in any order in old view : i-th field is now at index i
+            int index_old = fields_old.fm_active[i];
+            auto old_field_View = Kokkos::subview( fields_old.fields.U, 
+                                                   Kokkos::ALL(),
+                                                   std::make_pair(index_old, index_old+1),
+                                                   Kokkos::ALL()  );
+            auto new_field_View = Kokkos::subview( this->fields.U, 
+                                                   Kokkos::ALL(),
+                                                   std::make_pair(i, i+1),
+                                                   Kokkos::ALL()  );
+
+            ghost_comm.exchange_ghosts<2>(old_field_View, new_field_View );
+        }
     }// This block is important to deallocate fields_old before extend_fields()
 
     this->extend_fields();
-- 
2.43.0


From 58d6ff540978c675f5e6fde8e2d441edb825dd59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:03 +0000
Subject: [PATCH 06/49] fix: adding a particle attribute after another one was
 deleted or replaced

new_ParticleAttribute() took the number of live attributes for the number of allocated ones: after a deletion or a
replacement the copy of the attributes failed (or lost the attribute stored last).
---
 core/src/UserData_particles.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/src/UserData_particles.h b/core/src/UserData_particles.h
index 3995418..bf49b6c 100644
--- a/core/src/UserData_particles.h
+++ b/core/src/UserData_particles.h
@@ -42,7 +42,8 @@ public:
             int nb_new_attributes = 1;
             int needed_attr_count = nbAttributes() + nb_new_attributes;
             this->max_particle_count = std::max( this->max_particle_count, needed_attr_count );
-            int allocated_attr_count = nbAttributes();
+            // Allocated attributes may be more than the live ones after some have been deleted or replaced
+            int allocated_attr_count = particles.nbfields();
             if( needed_attr_count > allocated_attr_count )
             {
                 ParticleData particles_new( particles, FieldManager(needed_attr_count) );
-- 
2.43.0


From 7771ee8f810d6572993505c466030db4e7f7c2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:31 +0000
Subject: [PATCH 07/49] fix: creating fields after all had been deleted reused
 storage sized for an earlier mesh

---
 core/src/UserData_fields.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/src/UserData_fields.h b/core/src/UserData_fields.h
index d1fd923..800be76 100644
--- a/core/src/UserData_fields.h
+++ b/core/src/UserData_fields.h
@@ -70,6 +70,10 @@ public:
             DYABLO_ASSERT_HOST_RELEASE( fields.U.extent(2) == foreach_cell.get_amr_mesh().getNumOctants(), "UserData_fields internal error : mismatch between allocated size and octant count" );
             DYABLO_ASSERT_HOST_RELEASE( fields.Ughost.extent(2) == foreach_cell.get_amr_mesh().getNumGhosts(), "UserData_fields internal error : mismatch between allocated size and ghost octant count" );
         }
+        else
+        {   // Without live fields, the storage doesn't follow the mesh : don't reuse it
+            fields = FieldView_t();
+        }
         
         int needed_field_count = nbFields() + names.size();
         this->max_field_count = std::max( this->max_field_count, needed_field_count );
-- 
2.43.0


From 7f681eb416e366482c0fa98ae8a33c5a2deb2d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:50 +0000
Subject: [PATCH 08/49] fix: renaming a field or particle attribute to its own
 name deleted it

---
 core/src/UserData_fields.h    | 2 ++
 core/src/UserData_particles.h | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/core/src/UserData_fields.h b/core/src/UserData_fields.h
index 800be76..2475c8f 100644
--- a/core/src/UserData_fields.h
+++ b/core/src/UserData_fields.h
@@ -164,6 +164,8 @@ public:
     {
         DYABLO_ASSERT_HOST_RELEASE( this->has_field(src), "UserData_fields::move_field() - field doesn't exist : " << src);
 
+        if( dest == src ) return;
+
         field_index[ dest ] = field_index.at( src );
         field_index.erase( src );
     }
diff --git a/core/src/UserData_particles.h b/core/src/UserData_particles.h
index bf49b6c..0a07570 100644
--- a/core/src/UserData_particles.h
+++ b/core/src/UserData_particles.h
@@ -126,6 +126,8 @@ public:
         {
             DYABLO_ASSERT_HOST_RELEASE( this->has_ParticleAttribute(attr_src), "move_ParticleAttribute() - source attribute doesn't exist : " << attr_src);
 
+            if( attr_dest == attr_src ) return;
+
             attribute_index[ attr_dest ] = attribute_index.at(attr_src);
             attribute_index.erase( attr_src );
         }
-- 
2.43.0


From e6b44df4d4cb5fbd05a0bf1f039c41c1c6a49681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:13 +0000
Subject: [PATCH 09/49] fix: gravity solvers without gravity field could not be
 used in the time loop

---
 core/src/DyabloTimeLoop.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/core/src/DyabloTimeLoop.h b/core/src/DyabloTimeLoop.h
index 3c6a3fd..0db5181 100644
--- a/core/src/DyabloTimeLoop.h
+++ b/core/src/DyabloTimeLoop.h
@@ -690,9 +690,12 @@ public:
       gravity_solver->update_gravity_field(U, m_scalar_data);
 
       // Maybe put this only in CIC move since we don't need it for NGP
-      timers.get("MPI ghosts").start();
-      communicate_ghosts( {"gx", "gy", "gz"} );
-      timers.get("MPI ghosts").stop();
+      if( m_gravity_type & GRAVITY_FIELD )
+      {
+        timers.get("MPI ghosts").start();
+        communicate_ghosts( {"gx", "gy", "gz"} );
+        timers.get("MPI ghosts").stop();
+      }
 
       // Restore rho before projection (only if particle projection)
       if( particle_update_density )
-- 
2.43.0


From 8b87dd7ebac516947784cb1d24c037cba3d91d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:13 +0000
Subject: [PATCH 10/49] fix: tracers leaving the domain are put back on the
 other side as other particles

---
 .../particles/ParticleUpdate_tracers_move.cpp | 21 ++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/core/src/particles/ParticleUpdate_tracers_move.cpp b/core/src/particles/ParticleUpdate_tracers_move.cpp
index b22192e..40c39f8 100644
--- a/core/src/particles/ParticleUpdate_tracers_move.cpp
+++ b/core/src/particles/ParticleUpdate_tracers_move.cpp
@@ -12,7 +12,15 @@ public:
           Timers& timers) 
   : foreach_cell(foreach_cell),
     foreach_particle(foreach_cell.get_amr_mesh(), configMap),
-    timers(timers)
+    timers(timers),
+    data{
+      .xmin = configMap.getValue<real_t>("mesh", "xmin", 0.0),
+      .xmax = configMap.getValue<real_t>("mesh", "xmax", 1.0),      
+      .ymin = configMap.getValue<real_t>("mesh", "ymin", 0.0),
+      .ymax = configMap.getValue<real_t>("mesh", "ymax", 1.0),
+      .zmin = configMap.getValue<real_t>("mesh", "zmin", 0.0),
+      .zmax = configMap.getValue<real_t>("mesh", "zmax", 1.0)
+    }
   {}
 
   ~ParticleUpdate_tracers_move() {}
@@ -32,6 +40,8 @@ public:
 
     ForeachCell::CellMetaData cells = foreach_cell.getCellMetaData();
 
+    const Data& d = this->data;
+
     foreach_particle.foreach_particle( "tracers_update_position", P,
       KOKKOS_LAMBDA( const ForeachParticle::ParticleIndex& iPart )
     {
@@ -41,6 +51,11 @@ public:
       P.pos(iPart, IX) += dt * Uin.at( iCell, IVX )/rho;
       P.pos(iPart, IY) += dt * Uin.at( iCell, IVY )/rho;
       P.pos(iPart, IZ) += dt * Uin.at( iCell, IVZ )/rho;
+
+      // Compute periodic position
+      P.pos(iPart, IX) = fmod( (P.pos(iPart, IX) - d.xmin) + (d.xmax-d.xmin) , d.xmax-d.xmin) + d.xmin;
+      P.pos(iPart, IY) = fmod( (P.pos(iPart, IY) - d.ymin) + (d.ymax-d.ymin) , d.ymax-d.ymin) + d.ymin;
+      P.pos(iPart, IZ) = fmod( (P.pos(iPart, IZ) - d.zmin) + (d.zmax-d.zmin) , d.zmax-d.zmin) + d.zmin;
     });   
 
     timers.get("ParticleUpdate_tracers_move").stop();
@@ -50,6 +65,10 @@ private:
   ForeachCell& foreach_cell;
   ForeachParticle foreach_particle;
   Timers& timers;  
+public: //Needed for nvcc
+  struct Data {
+    real_t xmin,xmax,ymin,ymax,zmin,zmax;
+  } data;
 };
 
 } // namespace dyablo
-- 
2.43.0


From e06f1aa54fd9a2621eeae56efcce4c01118cefb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:43 +0000
Subject: [PATCH 11/49] fix: ConfigMap read its print_config flag before
 initialising it

---
 core/src/utils/config/ConfigMap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/utils/config/ConfigMap.h b/core/src/utils/config/ConfigMap.h
index fa1d8e7..ee2e46f 100644
--- a/core/src/utils/config/ConfigMap.h
+++ b/core/src/utils/config/ConfigMap.h
@@ -383,7 +383,7 @@ protected:
     bool used = false;
   };
 
-  bool print_config;
+  bool print_config = false;
 
   std::map<std::string, std::map< std::string, value_container> > _values;
   static int valueHandler( void* user, const char* section_cstr, const char* name_cstr,
-- 
2.43.0


From d07bc2099e12522b98dea8e41b36439c0e63d5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:42 +0000
Subject: [PATCH 12/49] fix: checkpoint of particle attributes with several
 processes

---
 core/src/io/IOManager_checkpoint.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/io/IOManager_checkpoint.cpp b/core/src/io/IOManager_checkpoint.cpp
index 64131d3..f192c5d 100644
--- a/core/src/io/IOManager_checkpoint.cpp
+++ b/core/src/io/IOManager_checkpoint.cpp
@@ -69,7 +69,7 @@ public:
         hdf5_file.collective_write( std::string("particles/")+particle_array+"/pos/y", Kokkos::subview( pos, Kokkos::ALL(), (int)IY ) );
         hdf5_file.collective_write( std::string("particles/")+particle_array+"/pos/z", Kokkos::subview( pos, Kokkos::ALL(), (int)IZ ) );
         for( const std::string& attr : U.getEnabledParticleAttributes( particle_array ) )
-          hdf5_file.collective_write( std::string("particles/")+particle_array+"/attributes/"+attr, U.getParticleAttribute(particle_array, attr).particle_data );
+          hdf5_file.collective_write( std::string("particles/")+particle_array+"/attributes/"+attr, Kokkos::subview( U.getParticleAttribute(particle_array, attr).particle_data, Kokkos::ALL(), 0 ) );
       }
 
       // Select subview containing local octants
-- 
2.43.0


From b84345f32f8f749d03833b3ac0c17d15069c3ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:25 +0000
Subject: [PATCH 13/49] fix: particles read from a checkpoint stayed on the
 wrong process

---
 core/src/DyabloTimeLoop.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/src/DyabloTimeLoop.h b/core/src/DyabloTimeLoop.h
index 0db5181..594ad27 100644
--- a/core/src/DyabloTimeLoop.h
+++ b/core/src/DyabloTimeLoop.h
@@ -264,6 +264,9 @@ public:
             timers);
         initial_conditions->init( U );
       }     
+
+      // Initial conditions may leave particles on any process (e.g. restart reads them in file order)
+      U.distributeAllParticles();
     } 
     timers.get("initial_conditions").stop();
 
-- 
2.43.0


From e19a731d6de587ec53cc4e1ccc900f6d9c63c83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:41 +0000
Subject: [PATCH 14/49] fix: density of particles projected in 2D depended on
 the level of the cell

---
 core/src/particles/ParticleUpdate_CIC_density.cpp | 2 +-
 core/src/particles/ParticleUpdate_NGP_density.cpp | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/src/particles/ParticleUpdate_CIC_density.cpp b/core/src/particles/ParticleUpdate_CIC_density.cpp
index 0fc978b..db72ac8 100644
--- a/core/src/particles/ParticleUpdate_CIC_density.cpp
+++ b/core/src/particles/ParticleUpdate_CIC_density.cpp
@@ -62,7 +62,7 @@ public:
       
       pos_t cell_size = cells.getCellSize( iCell );
       pos_t cell_pos = cells.getCellCenter( iCell );
-      real_t Vcell = cell_size[IX]*cell_size[IY]*cell_size[IZ];
+      real_t Vcell = cell_size[IX]*cell_size[IY]*(ndim==3 ? cell_size[IZ] : 1.0);
 
       pos_t p = { // Local position relative to center [-0.5, 0.5]^3
         (part_pos[IX] - cell_pos[IX])/cell_size[IX], 
diff --git a/core/src/particles/ParticleUpdate_NGP_density.cpp b/core/src/particles/ParticleUpdate_NGP_density.cpp
index 1c0033f..8f86094 100644
--- a/core/src/particles/ParticleUpdate_NGP_density.cpp
+++ b/core/src/particles/ParticleUpdate_NGP_density.cpp
@@ -33,6 +33,7 @@ public:
     UserData::ParticleAccessor Pdata = U.getParticleAccessor( "particles", {{"mass", IMass}} );
 
     ForeachCell::CellMetaData cells = foreach_cell.getCellMetaData();
+    const int ndim = foreach_cell.getDim();
 
     foreach_cell.foreach_cell( "ParticleUpdate_NGP_density::copy_density", Uin.getShape(),
       KOKKOS_LAMBDA( const ForeachCell::CellIndex& iCell )
@@ -45,7 +46,7 @@ public:
     {
       ForeachCell::CellIndex iCell = cells.getCellFromPos( {Ppos.pos(iPart, IX), Ppos.pos(iPart, IY), Ppos.pos(iPart, IZ)} );
       auto size = cells.getCellSize( iCell );
-      real_t rho_contrib = Pdata.at( iPart, IMass ) / (size[IX]*size[IY]*size[IZ]);
+      real_t rho_contrib = Pdata.at( iPart, IMass ) / (size[IX]*size[IY]*(ndim==3 ? size[IZ] : 1.0));
 
       Kokkos::atomic_add( &Uin.at( iCell, IRhoG ), rho_contrib ) ;
     });   
-- 
2.43.0


From a6b1323da3096df77fb0de4c8491f96a1f7a8c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:09 +0000
Subject: [PATCH 15/49] fix: cloud-in-cell weights across edges and corners
 towards smaller cells, and in 2D

---
 .../particles/ParticleUpdate_CIC_density.cpp  | 21 +++++++++++--------
 .../src/particles/ParticleUpdate_CIC_move.cpp | 17 +++++++++------
 2 files changed, 23 insertions(+), 15 deletions(-)

diff --git a/core/src/particles/ParticleUpdate_CIC_density.cpp b/core/src/particles/ParticleUpdate_CIC_density.cpp
index db72ac8..800f3a4 100644
--- a/core/src/particles/ParticleUpdate_CIC_density.cpp
+++ b/core/src/particles/ParticleUpdate_CIC_density.cpp
@@ -67,7 +67,7 @@ public:
       pos_t p = { // Local position relative to center [-0.5, 0.5]^3
         (part_pos[IX] - cell_pos[IX])/cell_size[IX], 
         (part_pos[IY] - cell_pos[IY])/cell_size[IY], 
-        (part_pos[IZ] - cell_pos[IZ])/cell_size[IZ] 
+        (ndim==3) ? (part_pos[IZ] - cell_pos[IZ])/cell_size[IZ] : 0.0
       };
       auto sign = [](const auto& x) -> int8_t {return (x>=0)?1:-1;};
       ForeachCell::CellIndex::offset_t part_offset = {sign(p[IX]), sign(p[IY]), sign(p[IZ])};
@@ -98,10 +98,10 @@ public:
         else 
         {
           // Smaller : write to all smaller neighbors
-          //real_t volume_fraction_smaller = volume_fraction/(2*(ndim-1)); // Mass distributed accross neighbors
-          //real_t Vcell_smaller = Vcell/( 2*2*(ndim-1) ) // Volume 2^ndim times smaller
-          //real_t rho_contrib_smaller = (part_mass * volume_fraction_smaller) / Vcell_smaller;
-          real_t rho_contrib = 2 * (part_mass * volume_fraction) / Vcell;
+          // Mass is distributed across neighbors : 2^(ndim-n) of them, n the number of directions in offset (face, edge or corner)
+          // Vcell_smaller is 2^ndim times smaller
+          int n_directions = (offset[IX]!=0) + (offset[IY]!=0) + (offset[IZ]!=0);
+          real_t rho_contrib = (1<<n_directions) * (part_mass * volume_fraction) / Vcell;
           foreach_smaller_neighbor<ndim>( iCell_neighbor, offset, Uin.getShape(),
             [&]( const ForeachCell::CellIndex& iCell_sn )
           {
@@ -114,10 +114,13 @@ public:
       apply_rho_contrib( {part_offset[IX],0              ,0              });
       apply_rho_contrib( {0              ,part_offset[IY],0              });
       apply_rho_contrib( {part_offset[IX],part_offset[IY],0              });
-      apply_rho_contrib( {0              ,0              ,part_offset[IZ]});
-      apply_rho_contrib( {part_offset[IX],0              ,part_offset[IZ]});
-      apply_rho_contrib( {0              ,part_offset[IY],part_offset[IZ]});
-      apply_rho_contrib( {part_offset[IX],part_offset[IY],part_offset[IZ]});
+      if( ndim == 3 )
+      {
+        apply_rho_contrib( {0              ,0              ,part_offset[IZ]});
+        apply_rho_contrib( {part_offset[IX],0              ,part_offset[IZ]});
+        apply_rho_contrib( {0              ,part_offset[IY],part_offset[IZ]});
+        apply_rho_contrib( {part_offset[IX],part_offset[IY],part_offset[IZ]});
+      }
 
     });
 
diff --git a/core/src/particles/ParticleUpdate_CIC_move.cpp b/core/src/particles/ParticleUpdate_CIC_move.cpp
index 3c89bd0..cc8a78f 100644
--- a/core/src/particles/ParticleUpdate_CIC_move.cpp
+++ b/core/src/particles/ParticleUpdate_CIC_move.cpp
@@ -72,7 +72,7 @@ public:
       pos_t p = { // Local position relative to center [-0.5, 0.5]^3
         (part_pos[IX] - cell_pos[IX])/cell_size[IX], 
         (part_pos[IY] - cell_pos[IY])/cell_size[IY], 
-        (part_pos[IZ] - cell_pos[IZ])/cell_size[IZ] 
+        (ndim==3) ? (part_pos[IZ] - cell_pos[IZ])/cell_size[IZ] : 0.0
       };
       auto sign = [](const auto& x) -> int8_t {return (x>=0)?1:-1;};
       ForeachCell::CellIndex::offset_t part_offset = {sign(p[IX]), sign(p[IY]), sign(p[IZ])};
@@ -98,7 +98,9 @@ public:
         }
         else 
         {
-          int nneighbors = 2*(ndim-1);
+          // 2^(ndim-n) smaller neighbors, n the number of directions in offset (face, edge or corner)
+          int n_directions = (offset[IX]!=0) + (offset[IY]!=0) + (offset[IZ]!=0);
+          int nneighbors = 1 << (ndim-n_directions);
           foreach_smaller_neighbor<ndim>( iCell_neighbor, offset, Uin.getShape(),
             [&]( const ForeachCell::CellIndex& iCell_sn )
           {
@@ -113,10 +115,13 @@ public:
       apply_g_contrib( {part_offset[IX],0              ,0              });
       apply_g_contrib( {0              ,part_offset[IY],0              });
       apply_g_contrib( {part_offset[IX],part_offset[IY],0              });
-      apply_g_contrib( {0              ,0              ,part_offset[IZ]});
-      apply_g_contrib( {part_offset[IX],0              ,part_offset[IZ]});
-      apply_g_contrib( {0              ,part_offset[IY],part_offset[IZ]});
-      apply_g_contrib( {part_offset[IX],part_offset[IY],part_offset[IZ]});
+      if( ndim == 3 )
+      {
+        apply_g_contrib( {0              ,0              ,part_offset[IZ]});
+        apply_g_contrib( {part_offset[IX],0              ,part_offset[IZ]});
+        apply_g_contrib( {0              ,part_offset[IY],part_offset[IZ]});
+        apply_g_contrib( {part_offset[IX],part_offset[IY],part_offset[IZ]});
+      }
 
       Pdata.at( iPart, IVX ) += dt * gx;
       Pdata.at( iPart, IVY ) += dt * gy;
-- 
2.43.0


From 54198e47d4a8bf91d2951792bb83c3a01853b96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:24 +0000
Subject: [PATCH 16/49] fix: viscous fluxes in 2D were multiplied by a cell
 size along z

---
 core/src/parabolic/ParabolicTerm_viscosity.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/parabolic/ParabolicTerm_viscosity.h b/core/src/parabolic/ParabolicTerm_viscosity.h
index 76bec7f..22f7968 100644
--- a/core/src/parabolic/ParabolicTerm_viscosity.h
+++ b/core/src/parabolic/ParabolicTerm_viscosity.h
@@ -136,7 +136,7 @@ public:
 
         // Building flux
         real_t sign = (side == 0 ? -1.0 : 1.0);
-        real_t area = size[IY] * size[IZ];
+        real_t area = size[IY] * (ndim == 3 ? size[IZ] : 1.0);
         vf.rho_u += sign * area * tau_xx;
         vf.rho_v += sign * area * tau_xy;
         vf.rho_w += sign * area * tau_xz;
@@ -176,7 +176,7 @@ public:
 
         // Building flux
         real_t sign = (side == 0 ? -1.0 : 1.0);
-        real_t area = size[IX] * size[IZ];
+        real_t area = size[IX] * (ndim == 3 ? size[IZ] : 1.0);
         vf.rho_u += sign * area * tau_xy;
         vf.rho_v += sign * area * tau_yy;
         vf.rho_w += sign * area * tau_yz;
-- 
2.43.0


From 0988be3c6fd6d43b2cfcd1b898b59014cfa8a589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:59 +0000
Subject: [PATCH 17/49] fix: positions on cell faces and domain borders find a
 cell inside the mesh

---
 core/src/amr/LightOctree_hashmap.h          | 43 ++++++++++++---------
 core/src/foreach_cell/AMRBlockForeachCell.h | 15 ++++---
 2 files changed, 35 insertions(+), 23 deletions(-)

diff --git a/core/src/amr/LightOctree_hashmap.h b/core/src/amr/LightOctree_hashmap.h
index 34ad5f7..0010b61 100644
--- a/core/src/amr/LightOctree_hashmap.h
+++ b/core/src/amr/LightOctree_hashmap.h
@@ -273,24 +273,21 @@ public:
     {
         int ndim = getNdim();
 
-        DYABLO_ASSERT_KOKKOS_DEBUG( 0 < pos[IX] && pos[IX] < 1, "pos_x out of bounds" );
-        DYABLO_ASSERT_KOKKOS_DEBUG( 0 < pos[IY] && pos[IY] < 1, "pos_y out of bounds" );
+        DYABLO_ASSERT_KOKKOS_DEBUG( 0 <= pos[IX] && pos[IX] < 1, "pos_x out of bounds" );
+        DYABLO_ASSERT_KOKKOS_DEBUG( 0 <= pos[IY] && pos[IY] < 1, "pos_y out of bounds" );
         if(ndim == 3)
         {
-            DYABLO_ASSERT_KOKKOS_DEBUG( 0 < pos[IZ] && pos[IZ] < 1, "pos_z out of bounds" );
+            DYABLO_ASSERT_KOKKOS_DEBUG( 0 <= pos[IZ] && pos[IZ] < 1, "pos_z out of bounds" );
         }
         else
             DYABLO_ASSERT_KOKKOS_DEBUG( pos[IZ] == 0, "pos_z should be 0 in 2D");
 
         key_t logical_coords;
         {
-            real_t octant_size_x = 1.0/( storage.cell_count(IX, max_level) );
-            real_t octant_size_y = 1.0/( storage.cell_count(IY, max_level) );
-            real_t octant_size_z = 1.0/( storage.cell_count(IZ, max_level) );
             logical_coords.level = max_level;
-            logical_coords.i = std::floor(pos[IX]/octant_size_x);
-            logical_coords.j = std::floor(pos[IY]/octant_size_y);
-            logical_coords.k = (ndim-2)*std::floor(pos[IZ]/octant_size_z);
+            logical_coords.i = getLogicalCoordFromPos(IX, pos);
+            logical_coords.j = getLogicalCoordFromPos(IY, pos);
+            logical_coords.k = (ndim==3) ? getLogicalCoordFromPos(IZ, pos) : 0;
         }
 
         for(level_t level=max_level; level>=min_level; level--)
@@ -316,21 +313,18 @@ public:
     {
         int ndim = getNdim();
 
-        assert( 0 < pos[IX] && pos[IX] < 1 );
-        assert( 0 < pos[IY] && pos[IY] < 1 );
+        assert( 0 <= pos[IX] && pos[IX] < 1 );
+        assert( 0 <= pos[IY] && pos[IY] < 1 );
         if(ndim == 3)
-            assert( 0 < pos[IZ] && pos[IZ] < 1 );
+            assert( 0 <= pos[IZ] && pos[IZ] < 1 );
         else
             assert( pos[IZ] == 0 );
         morton_t morton;
         {
             index_t<3> logical_coords;
-            real_t octant_size_x = 1.0/( storage.cell_count(IX, max_level) );
-            real_t octant_size_y = 1.0/( storage.cell_count(IY, max_level) );
-            real_t octant_size_z = 1.0/( storage.cell_count(IZ, max_level) );
-            logical_coords[IX] = std::floor(pos[IX]/octant_size_x);
-            logical_coords[IY] = std::floor(pos[IY]/octant_size_y);
-            logical_coords[IZ] = (ndim-2)*std::floor(pos[IZ]/octant_size_z);
+            logical_coords[IX] = getLogicalCoordFromPos(IX, pos);
+            logical_coords[IY] = getLogicalCoordFromPos(IY, pos);
+            logical_coords[IZ] = (ndim==3) ? getLogicalCoordFromPos(IZ, pos) : 0;
 
             morton = compute_morton_key( logical_coords );
         }
@@ -358,6 +352,19 @@ public:
     };
 
 private:
+    /**
+     * Logical coordinate, at max_level, of the octant containing position pos
+     * (rounding must not push positions close to 1 outside of the domain)
+     **/
+    KOKKOS_INLINE_FUNCTION
+    logical_coord_t getLogicalCoordFromPos(ComponentIndex3D dir, const pos_t& pos) const
+    {
+        logical_coord_t count = storage.cell_count(dir, max_level);
+        real_t octant_size = 1.0/count;
+        logical_coord_t coord = std::floor(pos[dir]/octant_size);
+        return coord < count ? coord : count-1;
+    }
+
     Storage_t storage;
 
     using oct_ref_t = OctantIndex; //! value type for the hashmap
diff --git a/core/src/foreach_cell/AMRBlockForeachCell.h b/core/src/foreach_cell/AMRBlockForeachCell.h
index 4b603fd..d1047a5 100644
--- a/core/src/foreach_cell/AMRBlockForeachCell.h
+++ b/core/src/foreach_cell/AMRBlockForeachCell.h
@@ -100,8 +100,8 @@ public:
     real_t x01 = (x-xmin)/(xmax-xmin);
     real_t y01 = (y-ymin)/(ymax-ymin);
     real_t z01 = (z-zmin)/(zmax-zmin);
-    assert( x01 > 0 && x01 < 1.0 );
-    assert( y01 > 0 && y01 < 1.0 );
+    assert( x01 >= 0 && x01 < 1.0 );
+    assert( y01 >= 0 && y01 < 1.0 );
     assert( z01 >= 0 && z01 < 1.0 );
 
     LightOctree::OctantIndex iOct = lmesh.getiOctFromPos( {x01,y01,z01} );
@@ -115,9 +115,14 @@ public:
     cell_size[IY] = oct_size[IY] * (ymax-ymin)/by;
     cell_size[IZ] = oct_size[IZ] * (zmax-zmin)/bz;
 
-    uint32_t ix = (x-oct_corner[IX])/cell_size[IX];
-    uint32_t iy = (y-oct_corner[IY])/cell_size[IY];
-    uint32_t iz = (z-oct_corner[IZ])/cell_size[IZ];      
+    // Positions within rounding errors of a face of the octant still belong to its first/last cell
+    auto cell_coord = [](real_t x, uint32_t n) -> uint32_t
+    {
+      return x <= 0 ? 0 : ( x < n ? uint32_t(x) : n-1 );
+    };
+    uint32_t ix = cell_coord( (x-oct_corner[IX])/cell_size[IX], bx );
+    uint32_t iy = cell_coord( (y-oct_corner[IY])/cell_size[IY], by );
+    uint32_t iz = cell_coord( (z-oct_corner[IZ])/cell_size[IZ], bz );
 
     assert(!iOct.isGhost);
 
-- 
2.43.0


From 069fdfb6ecc81b294bdfeaa4044ebcf78742841e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:10 +0000
Subject: [PATCH 18/49] fix: particles moving further than the domain size or
 rounded onto its upper border stay inside

---
 core/src/particles/ParticleUpdate_CIC_move.cpp     |  6 +++---
 core/src/particles/ParticleUpdate_NGP_move.cpp     |  6 +++---
 core/src/particles/ParticleUpdate_base.h           | 10 ++++++++++
 core/src/particles/ParticleUpdate_tracers_move.cpp |  6 +++---
 4 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/core/src/particles/ParticleUpdate_CIC_move.cpp b/core/src/particles/ParticleUpdate_CIC_move.cpp
index cc8a78f..797a89a 100644
--- a/core/src/particles/ParticleUpdate_CIC_move.cpp
+++ b/core/src/particles/ParticleUpdate_CIC_move.cpp
@@ -131,9 +131,9 @@ public:
       Ppos.pos(iPart, IZ) += dt * Pdata.at( iPart, IVZ );
 
       // Compute periodic position
-      Ppos.pos(iPart, IX) = fmod( (Ppos.pos(iPart, IX) - d.xmin) + (d.xmax-d.xmin) , d.xmax-d.xmin) + d.xmin;
-      Ppos.pos(iPart, IY) = fmod( (Ppos.pos(iPart, IY) - d.ymin) + (d.ymax-d.ymin) , d.ymax-d.ymin) + d.ymin;
-      Ppos.pos(iPart, IZ) = fmod( (Ppos.pos(iPart, IZ) - d.zmin) + (d.zmax-d.zmin) , d.zmax-d.zmin) + d.zmin;
+      Ppos.pos(iPart, IX) = periodic_position( Ppos.pos(iPart, IX), d.xmin, d.xmax );
+      Ppos.pos(iPart, IY) = periodic_position( Ppos.pos(iPart, IY), d.ymin, d.ymax );
+      Ppos.pos(iPart, IZ) = periodic_position( Ppos.pos(iPart, IZ), d.zmin, d.zmax );
 
     });   
 
diff --git a/core/src/particles/ParticleUpdate_NGP_move.cpp b/core/src/particles/ParticleUpdate_NGP_move.cpp
index f2b89ee..d2dace8 100644
--- a/core/src/particles/ParticleUpdate_NGP_move.cpp
+++ b/core/src/particles/ParticleUpdate_NGP_move.cpp
@@ -59,9 +59,9 @@ public:
       Ppos.pos(iPart, IZ) += dt * Pdata.at( iPart, IVZ );
 
       // Compute periodic position
-      Ppos.pos(iPart, IX) = fmod( (Ppos.pos(iPart, IX) - d.xmin) + (d.xmax-d.xmin) , d.xmax-d.xmin) + d.xmin;
-      Ppos.pos(iPart, IY) = fmod( (Ppos.pos(iPart, IY) - d.ymin) + (d.ymax-d.ymin) , d.ymax-d.ymin) + d.ymin;
-      Ppos.pos(iPart, IZ) = fmod( (Ppos.pos(iPart, IZ) - d.zmin) + (d.zmax-d.zmin) , d.zmax-d.zmin) + d.zmin;
+      Ppos.pos(iPart, IX) = periodic_position( Ppos.pos(iPart, IX), d.xmin, d.xmax );
+      Ppos.pos(iPart, IY) = periodic_position( Ppos.pos(iPart, IY), d.ymin, d.ymax );
+      Ppos.pos(iPart, IZ) = periodic_position( Ppos.pos(iPart, IZ), d.zmin, d.zmax );
 
     });   
 
diff --git a/core/src/particles/ParticleUpdate_base.h b/core/src/particles/ParticleUpdate_base.h
index ba748ee..43f1170 100644
--- a/core/src/particles/ParticleUpdate_base.h
+++ b/core/src/particles/ParticleUpdate_base.h
@@ -8,6 +8,16 @@
 
 namespace dyablo {
 
+/// Position inside [xmin, xmax[ equivalent to x in a periodic domain
+KOKKOS_INLINE_FUNCTION
+real_t periodic_position( real_t x, real_t xmin, real_t xmax )
+{
+  const real_t L = xmax - xmin;
+  real_t dx = fmod( x - xmin, L );
+  if( dx < 0 ) dx += L;
+  const real_t res = xmin + dx;
+  return res < xmax ? res : xmin; // res can be rounded up to xmax
+}
 
 class ParticleUpdate{
 public: 
diff --git a/core/src/particles/ParticleUpdate_tracers_move.cpp b/core/src/particles/ParticleUpdate_tracers_move.cpp
index 40c39f8..963fc8d 100644
--- a/core/src/particles/ParticleUpdate_tracers_move.cpp
+++ b/core/src/particles/ParticleUpdate_tracers_move.cpp
@@ -53,9 +53,9 @@ public:
       P.pos(iPart, IZ) += dt * Uin.at( iCell, IVZ )/rho;
 
       // Compute periodic position
-      P.pos(iPart, IX) = fmod( (P.pos(iPart, IX) - d.xmin) + (d.xmax-d.xmin) , d.xmax-d.xmin) + d.xmin;
-      P.pos(iPart, IY) = fmod( (P.pos(iPart, IY) - d.ymin) + (d.ymax-d.ymin) , d.ymax-d.ymin) + d.ymin;
-      P.pos(iPart, IZ) = fmod( (P.pos(iPart, IZ) - d.zmin) + (d.zmax-d.zmin) , d.zmax-d.zmin) + d.zmin;
+      P.pos(iPart, IX) = periodic_position( P.pos(iPart, IX), d.xmin, d.xmax );
+      P.pos(iPart, IY) = periodic_position( P.pos(iPart, IY), d.ymin, d.ymax );
+      P.pos(iPart, IZ) = periodic_position( P.pos(iPart, IZ), d.zmin, d.zmax );
     });   
 
     timers.get("ParticleUpdate_tracers_move").stop();
-- 
2.43.0


From f0a82bf45d47f1553bab3927ed15ed8e520232a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:15 +0000
Subject: [PATCH 19/49] fix: particles of 2D runs with out-of-plane velocities
 are located in the plane

---
 core/src/foreach_cell/AMRBlockForeachCell.h | 2 +-
 core/src/particles/ForeachParticle.h        | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/src/foreach_cell/AMRBlockForeachCell.h b/core/src/foreach_cell/AMRBlockForeachCell.h
index d1047a5..92387d7 100644
--- a/core/src/foreach_cell/AMRBlockForeachCell.h
+++ b/core/src/foreach_cell/AMRBlockForeachCell.h
@@ -99,7 +99,7 @@ public:
     real_t z = pos[IZ];
     real_t x01 = (x-xmin)/(xmax-xmin);
     real_t y01 = (y-ymin)/(ymax-ymin);
-    real_t z01 = (z-zmin)/(zmax-zmin);
+    real_t z01 = (cdata.ndim==3) ? (z-zmin)/(zmax-zmin) : 0; // position along z is meaningless in 2D
     assert( x01 >= 0 && x01 < 1.0 );
     assert( y01 >= 0 && y01 < 1.0 );
     assert( z01 >= 0 && z01 < 1.0 );
diff --git a/core/src/particles/ForeachParticle.h b/core/src/particles/ForeachParticle.h
index b1e5c9b..ffdf9a7 100644
--- a/core/src/particles/ForeachParticle.h
+++ b/core/src/particles/ForeachParticle.h
@@ -60,6 +60,7 @@ public:
   {
     const LightOctree& lmesh = pmesh.getLightOctree();
     uint32_t nbParticles = particles_in.getNumParticles();
+    int ndim = lmesh.getNdim();
 
     real_t xmin = this->xmin;
     real_t ymin = this->ymin;
@@ -79,7 +80,7 @@ public:
       real_t z = particles_in.pos(iPart, IZ);
       real_t x01 = (x-xmin)/Lx;
       real_t y01 = (y-ymin)/Ly;
-      real_t z01 = (z-zmin)/Lz;
+      real_t z01 = (ndim==3) ? (z-zmin)/Lz : 0; // position along z is meaningless in 2D
       assert( x01 >= 0 && x01 < 1.0 );
       assert( y01 >= 0 && y01 < 1.0 );
       assert( z01 >= 0 && z01 < 1.0 );
-- 
2.43.0


From c45bebaabfbcbeb80e313efe1c5fdba2729ad734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:58 +0000
Subject: [PATCH 20/49] fix: an output, adaptation or load balancing interval
 of 0 disables it instead of dividing by zero

---
 core/src/DyabloTimeLoop.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/DyabloTimeLoop.h b/core/src/DyabloTimeLoop.h
index 594ad27..c7ee59e 100644
--- a/core/src/DyabloTimeLoop.h
+++ b/core/src/DyabloTimeLoop.h
@@ -47,7 +47,7 @@ public:
     : var(var),
       enabled( interval > 0 ),
       interval(interval),
-      last_trigger( std::floor(scalar_data.get<T>(var)/interval) * interval )
+      last_trigger( enabled ? std::floor(scalar_data.get<T>(var)/interval) * interval : 0 )
   {}
 
   bool trigger( const ScalarSimulationData& scalar_data )
-- 
2.43.0


From 7b02ace304d9e186d25b27a7a2738376dc150ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:58 +0000
Subject: [PATCH 21/49] fix: a simulation starting at or after its end makes no
 step, forwards or backwards

---
 core/src/DyabloTimeLoop.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/DyabloTimeLoop.h b/core/src/DyabloTimeLoop.h
index c7ee59e..36fd0e9 100644
--- a/core/src/DyabloTimeLoop.h
+++ b/core/src/DyabloTimeLoop.h
@@ -518,7 +518,7 @@ public:
     // NOTE : mpirun catches SIGINT and forwards SIGTERM to child process
     // NOTE : scancel sends SIGTERM by default, you can use 'scancel -s INT'
     signal( SIGINT, interrupt_handler );
-    bool finished = false;
+    bool finished = m_iteration_handler->stop_criterion( m_scalar_data ); // e.g. restart of a finished simulation
     while( !finished )
     {
       step();      
-- 
2.43.0


From f22fad09dcb1a875d84a6559d64b09776826291d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:56 +0000
Subject: [PATCH 22/49] fix: the smaller neighbour returned in a diagonal
 direction is the one that touches the cell

For an offset crossing the octant's border in one direction only, the
half of the neighbourhood away from the cell was returned for negative
components of the offset; cloud-in-cell projection then put mass into
cells the particle's cloud does not overlap.
---
 core/src/foreach_cell/AMRBlockForeachCell_CellArray.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/core/src/foreach_cell/AMRBlockForeachCell_CellArray.h b/core/src/foreach_cell/AMRBlockForeachCell_CellArray.h
index e9b2e6c..f92d495 100644
--- a/core/src/foreach_cell/AMRBlockForeachCell_CellArray.h
+++ b/core/src/foreach_cell/AMRBlockForeachCell_CellArray.h
@@ -698,9 +698,10 @@ CellIndex CellIndex::getNeighbor_ghost( const offset_t& offset, const CellArray_
 
       // Compute cell position in neighbor meta-bloc of size {2*bx, 2*by, 2*bz}
       // Pick the smallest index {i_smaller, j_smaller, k_smaller} contiguous to current cell
-      uint32_t i_smaller = i*2 + (int)(i<0) - oct_offset[IX] * bx * 2; 
-      uint32_t j_smaller = j*2 + (int)(j<0) - oct_offset[IY] * by * 2;
-      uint32_t k_smaller = k*2 + (int)(k<0) - oct_offset[IZ] * bz * 2;
+      // (upper half in directions with a negative offset, even when the octant's border is crossed in another direction)
+      uint32_t i_smaller = i*2 + (int)(offset[IX]<0) - oct_offset[IX] * bx * 2; 
+      uint32_t j_smaller = j*2 + (int)(offset[IY]<0) - oct_offset[IY] * by * 2;
+      uint32_t k_smaller = k*2 + (int)(offset[IZ]<0) - oct_offset[IZ] * bz * 2;
 
       DYABLO_ASSERT_KOKKOS_DEBUG(i_smaller<2*bx, "internal error : i out of block bounds");
       DYABLO_ASSERT_KOKKOS_DEBUG(j_smaller<2*by, "internal error : j out of block bounds");
-- 
2.43.0


From 5e903827e3c6275f7dca37c735e11b49bee8641a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:56 +0000
Subject: [PATCH 23/49] fix: the GLM damping of psi acts once per step instead
 of once per direction

psi was damped in between the updates of the directions, so that the
solution depended on the order of the axes.
---
 core/src/hydro/HydroUpdate_utils.h | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/core/src/hydro/HydroUpdate_utils.h b/core/src/hydro/HydroUpdate_utils.h
index 625aba2..79df5a0 100644
--- a/core/src/hydro/HydroUpdate_utils.h
+++ b/core/src/hydro/HydroUpdate_utils.h
@@ -613,12 +613,15 @@ void euler_update(const RiemannParams&     params,
     u.e_tot += dt * 0.5 * (fluxR.rho + fluxL.rho)*gval;
   }
 
-  // GLM MHD -> Diffusion term
+  // GLM MHD -> Diffusion term, once the fluxes of all directions are accounted for
   if constexpr (std::is_same_v<State, GLMMHDState>) {
-    const real_t ch = params.ch / dt;
-    const real_t cp = sqrt(params.cr*ch);
-    const real_t para_term = exp(-0.5 * dt * ch*ch/(cp*cp));
-    u.psi *= para_term;
+    if( dir == (ndim==2 ? IY : IZ) )
+    {
+      const real_t ch = params.ch / dt;
+      const real_t cp = sqrt(params.cr*ch);
+      const real_t para_term = exp(-dt * ch*ch/(cp*cp));
+      u.psi *= para_term;
+    }
   }
 
   setConservativeState<ndim>(Uout, iCell_Uout, u);
-- 
2.43.0


From 983470d13c3abfbb66248f6d792923f7e38d7dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:56 +0000
Subject: [PATCH 24/49] fix: pressures at level changes are summed from zero in
 the well-balanced Euler update

---
 core/src/hydro/HydroUpdate_utils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/hydro/HydroUpdate_utils.h b/core/src/hydro/HydroUpdate_utils.h
index 79df5a0..f8410e6 100644
--- a/core/src/hydro/HydroUpdate_utils.h
+++ b/core/src/hydro/HydroUpdate_utils.h
@@ -475,7 +475,7 @@ void euler_update(const RiemannParams&     params,
   real_t dflux_RR  = df_factors[ldiff_R+1][0];
 
   // Output pressures, necessary for the well-balanced solver
-  real_t poutL, poutR;
+  real_t poutL = 0, poutR = 0;
   
   // == Left interface
   // 1- Same size or bigger
-- 
2.43.0


From 48449184ee15db0c7313e189cdabcdd40d68139a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:15 +0000
Subject: [PATCH 25/49] fix: the lower and upper borders of each direction
 follow their own setting

The boundary types of xmin and xmax (ymin/ymax, zmin/zmax) were exchanged.
---
 core/src/boundary_conditions/BoundaryConditions.h  | 12 ++++++------
 core/src/hydro/HydroUpdate_hancock_oneneighbor.cpp |  4 ++--
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/core/src/boundary_conditions/BoundaryConditions.h b/core/src/boundary_conditions/BoundaryConditions.h
index 3a5c29c..ef3a9c7 100644
--- a/core/src/boundary_conditions/BoundaryConditions.h
+++ b/core/src/boundary_conditions/BoundaryConditions.h
@@ -81,13 +81,13 @@ public:
     res = ref;
 
     // X dir
-    if (offset[IX] > 0) {
+    if (offset[IX] < 0) {
       if (bc_min[IX] == BC_REFLECTING)
         res.rho_u = -ref.rho_u;
       else if (bc_min[IX] == BC_USER)
         res = getUserdefBoundaryValue<ndim, State>(Uin, iCell_boundary, metadata, offset, IX);
     }
-    else if (offset[IX] < 0) {
+    else if (offset[IX] > 0) {
       if (bc_max[IX] == BC_REFLECTING)
         res.rho_u = -ref.rho_u;
       else if (bc_max[IX] == BC_USER)
@@ -95,13 +95,13 @@ public:
     }
 
     // Y dir
-    if (offset[IY] > 0) {
+    if (offset[IY] < 0) {
       if (bc_min[IY] == BC_REFLECTING)
         res.rho_v = -ref.rho_v;
       else if (bc_min[IY] == BC_USER)
         res = getUserdefBoundaryValue<ndim, State>(Uin, iCell_boundary, metadata, offset, IY);
     }
-    else if (offset[IY] < 0) {
+    else if (offset[IY] > 0) {
       if (bc_max[IY] == BC_REFLECTING)
         res.rho_v = -ref.rho_v;
       else if (bc_max[IY] == BC_USER)
@@ -110,13 +110,13 @@ public:
 
     // Z dir
     if (ndim == 3) {
-      if (offset[IZ] > 0) {
+      if (offset[IZ] < 0) {
         if (bc_min[IZ] == BC_REFLECTING)
           res.rho_w = -ref.rho_w;
         else if (bc_min[IZ] == BC_USER)
           res = getUserdefBoundaryValue<ndim, State>(Uin, iCell_boundary, metadata, offset, IZ);
       }
-      else if (offset[IZ] < 0) {
+      else if (offset[IZ] > 0) {
         if (bc_max[IZ] == BC_REFLECTING)
           res.rho_w = -ref.rho_w;
         else if (bc_max[IZ] == BC_USER)
diff --git a/core/src/hydro/HydroUpdate_hancock_oneneighbor.cpp b/core/src/hydro/HydroUpdate_hancock_oneneighbor.cpp
index bf9abe8..08927d4 100644
--- a/core/src/hydro/HydroUpdate_hancock_oneneighbor.cpp
+++ b/core/src/hydro/HydroUpdate_hancock_oneneighbor.cpp
@@ -290,9 +290,9 @@ void compute_fluxes_and_update( const FieldArray& Uin, const FieldArray& Uout, c
       PrimState qr_n = consToPrim<ndim>(ur_n, params.gamma0);
       ConsState flux = riemann(qr_c, qr_n, dir, sign);
 
-      if (sign == 1 && bc_manager.bc_min[dir] == BC_USER)
+      if (sign == -1 && bc_manager.bc_min[dir] == BC_USER)
         flux = bc_manager.template overrideBoundaryFlux<ndim, State>(flux, qr_c, dir, true);
-      else if (sign == -1 && bc_manager.bc_max[dir] == BC_USER)
+      else if (sign == 1 && bc_manager.bc_max[dir] == BC_USER)
         flux = bc_manager.template overrideBoundaryFlux<ndim, State>(flux, qr_c, dir, false);
         
       // +- dS / dV 
-- 
2.43.0


From 01ea4c4ca4def27f38afbbd3f2dbd01c744d5efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:40 +0000
Subject: [PATCH 26/49] fix: border cells diagonal to an octant mirror the
 neighbouring octant, not the octant itself

Beyond a border and beside the octant the mirrored cell was taken from the
octant's own last row; HydroUpdate_hancock leaked mass and energy through
walls.
---
 .../AMRBlockForeachCell_CellArray.h           | 24 ++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/core/src/foreach_cell/AMRBlockForeachCell_CellArray.h b/core/src/foreach_cell/AMRBlockForeachCell_CellArray.h
index f92d495..599c1c1 100644
--- a/core/src/foreach_cell/AMRBlockForeachCell_CellArray.h
+++ b/core/src/foreach_cell/AMRBlockForeachCell_CellArray.h
@@ -631,7 +631,29 @@ CellIndex CellIndex::getNeighbor_ghost( const offset_t& offset, const CellArray_
     const LightOctree::OctantIndex& iOct = this->iOct; 
     if( lmesh.isBoundary( iOct, oct_offset ) )
     {
-      return CellIndex{iOct,i+bx,j+by,k+bz,bx,by,bz, CellIndex::BOUNDARY};;
+      // Position is outside of the domain in at least one direction. If it is also in another octant in the directions 
+      // that stay inside the domain, the boundary cell belongs to this (same size) octant
+      LightOctree::OctantIndex iOct_boundary = iOct;
+      LightOctree::offset_t inside_offset = {0,0,0};
+      for( int dir=0; dir<3; dir++ )
+      {
+        LightOctree::offset_t dir_offset = {0,0,0};
+        dir_offset[dir] = oct_offset[dir];
+        if( oct_offset[dir] != 0 && !lmesh.isBoundary( iOct, dir_offset ) )
+          inside_offset[dir] = oct_offset[dir];
+      }
+      if( inside_offset[IX] != 0 || inside_offset[IY] != 0 || inside_offset[IZ] != 0 )
+      {
+        LightOctree::NeighborList inside_neighbors = lmesh.findNeighbors(iOct, inside_offset);
+        if( inside_neighbors.size() == 1 && lmesh.getLevel(inside_neighbors[0]) == lmesh.getLevel(iOct) )
+        {
+          iOct_boundary = inside_neighbors[0];
+          i -= inside_offset[IX] * (int32_t)bx;
+          j -= inside_offset[IY] * (int32_t)by;
+          k -= inside_offset[IZ] * (int32_t)bz;
+        }
+      }
+      return CellIndex{iOct_boundary,i+bx,j+by,k+bz,bx,by,bz, CellIndex::BOUNDARY};
     }
     
     LightOctree::NeighborList oct_neighbors = lmesh.findNeighbors(iOct, oct_offset);
-- 
2.43.0


From 191b074bbed6fb273f421d1a12be2c30932a806c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:40 +0000
Subject: [PATCH 27/49] fix: well-balanced fluxes at level changes use the
 distances of both cells to their interface

The two sides of a level change computed different fluxes, losing mass.
---
 core/src/hydro/HydroUpdate_utils.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/hydro/HydroUpdate_utils.h b/core/src/hydro/HydroUpdate_utils.h
index f8410e6..06c42a3 100644
--- a/core/src/hydro/HydroUpdate_utils.h
+++ b/core/src/hydro/HydroUpdate_utils.h
@@ -147,8 +147,8 @@ compute_euler_flux(const typename State::PrimState& sourceL,
     qL = sourceL;
     qR = sourceR;
 
-    qL.p += qL.rho * gval * size * 0.5;
-    qR.p -= qR.rho * gval * size * 0.5;
+    qL.p += qL.rho * gval * size * dL;
+    qR.p -= qR.rho * gval * size * dR;
   }
   else {
     const real_t smallr = params.smallr;
-- 
2.43.0


From 506e90333b34ed041d57264471c964dba9ad30a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:02 +0000
Subject: [PATCH 28/49] fix: the second derivative criterion coarsens where the
 error is below its threshold

---
 .../refine_condition/RefineCondition_second_derivative_error.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/src/refine_condition/RefineCondition_second_derivative_error.cpp b/core/src/refine_condition/RefineCondition_second_derivative_error.cpp
index 446e2b4..e37f1b8 100644
--- a/core/src/refine_condition/RefineCondition_second_derivative_error.cpp
+++ b/core/src/refine_condition/RefineCondition_second_derivative_error.cpp
@@ -117,6 +117,7 @@ public:
 
     uint32_t nbOcts = foreach_cell.get_amr_mesh().getNumOctants();
     Kokkos::View<int*> oct_marker_max("Oct_marker_max", nbOcts);
+    Kokkos::deep_copy( oct_marker_max, (int)RefineCondition::COARSEN );
 
     const UserData::FieldAccessor Uin = Uin_.getAccessor( ConsState::getFieldsInfo() );
 
-- 
2.43.0


From b9ab54a50972ee17aea5d91b8b74695ba963203f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:34 +0000
Subject: [PATCH 29/49] fix: the gravity solver follows the setting of each
 border

---
 core/src/gravity/GravitySolver_cg.cpp | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/core/src/gravity/GravitySolver_cg.cpp b/core/src/gravity/GravitySolver_cg.cpp
index ac0bddd..d40c6fa 100644
--- a/core/src/gravity/GravitySolver_cg.cpp
+++ b/core/src/gravity/GravitySolver_cg.cpp
@@ -19,7 +19,8 @@ struct GravitySolver_cg::Data{
   real_t xmin, ymin, zmin;
   real_t xmax, ymax, zmax;
 
-  Kokkos::Array<BoundaryConditionType, 3> boundarycondition;
+  // Boundary types at the lower and upper borders of each direction
+  Kokkos::Array<Kokkos::Array<BoundaryConditionType, 2>, 3> boundarycondition;
 
   bool cosmo_run;
   real_t four_Pi_G;
@@ -42,9 +43,12 @@ GravitySolver_cg::GravitySolver_cg(
       configMap.getValue<real_t>("mesh", "ymax", 1.0),
       configMap.getValue<real_t>("mesh", "zmax", 1.0),
       {
-        configMap.getValue<BoundaryConditionType>("mesh","boundary_type_xmin", BC_ABSORBING),
-        configMap.getValue<BoundaryConditionType>("mesh","boundary_type_ymin", BC_ABSORBING),
-        configMap.getValue<BoundaryConditionType>("mesh","boundary_type_zmin", BC_ABSORBING)
+        Kokkos::Array<BoundaryConditionType, 2>{ configMap.getValue<BoundaryConditionType>("mesh","boundary_type_xmin", BC_ABSORBING),
+                                                 configMap.getValue<BoundaryConditionType>("mesh","boundary_type_xmax", BC_ABSORBING) },
+        Kokkos::Array<BoundaryConditionType, 2>{ configMap.getValue<BoundaryConditionType>("mesh","boundary_type_ymin", BC_ABSORBING),
+                                                 configMap.getValue<BoundaryConditionType>("mesh","boundary_type_ymax", BC_ABSORBING) },
+        Kokkos::Array<BoundaryConditionType, 2>{ configMap.getValue<BoundaryConditionType>("mesh","boundary_type_zmin", BC_ABSORBING),
+                                                 configMap.getValue<BoundaryConditionType>("mesh","boundary_type_zmax", BC_ABSORBING) }
       },
       configMap.getValue<bool>("cosmology", "active", false),
       -1.0, // gravity_constant 4*Pi*G, defined later
@@ -132,7 +136,7 @@ real_t get_value(const Array_t& U, const CellIndex& iCell_U, VarIndex var, const
  */
 template< typename Array_t >
 KOKKOS_INLINE_FUNCTION
-real_t matprod(const Array_t& GCdata, const CellIndex& iCell_CGdata, VarIndex var, real_t dx, real_t dy, real_t dz, const Kokkos::Array<BoundaryConditionType, 3>& boundarycondition)
+real_t matprod(const Array_t& GCdata, const CellIndex& iCell_CGdata, VarIndex var, real_t dx, real_t dy, real_t dz, const Kokkos::Array<Kokkos::Array<BoundaryConditionType, 2>, 3>& boundarycondition)
 {
   //constexpr int ndim = 3;
 
@@ -157,8 +161,8 @@ real_t matprod(const Array_t& GCdata, const CellIndex& iCell_CGdata, VarIndex va
     real_t dvar_L = S*( GCdata.at(iCell_CGdata, var) - get_value( GCdata, iCell_L, var, off_L ) )/hl;
     real_t dvar_R = S*( get_value( GCdata, iCell_R, var, off_R ) - GCdata.at(iCell_CGdata, var) )/hr;
     
-    if( boundarycondition[dir] == BC_ABSORBING && iCell_L.is_boundary() ) dvar_L = 0;
-    if( boundarycondition[dir] == BC_ABSORBING && iCell_R.is_boundary() ) dvar_R = 0;
+    if( boundarycondition[dir][0] == BC_ABSORBING && iCell_L.is_boundary() ) dvar_L = 0;
+    if( boundarycondition[dir][1] == BC_ABSORBING && iCell_R.is_boundary() ) dvar_R = 0;
     
     res += (dvar_R - dvar_L);
   }
@@ -178,7 +182,7 @@ real_t matprod(const Array_t& GCdata, const CellIndex& iCell_CGdata, VarIndex va
  * @return the value of A_ii with i being the value of iCell_CGdata
  */
 KOKKOS_INLINE_FUNCTION
-real_t Aii(const UserData::FieldAccessor& GCdata, const CellIndex& iCell_CGdata, real_t dx, real_t dy, real_t dz, const Kokkos::Array<BoundaryConditionType, 3>& boundarycondition)
+real_t Aii(const UserData::FieldAccessor& GCdata, const CellIndex& iCell_CGdata, real_t dx, real_t dy, real_t dz, const Kokkos::Array<Kokkos::Array<BoundaryConditionType, 2>, 3>& boundarycondition)
 {
   return (dx*dy*dz)*(2/(dx*dx)+2/(dy*dy)+2/(dz*dz));
 }
@@ -240,7 +244,7 @@ void GravitySolver_cg::update_gravity_field( UserData& U, ScalarSimulationData&
   ForeachCell& foreach_cell = pdata->foreach_cell;
   real_t xmin = pdata->xmin, ymin = pdata->ymin, zmin = pdata->zmin;
   real_t xmax = pdata->xmax, ymax = pdata->ymax, zmax = pdata->zmax;
-  Kokkos::Array<BoundaryConditionType, 3> boundarycondition = pdata->boundarycondition;
+  Kokkos::Array<Kokkos::Array<BoundaryConditionType, 2>, 3> boundarycondition = pdata->boundarycondition;
   int ghost_count = 1; 
   GhostCommunicator ghost_comm(foreach_cell.get_amr_mesh(), U.getShape(), ghost_count );
 
@@ -405,8 +409,8 @@ void GravitySolver_cg::update_gravity_field( UserData& U, ScalarSimulationData&
       real_t dphi_L = (phi_L - phi_C)/hl;
       real_t dphi_R = (phi_C - phi_R)/hr;
 
-      if( boundarycondition[dir] == BC_ABSORBING && iCell_L.is_boundary() ) dphi_L = 0;
-      if( boundarycondition[dir] == BC_ABSORBING && iCell_R.is_boundary() ) dphi_R = 0;
+      if( boundarycondition[dir][0] == BC_ABSORBING && iCell_L.is_boundary() ) dphi_L = 0;
+      if( boundarycondition[dir][1] == BC_ABSORBING && iCell_R.is_boundary() ) dphi_R = 0;
 
       Kokkos::Array< VarIndex, 3 > IG = {IGX, IGY, IGZ};
 
-- 
2.43.0


From 0075a86ec0c5612758bb2587390eb07417d598c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:29 +0000
Subject: [PATCH 30/49] fix: the legacy update applies the gravity field of the
 cell itself and knows that of border cells

---
 core/src/legacy/CopyGhostBlockCellData.cpp       | 2 ++
 core/src/legacy/MusclBlockGodunovUpdateFunctor.h | 4 ++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/src/legacy/CopyGhostBlockCellData.cpp b/core/src/legacy/CopyGhostBlockCellData.cpp
index 7d913d1..5e26e3b 100644
--- a/core/src/legacy/CopyGhostBlockCellData.cpp
+++ b/core/src/legacy/CopyGhostBlockCellData.cpp
@@ -613,6 +613,8 @@ KOKKOS_INLINE_FUNCTION void write_cell_data( const Functor& f, uint32_t iOct_g,
     {
         f.Ugroup(index_cur, f.fm[IGX], iOct_g) = data[f.fm_state[IGX]];
         f.Ugroup(index_cur, f.fm[IGY], iOct_g) = data[f.fm_state[IGY]];
+        if(ndim == 3)
+            f.Ugroup(index_cur, f.fm[IGZ], iOct_g) = data[f.fm_state[IGZ]];
     }
 }
 
diff --git a/core/src/legacy/MusclBlockGodunovUpdateFunctor.h b/core/src/legacy/MusclBlockGodunovUpdateFunctor.h
index f8f10eb..de36199 100644
--- a/core/src/legacy/MusclBlockGodunovUpdateFunctor.h
+++ b/core/src/legacy/MusclBlockGodunovUpdateFunctor.h
@@ -765,8 +765,8 @@ public:
     real_t gx, gy, gz;
     if (params.gravity_type & GRAVITY_FIELD)
     {
-      gx = Ugroup(index, fm[IGX], iOct_g);
-      gy = Ugroup(index, fm[IGY], iOct_g);
+      gx = Ugroup(index_g, fm[IGX], iOct_g);
+      gy = Ugroup(index_g, fm[IGY], iOct_g);
 
       if (ndim == 3)
         gz = Ugroup(index_g, fm[IGZ], iOct_g);
-- 
2.43.0


From 671f23842532aab1a37a3459344b9ddc20578ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:47 +0000
Subject: [PATCH 31/49] fix: the gravity solver did not stop when the density
 is uniform up to rounding

---
 core/src/gravity/GravitySolver_cg.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/core/src/gravity/GravitySolver_cg.cpp b/core/src/gravity/GravitySolver_cg.cpp
index d40c6fa..ed77247 100644
--- a/core/src/gravity/GravitySolver_cg.cpp
+++ b/core/src/gravity/GravitySolver_cg.cpp
@@ -279,9 +279,9 @@ void GravitySolver_cg::update_gravity_field( UserData& U, ScalarSimulationData&
   real_t four_Pi_G = pdata->four_Pi_G;  
 
   // Compute initial residual
-  real_t R=0, B=0, r_dot_z=0;
+  real_t R=0, B=0, B_mean=0, r_dot_z=0;
   foreach_cell.reduce_cell( "Gravity_cg::init_gc", CGdata, 
-    KOKKOS_LAMBDA(const CellIndex& iCell_CGdata, real_t& update_r, real_t& update_b, real_t& update_r_dot_z )
+    KOKKOS_LAMBDA(const CellIndex& iCell_CGdata, real_t& update_r, real_t& update_b, real_t& update_b_mean, real_t& update_r_dot_z )
   {
     // Get gravity potential from last iteration as approximate solution
     CGdata.at(iCell_CGdata, CG_PHI) = Uin.at(iCell_CGdata, IGPHI);
@@ -299,17 +299,23 @@ void GravitySolver_cg::update_gravity_field( UserData& U, ScalarSimulationData&
     CGdata.at(iCell_CGdata, CG_IP) = z; // p <- r
     update_r += r*r ;
     update_b += bi*bi ;
+    real_t bi_mean = (cosmo_run ? 6.0*aexp : four_Pi_G*rho_mean)*cell_size[IX]*cell_size[IY]*cell_size[IZ];
+    update_b_mean += bi_mean*bi_mean;
     update_r_dot_z += r*z;
-  }, R, B, r_dot_z );  
+  }, R, B, B_mean, r_dot_z );  
   R = MPI_Allreduce_scalar(R);
   B = MPI_Allreduce_scalar(B);
+  B_mean = MPI_Allreduce_scalar(B_mean);
   r_dot_z = MPI_Allreduce_scalar(r_dot_z);
   
   if(pdata->print_cg_iter)
     std::cout << "GC : " << R << "...";
+  // The sources are known up to the rounding of the mean density : a residual below this cannot be reduced
+  const real_t nbCells = (real_t)foreach_cell.get_amr_mesh().getGlobalNumOctants()*U.getShape().bx*U.getShape().by*U.getShape().bz;
+  const real_t eps_mean = 4*std::numeric_limits<real_t>::epsilon()*sqrt(nbCells);
   // Conjugate gradient iteration
   int it=0;
-  while( R/B > eps*eps )
+  while( R > eps*eps*B && R > eps_mean*eps_mean*B_mean )
   {
     it++;
     // Communicate ghosts for CG_IP
-- 
2.43.0


From d7096b78e9a23710e3347082c3e49b2b92ed14c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:29 +0000
Subject: [PATCH 32/49] fix: the vacuum energy enters the expansion with the
 sixth power of the expansion factor

da/dt = a*H with H^2 = Om/a^3 + Ok/a^2 + Ov and dt = a^2*dt_super give
a^3*H = sqrt(Om*a^3 + Ok*a^4 + Ov*a^6). a^5 is not a cosmological constant.
---
 core/src/Cosmo.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/Cosmo.h b/core/src/Cosmo.h
index b4e5389..5093726 100644
--- a/core/src/Cosmo.h
+++ b/core/src/Cosmo.h
@@ -82,7 +82,7 @@ private:
     {
       return 1.0 / sqrt(std::pow(aexp, 4) * (1.0-omega_m-omega_v) 
                     + std::pow(aexp, 3) * omega_m 
-                    + std::pow(aexp, 5) * omega_v);
+                    + std::pow(aexp, 6) * omega_v);
     };
     return Impl::romberg( faexp_tilde, a, b, max_iterations, tol );
   }
-- 
2.43.0


From 742e4953bc4d6089c6b459ec7600d9477d4f8e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:29 +0000
Subject: [PATCH 33/49] fix: conversions of the first entry of the expansion
 table read before it

A value equal to the first entry (every run starts there) or after the last
one indexed the table out of bounds, so did the message of romberg() when it
does not converge.
---
 core/src/Cosmo.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/src/Cosmo.h b/core/src/Cosmo.h
index 5093726..611f9eb 100644
--- a/core/src/Cosmo.h
+++ b/core/src/Cosmo.h
@@ -15,6 +15,7 @@ real_t lookup_interpolate( const std::vector<real_t>& lookup_x, const std::vecto
   {
     auto lower_bound_it = std::lower_bound( lookup_x.begin(), lookup_x.end(), x );
     int i = lower_bound_it - lookup_x.begin(); // First greater or equal
+    i = std::clamp( i, 1, (int)lookup_x.size()-1 ); // First entry and values out of range use the nearest interval
 
     real_t x_interp = ( x - lookup_x[i-1] ) / ( lookup_x[i] - lookup_x[i-1] );
     return lookup_y[i-1] + x_interp * ( lookup_y[i] - lookup_y[i-1]  );
@@ -62,7 +63,7 @@ real_t romberg(const Func& f, real_t a, real_t b, size_t max_steps, real_t acc)
     Rc = rt;
   }
 
-  std::cout << "WARNING : Romberg did not converge in " << max_steps << " iterations; Error = " << fabs(Rp[max_steps-1]-Rc[max_steps]) << std::endl;
+  std::cout << "WARNING : Romberg did not converge in " << max_steps << " iterations; Error = " << fabs(Rp[max_steps-1]-Rc[max_steps-2]) << std::endl;
   return Rp[max_steps-1]; // return our best guess
 }
   
-- 
2.43.0


From 3e71c77ed1d05928eaee09a551e68c1a92082188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:29 +0000
Subject: [PATCH 34/49] fix: ending at an expansion factor uses the cosmology
 of the run

The time step to the end was computed with omegam/omegav (and refused without)
while the expansion itself uses omega_m/omega_v.
---
 core/src/DyabloTimeLoop.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/DyabloTimeLoop.h b/core/src/DyabloTimeLoop.h
index 36fd0e9..df41021 100644
--- a/core/src/DyabloTimeLoop.h
+++ b/core/src/DyabloTimeLoop.h
@@ -126,8 +126,8 @@ public:
     if( t_end_var == "aexp" )
     {
       this->t_end_epsilon = 2e-8; // This is related to romberg precision in CosmoManager
-      this->omega_m = configMap.getValue<real_t>( "cosmology", "omegam" );
-      this->omega_v = configMap.getValue<real_t>( "cosmology", "omegav" );
+      this->omega_m = configMap.getValue<real_t>( "cosmology", "omega_m", 0.3 ); // Same as CosmoManager
+      this->omega_v = configMap.getValue<real_t>( "cosmology", "omega_v", 0.7 );
     }
     else if( t_end_var != "time" ) 
       std::cout << "WARNING : can't correct dt to match t_end, possible overshoot. var=" << t_end_var << std::endl;
-- 
2.43.0


From 35e2c96d47bff31b173c19c546a2ed996bba243f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:29 +0000
Subject: [PATCH 35/49] fix: the expansion factor is that of the current time
 when outputs and the end of the run are decided

It was computed in the middle of the step only: snapshots, checkpoints, their
intervals and the end of the run used the value of the previous step (the
starting one for restarts), and the run made one more step of length zero.
---
 core/src/DyabloTimeLoop.h | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/core/src/DyabloTimeLoop.h b/core/src/DyabloTimeLoop.h
index df41021..e2a3170 100644
--- a/core/src/DyabloTimeLoop.h
+++ b/core/src/DyabloTimeLoop.h
@@ -280,16 +280,14 @@ public:
     this->cosmo_manager = std::make_unique<CosmoManager>( configMap );
     real_t t0_default = 0;
     if( cosmo_manager->cosmo_run )
-    {
       t0_default = cosmo_manager->expansionToTime( cosmo_manager->a_start );
-      m_scalar_data.set("aexp", cosmo_manager->a_start);
-    }
 
     this->m_scalar_data.set("iter", m_iter_start);
     {
       real_t t0 = configMap.getValue<real_t>("run", "tStart", t0_default);
       this->m_scalar_data.set("time", t0);
     }
+    update_expansion();
 
     this->m_loadbalance_coherent_levels = configMap.getValue<int>("amr", "loadbalance_coherent_levels", 3);
 
@@ -597,14 +595,6 @@ public:
       timers.get("checkpoint").stop();
     }
 
-    if( cosmo_manager->cosmo_run )
-    {
-      real_t time = m_scalar_data.get<real_t>("time");
-      real_t aexp = cosmo_manager->timeToExpansion(time);
-      m_scalar_data.set("aexp", aexp);
-      m_scalar_data.set("z", 1.0/(aexp)-1.0);
-    }
-
     // Compute new dt
     {
       timers.get("dt").start();
@@ -750,6 +740,7 @@ public:
      
 
     m_iteration_handler->next_iter(m_scalar_data);
+    update_expansion();
     
     if (m_gravity_type & GRAVITY_FIELD)
     {
@@ -814,6 +805,18 @@ public:
   }
 
 private:
+  /// Set the expansion factor and redshift of the current time
+  void update_expansion()
+  {
+    if( cosmo_manager->cosmo_run )
+    {
+      real_t time = m_scalar_data.get<real_t>("time");
+      real_t aexp = cosmo_manager->timeToExpansion(time);
+      m_scalar_data.set("aexp", aexp);
+      m_scalar_data.set("z", 1.0/(aexp)-1.0);
+    }
+  }
+
   // Simulation parameters
   int m_nlog; //! Timestep log frequency  
   bool m_enable_output; //! Enable vizualization output and output at least at beginning and end of simulation
-- 
2.43.0


From 39dcc08a810d2f058fca301ac5a74cc455e07b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:21 +0000
Subject: [PATCH 36/49] fix: lower bound of the sound speed in the HLLC solver

smallp bounds pressure/density (pl = max(p, rl*smallp)), so the bound of
the sound speed is sqrt(gamma*smallp), as in ComputeDtHydroFunctor. Divided
by smallr it was sqrt(gamma) with the default settings: the solver used
wave speeds of at least 1.18 whatever the gas, which is over the stability
limit of the time step for any gas with a lower sound speed.
---
 core/src/RiemannSolvers.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/RiemannSolvers.h b/core/src/RiemannSolvers.h
index 89ec062..9ff122d 100644
--- a/core/src/RiemannSolvers.h
+++ b/core/src/RiemannSolvers.h
@@ -42,7 +42,7 @@ struct RiemannParams
     smallr( configMap.getValue<real_t>("hydro","smallr", 1e-10) ),
     smallp( configMap.getValue<real_t>("hydro","smallp", 1e-10) ),
     smalle( configMap.getValue<real_t>("hydro","smalle", 1e-5) ),
-    smallc( sqrt(smallp*gamma0/smallr) ),
+    smallc( sqrt(smallp*gamma0) ), // smallp is a lower bound of pressure/density
     smallpp( smallr*smallp ),
     three_waves( configMap.getValue<bool>("hydro", "three_waves", false))
   { 
-- 
2.43.0


From d3bf4d327352ad083a80822b405af190dc6202c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:01 +0000
Subject: [PATCH 37/49] fix: fast magnetosonic speed of a field along the
 normal

(a+b)^2 - 4ab is the difference of two nearly equal numbers where the sound
and Alfven speeds agree and the field has no transverse part: rounding makes
it negative, the wave speed NaN, and the HLLD solver then returns the flux of
the wrong side. (a-b)^2 + 4ab_t is the same number without cancellation, as
already used by Compute_dt_hydro.
---
 core/src/RiemannSolvers.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/src/RiemannSolvers.h b/core/src/RiemannSolvers.h
index 9ff122d..ea64a54 100644
--- a/core/src/RiemannSolvers.h
+++ b/core/src/RiemannSolvers.h
@@ -243,9 +243,9 @@ void riemann_five_waves(const PrimMHDState&  qleft,
   auto computeFastMagnetoAcousticSpeed = [&](const PrimMHDState &q, const real_t B2, const real_t cs) {
     const real_t c02  = cs*cs;
     const real_t ca2  = B2 / q.rho;
-    const real_t cap2 = q.Bx*q.Bx/q.rho;
+    const real_t cat2 = (q.By*q.By+q.Bz*q.Bz)/q.rho;
     // Remi's version
-    return sqrt(0.5*(c02+ca2)+0.5*sqrt((c02+ca2)*(c02+ca2)-4.0*c02*cap2));
+    return sqrt(0.5*(c02+ca2)+0.5*sqrt((c02-ca2)*(c02-ca2)+4.0*c02*cat2));
   };
 
   // Using 3-wave if hyperbolicity is lost
@@ -357,7 +357,7 @@ void riemann_hlld( const PrimMHDState&  qleft,
     const real_t gp = params.gamma0 * q.p;
     const real_t B2 = Bx*Bx + q.By*q.By + q.Bz*q.Bz;
     
-    return sqrt(0.5 * (gp + B2 + sqrt((gp + B2)*(gp + B2) - 4.0*gp*Bx*Bx)) / q.rho);
+    return sqrt(0.5 * (gp + B2 + sqrt((gp - B2)*(gp - B2) + 4.0*gp*(q.By*q.By + q.Bz*q.Bz))) / q.rho);
   };
 
   const real_t cfL = computeFastMagnetoAcousticSpeed(qleft);
-- 
2.43.0


From 3faff7294a4669608f871c8485047c289855aa97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:21 +0000
Subject: [PATCH 38/49] fix: HLLD solver in supersonic flow towards negative
 coordinates

The Alfven speed of the star state can exceed the outer wave speed SR (field
along the normal), and SRS > 0 was tested before SR: the flux was then not
that of the upwind side, while the mirrored problem (SL > 0, tested first)
was solved correctly. Test both outer waves first.
---
 core/src/RiemannSolvers.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/core/src/RiemannSolvers.h b/core/src/RiemannSolvers.h
index ea64a54..6769497 100644
--- a/core/src/RiemannSolvers.h
+++ b/core/src/RiemannSolvers.h
@@ -474,6 +474,13 @@ void riemann_hlld( const PrimMHDState&  qleft,
 
     p_out = qleft.p;
   }
+  else if (SR <= 0.0) { // qR; before the inner waves : SRS > SR is possible
+    q = qright;
+    e_tot = ER;
+    q.p = pTR;
+
+    p_out = qright.p;
+  }
   else if (SLS > 0.0) { // qL*
     q.rho = rLS;
     q.u   = uS;
@@ -516,7 +523,7 @@ void riemann_hlld( const PrimMHDState&  qleft,
 
     p_out = qright.p;
   }
-  else if (SR > 0.0) { // qR*
+  else { // qR*
     q.rho = rRS;
     q.u   = uS;
     q.v   = vRS;
@@ -530,13 +537,6 @@ void riemann_hlld( const PrimMHDState&  qleft,
 
     p_out = qright.p;
   }
-  else { // SR < 0.0; qR
-    q = qright;
-    e_tot = ER;
-    q.p = pTR;
-
-    p_out = qright.p;
-  }
 
   flux = computeFlux(q, e_tot);
 }
-- 
2.43.0


From 72d0e103fca2b3b9a177351a88f3c762929c69d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:55 +0000
Subject: [PATCH 39/49] fix: indented parameters in .ini files

An indented line was taken for the continuation of the value above
(Python configparser style), and as ConfigMap does not join the lines, the
value above was silently replaced by the whole text of the line and the
parameter on it was lost. Read indented lines like any other.
---
 core/src/utils/config/inih/ini.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/utils/config/inih/ini.h b/core/src/utils/config/inih/ini.h
index d1a2ba8..b3dfb5c 100644
--- a/core/src/utils/config/inih/ini.h
+++ b/core/src/utils/config/inih/ini.h
@@ -94,7 +94,7 @@ INI_API int ini_parse_string(const char* string, ini_handler handler, void* user
    configparser. If allowed, ini_parse() will call the handler with the same
    name for each subsequent line parsed. */
 #ifndef INI_ALLOW_MULTILINE
-#define INI_ALLOW_MULTILINE 1
+#define INI_ALLOW_MULTILINE 0
 #endif
 
 /* Nonzero to allow a UTF-8 BOM sequence (0xEF 0xBB 0xBF) at the start of
-- 
2.43.0


From 78373c0f48d7687810e52a5a5941517dffb1d0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:55 +0000
Subject: [PATCH 40/49] fix: long lines in .ini files

Lines over 197 characters were cut, and the rest read as another line: long
comments or lists of variables were refused or gave wrong values, and so was
the last.ini or restart .ini of a run with a shorter line, as the value is
padded and commented there.
---
 core/src/utils/config/inih/ini.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/utils/config/inih/ini.h b/core/src/utils/config/inih/ini.h
index b3dfb5c..aa2589f 100644
--- a/core/src/utils/config/inih/ini.h
+++ b/core/src/utils/config/inih/ini.h
@@ -127,7 +127,7 @@ INI_API int ini_parse_string(const char* string, ini_handler handler, void* user
 /* Maximum line length for any line in INI file (stack or heap). Note that
    this must be 3 more than the longest line (due to '\r', '\n', and '\0'). */
 #ifndef INI_MAX_LINE
-#define INI_MAX_LINE 200
+#define INI_MAX_LINE 16384
 #endif
 
 /* Nonzero to allow heap line buffer to grow via realloc(), zero for a
-- 
2.43.0


From 6e4a5dc638b38fdf2d3a0c724f34d09244bce9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:55 +0000
Subject: [PATCH 41/49] fix: refuse negative numbers for unsigned parameters

istream >> reads -1 as 4294967295 without failing: e.g. coarse_oct_resolution_x
or particle_grid/nx = -1 were accepted as such.
---
 core/src/utils/config/ConfigMap.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/src/utils/config/ConfigMap.h b/core/src/utils/config/ConfigMap.h
index ee2e46f..9dd0755 100644
--- a/core/src/utils/config/ConfigMap.h
+++ b/core/src/utils/config/ConfigMap.h
@@ -75,6 +75,9 @@ struct convert_to_t
       // Default : use std::ostringstream::operator<< to parse string. 
       // throws std::runtime_error if there is a parsing error (either << fails or stream contains too many tokens) 
 
+      if constexpr ( std::is_unsigned_v<T> ) // `>>` accepts negative numbers modulo 2^n
+        DYABLO_ASSERT_HOST_RELEASE( str.find('-') == std::string::npos, "Parse error, value cannot be negative. typeid : " << typeid(T).name() << ", Input : `" << str << "`" );
+
       std::istringstream value_stream( str );
       T res;
       value_stream >> res;
-- 
2.43.0


From 9c56e59ae7a6a989bf75e204f3cc81d2b0aee587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:33 +0000
Subject: [PATCH 42/49] fix: particle_grid run again from its recorded
 parameters

astart is read with a default value by every run, and so is found in last.ini
and in the .ini written with checkpoints: given back to the program, it made
particle_grid ask for omegam, omegab and omegav, and stop.
---
 core/src/init/InitialConditions_particle_grid.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/src/init/InitialConditions_particle_grid.cpp b/core/src/init/InitialConditions_particle_grid.cpp
index 81ef377..8aaafbd 100644
--- a/core/src/init/InitialConditions_particle_grid.cpp
+++ b/core/src/init/InitialConditions_particle_grid.cpp
@@ -50,7 +50,8 @@ public:
     this->nz = configMap.getValue<uint32_t>("particle_grid", "nz", default_nz);
     
     real_t default_total_mass=1.0, default_dt_perturb=0.0;
-    bool cosmo = configMap.hasValue("cosmology", "astart");
+    // Not only astart : it is in the last.ini and restart .ini of every run
+    bool cosmo = configMap.hasValue("cosmology", "astart") && configMap.hasValue("cosmology", "omegam");
     if( cosmo )
     {
       real_t astart = configMap.getValue<real_t>( "cosmology", "astart" );
-- 
2.43.0


From a687abf3c3bf774fbdcf3dc4b627e3dd295aaec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:23 +0000
Subject: [PATCH 43/49] fix: blast/center_x, center_y and center_z were ignored

---
 core/src/init/InitialConditions_MHD_blast.cpp | 8 ++++----
 core/src/init/InitialConditions_blast.cpp     | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/core/src/init/InitialConditions_MHD_blast.cpp b/core/src/init/InitialConditions_MHD_blast.cpp
index cd51f6b..407d012 100644
--- a/core/src/init/InitialConditions_MHD_blast.cpp
+++ b/core/src/init/InitialConditions_MHD_blast.cpp
@@ -82,10 +82,10 @@ struct AnalyticalFormula_MHD_blast : public AnalyticalFormula_base{
         int qix = (int)(x / qsx);
         int qiy = (int)(y / qsy);
         int qiz = (int)(z / qsz);
-        // Quadrant physical center
-        real_t qcx = (qix+0.5)*qsx;
-        real_t qcy = (qiy+0.5)*qsy;
-        real_t qcz = (qiz+0.5)*qsz;
+        // Center of the blast in this quadrant
+        real_t qcx = (qix+blast_center_x)*qsx;
+        real_t qcy = (qiy+blast_center_y)*qsy;
+        real_t qcz = (qiz+blast_center_z)*qsz;
 
         const real_t Bx = blast_B * cos(blast_B_angle);
         const real_t By = blast_B * sin(blast_B_angle);
diff --git a/core/src/init/InitialConditions_blast.cpp b/core/src/init/InitialConditions_blast.cpp
index 23d7a93..90b51df 100644
--- a/core/src/init/InitialConditions_blast.cpp
+++ b/core/src/init/InitialConditions_blast.cpp
@@ -112,10 +112,10 @@ struct AnalyticalFormula_blast : public AnalyticalFormula_base{
         int qix = (int)(x / qsx);
         int qiy = (int)(y / qsy);
         int qiz = (int)(z / qsz);
-        // Quadrant physical center
-        real_t qcx = (qix+0.5)*qsx;
-        real_t qcy = (qiy+0.5)*qsy;
-        real_t qcz = (qiz+0.5)*qsz;
+        // Center of the blast in this quadrant
+        real_t qcx = (qix+blast_center_x)*qsx;
+        real_t qcy = (qiy+blast_center_y)*qsy;
+        real_t qcz = (qiz+blast_center_z)*qsz;
 
         real_t r2 = (x-qcx)*(x-qcx) + (y-qcy)*(y-qcy);
         if( this->ndim == 3 ) r2 += (z-qcz)*(z-qcz);
-- 
2.43.0


From dc3182074802e53cf6154075f21bea4931acb9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:24 +0000
Subject: [PATCH 44/49] fix: seed of random perturbations ignored on the first
 process

---
 core/src/init/InitialConditions_rayleigh_taylor.cpp    | 2 +-
 core/src/init/wholesun/InitialConditions_C91.cpp       | 2 +-
 core/src/init/wholesun/InitialConditions_tri_layer.cpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/src/init/InitialConditions_rayleigh_taylor.cpp b/core/src/init/InitialConditions_rayleigh_taylor.cpp
index 9554bdc..cd971b4 100644
--- a/core/src/init/InitialConditions_rayleigh_taylor.cpp
+++ b/core/src/init/InitialConditions_rayleigh_taylor.cpp
@@ -49,7 +49,7 @@ struct AnalyticalFormula_RayleighTaylor : public AnalyticalFormula_base{
     amplitude(configMap.getValue<real_t>("RT", "amplitude", 1.0e-2)),
     multi_mode(configMap.getValue<bool>("RT", "multi_mode", false)),
     seed(configMap.getValue<int>("RT", "seed", 12345)),
-    rand_pool(seed*GlobalMpiSession::get_comm_world().MPI_Comm_rank()+1)
+    rand_pool(seed+GlobalMpiSession::get_comm_world().MPI_Comm_rank())
   {
 
     gz = (ndim == 2 ? configMap.getValue<real_t>("gravity", "gy", -0.1)
diff --git a/core/src/init/wholesun/InitialConditions_C91.cpp b/core/src/init/wholesun/InitialConditions_C91.cpp
index cf0f688..60b866b 100644
--- a/core/src/init/wholesun/InitialConditions_C91.cpp
+++ b/core/src/init/wholesun/InitialConditions_C91.cpp
@@ -48,7 +48,7 @@ struct AnalyticalFormula_C91 : public AnalyticalFormula_base{
     m(configMap.getValue<real_t>("C91", "mpoly", 1.0)),
     rho0(configMap.getValue<real_t>("C91", "rho0", 10.0)),
     T0(configMap.getValue<real_t>("C91", "T0", 10.0)),
-    rand_pool(seed*GlobalMpiSession::get_comm_world().MPI_Comm_rank()+1)
+    rand_pool(seed+GlobalMpiSession::get_comm_world().MPI_Comm_rank())
   {
   }
 
diff --git a/core/src/init/wholesun/InitialConditions_tri_layer.cpp b/core/src/init/wholesun/InitialConditions_tri_layer.cpp
index 064ade8..cb180e6 100644
--- a/core/src/init/wholesun/InitialConditions_tri_layer.cpp
+++ b/core/src/init/wholesun/InitialConditions_tri_layer.cpp
@@ -54,7 +54,7 @@ struct AnalyticalFormula_tri_layer : public AnalyticalFormula_base{
     rho0(configMap.getValue<real_t>("tri_layer", "rho0", 10.0)),
     T0(configMap.getValue<real_t>("tri_layer", "T0", 10.0)),
     perturbation(configMap.getValue<real_t>("tri_layer", "perturbation", 1.0e-3)),
-    rand_pool(seed*GlobalMpiSession::get_comm_world().MPI_Comm_rank()+1)
+    rand_pool(seed+GlobalMpiSession::get_comm_world().MPI_Comm_rank())
 
   {
   }
-- 
2.43.0


From becd980e679796e401b50876e9bd1eef55180c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:24 +0000
Subject: [PATCH 45/49] fix: simple_particles with more or fewer values than
 particles

---
 core/src/init/InitialConditions_simple_particles.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/init/InitialConditions_simple_particles.cpp b/core/src/init/InitialConditions_simple_particles.cpp
index fe92b2f..cd56794 100644
--- a/core/src/init/InitialConditions_simple_particles.cpp
+++ b/core/src/init/InitialConditions_simple_particles.cpp
@@ -30,7 +30,7 @@ public:
     auto parse_array = [&](const Kokkos::View<double*>& a, const std::string& var)
     {
       std::vector<double> values = configMap.getValue< std::vector<double> >("simple_particles", var, {});
-      int nb_values = std::max((int)values.size(),npart); // Select at most npart values from .ini
+      int nb_values = std::min((int)values.size(),npart); // Select at most npart values from .ini
 
       // Create unmanaged view to copy vector
       using UnmanagedHostView = Kokkos::View<double*, Kokkos::HostSpace, Kokkos::MemoryTraits<Kokkos::Unmanaged> >;
-- 
2.43.0


From 1fe0ddf64ae8cd7c43aacc75491194dbfa059d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:01 +0000
Subject: [PATCH 46/49] fix: smoothing and amplitude of kelvin_helmholtz were
 one parameter

Names are not case sensitive: KH/a and KH/A always had the same value, so
both shipped settings had a transition five times too sharp. The amplitude of the
velocity is now KH/amplitude.
---
 core/src/init/InitialConditions_kelvin_helmholtz.cpp | 2 +-
 settings/hydro/block-based/kelvin_helmholtz.ini      | 2 +-
 settings/hydro/cell-based/kelvin_helmholtz_2D.ini    | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/src/init/InitialConditions_kelvin_helmholtz.cpp b/core/src/init/InitialConditions_kelvin_helmholtz.cpp
index 0cd39b1..25e7cf3 100644
--- a/core/src/init/InitialConditions_kelvin_helmholtz.cpp
+++ b/core/src/init/InitialConditions_kelvin_helmholtz.cpp
@@ -40,7 +40,7 @@ struct AnalyticalFormula_KelvinHelmholtz : public AnalyticalFormula_base{
     z1(configMap.getValue<real_t>("KH", "z1", 0.5)),
     z2(configMap.getValue<real_t>("KH", "z2", 1.5)),
     a(configMap.getValue<real_t>("KH", "a", 0.05)),
-    A(configMap.getValue<real_t>("KH", "A", 0.01)),
+    A(configMap.getValue<real_t>("KH", "amplitude", 0.01)),
     sigma(configMap.getValue<real_t>("KH", "sigma", 0.2)),
     P0(configMap.getValue<real_t>("KH", "P0", 1.0)),
     uflow(configMap.getValue<real_t>("KH", "uflow", 1.0))
diff --git a/settings/hydro/block-based/kelvin_helmholtz.ini b/settings/hydro/block-based/kelvin_helmholtz.ini
index 4a850e9..3207e6e 100644
--- a/settings/hydro/block-based/kelvin_helmholtz.ini
+++ b/settings/hydro/block-based/kelvin_helmholtz.ini
@@ -52,7 +52,7 @@ rho_fac=1.0
 z1=0.5
 z2=1.5
 a=0.05
-A=0.01
+amplitude=0.01
 sigma=0.2
 P0=10.0
 uflow=1.0
diff --git a/settings/hydro/cell-based/kelvin_helmholtz_2D.ini b/settings/hydro/cell-based/kelvin_helmholtz_2D.ini
index 1a6b67c..65aa005 100644
--- a/settings/hydro/cell-based/kelvin_helmholtz_2D.ini
+++ b/settings/hydro/cell-based/kelvin_helmholtz_2D.ini
@@ -53,7 +53,7 @@ rho_fac=1.0
 z1=0.5
 z2=1.5
 a=0.05
-A=0.01
+amplitude=0.01
 sigma=0.2
 P0=10.0
 uflow=1.0
-- 
2.43.0


From c68e5f887761d212b04b4f6cc333292cdb3a51ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:35 +0000
Subject: [PATCH 47/49] fix: header of grafic files with the other byte order

---
 .../init/InitialConditions_grafic_fields.cpp    | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/core/src/init/InitialConditions_grafic_fields.cpp b/core/src/init/InitialConditions_grafic_fields.cpp
index 910fa7d..8833b63 100644
--- a/core/src/init/InitialConditions_grafic_fields.cpp
+++ b/core/src/init/InitialConditions_grafic_fields.cpp
@@ -1,3 +1,5 @@
+#include <cstring>
+
 #include "InitialConditions_base.h"
 
 #include "utils/io/FortranBinaryReader.h"
@@ -17,6 +19,15 @@ class InitialConditions_grafic_fields : public InitialConditions
     float om,ov,H0;
   };
 
+  // The header is made of 4-byte values, each to be swapped in files with the other byte order
+  static void read_header( std::istream& grafic_file, grafic_header& header )
+  {
+    constexpr size_t nvalues = sizeof(grafic_header)/sizeof(int32_t);
+    int32_t values[nvalues];
+    FortranBinaryReader::read_record( grafic_file, values, nvalues );
+    std::memcpy( &header, values, sizeof(header) );
+  }
+
 public:
   InitialConditions_grafic_fields(
         ConfigMap& configMap, 
@@ -43,7 +54,7 @@ public:
     std::string grafic_filename = this->graficDir + "/ic_deltab";
     std::ifstream grafic_file(grafic_filename , std::ios::in|std::ios::binary );
     DYABLO_ASSERT_HOST_RELEASE(grafic_file, "Could not open grafic file : `" + grafic_filename + "`");
-    FortranBinaryReader::read_record( grafic_file, &header, 1 );
+    read_header( grafic_file, header );
 
     printHeader(header, graficDir);
 
@@ -114,7 +125,7 @@ public:
       std::string grafic_filename = this->graficDir + "/ic_deltab";
       std::ifstream grafic_file(grafic_filename , std::ios::in|std::ios::binary );
       DYABLO_ASSERT_HOST_RELEASE(grafic_file, "Could not open grafic file : `" + grafic_filename + "`");
-      FortranBinaryReader::read_record( grafic_file, &header, 1 );
+      read_header( grafic_file, header );
     }
 
     int32_t nx = header.nx;
@@ -137,7 +148,7 @@ public:
         DYABLO_ASSERT_HOST_RELEASE(grafic_file, "Could not open grafic file : `" + grafic_filename + "`");
         // Read header from grafic file
         grafic_header header;
-        FortranBinaryReader::read_record( grafic_file, &header, 1 );
+        read_header( grafic_file, header );
         // Read array from grafic file
         auto grafic_field_host = Kokkos::create_mirror_view( grafic_field_device );
         for(uint32_t z=0; z<(uint32_t)nz; z++)
-- 
2.43.0


From 8ac2971b8ccdc2a4c834e4a248588176521d881d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:12 +0000
Subject: [PATCH 48/49] fix: uninitialised unused member of the C91 initial
 conditions was copied

---
 core/src/init/wholesun/InitialConditions_C91.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/core/src/init/wholesun/InitialConditions_C91.cpp b/core/src/init/wholesun/InitialConditions_C91.cpp
index 60b866b..6112612 100644
--- a/core/src/init/wholesun/InitialConditions_C91.cpp
+++ b/core/src/init/wholesun/InitialConditions_C91.cpp
@@ -33,7 +33,6 @@ struct AnalyticalFormula_C91 : public AnalyticalFormula_base{
   const real_t m;              // Polytropic index
   const real_t rho0, T0;       // Hydro values at the top layer
   RNGPool      rand_pool;      // Random pool for multi-mode perturbation
-  bool geom_ref;
 
   AnalyticalFormula_C91( ConfigMap& configMap ) : 
     ndim(configMap.getValue<int>("mesh", "ndim", 2)),
-- 
2.43.0


From e859f770175a10ff7a2426c132f1bef9648fa37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:07 +0000
Subject: [PATCH 49/49] fix: ghosts of octants of level 21 (keys of their
 suboctants overflow)

---
 core/src/amr/AMRmesh_hashmap_new.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/src/amr/AMRmesh_hashmap_new.cpp b/core/src/amr/AMRmesh_hashmap_new.cpp
index 19466e8..2fd9be6 100644
--- a/core/src/amr/AMRmesh_hashmap_new.cpp
+++ b/core/src/amr/AMRmesh_hashmap_new.cpp
@@ -400,7 +400,8 @@ AMRmesh_hashmap_new::GhostMap_t discover_ghosts(
         // TODO : get morton of last neighbor to filter even more
         morton_t morton_next = shift_level(morton_n, level-level_max) + 1;
                 morton_next = shift_level(morton_next, level_max-level);
-        if( level<level_max && morton_next < morton_intervals_device(neighbor_rank+1) )
+        // (no suboctants at level_max : they would not fit in morton keys when level_max is 21)
+        if( level>=level_max || morton_next < morton_intervals_device(neighbor_rank+1) )
         {// Neighbors are owned by only one MPI
           register_neighbor(neighbor_rank, neighbor_face);
         }
-- 
2.43.0

