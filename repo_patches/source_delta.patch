From ff6872a46f8f67564f09ef38c1457992d271e1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:16 +0000
Subject: [PATCH 01/22] fix: let ranks without active cells take part in the
 deadlock check

check_some_initial_task_exists returned early on ranks which had no
active cells at the current level, while the other ranks waited for them
in all_gather_sum, so that any run with check_deadlock, several timestep
levels and a rank without cells at the current level hung.
---
 src/sweep/deadlock_detection.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/sweep/deadlock_detection.rs b/src/sweep/deadlock_detection.rs
index 7e5d856..486a6b1 100644
--- a/src/sweep/deadlock_detection.rs
+++ b/src/sweep/deadlock_detection.rs
@@ -84,10 +84,9 @@ impl<C: Chemistry> Sweep<C> {
     }
 
     fn check_some_initial_task_exists(&self) {
-        let num_to_solve = self.cells.enumerate_active(self.current_level).count();
-        if num_to_solve == 0 {
-            return;
-        }
+        // This is a collective operation, so ranks without any active
+        // cells need to take part in it too. At least one rank has
+        // active cells, since we would not sweep this level otherwise.
         let num_initial_tasks = self.to_solve.len();
         let mut ex = MpiWorld::new_custom_tag(DEADLOCK_DETECTION_TAG);
         let total: usize = ex.all_gather_sum(&num_initial_tasks);
-- 
2.43.0


From faf89b7b6bb0ffc395ac0c596ff293d46a1cebe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:53 +0000
Subject: [PATCH 02/22] fix: send rate corrections to inactive remote
 neighbours

Cells on the same rank receive the corrections of their active upwind
neighbours whether or not they are active themselves. Corrections for
inactive cells on other ranks were dropped, so that the result of a run
with several timestep levels depended on the domain decomposition.
---
 src/sweep/mod.rs | 54 ++++++++++++++++++++++++++++++++----------------
 1 file changed, 36 insertions(+), 18 deletions(-)

diff --git a/src/sweep/mod.rs b/src/sweep/mod.rs
index a66d17d..5608d44 100644
--- a/src/sweep/mod.rs
+++ b/src/sweep/mod.rs
@@ -383,6 +383,28 @@ impl<C: Chemistry> Sweep<C> {
             }
             self.sites.get_mut(id).num_missing_upwind = num_missing_upwind;
         }
+        // Inactive cells are not solved but still receive the rate
+        // corrections of their active remote neighbours.
+        for (_, level, cell) in self.cells.enumerate_with_levels() {
+            if level.is_active(self.current_level) {
+                continue;
+            }
+            for (face, neighbour) in cell.neighbours.iter() {
+                let (neighbour_id, rank) = match neighbour {
+                    ParticleType::Remote(neighbour) => (neighbour.id, neighbour.rank),
+                    ParticleType::RemotePeriodic(neighbour) => (neighbour.id, neighbour.rank),
+                    _ => continue,
+                };
+                if !self.is_active(neighbour_id) {
+                    continue;
+                }
+                self.to_receive_count[rank] += self
+                    .directions
+                    .enumerate()
+                    .filter(|(_, dir)| face.points_upwind(dir))
+                    .count();
+            }
+        }
     }
 
     fn get_initial_tasks(&self) -> PriorityQueue<Task> {
@@ -518,15 +540,13 @@ impl<C: Chemistry> Sweep<C> {
         rate_correction: Rate<C>,
         remote: &RemoteNeighbour,
     ) {
-        if self.is_active(remote.id) {
-            let rate_data = RateData {
-                dir: task.dir,
-                rate: rate_correction,
-                id: remote.id,
-                periodic: false,
-            };
-            self.to_send[remote.rank].push(rate_data);
-        }
+        let rate_data = RateData {
+            dir: task.dir,
+            rate: rate_correction,
+            id: remote.id,
+            periodic: false,
+        };
+        self.to_send[remote.rank].push(rate_data);
     }
 
     fn handle_remote_periodic_neighbour(
@@ -535,15 +555,13 @@ impl<C: Chemistry> Sweep<C> {
         rate_correction: Rate<C>,
         neighbour: &RemotePeriodicNeighbour,
     ) {
-        if self.is_active(neighbour.id) {
-            let rate_data = RateData {
-                dir: task.dir,
-                rate: rate_correction,
-                id: neighbour.id,
-                periodic: true,
-            };
-            self.to_send[neighbour.rank].push(rate_data);
-        }
+        let rate_data = RateData {
+            dir: task.dir,
+            rate: rate_correction,
+            id: neighbour.id,
+            periodic: true,
+        };
+        self.to_send[neighbour.rank].push(rate_data);
     }
 
     fn update_chemistry(&mut self, timers: &mut Performance) {
-- 
2.43.0


From 82c99e4d6f7ac1099f00668c1db26d2318a50aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:07 +0000
Subject: [PATCH 03/22] verif: re-export private items under
 cfg(subsweep_verif)

---
 src/io/mod.rs      |  6 ++++++
 src/lib.rs         | 22 ++++++++++++++++++++++
 src/sweep/mod.rs   |  8 ++++++++
 src/voronoi/mod.rs |  6 ++++++
 4 files changed, 42 insertions(+)

diff --git a/src/io/mod.rs b/src/io/mod.rs
index 32e35e1..f73f8d1 100644
--- a/src/io/mod.rs
+++ b/src/io/mod.rs
@@ -5,6 +5,12 @@ pub mod time_series;
 pub mod to_dataset;
 pub mod unit_reader;
 
+/// Private items for the verification harness.
+#[cfg(subsweep_verif)]
+pub mod verif {
+    pub use super::file_distribution::*;
+}
+
 use std::marker::PhantomData;
 
 use bevy_ecs::prelude::Resource;
diff --git a/src/lib.rs b/src/lib.rs
index c101dd2..aac5ede 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -51,6 +51,28 @@ mod named {
     pub use derive_traits::Named;
 }
 
+/// Private items for the verification harness.
+#[cfg(subsweep_verif)]
+pub mod verif {
+    pub mod extent {
+        pub use crate::extent::*;
+    }
+    pub mod parameter_plugin {
+        pub use crate::parameter_plugin::parameter_file_contents::*;
+        pub use crate::parameter_plugin::*;
+    }
+    pub mod peano_hilbert {
+        pub use crate::peano_hilbert::*;
+    }
+    pub mod quadtree {
+        pub use crate::quadtree::radius_search::*;
+        pub use crate::quadtree::*;
+    }
+    pub mod simulation_box {
+        pub use crate::simulation_box::*;
+    }
+}
+
 #[cfg(test)]
 pub(crate) mod test_examples;
 #[cfg(test)]
diff --git a/src/sweep/mod.rs b/src/sweep/mod.rs
index 5608d44..67402a5 100644
--- a/src/sweep/mod.rs
+++ b/src/sweep/mod.rs
@@ -14,6 +14,14 @@ mod time_series;
 pub mod timestep_level;
 mod timestep_state;
 
+/// Private items for the verification harness.
+#[cfg(subsweep_verif)]
+pub mod verif {
+    pub use super::count_by_dir::CountByDir;
+    pub use super::direction::Direction;
+    pub use super::direction::Directions;
+}
+
 use bevy_ecs::prelude::*;
 use derive_more::Into;
 use hdf5::H5Type;
diff --git a/src/voronoi/mod.rs b/src/voronoi/mod.rs
index 33a54e5..fad3877 100644
--- a/src/voronoi/mod.rs
+++ b/src/voronoi/mod.rs
@@ -10,6 +10,12 @@ pub mod triangulation_data;
 mod utils;
 pub mod visualizer;
 
+/// Private items for the verification harness.
+#[cfg(subsweep_verif)]
+pub mod verif {
+    pub use super::indexed_arena::*;
+}
+
 use bevy_ecs::prelude::Resource;
 pub use cell::Cell;
 pub use cell::DCell;
-- 
2.43.0


From a6a3fc6dae124b9880e0244ebccd6d3e5b12fab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:23 +0000
Subject: [PATCH 04/22] fix: let the last rank own keys beyond the last
 particle

---
 src/domain/decomposition.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/domain/decomposition.rs b/src/domain/decomposition.rs
index f389242..de9e8e0 100644
--- a/src/domain/decomposition.rs
+++ b/src/domain/decomposition.rs
@@ -91,10 +91,13 @@ impl<K: Key> Decomposition<K> {
     }
 
     pub fn get_owning_rank(&self, key: K) -> Rank {
+        // The last cut is the end of the particle distribution. Keys
+        // beyond it still belong to the last rank.
         self.cuts
             .binary_search(&key)
             .map(|x| x + 1)
-            .unwrap_or_else(|e| e) as i32
+            .unwrap_or_else(|e| e)
+            .min(self.num_ranks - 1) as i32
     }
 
     pub fn get_imbalance(&self) -> f64 {
-- 
2.43.0


From cbbb0a96ba5650b525caff9ca9c66d496b13aff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:13 +0000
Subject: [PATCH 05/22] fix: rescale points isotropically for the Delaunay
 predicates

---
 src/dimension.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dimension.rs b/src/dimension.rs
index 28d4ce3..c4f3cdd 100644
--- a/src/dimension.rs
+++ b/src/dimension.rs
@@ -43,7 +43,7 @@ impl Dimension for TwoD {
     type WrapType = PeriodicWrapType2d;
     fn remap_point(point: Point<Self>, extent: &Extent<Point<Self>>) -> Point<Self> {
         debug_assert!(extent.contains(&point));
-        MVec2::new(1.0, 1.0) + (point - extent.min) * (1.0 / extent.side_lengths())
+        MVec2::new(1.0, 1.0) + (point - extent.min) / extent.max_side_length()
     }
 }
 
@@ -55,7 +55,7 @@ impl Dimension for ThreeD {
     type WrapType = PeriodicWrapType3d;
     fn remap_point(point: Point<Self>, extent: &Extent<Point<Self>>) -> Point<Self> {
         debug_assert!(extent.contains(&point));
-        MVec3::new(1.0, 1.0, 1.0) + (point - extent.min) * (1.0 / extent.side_lengths())
+        MVec3::new(1.0, 1.0, 1.0) + (point - extent.min) / extent.max_side_length()
     }
 }
 
-- 
2.43.0


From d1b53e21421257a5c2d2ffd29e33cbd28cffa099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:06 +0000
Subject: [PATCH 06/22] verif: re-export geometric primitives under
 cfg(subsweep_verif)

---
 src/voronoi/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/voronoi/mod.rs b/src/voronoi/mod.rs
index fad3877..f099584 100644
--- a/src/voronoi/mod.rs
+++ b/src/voronoi/mod.rs
@@ -13,7 +13,11 @@ pub mod visualizer;
 /// Private items for the verification harness.
 #[cfg(subsweep_verif)]
 pub mod verif {
+    pub use super::delaunay::dimension::*;
     pub use super::indexed_arena::*;
+    pub mod primitives {
+        pub use super::super::primitives::*;
+    }
 }
 
 use bevy_ecs::prelude::Resource;
-- 
2.43.0


From dc7da824a30c5c228a3136495af75087dc2aa5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:25 +0000
Subject: [PATCH 07/22] verif: re-export performance and command line options

---
 src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index aac5ede..034ded2 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -54,6 +54,9 @@ mod named {
 /// Private items for the verification harness.
 #[cfg(subsweep_verif)]
 pub mod verif {
+    pub mod command_line_options {
+        pub use crate::command_line_options::*;
+    }
     pub mod extent {
         pub use crate::extent::*;
     }
@@ -68,6 +71,9 @@ pub mod verif {
         pub use crate::quadtree::radius_search::*;
         pub use crate::quadtree::*;
     }
+    pub mod performance {
+        pub use crate::performance::*;
+    }
     pub mod simulation_box {
         pub use crate::simulation_box::*;
     }
-- 
2.43.0


From ff745ccc2c73d3d1ff6b4e379783e213cc8aff6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:25 +0000
Subject: [PATCH 08/22] fix: read the files of an input directory in a defined
 order

---
 src/io/input/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/io/input/mod.rs b/src/io/input/mod.rs
index 3a49dca..d2b9669 100644
--- a/src/io/input/mod.rs
+++ b/src/io/input/mod.rs
@@ -73,7 +73,9 @@ pub fn get_file_or_all_hdf5_files_in_path_if_dir(path: &Path) -> Vec<PathBuf> {
     if path.is_file() {
         vec![path.to_owned()]
     } else {
-        fs::read_dir(path)
+        // The order of directory entries is unspecified, but all ranks
+        // (and all datasets) need to agree on the order of the files.
+        let mut files: Vec<_> = fs::read_dir(path)
             .unwrap_or_else(|e| {
                 panic!("Error: {e} while trying to read remap path {path:?} as directory")
             })
@@ -87,7 +89,9 @@ pub fn get_file_or_all_hdf5_files_in_path_if_dir(path: &Path) -> Vec<PathBuf> {
                     None
                 }
             })
-            .collect()
+            .collect();
+        files.sort();
+        files
     }
 }
 
-- 
2.43.0


From c6476deb4f628fb59ba90fbbcb32ceab3d3dcdb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:25 +0000
Subject: [PATCH 09/22] fix: write the scale factor and redshift of the time of
 the snapshot

---
 src/simulation_plugin/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/simulation_plugin/mod.rs b/src/simulation_plugin/mod.rs
index 2457343..40a924f 100644
--- a/src/simulation_plugin/mod.rs
+++ b/src/simulation_plugin/mod.rs
@@ -94,8 +94,8 @@ impl SubsweepPlugin for SimulationPlugin {
                 set_initial_cosmology_attributes_system,
             )
             .add_system_to_stage(
-                Stages::Initial,
-                set_cosmological_time_variables_system.before(show_time_system),
+                Stages::AfterSweep,
+                set_cosmological_time_variables_system,
             )
             .add_plugin(OutputPlugin::<Attribute<ScaleFactor>>::default())
             .add_plugin(OutputPlugin::<Attribute<Redshift>>::default())
-- 
2.43.0


From 707905d511c941bad7748fbfaac6508ff023d4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:53 +0000
Subject: [PATCH 10/22] fix: compute the photoionization rate for its time
 series even if it is not an output field

---
 src/sweep/mod.rs | 38 ++++++++++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/src/sweep/mod.rs b/src/sweep/mod.rs
index 67402a5..5348221 100644
--- a/src/sweep/mod.rs
+++ b/src/sweep/mod.rs
@@ -170,7 +170,13 @@ impl SubsweepPlugin for SweepPlugin {
         init_optional_chemistry_component::<HeatingRate>(sim);
         init_optional_chemistry_component::<RecombinationRate>(sim);
         init_optional_chemistry_component::<CollisionalIonizationRate>(sim);
-        init_optional_chemistry_component::<PhotoionizationRate>(sim);
+        if sim.write_output {
+            // Required by the time series, even if it is not an output field.
+            init_component::<PhotoionizationRate>(sim);
+            add_chemistry_component_system::<PhotoionizationRate>(sim);
+        } else {
+            init_optional_chemistry_component::<PhotoionizationRate>(sim);
+        }
         init_optional_component::<Timestep>(sim);
         init_optional_component::<IonizationTime>(sim);
     }
@@ -784,28 +790,40 @@ where
     }
     let is_desired = is_desired_field::<C>(sim);
     if is_desired {
-        sim.add_derived_component::<C>();
-        sim.add_startup_system_to_stage(
-            StartupStages::InsertDerivedComponents,
-            initialize_optional_component_system::<C>,
-        );
+        init_component::<C>(sim);
     }
     is_desired
 }
 
+fn init_component<C>(sim: &mut Simulation)
+where
+    C: Equivalence + ToDataset + H5Type + Clone + Component + Named + Default,
+    <C as Equivalence>::Out: MatchesRaw,
+{
+    sim.add_derived_component::<C>();
+    sim.add_startup_system_to_stage(
+        StartupStages::InsertDerivedComponents,
+        initialize_optional_component_system::<C>,
+    );
+}
+
 fn init_optional_chemistry_component<C>(sim: &mut Simulation)
 where
     C: Equivalence + ToDataset + H5Type + Clone + Component + Named + Default + ChemistryOutputType,
     <C as Equivalence>::Out: MatchesRaw,
 {
     if init_optional_component::<C>(sim) {
-        sim.add_system_to_stage(
-            Stages::Sweep,
-            sweep_optional_output_system::<C>.after(run_sweep_system),
-        );
+        add_chemistry_component_system::<C>(sim);
     }
 }
 
+fn add_chemistry_component_system<C: ChemistryOutputType + Component>(sim: &mut Simulation) {
+    sim.add_system_to_stage(
+        Stages::Sweep,
+        sweep_optional_output_system::<C>.after(run_sweep_system),
+    );
+}
+
 pub fn initialize_sweep_test_components_system(
     mut commands: Commands,
     local_particles: Query<Entity, With<LocalParticle>>,
-- 
2.43.0


From 9352a588aaad61b5cb7eff2860f49212fddce3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:07 +0000
Subject: [PATCH 11/22] fix: apply parameter overrides that follow an override
 of the entire section

---
 src/parameter_plugin/parameter_file_contents.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/parameter_plugin/parameter_file_contents.rs b/src/parameter_plugin/parameter_file_contents.rs
index d5ec2e0..9f07f5d 100644
--- a/src/parameter_plugin/parameter_file_contents.rs
+++ b/src/parameter_plugin/parameter_file_contents.rs
@@ -21,10 +21,9 @@ pub struct ParameterFileContents {
 
 fn insert_overrides(value: &mut Value, overrides: &[Override]) {
     for o in overrides.iter() {
-        // This value specifies the entire section. Return.
+        // This value specifies the entire section.
         if o.keys.is_empty() {
             *value = o.value.clone();
-            return;
         } else {
             insert_sublevel_override(value, o);
         }
-- 
2.43.0


From 6013cfd7cb5ad3375b2074f89053af302c72af52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:07 +0000
Subject: [PATCH 12/22] fix: refuse overrides that do not fit a missing
 parameter section

---
 src/parameter_plugin/parameter_file_contents.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/parameter_plugin/parameter_file_contents.rs b/src/parameter_plugin/parameter_file_contents.rs
index 9f07f5d..1285856 100644
--- a/src/parameter_plugin/parameter_file_contents.rs
+++ b/src/parameter_plugin/parameter_file_contents.rs
@@ -42,8 +42,15 @@ fn extract_from_default<T: SubsweepParameters>(overrides: &[Override]) -> T {
         insert_overrides(&mut value, overrides);
         value
     };
-    let values_to_try = [get_value(), Value::Null];
-    let results = values_to_try.map(|value| serde_yaml::from_value::<T>(value));
+    let mut values_to_try = vec![get_value()];
+    // Falling back to an empty section must not discard any overrides
+    if overrides.is_empty() {
+        values_to_try.push(Value::Null);
+    }
+    let results: Vec<_> = values_to_try
+        .into_iter()
+        .map(|value| serde_yaml::from_str::<T>(&serde_yaml::to_string(&value).unwrap()))
+        .collect();
     let errors = results
         .iter()
         .filter_map(|r| match r {
-- 
2.43.0


From 23c9825b27d0e0e78a978051268b51b997971822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:07 +0000
Subject: [PATCH 13/22] fix: refuse a parameter file that is not valid YAML
 instead of using defaults

---
 .../parameter_file_contents.rs                | 24 ++++++++++++-------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/parameter_plugin/parameter_file_contents.rs b/src/parameter_plugin/parameter_file_contents.rs
index 1285856..5730e82 100644
--- a/src/parameter_plugin/parameter_file_contents.rs
+++ b/src/parameter_plugin/parameter_file_contents.rs
@@ -124,15 +124,21 @@ fn set_sublevel_value_by_keys(value: &mut Value, keys: &[String], target_value:
 
 impl ParameterFileContents {
     pub fn new(contents: String) -> Self {
-        let sections = serde_yaml::from_str(&contents)
-            .map(|val: Value| {
-                val.as_mapping()
-                    .expect("Could not parse parameter file as mapping")
-                    .iter()
-                    .map(|(k, v)| (k.as_str().unwrap().to_owned(), v.clone()))
-                    .collect()
-            })
-            .unwrap_or_default();
+        let is_blank = contents
+            .lines()
+            .map(|line| line.trim())
+            .all(|line| line.is_empty() || line.starts_with('#'));
+        let sections = if is_blank {
+            HashMap::default()
+        } else {
+            serde_yaml::from_str::<Value>(&contents)
+                .unwrap_or_else(|e| panic!("Failed to parse parameter file: {e}"))
+                .as_mapping()
+                .expect("Could not parse parameter file as mapping")
+                .iter()
+                .map(|(k, v)| (k.as_str().unwrap().to_owned(), v.clone()))
+                .collect()
+        };
         Self {
             sections,
             overrides: vec![],
-- 
2.43.0


From 7b6901861069767362fa113bd87129567f614fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:07 +0000
Subject: [PATCH 14/22] fix: refuse parameter overrides for sections that do
 not exist

---
 src/parameter_plugin/parameter_file_contents.rs | 4 ++++
 src/simulation/mod.rs                           | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/src/parameter_plugin/parameter_file_contents.rs b/src/parameter_plugin/parameter_file_contents.rs
index 5730e82..0e89dd6 100644
--- a/src/parameter_plugin/parameter_file_contents.rs
+++ b/src/parameter_plugin/parameter_file_contents.rs
@@ -153,6 +153,10 @@ impl ParameterFileContents {
         self.sections.keys()
     }
 
+    pub fn get_override_section_names(&self) -> impl Iterator<Item = &String> {
+        self.overrides.iter().map(|o| &o.section)
+    }
+
     fn get_overrides_for_section(
         &self,
         section_name: String,
diff --git a/src/simulation/mod.rs b/src/simulation/mod.rs
index e7c72f1..fb8adf0 100644
--- a/src/simulation/mod.rs
+++ b/src/simulation/mod.rs
@@ -478,6 +478,11 @@ impl Simulation {
                 unused.push(param.to_owned());
             }
         }
+        for param in contents.get_override_section_names() {
+            if !self.parameter_sections.contains(param) && !unused.contains(param) {
+                unused.push(param.to_owned());
+            }
+        }
         // This will eventually be replaced by a allow_unused method on
         // the parameters trait, but that will probably require a proper
         // derive macro for the parameters trait.
-- 
2.43.0


From 8646e520673d94fad69221413a2eafbcb47a2e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:30 +0000
Subject: [PATCH 15/22] fix: refuse input whose datasets differ in length in a
 file even if the totals agree

Only the number of entries over all files was compared. If two datasets
are distributed differently over the files, entries of different
particles were combined into one.
---
 src/io/input/mod.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/io/input/mod.rs b/src/io/input/mod.rs
index d2b9669..1e4010e 100644
--- a/src/io/input/mod.rs
+++ b/src/io/input/mod.rs
@@ -213,12 +213,15 @@ impl Reader {
             .sum()
     }
 
-    fn get_assignment(&self, dataset_name: &str) -> RankAssignment {
-        let num_entries = self
-            .files
+    fn get_num_entries_per_file(&self, dataset_name: &str) -> Vec<usize> {
+        self.files
             .iter()
             .map(|f| self.get_num_entries(dataset_name, f))
-            .collect::<Vec<_>>();
+            .collect()
+    }
+
+    fn get_assignment(&self, dataset_name: &str) -> RankAssignment {
+        let num_entries = self.get_num_entries_per_file(dataset_name);
         get_rank_input_assignment_for_rank(&num_entries, self.num_ranks, self.rank)
     }
 
@@ -324,11 +327,14 @@ fn spawn_entities_system(
     }
     let (_, example_dataset) = &datasets.iter().next().unwrap();
     let num_entities = reader.get_num_entities(&example_dataset.name);
+    let num_entries_per_file = reader.get_num_entries_per_file(&example_dataset.name);
     for (_, dataset) in datasets.iter() {
-        let num_entities_this_dataset = reader.get_num_entities(&dataset.name);
-        if num_entities_this_dataset != num_entities {
+        // The lengths need to agree for each file: If only their sum
+        // does, entries of different particles would be combined.
+        let num_entries_this_dataset = reader.get_num_entries_per_file(&dataset.name);
+        if num_entries_this_dataset != num_entries_per_file {
             panic!(
-                "Different lengths of datasets: {} ({num_entities}) and {} ({num_entities_this_dataset})", &example_dataset.name, &dataset.name
+                "Different lengths of datasets: {} ({num_entries_per_file:?}) and {} ({num_entries_this_dataset:?})", &example_dataset.name, &dataset.name
             );
         }
     }
-- 
2.43.0


From f9bcfd9b44e904fa6a1060cf169297fbb21037d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:32 +0000
Subject: [PATCH 16/22] verif: expose the entry point of the program under
 cfg(subsweep_verif)

---
 src/main.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index 9661c8c..c19c959 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -142,6 +142,15 @@ fn main() {
         .run();
 }
 
+/// Entry points for the verification harness.
+#[cfg(subsweep_verif)]
+pub mod verif {
+    pub use super::arepo_postprocess::*;
+    pub fn main() {
+        super::main()
+    }
+}
+
 #[derive(H5Type, Component, Debug, Clone, Equivalence, Deref, DerefMut, From, Default, Named)]
 #[name = "internal_energy"]
 #[repr(transparent)]
-- 
2.43.0


From e0f191d8bab61eaa7fbd532328ae52386bbc56b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:40 +0000
Subject: [PATCH 17/22] fix: remap if some ranks have no particles of the
 earlier run

---
 src/arepo_postprocess/remap.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/arepo_postprocess/remap.rs b/src/arepo_postprocess/remap.rs
index d116d48..be140da 100644
--- a/src/arepo_postprocess/remap.rs
+++ b/src/arepo_postprocess/remap.rs
@@ -34,6 +34,7 @@ use subsweep::prelude::Extent;
 use subsweep::prelude::Float;
 use subsweep::prelude::Particles;
 use subsweep::prelude::SimulationBox;
+use subsweep::units;
 use subsweep::units::Dimension;
 use subsweep::units::Dimensionless;
 use subsweep::units::Length;
@@ -234,8 +235,9 @@ impl<'a, 'w, 's> Remapper<'a, 'w, 's> {
     ) -> DataByRank<Vec<Identified<SearchRequest>>> {
         let mut outgoing: DataByRank<Vec<Identified<SearchRequest>>> =
             DataByRank::from_communicator(&self.comm1);
-        for rank in self.comm1.other_ranks() {
-            let extent = &self.extents[rank];
+        let this_rank = self.comm1.rank();
+        // Ranks without any remap data do not have an extent.
+        for (rank, extent) in self.extents.iter().filter(|(rank, _)| *rank != this_rank) {
             for request in chunk.iter() {
                 let local_squared_distance =
                     local_map.get(&request.entity()).unwrap().squared_distance;
@@ -264,6 +266,16 @@ impl<'a, 'w, 's> Remapper<'a, 'w, 's> {
     }
 
     fn get_reply(&self, request: &SearchRequest) -> SearchReply {
+        if self.data.is_empty() {
+            // Any particle on another rank is closer.
+            return SearchReply {
+                squared_distance: f64::INFINITY,
+                data: RemapData {
+                    temperature: Temperature(units::Temperature::zero()),
+                    ionized_hydrogen_fraction: IonizedHydrogenFraction(Dimensionless::zero()),
+                },
+            };
+        }
         let tree_coord = pos_to_tree_coord(&request.pos);
         let (squared_distance, index) = self.tree.nearest_one(&tree_coord, &squared_euclidean);
         SearchReply {
-- 
2.43.0


From 1609c52ccdb1e1fe329b2be68483bc100c173d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:26 +0000
Subject: [PATCH 18/22] verif: small chunk sizes under cfg(subsweep_verif)

---
 src/arepo_postprocess/read_grid/id_cache.rs | 3 +++
 src/arepo_postprocess/read_grid/mod.rs      | 3 +++
 src/arepo_postprocess/remap.rs              | 3 +++
 src/voronoi/constructor/halo_iteration.rs   | 3 +++
 4 files changed, 12 insertions(+)

diff --git a/src/arepo_postprocess/read_grid/id_cache.rs b/src/arepo_postprocess/read_grid/id_cache.rs
index cd4faf3..e198023 100644
--- a/src/arepo_postprocess/read_grid/id_cache.rs
+++ b/src/arepo_postprocess/read_grid/id_cache.rs
@@ -9,7 +9,10 @@ use subsweep::prelude::ParticleId;
 
 use super::UniqueParticleId;
 
+#[cfg(not(subsweep_verif))]
 const CHUNK_SIZE: usize = 10000;
+#[cfg(subsweep_verif)]
+const CHUNK_SIZE: usize = 5;
 
 #[derive(Equivalence, Clone, Debug, PartialEq, Eq, Hash)]
 struct IdLookupRequest {
diff --git a/src/arepo_postprocess/read_grid/mod.rs b/src/arepo_postprocess/read_grid/mod.rs
index c1e8fe1..6096f50 100644
--- a/src/arepo_postprocess/read_grid/mod.rs
+++ b/src/arepo_postprocess/read_grid/mod.rs
@@ -54,7 +54,10 @@ use super::unit_reader::ArepoUnitReader;
 use super::Parameters;
 use crate::arepo_postprocess::GridParameters;
 
+#[cfg(not(subsweep_verif))]
 const CHUNK_SIZE: usize = 1000000;
+#[cfg(subsweep_verif)]
+const CHUNK_SIZE: usize = 20;
 
 #[derive(Named)]
 pub struct ReadSweepGridPlugin;
diff --git a/src/arepo_postprocess/remap.rs b/src/arepo_postprocess/remap.rs
index be140da..4c96f48 100644
--- a/src/arepo_postprocess/remap.rs
+++ b/src/arepo_postprocess/remap.rs
@@ -45,7 +45,10 @@ use super::Parameters;
 
 type Tree = KdTree<Float, 3>;
 
+#[cfg(not(subsweep_verif))]
 const CHUNK_SIZE: usize = 1000000;
+#[cfg(subsweep_verif)]
+const CHUNK_SIZE: usize = 7;
 
 #[derive(Equivalence, Clone, Debug)]
 struct SearchRequest {
diff --git a/src/voronoi/constructor/halo_iteration.rs b/src/voronoi/constructor/halo_iteration.rs
index 65aea7e..491300b 100644
--- a/src/voronoi/constructor/halo_iteration.rs
+++ b/src/voronoi/constructor/halo_iteration.rs
@@ -40,7 +40,10 @@ const SEARCH_RADIUS_INCREASE_FACTOR: f64 = 1.6;
 /// "cartesian" cell size of side_length / num_particles_per_dimension
 const INITIAL_SEARCH_RADIUS_GUESS_FACTOR: f64 = 1.5;
 
+#[cfg(not(subsweep_verif))]
 const SEARCH_CHUNK_SIZE: usize = 50000;
+#[cfg(subsweep_verif)]
+const SEARCH_CHUNK_SIZE: usize = 40;
 
 pub fn get_characteristic_length<D: Dimension>(max_side_length: f64, num_particles: usize) -> f64 {
     let num_particles_per_dim = (num_particles as f64).powf(1.0 / D::NUM as f64);
-- 
2.43.0


From 747abc7acc8a8cebe6e1fe6a56710baaa50f73b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:31:48 +0000
Subject: [PATCH 19/22] verif: re-export the chemistry of one cell under
 cfg(subsweep_verif)

---
 src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 034ded2..d22104e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -54,6 +54,11 @@ mod named {
 /// Private items for the verification harness.
 #[cfg(subsweep_verif)]
 pub mod verif {
+    pub mod chemistry {
+        pub use crate::chemistry::hydrogen_only::*;
+        pub use crate::chemistry::*;
+        pub use crate::sweep::site::Site;
+    }
     pub mod command_line_options {
         pub use crate::command_line_options::*;
     }
-- 
2.43.0


From 322b00bd053b87965c84b0cbbdb7233e8c191c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:06 +0000
Subject: [PATCH 20/22] fix: number of cells of the regular grid when the
 division rounds down

The number of cells along an axis was the floor of box size over cell
size, so that a box of three cells of 0.7 (3 * 0.7 / 0.7 < 3) got two.
---
 src/sweep/grid/cartesian.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/sweep/grid/cartesian.rs b/src/sweep/grid/cartesian.rs
index 29b93d4..1257fbb 100644
--- a/src/sweep/grid/cartesian.rs
+++ b/src/sweep/grid/cartesian.rs
@@ -143,16 +143,16 @@ impl IntegerPosition {
         #[cfg(feature = "2d")]
         {
             Self {
-                x: float.x.floor() as i32,
-                y: float.y.floor() as i32,
+                x: float.x.round() as i32,
+                y: float.y.round() as i32,
             }
         }
         #[cfg(not(feature = "2d"))]
         {
             Self {
-                x: float.x.floor() as i32,
-                y: float.y.floor() as i32,
-                z: float.z.floor() as i32,
+                x: float.x.round() as i32,
+                y: float.y.round() as i32,
+                z: float.z.round() as i32,
             }
         }
     }
-- 
2.43.0


From 928d2a31b8cd09335f6ad0fbcf6004cfbc887f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:17 +0000
Subject: [PATCH 21/22] fix: exact in-sphere test of tetrahedra

The exact fallback squared the coordinates in double precision before
lifting them, so its sign was wrong in exactly the cases it exists for.
---
 src/voronoi/primitives/tetrahedron.rs | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/src/voronoi/primitives/tetrahedron.rs b/src/voronoi/primitives/tetrahedron.rs
index 3c8588d..5fa1c37 100644
--- a/src/voronoi/primitives/tetrahedron.rs
+++ b/src/voronoi/primitives/tetrahedron.rs
@@ -23,7 +23,6 @@ use crate::voronoi::math::precision_types::TETRAHEDRON_POINTS_ON_SAME_SIDE_EPSIL
 use crate::voronoi::math::traits::Cross3d;
 use crate::voronoi::math::utils::determinant4x4;
 use crate::voronoi::math::utils::determinant5x5;
-use crate::voronoi::math::utils::lift_matrix;
 use crate::voronoi::math::utils::solve_3x4_system_of_equations_error;
 use crate::voronoi::math::utils::Sign;
 use crate::voronoi::PointIndex;
@@ -197,23 +196,17 @@ impl DTetraData for TetrahedronData {
 
     fn circumcircle_contains(&self, point: Point3d) -> bool {
         self.circumcircle_contains_float(point).unwrap_or_else(|_| {
-            let a = self.p1;
-            let b = self.p2;
-            let c = self.p3;
-            let d = self.p4;
-            let e = point;
-            let matrix = [
-                [1.0, a.x, a.y, a.z, a.x.powi(2) + a.y.powi(2) + a.z.powi(2)],
-                [1.0, b.x, b.y, b.z, b.x.powi(2) + b.y.powi(2) + b.z.powi(2)],
-                [1.0, c.x, c.y, c.z, c.x.powi(2) + c.y.powi(2) + c.z.powi(2)],
-                [1.0, d.x, d.y, d.z, d.x.powi(2) + d.y.powi(2) + d.z.powi(2)],
-                [1.0, e.x, e.y, e.z, e.x.powi(2) + e.y.powi(2) + e.z.powi(2)],
-            ];
-            Sign::of(determinant5x5(lift_matrix(matrix)))
+            let row = |p: Point3d| {
+                let p = PrecisionPoint3d::new(p);
+                let squared = p.x.pow(2) + p.y.pow(2) + p.z.pow(2);
+                [PrecisionFloat::one(), p.x, p.y, p.z, squared]
+            };
+            let matrix = [self.p1, self.p2, self.p3, self.p4, point].map(row);
+            Sign::of(determinant5x5(matrix))
                 .panic_if_zero(|| {
                     format!(
                         "Degenerate case in circumcircle test of tetrahedron: {:?}. {:?}",
-                        self, matrix
+                        self, point
                     )
                 })
                 .is_negative()
-- 
2.43.0


From d54672f789d38940880cbe0a671dad9eef77dbf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:04:36 +0000
Subject: [PATCH 22/22] fix: ranks without cells on the regular grid

The rank of a cell was computed in floating point, so that with one layer
of cells for each rank one of them could end up on the rank before its own
and the sweep failed on the rank left without any.
---
 src/sweep/grid/cartesian.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/sweep/grid/cartesian.rs b/src/sweep/grid/cartesian.rs
index 1257fbb..268d347 100644
--- a/src/sweep/grid/cartesian.rs
+++ b/src/sweep/grid/cartesian.rs
@@ -402,12 +402,13 @@ pub fn init_cartesian_grid_system(
     world_rank: Res<WorldRank>,
     periodic: bool,
 ) {
-    let cloned_box_size = box_size.clone();
+    let num_cells_x = cell_size.num_cells(&box_size).x as usize;
+    let cell_length = cell_size.cell_size();
     let cloned_world_size = *world_size;
+    // Integer arithmetic, so that rounding cannot leave a rank without cells.
     let rank_function = move |pos: VecLength| {
-        ((pos.x() / cloned_box_size.side_lengths().x()) * cloned_world_size.0 as f64)
-            .floor()
-            .round() as Rank
+        let index = (pos.x() / cell_length).round() as usize;
+        (index * cloned_world_size.0 / num_cells_x) as Rank
     };
     GridConstructor::construct(
         commands,
-- 
2.43.0

