From 345310369d068194f60137d92d5e66b045a7b56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:53 +0000
Subject: [PATCH 1/5] fix: wait for every pending request when the sweep
 communicator is dropped

---
 src/sweep/communicator.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/sweep/communicator.rs b/src/sweep/communicator.rs
index 500fe4f..606563b 100644
--- a/src/sweep/communicator.rs
+++ b/src/sweep/communicator.rs
@@ -118,7 +118,6 @@ impl<C: Chemistry> Drop for SweepCommunicator<C> {
         for (rank, request) in self.requests.iter() {
             if let Some(request) = request {
                 self.wait_for_request(rank, *request);
-                return;
             }
         }
     }
-- 
2.43.0


From 9291ebb405ef2916463f3fb6670267080f6b8cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:53 +0000
Subject: [PATCH 2/5] fix: keep the contributions of all directions when
 remapping rates

---
 src/sweep/direction/mod.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/sweep/direction/mod.rs b/src/sweep/direction/mod.rs
index 6b9dfd6..96b57e4 100644
--- a/src/sweep/direction/mod.rs
+++ b/src/sweep/direction/mod.rs
@@ -197,10 +197,8 @@ fn remap(
         .map(|i| kernel_f(&old_dirs[i], &new_dirs))
         .collect::<Vec<_>>();
     let old_values = values.iter().cloned().collect::<Vec<_>>();
-    for i in 0..num_dirs {
-        for j in 0..num_dirs {
-            values[i] = old_values[j] * kernel[i][j];
-        }
+    for j in 0..num_dirs {
+        values[j] = (0..num_dirs).map(|i| old_values[i] * kernel[i][j]).sum();
     }
 }
 
-- 
2.43.0


From aef8961e63b79498a753afe1ab6466bd55874eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:53 +0000
Subject: [PATCH 3/5] fix: take part in the collective sum on ranks without
 active cells

---
 src/sweep/deadlock_detection.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sweep/deadlock_detection.rs b/src/sweep/deadlock_detection.rs
index 7e5d856..4e72a59 100644
--- a/src/sweep/deadlock_detection.rs
+++ b/src/sweep/deadlock_detection.rs
@@ -85,12 +85,12 @@ impl<C: Chemistry> Sweep<C> {
 
     fn check_some_initial_task_exists(&self) {
         let num_to_solve = self.cells.enumerate_active(self.current_level).count();
-        if num_to_solve == 0 {
-            return;
-        }
         let num_initial_tasks = self.to_solve.len();
         let mut ex = MpiWorld::new_custom_tag(DEADLOCK_DETECTION_TAG);
         let total: usize = ex.all_gather_sum(&num_initial_tasks);
+        if num_to_solve == 0 {
+            return;
+        }
         assert!(
             total > 0,
             "No rank has an initial task. Wrong boundary setup?"
-- 
2.43.0


From 95b6a74a3d6da96b78e0b962ae927867c4524f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:53 +0000
Subject: [PATCH 4/5] fix: correct the value of the Rydberg energy

---
 src/units/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/units/mod.rs b/src/units/mod.rs
index 6d86b6c..980838e 100644
--- a/src/units/mod.rs
+++ b/src/units/mod.rs
@@ -105,7 +105,7 @@ unit_system!(
         constant NUMBER_WEIGHTED_AVERAGE_CROSS_SECTION = 2.9580524545305314e-18 * centimeters_squared,
         constant ENERGY_WEIGHTED_AVERAGE_CROSS_SECTION = 2.7352520425024469e-18 * centimeters_squared,
         constant PHOTON_AVERAGE_ENERGY = 18.028356312818811 * electron_volts,
-        constant RYDBERG_CONSTANT = 13.65693 * electron_volts,
+        constant RYDBERG_CONSTANT = 13.605693 * electron_volts,
     ]
 );
 
-- 
2.43.0


From 372245522068227c2fcaf7bfeee0c8f35a49c8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:53 +0000
Subject: [PATCH 5/5] fix: read the cosmological exponents of a dataset's
 dimension

---
 src/io/unit_reader.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/io/unit_reader.rs b/src/io/unit_reader.rs
index 752c27e..dafade3 100644
--- a/src/io/unit_reader.rs
+++ b/src/io/unit_reader.rs
@@ -1,5 +1,7 @@
 use hdf5::Dataset;
 
+use super::output::A_SCALING_IDENTIFIER;
+use super::output::H_SCALING_IDENTIFIER;
 use super::output::LENGTH_IDENTIFIER;
 use super::output::MASS_IDENTIFIER;
 use super::output::SCALE_FACTOR_IDENTIFIER;
@@ -49,8 +51,14 @@ impl UnitReader for DefaultUnitReader {
         let length: i32 = read_attr(LENGTH_IDENTIFIER, "No length scale factor in dataset");
         let mass: i32 = read_attr(MASS_IDENTIFIER, "No mass scale factor in dataset");
         let time: i32 = read_attr(TIME_IDENTIFIER, "No time scale factor in dataset");
-        let h = 0;
-        let a = 0;
+        // Files that were not written by subsweep do not necessarily contain these.
+        let read_optional_attr = |ident| {
+            set.attr(ident)
+                .map(|attr| attr.read_scalar().unwrap())
+                .unwrap_or(0)
+        };
+        let h: i32 = read_optional_attr(H_SCALING_IDENTIFIER);
+        let a: i32 = read_optional_attr(A_SCALING_IDENTIFIER);
         let temperature: i32 = read_attr(
             TEMPERATURE_IDENTIFIER,
             "No temperature scale factor in dataset",
-- 
2.43.0

