From 5794da2d01da3bb46b38a157e9e276d5d9a7fd1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:28 +0000
Subject: [PATCH 01/11] fix: use row q of the Butcher tableau for stage q

The stage states were built from a[[p, q]], the transposed (strictly upper
triangular, hence zero) entries, so that every Runge-Kutta scheme degenerated
to a first order Euler step.
---
 src/time/rkf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/time/rkf.rs b/src/time/rkf.rs
index 5055d85..33f119e 100644
--- a/src/time/rkf.rs
+++ b/src/time/rkf.rs
@@ -163,7 +163,7 @@ impl<P: Physics<E, S> + 'static, const E: usize, const S: usize> RungeKuttaFehlb
             for p in 0..q {
                 // PERF: This was benchmarked against using a raw index loop; performance diffs
                 // were within the error margins
-                self.utilde.cent.cons -= &(dt_out * self.bt.a[[p, q]] * &self.k_bundle.index_axis(Axis(0), p));
+                self.utilde.cent.cons -= &(dt_out * self.bt.a[[q, p]] * &self.k_bundle.index_axis(Axis(0), p));
             }
             rhs.update(&mut self.utilde, mesh)
                 .context("Calling rhs.update while calculating k_bundle in RungeKuttaFehlberg::calc_rkf_solution")?;
-- 
2.43.0


From 3615d0fdacb5ed99b4e707e754cc84b6fcd21bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:28 +0000
Subject: [PATCH 02/11] fix: guard the VanLeer limiter with the smallest
 positive float

f64::MIN is -1.8e308, which made every limited slope vanish.
---
 src/rhs/numflux/kt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rhs/numflux/kt.rs b/src/rhs/numflux/kt.rs
index a39499b..1e180f3 100644
--- a/src/rhs/numflux/kt.rs
+++ b/src/rhs/numflux/kt.rs
@@ -256,7 +256,7 @@ impl<const E: usize, const S: usize> Kt<E, S> {
             LimiterMode::VanLeer => |a: f64, b: f64, _: f64, _: f64| {
                 let abs_a = a.abs();
                 let abs_b = b.abs();
-                (a * abs_b + b * abs_a) / (abs_a + abs_b + f64::MIN)
+                (a * abs_b + b * abs_a) / (abs_a + abs_b + f64::MIN_POSITIVE)
             },
         };
         for j in 0..E {
-- 
2.43.0


From 4c8341799d3fa59be7692a692a97f4d820a43e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:28 +0000
Subject: [PATCH 03/11] fix: convert SI lengths and masses to CGS

In SI mode the SI value was returned unchanged as if it was in CGS units.
---
 src/units.rs | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/units.rs b/src/units.rs
index 1c794d2..c5f971e 100644
--- a/src/units.rs
+++ b/src/units.rs
@@ -73,11 +73,7 @@ impl Units {
 
     /// Takes the argument representing a length, and converts it to CGS units
     pub fn convert_length_to_cgs(&self, input: f64) -> f64 {
-        let si_input = self.convert_length_to_si(input);
-        match self.mode {
-            UnitsMode::SI => si_input,
-            UnitsMode::CGS => si_input / LENGTH_CGS,
-        }
+        self.convert_length_to_si(input) / LENGTH_CGS
     }
 
     /// Takes the argument representing a time, and converts it to CGS units
@@ -91,11 +87,7 @@ impl Units {
 
     /// Takes the argument representing a mass, and converts it to CGS units
     pub fn convert_mass_to_cgs(&self, input: f64) -> f64 {
-        let si_input = self.convert_mass_to_si(input);
-        match self.mode {
-            UnitsMode::SI => si_input,
-            UnitsMode::CGS => si_input / MASS_CGS,
-        }
+        self.convert_mass_to_si(input) / MASS_CGS
     }
 }
 
-- 
2.43.0


From 419a41cef2cb253251785d12276f2cdb4d401c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:28 +0000
Subject: [PATCH 04/11] fix: truncate output files that are written from
 scratch

Files left over from an earlier run kept their tail when the new content was
shorter.
---
 src/writer/output.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/writer/output.rs b/src/writer/output.rs
index f32c762..d7ed573 100644
--- a/src/writer/output.rs
+++ b/src/writer/output.rs
@@ -184,6 +184,7 @@ impl Output {
                         let mut file = File::options()
                             .write(true)
                             .append(!self.first_output)
+                            .truncate(self.first_output)
                             .create(true)
                             .open(path)
                             .wrap_err_with(|| format!("Failed to open file: {}!", path.display()))?;
@@ -198,6 +199,7 @@ impl Output {
                         let mut file = File::options()
                             .write(true)
                             .append(false)
+                            .truncate(true)
                             .create(true)
                             .open(path)
                             .wrap_err_with(|| format!("Failed to open file: {}!", path.display()))?;
@@ -271,6 +273,7 @@ impl Output {
                     let mut file = File::options()
                         .write(true)
                         .append(false)
+                        .truncate(true)
                         .create(true)
                         .open(path)
                         .wrap_err_with(|| format!("Failed to open file: {}!", path.display()))?;
-- 
2.43.0


From 1c7e6369b0a597582794012adb423cd17a3899a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:45 +0000
Subject: [PATCH 05/11] fix: limit the CFL time step by the fastest wave in
 either direction

Only the largest eigen value entered; in flow towards decreasing xi the fastest
signal moves with the smallest eigen value, and the step exceeded the CFL limit.
---
 src/state.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/state.rs b/src/state.rs
index 3d3809e..58466e2 100644
--- a/src/state.rs
+++ b/src/state.rs
@@ -10,6 +10,7 @@ use crate::{
     boundaryconditions::BoundaryCondition, directions::Direction, errorhandling::Validation, Mesh, PhysicsConfig,
 };
 use color_eyre::Result;
+use ndarray::Array1;
 use std::marker::PhantomData;
 
 pub mod physics;
@@ -640,7 +641,9 @@ impl<P: Physics<E, S>, const E: usize, const S: usize> State<P, E, S> {
     /// * `c_cfl`: CFL safety parameter
     /// * `mesh`: The [Mesh] of the simulation
     pub fn calc_dt_cfl(&self, c_cfl: f64, mesh: &Mesh<S>) -> Result<f64> {
-        P::calc_dt_cfl(&self.cent.eigen_max(), c_cfl, mesh)
+        let (eigen_min, eigen_max) = (self.cent.eigen_min(), self.cent.eigen_max());
+        let eigen_abs = Array1::from_shape_fn(S, |i| f64::max(eigen_min[i].abs(), eigen_max[i].abs()));
+        P::calc_dt_cfl(&eigen_abs.view(), c_cfl, mesh)
     }
 }
 
-- 
2.43.0


From 5191381b4845fbebd5b462d5fcfd26039df0457e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:45 +0000
Subject: [PATCH 06/11] fix: validate the physics specific constraints of a
 State

Physics::validate (positive density and pressure) was never called.
---
 src/state.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/state.rs b/src/state.rs
index 58466e2..7bbd03b 100644
--- a/src/state.rs
+++ b/src/state.rs
@@ -650,6 +650,7 @@ impl<P: Physics<E, S>, const E: usize, const S: usize> State<P, E, S> {
 impl<P: Physics<E, S>, const E: usize, const S: usize> Validation for State<P, E, S> {
     fn validate(&self) -> Result<()> {
         self.cent.validate()?;
+        P::validate(&self.cent)?;
         Ok(())
     }
 }
-- 
2.43.0


From 8797b4acb172d5d49644bfc4da4faf0b009eb0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:23 +0000
Subject: [PATCH 07/11] fix: keep the time step when the asc error drops to
 zero

With err_new == 0 the PI controller evaluated ln(inf) and set dt to 0, so that
the step made no progress.
---
 src/time/rkf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/time/rkf.rs b/src/time/rkf.rs
index 33f119e..880876b 100644
--- a/src/time/rkf.rs
+++ b/src/time/rkf.rs
@@ -209,7 +209,7 @@ impl<P: Physics<E, S> + 'static, const E: usize, const S: usize> RungeKuttaFehlb
                 // PI-Controller step: Controlled increase or decrease of the time step based on the error of the
                 // previous try-out. If the error was also > 0 in the last try-out, reduce it further and save
                 // in dt_new. Otherwise, leave it as is and save in dt_new.
-                let mut dt_new = if self.err_old > 0.0 {
+                let mut dt_new = if self.err_old > 0.0 && self.err_new > 0.0 {
                     dt_temp * (-1.0 * self.asc_timestep_friction * (self.err_old / self.err_new).ln()).exp()
                 } else {
                     dt_temp
-- 
2.43.0


From e195552d219cc8534af152c49d3294bbaf8ecf70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:23 +0000
Subject: [PATCH 08/11] fix: stop with an error when asc shrinks the time step
 below dt_min

dt_min was only checked before the step control, which could go on reducing dt
to zero.
---
 src/time/rkf.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/time/rkf.rs b/src/time/rkf.rs
index 880876b..52a4f30 100644
--- a/src/time/rkf.rs
+++ b/src/time/rkf.rs
@@ -11,7 +11,7 @@ use crate::{
     TimeIntegrationConfig,
 };
 use color_eyre::{
-    eyre::{ensure, Context},
+    eyre::{bail, ensure, Context},
     Result,
 };
 use ndarray::{s, Array2, Array3, Axis, Zip};
@@ -116,6 +116,12 @@ impl<P: Physics<E, S> + 'static, const E: usize, const S: usize> TimeSolver<P, E
                 if self.err_new < 1.0 {
                     time.cap_dt();
                     self.solution_accepted = true;
+                } else if time.dt < time.dt_min {
+                    bail!(
+                        "Time step width dt dipped below dt_min! Got dt = {}, dt_min = {}",
+                        time.dt,
+                        time.dt_min
+                    );
                 }
                 self.n_asc += 1;
             }
-- 
2.43.0


From a694d2c5d2daf0d63f41701704aa76d64812490d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:23 +0000
Subject: [PATCH 09/11] fix: place the last output exactly at t_end

t_next_output accumulates rounding errors: when the last one came out below
t_end by more than 0.01 dt_min, the simulation went on past t_end by up to a
full time step; with output_counter_max = 0 no step was capped at t_end.
---
 src/components.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/components.rs b/src/components.rs
index c0dd7f7..b0eae58 100644
--- a/src/components.rs
+++ b/src/components.rs
@@ -73,6 +73,10 @@ where
         loop {
             if solver.timestep.t >= solver.timestep.t_next_output - solver.timestep.dt_min {
                 solver.timestep.t_next_output += solver.timestep.dt_output;
+                // the last output happens at t_end, regardless of how the sum above was rounded
+                if solver.timestep.t_end - solver.timestep.t_next_output < 0.5 * solver.timestep.dt_output {
+                    solver.timestep.t_next_output = solver.timestep.t_end;
+                }
                 writer
                     .update_data(&u.cent, &solver.timestep, mesh)
                     .context("Calling writer.update_data_matrices in run_corries")?;
-- 
2.43.0


From 1cf234aef20f715671e99f913708455a30eed964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:11 +0000
Subject: [PATCH 10/11] fix: write the output at t_end exactly once, and never
 run past it

---
 src/components.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/components.rs b/src/components.rs
index b0eae58..114d481 100644
--- a/src/components.rs
+++ b/src/components.rs
@@ -71,7 +71,12 @@ where
         // This is where I learned what the ref keyword is...
         let (ref mut u, ref mut solver, ref mesh, ref mut writer) = *self;
         loop {
-            if solver.timestep.t >= solver.timestep.t_next_output - solver.timestep.dt_min {
+            let is_finished = solver.timestep.t + solver.timestep.dt_min * 0.01 >= solver.timestep.t_end;
+            // the output at t_end waits until the run is finished, so that it is written exactly once
+            if is_finished
+                || (solver.timestep.t_next_output < solver.timestep.t_end
+                    && solver.timestep.t >= solver.timestep.t_next_output - solver.timestep.dt_min)
+            {
                 solver.timestep.t_next_output += solver.timestep.dt_output;
                 // the last output happens at t_end, regardless of how the sum above was rounded
                 if solver.timestep.t_end - solver.timestep.t_next_output < 0.5 * solver.timestep.dt_output {
@@ -85,7 +90,7 @@ where
                     .context("Calling wirter.write_output in run_corries")?;
             }
 
-            if solver.timestep.t + solver.timestep.dt_min * 0.01 >= solver.timestep.t_end {
+            if is_finished {
                 break;
             }
 
-- 
2.43.0


From b8c18643bdc9277c9c4f53d3605c8a87a408907b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:22 +0000
Subject: [PATCH 11/11] fix: outputs to stdout written in parallel no longer
 mix up their rows

---
 src/writer/output.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/writer/output.rs b/src/writer/output.rs
index d7ed573..e5d7113 100644
--- a/src/writer/output.rs
+++ b/src/writer/output.rs
@@ -209,7 +209,8 @@ impl Output {
                 };
             },
             StreamMode::Stdout => {
-                self.write_into_stream(&mut std::io::stdout())?;
+                // hold the lock for the whole output; otherwise, outputs written in parallel mix up their rows
+                self.write_into_stream(&mut std::io::stdout().lock())?;
             },
         };
         self.first_output = false;
-- 
2.43.0

