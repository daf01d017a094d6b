From ed9b5c7a010a541ead028612c28b91279ae19eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:07 +0000
Subject: [PATCH 01/12] fix: use the transformation matrices as they are

The iterative extraction of a rotation stalls for rotations by exactly 180
degrees and silently returned a wrong rotation (e.g. launch at latitude -25,
longitude 90, azimuth 155).
---
 sim/src/transformations.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sim/src/transformations.rs b/sim/src/transformations.rs
index a0c438d..8cff43d 100644
--- a/sim/src/transformations.rs
+++ b/sim/src/transformations.rs
@@ -11,7 +11,7 @@ use nalgebra::{matrix, Rotation3};
 ///
 /// Uses the geocentric latitude, longitude and azimuth in rad.
 pub fn inertial_to_launch(lat: f64, long: f64, az: f64) -> Rotation3<f64> {
-    Rotation3::from_matrix(&matrix![
+    Rotation3::from_matrix_unchecked(matrix![
                                        lat.cos()*long.cos(),                                lat.cos()*long.sin(),           lat.sin();
         lat.sin()*long.cos()*az.sin() - az.cos()*long.sin(), az.cos()*long.cos() + az.sin()*lat.sin()*long.sin(), -az.sin()*lat.cos();
        -az.sin()*long.sin() - az.cos()*lat.sin()*long.cos(), az.sin()*long.cos() - az.cos()*lat.sin()*long.sin(),  az.cos()*lat.cos()
@@ -22,7 +22,7 @@ pub fn inertial_to_launch(lat: f64, long: f64, az: f64) -> Rotation3<f64> {
 ///
 /// Uses the roll, yaw and pitch angles in rad.
 pub fn launch_to_body(roll: f64, yaw: f64, pitch: f64) -> Rotation3<f64> {
-    Rotation3::from_matrix(&matrix![
+    Rotation3::from_matrix_unchecked(matrix![
         yaw.cos()*pitch.cos(), roll.cos()*yaw.sin()*pitch.cos() + roll.sin()*pitch.sin(), roll.sin()*yaw.sin()*pitch.cos() - roll.cos()*pitch.sin();
                    -yaw.sin(),                                      roll.cos()*yaw.cos(),                                      roll.sin()*yaw.cos();
         yaw.cos()*pitch.sin(), roll.cos()*yaw.sin()*pitch.sin() - roll.sin()*pitch.cos(), roll.sin()*yaw.sin()*pitch.sin() + roll.cos()*pitch.cos()
@@ -46,7 +46,7 @@ pub fn inertial_to_body(launch: [f64; 3], euler_angles: [f64; 3]) -> Rotation3<f
 /// Uses the current simulation time in sec and the planet's rotation rate in
 /// rad/sec.
 pub fn inertial_to_planet(time: f64, rotation_rate: f64) -> Rotation3<f64> {
-    Rotation3::from_matrix(&matrix![
+    Rotation3::from_matrix_unchecked(matrix![
         (rotation_rate*time).cos(), (rotation_rate*time).sin(), 0.;
        -(rotation_rate*time).sin(), (rotation_rate*time).cos(), 0.;
                                 0.,                         0., 1.
-- 
2.43.0


From 1cc58def14c04070e3af745edb66ba0249f229e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:08 +0000
Subject: [PATCH 02/12] fix: keep the configured step size when a phase is
 reset

Phase::reset restored the default step size of 1 s, so the configured
"stepsize" never had any effect.
---
 sim/src/phase.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sim/src/phase.rs b/sim/src/phase.rs
index 964e3c5..2de045f 100644
--- a/sim/src/phase.rs
+++ b/sim/src/phase.rs
@@ -274,6 +274,7 @@ impl Phase {
         }
         if let Some(config) = config.stepsize {
             phase.stepsize = config;
+            phase.base_stepsize = config;
         }
         if let Some(config) = config.end_criterion {
             phase.end_criterion = config;
-- 
2.43.0


From 2a2f77b6c6fce49d727e8d4c5df678ae0519509d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:09 +0000
Subject: [PATCH 03/12] fix: convert geodetic to geocentric latitude on oblate
 planets

k is already the squared ratio of the equatorial and polar radius, and the
geocentric latitude is closer to the equator than the geodetic one.
---
 sim/src/phase.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sim/src/phase.rs b/sim/src/phase.rs
index 2de045f..285fbc3 100644
--- a/sim/src/phase.rs
+++ b/sim/src/phase.rs
@@ -318,7 +318,7 @@ impl Phase {
 
         let k = (self.planet.equatorial_radius / self.planet.polar_radius).powi(2);
 
-        let geocentric_lat = f64::atan(k.powi(2) * lat.tan());
+        let geocentric_lat = f64::atan(lat.tan() / k);
 
         self.launch = [geocentric_lat, long, az];
 
-- 
2.43.0


From 24a343904d39f058641e66c3c66fbf45e46950ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:09 +0000
Subject: [PATCH 04/12] fix: start the vehicle at the configured initial
 altitude

The "altitude" of the init configuration was never read.
---
 sim/src/phase.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sim/src/phase.rs b/sim/src/phase.rs
index 285fbc3..6b88cb5 100644
--- a/sim/src/phase.rs
+++ b/sim/src/phase.rs
@@ -325,7 +325,7 @@ impl Phase {
         let distance_to_surface =
             self.planet.equatorial_radius / f64::sqrt(1. + (k - 1.) * geocentric_lat.sin().powi(2));
 
-        self.state.position = distance_to_surface
+        self.state.position = (distance_to_surface + config.altitude)
             * vector![
                 geocentric_lat.cos() * long.cos(),
                 geocentric_lat.cos() * long.sin(),
-- 
2.43.0


From ed77585de2d1521675e9bfa118d7799df58d263f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:26 +0000
Subject: [PATCH 05/12] fix: angle-of-attack for air flow from behind or
 straight from above

The angle was 0 for every air flow with a negative x and z component in the
body frame and 90 degrees for every other flow with a negative x component, so
e.g. drag accelerated a vehicle which was flying backwards.
---
 sim/src/vehicle.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/sim/src/vehicle.rs b/sim/src/vehicle.rs
index f3339b0..2b934bc 100644
--- a/sim/src/vehicle.rs
+++ b/sim/src/vehicle.rs
@@ -101,14 +101,11 @@ impl Vehicle {
     /// Calculates the angle-of-attack. `velocity` should be the velocity with
     /// respect to the atmosphere in body frame.
     pub fn alpha(velocity: Vector3<f64>) -> f64 {
-        if velocity.x < NEARLY_ZERO {
-            if velocity.z < NEARLY_ZERO {
-                return 0.;
-            }
-            return velocity.z.signum() * PI / 2.;
+        if velocity.x.abs() < NEARLY_ZERO && velocity.z.abs() < NEARLY_ZERO {
+            return 0.;
         }
 
-        f64::atan(velocity.z / velocity.x)
+        f64::atan2(velocity.z, velocity.x)
     }
 
     /// Calculates the thrust force of the vehicle at the current throttle
-- 
2.43.0


From 636471487cc4bcc572759df41a4f31db474624b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:27 +0000
Subject: [PATCH 06/12] fix: a missing lift or drag table no longer removes the
 other force

The NAN of the empty table spread to both force components, which were then
set to zero together.
---
 sim/src/vehicle.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sim/src/vehicle.rs b/sim/src/vehicle.rs
index 2b934bc..9dc2b1b 100644
--- a/sim/src/vehicle.rs
+++ b/sim/src/vehicle.rs
@@ -175,9 +175,12 @@ impl Vehicle {
     /// coefficients are calculated with tables, which can take any state
     /// variable as input.
     pub fn aero_force(&self, state: &State) -> Vector3<f64> {
-        let cd = self.drag_coeff.at_state(state);
-        let cl = self.lift_coeff.at_state(state);
-        let cy = self.side_force_coeff.at_state(state);
+        // Tables without data evaluate to NAN, their coefficient is zero
+        let or_zero = |coeff: f64| if coeff.is_nan() { 0. } else { coeff };
+
+        let cd = or_zero(self.drag_coeff.at_state(state));
+        let cl = or_zero(self.lift_coeff.at_state(state));
+        let cy = or_zero(self.side_force_coeff.at_state(state));
 
         let ca = state.alpha.cos() * cd - state.alpha.sin() * cl;
         let cn = state.alpha.sin() * cd + state.alpha.cos() * cl;
-- 
2.43.0


From 5899e56bee1afb3a3872cbaad97caf360f0a2d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:32 +0000
Subject: [PATCH 07/12] fix: only end a phase when its target value is actually
 passed

A step was also treated as overshot when the variable moved away from a target
it had not reached, or had passed long ago. The simulation then integrated
backwards in time until the target value was found in the past.
---
 sim/src/phase.rs | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/sim/src/phase.rs b/sim/src/phase.rs
index 6b88cb5..09103be 100644
--- a/sim/src/phase.rs
+++ b/sim/src/phase.rs
@@ -140,17 +140,14 @@ impl Phase {
 
     /// Checks whether the target value was overshot
     ///
-    /// It checks whether the value is increasing or decreasing over the last
-    /// time step and then checks whether the current value is above or below
-    /// the target value.
+    /// This is the case if the target value lies between the values before and
+    /// after the last time step. If the value was already (nearly) reached
+    /// before the time step, every change overshoots the target value.
     fn event_is_active(&self, old_state: &State, new_state: &State) -> bool {
-        if self.end_criterion.0.get_value(new_state) < self.end_criterion.0.get_value(old_state) {
-            // Function is going down, so check if function < target
-            self.end_criterion.0.get_value(new_state) < self.end_criterion.1
-        } else {
-            // Function is going up, check if function > target
-            self.end_criterion.0.get_value(new_state) > self.end_criterion.1
-        }
+        let y_t = self.end_criterion.0.get_value(old_state) - self.end_criterion.1;
+        let y_t_1 = self.end_criterion.0.get_value(new_state) - self.end_criterion.1;
+
+        y_t.abs() < 1e-3 || y_t * y_t_1 < 0.
     }
 
     /// Does one integration step.
@@ -182,7 +179,7 @@ impl Phase {
                 panic!("Could not find zero crossing of event")
             }
 
-            self.stepsize = self.time_to_go(&self.state, &state);
+            self.stepsize = self.time_to_go(&self.state, &state).max(0.);
             self.end_criterion_tries += 1;
         } else {
             // Normal step, still more steps to go.
-- 
2.43.0


From d18643d021267352c2e496764f6f813ae15d7d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:02 +0000
Subject: [PATCH 08/12] fix: base altitude of the 118 km layer of the standard
 atmosphere

The layer started 10000 ft too high, so that the temperature dropped by 31 K
and the pressure jumped by 24 % at its base.
---
 sim/src/atmosphere/standard_atmosphere_1962.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sim/src/atmosphere/standard_atmosphere_1962.rs b/sim/src/atmosphere/standard_atmosphere_1962.rs
index f772d72..4e53e48 100644
--- a/sim/src/atmosphere/standard_atmosphere_1962.rs
+++ b/sim/src/atmosphere/standard_atmosphere_1962.rs
@@ -143,7 +143,7 @@ const STD_ATMOS_TABLE: [(f64, f64, f64, f64); 22] = [
         0.56867005e-2 * KELVIN_PER_RANKIN / METER_PER_FOOT,
     ),
     (
-        396_406.39 * METER_PER_FOOT,
+        386_406.39 * METER_PER_FOOT,
         0.52676024e-4 * PASCAL_PER_PSF,
         649.17 * KELVIN_PER_RANKIN,
         0.11443751e-1 * KELVIN_PER_RANKIN / METER_PER_FOOT,
-- 
2.43.0


From ef3625fd886c464578fd6e01cf8c36516a989310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:03 +0000
Subject: [PATCH 09/12] fix: base pressure of the 147 km layer of the standard
 atmosphere

The pressure jumped by 0.2 % at the base of the layer and again at its top.
---
 sim/src/atmosphere/standard_atmosphere_1962.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sim/src/atmosphere/standard_atmosphere_1962.rs b/sim/src/atmosphere/standard_atmosphere_1962.rs
index 4e53e48..6ab0719 100644
--- a/sim/src/atmosphere/standard_atmosphere_1962.rs
+++ b/sim/src/atmosphere/standard_atmosphere_1962.rs
@@ -150,7 +150,7 @@ const STD_ATMOS_TABLE: [(f64, f64, f64, f64); 22] = [
     ),
     (
         480_781.04 * METER_PER_FOOT,
-        0.10566108e-4 * PASCAL_PER_PSF,
+        0.10586108e-4 * PASCAL_PER_PSF,
         1_729.17 * KELVIN_PER_RANKIN,
         0.86358208e-2 * KELVIN_PER_RANKIN / METER_PER_FOOT,
     ),
-- 
2.43.0


From 91451cc19971476bdb27c4a5d5959f04fb2fc441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:57 +0000
Subject: [PATCH 10/12] fix: accept the documented name of the Fisher planet
 model

The user manual names the model "fisher_1960", but only "fisher1960" was
accepted. Accept the documented name and keep the old one working.
---
 sim/src/config.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sim/src/config.rs b/sim/src/config.rs
index b94f219..3d2d48a 100644
--- a/sim/src/config.rs
+++ b/sim/src/config.rs
@@ -25,6 +25,7 @@ pub enum PlanetConfig {
     Spherical,
     /// 1960 Fisher earth model (includes up to J2)
     /// See [`crate::planet`] for more information.
+    #[serde(rename = "fisher_1960", alias = "fisher1960")]
     Fisher1960,
     /// Smithsonian earth model (includes up to J4)
     /// See [`crate::planet`] for more information.
-- 
2.43.0


From b6d7db6b83f9263117c35acb72b4d332528e8d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:46 +0000
Subject: [PATCH 11/12] fix: reject unsorted table axes also if there are no
 rows

---
 sim/src/utils/tables/mod.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/sim/src/utils/tables/mod.rs b/sim/src/utils/tables/mod.rs
index 58b9b9e..54bde21 100644
--- a/sim/src/utils/tables/mod.rs
+++ b/sim/src/utils/tables/mod.rs
@@ -220,15 +220,24 @@ mod init {
     /// Checks whether the two arrays have the same length and if the state
     /// variable array is sorted.
     fn validate<T>(idx_arr: &[f64], data_arr: &[T]) -> Result<(), TableInitError> {
-        if !idx_arr.windows(2).all(|w| w[0] < w[1]) {
-            Err(TableInitError::NotSortedError)
-        } else if idx_arr.len() != data_arr.len() {
+        validate_sorted(idx_arr)?;
+
+        if idx_arr.len() != data_arr.len() {
             Err(TableInitError::InvalidLengthError)
         } else {
             Ok(())
         }
     }
 
+    /// Helper function to validate that a state variable array is sorted.
+    fn validate_sorted(idx_arr: &[f64]) -> Result<(), TableInitError> {
+        if idx_arr.windows(2).all(|w| w[0] < w[1]) {
+            Ok(())
+        } else {
+            Err(TableInitError::NotSortedError)
+        }
+    }
+
     impl Table1D {
         /// Tries to create a 1D table from unchecked data. Checks wether the
         /// array in `"x"` is sorted, and its length matches the one in the
@@ -259,6 +268,8 @@ mod init {
             interpolator: Interpolator,
         ) -> Result<Self, TableInitError> {
             validate(x.1, data)?;
+            // Also has to hold if there are no rows
+            validate_sorted(y.1)?;
 
             for y_data in data.iter() {
                 validate(y.1, y_data)?;
@@ -285,6 +296,9 @@ mod init {
             interpolator: Interpolator,
         ) -> Result<Self, TableInitError> {
             validate(x.1, data)?;
+            // Also has to hold if there are no rows
+            validate_sorted(y.1)?;
+            validate_sorted(z.1)?;
 
             for y_data in data.iter() {
                 validate(y.1, y_data)?;
-- 
2.43.0


From 7f624c26fe8e1bea6d3f1925c6f18f4bf10ce3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:01 +0000
Subject: [PATCH 12/12] fix: use the documented default of init if the first
 phase has none

---
 sim/src/config.rs | 2 +-
 sim/src/phase.rs  | 7 ++-----
 2 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/sim/src/config.rs b/sim/src/config.rs
index 3d2d48a..9fbd88d 100644
--- a/sim/src/config.rs
+++ b/sim/src/config.rs
@@ -55,7 +55,7 @@ pub struct AtmosphereConfig {
 /// Configurations regarding the initialization.
 /// This will define the starting position and velocity of the vehicle, as well
 /// as the launch frame.
-#[derive(Debug, Deserialize)]
+#[derive(Debug, Default, Deserialize)]
 #[serde(deny_unknown_fields)]
 pub struct InitConfig {
     /// Geodetic latitude in °.
diff --git a/sim/src/phase.rs b/sim/src/phase.rs
index 09103be..cc18a38 100644
--- a/sim/src/phase.rs
+++ b/sim/src/phase.rs
@@ -278,11 +278,8 @@ impl Phase {
         }
 
         if prev_phase.is_none() {
-            let config = &config
-                .init
-                .as_ref()
-                .expect("First phase must include init config");
-            phase.init(config);
+            let default = InitConfig::default();
+            phase.init(config.init.as_ref().unwrap_or(&default));
         }
 
         phase
-- 
2.43.0

