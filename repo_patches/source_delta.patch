From eae7fd5adb4039573ec450985dfe868ac599befe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:52 +0000
Subject: [PATCH 01/47] fix: orbital elements for descending quadrants,
 circular and hyperbolic orbits

The inclination was mirrored to 2*pi-i whenever the y component of the
angular momentum was positive although the node already carries the
quadrant, the anomaly of circular orbits lost its sign, and the hyperbolic
mean anomaly was clamped to zero (and wrapped as if it were periodic).
---
 src/tools.rs | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/tools.rs b/src/tools.rs
index 6ac6c2c..15f684e 100644
--- a/src/tools.rs
+++ b/src/tools.rs
@@ -120,9 +120,6 @@ pub fn calculate_keplerian_orbital_elements(gm: f64, position: Axes, velocity: A
     let cos_i = (hz / h).clamp(-1.,1.);
     if cos_i.abs() < 1. {
         i = cos_i.acos();
-        if hy > 0. {
-            i = TWO_PI - i;
-        }
         //longitude_of_ascending_node = (hx / -hy).atan();
         longitude_of_ascending_node = hx.atan2(-hy);
         if longitude_of_ascending_node < 0. {
@@ -183,8 +180,12 @@ pub fn calculate_keplerian_orbital_elements(gm: f64, position: Axes, velocity: A
     let cos_f:f64;
     if eccentricity == 0. {
         let x_rot = x*longitude_of_ascending_node.cos() + y*longitude_of_ascending_node.sin();
+        let y_rot = (-x*longitude_of_ascending_node.sin() + y*longitude_of_ascending_node.cos())*i.cos() + z*i.sin();
         cos_f = (x_rot / r).clamp(-1.,1.);
         true_anomaly = cos_f.acos();
+        if y_rot < 0. {
+            true_anomaly = TWO_PI - true_anomaly;
+        }
     } else {
         cos_f = (e_scal_r / (eccentricity * r)).clamp(-1., 1.);
         true_anomaly = cos_f.acos();
@@ -199,7 +200,7 @@ pub fn calculate_keplerian_orbital_elements(gm: f64, position: Axes, velocity: A
     if eccentricity == 0. {
         mean_anomaly = true_anomaly;
     } else {
-        let mut cos_bige = ((1./eccentricity)*( 1. - (r / a) )).clamp(-1.,1.);
+        let mut cos_bige = (1./eccentricity)*( 1. - (r / a) );
 
         // Mean anomaly for ellipse
         if eccentricity < 1. {
@@ -225,11 +226,14 @@ pub fn calculate_keplerian_orbital_elements(gm: f64, position: Axes, velocity: A
 
     }
   
-    if mean_anomaly < 0. {
-        mean_anomaly = mean_anomaly + TWO_PI;
-    }
-    if mean_anomaly > TWO_PI {
-        mean_anomaly = modulus(mean_anomaly, TWO_PI);
+    if eccentricity < 1. {
+        // The mean anomaly of a hyperbola is not periodic
+        if mean_anomaly < 0. {
+            mean_anomaly = mean_anomaly + TWO_PI;
+        }
+        if mean_anomaly > TWO_PI {
+            mean_anomaly = modulus(mean_anomaly, TWO_PI);
+        }
     }
 
     // Given relative coordinates and velocities (of the body 1 respect to body 2),
-- 
2.43.0


From fad285a88e6dcbc36e995e1fa1fc39c131305e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:52 +0000
Subject: [PATCH 02/47] fix: use the hyperbolic anomaly, not the mean anomaly,
 for low mean anomalies

---
 src/tools.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools.rs b/src/tools.rs
index 15f684e..a74ac36 100644
--- a/src/tools.rs
+++ b/src/tools.rs
@@ -614,7 +614,7 @@ fn kepler_solution_for_a_hyperbola(e: f64, n: f64) -> f64 {
     //// TODO:
     if abn < 0.636*e -0.6 {
        let tmp = kepler_solution_for_a_hyperbola_hybrid_approach_for_low_n(e,n);
-       orbel_fhybrid = tmp.1;
+       orbel_fhybrid = tmp.0;
     } else {
        orbel_fhybrid = kepler_solution_for_a_hyperbola_hybrid_approach(e,n);
     }
-- 
2.43.0


From 5c1fd3e5370059fe5174348e847a19c942c11d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:08 +0000
Subject: [PATCH 03/47] fix: resume --time-limit panicked because it was parsed
 as an integer but read as a float

---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 6a38792..a99ebb7 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -72,7 +72,7 @@ fn main() {
                                     .arg(Arg::new("change_time_limit")
                                         .long("time-limit")
                                         .value_name("days")
-                                        .value_parser(value_parser!(u64))
+                                        .value_parser(value_parser!(f64))
                                         .help("Set new simulation time limit in days."))
                                     )
                             .subcommand_required(true)
-- 
2.43.0


From b681abf71e6df9793c9f07106e7623e79dc61e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:08 +0000
Subject: [PATCH 04/47] fix: keep writing periodic recovery snapshots when an
 execution time limit is set

---
 src/main.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index a99ebb7..2ca5f12 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -166,7 +166,8 @@ fn main() {
                         println!("[WARNING {} UTC] Reached execution time limit before simulation completion", OffsetDateTime::now_utc().format(&format_description::parse("[year].[month].[day] [hour]:[minute]:[second]").unwrap()).unwrap()); 
                         break;
                     }
-                } else if recovery_snapshot_time_trigger {
+                }
+                if recovery_snapshot_time_trigger {
                     // Save a universe snapshot so that we can resume in case of failure
                     boxed_universe_integrator.write_recovery_snapshot(&universe_integrator_snapshot_path, &mut universe_history_writer);
                 }
-- 
2.43.0


From aa4d4e46cb0af160d5e7775341597d9c49b217a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:08 +0000
Subject: [PATCH 05/47] fix: detect the ejection of bodies listed before the
 most massive one

---
 src/particles/universe.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/particles/universe.rs b/src/particles/universe.rs
index 16c9b0c..b7494b1 100644
--- a/src/particles/universe.rs
+++ b/src/particles/universe.rs
@@ -231,9 +231,9 @@ impl Universe {
                         println!("\n");
                         panic!("[PANIC {} UTC] Collision between particle {} and {}!", OffsetDateTime::now_utc().format(&format_description::parse("[year].[month].[day] [hour]:[minute]:[second]").unwrap()).unwrap(), i, j);
                     }
-                    if MAX_DISTANCE_2 > 0. && i == self.hosts.index.most_massive && distance_2 > MAX_DISTANCE_2 {
+                    if MAX_DISTANCE_2 > 0. && (i == self.hosts.index.most_massive || j == self.hosts.index.most_massive) && distance_2 > MAX_DISTANCE_2 {
                         println!("\n");
-                        panic!("[PANIC {} UTC] Particle {} has been ejected!", OffsetDateTime::now_utc().format(&format_description::parse("[year].[month].[day] [hour]:[minute]:[second]").unwrap()).unwrap(), j);
+                        panic!("[PANIC {} UTC] Particle {} has been ejected!", OffsetDateTime::now_utc().format(&format_description::parse("[year].[month].[day] [hour]:[minute]:[second]").unwrap()).unwrap(), if i == self.hosts.index.most_massive { j } else { i });
                     }
                 }
                 //////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 240c1b8f62ba5ece141abcfb2ee35a3d0a832629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:53 +0000
Subject: [PATCH 06/47] fix: WHFast and IAS15 ignored wind braking unless
 another spin effect was enabled

---
 src/integrator/ias15.rs  | 4 ++--
 src/integrator/whfast.rs | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/integrator/ias15.rs b/src/integrator/ias15.rs
index 3f960cc..5efd154 100644
--- a/src/integrator/ias15.rs
+++ b/src/integrator/ias15.rs
@@ -528,7 +528,7 @@ impl Ias15 {
             consider_dangular_momentum_dt_from_general_relativity = true;
         }
         let integrate_spin = self.universe.consider_effects.tides || self.universe.consider_effects.rotational_flattening
-                            || self.universe.consider_effects.evolution || consider_dangular_momentum_dt_from_general_relativity;
+                            || self.universe.consider_effects.wind || self.universe.consider_effects.evolution || consider_dangular_momentum_dt_from_general_relativity;
 
         loop {
 
@@ -1345,7 +1345,7 @@ impl Ias15 {
             consider_dangular_momentum_dt_from_general_relativity = true;
         }
         let integrate_spin = self.universe.consider_effects.tides || self.universe.consider_effects.rotational_flattening
-                            || self.universe.consider_effects.evolution || consider_dangular_momentum_dt_from_general_relativity;
+                            || self.universe.consider_effects.wind || self.universe.consider_effects.evolution || consider_dangular_momentum_dt_from_general_relativity;
         if ratio > 20. {
             // Do not predict if stepsize increase is very large.
             for k in 0..3*self.n_particles {
diff --git a/src/integrator/whfast.rs b/src/integrator/whfast.rs
index f199906..ee591e2 100644
--- a/src/integrator/whfast.rs
+++ b/src/integrator/whfast.rs
@@ -272,7 +272,7 @@ impl Integrator for WHFast {
             consider_dangular_momentum_dt_from_general_relativity = true;
         }
         let integrate_spin = self.universe.consider_effects.tides || self.universe.consider_effects.rotational_flattening
-                            || self.universe.consider_effects.evolution || consider_dangular_momentum_dt_from_general_relativity;
+                            || self.universe.consider_effects.wind || self.universe.consider_effects.evolution || consider_dangular_momentum_dt_from_general_relativity;
 
         let evolution = true;
         self.integrate_velocity_dependent_forces(self.half_time_step, integrate_spin, evolution); // Corrects the inertial velocity and computes spin
-- 
2.43.0


From f217fa0a92c27a744cf640e6d89b0d8da17fb959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:21 +0000
Subject: [PATCH 07/47] fix: evolve the love number of the body and not that of
 a temporary copy

---
 src/effects/evolution.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/effects/evolution.rs b/src/effects/evolution.rs
index fa389a1..40cef7b 100644
--- a/src/effects/evolution.rs
+++ b/src/effects/evolution.rs
@@ -531,9 +531,9 @@ pub fn calculate_particles_non_spin_dependent_evolving_quantities(current_time:
         ////////////////////////////////////////////////////////////////////
         // Love number
         ////////////////////////////////////////////////////////////////////
-        match &particle.tides.effect {
+        match &mut particle.tides.effect {
             TidesEffect::CentralBody(tidal_model) | TidesEffect::OrbitingBody(tidal_model) => {
-                if let TidalModel::ConstantTimeLag(mut params) = tidal_model {
+                if let TidalModel::ConstantTimeLag(params) = tidal_model {
                     params.love_number = evolver.love_number(current_time, params.love_number);
                 }
             },
-- 
2.43.0


From 6b18dc1cdd36205cd06beb180413b6a51f4f59fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:41 +0000
Subject: [PATCH 08/47] fix: interpolate evolution tables correctly when time
 goes back over a table entry

The remembered index was added to itself, so the safety margin for
integrators that revisit earlier times was always used up and the value of
the closest later entry was returned instead of the interpolated one.
---
 src/effects/evolution.rs | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/effects/evolution.rs b/src/effects/evolution.rs
index 40cef7b..16299ba 100644
--- a/src/effects/evolution.rs
+++ b/src/effects/evolution.rs
@@ -446,9 +446,9 @@ impl Evolver {
     // OPTIMIZATION: Skip first N elements which belong to the past
     // but still go through the last n elements just in case the integrator
     // is travelling to the past (e.g., current time step did not converge)
-    fn idx(&self) -> usize {
+    fn idx(&self, current_time: f64) -> usize {
         let security_shift = 10;
-        if self.left_index > security_shift {
+        if self.left_index > security_shift && self.time[self.left_index - security_shift] <= current_time {
             return self.left_index - security_shift;
         } else {
             return 0;
@@ -456,31 +456,34 @@ impl Evolver {
     }
 
     pub fn radius(&mut self, current_time: f64, current_radius: f64) -> f64 {
+        let idx = self.idx(current_time);
         let (new_radius, left_index) = match self.evolution {
             EvolutionType::NonEvolving => { (current_radius, 0) },
-            _ => { linear_interpolation(current_time, &self.time[self.idx()..], &self.radius[self.idx()..]) }
+            _ => { linear_interpolation(current_time, &self.time[idx..], &self.radius[idx..]) }
         };
-        self.left_index += left_index;
+        self.left_index = idx + left_index;
         return new_radius;
     }
 
     pub fn radius_of_gyration_2(&mut self, current_time: f64, current_radius_of_gyration_2: f64) -> f64 {
+        let idx = self.idx(current_time);
         let (new_radius_of_gyration_2, left_index) = match self.evolution {
-            EvolutionType::Baraffe2015(_) => { linear_interpolation(current_time, &self.time[self.idx()..], &self.radius_of_gyration_2[self.idx()..]) },
-            EvolutionType::Leconte2011(_) => { linear_interpolation(current_time, &self.time[self.idx()..], &self.radius_of_gyration_2[self.idx()..]) },
-            EvolutionType::LeconteChabrier2013(_) => { linear_interpolation(current_time, &self.time[self.idx()..], &self.radius_of_gyration_2[self.idx()..]) },
+            EvolutionType::Baraffe2015(_) => { linear_interpolation(current_time, &self.time[idx..], &self.radius_of_gyration_2[idx..]) },
+            EvolutionType::Leconte2011(_) => { linear_interpolation(current_time, &self.time[idx..], &self.radius_of_gyration_2[idx..]) },
+            EvolutionType::LeconteChabrier2013(_) => { linear_interpolation(current_time, &self.time[idx..], &self.radius_of_gyration_2[idx..]) },
             _ => { (current_radius_of_gyration_2, 0) }
         };
-        self.left_index += left_index;
+        self.left_index = idx + left_index;
         return new_radius_of_gyration_2;
     }
 
     pub fn love_number(&mut self, current_time: f64, current_love_number: f64) -> f64 {
+        let idx = self.idx(current_time);
         let (new_love_number, left_index) = match self.evolution {
-            EvolutionType::LeconteChabrier2013(_) => { linear_interpolation(current_time, &self.time[self.idx()..], &self.love_number[self.idx()..]) },
+            EvolutionType::LeconteChabrier2013(_) => { linear_interpolation(current_time, &self.time[idx..], &self.love_number[idx..]) },
             _ => { (current_love_number, 0) }
         };
-        self.left_index += left_index;
+        self.left_index = idx + left_index;
         return new_love_number;
     }
 
@@ -502,13 +505,14 @@ impl Evolver {
         // The tidal theory (and this code) assumes circular orbits because they are easier.
         // Excentric orbits needs more than one frequency to be described and it will be
         // included in future versions of this code.
+        let idx = self.idx(current_time);
         let (new_inverse_tidal_q_factor, left_index) = match self.evolution {
             EvolutionType::BolmontMathis2016(_) | EvolutionType::GalletBolmont2017(_) | EvolutionType::LeconteChabrier2013(true) => {
-                linear_interpolation(current_time, &self.time[self.idx()..], &self.inverse_tidal_q_factor[self.idx()..])
+                linear_interpolation(current_time, &self.time[idx..], &self.inverse_tidal_q_factor[idx..])
             },
             _ => (current_inverse_tidal_q_factor, 0),
         };
-        self.left_index += left_index;
+        self.left_index = idx + left_index;
         return new_inverse_tidal_q_factor;
     }
 }
-- 
2.43.0


From 09982e3ad7b4aca52b459775fbe2249a1f987d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:10 +0000
Subject: [PATCH 09/47] fix: bodies without tides must not contribute to the
 tides of the central body

Their tidal coordinates are never set, so they turned the spin of the host
into NaN (0/0).
---
 src/effects/tides/common.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/effects/tides/common.rs b/src/effects/tides/common.rs
index 944ba59..52cc6db 100644
--- a/src/effects/tides/common.rs
+++ b/src/effects/tides/common.rs
@@ -241,7 +241,7 @@ pub fn calculate_dangular_momentum_dt_due_to_tides(tidal_host_particle: &mut Par
     let central_body = true;
     let mut dangular_momentum_dt = Axes{x: 0., y: 0., z:0.};
     for particle in particles.iter_mut().chain(more_particles.iter_mut()) {
-        if let TidesEffect::CentralBody(tidal_model) = &tidal_host_particle.tides.effect {
+        if let (TidesEffect::CentralBody(tidal_model), TidesEffect::OrbitingBody(_)) = (&tidal_host_particle.tides.effect, &particle.tides.effect) {
             let torque_due_to_tides = match tidal_model {
                 TidalModel::ConstantTimeLag(_) => constant_time_lag::calculate_torque_due_to_tides(tidal_host_particle, particle, central_body),
                 TidalModel::CreepCoplanar(_) => creep_coplanar::calculate_torque_due_to_tides(tidal_host_particle, particle, central_body),
@@ -353,6 +353,9 @@ pub fn calculate_tidal_acceleration(tidal_host_particle: &mut Particle, particle
         TidesEffect::CentralBody(TidalModel::Kaula(_))
     ) {
         for particle in particles.iter_mut().chain(more_particles.iter_mut()) {
+            if !matches!(particle.tides.effect, TidesEffect::OrbitingBody(_)) {
+                continue;
+            }
             let tidal_force = kaula::calculate_tidal_force(particle, tidal_host_particle, central_body);
             let factor1 = 1. / particle.mass;
 
-- 
2.43.0


From 0a2d6d850377c952b2588f787f81c3b09c13718f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:25 +0000
Subject: [PATCH 10/47] fix: drop the dissipation of the orbiting body, not
 that of the host, when it leaves the dynamical tide regime

---
 src/effects/tides/constant_time_lag.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/effects/tides/constant_time_lag.rs b/src/effects/tides/constant_time_lag.rs
index d5d157a..370786c 100644
--- a/src/effects/tides/constant_time_lag.rs
+++ b/src/effects/tides/constant_time_lag.rs
@@ -129,7 +129,7 @@ fn calculate_host_dependent_scaled_dissipation_factors(tidal_host_particle: &mut
                             set_pair_dependent_scaled_dissipation_factor(pair_dependent_scaled_dissipation_factor, particle.id, tidal_host_particle.id, host_dependent_scaled_dissipation_factor);
                         } else {
                             // Equilibrium regime (not dynamical tide)
-                            remove_pair_dependent_scaled_dissipation_factor(pair_dependent_scaled_dissipation_factor, tidal_host_particle.id, particle.id);
+                            remove_pair_dependent_scaled_dissipation_factor(pair_dependent_scaled_dissipation_factor, particle.id, tidal_host_particle.id);
                         }
                     }
                 }
-- 
2.43.0


From 6f5ac390913946e2ce64549b0a580827e7567cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:07 +0000
Subject: [PATCH 11/47] fix: update the spin before the products that depend on
 it

initialize() computes the scalar products of position and spin, but the spin
was brought up to date (from the angular momentum and the evolving radius)
only afterwards, so tides and flattening used the spin of the previous force
evaluation.
---
 src/particles/universe.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/particles/universe.rs b/src/particles/universe.rs
index b7494b1..0b3b4e2 100644
--- a/src/particles/universe.rs
+++ b/src/particles/universe.rs
@@ -426,8 +426,8 @@ impl Universe {
     }
 
     pub fn calculate_additional_effects(&mut self, current_time: f64, evolution: bool, dangular_momentum_dt: bool, accelerations: bool, ignored_gravity_terms: IgnoreGravityTerms) {
-        self.initialize(dangular_momentum_dt, accelerations);
         self.calculate_spin_and_evolving_quantities(current_time, evolution); // Make sure we start with the good initial values
+        self.initialize(dangular_momentum_dt, accelerations);
 
         let (mut particles, _) = self.particles.split_at_mut(self.n_particles);
         if dangular_momentum_dt && self.consider_effects.wind {
-- 
2.43.0


From 6cb371759487484c93fc5ad573dd6575060fb0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:42 +0000
Subject: [PATCH 12/47] fix: relativistic corrections with WHFast mixed
 inertial and heliocentric positions

The Newtonian terms ignored by WHFast were restored for Anderson1975 and
Newhall1983 with the distance between the inertial position of the host and
the heliocentric position of the particle.
---
 src/effects/general_relativity.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/effects/general_relativity.rs b/src/effects/general_relativity.rs
index e612c71..c9f932c 100644
--- a/src/effects/general_relativity.rs
+++ b/src/effects/general_relativity.rs
@@ -658,9 +658,9 @@ fn get_anderson1975_newhall1983_newtonian_inertial_accelerations(host_particle:
             n_particles = particles.len() + more_particles.len();
         }
         for (newtonian_acceleration, particle) in newtonian_inertial_accelerations[..n_particles].iter_mut().zip(particles.iter_mut().chain(more_particles.iter_mut())) {
-            let dx = host_particle.inertial_position.x - particle.general_relativity.coordinates.position.x;
-            let dy = host_particle.inertial_position.y - particle.general_relativity.coordinates.position.y;
-            let dz = host_particle.inertial_position.z - particle.general_relativity.coordinates.position.z;
+            let dx = host_particle.inertial_position.x - particle.inertial_position.x;
+            let dy = host_particle.inertial_position.y - particle.inertial_position.y;
+            let dz = host_particle.inertial_position.z - particle.inertial_position.z;
             let r2 = dx.powi(2) + dy.powi(2) + dz.powi(2);
             let r = r2.sqrt();
             let prefac = G/(r2*r);
-- 
2.43.0


From 005712101c75fee6be71d938c117a68dab5012ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:05 +0000
Subject: [PATCH 13/47] fix: first relative velocity norm was wrong when the
 host was not given at rest at the origin

inertial_to_heliocentric subtracted the host's heliocentric velocity, which
still holds the user's input at the first call.
---
 src/particles/universe.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/particles/universe.rs b/src/particles/universe.rs
index 0b3b4e2..c3e8adc 100644
--- a/src/particles/universe.rs
+++ b/src/particles/universe.rs
@@ -332,9 +332,9 @@ impl Universe {
                                                                         particle.heliocentric_position.y*particle.heliocentric_velocity.y +
                                                                         particle.heliocentric_position.z*particle.heliocentric_velocity.z) 
                                                                         / particle.heliocentric_distance;
-                particle.heliocentric_norm_velocity_vector_2 = (particle.heliocentric_velocity.x - host_particle.heliocentric_velocity.x).powi(2) 
-                                                                + (particle.heliocentric_velocity.y - host_particle.heliocentric_velocity.y).powi(2)
-                                                                + (particle.heliocentric_velocity.z - host_particle.heliocentric_velocity.z).powi(2);
+                particle.heliocentric_norm_velocity_vector_2 = particle.heliocentric_velocity.x.powi(2) 
+                                                                + particle.heliocentric_velocity.y.powi(2)
+                                                                + particle.heliocentric_velocity.z.powi(2);
                 particle.heliocentric_norm_velocity_vector = particle.heliocentric_norm_velocity_vector_2.sqrt();
             }
             host_particle.heliocentric_position.x = 0.;
-- 
2.43.0


From 6bbd8e6d53ed7b9adcc581d63a10d7cda983c61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:05 +0000
Subject: [PATCH 14/47] fix: Newhall1983 relativity divided by zero when two or
 more bodies do not take part in it

---
 src/effects/general_relativity.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/effects/general_relativity.rs b/src/effects/general_relativity.rs
index c9f932c..d1c86b4 100644
--- a/src/effects/general_relativity.rs
+++ b/src/effects/general_relativity.rs
@@ -708,13 +708,12 @@ pub fn calculate_newhall1983_general_relativity_acceleration(host_particle: &mut
                                         .zip(drs_i.iter_mut())
                                         .enumerate() {
             if j != i{
-                if particle_i.general_relativity.effect != GeneralRelativityEffect::Disabled || particle_j.general_relativity.effect != GeneralRelativityEffect::Disabled {
-                    drs_i_j.x = particle_i.inertial_position.x - particle_j.inertial_position.x;
-                    drs_i_j.y = particle_i.inertial_position.y - particle_j.inertial_position.y;
-                    drs_i_j.z = particle_i.inertial_position.z - particle_j.inertial_position.z;
-                    rs_i[j] = (drs_i_j.x.powi(2) + drs_i_j.y.powi(2) + drs_i_j.z.powi(2)).sqrt();
-                    //println!("i j: {} {} {:e}", i, j, rs_i[j]);
-                }
+                // Needed for all the pairs: the potential at each body is due to all the others
+                drs_i_j.x = particle_i.inertial_position.x - particle_j.inertial_position.x;
+                drs_i_j.y = particle_i.inertial_position.y - particle_j.inertial_position.y;
+                drs_i_j.z = particle_i.inertial_position.z - particle_j.inertial_position.z;
+                rs_i[j] = (drs_i_j.x.powi(2) + drs_i_j.y.powi(2) + drs_i_j.z.powi(2)).sqrt();
+                //println!("i j: {} {} {:e}", i, j, rs_i[j]);
             }
         }
     }
-- 
2.43.0


From 0d95fe9a69285018bf617012e02148125fd24e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:27 +0000
Subject: [PATCH 15/47] fix: a disk without extension (both edges at zero) made
 the simulation panic

---
 src/particles/universe.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/particles/universe.rs b/src/particles/universe.rs
index c3e8adc..a1ede9b 100644
--- a/src/particles/universe.rs
+++ b/src/particles/universe.rs
@@ -724,11 +724,13 @@ fn disable_unnecessary_effects(consider_effects: &mut ConsiderEffects, particles
                 found_central_body_general_relativity = true;
             }
         }
-        if let DiskEffect::CentralBody(_) = particle.disk.effect {
-            if found_central_body_disk {
-                panic!("[PANIC {} UTC] Only one central body is allowed for disk effects!", OffsetDateTime::now_utc().format(&format_description::parse("[year].[month].[day] [hour]:[minute]:[second]").unwrap()).unwrap());
+        if let DiskEffect::CentralBody( disk ) = particle.disk.effect {
+            if disk.inner_edge_distance != 0. || disk.outer_edge_distance != 0. {
+                if found_central_body_disk {
+                    panic!("[PANIC {} UTC] Only one central body is allowed for disk effects!", OffsetDateTime::now_utc().format(&format_description::parse("[year].[month].[day] [hour]:[minute]:[second]").unwrap()).unwrap());
+                }
+                found_central_body_disk = true;
             }
-            found_central_body_disk = true;
         }
         if WindEffect::Disabled != particle.wind.effect {
             found_wind = true;
-- 
2.43.0


From d58fc16781af5957dfb87308d6af42bbe2120711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:21 +0000
Subject: [PATCH 16/47] fix: rotational flattening of a body that does not
 rotate gave NaN

---
 .../rotational_flattening/oblate_spheroid.rs    | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/effects/rotational_flattening/oblate_spheroid.rs b/src/effects/rotational_flattening/oblate_spheroid.rs
index 69b4d1d..3ea4f6c 100644
--- a/src/effects/rotational_flattening/oblate_spheroid.rs
+++ b/src/effects/rotational_flattening/oblate_spheroid.rs
@@ -18,6 +18,15 @@ pub fn calculate_orthogonal_component_of_the_force_induced_by_rotational_flatten
     calculate_orthogonal_component_of_the_force_induced_by_rotational_flattening_for(!central_body, &mut rotational_flattening_host_particle, &mut particles, &mut more_particles);
 }
 
+// A body that does not rotate is not flattened: all the terms that would be divided by its null spin are zero
+fn divide_by_norm_spin_vector_2(scalar_product_of_vector_position_with_spin: f64, norm_spin_vector_2: f64) -> f64 {
+    if norm_spin_vector_2 > 0. {
+        scalar_product_of_vector_position_with_spin / norm_spin_vector_2
+    } else {
+        0.
+    }
+}
+
 fn calculate_orthogonal_component_of_the_force_induced_by_rotational_flattening_for(central_body:bool, rotational_flattening_host_particle: &mut Particle, particles: &mut [Particle], more_particles: &mut [Particle]) {
     // Calculation of the norm square of the spin for the planet
     for particle in particles.iter_mut().chain(more_particles.iter_mut()) {
@@ -36,12 +45,12 @@ fn calculate_orthogonal_component_of_the_force_induced_by_rotational_flattening_
                     // - Star Equation 16 from Bolmont et al. 2015
                     particle.rotational_flattening.parameters.internal.factor_for_the_force_induced_by_star_rotation = particle.mass * rotational_flattening_host_particle_love_number * rotational_flattening_host_particle.norm_spin_vector_2 * rotational_flattening_host_particle.radius.powi(5) / 6.; // Msun.AU^5.day-2
                     // - Second part of Equation 15 from Bolmont et al. 2015
-                    particle.rotational_flattening.parameters.internal.orthogonal_component_of_the_force_induced_by_star_rotation = -6. * particle.rotational_flattening.parameters.internal.factor_for_the_force_induced_by_star_rotation * particle.rotational_flattening.parameters.internal.scalar_product_of_vector_position_with_stellar_spin / (rotational_flattening_host_particle.norm_spin_vector_2 * particle.rotational_flattening.parameters.internal.distance.powi(5));
+                    particle.rotational_flattening.parameters.internal.orthogonal_component_of_the_force_induced_by_star_rotation = -6. * particle.rotational_flattening.parameters.internal.factor_for_the_force_induced_by_star_rotation * divide_by_norm_spin_vector_2(particle.rotational_flattening.parameters.internal.scalar_product_of_vector_position_with_stellar_spin, rotational_flattening_host_particle.norm_spin_vector_2) / particle.rotational_flattening.parameters.internal.distance.powi(5);
                 } else {
                     // - Planet Equation 16 from Bolmont et al. 2015
                     particle.rotational_flattening.parameters.internal.factor_for_the_force_induced_by_planet_rotation = rotational_flattening_host_particle.mass * params.love_number * particle.norm_spin_vector_2 * particle.radius.powi(5) / 6.; // Msun.AU^5.day-2
                     // - Second part of Equation 15 from Bolmont et al. 2015
-                    particle.rotational_flattening.parameters.internal.orthogonal_component_of_the_force_induced_by_planet_rotation = -6. * particle.rotational_flattening.parameters.internal.factor_for_the_force_induced_by_planet_rotation * particle.rotational_flattening.parameters.internal.scalar_product_of_vector_position_with_planetary_spin / (particle.norm_spin_vector_2 * particle.rotational_flattening.parameters.internal.distance.powi(5));
+                    particle.rotational_flattening.parameters.internal.orthogonal_component_of_the_force_induced_by_planet_rotation = -6. * particle.rotational_flattening.parameters.internal.factor_for_the_force_induced_by_planet_rotation * divide_by_norm_spin_vector_2(particle.rotational_flattening.parameters.internal.scalar_product_of_vector_position_with_planetary_spin, particle.norm_spin_vector_2) / particle.rotational_flattening.parameters.internal.distance.powi(5);
                 }
             }
         }
@@ -53,8 +62,8 @@ pub fn calculate_radial_component_of_the_force_induced_by_rotational_flattening(
         if let RotationalFlatteningEffect::OrbitingBody(_) = particle.rotational_flattening.effect {
             // - First part of Equation 15 from Bolmont et al. 2015
             particle.rotational_flattening.parameters.internal.radial_component_of_the_force_induced_by_rotation = -3./particle.rotational_flattening.parameters.internal.distance.powi(5) * (particle.rotational_flattening.parameters.internal.factor_for_the_force_induced_by_planet_rotation + particle.rotational_flattening.parameters.internal.factor_for_the_force_induced_by_star_rotation)
-                + 15./particle.rotational_flattening.parameters.internal.distance.powi(7) * (particle.rotational_flattening.parameters.internal.factor_for_the_force_induced_by_star_rotation * particle.rotational_flattening.parameters.internal.scalar_product_of_vector_position_with_stellar_spin * particle.rotational_flattening.parameters.internal.scalar_product_of_vector_position_with_stellar_spin/rotational_flattening_host_particle.norm_spin_vector_2
-                    + particle.rotational_flattening.parameters.internal.factor_for_the_force_induced_by_planet_rotation * particle.rotational_flattening.parameters.internal.scalar_product_of_vector_position_with_planetary_spin * particle.rotational_flattening.parameters.internal.scalar_product_of_vector_position_with_planetary_spin/particle.norm_spin_vector_2); // Msun.AU.day-1
+                + 15./particle.rotational_flattening.parameters.internal.distance.powi(7) * (particle.rotational_flattening.parameters.internal.factor_for_the_force_induced_by_star_rotation * particle.rotational_flattening.parameters.internal.scalar_product_of_vector_position_with_stellar_spin * divide_by_norm_spin_vector_2(particle.rotational_flattening.parameters.internal.scalar_product_of_vector_position_with_stellar_spin, rotational_flattening_host_particle.norm_spin_vector_2)
+                    + particle.rotational_flattening.parameters.internal.factor_for_the_force_induced_by_planet_rotation * particle.rotational_flattening.parameters.internal.scalar_product_of_vector_position_with_planetary_spin * divide_by_norm_spin_vector_2(particle.rotational_flattening.parameters.internal.scalar_product_of_vector_position_with_planetary_spin, particle.norm_spin_vector_2)); // Msun.AU.day-1
         }
     }
 }
-- 
2.43.0


From e56bec3cadc99eaa0ae9221a914647699c5898fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:21 +0000
Subject: [PATCH 17/47] fix: wrong signs in two Cayley coefficients E_(0,k) of
 the creep model

E_(0,0) = (1-e^2)^(-3/2) and E_(0,1) are the Fourier coefficients of (a/r)^3.
---
 src/effects/tides/creep_coplanar.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/effects/tides/creep_coplanar.rs b/src/effects/tides/creep_coplanar.rs
index c542655..43e6eaa 100644
--- a/src/effects/tides/creep_coplanar.rs
+++ b/src/effects/tides/creep_coplanar.rs
@@ -468,8 +468,8 @@ fn calculate_cayley_coefficients(e: f64) -> [[f64; 15]; 2] {
     cayley[0][3] = 77.0 / 16.0 * e4 + 129.0 / 160.0 * e6;
     cayley[0][4] = 53.0 / 16.0 * e3 + 393.0 / 256.0 * e5 + 24753.0 / 10240.0 * e7;
     cayley[0][5] = 9.0 / 4.0 * e2 + 7.0 / 4.0 * e4 + 141.0 / 64.0 * e6;
-    cayley[0][6] = 3.0 / 2.0 * e + 27.0 / 16.0 * e3 - 261.0 / 128.0 * e5 + 14309.0 / 6144.0 * e7;
-    cayley[0][7] = 1.0 + 3.0 / 2.0 * e2 + 15.0 / 8.0 * e4 - 35.0 / 16.0 * e6;
+    cayley[0][6] = 3.0 / 2.0 * e + 27.0 / 16.0 * e3 + 261.0 / 128.0 * e5 + 14309.0 / 6144.0 * e7;
+    cayley[0][7] = 1.0 + 3.0 / 2.0 * e2 + 15.0 / 8.0 * e4 + 35.0 / 16.0 * e6;
     cayley[0][8] = cayley[0][6];
     cayley[0][9] = cayley[0][5];
     cayley[0][10] = cayley[0][4];
-- 
2.43.0


From 200d445bfa0fab617e260a559ac6d163a15add2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:21 +0000
Subject: [PATCH 18/47] fix: the polar oblateness of the creep model lost its
 out-of-phase part

The response of a body with relaxation factor g to E cos(kM) is
E (g^2 cos(kM) + g k n sin(kM)) / (g^2 + k^2 n^2); with k^2 n^2 instead of
g k n the terms for k and -k cancelled each other.
---
 src/effects/tides/creep_coplanar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/effects/tides/creep_coplanar.rs b/src/effects/tides/creep_coplanar.rs
index 43e6eaa..1fe400e 100644
--- a/src/effects/tides/creep_coplanar.rs
+++ b/src/effects/tides/creep_coplanar.rs
@@ -418,7 +418,7 @@ pub fn calculate_particle_shape(
                     + (2.0 * primary_spin - (9.0 - dk) * mean_motion) * (equatorial_angles).cos());
              sum_epsilon_z += cayley[0][k]
                 / ((dk - 7.0).powi(2) * mean_motion.powi(2) + relaxation_factor.powi(2))
-                * ((dk - 7.0).powi(2) * mean_motion.powi(2) * (polar_angles).sin()
+                * ((dk - 7.0) * mean_motion * relaxation_factor * (polar_angles).sin()
                     + relaxation_factor.powi(2) * (polar_angles).cos());
             //sum_x_component_of_the_equatorial_prolateness += 0.0;
             //sum_y_component_of_the_equatorial_prolateness += 0.0;
-- 
2.43.0


From b7e97164f55c880c7f815fa1d95db64244bd30b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:21 +0000
Subject: [PATCH 19/47] fix: a creep central body with null viscosity got a NaN
 spin

A null viscosity already meant that orbiting bodies have no creep response.
---
 src/effects/tides/creep_coplanar.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/effects/tides/creep_coplanar.rs b/src/effects/tides/creep_coplanar.rs
index 1fe400e..fa683da 100644
--- a/src/effects/tides/creep_coplanar.rs
+++ b/src/effects/tides/creep_coplanar.rs
@@ -235,6 +235,11 @@ pub fn calculate_particle_shape(
     consider_tides: bool,
     consider_rotational_flattening: bool,
 ) -> Axes {
+    if uniform_viscosity_coefficient == 0. {
+        // Not a creeping body
+        return Axes { x: 0., y: 0., z: 0. };
+    }
+
     let epsilon_rho_bar: f64;
     let epsilon_z_bar: f64;
     let mean_motion: f64;
-- 
2.43.0


From e917b641eaca20f856a1931762c5babcc0293ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:42 +0000
Subject: [PATCH 20/47] fix: creep rotational flattening without tides used the
 unset tidal coordinates and viscosity

---
 src/effects/tides/creep_coplanar.rs | 48 ++++++++++++++---------------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/src/effects/tides/creep_coplanar.rs b/src/effects/tides/creep_coplanar.rs
index fa683da..319957e 100644
--- a/src/effects/tides/creep_coplanar.rs
+++ b/src/effects/tides/creep_coplanar.rs
@@ -7,6 +7,7 @@ use super::super::super::{Particle};
 use super::super::super::{Axes};
 use super::common::TidesEffect;
 use super::common::TidalModel;
+use super::super::rotational_flattening::{RotationalFlatteningEffect, RotationalFlatteningModel};
 
 #[derive(Debug, Copy, Clone, Serialize, Deserialize, PartialEq)]
 pub struct CreepCoplanarParameters {
@@ -149,6 +150,25 @@ pub fn calculate_creep_coplanar_shapes(tidal_host_particle: &mut Particle, parti
 
 pub fn calculate_creep_coplanar_shape(tidal_host_particle: &Particle, particle: &Particle, consider_tides: bool, consider_rotational_flattening: bool, central_body: bool) -> Axes {
     let gm = tidal_host_particle.mass_g + particle.mass_g;
+    // Tides and rotational flattening can be enabled independently
+    let (position, velocity) = match consider_tides {
+        true => (particle.tides.coordinates.position, particle.tides.coordinates.velocity),
+        false => (particle.rotational_flattening.coordinates.position, particle.rotational_flattening.coordinates.velocity),
+    };
+    let body = match central_body {
+        true => tidal_host_particle,
+        false => particle,
+    };
+    let uniform_viscosity_coefficient = match consider_tides {
+        true => match &body.tides.effect {
+            TidesEffect::CentralBody(TidalModel::CreepCoplanar(params)) | TidesEffect::OrbitingBody(TidalModel::CreepCoplanar(params)) => params.uniform_viscosity_coefficient,
+            _ => 0.,
+        },
+        false => match &body.rotational_flattening.effect {
+            RotationalFlatteningEffect::CentralBody(RotationalFlatteningModel::CreepCoplanar(params)) | RotationalFlatteningEffect::OrbitingBody(RotationalFlatteningModel::CreepCoplanar(params)) => params.uniform_viscosity_coefficient,
+            _ => 0.,
+        },
+    };
     let (
         semimajor_axis,
         _perihelion_distance,
@@ -160,8 +180,8 @@ pub fn calculate_creep_coplanar_shape(tidal_host_particle: &Particle, particle:
         orbital_period,
     ) = tools::calculate_keplerian_orbital_elements(
         gm,
-        particle.tides.coordinates.position,
-        particle.tides.coordinates.velocity,
+        position,
+        velocity,
     );
     //let true_anomaly = calculate_true_anomaly(eccentricity, mean_anomaly);
 
@@ -169,16 +189,6 @@ pub fn calculate_creep_coplanar_shape(tidal_host_particle: &Particle, particle:
 
     let shape = match central_body {
         false => {
-            let particle_uniform_viscosity_coefficient = match &particle.tides.effect {
-                TidesEffect::OrbitingBody(tidal_model) => {
-                    if let TidalModel::CreepCoplanar(params) = tidal_model {
-                        params.uniform_viscosity_coefficient
-                    } else {
-                        0.
-                    }
-                },
-                _ => 0.,
-            };
             calculate_particle_shape(
                 semimajor_axis,
                 eccentricity,
@@ -187,23 +197,13 @@ pub fn calculate_creep_coplanar_shape(tidal_host_particle: &Particle, particle:
                 particle.mass,
                 tidal_host_particle.mass,
                 particle.radius,
-                particle_uniform_viscosity_coefficient,
+                uniform_viscosity_coefficient,
                 particle.spin.z,
                 consider_tides,
                 consider_rotational_flattening,
             )
         },
         true => {
-            let tidal_host_particle_uniform_viscosity_coefficient = match &tidal_host_particle.tides.effect {
-                TidesEffect::CentralBody(tidal_model) => {
-                    if let TidalModel::CreepCoplanar(params) = tidal_model {
-                        params.uniform_viscosity_coefficient
-                    } else {
-                        0.
-                    }
-                },
-                _ => 0.,
-            };
             calculate_particle_shape(
                 semimajor_axis,
                 eccentricity,
@@ -212,7 +212,7 @@ pub fn calculate_creep_coplanar_shape(tidal_host_particle: &Particle, particle:
                 tidal_host_particle.mass,
                 particle.mass,
                 tidal_host_particle.radius,
-                tidal_host_particle_uniform_viscosity_coefficient,
+                uniform_viscosity_coefficient,
                 tidal_host_particle.spin.z,
                 consider_tides,
                 consider_rotational_flattening,
-- 
2.43.0


From a8d65b317266f31650c41b68c924bda10d7957e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:55 +0000
Subject: [PATCH 21/47] fix: bodies without rotational flattening must not
 contribute to the torque of the central body

---
 src/effects/rotational_flattening/common.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/effects/rotational_flattening/common.rs b/src/effects/rotational_flattening/common.rs
index 65a8a25..5199754 100644
--- a/src/effects/rotational_flattening/common.rs
+++ b/src/effects/rotational_flattening/common.rs
@@ -183,6 +183,9 @@ pub fn calculate_dangular_momentum_dt_induced_by_rotational_flattening(rotationa
     let central_body = true;
     let mut dangular_momentum_dt = Axes{x: 0., y: 0., z:0.};
     for particle in particles.iter_mut().chain(more_particles.iter_mut()) {
+        if let RotationalFlatteningEffect::Disabled = particle.rotational_flattening.effect {
+            continue; // It does not deform the central body
+        }
         if let RotationalFlatteningEffect::CentralBody(rotational_flattening_model) = rotational_flattening_host_particle.rotational_flattening.effect {
             let torque_induced_by_rotational_flattening = match rotational_flattening_model {
                 RotationalFlatteningModel::OblateSpheroid(_) => oblate_spheroid::calculate_torque_induced_by_rotational_flattening(&rotational_flattening_host_particle, &particle, central_body),
-- 
2.43.0


From bbfc7d56d431318142a6fb7fda50a1c4637110a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:29 +0000
Subject: [PATCH 22/47] fix: wrong coefficient in the Kaula eccentricity
 function G_20,2

---
 src/effects/tides/kaula.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/effects/tides/kaula.rs b/src/effects/tides/kaula.rs
index 4f49174..87e0e08 100644
--- a/src/effects/tides/kaula.rs
+++ b/src/effects/tides/kaula.rs
@@ -1239,7 +1239,7 @@ impl Polynomials {
         self.eccentricity_function_g_2pq[0][6] = -0.5 * ecc + (1. / 16.) * ecc_3 - (5. / 384.) * ecc_5 - (143. / 18432.) * ecc_7;
         self.eccentricity_function_g_2pq[0][7] = 1. - (5. / 2.) * ecc_2 + (13. / 16.) * ecc_4 - (35. / 288.) * ecc_6;
         self.eccentricity_function_g_2pq[0][8] = (7. / 2.) * ecc - (123. / 16.) * ecc_3 + (489. / 128.) * ecc_5 - (1763. / 2048.) * ecc_7;
-        self.eccentricity_function_g_2pq[0][9] = (17. / 2.) * ecc_2 - (115. / 16.) * ecc_4 + (601. / 48.) * ecc_6;
+        self.eccentricity_function_g_2pq[0][9] = (17. / 2.) * ecc_2 - (115. / 6.) * ecc_4 + (601. / 48.) * ecc_6;
         self.eccentricity_function_g_2pq[0][10] = (845. / 48.) * ecc_3 - (32525. / 768.) * ecc_5 + (208225. / 6144.) * ecc_7;
         self.eccentricity_function_g_2pq[0][11] = (533. / 16.) * ecc_4 - (13827. / 160.) * ecc_6;
         self.eccentricity_function_g_2pq[0][12] = (228347. / 3840.) * ecc_5 - (3071075. / 18432.) * ecc_7;
@@ -1315,7 +1315,7 @@ impl Polynomials {
         self.eccentricity_function_g_20q[6] = -0.5 * ecc + (1. / 16.) * ecc_3 - (5. / 384.) * ecc_5 - (143. / 18432.) * ecc_7;
         self.eccentricity_function_g_20q[7] = 1. - (5. / 2.) * ecc_2 + (13. / 16.) * ecc_4 - (35. / 288.) * ecc_6;
         self.eccentricity_function_g_20q[8] = (7. / 2.) * ecc - (123. / 16.) * ecc_3 + (489. / 128.) * ecc_5 - (1763. / 2048.) * ecc_7;
-        self.eccentricity_function_g_20q[9] = (17. / 2.) * ecc_2 - (115. / 16.) * ecc_4 + (601. / 48.) * ecc_6;
+        self.eccentricity_function_g_20q[9] = (17. / 2.) * ecc_2 - (115. / 6.) * ecc_4 + (601. / 48.) * ecc_6;
         self.eccentricity_function_g_20q[10] = (845. / 48.) * ecc_3 - (32525. / 768.) * ecc_5 + (208225. / 6144.) * ecc_7;
         self.eccentricity_function_g_20q[11] = (533. / 16.) * ecc_4 - (13827. / 160.) * ecc_6;
         self.eccentricity_function_g_20q[12] = (228347. / 3840.) * ecc_5 - (3071075. / 18432.) * ecc_7;
-- 
2.43.0


From 2da4f82620c496108405ae0103e8b2e0ca7e7c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:29 +0000
Subject: [PATCH 23/47] fix: the Kaula radial force on a circular orbit used
 the dissipative part of the Love number

---
 src/effects/tides/kaula.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/effects/tides/kaula.rs b/src/effects/tides/kaula.rs
index 87e0e08..aa1c6b7 100644
--- a/src/effects/tides/kaula.rs
+++ b/src/effects/tides/kaula.rs
@@ -186,8 +186,8 @@ fn calculate_radial_component_of_the_tidal_force(
             let frequ_2010 = calculate_tidal_excitation_frequency_mode_sigma_2mpq(0., 1., 0., spin, orbital_frequency);
             let frequ_2200 = calculate_tidal_excitation_frequency_mode_sigma_2mpq(2., 0., 0., spin, orbital_frequency);
             let (rek2_2010, _imk2_2010) = calculate_kaula_numbers(frequ_2010, kaula_param, central_body);
-            let (_rek2_2200, imk2_2200) = calculate_kaula_numbers(frequ_2200, kaula_param, central_body);
-            radial_force = cste * ((3_f64 / 4_f64) * rek2_2010 + (9_f64 / 4_f64) * imk2_2200);
+            let (rek2_2200, _imk2_2200) = calculate_kaula_numbers(frequ_2200, kaula_param, central_body);
+            radial_force = cste * ((3_f64 / 4_f64) * rek2_2010 + (9_f64 / 4_f64) * rek2_2200);
             radial_force_secular = radial_force;
         } else {
             //  --- If eccentric orbit
-- 
2.43.0


From 41a2e20416771825a3c1285354c94bedbc93ed61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:25 +0000
Subject: [PATCH 24/47] fix: Kaula tides used the orbit about the most massive
 body instead of the one about the tidal host

---
 src/effects/tides/kaula.rs | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/effects/tides/kaula.rs b/src/effects/tides/kaula.rs
index aa1c6b7..ac455d3 100644
--- a/src/effects/tides/kaula.rs
+++ b/src/effects/tides/kaula.rs
@@ -63,14 +63,14 @@ fn calculate_tidal_force_component(tidal_host_particle: &mut Particle, particle:
     // !central_body ==> planetary tide ==> particle is the planet
     // central_body ==> stellar tide ==> tidal_host_particle is the planet
     if !central_body {
-        keplerian_elements = tools::calculate_keplerian_orbital_elements(gm, particle.heliocentric_position, particle.heliocentric_velocity);
+        keplerian_elements = tools::calculate_keplerian_orbital_elements(gm, particle.tides.coordinates.position, particle.tides.coordinates.velocity);
         radial_distance = particle.tides.parameters.internal.distance;
         coplanar_distance = (particle.tides.coordinates.position.x.powi(2) + particle.tides.coordinates.position.y.powi(2)).sqrt();
         cos_theta = particle.tides.coordinates.position.z / radial_distance;
         cos_phi = particle.tides.coordinates.position.x / coplanar_distance;
         sin_phi = particle.tides.coordinates.position.y / coplanar_distance;
     } else {
-        keplerian_elements = tools::calculate_keplerian_orbital_elements(gm, tidal_host_particle.heliocentric_position, tidal_host_particle.heliocentric_velocity);
+        keplerian_elements = tools::calculate_keplerian_orbital_elements(gm, tidal_host_particle.tides.coordinates.position, tidal_host_particle.tides.coordinates.velocity);
         radial_distance = tidal_host_particle.tides.parameters.internal.distance;
         coplanar_distance = (tidal_host_particle.tides.coordinates.position.x.powi(2) + tidal_host_particle.tides.coordinates.position.y.powi(2)).sqrt();
         cos_theta = tidal_host_particle.tides.coordinates.position.z / radial_distance;
@@ -154,11 +154,11 @@ fn calculate_radial_component_of_the_tidal_force(
     let orbital_frequency: f64;
 
     if !central_body {
-        tem_radius = particle.heliocentric_distance;
-        obliquity = tools::calculate_inclination_orbital_equatorial_plane(particle.heliocentric_position, particle.heliocentric_velocity, particle.spin);
+        tem_radius = particle.tides.parameters.internal.distance;
+        obliquity = tools::calculate_inclination_orbital_equatorial_plane(particle.tides.coordinates.position, particle.tides.coordinates.velocity, particle.spin);
     } else {
-        tem_radius = -tidal_host_particle.heliocentric_distance;
-        obliquity = tools::calculate_inclination_orbital_equatorial_plane(tidal_host_particle.heliocentric_position, tidal_host_particle.heliocentric_velocity, particle.spin);
+        tem_radius = -tidal_host_particle.tides.parameters.internal.distance;
+        obliquity = tools::calculate_inclination_orbital_equatorial_plane(tidal_host_particle.tides.coordinates.position, tidal_host_particle.tides.coordinates.velocity, particle.spin);
     }
     argument_perihelion = longitude_perihelion - longitude_of_ascending_node;
     orbital_frequency = TWO_PI / (orbital_period * DAY); // The orbital mean motion in [rad.s^-1]
@@ -252,11 +252,11 @@ fn calculate_radial_component_of_the_tidal_force(
 
         if !central_body {
             // inclination = tools::calculate_inclination_orbital_equatorial_plane(particle.heliocentric_position, particle.heliocentric_velocity, particle.spin);
-            heliocentric_r = particle.heliocentric_distance;
+            heliocentric_r = particle.tides.parameters.internal.distance;
             particle_star_2 = tidal_host_particle.mass.powi(2);
         } else {
             // inclination = tools::calculate_inclination_orbital_equatorial_plane(tidal_host_particle.heliocentric_position, tidal_host_particle.heliocentric_velocity, tidal_host_particle.spin);
-            heliocentric_r = tidal_host_particle.heliocentric_distance;
+            heliocentric_r = tidal_host_particle.tides.parameters.internal.distance;
             particle_star_2 = particle.mass.powi(2);
         }
         particle_radius_5 = particle.radius.powi(5);
@@ -397,9 +397,9 @@ fn calculate_normal_component_of_the_tidal_force(
 
     let obliquity: f64;
     if !central_body {
-        obliquity = tools::calculate_inclination_orbital_equatorial_plane(particle.heliocentric_position, particle.heliocentric_velocity, particle.spin);
+        obliquity = tools::calculate_inclination_orbital_equatorial_plane(particle.tides.coordinates.position, particle.tides.coordinates.velocity, particle.spin);
     } else {
-        obliquity = tools::calculate_inclination_orbital_equatorial_plane(tidal_host_particle.heliocentric_position, tidal_host_particle.heliocentric_velocity, particle.spin);
+        obliquity = tools::calculate_inclination_orbital_equatorial_plane(tidal_host_particle.tides.coordinates.position, tidal_host_particle.tides.coordinates.velocity, particle.spin);
     }
     let spin: f64 = particle.norm_spin_vector_2.sqrt() / DAY; // The planetary spin in [rad.s^-1]
     let normal_force: f64;
@@ -417,11 +417,11 @@ fn calculate_normal_component_of_the_tidal_force(
 
         if !central_body {
             // inclination = tools::calculate_inclination_orbital_equatorial_plane(particle.heliocentric_position, particle.heliocentric_velocity, particle.spin);
-            heliocentric_r = particle.heliocentric_distance;
+            heliocentric_r = particle.tides.parameters.internal.distance;
             particle_star_2 = tidal_host_particle.mass.powi(2);
             particle_radius_5 = particle.radius.powi(5);
         } else {
-            heliocentric_r = tidal_host_particle.heliocentric_distance;
+            heliocentric_r = tidal_host_particle.tides.parameters.internal.distance;
             particle_star_2 = particle.mass.powi(2);
             particle_radius_5 = tidal_host_particle.radius.powi(5);
         }
@@ -655,9 +655,9 @@ fn calculate_orthogonal_component_of_the_tidal_force(
     let cste_2d: f64;
 
     if !central_body {
-        tem_radius = particle.heliocentric_distance;
+        tem_radius = particle.tides.parameters.internal.distance;
         // inclination = tools::calculate_inclination_orbital_equatorial_plane(particle.heliocentric_position, particle.heliocentric_velocity, particle.spin);
-        obliquity = tools::calculate_inclination_orbital_equatorial_plane(particle.heliocentric_position, particle.heliocentric_velocity, particle.spin);
+        obliquity = tools::calculate_inclination_orbital_equatorial_plane(particle.tides.coordinates.position, particle.tides.coordinates.velocity, particle.spin);
         // spin = particle.norm_spin_vector_2.sqrt() / DAY; // The planetary spin in [rad.s^-1]
         distance = (particle.tides.coordinates.position.x.powi(2) + particle.tides.coordinates.position.y.powi(2) + particle.tides.coordinates.position.z.powi(2)).sqrt();
         coplanar_distance = (particle.tides.coordinates.position.x.powi(2) + particle.tides.coordinates.position.y.powi(2)).sqrt();
@@ -665,8 +665,8 @@ fn calculate_orthogonal_component_of_the_tidal_force(
         cste_2d = -(G * tidal_host_particle.mass.powi(2) * particle.radius.powi(5)) / (semi_major_axis.powi(6) * tem_radius * sin_theta);
     } else {
         // inclination = tools::calculate_inclination_orbital_equatorial_plane(tidal_host_particle.heliocentric_position, tidal_host_particle.heliocentric_velocity, tidal_host_particle.spin);
-        tem_radius = -tidal_host_particle.heliocentric_distance;
-        obliquity = tools::calculate_inclination_orbital_equatorial_plane(tidal_host_particle.heliocentric_position, tidal_host_particle.heliocentric_velocity, particle.spin);
+        tem_radius = -tidal_host_particle.tides.parameters.internal.distance;
+        obliquity = tools::calculate_inclination_orbital_equatorial_plane(tidal_host_particle.tides.coordinates.position, tidal_host_particle.tides.coordinates.velocity, particle.spin);
         // spin = tidal_host_particle.norm_spin_vector_2.sqrt() / DAY; // The planetary spin in [rad.s^-1]
         distance = (tidal_host_particle.tides.coordinates.position.x.powi(2) + tidal_host_particle.tides.coordinates.position.y.powi(2) + tidal_host_particle.tides.coordinates.position.z.powi(2)).sqrt();
         coplanar_distance = (tidal_host_particle.tides.coordinates.position.x.powi(2) + tidal_host_particle.tides.coordinates.position.y.powi(2)).sqrt();
-- 
2.43.0


From 881fe4d84816e9249662ac655c669b1b1e24f693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:18 +0000
Subject: [PATCH 25/47] fix: Anderson1975 and Newhall1983 use accelerations of
 the current positions

WHFast only computes the inertial accelerations at the middle of the step
(and without the ignored terms), so the relativistic correction was
evaluated with stale accelerations (zero for the first half-step).
---
 src/effects/general_relativity.rs | 60 ++++++++++++-------------------
 src/particles/universe.rs         |  8 ++---
 2 files changed, 26 insertions(+), 42 deletions(-)

diff --git a/src/effects/general_relativity.rs b/src/effects/general_relativity.rs
index d1c86b4..6162703 100644
--- a/src/effects/general_relativity.rs
+++ b/src/effects/general_relativity.rs
@@ -5,7 +5,6 @@ use serde::{Serialize, Deserialize};
 use super::super::constants::{G, SPEED_OF_LIGHT_2, MAX_PARTICLES, DBL_EPSILON_2};
 use super::super::{Particle};
 use super::super::{Axes};
-use super::super::particles::universe::{IgnoreGravityTerms};
 
 #[derive(Debug, Copy, Clone, Serialize, Deserialize, PartialEq)]
 pub struct GeneralRelativityParticleInternalParameters {
@@ -458,12 +457,12 @@ fn calculate_kidder1995_spin_orbit_general_relativity_acceleration_and_dangular_
 ////////////////////////////////////////////////////////////////////////////
 //--------------------------------------------------------------------------
 // [start] General Relativity based on REBOUNDx gr.c
-pub fn calculate_anderson1975_general_relativity_acceleration(host_particle: &mut Particle, particles: &mut [Particle], more_particles: &mut [Particle], ignored_gravity_terms: IgnoreGravityTerms) {
+pub fn calculate_anderson1975_general_relativity_acceleration(host_particle: &mut Particle, particles: &mut [Particle], more_particles: &mut [Particle]) {
     // Calculate Newtonian accelerations in the current setup and considering all particles
     let mut host_particle = host_particle;
     let mut particles = particles;
     let mut more_particles = more_particles;
-    let (host_newtonian_inertial_accelerations, newtonian_inertial_accelerations) = get_anderson1975_newhall1983_newtonian_inertial_accelerations(&mut host_particle, &mut particles, &mut more_particles, ignored_gravity_terms);
+    let (host_newtonian_inertial_accelerations, newtonian_inertial_accelerations) = get_anderson1975_newhall1983_newtonian_inertial_accelerations(&mut host_particle, &mut particles, &mut more_particles);
 
     // Transform to Jacobi coordinates
     let (jacobi_star_mass, _jacobi_star_position, _jacobi_star_velocity, _jacobi_star_acceleration, jacobi_particles_positions, jacobi_particles_velocities, mut jacobi_particles_accelerations) = anderson1975_general_relativity_inertial_to_jacobi_posvelacc(&host_particle, &particles, &more_particles, host_newtonian_inertial_accelerations, newtonian_inertial_accelerations);
@@ -638,40 +637,27 @@ fn anderson1975_general_relativity_jacobi_to_inertial_acc(particles: &mut [Parti
 //--------------------------------------------------------------------------
 ////////////////////////////////////////////////////////////////////////////
 
-fn get_anderson1975_newhall1983_newtonian_inertial_accelerations(host_particle: &mut Particle, particles: &mut [Particle], more_particles: &mut [Particle], ignored_gravity_terms: IgnoreGravityTerms) -> (Axes, [Axes; MAX_PARTICLES-1]) {
+fn get_anderson1975_newhall1983_newtonian_inertial_accelerations(host_particle: &mut Particle, particles: &mut [Particle], more_particles: &mut [Particle]) -> (Axes, [Axes; MAX_PARTICLES-1]) {
     let mut host_newtonian_inertial_accelerations = Axes{x:0., y:0., z:0. };
     let mut newtonian_inertial_accelerations = [Axes{x:0., y:0., z:0. }; MAX_PARTICLES-1]; 
-    host_newtonian_inertial_accelerations.x = host_particle.inertial_acceleration.x;
-    host_newtonian_inertial_accelerations.y = host_particle.inertial_acceleration.y;
-    host_newtonian_inertial_accelerations.z = host_particle.inertial_acceleration.z;
-    for (newtonian_acceleration, particle) in newtonian_inertial_accelerations.iter_mut().zip(particles.iter_mut().chain(more_particles.iter_mut())) {
-        newtonian_acceleration.x = particle.inertial_acceleration.x;
-        newtonian_acceleration.y = particle.inertial_acceleration.y;
-        newtonian_acceleration.z = particle.inertial_acceleration.z;
-    }
-    // If some terms where ignored by the integrator, they should be added
-    if ignored_gravity_terms == IgnoreGravityTerms::WHFastOne || ignored_gravity_terms == IgnoreGravityTerms::WHFastTwo {
-        let n_particles;
-        if ignored_gravity_terms == IgnoreGravityTerms::WHFastOne {
-            n_particles = 2 - 1; // Only host - next particle interaction, and the host is already out of the particles vector
-        } else {
-            n_particles = particles.len() + more_particles.len();
-        }
-        for (newtonian_acceleration, particle) in newtonian_inertial_accelerations[..n_particles].iter_mut().zip(particles.iter_mut().chain(more_particles.iter_mut())) {
-            let dx = host_particle.inertial_position.x - particle.inertial_position.x;
-            let dy = host_particle.inertial_position.y - particle.inertial_position.y;
-            let dz = host_particle.inertial_position.z - particle.inertial_position.z;
-            let r2 = dx.powi(2) + dy.powi(2) + dz.powi(2);
-            let r = r2.sqrt();
-            let prefac = G/(r2*r);
-            let prefac_mass_star = prefac*host_particle.mass;
-            let prefac_mass_particle = prefac*particle.mass;
-            host_newtonian_inertial_accelerations.x -= prefac_mass_particle*dx;
-            host_newtonian_inertial_accelerations.y -= prefac_mass_particle*dy;
-            host_newtonian_inertial_accelerations.z -= prefac_mass_particle*dz;
-            newtonian_acceleration.x += prefac_mass_star*dx;
-            newtonian_acceleration.y += prefac_mass_star*dy;
-            newtonian_acceleration.z += prefac_mass_star*dz;
+    // The inertial accelerations stored in the particles cannot be used here: WHFast computes
+    // them (without the ignored terms) only at the middle of the step, they do not correspond to
+    // the current positions when it evaluates the additional effects
+    for (i, (newtonian_acceleration, particle_i)) in iter::once(&mut host_newtonian_inertial_accelerations).chain(newtonian_inertial_accelerations.iter_mut())
+                                    .zip(iter::once(&*host_particle).chain(particles.iter()).chain(more_particles.iter())) // zip will pick the lowest common number of elements
+                                    .enumerate() {
+        for (j, particle_j) in iter::once(&*host_particle).chain(particles.iter()).chain(more_particles.iter()).enumerate() {
+            if i != j {
+                let dx = particle_j.inertial_position.x - particle_i.inertial_position.x;
+                let dy = particle_j.inertial_position.y - particle_i.inertial_position.y;
+                let dz = particle_j.inertial_position.z - particle_i.inertial_position.z;
+                let r2 = dx.powi(2) + dy.powi(2) + dz.powi(2);
+                let r = r2.sqrt();
+                let prefac_mass = G/(r2*r)*particle_j.mass;
+                newtonian_acceleration.x += prefac_mass*dx;
+                newtonian_acceleration.y += prefac_mass*dy;
+                newtonian_acceleration.z += prefac_mass*dz;
+            }
         }
     }
     return (host_newtonian_inertial_accelerations, newtonian_inertial_accelerations);
@@ -680,7 +666,7 @@ fn get_anderson1975_newhall1983_newtonian_inertial_accelerations(host_particle:
 ////////////////////////////////////////////////////////////////////////////
 //--------------------------------------------------------------------------
 // [start] General Relativity FULL based on REBOUNDx gr.c
-pub fn calculate_newhall1983_general_relativity_acceleration(host_particle: &mut Particle, particles: &mut [Particle], more_particles: &mut [Particle], ignored_gravity_terms: IgnoreGravityTerms) {
+pub fn calculate_newhall1983_general_relativity_acceleration(host_particle: &mut Particle, particles: &mut [Particle], more_particles: &mut [Particle]) {
     // host_particle is separated from particles for homogeneity with the rest of methods,
     // but this implementation of General Relativity does not uses a host, all
     // interactions between all the bodies are computed
@@ -696,7 +682,7 @@ pub fn calculate_newhall1983_general_relativity_acceleration(host_particle: &mut
     let mut host_particle = host_particle;
     let mut particles = particles;
     let mut more_particles = more_particles;
-    let (host_newtonian_inertial_accelerations, newtonian_inertial_accelerations) = get_anderson1975_newhall1983_newtonian_inertial_accelerations(&mut host_particle, &mut particles, &mut more_particles, ignored_gravity_terms);
+    let (host_newtonian_inertial_accelerations, newtonian_inertial_accelerations) = get_anderson1975_newhall1983_newtonian_inertial_accelerations(&mut host_particle, &mut particles, &mut more_particles);
 
     for (i, ((particle_i, drs_i), rs_i)) in 
                                     iter::once(&*host_particle).chain(particles.iter()).chain(more_particles.iter()) // zip will pick the lowest common number of elements
diff --git a/src/particles/universe.rs b/src/particles/universe.rs
index a1ede9b..0af1c28 100644
--- a/src/particles/universe.rs
+++ b/src/particles/universe.rs
@@ -425,7 +425,7 @@ impl Universe {
         }
     }
 
-    pub fn calculate_additional_effects(&mut self, current_time: f64, evolution: bool, dangular_momentum_dt: bool, accelerations: bool, ignored_gravity_terms: IgnoreGravityTerms) {
+    pub fn calculate_additional_effects(&mut self, current_time: f64, evolution: bool, dangular_momentum_dt: bool, accelerations: bool, _ignored_gravity_terms: IgnoreGravityTerms) {
         self.calculate_spin_and_evolving_quantities(current_time, evolution); // Make sure we start with the good initial values
         self.initialize(dangular_momentum_dt, accelerations);
 
@@ -498,13 +498,11 @@ impl Universe {
                         },
                         GeneralRelativityImplementation::Anderson1975 => {
                             general_relativity::calculate_anderson1975_general_relativity_acceleration(&mut general_relativity_host_particle, 
-                                                                                                       &mut particles_left, &mut particles_right, 
-                                                                                                       ignored_gravity_terms);
+                                                                                                       &mut particles_left, &mut particles_right);
                         },
                         GeneralRelativityImplementation::Newhall1983 => {
                             general_relativity::calculate_newhall1983_general_relativity_acceleration(&mut general_relativity_host_particle, 
-                                                                                                      &mut particles_left, &mut particles_right, 
-                                                                                                      ignored_gravity_terms);
+                                                                                                      &mut particles_left, &mut particles_right);
                         },
                         GeneralRelativityImplementation::Disabled => {},
                     }
-- 
2.43.0


From deb9887594de7d79523265291c772aeed4fcbc9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:04 +0000
Subject: [PATCH 26/47] fix: LeapFrog keeps the Kidder1995 spin torque in the
 first half of the step

The torque was only computed together with the accelerations, half of it
was lost with LeapFrog.
---
 src/particles/universe.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/particles/universe.rs b/src/particles/universe.rs
index 0af1c28..5617e95 100644
--- a/src/particles/universe.rs
+++ b/src/particles/universe.rs
@@ -487,7 +487,7 @@ impl Universe {
                 }
             }
         }
-        if accelerations && self.consider_effects.general_relativity {
+        if (accelerations || (dangular_momentum_dt && self.general_relativity_implementation == GeneralRelativityImplementation::Kidder1995)) && self.consider_effects.general_relativity {
             let (mut particles_left, particles_right) = particles.split_at_mut(self.hosts.index.general_relativity);
             if let Some((mut general_relativity_host_particle, mut particles_right)) = particles_right.split_first_mut() {
                 if let GeneralRelativityEffect::CentralBody(general_relativity_implementation) = general_relativity_host_particle.general_relativity.effect {
-- 
2.43.0


From 50e3785f3f2d5c7a8742675f051fa700e4df61d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:47 +0000
Subject: [PATCH 27/47] fix: WHFast Kepler solver always terminates

An infinite argument never left the reduction loop of the Stumpff functions,
and the bisection did not end with not-a-number bounds.
---
 src/integrator/whfast.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/integrator/whfast.rs b/src/integrator/whfast.rs
index ee591e2..fa50c70 100644
--- a/src/integrator/whfast.rs
+++ b/src/integrator/whfast.rs
@@ -799,7 +799,7 @@ impl WHFast {
                 }
                 x = (x_max + x_min)/2.;
 
-                if (x_max-x_min).abs()/x_max <= 1e-15 {
+                if !((x_max-x_min).abs()/x_max > 1e-15) {
                     break;
                 }
             }
@@ -846,7 +846,7 @@ impl WHFast {
         let invfactorial: [f64; 35] = [1., 1., 1./2., 1./6., 1./24., 1./120., 1./720., 1./5040., 1./40320., 1./362880., 1./3628800., 1./39916800., 1./479001600., 1./6227020800., 1./87178291200., 1./1307674368000., 1./20922789888000., 1./355687428096000., 1./6402373705728000., 1./121645100408832000., 1./2432902008176640000., 1./51090942171709440000., 1./1124000727777607680000., 1./25852016738884976640000., 1./620448401733239439360000., 1./15511210043330985984000000., 1./403291461126605635584000000., 1./10888869450418352160768000000., 1./304888344611713860501504000000., 1./8841761993739701954543616000000., 1./265252859812191058636308480000000., 1./8222838654177922817725562880000000., 1./263130836933693530167218012160000000., 1./8683317618811886495518194401280000000., 1./295232799039604140847618609643520000000.];
         let mut z = z;
         let mut n = 0;
-        while z.abs() > 0.1 {
+        while z.abs() > 0.1 && z.is_finite() {
             z = z/4.;
             n += 1;
         }
-- 
2.43.0


From 4f6826f3717794ec55292a6e79e5e86963ccd756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:36 +0000
Subject: [PATCH 28/47] fix: creep tides looped forever on an open orbit

---
 src/effects/tides/creep_coplanar.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/effects/tides/creep_coplanar.rs b/src/effects/tides/creep_coplanar.rs
index 319957e..a9e2d8e 100644
--- a/src/effects/tides/creep_coplanar.rs
+++ b/src/effects/tides/creep_coplanar.rs
@@ -511,6 +511,11 @@ fn calculate_true_anomaly(eccentricity: f64, mean_anomaly: f64) -> f64 {
     let mut eccentric_anomaly_1: f64;
     let true_anomaly: f64;
 
+    if eccentricity >= 1.0 {
+        // The iterations below converge only for closed orbits
+        panic!("Creep coplanar tides require closed orbits (eccentricity {} is not below 1)", eccentricity);
+    }
+
     while difference > precision {
         eccentric_anomaly_1 = mean_anomaly + eccentricity * eccentric_anomaly_0.sin();
         difference = (eccentric_anomaly_1 - eccentric_anomaly_0).abs();
-- 
2.43.0


From 50b6f4997cd792f515d9a57267daafb63ccc47ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:11:26 +0000
Subject: [PATCH 29/47] fix: negative mean anomalies are reduced to the right
 orbit position

The floored modulus is already positive: adding another turn left the
anomaly between -2 pi and 0 after folding.
---
 src/tools.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/tools.rs b/src/tools.rs
index a74ac36..28c567d 100644
--- a/src/tools.rs
+++ b/src/tools.rs
@@ -431,11 +431,7 @@ fn kepler_solution_for_eccentrities_smaller_than_one(e: f64, oldl: f64) -> f64 {
     let piby2 = 0.5 * PI;
   
     // Reduce mean anomaly to lie in the range 0 < l < pi
-    if oldl >= 0. {
-       l = modulus(oldl, TWO_PI);
-    } else {
-       l = (modulus(oldl, TWO_PI)) + TWO_PI;
-    }
+    l = modulus(oldl, TWO_PI);
     let mut sign = 1.;
     if l > PI {
        l = TWO_PI - l;
-- 
2.43.0


From 36c223bad478cfa19494afbf8d0953d0987d770e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:11:48 +0000
Subject: [PATCH 30/47] fix: negative mean anomalies are reduced to the right
 orbit position in Python

---
 posidonius/tools.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/posidonius/tools.py b/posidonius/tools.py
index 4d4800c..f63f29d 100644
--- a/posidonius/tools.py
+++ b/posidonius/tools.py
@@ -645,10 +645,7 @@ def kepler_solution_for_eccentrities_smaller_than_one(e, oldl):
     piby2 = 0.5 * PI
 
     # Reduce mean anomaly to lie in the range 0 < l < pi
-    if oldl >= 0.:
-       l = modulus(oldl, TWO_PI)
-    else:
-       l = (modulus(oldl, TWO_PI)) + TWO_PI
+    l = modulus(oldl, TWO_PI)
 
     sign = 1.
     if l > PI:
-- 
2.43.0


From 0dc58558e33418eae909afbc2e9bba7cc3e38aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:26 +0000
Subject: [PATCH 31/47] fix: the tidal heat of the first historic snapshot was
 not a number

Before the first force evaluation the tidal distance is zero.
---
 src/effects/tides/common.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/effects/tides/common.rs b/src/effects/tides/common.rs
index 52cc6db..81ccc8f 100644
--- a/src/effects/tides/common.rs
+++ b/src/effects/tides/common.rs
@@ -263,6 +263,10 @@ pub fn calculate_dangular_momentum_dt_due_to_tides(tidal_host_particle: &mut Par
 pub fn calculate_denergy_dt(particles: &mut [Particle], more_particles: &mut [Particle]) {
     for particle in particles.iter_mut().chain(more_particles.iter_mut()) {
         if let TidesEffect::OrbitingBody(_) = particle.tides.effect {
+            if particle.tides.parameters.internal.distance == 0. {
+                // The tidal forces have not been evaluated yet (first historic snapshot)
+                continue;
+            }
             // - Equation 32 from Bolmont et al. 2015
             //// Instantaneous energy loss dE/dt due to tides
             //// in Msun.AU^2.day^(-3)
-- 
2.43.0


From 0161ddcd6313e56f1f8016379fb0fc13140adc45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:49 +0000
Subject: [PATCH 32/47] fix: a truncated WHFast snapshot was restored as a
 LeapFrog simulation

The binary layout of LeapFrog is nearly a prefix of the one of WHFast, so a
snapshot cut short by a crash was resumed with another integrator and
meaningless settings. Files with data left after the integrator are refused.
---
 src/integrator/output.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/integrator/output.rs b/src/integrator/output.rs
index 38a0662..5adb67a 100644
--- a/src/integrator/output.rs
+++ b/src/integrator/output.rs
@@ -11,6 +11,7 @@ use super::super::tools::calculate_keplerian_orbital_elements;
 use bincode;
 use time::{OffsetDateTime, format_description};
 use serde::{Serialize};
+use serde::de::DeserializeOwned;
 use serde_json;
 use std::path::Path;
 use std::fs;
@@ -240,11 +241,21 @@ fn deserialize_json_snapshot(snapshot_path: &Path) -> Result<Box<dyn Integrator>
     }
 }
 
+fn deserialize_whole_file<T: DeserializeOwned, R: Read>(reader: &mut R) -> Result<T, bincode::Error> {
+    let deserialized = bincode::deserialize_from(&mut *reader)?;
+    // A truncated snapshot of one integrator can begin like a complete snapshot of
+    // another one, hence accept only files without any remaining data
+    match reader.read(&mut [0u8; 1])? {
+        0 => Ok(deserialized),
+        _ => Err(Box::new(bincode::ErrorKind::Custom(String::from("Unexpected data after the snapshot")))),
+    }
+}
+
 fn deserialize_bin_snapshot(snapshot_path: &Path) -> Result<Box<dyn Integrator>, String> {
     // Open the path in read-only mode, returns `io::Result<File>`
     let snapshot_file = File::open(&snapshot_path).unwrap();
     let mut reader = BufReader::new(&snapshot_file);
-    let wrapped_universe_integrator: Result<WHFast, bincode::Error> = bincode::deserialize_from(&mut reader);
+    let wrapped_universe_integrator: Result<WHFast, bincode::Error> = deserialize_whole_file(&mut reader);
     match wrapped_universe_integrator {
         Ok(universe_integrator) => {
             println!("[INFO {} UTC] WHFAST Integrator.", OffsetDateTime::now_utc().format(&format_description::parse("[year].[month].[day] [hour]:[minute]:[second]").unwrap()).unwrap());
@@ -254,7 +265,7 @@ fn deserialize_bin_snapshot(snapshot_path: &Path) -> Result<Box<dyn Integrator>,
             // Re-open file because the previous File/BufReader was already consumed
             let snapshot_file = File::open(&snapshot_path).unwrap();
             let mut reader = BufReader::new(&snapshot_file);
-            let wrapped_universe_integrator: Result<Ias15, bincode::Error> = bincode::deserialize_from(&mut reader);
+            let wrapped_universe_integrator: Result<Ias15, bincode::Error> = deserialize_whole_file(&mut reader);
             match wrapped_universe_integrator {
                 Ok(universe_integrator) => {
                     println!("[INFO {} UTC] IAS15 Integrator.", OffsetDateTime::now_utc().format(&format_description::parse("[year].[month].[day] [hour]:[minute]:[second]").unwrap()).unwrap());
@@ -264,7 +275,7 @@ fn deserialize_bin_snapshot(snapshot_path: &Path) -> Result<Box<dyn Integrator>,
                     // Re-open file because the previous File/BufReader was already consumed
                     let snapshot_file = File::open(&snapshot_path).unwrap();
                     let mut reader = BufReader::new(&snapshot_file);
-                    let wrapped_universe_integrator: Result<LeapFrog, bincode::Error> = bincode::deserialize_from(&mut reader);
+                    let wrapped_universe_integrator: Result<LeapFrog, bincode::Error> = deserialize_whole_file(&mut reader);
                     match wrapped_universe_integrator {
                         Ok(universe_integrator) => {
                             println!("[INFO {} UTC] LeapFrog Integrator.", OffsetDateTime::now_utc().format(&format_description::parse("[year].[month].[day] [hour]:[minute]:[second]").unwrap()).unwrap());
-- 
2.43.0


From 434f92f65ddbc613ed9a6caaedb1c369696e2866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:08 +0000
Subject: [PATCH 33/47] fix: creep tides never ended on orbits next to a
 parabola

---
 src/effects/tides/creep_coplanar.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/effects/tides/creep_coplanar.rs b/src/effects/tides/creep_coplanar.rs
index a9e2d8e..8adfe67 100644
--- a/src/effects/tides/creep_coplanar.rs
+++ b/src/effects/tides/creep_coplanar.rs
@@ -516,7 +516,12 @@ fn calculate_true_anomaly(eccentricity: f64, mean_anomaly: f64) -> f64 {
         panic!("Creep coplanar tides require closed orbits (eccentricity {} is not below 1)", eccentricity);
     }
 
+    let mut n_iterations = 0;
     while difference > precision {
+        n_iterations += 1;
+        if n_iterations > 100000 {
+            panic!("Creep coplanar tides require closed orbits (no solution of the Kepler equation for eccentricity {})", eccentricity);
+        }
         eccentric_anomaly_1 = mean_anomaly + eccentricity * eccentric_anomaly_0.sin();
         difference = (eccentric_anomaly_1 - eccentric_anomaly_0).abs();
         eccentric_anomaly_0 = eccentric_anomaly_1;
-- 
2.43.0


From 5165b4f5867c869f17c27df61b17b059337f4c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:53 +0000
Subject: [PATCH 34/47] fix: write errors of the last buffered data were
 silently ignored

---
 src/integrator/output.rs | 4 +++-
 src/main.rs              | 3 +++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/integrator/output.rs b/src/integrator/output.rs
index 5adb67a..b506a62 100644
--- a/src/integrator/output.rs
+++ b/src/integrator/output.rs
@@ -46,11 +46,13 @@ pub fn write_recovery_snapshot<I: Serialize>(snapshot_path: &Path, universe_inte
 
     if snapshot_path.extension().unwrap() == "json" {
         let json_encoded = serde_json::to_string_pretty(&universe_integrator).unwrap();
-        writer.write(json_encoded.as_bytes()).unwrap();
+        writer.write_all(json_encoded.as_bytes()).unwrap();
     } else {
         // Binary
         bincode::serialize_into(&mut writer, &universe_integrator).unwrap(); // bin
     }
+    // Errors are silently ignored if the buffer is written out when the writer is dropped
+    writer.flush().unwrap();
 
 }
 
diff --git a/src/main.rs b/src/main.rs
index 2ca5f12..ae36799 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -3,6 +3,7 @@ extern crate time;
 extern crate clap;
 use clap::{Arg, ArgAction, Command};
 use clap::value_parser;
+use std::io::Write;
 use std::path::Path;
 use std::time::{Duration, Instant};
 use time::{OffsetDateTime, format_description};
@@ -175,6 +176,8 @@ fn main() {
             Err(e) => { println!("[INFO {} UTC] {} '{}'.", OffsetDateTime::now_utc().format(&format_description::parse("[year].[month].[day] [hour]:[minute]:[second]").unwrap()).unwrap(), e, first_universe_integrator_snapshot_filename); break; }
         };
     }
+    // Errors are silently ignored if the buffer is written out when the writer is dropped
+    universe_history_writer.flush().unwrap();
 
     let duration = timer.elapsed(); // duration
     if !resume {
-- 
2.43.0


From b237c186cd592334f444ce1923c45f76d15329b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:24 +0000
Subject: [PATCH 35/47] fix: longitude of perihelion in Python for orbits with
 a node on the x axis and for circular orbits

Without a node angle the projected longitude was returned as if the orbit
lay in the reference plane, and for circular orbits the node was counted
both in the longitude of perihelion and in the mean longitude.
---
 posidonius/tools.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/posidonius/tools.py b/posidonius/tools.py
index f63f29d..f37937f 100644
--- a/posidonius/tools.py
+++ b/posidonius/tools.py
@@ -458,13 +458,13 @@ def _calculate_keplerian_orbital_elements(gm, position, velocity):
         f[small_eccentricity] = l[small_eccentricity]
     #
 
-    non_zero_long_asc_node = n >=1e-8
+    # Circular orbits have no perihelion: p is zero and l is the mean longitude
     arg_peri = np.zeros(len(eccentricity))
     long_asc_node = np.zeros(len(eccentricity))
     incl = np.zeros(len(eccentricity))
-    if np.any(non_zero_long_asc_node):
-        long_asc_node[non_zero_long_asc_node] = n[non_zero_long_asc_node]
-        incl[non_zero_long_asc_node] = i[non_zero_long_asc_node]
+    if np.any(big_eccentricity):
+        long_asc_node[big_eccentricity] = n[big_eccentricity]
+        incl[big_eccentricity] = i[big_eccentricity]
         ex_rot = ex*np.cos(long_asc_node) +ey*np.sin(long_asc_node)
         ey_rot = -ex*np.sin(long_asc_node) +ey*np.cos(long_asc_node)
         ez_rot = ez
@@ -473,7 +473,7 @@ def _calculate_keplerian_orbital_elements(gm, position, velocity):
         _ez_rot_2 = -ey_rot*np.sin(incl) + ez_rot*np.cos(incl)
 
         arg_peri = np.arctan2(ey_rot_2,ex_rot_2)
-        p[non_zero_long_asc_node] = long_asc_node[non_zero_long_asc_node] + arg_peri[non_zero_long_asc_node]
+        p[big_eccentricity] = long_asc_node[big_eccentricity] + arg_peri[big_eccentricity]
         p = modulus((p + TWO_PI + TWO_PI), TWO_PI)
 
     if len(a) == 1:
-- 
2.43.0


From 40c6ca7af0e3b0bfa9af27d75c497dc8c5429b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:56 +0000
Subject: [PATCH 36/47] fix: hyperbolic and parabolic orbits in the Python
 conversions

The low mean anomaly branch returned the mean anomaly, float methods that
do not exist were called, and the mean anomaly of a hyperbola was wrapped
as if it were periodic or clamped when mixed with ellipses.
---
 posidonius/tools.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/posidonius/tools.py b/posidonius/tools.py
index f37937f..28d5faf 100644
--- a/posidonius/tools.py
+++ b/posidonius/tools.py
@@ -380,7 +380,7 @@ def _calculate_keplerian_orbital_elements(gm, position, velocity):
         ce[big_eccentricity] = (v2[big_eccentricity]*r[big_eccentricity] - gm[big_eccentricity]) / (eccentricity[big_eccentricity]*gm[big_eccentricity])
         ellipse = np.logical_and(big_eccentricity, eccentricity < 1.)
         if np.any(ellipse):
-            change_sign = np.logical_and(eccentricity, np.abs(ce) > 1.)
+            change_sign = np.logical_and(ellipse, np.abs(ce) > 1.)
             if np.any(change_sign):
                 ce[change_sign] = np.sign(ce[change_sign])
             bige = np.zeros(len(ce))
@@ -408,10 +408,12 @@ def _calculate_keplerian_orbital_elements(gm, position, velocity):
 
     #if l > TWO_PI:
         #l = modulus(l, TWO_PI)
-    negative_l = l < 0.
+    # The mean anomaly of a hyperbola is not periodic
+    periodic = eccentricity < 1.
+    negative_l = np.logical_and(periodic, l < 0.)
     if np.any(negative_l):
         l[negative_l] += TWO_PI
-    bigger_than_two_pi = l > TWO_PI
+    bigger_than_two_pi = np.logical_and(periodic, l > TWO_PI)
     if np.any(bigger_than_two_pi):
         l[bigger_than_two_pi] = modulus(l[bigger_than_two_pi], TWO_PI)
 
@@ -778,7 +780,7 @@ def kepler_solution_for_a_parabola(q0):
     if q < 1.0e-3:
        eccentric_anomaly = q*(1. - (q*q/3.)*(1. -q*q))
     else:
-       x = 0.5*(3.*q + (9.* np.power(q, 2) + 4.).sqrt())
+       x = 0.5*(3.*q + np.sqrt(9.* np.power(q, 2) + 4.))
        tmp = np.power(x, 1./3.)
        eccentric_anomaly = tmp - 1./tmp
 
@@ -815,7 +817,7 @@ def kepler_solution_for_a_hyperbola(e, n):
 
     if abn < 0.636*e -0.6:
        tmp = kepler_solution_for_a_hyperbola_hybrid_approach_for_low_n(e,n)
-       orbel_fhybrid = tmp[1]
+       orbel_fhybrid = tmp[0]
     else:
        orbel_fhybrid = kepler_solution_for_a_hyperbola_hybrid_approach(e,n)
 
@@ -889,7 +891,7 @@ def kepler_solution_for_a_hyperbola_hybrid_approach_for_low_n(e, capn0):
            dx = -f/fp
            orbel_flon = x + dx
            #   If we have converged here there's no point in going on
-           if dx.abs() < tiny:
+           if np.abs(dx) < tiny:
                 converge = True
                 break
 
-- 
2.43.0


From 15e6e2b0785ce85310f97db6db8b9caafb10616a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:56 +0000
Subject: [PATCH 37/47] fix: Python elements of several orbits of which some
 have the node on the x axis

---
 posidonius/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posidonius/tools.py b/posidonius/tools.py
index 28d5faf..dfef5cb 100644
--- a/posidonius/tools.py
+++ b/posidonius/tools.py
@@ -335,7 +335,7 @@ def _calculate_keplerian_orbital_elements(gm, position, velocity):
             true_longitude[zero] = np.arctan2(y[zero]*ci[zero], x[zero])
     # SBC: Added to Alex/Leon's updated code
     if np.any(~non_zero):
-        true_longitude = np.arctan2(y[~non_zero]*ci[~non_zero], x[~non_zero])
+        true_longitude[~non_zero] = np.arctan2(y[~non_zero]*ci[~non_zero], x[~non_zero])
     # SBC
 
     negative_ci = ci < 0.
-- 
2.43.0


From eb6d1ccd73ff2e270ee47d2be514be8dff325389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:23 +0000
Subject: [PATCH 38/47] fix: history.classify with several bodies and with
 another reference body

The elements of a body were computed while the bodies after it were still in
the inertial frame, and with a reference other than the first body, this one
was taken for a planet and the first one was left out.
---
 posidonius/analysis/history.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/posidonius/analysis/history.py b/posidonius/analysis/history.py
index 7755873..e6830a1 100644
--- a/posidonius/analysis/history.py
+++ b/posidonius/analysis/history.py
@@ -56,9 +56,11 @@ def classify(n_particles, data, reference_particle_index=0, discard_first_hundre
 
     planets_data = {}
     planets_keys = [] # To ensure the order
-    for i in range(n_particles-1):
-        planets_data["{}".format(i+1)] = data[data['particle'] == i+1]
-        planets_keys.append("{}".format(i+1))
+    for i in range(n_particles):
+        if i == reference_particle_index:
+            continue
+        planets_data["{}".format(i)] = data[data['particle'] == i]
+        planets_keys.append("{}".format(i))
 
     # From inertial to heliocentric coordinates
     n_data_points = len(star_data['position_x'])
@@ -70,6 +72,7 @@ def classify(n_particles, data, reference_particle_index=0, discard_first_hundre
         planets_data[key]['velocity_x'] -= star_data['velocity_x']
         planets_data[key]['velocity_y'] -= star_data['velocity_y']
         planets_data[key]['velocity_z'] -= star_data['velocity_z']
+    for key in planets_keys:
         semimajor_axis = []
         eccentricity = []
         inclination = []
-- 
2.43.0


From e435afd7e5b307c90109cff0696881e1f39d4398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:23 +0000
Subject: [PATCH 39/47] fix: the Python ReferenceParticle always raised

---
 posidonius/particles/particle.py | 20 +++-----------------
 1 file changed, 3 insertions(+), 17 deletions(-)

diff --git a/posidonius/particles/particle.py b/posidonius/particles/particle.py
index cbf43fe..83c9b0c 100644
--- a/posidonius/particles/particle.py
+++ b/posidonius/particles/particle.py
@@ -8,24 +8,10 @@ from posidonius import effects
 
 class Reference(object):
     def __init__(self, variant, index=None):
-        self._data = {
-            "effect": "Disabled",
-            "parameters": {
-                "input": {
-                    "k_factor": 0.0,
-                    "rotation_saturation": 0.0,
-                },
-                "internal": {
-                    "rotation_saturation_2": 0.0,
-                },
-                "output": {
-                    "factor": 0.0,
-                },
-            },
-        }
+        self._data = {}
         if variant in ("Particle", ):
             self._data[variant] = int(index)
-        if variant in ("MostMassiveParticle", ):
+        elif variant in ("MostMassiveParticle", ):
             self._data = variant
         else:
             raise Exception("Unknown variant '{}'".format(variant))
@@ -42,7 +28,7 @@ class MostMassiveParticle(Reference):
 
 class ReferenceParticle(Reference):
     def __init__(self, index):
-        super(ReferenceParticle, self).__init__("ReferenceParticle", index=index)
+        super(ReferenceParticle, self).__init__("Particle", index=index)
 
 
 class Particle(object):
-- 
2.43.0


From 697db7bd1d3f763802f1e56358d147d14e0689e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:23 +0000
Subject: [PATCH 40/47] fix: resonance data took the longitude of perihelion
 for the node

---
 posidonius/analysis/resonances.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posidonius/analysis/resonances.py b/posidonius/analysis/resonances.py
index 5420d20..bc5f849 100644
--- a/posidonius/analysis/resonances.py
+++ b/posidonius/analysis/resonances.py
@@ -160,7 +160,7 @@ def calculate_resonance_data(star_data, planets_keys, planets_data):
         e.append(_e)
         # Change from longitude of perihelion to argument of perihelion
         longitude_of_perihelion_degrees = (_p * RAD2DEG) % 360.
-        longitude_of_ascending_node_degrees = (_p * RAD2DEG) % 360.
+        longitude_of_ascending_node_degrees = (_n * RAD2DEG) % 360.
         g.append((longitude_of_perihelion_degrees - longitude_of_ascending_node_degrees) % 360.)
         n.append(longitude_of_ascending_node_degrees)
         M.append((_l * RAD2DEG) % 360.)
-- 
2.43.0


From d333c077f49c4f2dcd2787765e625da56f85fc75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:23 +0000
Subject: [PATCH 41/47] fix: cosine interpolation and the limit of particles in
 Python

---
 posidonius/particles/universe.py | 2 +-
 posidonius/tools.py              | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/posidonius/particles/universe.py b/posidonius/particles/universe.py
index fea685a..9576f1d 100644
--- a/posidonius/particles/universe.py
+++ b/posidonius/particles/universe.py
@@ -71,7 +71,7 @@ class Universe(object):
         self._data['n_particles'] -= 1 # Compensate the addition from the previous add_particle call
 
     def add_particle(self, particle):
-        if self._data['n_particles'] > MAX_PARTICLES:
+        if self._data['n_particles'] >= MAX_PARTICLES:
             raise Exception("Maximum number of particles reached: {}".format(MAX_PARTICLES))
 
         if effects.tides.CentralBody in particle.effects():
diff --git a/posidonius/tools.py b/posidonius/tools.py
index dfef5cb..2e6f512 100644
--- a/posidonius/tools.py
+++ b/posidonius/tools.py
@@ -71,7 +71,7 @@ def cosine_interpolation(target_x, x, y):
         ## Cosine interpolate (http://paulbourke.net/miscellaneous/interpolation/)
         # - Smooth around the real data points (contrary to the linear interpolation)
         target_percent = (target_x - x[left])/(x[right] - x[left]) # Transform target to percent as in transforming x[left]..x[right] to 0..1
-        target_percent = (1. - math.cos(target_percent*PI)) / 2. # Transform target percent so that it gets smoothed when close to 0 or 1 (i.e., closer to x[left] or x[right])
+        target_percent = (1. - np.cos(target_percent*PI)) / 2. # Transform target percent so that it gets smoothed when close to 0 or 1 (i.e., closer to x[left] or x[right])
         target_y = y[left] * (1. - target_percent) + y[right] * target_percent
     return target_y
 
-- 
2.43.0


From f3c3fe76c29a7a9a47e1cea658b8e7cbd68aa45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:35 +0000
Subject: [PATCH 42/47] fix: explore_history wrote no mean tidal flux and no
 pseudo-synchronization period for eccentric orbits

---
 scripts/explore_history.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/scripts/explore_history.py b/scripts/explore_history.py
index 4961433..971dad8 100644
--- a/scripts/explore_history.py
+++ b/scripts/explore_history.py
@@ -115,7 +115,6 @@ if __name__ == "__main__":
         pseudo_rot = alpha * np.sqrt(posidonius.constants.G_SI*posidonius.constants.M_SUN*(star_mass+planet_mass))
         #pseudo_synchronization_period  = 2.*np.pi / (pseudo_rot * (planet_data['semi-major_axis']*AU)**(-3./2.) * posidonius.constants.HOUR) # Hours
         pseudo_synchronization_period  = 2.*np.pi / (pseudo_rot * (planet_data['semi-major_axis']*posidonius.constants.AU)**(-3./2.) * posidonius.constants.DAY) # Days
-        pseudo_synchronization_period[non_zero] = np.nan
         planet_computed_data['pseudo_synchronization_period'] = pseudo_synchronization_period
 
         if universe_integrator_json['universe']['consider_effects']['tides']:
@@ -139,9 +138,9 @@ if __name__ == "__main__":
             mean_tidal_flux = gravitational_energy_lost / (4 * np.pi * np.power(planet_data['radius'] * posidonius.constants.AU, 2))
             tidal_effect = universe_integrator_json['universe']['particles'][int(key)]['tides']['effect']
             if 'OrbitingBody' in tidal_effect:
-                dissipation_factor_scale = tidal_effect.get('ConstantTimeLag', {}).get('dissipation_factor_scale', 0.)
+                dissipation_factor_scale = tidal_effect['OrbitingBody'].get('ConstantTimeLag', {}).get('dissipation_factor_scale', 0.)
             elif 'CentralBody' in tidal_effect:
-                dissipation_factor_scale = tidal_effect.get('ConstantTimeLag', {}).get('dissipation_factor_scale', 0.)
+                dissipation_factor_scale = tidal_effect['CentralBody'].get('ConstantTimeLag', {}).get('dissipation_factor_scale', 0.)
             else:
                 dissipation_factor_scale = 0.
             mean_tidal_flux *= dissipation_factor_scale
-- 
2.43.0


From e039e31a97fb887cc36de7c17a8a5ea337f881f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:28 +0000
Subject: [PATCH 43/47] fix: Python compared the end of the evolution table
 with the initial time instead of the time limit

---
 posidonius/particles/universe.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/posidonius/particles/universe.py b/posidonius/particles/universe.py
index 9576f1d..4de6179 100644
--- a/posidonius/particles/universe.py
+++ b/posidonius/particles/universe.py
@@ -130,8 +130,8 @@ class Universe(object):
         evolver = particle.get_evolver(self._data['initial_time'])
         if len(evolver['time']) > 0 and evolver['time'][0] > 0.:
             raise Exception("Your initial time ({} days | {:.2e} years) is smaller than the minimum allowed age of the star ({} days | {:.2e} years)".format(self._data['initial_time'], self._data['initial_time']/365.25, evolver['time'][0]+self._data['initial_time'], (evolver['time'][0]+self._data['initial_time'])/365.25));
-        if len(evolver['time']) > 0 and evolver['time'][-1] < self._data['initial_time']:
-            raise Exception("Your time limit ({} days | {:.2e} years) is greater than the maximum allowed age of the star ({} days | {:.2e} years)", self._data['initial_time'], self._data['initial_time']/365.25, evolver['time'][0], evolver['time'][0]/365.25)
+        if len(evolver['time']) > 0 and evolver['time'][-1] < self._data['time_limit']:
+            raise Exception("Your time limit ({} days | {:.2e} years) is greater than the maximum allowed age of the star ({} days | {:.2e} years)".format(self._data['time_limit'], self._data['time_limit']/365.25, evolver['time'][-1], evolver['time'][-1]/365.25))
 
         if particle.evolution() != effects.evolution.NonEvolving and self._data["consider_effects"]["evolution"]:
             # Check if input radius is close enough to evolved radius at the corresponding time and update it + angular momentum if not
-- 
2.43.0


From 6e312003678e065024705177967b776b098fd549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:28 +0000
Subject: [PATCH 44/47] fix: input files not found when posidonius is installed
 (missing path separator)

---
 posidonius/constants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posidonius/constants.py b/posidonius/constants.py
index 4a05f8a..e71eaab 100644
--- a/posidonius/constants.py
+++ b/posidonius/constants.py
@@ -2,7 +2,7 @@ import numpy as np
 import os
 
 MAX_PARTICLES = 10
-BASE_DIR = os.path.dirname(os.path.realpath(__file__))
+BASE_DIR = os.path.dirname(os.path.realpath(__file__)) + "/"
 if not os.path.exists(BASE_DIR+"/input/"):
     BASE_DIR = os.path.dirname(os.path.realpath(__file__)) + "/../"
     if not os.path.exists(BASE_DIR+"/input/"):
-- 
2.43.0


From 24578dfd8c95467589a7031761b50957ddd0d049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:28 +0000
Subject: [PATCH 45/47] fix: explore_timed_resonances failed with more than 500
 snapshots

---
 scripts/explore_timed_resonances.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/explore_timed_resonances.py b/scripts/explore_timed_resonances.py
index 32ef410..5b2251c 100644
--- a/scripts/explore_timed_resonances.py
+++ b/scripts/explore_timed_resonances.py
@@ -67,7 +67,7 @@ if __name__ == "__main__":
 
     # If the user require more measurement than timestep available, we force to have nb_measurements equal the number of timestep
     if (NB_MEASUREMENTS < max_lengths):
-        time_delay = max_lengths / NB_MEASUREMENTS
+        time_delay = max_lengths // NB_MEASUREMENTS
     else:
         time_delay = 1
 
-- 
2.43.0


From ff8f3e77a28af1daaa95cd0770a566e84ec37892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:28 +0000
Subject: [PATCH 46/47] fix: Python resampled the radius of gyration of
 Leconte2011 with an approximating spline instead of the linear interpolation
 of the library

---
 posidonius/effects/evolution.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/posidonius/effects/evolution.py b/posidonius/effects/evolution.py
index 3dababd..ad98c23 100644
--- a/posidonius/effects/evolution.py
+++ b/posidonius/effects/evolution.py
@@ -1,6 +1,6 @@
 import datetime
 import numpy as np
-from posidonius.tools import interpolate_b_spline
+from posidonius.tools import linear_interpolation
 from posidonius.constants import *
 
 class EvolutionType(object):
@@ -102,7 +102,7 @@ class Leconte2011(EvolutionType):
         radius = radius[lower_limit:upper_limit]
         resampled_radius_of_gyration_2 = []
         for current_time in time:
-            current_radius_of_gyration_2, ignore = interpolate_b_spline(aux_time, aux_radius_of_gyration_2, current_time)
+            current_radius_of_gyration_2 = linear_interpolation(current_time, aux_time, aux_radius_of_gyration_2)
             resampled_radius_of_gyration_2.append(current_radius_of_gyration_2)
         precision = 7
         resampled_radius_of_gyration_2 = np.around(resampled_radius_of_gyration_2, precision).tolist()
-- 
2.43.0


From 199072567e86b59ad970d0489652c22765c5bee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:28 +0000
Subject: [PATCH 47/47] fix: BolmontMathis2016 in Python lacked the 1.5 solar
 mass table of the library

---
 posidonius/effects/evolution.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/posidonius/effects/evolution.py b/posidonius/effects/evolution.py
index ad98c23..5fec0af 100644
--- a/posidonius/effects/evolution.py
+++ b/posidonius/effects/evolution.py
@@ -299,6 +299,8 @@ class BolmontMathis2016(EvolutionType):
             filename = "input/Bolmont_Mathis_2016/L13Z02r.dat"
         elif mass <= 1.401 and mass >= 1.399:
             filename = "input/Bolmont_Mathis_2016/L14Z02r.dat"
+        elif mass <= 1.501 and mass >= 1.499:
+            filename = "input/Bolmont_Mathis_2016/L15Z02r.dat"
         else:
             raise Exception("The evolution type Bolmont_Mathis_2016 does not support a mass of {} Msun!".format(mass))
 
-- 
2.43.0

