From 2894a5ce72ba8d0e724e0e0544411f017d14a889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:28 +0000
Subject: [PATCH 01/47] fix: gravity applied on particles used a nonexistent
 attribute and always crashed

---
 hydraxmpm/forces/gravity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydraxmpm/forces/gravity.py b/hydraxmpm/forces/gravity.py
index 38a2af0..8821397 100644
--- a/hydraxmpm/forces/gravity.py
+++ b/hydraxmpm/forces/gravity.py
@@ -164,7 +164,7 @@ class Gravity(Force):
                 (mp_state.force_stack + gravity_impulse),
             )
 
-            mp_states[self.p_idx] = mp_state
+            mp_states[p_idx] = mp_state
 
         f_states[self.f_idx] = f_state
 
-- 
2.43.0


From 3cb7a9e264e752963663221c9370d29aabcef48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:28 +0000
Subject: [PATCH 02/47] fix: SDF collider shifted the states of later forces
 and ignored its friction argument

---
 hydraxmpm/common/builder.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hydraxmpm/common/builder.py b/hydraxmpm/common/builder.py
index a9476b8..3071e36 100644
--- a/hydraxmpm/common/builder.py
+++ b/hydraxmpm/common/builder.py
@@ -424,7 +424,7 @@ class SimBuilder:
         self,
         sdf_idx: int = None,
         g_idx_list: list[int] = None,
-        friction: float = 0.0,
+        friction: float = 1.0,
         gap: float = 1e-4,
     ):
         """Convenience method for adding objects."""
@@ -440,10 +440,13 @@ class SimBuilder:
             sdf_idx=sdf_idx,
             g_idx_list=g_idx_list,
             gap=gap,
+            friction=friction,
         )
 
         f_idx = self.force_logics.add(sdf_collider)
 
+        self.force_states.append(None)  # Stateless force, keeps indices in sync
+
         return f_idx
 
     def summary(self, dt: float = None):
-- 
2.43.0


From 3876b5062ef669f25338cca714306b1a46614a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:28 +0000
Subject: [PATCH 03/47] fix: solver picked laws and grids by coupling order
 instead of their registered index

---
 hydraxmpm/common/builder.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/hydraxmpm/common/builder.py b/hydraxmpm/common/builder.py
index 3071e36..10047a2 100644
--- a/hydraxmpm/common/builder.py
+++ b/hydraxmpm/common/builder.py
@@ -319,13 +319,9 @@ class SimBuilder:
         sdf_logics = tuple(self.sdf_logics[i] for i in sdf_idx_list)
 
 
-        grid_domains = tuple(self.grid_domains[coupling.g_idx] for coupling in couplings)
-
-        # law can be None if rigid particles are used
-        laws = tuple(
-            self.law_logics[coupling.c_idx] if coupling.c_idx is not None else None
-            for coupling in couplings
-        )
+        # couplings refer to grids and laws by their index of registration
+        grid_domains = tuple(self.grid_domains)
+        laws = tuple(self.law_logics)
 
         if scheme.lower() == "usl":
             solver = USLSolver(
-- 
2.43.0


From beab7abe661bb3d68ba8403bde1f1bae7774c3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:28 +0000
Subject: [PATCH 04/47] fix: affine state was read and written by body index
 instead of solver-state index

---
 hydraxmpm/solvers/usl_asflip.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hydraxmpm/solvers/usl_asflip.py b/hydraxmpm/solvers/usl_asflip.py
index 26e61c1..41b55b5 100644
--- a/hydraxmpm/solvers/usl_asflip.py
+++ b/hydraxmpm/solvers/usl_asflip.py
@@ -311,7 +311,7 @@ class USLAFLIP(USLSolver):
             grid_domain = self.grid_domains[c.g_idx]
             mp_state = mp_states[c.p_idx]
             intr_cache = sim_cache.interactions[(c.p_idx, c.g_idx)]
-            solver_state = solver_states[c.p_idx]
+            solver_state = solver_states[c.s_idx]
 
             # --- Operations in interaction space ---
             # Gather grid data
@@ -542,7 +542,7 @@ class USLAFLIP(USLSolver):
                 (p_velocity_next, p_position_next, p_volume_next, p_F_next, p_L_next, p_F_store_next),
             )
 
-            solver_states[c.p_idx] = eqx.tree_at(
+            solver_states[c.s_idx] = eqx.tree_at(
                 lambda s: s.Bp_stack, solver_state, p_Bp
             )
 
-- 
2.43.0


From 4ce0ff81d9fef6ff2abe2f00306b8406db06068b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:28 +0000
Subject: [PATCH 05/47] fix: forces of earlier bodies were dropped when several
 bodies share a grid

---
 hydraxmpm/solvers/usl.py        | 2 +-
 hydraxmpm/solvers/usl_asflip.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hydraxmpm/solvers/usl.py b/hydraxmpm/solvers/usl.py
index c5ccdfb..604c82e 100644
--- a/hydraxmpm/solvers/usl.py
+++ b/hydraxmpm/solvers/usl.py
@@ -493,7 +493,7 @@ class USLSolver(BaseSolver):
             )
 
             grid_force_stack = (
-                jnp.zeros_like(grid_cache.moment_stack)
+                grid_cache.force_stack
                 .at[intr_cache.node_hashes]
                 .add(weighted_intern_force_stack + weighted_ext_force_stack)
             )
diff --git a/hydraxmpm/solvers/usl_asflip.py b/hydraxmpm/solvers/usl_asflip.py
index 41b55b5..3aef672 100644
--- a/hydraxmpm/solvers/usl_asflip.py
+++ b/hydraxmpm/solvers/usl_asflip.py
@@ -267,7 +267,7 @@ class USLAFLIP(USLSolver):
                 weighted_moment_stack
             )
             grid_force_stack = (
-                jnp.zeros_like(grid_cache.moment_stack)
+                grid_cache.force_stack
                 .at[intr_cache.node_hashes]
                 .add(total_intr_force)
             )
-- 
2.43.0


From 7f489eb72aa652e1f5f2f8d21c83b7d00897e5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:28 +0000
Subject: [PATCH 06/47] fix: dynamic alpha ignored the alpha_support_min and
 alpha_support_max parameters

---
 hydraxmpm/solvers/usl_asflip.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/hydraxmpm/solvers/usl_asflip.py b/hydraxmpm/solvers/usl_asflip.py
index 3aef672..24da6da 100644
--- a/hydraxmpm/solvers/usl_asflip.py
+++ b/hydraxmpm/solvers/usl_asflip.py
@@ -471,7 +471,12 @@ class USLAFLIP(USLSolver):
                 )
 
                 support_ratio = p_mass_support / (mp_state.mass_stack + 1e-9)
-                alpha_scale = jnp.clip((support_ratio - 1.1) / 0.4, 0.0, 1.0)
+                alpha_scale = jnp.clip(
+                    (support_ratio - self.alpha_support_min)
+                    / (self.alpha_support_max - self.alpha_support_min),
+                    0.0,
+                    1.0,
+                )
                 dynamic_alpha = self.alpha * alpha_scale[:, None]
             else:
                 dynamic_alpha = self.alpha
-- 
2.43.0


From f3290f5049fc2d1822e3cca146147d5ad3071985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:28 +0000
Subject: [PATCH 07/47] fix: classic APIC update (use_mls_update=False) crashed
 and had the wrong sign

---
 hydraxmpm/solvers/usl_asflip.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hydraxmpm/solvers/usl_asflip.py b/hydraxmpm/solvers/usl_asflip.py
index 24da6da..f6d246d 100644
--- a/hydraxmpm/solvers/usl_asflip.py
+++ b/hydraxmpm/solvers/usl_asflip.py
@@ -409,7 +409,8 @@ class USLAFLIP(USLSolver):
                 dist_vec_phys = -1.0 * intr_cache.rel_dist *grid_domain.cell_size
 
                 # shape_vals (N,) * outer(v (N,3), dist (N,3)) -> (N,3,3)
-                weighted_Bp_term = intr_cache.shape_vals[:, None, None] * jnp.einsum(
+                # compression positive, as for the MLS update
+                weighted_Bp_term = -intr_cache.shape_vals[:, None, None] * jnp.einsum(
                     "ni,nj->nij", intr_vels_nt_3d, dist_vec_phys
                 )
 
@@ -444,7 +445,7 @@ class USLAFLIP(USLSolver):
             else:
                 # classic APIC needs the inverse of Dp, where
                 # Dp = 1/4 * dx^2 * I (Quadratic) or 1/3 * dx^2 * I (Cubic)
-                if c.shapefunction == "cubic":
+                if c.shape_map.shapefunction == "cubic":
                     coeff = 1.0 / 3.0
                 else:
                     coeff = 1.0 / 4.0
-- 
2.43.0


From 691f1c31dc151a3b632f38405ca74e34e2b4eb37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:28 +0000
Subject: [PATCH 08/47] fix: shear reset made F singular in plane strain and
 discarded the stored deformation history

---
 hydraxmpm/constitutive_laws/constitutive_law.py | 10 +++-------
 hydraxmpm/solvers/usl.py                        | 17 ++++++++++++++++-
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/hydraxmpm/constitutive_laws/constitutive_law.py b/hydraxmpm/constitutive_laws/constitutive_law.py
index 9fda52c..d389dc3 100644
--- a/hydraxmpm/constitutive_laws/constitutive_law.py
+++ b/hydraxmpm/constitutive_laws/constitutive_law.py
@@ -42,7 +42,7 @@ class ConstitutiveLaw(eqx.Module):
             if dim == 2:
 
                 scale = jnp.sqrt(J)
-                return jnp.diag(jnp.array([scale, scale, 0.0]))
+                return jnp.diag(jnp.array([scale, scale, 1.0]))
             else:
                 # 3D cbar element-wise cube root
                 scale = jnp.cbrt(J)
@@ -51,12 +51,8 @@ class ConstitutiveLaw(eqx.Module):
 
         new_F_stack = jax.vmap(compute_cbar)(mp_state.F_stack)
 
-        if mp_state.F_store_stack is not None:
-            new_F_store_stack = mp_state.F_stack
-        else:
-            new_F_store_stack = None
-
-        new_mp = eqx.tree_at(lambda m: (m.F_stack,m.F_store_stack), mp_state, (new_F_stack, new_F_store_stack))
+        # F_store_stack (if any) keeps the full deformation history
+        new_mp = eqx.tree_at(lambda m: m.F_stack, mp_state, new_F_stack)
 
 
         return new_mp
diff --git a/hydraxmpm/solvers/usl.py b/hydraxmpm/solvers/usl.py
index 604c82e..faa87a6 100644
--- a/hydraxmpm/solvers/usl.py
+++ b/hydraxmpm/solvers/usl.py
@@ -710,6 +710,13 @@ class USLSolver(BaseSolver):
             F_inc = I - p_L * dt
             p_F_next = jnp.einsum("ijk,ikl->ijl", F_inc, mp_state.F_stack)
 
+            if mp_state.F_store_stack is not None:
+                p_F_store_next = jnp.einsum(
+                    "ijk,ikl->ijl", F_inc, mp_state.F_store_stack
+                )
+            else:
+                p_F_store_next = None
+
             if grid_cache.dim == 2:
                 p_F_next = p_F_next.at[:, 2, 2].set(1.0)
 
@@ -722,9 +729,17 @@ class USLSolver(BaseSolver):
                     s.volume_stack,
                     s.F_stack,
                     s.L_stack,
+                    s.F_store_stack,
                 ),
                 mp_state,
-                (p_velocity_next, p_position_next, p_volume_next, p_F_next, p_L),
+                (
+                    p_velocity_next,
+                    p_position_next,
+                    p_volume_next,
+                    p_F_next,
+                    p_L,
+                    p_F_store_next,
+                ),
             )
             mp_states[c.p_idx] = mp_state
 
-- 
2.43.0


From fee4da10a74b52236ff7704d0ebc8debdc473832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:33 +0000
Subject: [PATCH 09/47] fix: default particle volume used a cell area in 3D and
 ignored points_per_cell

---
 hydraxmpm/material_points/material_points.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hydraxmpm/material_points/material_points.py b/hydraxmpm/material_points/material_points.py
index 95e5338..b1da3a1 100644
--- a/hydraxmpm/material_points/material_points.py
+++ b/hydraxmpm/material_points/material_points.py
@@ -200,8 +200,8 @@ class MaterialPointState(BaseMaterialPointState):
         # Assumes uniform distribution based on cell size and points per cell.
         if volume_stack is None:
             cell_size = kwargs.get("cell_size", 1.0)
-            points_per_cell = kwargs.get("ppc", 4.0)
-            default_volume = (cell_size**2) / points_per_cell
+            points_per_cell = kwargs.get("ppc", kwargs.get("points_per_cell", 4.0))
+            default_volume = (cell_size**dim) / points_per_cell
             volume_stack = jnp.ones(num_points) * default_volume
 
         volume0_stack = volume0_stack if volume0_stack is not None else volume_stack
-- 
2.43.0


From 97427d49902ff268abe70cb75a3fc99d682bf3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:33 +0000
Subject: [PATCH 10/47] fix: USL solver stored the transposed velocity gradient

---
 hydraxmpm/solvers/usl.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hydraxmpm/solvers/usl.py b/hydraxmpm/solvers/usl.py
index faa87a6..5466c8b 100644
--- a/hydraxmpm/solvers/usl.py
+++ b/hydraxmpm/solvers/usl.py
@@ -670,10 +670,9 @@ class USLSolver(BaseSolver):
             # As L_ij = v_i * grad_j
             # compression positive convention for L, 
             weighted_L = jnp.einsum(
-                "ij,ik->ijk", intr_cache.shape_grads, -intr_vels_nt_3d
+                "ij,ik->ijk", -intr_vels_nt_3d, intr_cache.shape_grads
             )
 
-  
             # Particle velocity differences on grid
             p_delta_vel = (
                 jnp.zeros((mp_state.num_points, grid_cache.dim))
-- 
2.43.0


From d94920d04e88a0c49bcf45ee0641beb4c7a8e458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:33 +0000
Subject: [PATCH 11/47] fix: objective stress rate rotated stresses against the
 material spin

---
 hydraxmpm/constitutive_laws/druckerprager.py   | 2 +-
 hydraxmpm/constitutive_laws/modifiedcamclay.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hydraxmpm/constitutive_laws/druckerprager.py b/hydraxmpm/constitutive_laws/druckerprager.py
index 2a9142b..5384b20 100644
--- a/hydraxmpm/constitutive_laws/druckerprager.py
+++ b/hydraxmpm/constitutive_laws/druckerprager.py
@@ -127,7 +127,7 @@ class DruckerPrager(ConstitutiveLaw):
     ):
         # kinematics
         D = get_sym_tensor(L)
-        W = get_spin_tensor(L)
+        W = -get_spin_tensor(L)  # L is compression positive
         deps = D * dt
 
         # objective rate correction (Jaumann)
diff --git a/hydraxmpm/constitutive_laws/modifiedcamclay.py b/hydraxmpm/constitutive_laws/modifiedcamclay.py
index a68f85b..c664ce5 100644
--- a/hydraxmpm/constitutive_laws/modifiedcamclay.py
+++ b/hydraxmpm/constitutive_laws/modifiedcamclay.py
@@ -385,7 +385,7 @@ class ModifiedCamClay(ConstitutiveLaw):
 
     
         D = get_sym_tensor(L) # symmetric part
-        W = get_spin_tensor(L) # skew-symmetric part
+        W = -get_spin_tensor(L) # skew-symmetric part (L is compression positive)
 
 
         deps_next = D * dt
-- 
2.43.0


From 8475e4fe6a733dc68555d9cc36841048d9239587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:33 +0000
Subject: [PATCH 12/47] fix: Newtonian fluid pressure acted as tension in the
 compression-positive solvers

---
 hydraxmpm/constitutive_laws/newtonfluid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hydraxmpm/constitutive_laws/newtonfluid.py b/hydraxmpm/constitutive_laws/newtonfluid.py
index 439a17e..dbc4e3b 100644
--- a/hydraxmpm/constitutive_laws/newtonfluid.py
+++ b/hydraxmpm/constitutive_laws/newtonfluid.py
@@ -119,8 +119,8 @@ class NewtonFluid(ConstitutiveLaw):
         p = jnp.maximum(p, 0.0) 
 
         # Cauchy stress calculation
-        # sigma = -pI + 2*mu*dev(D)
-        stress = -p * jnp.eye(3) + (2.0 * self.viscosity * dev_deps_dt)
+        # sigma = pI + 2*mu*dev(D), compression positive
+        stress = p * jnp.eye(3) + (2.0 * self.viscosity * dev_deps_dt)
 
 
         return stress
-- 
2.43.0


From e19462ac49ad1a3ab1e500820104b1ff619f8ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:33 +0000
Subject: [PATCH 13/47] fix: creating a Newtonian fluid state from material
 points always raised TypeError

---
 hydraxmpm/constitutive_laws/newtonfluid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hydraxmpm/constitutive_laws/newtonfluid.py b/hydraxmpm/constitutive_laws/newtonfluid.py
index dbc4e3b..b358627 100644
--- a/hydraxmpm/constitutive_laws/newtonfluid.py
+++ b/hydraxmpm/constitutive_laws/newtonfluid.py
@@ -81,8 +81,8 @@ class NewtonFluid(ConstitutiveLaw):
         density_initial_stack = material_points.mass_stack/ material_points.volume0_stack
         
         return self.create_state_from_density(
-            material_points.pressure_stack,
-            density_stack=density_initial_stack
+            density_stack=density_initial_stack,
+            pressure_stack=material_points.pressure_stack,
         )
  
 
-- 
2.43.0


From 5bc4d6e899f7a0f8b2f72b6c5ba8c276e14376d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:33 +0000
Subject: [PATCH 14/47] fix: mu(I) shear stress was half of mu(I) p

---
 hydraxmpm/constitutive_laws/mu_i_rheology.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hydraxmpm/constitutive_laws/mu_i_rheology.py b/hydraxmpm/constitutive_laws/mu_i_rheology.py
index a9dd603..9723a0d 100644
--- a/hydraxmpm/constitutive_laws/mu_i_rheology.py
+++ b/hydraxmpm/constitutive_laws/mu_i_rheology.py
@@ -177,7 +177,8 @@ class MuI_LC(ConstitutiveLaw):
             eta_total = eta_s + eta_d
             
 
-            stress = p_safe * jnp.eye(3) + eta_total * deps_dev
+            # |gamma_dot| = sqrt(2 D:D), so that tau = 2 eta D has magnitude mu(I) p
+            stress = p_safe * jnp.eye(3) + 2.0 * eta_total * deps_dev
             return stress
 
 
-- 
2.43.0


From 0aab79623f44dca647a59d2abac63b891fa1a83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:33 +0000
Subject: [PATCH 15/47] fix: Drucker-Prager critical time step used a
 nonexistent attribute and always crashed

---
 hydraxmpm/constitutive_laws/druckerprager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydraxmpm/constitutive_laws/druckerprager.py b/hydraxmpm/constitutive_laws/druckerprager.py
index 5384b20..327f520 100644
--- a/hydraxmpm/constitutive_laws/druckerprager.py
+++ b/hydraxmpm/constitutive_laws/druckerprager.py
@@ -208,7 +208,7 @@ class DruckerPrager(ConstitutiveLaw):
 
     def get_dt_crit(self, mp_state: MaterialPointState, cell_size: float, alpha: float = 0.5):
         """Critical timestep for stability based on P-wave speed."""
-        rho_stack = mp_state.rho_stack
+        rho_stack = mp_state.density_stack
 
         c_p = jnp.sqrt((self.K + (4.0 / 3.0) * self.G) / rho_stack)
         
-- 
2.43.0


From 5a9406e6f39787243880c6f3360b5b6661b5e041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:33 +0000
Subject: [PATCH 16/47] fix: Drucker-Prager return mapping left the yield
 surface with dilatancy or hardening at the apex

---
 hydraxmpm/constitutive_laws/druckerprager.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hydraxmpm/constitutive_laws/druckerprager.py b/hydraxmpm/constitutive_laws/druckerprager.py
index 327f520..6324ca3 100644
--- a/hydraxmpm/constitutive_laws/druckerprager.py
+++ b/hydraxmpm/constitutive_laws/druckerprager.py
@@ -159,7 +159,7 @@ class DruckerPrager(ConstitutiveLaw):
             # Pull to Cone
             pmulti = yf / (self.G + self.K * self.mu_1 * self.mu_1_hat + self.H * self.mu_2 * self.mu_2)
             
-            p_cone = p_tr - self.K * pmulti * self.mu_1_hat
+            p_cone = p_tr + self.K * pmulti * self.mu_1_hat
             sqrt_J2_cone = sqrt_J2_tr - self.G * pmulti
             
             # If sqrt_J2_cone < 0, we hit the apex
@@ -184,10 +184,11 @@ class DruckerPrager(ConstitutiveLaw):
                 alpha = self.mu_2 / jnp.maximum(self.mu_1, 1e-8)
                 
                 # Solve deps_p_v
-                deps_p_v = (self.mu_1 * p_tr + self.mu_2 * (self.c0 + self.H * eps_p_acc_prev)) / jnp.maximum(self.K * self.mu_1 - self.H * self.mu_2 * alpha, 1e-12)
+                deps_p_v = (self.mu_1 * p_tr + self.mu_2 * (self.c0 + self.H * eps_p_acc_prev)) / jnp.maximum(self.K * self.mu_1 + self.H * self.mu_2 * alpha, 1e-12)
                 
                 p_apex = p_tr - self.K * deps_p_v
-                eps_p_acc_apex = eps_p_acc_prev + alpha * deps_p_v
+                # tensile (negative) volumetric plastic strain accumulates
+                eps_p_acc_apex = eps_p_acc_prev - alpha * deps_p_v
                 
                 stress_apex = +p_apex * jnp.eye(3)
                 eps_e_v_apex = (p_apex - p_0) / self.K
-- 
2.43.0


From 38676ca7590f237014778ce5f35acf5979e18ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:33 +0000
Subject: [PATCH 17/47] fix: Cam-Clay OCR initialisation moved admissible shear
 stresses to the yield surface

---
 hydraxmpm/constitutive_laws/modifiedcamclay.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydraxmpm/constitutive_laws/modifiedcamclay.py b/hydraxmpm/constitutive_laws/modifiedcamclay.py
index c664ce5..8bd6540 100644
--- a/hydraxmpm/constitutive_laws/modifiedcamclay.py
+++ b/hydraxmpm/constitutive_laws/modifiedcamclay.py
@@ -238,7 +238,7 @@ class ModifiedCamClay(ConstitutiveLaw):
 
             q_p_ys_stack = get_qp_ys(p_c_stack, p_stack, self.M)
             
-            yf_check = jnp.abs(q_p_inp_stack - q_p_ys_stack)
+            yf_check = q_p_inp_stack - q_p_ys_stack
 
             q_p_stack = jnp.where(yf_check > 0, q_p_ys_stack, q_p_inp_stack)
 
-- 
2.43.0


From e508c80ac43950e7a61efe9e4a2516f5939bf2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:33 +0000
Subject: [PATCH 18/47] fix: Cam-Clay states created from stress or density
 lacked a reference stress and could not be updated

---
 hydraxmpm/constitutive_laws/modifiedcamclay.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/hydraxmpm/constitutive_laws/modifiedcamclay.py b/hydraxmpm/constitutive_laws/modifiedcamclay.py
index 8bd6540..4869616 100644
--- a/hydraxmpm/constitutive_laws/modifiedcamclay.py
+++ b/hydraxmpm/constitutive_laws/modifiedcamclay.py
@@ -285,7 +285,14 @@ class ModifiedCamClay(ConstitutiveLaw):
         density_stack = self.rho_p / specific_volume_stack
 
         eps_e = jnp.zeros((p_stack.shape[0], 3, 3))
-        return ModifiedCamClayState(p_c_stack=p_c_stack, eps_e_stack=eps_e),density_stack
+        stress_ref_stack = reconstruct_stress_from_triaxial(
+            p_stack=p_stack, q_stack=q_stack
+        )
+        return ModifiedCamClayState(
+            p_c_stack=p_c_stack,
+            stress_ref_stack=stress_ref_stack,
+            eps_e_stack=eps_e,
+        ), density_stack
 
 
     def create_state_from_density(
@@ -326,8 +333,15 @@ class ModifiedCamClay(ConstitutiveLaw):
 
             eps_e = jnp.zeros((p_stack.shape[0], 3, 3))
             
+            stress_ref_stack = reconstruct_stress_from_triaxial(
+                p_stack=p_stack, q_stack=jnp.zeros_like(p_stack)
+            )
             # Return same specific volume back confirms it was used
-            return ModifiedCamClayState(p_c_stack=p_c_stack, eps_e_stack=eps_e), specific_volume_stack
+            return ModifiedCamClayState(
+                p_c_stack=p_c_stack,
+                stress_ref_stack=stress_ref_stack,
+                eps_e_stack=eps_e,
+            ), specific_volume_stack
 
     def create_state(
         self,
-- 
2.43.0


From ca7900b6f457736c51ad47470cb0025f1f406f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:08 +0000
Subject: [PATCH 19/47] fix: 3D hollow cylinder SDF ignored its height

---
 hydraxmpm/sdf/sdfcollection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydraxmpm/sdf/sdfcollection.py b/hydraxmpm/sdf/sdfcollection.py
index f010aca..c74b017 100644
--- a/hydraxmpm/sdf/sdfcollection.py
+++ b/hydraxmpm/sdf/sdfcollection.py
@@ -170,7 +170,7 @@ class HollowCylinderSDF(SDFObjectBase):
         if pos_local.shape[0] == 3:
             # 2D distance from Y axis
             r = jnp.linalg.norm(pos_local[jnp.array([0, 2])])
-            d_y = pos_local[1]
+            d_y = jnp.abs(pos_local[1]) - (self.height / 2.0)
         else:
             if self.is_2d_ring:
                 # Annulus / Ring (Top Down View)
-- 
2.43.0


From 322aff89655fe4539c0b3ff3a999992fbc2488ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:08 +0000
Subject: [PATCH 20/47] fix: SDF normals were NaN at the centre of spheres,
 tori and rings and on star edges

---
 hydraxmpm/sdf/sdfcollection.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/hydraxmpm/sdf/sdfcollection.py b/hydraxmpm/sdf/sdfcollection.py
index c74b017..9c15a98 100644
--- a/hydraxmpm/sdf/sdfcollection.py
+++ b/hydraxmpm/sdf/sdfcollection.py
@@ -79,7 +79,7 @@ class SphereSDF(SDFObjectBase):
         self, state: SDFObjectState, p_local: Float[Array, "dim"]
     ) -> Float[Array, ""]:
         # length(p) - r
-        return jnp.linalg.norm(p_local) - self.radius
+        return safe_norm(p_local) - self.radius
 
     def signed_distance(
         self, state: SDFObjectState, pos_world: Float[Array, "dim"]
@@ -169,14 +169,14 @@ class HollowCylinderSDF(SDFObjectBase):
     def signed_distance_local(self, state, pos_local):
         if pos_local.shape[0] == 3:
             # 2D distance from Y axis
-            r = jnp.linalg.norm(pos_local[jnp.array([0, 2])])
+            r = safe_norm(pos_local[jnp.array([0, 2])])
             d_y = jnp.abs(pos_local[1]) - (self.height / 2.0)
         else:
             if self.is_2d_ring:
                 # Annulus / Ring (Top Down View)
                 # Radial distance is magnitude of vector (x,y)
                 r_xz = jnp.abs(pos_local[0])
-                r = jnp.linalg.norm(pos_local)
+                r = safe_norm(pos_local)
 
                 # Height is irrelevant/infinite for a 2D ring shape
                 d_y = -1e9
@@ -271,7 +271,7 @@ class TorusSDF(SDFObjectBase):
         q = jnp.array([q_x, q_y])
 
         # Distance from the circle is the norm minus tube radius
-        return jnp.linalg.norm(q) - self.minor_r
+        return safe_norm(q) - self.minor_r
 
 
 class StarSDF(SDFObjectBase):
@@ -350,7 +350,7 @@ class StarSDF(SDFObjectBase):
 
         # Distance vector
         dist_vec = p_wedge - closest
-        dist = jnp.linalg.norm(dist_vec)
+        dist = safe_norm(dist_vec)
 
         # sign Correction (Inside vs Outside)
         cross = edge[0] * (p_wedge[1] - v1[1]) - edge[1] * (p_wedge[0] - v1[0])
-- 
2.43.0


From 78572c8bba96416c6b34cfc48a82159af2d5b0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:08 +0000
Subject: [PATCH 21/47] fix: gathering grid data to particles used a
 nonexistent attribute and always crashed

---
 hydraxmpm/shapefunctions/mapping.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydraxmpm/shapefunctions/mapping.py b/hydraxmpm/shapefunctions/mapping.py
index ee63ae5..d7e2ee8 100644
--- a/hydraxmpm/shapefunctions/mapping.py
+++ b/hydraxmpm/shapefunctions/mapping.py
@@ -329,7 +329,7 @@ class ShapeFunctionMapping(eqx.Module):
 
         # accumulate (gather)
         particle_accum = jnp.zeros(
-            (point_ids.shape[0] // cache.window_size, flat_data.shape[1])
+            (point_ids.shape[0] // self.window_size, flat_data.shape[1])
         )
         particle_accum = particle_accum.at[point_ids].add(flat_data)
 
-- 
2.43.0


From 86d8d08861dff277ea8bd0a9dfda8c42e148c2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:08 +0000
Subject: [PATCH 22/47] fix: linear shape function gradients vanished for
 particles lying on grid nodes

---
 hydraxmpm/shapefunctions/linear.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hydraxmpm/shapefunctions/linear.py b/hydraxmpm/shapefunctions/linear.py
index 52ba41f..3b10cc5 100644
--- a/hydraxmpm/shapefunctions/linear.py
+++ b/hydraxmpm/shapefunctions/linear.py
@@ -45,8 +45,12 @@ def vmap_linear_shapefunction(
     basis = jnp.where(abs_intr_dist < 1.0, 1.0 - abs_intr_dist, 0.0)
 
     # compute 1D derivatives
-    # dN(x) = -sign(x) * (1/h)
-    dbasis = jnp.where(abs_intr_dist < 1.0, -jnp.sign(intr_dist) * inv_cell_size, 0.0)
+    # dN(x) = -sign(x) * (1/h), one-sided from the right on the nodes
+    dbasis = jnp.where(
+        (intr_dist >= 0.0) & (intr_dist < 1.0),
+        -inv_cell_size,
+        jnp.where((intr_dist >= -1.0) & (intr_dist < 0.0), inv_cell_size, 0.0),
+    )
 
     # tensor product for gradient
     # grad N(x,y) = [ dNx*Ny, Nx*dNy ]
-- 
2.43.0


From dcac62e04c6a283af32974c9d99c5e821e0dc25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:08 +0000
Subject: [PATCH 23/47] fix: round-off could drop the last row of grid nodes

---
 hydraxmpm/grid/grid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hydraxmpm/grid/grid.py b/hydraxmpm/grid/grid.py
index 248473a..39a807e 100644
--- a/hydraxmpm/grid/grid.py
+++ b/hydraxmpm/grid/grid.py
@@ -62,7 +62,8 @@ class GridDomain(eqx.Module):
 
         # number of cells in each dimens (M_x,M_y) for 2D, (M_x,M_y,M_z) for 3D
         raw_size = [(e - o) / cell_size for e, o in zip(padded_end, padded_origin)]
-        grid_size = tuple(int(s + 1) for s in raw_size)
+        # tolerance, such that round-off does not drop the last node
+        grid_size = tuple(int(s + 1 + 1e-4) for s in raw_size)
 
 
         return cls(
-- 
2.43.0


From d10b5b32a8483eb1c71e074565f915e040afdee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:08 +0000
Subject: [PATCH 24/47] fix: bodies with a single material point lost the shape
 of their volume after one step

---
 hydraxmpm/solvers/usl.py        | 2 +-
 hydraxmpm/solvers/usl_asflip.py | 4 +---
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/hydraxmpm/solvers/usl.py b/hydraxmpm/solvers/usl.py
index 5466c8b..0928878 100644
--- a/hydraxmpm/solvers/usl.py
+++ b/hydraxmpm/solvers/usl.py
@@ -720,7 +720,7 @@ class USLSolver(BaseSolver):
                 p_F_next = p_F_next.at[:, 2, 2].set(1.0)
 
             J = jnp.linalg.det(p_F_next)
-            p_volume_next = (J[:, None] * mp_state.volume0_stack[:, None]).squeeze()
+            p_volume_next = J * mp_state.volume0_stack
             mp_state = eqx.tree_at(
                 lambda s: (
                     s.velocity_stack,
diff --git a/hydraxmpm/solvers/usl_asflip.py b/hydraxmpm/solvers/usl_asflip.py
index f6d246d..fa999eb 100644
--- a/hydraxmpm/solvers/usl_asflip.py
+++ b/hydraxmpm/solvers/usl_asflip.py
@@ -513,9 +513,7 @@ class USLAFLIP(USLSolver):
 
             J_next = jnp.linalg.det(p_F_next)
 
-            p_volume_next = (
-                J_next[:, None] * mp_state.volume0_stack[:, None]
-            ).squeeze()
+            p_volume_next = J_next * mp_state.volume0_stack
 
             # Separable correction to avoid avoid positional trap
             # Use a mix of PIC and FLIP specifically for position to avoid noise
-- 
2.43.0


From b884d153f550201128a821ab5e396c251e3815ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:08 +0000
Subject: [PATCH 25/47] fix: documented particle generation modes (default,
 rejection, gauss_legendre) crashed

---
 hydraxmpm/utils/generate_body.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/hydraxmpm/utils/generate_body.py b/hydraxmpm/utils/generate_body.py
index 351621b..bd46ba3 100644
--- a/hydraxmpm/utils/generate_body.py
+++ b/hydraxmpm/utils/generate_body.py
@@ -14,7 +14,7 @@ def generate_particles_in_sdf(
     center_of_mass=None,
     rotation=None,
     shapefunction="cubic",
-    mode="uniform",
+    mode="regular",
     cell_size=None,  # For 'regular'/'gauss_legendre' modes
     ppc=None,  # For 'regular'/'gauss_legendre' modes
 ):
@@ -36,7 +36,7 @@ def generate_particles_in_sdf(
         )
 
     candidate_point_stack = None
-    if mode == "random":
+    if mode in ["random", "rejection"]:
         if num_particles is None or key is None:
             raise ValueError("Mode 'random' requires 'num_particles' and 'key'.")
 
@@ -69,6 +69,14 @@ def generate_particles_in_sdf(
             offset_meshes = jnp.meshgrid(*([lin] * dim), indexing="ij")
             offsets = jnp.stack(offset_meshes, axis=-1).reshape(-1, dim)
 
+        else:
+            # Gauss-Legendre points, mapped from [-1, 1] to [0, 1]
+            pts_per_dim = int(np.ceil(ppc ** (1 / dim)))
+            lin = jnp.array(0.5 * (np.polynomial.legendre.leggauss(pts_per_dim)[0] + 1))
+
+            offset_meshes = jnp.meshgrid(*([lin] * dim), indexing="ij")
+            offsets = jnp.stack(offset_meshes, axis=-1).reshape(-1, dim)
+
         # Perform a broadcast add
         # grid_origins_flat has shape (N_cells, 1, dim)
         # offsets has shape  (1, N_offsets, dim)
-- 
2.43.0


From af792293307e050a1b19eb43ff0222f132ad2a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:08 +0000
Subject: [PATCH 26/47] fix: strain helpers recursed or raised, and void ratio
 from bulk density was a specific volume

---
 hydraxmpm/utils/math_helpers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hydraxmpm/utils/math_helpers.py b/hydraxmpm/utils/math_helpers.py
index 8ac1291..9920b5a 100644
--- a/hydraxmpm/utils/math_helpers.py
+++ b/hydraxmpm/utils/math_helpers.py
@@ -286,7 +286,7 @@ def get_hencky_strain_stack(F_stack):
 
 def get_dev_strain_stack(strain_stack):
     """Get strain rate tensor from a stack of velocity gradients."""
-    return get_dev_strain_stack(strain_stack)
+    return get_dev_strain(strain_stack)
 
 def get_strain_rate_tensor_stack(L_stack):
     """Get strain rate tensor from a stack of velocity gradients."""
@@ -309,7 +309,7 @@ def get_scalar_shear_strain(
 ):
     """Get scalar shear strain gamma = sqrt(1/2 trace(e_dev @ e_dev.T))."""
     if dev_strain is None:
-        dev_strain = get_dev_strain(strain, volumetric_strain, dim)
+        dev_strain = get_dev_strain(strain, volumetric_strain)
 
     return jnp.sqrt(0.5 * jnp.trace(dev_strain @ dev_strain.T))
 
@@ -519,7 +519,7 @@ def get_phi_from_L(L, phi_prev, dt):
 
 def get_e_from_bulk_density(absolute_density, bulk_density):
     """Get void ratio from absolute and bulk density."""
-    return absolute_density / bulk_density
+    return absolute_density / bulk_density - 1.0
 
 
 def get_phi_from_bulk_density(absolute_density, bulk_density):
-- 
2.43.0


From 0178a55ee330e6bac7b7409e7571c341c6473b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:08 +0000
Subject: [PATCH 27/47] fix: exporting a static SDF to VTK (no step) always
 crashed

---
 hydraxmpm/common/vtk_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydraxmpm/common/vtk_io.py b/hydraxmpm/common/vtk_io.py
index 3a086dd..812fdfb 100644
--- a/hydraxmpm/common/vtk_io.py
+++ b/hydraxmpm/common/vtk_io.py
@@ -212,4 +212,4 @@ class VTKVisualizer:
 
                 suffix = f"step_{int(step):05d}" if step is not None else "static"
                 # Standardized save via your _save_vtk method
-                path = self._save_vtk(mesh, label, f"step_{int(step):05d}.vtp")
\ No newline at end of file
+                path = self._save_vtk(mesh, label, f"{suffix}.vtp")
\ No newline at end of file
-- 
2.43.0


From 4da05fb4d72ef6b67238f68cefbeb98c6ed2ae6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:12 +0000
Subject: [PATCH 28/47] fix: the USL solver crashed when a body with a single
 material point met an SDF

---
 hydraxmpm/solvers/usl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydraxmpm/solvers/usl.py b/hydraxmpm/solvers/usl.py
index 0928878..b5e7ecb 100644
--- a/hydraxmpm/solvers/usl.py
+++ b/hydraxmpm/solvers/usl.py
@@ -616,7 +616,7 @@ class USLSolver(BaseSolver):
                 # Find Closest SDF for each Particle (Particle Space)
                 dists_stack = jnp.stack(
                     [
-                        sim_cache.mp_geoms[(c.p_idx, s)].dists.squeeze()
+                        sim_cache.mp_geoms[(c.p_idx, s)].dists.reshape(-1)
                         for s in range(num_sdfs)
                     ]
                 )
-- 
2.43.0


From bcd7410ec38cd923e9661fa6bebecbd4d63e55a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:26 +0000
Subject: [PATCH 29/47] fix: Cam-Clay stresses turned tensile below the minimum
 pressure

---
 hydraxmpm/constitutive_laws/modifiedcamclay.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hydraxmpm/constitutive_laws/modifiedcamclay.py b/hydraxmpm/constitutive_laws/modifiedcamclay.py
index 4869616..baf437c 100644
--- a/hydraxmpm/constitutive_laws/modifiedcamclay.py
+++ b/hydraxmpm/constitutive_laws/modifiedcamclay.py
@@ -433,7 +433,8 @@ class ModifiedCamClay(ConstitutiveLaw):
         K_tr = get_K(self.kap, jnp.maximum(p_tr, self.p_min_calc), self.K_min, self.K_max)
         
         # deviatoric shear trial stress invariant and tensor
-        s_prev = get_dev_stress(stress_prev, pressure=p_prev)
+        # (of the actual stress: p_prev may have been raised to p_min_calc)
+        s_prev = get_dev_stress(stress_prev)
         deps_e_d_tr = get_dev_strain(deps_next, deps_e_v_tr)
         G_tr = get_G(self.nu, K_tr)
 
-- 
2.43.0


From e6ac4a080813587bbcab52a6bcbad8395ec9c770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:31 +0000
Subject: [PATCH 30/47] fix: Cam-Clay points on the yield surface could
 collapse to 1 Pa from rounding alone

---
 hydraxmpm/constitutive_laws/modifiedcamclay.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hydraxmpm/constitutive_laws/modifiedcamclay.py b/hydraxmpm/constitutive_laws/modifiedcamclay.py
index baf437c..9e50056 100644
--- a/hydraxmpm/constitutive_laws/modifiedcamclay.py
+++ b/hydraxmpm/constitutive_laws/modifiedcamclay.py
@@ -455,7 +455,10 @@ class ModifiedCamClay(ConstitutiveLaw):
         def pull_to_ys():
             # https://github.com/patrick-kidger/optimistix/issues/132
             # Here we have safe values to avoid nan during compile time
-            safe_mask = lambda x, default: jnp.where(is_ep, x, default)
+            # (looser than is_ep: XLA may evaluate yf twice with different rounding,
+            # and a plastic point must never be updated from the safe values)
+            is_near_ep = yf > -1e-4 * p_tr * (p_tr + p_c_prev)
+            safe_mask = lambda x, default: jnp.where(is_near_ep, x, default)
 
             deps_e_v_tr_safe = safe_mask(deps_e_v_tr, 0.0)
             p_prev_safe = safe_mask(p_prev, 1.0) #
-- 
2.43.0


From 8107f676ff2079b31b04bb7a688fbc0039fd43f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:36 +0000
Subject: [PATCH 31/47] fix: reloaded or rebuilt USLAFLIP solvers could not be
 compiled because a declared field was never set

---
 hydraxmpm/solvers/usl_asflip.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hydraxmpm/solvers/usl_asflip.py b/hydraxmpm/solvers/usl_asflip.py
index fa999eb..427a650 100644
--- a/hydraxmpm/solvers/usl_asflip.py
+++ b/hydraxmpm/solvers/usl_asflip.py
@@ -141,6 +141,7 @@ class USLAFLIP(USLSolver):
         use_mls_update: bool = True,
         small_mass_cutoff: float = 1.0e-7,
         cfl_limit: float = 0.5,
+        sdf_mp_sharpness: float = 1000.0,
     ):
 
         # MLS Update in G2P
@@ -162,6 +163,9 @@ class USLAFLIP(USLSolver):
         self.small_mass_cutoff = small_mass_cutoff
         self.cfl_limit = cfl_limit
 
+        # inherited from USLSolver
+        self.sdf_mp_sharpness = sdf_mp_sharpness
+
         # logic operations
         self.constitutive_laws = constitutive_laws
         self.couplings = couplings
-- 
2.43.0


From 43f2314a79f4e1a56574232df11c7ee042d18479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:05 +0000
Subject: [PATCH 32/47] fix: solvers over some of the couplings read the affine
 state of other couplings

---
 hydraxmpm/common/builder.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/hydraxmpm/common/builder.py b/hydraxmpm/common/builder.py
index 10047a2..3978807 100644
--- a/hydraxmpm/common/builder.py
+++ b/hydraxmpm/common/builder.py
@@ -344,7 +344,7 @@ class SimBuilder:
 
         # Here we assume that each coupling maps
         # to one solver state
-        for coupling in couplings:
+        for i, coupling in zip(b_idx_list, couplings):
             mp_state = self.particle_states[coupling.p_idx]
 
             if isinstance(mp_state, RigidMaterialPointState):
@@ -352,7 +352,12 @@ class SimBuilder:
             else:
                 solver_state = solver.create_state(mp_state)
 
-            self.solver_states.add(solver_state)
+            # couplings refer to solver states by their own index
+            while len(self.solver_states) <= i:
+                self.solver_states.add(None)
+            # a coupling may be shared by several solvers
+            if self.solver_states[i] is None or isinstance(solver, USLAFLIP):
+                self.solver_states[i] = solver_state
 
         s_idx = self.solver_logics.add(solver)
         return s_idx
-- 
2.43.0


From e327a0a42fc6fbc1c954be6d174519fa04e2c052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:41 +0000
Subject: [PATCH 33/47] fix: selecting some of the SDF objects shifted obstacle
 states and dropped the others

---
 hydraxmpm/common/builder.py     | 10 ++++++----
 hydraxmpm/solvers/usl.py        | 28 ++++++++++++++++++++--------
 hydraxmpm/solvers/usl_asflip.py |  7 +++++++
 3 files changed, 33 insertions(+), 12 deletions(-)

diff --git a/hydraxmpm/common/builder.py b/hydraxmpm/common/builder.py
index 3978807..2b43a13 100644
--- a/hydraxmpm/common/builder.py
+++ b/hydraxmpm/common/builder.py
@@ -316,10 +316,10 @@ class SimBuilder:
         
         couplings = tuple(self.couplings[i] for i in b_idx_list)
         forces = tuple(self.force_logics[i] for i in f_idx_list)
-        sdf_logics = tuple(self.sdf_logics[i] for i in sdf_idx_list)
-
-
-        # couplings refer to grids and laws by their index of registration
+        # couplings refer to grids and laws by their index of registration,
+        # colliders and SDF states to SDF objects
+        sdf_logics = tuple(self.sdf_logics)
+        active_sdf_ids = tuple(sorted(set(sdf_idx_list)))
         grid_domains = tuple(self.grid_domains)
         laws = tuple(self.law_logics)
 
@@ -329,6 +329,7 @@ class SimBuilder:
                 couplings=couplings,
                 forces=forces,
                 sdf_logics=sdf_logics,
+                active_sdf_ids=active_sdf_ids,
                 grid_domains=grid_domains,
                 **solver_params,
             )
@@ -338,6 +339,7 @@ class SimBuilder:
                 forces=forces,
                 couplings=couplings,
                 sdf_logics=sdf_logics,
+                active_sdf_ids=active_sdf_ids,
                 grid_domains=grid_domains,
                 **solver_params,
             )
diff --git a/hydraxmpm/solvers/usl.py b/hydraxmpm/solvers/usl.py
index b5e7ecb..a1e21b6 100644
--- a/hydraxmpm/solvers/usl.py
+++ b/hydraxmpm/solvers/usl.py
@@ -78,6 +78,7 @@ class USLSolver(BaseSolver):
 
     active_p_ids: Tuple[int, ...] = eqx.field(static=True)
     active_g_ids: Tuple[int, ...] = eqx.field(static=True)
+    active_sdf_ids: Tuple[int, ...] = eqx.field(static=True)
 
     sdf_mp_sharpness: float = eqx.field(static=True, default=1000.0)
 
@@ -91,6 +92,7 @@ class USLSolver(BaseSolver):
         sdf_logics: Optional[Tuple[SDFObjectBase, ...]] = (),
         alpha=0.99,
         sdf_mp_sharpness: float = 1000.0,
+        active_sdf_ids: Optional[Tuple[int, ...]] = None,
     ):
         self.constitutive_laws = constitutive_laws
         self.couplings = couplings
@@ -106,6 +108,11 @@ class USLSolver(BaseSolver):
         self.active_p_ids = tuple(p_set)
         self.active_g_ids = tuple(g_set)
 
+        # SDF objects this solver moves and sees (default all)
+        self.active_sdf_ids = (
+            tuple(range(len(sdf_logics))) if active_sdf_ids is None else active_sdf_ids
+        )
+
     def create_state(self, mp_state) -> Self:
         """Creates a default USLSolverState instance."""
         return USLSolverState()
@@ -199,7 +206,9 @@ class USLSolver(BaseSolver):
         new_sdf_states = []
         for i, sdf_logic in enumerate(self.sdf_logics):
 
-            sdf_state = sdf_logic.update_kinematics(world.sdfs[i], dt)
+            sdf_state = world.sdfs[i]
+            if i in self.active_sdf_ids:
+                sdf_state = sdf_logic.update_kinematics(sdf_state, dt)
             new_sdf_states.append(sdf_state)
 
         # Repack
@@ -252,7 +261,8 @@ class USLSolver(BaseSolver):
             # Accumulator: 0.0 = Out, 1.0 = In
             union_mask = jnp.zeros((domain.num_cells,))
 
-            for s_idx, sdf_logic in enumerate(self.sdf_logics):
+            for s_idx in self.active_sdf_ids:
+                sdf_logic = self.sdf_logics[s_idx]
                 sdf_state = world.sdfs[s_idx]
 
                 dists = (
@@ -283,7 +293,8 @@ class USLSolver(BaseSolver):
 
             union_mask = jnp.zeros(mp_state.num_points)
 
-            for s_idx, sdf_logic in enumerate(self.sdf_logics):
+            for s_idx in self.active_sdf_ids:
+                sdf_logic = self.sdf_logics[s_idx]
                 sdf_state = world.sdfs[s_idx]
 
                 dists = sdf_logic.get_signed_distance_stack(
@@ -344,7 +355,8 @@ class USLSolver(BaseSolver):
             # We don't store specific geometry for midpoints, just the mask
             mid_in_mask_flat = jnp.zeros((intr_cache.num_interactions,))
 
-            for s_idx, sdf_logic in enumerate(self.sdf_logics):
+            for s_idx in self.active_sdf_ids:
+                sdf_logic = self.sdf_logics[s_idx]
                 sdf_state = world.sdfs[s_idx]
 
                 d_mid = sdf_logic.get_signed_distance_stack(
@@ -610,23 +622,23 @@ class USLSolver(BaseSolver):
 
             # --------- cpic-----------
             #  ghost velocity correction
-            num_sdfs = len(self.sdf_logics)
+            num_sdfs = len(self.active_sdf_ids)
             if num_sdfs > 0:
 
                 # Find Closest SDF for each Particle (Particle Space)
                 dists_stack = jnp.stack(
                     [
                         sim_cache.mp_geoms[(c.p_idx, s)].dists.reshape(-1)
-                        for s in range(num_sdfs)
+                        for s in self.active_sdf_ids
                     ]
                 )
                 norms_stack = jnp.stack(
-                    [sim_cache.mp_geoms[(c.p_idx, s)].normals for s in range(num_sdfs)]
+                    [sim_cache.mp_geoms[(c.p_idx, s)].normals for s in self.active_sdf_ids]
                 )
                 vels_stack = jnp.stack(
                     [
                         sim_cache.mp_geoms[(c.p_idx, s)].wall_vels
-                        for s in range(num_sdfs)
+                        for s in self.active_sdf_ids
                     ]
                 )
 
diff --git a/hydraxmpm/solvers/usl_asflip.py b/hydraxmpm/solvers/usl_asflip.py
index 427a650..9bee1fe 100644
--- a/hydraxmpm/solvers/usl_asflip.py
+++ b/hydraxmpm/solvers/usl_asflip.py
@@ -119,6 +119,7 @@ class USLAFLIP(USLSolver):
     
     active_p_ids: Tuple[int, ...] = eqx.field(static=True)
     active_g_ids: Tuple[int, ...] = eqx.field(static=True)
+    active_sdf_ids: Tuple[int, ...] = eqx.field(static=True)
 
     def create_state(self, mp_state) -> Self:
         """Creates empty state with affine matrices"""
@@ -142,6 +143,7 @@ class USLAFLIP(USLSolver):
         small_mass_cutoff: float = 1.0e-7,
         cfl_limit: float = 0.5,
         sdf_mp_sharpness: float = 1000.0,
+        active_sdf_ids: Optional[Tuple[int, ...]] = None,
     ):
 
         # MLS Update in G2P
@@ -178,6 +180,11 @@ class USLAFLIP(USLSolver):
         self.active_p_ids = tuple(p_set)
         self.active_g_ids = tuple(g_set)
 
+        # SDF objects this solver moves and sees (default all)
+        self.active_sdf_ids = (
+            tuple(range(len(sdf_logics))) if active_sdf_ids is None else active_sdf_ids
+        )
+
         self.grid_domains = grid_domains
 
     def _p2g(self, world, mechanics, sim_cache, dt, time):
-- 
2.43.0


From bf929cadf4a8ef2090c9ce00fe0aac3dfbcb009e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:43 +0000
Subject: [PATCH 34/47] fix: Cam-Clay states created from material points
 crashed

---
 hydraxmpm/constitutive_laws/modifiedcamclay.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydraxmpm/constitutive_laws/modifiedcamclay.py b/hydraxmpm/constitutive_laws/modifiedcamclay.py
index 9e50056..92d706d 100644
--- a/hydraxmpm/constitutive_laws/modifiedcamclay.py
+++ b/hydraxmpm/constitutive_laws/modifiedcamclay.py
@@ -351,7 +351,7 @@ class ModifiedCamClay(ConstitutiveLaw):
 
         mcc_state,*_ = self.create_state_from_ocr(
             p_stack=mp_state.pressure_stack,
-            ocr_stack =jnp.full((mp_state.position_stack.shape[0], 1.0))
+            ocr_stack=jnp.ones(mp_state.position_stack.shape[0])
         )
 
         return mcc_state
-- 
2.43.0


From 678a2fffa4f3bd748049ec2baddb3c10cf62cc24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:43 +0000
Subject: [PATCH 35/47] fix: gradients at rest, isotropic stress and empty
 obstacle nodes were not finite

---
 hydraxmpm/constitutive_laws/mu_i_rheology.py |  6 +++---
 hydraxmpm/forces/sdf_collider.py             |  9 +++++++--
 hydraxmpm/sdf/sdfobject.py                   |  3 ++-
 hydraxmpm/solvers/usl_asflip.py              |  6 +++++-
 hydraxmpm/utils/math_helpers.py              | 10 ++++++++--
 5 files changed, 25 insertions(+), 9 deletions(-)

diff --git a/hydraxmpm/constitutive_laws/mu_i_rheology.py b/hydraxmpm/constitutive_laws/mu_i_rheology.py
index 9723a0d..00dcd7f 100644
--- a/hydraxmpm/constitutive_laws/mu_i_rheology.py
+++ b/hydraxmpm/constitutive_laws/mu_i_rheology.py
@@ -13,7 +13,7 @@ import jax.numpy as jnp
 
 from .constitutive_law import ConstitutiveLawState, ConstitutiveLaw
 from ..material_points.material_points import MaterialPointState
-from ..utils.math_helpers import get_volumetric_strain, get_dev_strain
+from ..utils.math_helpers import get_volumetric_strain, get_dev_strain, safe_sqrt
 
 from jaxtyping import Float, Array
 from typing import Tuple, Optional, Any
@@ -149,7 +149,7 @@ class MuI_LC(ConstitutiveLaw):
         deps_dev = deps_dt - (deps_v / 3.0) * jnp.eye(3)
         
 
-        dot_gamma = jnp.sqrt(2.0 * jnp.sum(deps_dev * deps_dev))
+        dot_gamma = safe_sqrt(2.0 * jnp.sum(deps_dev * deps_dev))
 
 
         current_density = mass / volume
@@ -169,7 +169,7 @@ class MuI_LC(ConstitutiveLaw):
             delta_mu = self.mu_d - self.mu_s
             
             #  pressure confinement term
-            pconf = self.I_0 * jnp.sqrt(p_safe / self.rho_p)
+            pconf = self.I_0 * safe_sqrt(p_safe / self.rho_p)
             
 
             eta_d = (self.d_p * p_safe * delta_mu) / (pconf + self.d_p * dot_gamma)
diff --git a/hydraxmpm/forces/sdf_collider.py b/hydraxmpm/forces/sdf_collider.py
index 6e84b58..f9cb9ab 100644
--- a/hydraxmpm/forces/sdf_collider.py
+++ b/hydraxmpm/forces/sdf_collider.py
@@ -18,6 +18,7 @@ from jaxtyping import Float, Array
 
 from ..sdf.sdfobject import SDFObjectBase, SDFObjectState
 from .force import Force
+from ..utils.math_helpers import safe_sqrt
 
 
 import jax
@@ -46,7 +47,7 @@ def apply_frictional_contact(
     v_rel_corrected = v_corrected_n - v_wall
     v_n_vec = jnp.dot(v_rel_corrected, normal) * normal
     v_t_vec = v_rel_corrected - v_n_vec
-    vt_mag = jnp.linalg.norm(v_t_vec)
+    vt_mag = safe_sqrt(jnp.dot(v_t_vec, v_t_vec))
 
     # Coulomb Law: Friction Limit
     friction_limit = friction_coeff * delta_v_kinematic
@@ -163,7 +164,11 @@ class SDFCollider(Force):
             # flat_coords = coords.reshape(-1, grid_domain.dim)
 
             # Get current  grid velocity
-            inv_mass = jnp.where(grid_cache.mass_stack > 1e-14, 1.0 / grid_cache.mass_stack, 0.0)
+            # (no division by zero in the untaken branch, it would poison gradients)
+            has_mass = grid_cache.mass_stack > 1e-14
+            inv_mass = jnp.where(
+                has_mass, 1.0 / jnp.where(has_mass, grid_cache.mass_stack, 1.0), 0.0
+            )
             vel = grid_cache.moment_nt_stack * inv_mass[:, None]
 
             # Compute quantities from SDF object
diff --git a/hydraxmpm/sdf/sdfobject.py b/hydraxmpm/sdf/sdfobject.py
index 1dd1c4f..5c581fe 100644
--- a/hydraxmpm/sdf/sdfobject.py
+++ b/hydraxmpm/sdf/sdfobject.py
@@ -24,6 +24,7 @@ from typing import Optional, Self, Tuple
 from jaxtyping import Float, Array
 
 from ..utils.math_helpers import (
+    safe_sqrt,
     rotation_2d_inv,
     quaternion_inv,
     quaternion_rotate,
@@ -152,7 +153,7 @@ class SDFObjectBase(eqx.Module):
         normal = grad_fn(sdf_state, pos_world)
         
         # Safe normalization
-        norm = jnp.linalg.norm(normal)
+        norm = safe_sqrt(jnp.dot(normal, normal))
         return normal / (norm + 1e-12)
     def get_velocity(self, sdf_state: SDFObjectState, pos_world: Float[Array, "dim"],dt) -> Float[Array, "dim"]:
         """
diff --git a/hydraxmpm/solvers/usl_asflip.py b/hydraxmpm/solvers/usl_asflip.py
index 9bee1fe..1139241 100644
--- a/hydraxmpm/solvers/usl_asflip.py
+++ b/hydraxmpm/solvers/usl_asflip.py
@@ -48,6 +48,8 @@ from ..forces.sdf_collider import apply_frictional_contact
 
 from ..shapefunctions.mapping import InteractionCache
 
+from ..utils.math_helpers import safe_sqrt
+
 from ..sdf.sdfobject import SDFObjectBase
 
 from jaxtyping import Float, Array
@@ -500,7 +502,9 @@ class USLAFLIP(USLSolver):
             # --- CFL Clamping ---
             # Clamp velocity magnitude to prevent particles crossing >50% of a cell in one step
             max_speed = self.cfl_limit * grid_domain.cell_size / dt
-            speed = jnp.linalg.norm(p_velocity_next, axis=1, keepdims=True)
+            speed = safe_sqrt(
+                jnp.sum(p_velocity_next**2, axis=1, keepdims=True)
+            )
             clamp_factor = jnp.minimum(1.0, max_speed / (speed + 1e-12))
             p_velocity_next = p_velocity_next * clamp_factor
 
diff --git a/hydraxmpm/utils/math_helpers.py b/hydraxmpm/utils/math_helpers.py
index 9920b5a..7f1b929 100644
--- a/hydraxmpm/utils/math_helpers.py
+++ b/hydraxmpm/utils/math_helpers.py
@@ -11,6 +11,12 @@ import jax.numpy as jnp
 from jaxtyping import Float, Array
 from typing import Any, Tuple
 
+def safe_sqrt(x):
+    """Square root whose gradient at zero is zero instead of NaN/inf."""
+    is_pos = x > 0.0
+    return jnp.where(is_pos, jnp.sqrt(jnp.where(is_pos, x, 1.0)), 0.0 * x)
+
+
 def get_spin_tensor(L):
     """Get the Spin Tensor W"""
     return 0.5 * (L - L.T)
@@ -136,14 +142,14 @@ def get_q_vm(stress=None, dev_stress=None, pressure=None):
     """
 
     J2 = get_J2(stress, dev_stress, pressure)
-    return jnp.sqrt(3 * J2)
+    return safe_sqrt(3 * J2)
 
 def get_scalar_shear_stress(stress, dev_stress, pressure):
     """
     Get shear stress tau = sqrt(J2).
     """
     J2 = get_J2(stress=stress, dev_stress=dev_stress, pressure=pressure)
-    return jnp.sqrt(J2)
+    return safe_sqrt(J2)
 
 
 def get_volumetric_strain(strain):
-- 
2.43.0


From c20ba92f89b949cc60afbca26f8cb0e372dd6af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:27 +0000
Subject: [PATCH 36/47] fix: forces on points by default included rigid points,
 gravity given as tuple was rejected

---
 hydraxmpm/common/builder.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/hydraxmpm/common/builder.py b/hydraxmpm/common/builder.py
index 2b43a13..7699b50 100644
--- a/hydraxmpm/common/builder.py
+++ b/hydraxmpm/common/builder.py
@@ -1,5 +1,6 @@
 
 import jax
+import jax.numpy as jnp
 
 from hydraxmpm.solvers.usl import USLSolver
 from ..grid.grid import GridDomain
@@ -234,6 +235,14 @@ class SimBuilder:
 
         return couple_idx
 
+    def _deformable_idx_list(self) -> List[int]:
+        """Indices of the bodies forces can act on (rigid points carry no forces)."""
+        return [
+            i
+            for i, mp_state in enumerate(self.particle_states)
+            if not isinstance(mp_state, RigidMaterialPointState)
+        ]
+
     # Forces and force  handles
     def add_gravity(
         self,
@@ -244,11 +253,14 @@ class SimBuilder:
         is_apply_on_grid: bool = True,
     ) -> int:
         """Adds gravity force to the simulation."""
+        if isinstance(gravity, (tuple, list)):
+            gravity = jnp.array(gravity, dtype=float)
+
         g_idx_list = (
             list(range(len(self.grid_domains))) if g_idx_list is None else g_idx_list
         )
         p_idx_list = (
-            list(range(len(self.particle_states))) if p_idx_list is None else p_idx_list
+            self._deformable_idx_list() if p_idx_list is None else p_idx_list
         )
 
         f_idx = len(self.force_logics)
@@ -276,7 +288,7 @@ class SimBuilder:
             list(range(len(self.grid_domains))) if g_idx_list is None else g_idx_list
         )
         p_idx_list = (
-            list(range(len(self.particle_states))) if p_idx_list is None else p_idx_list
+            self._deformable_idx_list() if p_idx_list is None else p_idx_list
         )
 
         f_idx = len(self.force_logics)
-- 
2.43.0


From b59edb4979fa0af095fd0f9f49d0ec7a27677871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:04 +0000
Subject: [PATCH 37/47] fix: node positions were rounded to single precision in
 double-precision runs

---
 hydraxmpm/grid/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydraxmpm/grid/grid.py b/hydraxmpm/grid/grid.py
index 39a807e..bc340fe 100644
--- a/hydraxmpm/grid/grid.py
+++ b/hydraxmpm/grid/grid.py
@@ -96,7 +96,7 @@ class GridDomain(eqx.Module):
         (M_x, M_y, M_z, dim) shaped array for 3D, (M_x, M_y, dim) for 2D.
         
         """
-        indices = jnp.indices(self.grid_size, dtype=jnp.float32)
+        indices = jnp.indices(self.grid_size, dtype=jnp.result_type(float))
         # Move the dimension axis to the last position
         return jnp.moveaxis(indices, 0, -1) * self.cell_size + jnp.array(self.origin)
 
-- 
2.43.0


From d9c842ea278b717c185da0b226825cb826bf5578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:04 +0000
Subject: [PATCH 38/47] fix: lattice particle generation ignored the cell size
 inside cells

---
 hydraxmpm/utils/generate_body.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydraxmpm/utils/generate_body.py b/hydraxmpm/utils/generate_body.py
index bd46ba3..71f7be0 100644
--- a/hydraxmpm/utils/generate_body.py
+++ b/hydraxmpm/utils/generate_body.py
@@ -82,7 +82,7 @@ def generate_particles_in_sdf(
         # offsets has shape  (1, N_offsets, dim)
         # gives shifted origins and we reshape (N_cells * N_offsets, dim)
         candidate_point_stack = (
-            grid_origins_flat[:, None, :] + offsets[None, :, :]
+            grid_origins_flat[:, None, :] + offsets[None, :, :] * cell_size
         ).reshape(-1, dim)
 
     dists = sdf_obj.get_signed_distance_stack(sdf_state, candidate_point_stack)
-- 
2.43.0


From 3073a9e8c77f8ef80d8491b25335b0fc2c67828d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:04 +0000
Subject: [PATCH 39/47] fix: VTK export without a point property crashed

---
 hydraxmpm/common/vtk_io.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hydraxmpm/common/vtk_io.py b/hydraxmpm/common/vtk_io.py
index 812fdfb..68fc310 100644
--- a/hydraxmpm/common/vtk_io.py
+++ b/hydraxmpm/common/vtk_io.py
@@ -70,6 +70,7 @@ class VTKVisualizer:
 
         _point_radius = _point_radius * scale_radius
         
+        prop_data = None
         if property_name is not None:
             prop_data = getattr(mp_state, property_name, None)
         if positions.shape[1] == 2:
@@ -81,10 +82,10 @@ class VTKVisualizer:
 
         # print(prop_data.mean())
 
-        prop_data = np.array(prop_data)
         # print(prop_data.shape)
 
         if prop_data is not None:
+            prop_data = np.array(prop_data)
             if len(prop_data.shape) > 1:
                 if  prop_data.shape[1] == 2:
                     zeros = np.zeros((prop_data.shape[0], 1))
@@ -94,7 +95,8 @@ class VTKVisualizer:
 
         cloud = pv.PolyData(positions_3d)
 
-        cloud.point_data[property_name] = prop_data
+        if prop_data is not None:
+            cloud.point_data[property_name] = prop_data
 
         cloud.point_data["Radius"] = np.full(len(positions), _point_radius)
         
-- 
2.43.0


From f162fdb8a424ef05a7453d8c7371b56888320448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:04 +0000
Subject: [PATCH 40/47] fix: SDF export sampled a window that depended on the
 distance to the origin

---
 hydraxmpm/common/rerun.py  | 2 +-
 hydraxmpm/common/vtk_io.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hydraxmpm/common/rerun.py b/hydraxmpm/common/rerun.py
index 2f4af76..d6781ab 100644
--- a/hydraxmpm/common/rerun.py
+++ b/hydraxmpm/common/rerun.py
@@ -324,7 +324,7 @@ class RerunVisualizer:
         end = np.array(end)
         start = np.array(start)
         # Here we generate a bunch of points in the domain
-        domain_size = end * 1.05 - start * 0.95
+        domain_size = 1.05 * (end - start)
         step_size = np.max(domain_size) / resolution
 
         aspect_size = np.ceil(domain_size / step_size).astype(int)
diff --git a/hydraxmpm/common/vtk_io.py b/hydraxmpm/common/vtk_io.py
index 68fc310..e20b702 100644
--- a/hydraxmpm/common/vtk_io.py
+++ b/hydraxmpm/common/vtk_io.py
@@ -153,7 +153,7 @@ class VTKVisualizer:
             end = np.array(end)
             
             # Setup sampling grid
-            domain_size = end * 1.05 - start * 0.95
+            domain_size = 1.05 * (end - start)
             step_size = np.max(domain_size) / resolution
             aspect_size = np.ceil(domain_size / step_size).astype(int)
             
-- 
2.43.0


From d3e1f17c72a5ef01c38e9b0e0ff1200a7836ee60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:04 +0000
Subject: [PATCH 41/47] fix: surface normals sent to Rerun had their x and y
 components swapped

---
 hydraxmpm/common/rerun.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/hydraxmpm/common/rerun.py b/hydraxmpm/common/rerun.py
index d6781ab..7d967df 100644
--- a/hydraxmpm/common/rerun.py
+++ b/hydraxmpm/common/rerun.py
@@ -383,9 +383,8 @@ class RerunVisualizer:
                 world_z = start[2] + verts[:, 2] * step_size
                 world_verts = np.stack([world_x, world_y, world_z], axis=1)
 
-                # Fix Normal permutation (skimage normals align with index axes Y, X, Z)
-                # We need X, Y, Z
-                world_normals = normals[:, [1, 0, 2]]
+                # normals follow the same index axes as the vertices
+                world_normals = normals
 
                 rr.log(
                     f"{self.root_path}/{label}",
-- 
2.43.0


From 37b53e6efe2cbaf202d415be667ce02c52dd3f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:04 +0000
Subject: [PATCH 42/47] fix: the first Rerun visualizer in save mode recorded
 nothing

---
 hydraxmpm/common/rerun.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hydraxmpm/common/rerun.py b/hydraxmpm/common/rerun.py
index 7d967df..b0c0a56 100644
--- a/hydraxmpm/common/rerun.py
+++ b/hydraxmpm/common/rerun.py
@@ -133,8 +133,11 @@ class RerunVisualizer:
 
         self.root_path = root_path
 
+        if mode == "save":
+            rr.save("simulation.rrd")
+
         # Serve viewer once
-        if not RerunVisualizer._viewer_started:
+        elif not RerunVisualizer._viewer_started:
             if mode == "spawn":
                 rr.spawn()
             elif mode == "serve":
@@ -142,8 +145,6 @@ class RerunVisualizer:
 
             # Mark as started so we don't open a second window next time
             RerunVisualizer._viewer_started = True
-        elif mode == "save":
-            rr.save("simulation.rrd")
 
         if is_3d:
             view = rrb.Spatial3DView(
-- 
2.43.0


From 2ad078c49739caef41cf7623b6d212ec9c8f9586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:25 +0000
Subject: [PATCH 43/47] fix: exported surface normals pointed into the object

---
 hydraxmpm/common/rerun.py  | 5 +++--
 hydraxmpm/common/vtk_io.py | 3 ++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/hydraxmpm/common/rerun.py b/hydraxmpm/common/rerun.py
index b0c0a56..c47bbca 100644
--- a/hydraxmpm/common/rerun.py
+++ b/hydraxmpm/common/rerun.py
@@ -384,8 +384,9 @@ class RerunVisualizer:
                 world_z = start[2] + verts[:, 2] * step_size
                 world_verts = np.stack([world_x, world_y, world_z], axis=1)
 
-                # normals follow the same index axes as the vertices
-                world_normals = normals
+                # skimage normals have the axes of the vertices and point
+                # to decreasing values, i.e., into the object
+                world_normals = -normals
 
                 rr.log(
                     f"{self.root_path}/{label}",
diff --git a/hydraxmpm/common/vtk_io.py b/hydraxmpm/common/vtk_io.py
index e20b702..2e0d943 100644
--- a/hydraxmpm/common/vtk_io.py
+++ b/hydraxmpm/common/vtk_io.py
@@ -204,7 +204,8 @@ class VTKVisualizer:
                     faces_vtk = np.hstack(np.c_[np.full(len(faces), 3), faces])
                     
                     mesh = pv.PolyData(world_verts, faces_vtk)
-                    mesh.point_data["normals"] = normals
+                    # skimage normals point to decreasing values, i.e., into the object
+                    mesh.point_data["normals"] = -normals
                 except (RuntimeError, ValueError):
                     return
 
-- 
2.43.0


From 949fded4ab17ebc6bcc9ad5372b3668b98aca01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:03 +0000
Subject: [PATCH 44/47] fix: robust reciprocal of zero was NaN in single
 precision

---
 hydraxmpm/utils/math_helpers.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/hydraxmpm/utils/math_helpers.py b/hydraxmpm/utils/math_helpers.py
index 7f1b929..669503b 100644
--- a/hydraxmpm/utils/math_helpers.py
+++ b/hydraxmpm/utils/math_helpers.py
@@ -608,12 +608,8 @@ def safe_inv_scalar_clamped(d, gradient_clip_val=1e6):
     inv_d = 1.0 / d_safe
 
     # 2. Gradient Clipping Trick so the derivative does not explode.
-    true_grad = -1.0 / (d_safe * d_safe)
-
-    grad_mag = jnp.abs(true_grad)
-    scale = jnp.minimum(1.0, gradient_clip_val / (grad_mag + 1e-12))
-
-    effective_grad = true_grad * scale
+    # (d_safe**2 underflows in single precision; clipping also bounds the inf)
+    effective_grad = -jnp.minimum(1.0 / (d_safe * d_safe), gradient_clip_val)
 
     # 3. Construct the output with modified gradients
     # Use stop_gradient to treat 'effective_grad' as a constant slope.
-- 
2.43.0


From cc83aaaaf1fad6b87b5ec298891ad6c118893d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:07 +0000
Subject: [PATCH 45/47] fix: normals of a particle cloud were NaN at its
 particles

---
 hydraxmpm/sdf/sdfcollection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hydraxmpm/sdf/sdfcollection.py b/hydraxmpm/sdf/sdfcollection.py
index 9c15a98..7d5836d 100644
--- a/hydraxmpm/sdf/sdfcollection.py
+++ b/hydraxmpm/sdf/sdfcollection.py
@@ -515,7 +515,7 @@ class MaterialPointCloudSDF(SDFObjectBase):
 
         normal = grad_fn(p_world, mp_state)
 
-        return normal / (jnp.linalg.norm(normal) + 1e-12)
+        return normal / safe_norm(normal, eps=1e-24)
 
     def signed_distance(self, p_world, mp_state) -> Float[Array, ""]:
 
@@ -530,7 +530,7 @@ class MaterialPointCloudSDF(SDFObjectBase):
             radii_particles = (3.0 * volumes / (4.0 * jnp.pi)) ** (1.0 / 3.0)
 
         diff = p_world - position_stack
-        dists = jnp.linalg.norm(diff, axis=-1) - radii_particles
+        dists = safe_norm(diff, axis=-1) - radii_particles
 
         if self.smooth_k > 1e-3:
             return -jax.nn.logsumexp(-self.smooth_k * dists) / self.smooth_k
-- 
2.43.0


From bfa7395631627045e6f6f844c496b6cfea89ad6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:53 +0000
Subject: [PATCH 46/47] fix: box-like obstacles lost their normals in compiled
 steps

The derivative of jnp.max, jnp.maximum and jnp.minimum is masked by an equality
of operand and result. XLA may evaluate the operand twice with different
rounding, and then no mask is set: the normal is zero and the contact is lost,
depending on how the step is compiled. Select by index and by sign instead.
---
 hydraxmpm/sdf/sdfcollection.py | 46 ++++++++++++++++++++--------------
 1 file changed, 27 insertions(+), 19 deletions(-)

diff --git a/hydraxmpm/sdf/sdfcollection.py b/hydraxmpm/sdf/sdfcollection.py
index 7d5836d..e60822e 100644
--- a/hydraxmpm/sdf/sdfcollection.py
+++ b/hydraxmpm/sdf/sdfcollection.py
@@ -32,6 +32,24 @@ from ..utils.math_helpers import (
 import jax
 
 
+def _extent_distance(d: Float[Array, "n"]) -> Float[Array, ""]:
+    """
+    Signed distance to a box-like extent, given the excess over each extent.
+
+    Selects by index / sign instead of jnp.max, jnp.maximum and jnp.minimum:
+    their derivatives compare the operands with the result for equality, which
+    is not reliable when a compiled function evaluates an operand twice with
+    different rounding. The normal is then zero and the contact is lost.
+    """
+    d_vec = jnp.where(d > 0.0, d, 0.0)
+    outside = safe_norm(d_vec)
+
+    d_max = d[jnp.argmax(d)]
+    inside = jnp.where(d_max < 0.0, d_max, 0.0)
+
+    return outside + inside
+
+
 class BoxSDF(SDFObjectBase):
     """
     Axis-aligned Box box centered at state.center_of_mass.
@@ -53,11 +71,7 @@ class BoxSDF(SDFObjectBase):
         self, state: SDFObjectState, pos_local: Float[Array, "dim"]
     ) -> Float[Array, ""]:
         d = jnp.abs(pos_local) - self.half_size
-        d_vec = jnp.maximum(d, 0.0)
-        outside = safe_norm(d_vec)
-        inside = jnp.minimum(jnp.max(d), 0.0)
-
-        return outside + inside
+        return _extent_distance(d)
 
 
 class SphereSDF(SDFObjectBase):
@@ -190,16 +204,12 @@ class HollowCylinderSDF(SDFObjectBase):
             y = pos_local[1]
 
         # Distance to the solid part of the pipe (between r_inner and r_outer)
-        d_radial = jnp.maximum(r - self.r_outer, self.r_inner - r)
+        d_walls = jnp.array([r - self.r_outer, self.r_inner - r])
+        d_radial = d_walls[jnp.argmax(d_walls)]
 
         d_vec = jnp.array([d_radial, d_y])
 
-        d_vec_clamped = jnp.maximum(d_vec, 0.0)
-        outside = safe_norm(d_vec_clamped)
-
-        inside = jnp.minimum(jnp.max(d_vec), 0.0)
-
-        return outside + inside
+        return _extent_distance(d_vec)
 
 
 class CylinderSDF(SDFObjectBase):
@@ -234,10 +244,7 @@ class CylinderSDF(SDFObjectBase):
         # Vector of distances to the side surface and the cap surface
         d_vec = jnp.array([d_xz, d_y])
 
-        outside = safe_norm(jnp.maximum(d_vec, 0.0))
-        inside = jnp.minimum(jnp.max(d_vec), 0.0)
-
-        return outside + inside
+        return _extent_distance(d_vec)
 
 
 class TorusSDF(SDFObjectBase):
@@ -376,8 +383,8 @@ class CompositeSDF(SDFObjectBase):
         dists = jnp.stack(
             [s.signed_distance_local(state, p_local) for s in self.shapes]
         )
-        # Union = Min
-        return jnp.min(dists)
+        # Union = Min (picked by index, see _extent_distance)
+        return dists[jnp.argmin(dists)]
 
     def get_surface_friction_local(self, state, p_local):
         dists = jnp.stack(
@@ -535,7 +542,8 @@ class MaterialPointCloudSDF(SDFObjectBase):
         if self.smooth_k > 1e-3:
             return -jax.nn.logsumexp(-self.smooth_k * dists) / self.smooth_k
         else:
-            return jnp.min(dists)
+            # nearest sphere (picked by index, see _extent_distance)
+            return dists[jnp.argmin(dists)]
 
     def get_signed_distance_stack(
         self, pos_world_stack: Float[Array, "n dim"], mp_state
-- 
2.43.0


From 3ec91e7ad6aa9158aefdbcacffb6d1527db3d0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:17 +0000
Subject: [PATCH 47/47] fix: Cam-Clay soil had hidden floors of one pressure
 unit

The lowest consolidation pressure and the lowest pressure of the bulk
modulus were fixed at 1, whatever units the stresses are given in: in
MPa, a soil at ordinary pressures hardened to 1 MPa in a single step
and pulled itself apart. Both now follow p_min_calc, with the same
values at its default.
---
 hydraxmpm/constitutive_laws/modifiedcamclay.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/hydraxmpm/constitutive_laws/modifiedcamclay.py b/hydraxmpm/constitutive_laws/modifiedcamclay.py
index 92d706d..4c4c738 100644
--- a/hydraxmpm/constitutive_laws/modifiedcamclay.py
+++ b/hydraxmpm/constitutive_laws/modifiedcamclay.py
@@ -67,9 +67,9 @@ def get_s(deps_e_d, G, s_prev):
     return 2.0 * G * deps_e_d + s_prev
 
 
-def get_K(kap, p, K_min=None, K_max=None):
+def get_K(kap, p, K_min=None, K_max=None, p_min=1.0):
     """Get pressure dependent bulk modulus"""
-    p = jnp.clip(p, 1.0, None)
+    p = jnp.clip(p, p_min, None)
     K = (1.0 / kap) * (p)
     K = jnp.clip(K, K_min, K_max)
     return K
@@ -430,7 +430,10 @@ class ModifiedCamClay(ConstitutiveLaw):
         p_prev = jnp.maximum(p_prev, self.p_min_calc)
         deps_e_v_tr = get_volumetric_strain(deps_next)
         p_tr = get_pressure_mcc(deps_e_v_tr, self.kap, p_prev)
-        K_tr = get_K(self.kap, jnp.maximum(p_tr, self.p_min_calc), self.K_min, self.K_max)
+        # lowest pressure resolved, in the units in which p_min_calc is given
+        p_floor = jnp.where(self.p_min_calc > 0.0, 0.1 * self.p_min_calc, 1.0)
+
+        K_tr = get_K(self.kap, jnp.maximum(p_tr, self.p_min_calc), self.K_min, self.K_max, p_floor)
         
         # deviatoric shear trial stress invariant and tensor
         # (of the actual stress: p_prev may have been raised to p_min_calc)
@@ -477,7 +480,7 @@ class ModifiedCamClay(ConstitutiveLaw):
 
                 p_next = get_pressure_mcc(deps_e_v_tr_safe - deps_p_v, self.kap, p_prev_safe)
 
-                K_next = get_K(self.kap, p_next, self.K_min, self.K_max)
+                K_next = get_K(self.kap, p_next, self.K_min, self.K_max, p_floor)
 
                 G_next = get_G(self.nu, K_next)
 
@@ -534,7 +537,7 @@ class ModifiedCamClay(ConstitutiveLaw):
 
                 # Prevent negative plastic multiplier i
                 x_new = x_new.at[0].set(jnp.maximum(x_new[0], 0.0))
-                x_new = x_new.at[1].set(jnp.maximum(x_new[1], 0.0))
+                x_new = x_new.at[1].set(jnp.maximum(x_new[1], jnp.log(p_floor)))
                 return x_new, None
 
             x_init = jnp.array([0.0, u_p_c_prev])
-- 
2.43.0

