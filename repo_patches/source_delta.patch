From 0e2040cf073f6c22f4751bc5baa67a2098f968e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:27:46 +0000
Subject: [PATCH 01/43] fix: let periodic runs start by not compiling
 shear_basis_vectors

Numba cannot type this function (np.cross on int/float inputs and np.dot on
mixed dtypes), so every simulation in a periodic box stopped with a TypingError
on the first frame. It is only called from plain Python, once per frame.
---
 stokesian_dynamics/functions/shared.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/stokesian_dynamics/functions/shared.py b/stokesian_dynamics/functions/shared.py
index ba09bbf..f1aa985 100755
--- a/stokesian_dynamics/functions/shared.py
+++ b/stokesian_dynamics/functions/shared.py
@@ -424,7 +424,6 @@ def feed_particles_from_bottom(posdata, feed_every_n_timesteps, feed_from_file,
             new_dumbbell_sizes, new_dumbbell_positions, new_dumbbell_deltax)
 
 
-@njit(cache=True)
 def shear_basis_vectors(basis_canonical, box_dimensions,
                         Ot_infinity, Et_infinity):
     """Shear the basis vectors representing the periodic box."""
-- 
2.43.0


From 7939af3753c183e0e59a5ef130ef06ba6472f66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:27:46 +0000
Subject: [PATCH 02/43] fix: include wavespace part of the odd blocks of the
 periodic mobility matrix

The blocks linking velocity to torque and stresslet, and the blocks they give by
symmetry, are odd in the separation. Their Ewald wavespace sum therefore pairs
with sin(k.r) and does not vanish. It was left out, so the result depended on
the splitting parameter and on the choice of periodic cell.
---
 .../functions/generate_Minfinity_periodic.py  | 104 ++++++++++++------
 1 file changed, 70 insertions(+), 34 deletions(-)

diff --git a/stokesian_dynamics/functions/generate_Minfinity_periodic.py b/stokesian_dynamics/functions/generate_Minfinity_periodic.py
index d1ce422..d17e686 100644
--- a/stokesian_dynamics/functions/generate_Minfinity_periodic.py
+++ b/stokesian_dynamics/functions/generate_Minfinity_periodic.py
@@ -503,6 +503,28 @@ def aktilde(kk, ss, a1, a2, i, j, RR, c):
               + (a1**2 + a2**2)/6. * Lap_Jtilde(kki, kkj, ss, i, j, RR))
 
 
+@njit(cache=True)
+def btktilde(kk, ss, a1, a2, i, j, RR, c):
+    """Element ij of the wavespace periodic version of Minfinity submatrix
+    b tilde, divided by the imaginary unit (b tilde is odd in r, so its Fourier
+    transform is imaginary). See docstring for aktilde."""
+    k = (j+1) % 3
+    l = (j+2) % 3
+    Rtilde = -0.5*(kk[k]*Jtilde(kk[i], kk[l], ss, i, l, RR)
+                   - kk[l]*Jtilde(kk[i], kk[k], ss, i, k, RR))
+    return c*(1 - a1**2/6. * ss**2)*Rtilde
+
+
+@njit(cache=True)
+def gtktilde(kk, ss, a1, a2, i, j, k, RR, c):
+    """Element ijk of the uncontracted wavespace periodic version of Minfinity
+    submatrix g tilde, divided by the imaginary unit. See docstring for
+    btktilde."""
+    Ktilde = 0.5*(kk[k]*Jtilde(kk[i], kk[j], ss, i, j, RR)
+                  + kk[j]*Jtilde(kk[i], kk[k], ss, i, k, RR))
+    return -c*(1 - (a1**2/6. + a2**2/10.) * ss**2)*Ktilde
+
+
 @njit(cache=True)
 def cktilde(kk, ss, a1, a2, i, j, RR, c):
     """Element ij of the wavespace periodic version of Minfinity submatrix c.
@@ -598,43 +620,50 @@ def M11(i, j, r, s, a1, a2, erfcs, L, lamb, X_lmn, Xdash_lmn, Sdash_lmn,
 
 
 @njit(cache=True)
-def M12(i, j, r, s, a1, a2, X_lmn, num_X_points, c, mu, s_lmn, erfcs_lmn):
+def M12(i, j, r, s, a1, a2, L, X_lmn, K_lmn, Ks_lmn, RR_K, num_X_points,
+        num_K_points, c, mu, s_lmn, erfcs_lmn):
     """Element ij of Minfinity submatrix b tilde. Same form as PhD thesis
     (2.155)-(2.156), and see note at bottom of page."""
     if s > 1e-10:
         # (2)
-        # Return value below is just sum_btr
-        bt = 0.
+        sum_btr = 0.
         for q in range(num_X_points):
-            bt += btr(r + X_lmn[q], s_lmn[q], a1, a2, i, j, erfcs_lmn[q], c,
-                      mu)
-        return bt
+            sum_btr += btr(r + X_lmn[q], s_lmn[q], a1, a2, i, j, erfcs_lmn[q],
+                           c, mu)
         # (4)
-        # I think sum_btk always ends up being 0 (given that it's imaginary,
-        # over the sum it looks like it cancels out)
-        # Imaginary part of e(i*k.r) always cancels out over the sum I think
-        # (should probably try to show this but I'm pretty certain)
-        # return sum_btr
+        # btilde^k is imaginary, so it is the imaginary part of e(i*k.r) which
+        # survives the sum over k and -k.
+        sum_btk = 0.
+        for q in range(num_K_points):
+            sum_btk -= (math.sin(np.dot(K_lmn[q], r))
+                        * btktilde(K_lmn[q], Ks_lmn[q], a1, a2, i, j, RR_K[q],
+                                   c))
+        sum_btk *= 1./L**3
+        return sum_btr + sum_btk
     else:
         return 0
 
 
 @njit(cache=True)
-def M13(i, j, k, r, s, a1, a2, X_lmn, num_X_points, c, mu, s_lmn, erfcs_lmn):
+def M13(i, j, k, r, s, a1, a2, L, X_lmn, K_lmn, Ks_lmn, RR_K, num_X_points,
+        num_K_points, c, mu, s_lmn, erfcs_lmn):
     """Element ijk of uncontracted Minfinity submatrix g tilde. Same form as
     PhD thesis (2.155)-(2.156), and see note at bottom of page."""
     if s > 1e-10:
         # (2)
-        # Return value below is just sum_gtr
-        gt = 0.
+        sum_gtr = 0.
         for q in range(num_X_points):
-            gt += gtr(r + X_lmn[q], s_lmn[q], a1, a2, i, j, k, erfcs_lmn[q],
-                      c, mu)
-        return gt
+            sum_gtr += gtr(r + X_lmn[q], s_lmn[q], a1, a2, i, j, k,
+                           erfcs_lmn[q], c, mu)
         # (4)
-        # I think gtk always ends up being 0 (given that it's imaginary, over
-        # the sum it looks like it cancels out)
-        # return sum_gtr
+        # As in M12
+        sum_gtk = 0.
+        for q in range(num_K_points):
+            sum_gtk -= (math.sin(np.dot(K_lmn[q], r))
+                        * gtktilde(K_lmn[q], Ks_lmn[q], a1, a2, i, j, k,
+                                   RR_K[q], c))
+        sum_gtk *= 1./L**3
+        return sum_gtr + sum_gtk
     else:
         return 0
 
@@ -986,8 +1015,9 @@ def generate_Minfinity_loop(Minfinity, bead_positions, bead_sizes, num_spheres,
 
             Minfinity[Bt_c[0]:Bt_c[0]+3,
                       Bt_c[1]:Bt_c[1]+3] = np.array([[
-                          M12(i, j, r, s, a1, a2,
-                              X_lmn, num_X_points,
+                          M12(i, j, r, s, a1, a2, L,
+                              X_lmn, K_lmn, Ks_lmn, RR_K,
+                              num_X_points, num_K_points,
                               c, mu, s_lmn, erfcs_lmn)
                           for j in range(3)] for i in range(3)])
 
@@ -1000,7 +1030,8 @@ def generate_Minfinity_loop(Minfinity, bead_positions, bead_sizes, num_spheres,
                               c, mu, s_lmn, erfcs_lmn)
                           for j in range(3)] for i in range(3)])
 
-            args = (r, s, a1, a2, X_lmn, num_X_points, c, mu, s_lmn, erfcs_lmn)
+            args = (r, s, a1, a2, L, X_lmn, K_lmn, Ks_lmn, RR_K,
+                    num_X_points, num_K_points, c, mu, s_lmn, erfcs_lmn)
             for i in range(3):
                 Minfinity[Gt_c[0]+i,
                           Gt_c[1]:Gt_c[1]+5] = con_M13_row(i, args)
@@ -1042,13 +1073,15 @@ def generate_Minfinity_loop(Minfinity, bead_positions, bead_sizes, num_spheres,
                 m_erfcs_lmn = [generate_erfcs(S, lamb) for S in m_s_lmn]
                 Minfinity[Bt21_c[0]:Bt21_c[0]+3,
                           Bt21_c[1]:Bt21_c[1]+3] = np.array([[
-                              M12(i, j, mr, s, a2, a1,
-                                  X_lmn, num_X_points,
+                              M12(i, j, mr, s, a2, a1, L,
+                                  X_lmn, K_lmn, Ks_lmn, RR_K,
+                                  num_X_points, num_K_points,
                                   c, mu, m_s_lmn, m_erfcs_lmn)
                               for j in range(3)] for i in range(3)])
 
-                args = (mr, s, a2, a1, X_lmn, num_X_points, c, mu,
-                        m_s_lmn, m_erfcs_lmn)
+                args = (mr, s, a2, a1, L, X_lmn, K_lmn, Ks_lmn, RR_K,
+                        num_X_points, num_K_points, c, mu, m_s_lmn,
+                        m_erfcs_lmn)
                 for i in range(3):
                     Minfinity[Gt21_c[0]+i,
                               Gt21_c[1]:Gt21_c[1]+5
@@ -1087,13 +1120,14 @@ def generate_Minfinity_loop(Minfinity, bead_positions, bead_sizes, num_spheres,
 
             Minfinity[M24_c[0]:M24_c[0]+3,
                       M24_c[1]:M24_c[1]+3] = np.array([[
-                          M12(j, i, mr, s, a1, a2,
-                              X_lmn, num_X_points,
+                          M12(j, i, mr, s, a1, a2, L,
+                              X_lmn, K_lmn, Ks_lmn, RR_K,
+                              num_X_points, num_K_points,
                               c, mu, m_s_lmn, m_erfcs_lmn)
                           for j in range(3)] for i in range(3)])
 
-            args = (mr, s, a1, a2, X_lmn, num_X_points, c, mu, m_s_lmn,
-                    m_erfcs_lmn)
+            args = (mr, s, a1, a2, L, X_lmn, K_lmn, Ks_lmn, RR_K,
+                    num_X_points, num_K_points, c, mu, m_s_lmn, m_erfcs_lmn)
             for i in range(5):
                 for j in range(3):
                     M34_temp[i,j] = M13(j, *cond_idx[i], *args)
@@ -1122,12 +1156,14 @@ def generate_Minfinity_loop(Minfinity, bead_positions, bead_sizes, num_spheres,
                           for j in range(3)] for i in range(3)])
             Minfinity[M25_c[0]:M25_c[0]+3,
                       M25_c[1]:M25_c[1]+3] = np.array([[
-                          M12(j, i, mr, s, a1, a2, X_lmn, num_X_points,
+                          M12(j, i, mr, s, a1, a2, L,
+                              X_lmn, K_lmn, Ks_lmn, RR_K,
+                              num_X_points, num_K_points,
                               c, mu, m_s_lmn, m_erfcs_lmn)
                           for j in range(3)] for i in range(3)])
 
-            args = (mr, s, a1, a2, X_lmn, num_X_points, c, mu, m_s_lmn,
-                    m_erfcs_lmn)
+            args = (mr, s, a1, a2, L, X_lmn, K_lmn, Ks_lmn, RR_K,
+                    num_X_points, num_K_points, c, mu, m_s_lmn, m_erfcs_lmn)
             for i in range(5):
                 for j in range(3):
                     M35_temp[i,j] = M13(j, *cond_idx[i], *args)
-- 
2.43.0


From 7d77625017e5d7a8837cfca9728bc445810d5cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:28:10 +0000
Subject: [PATCH 03/43] fix: subtract the wavespace self term from the periodic
 rotational mobility

Removing a sphere's own image from the wavespace sum leaves a nonzero
contribution to the rotation-torque block, c*40*lambda^3/(3*sqrt(pi)). It was
taken to be zero, so an isolated sphere in a box rotated too fast.
---
 stokesian_dynamics/functions/generate_Minfinity_periodic.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/stokesian_dynamics/functions/generate_Minfinity_periodic.py b/stokesian_dynamics/functions/generate_Minfinity_periodic.py
index d17e686..5dcad11 100644
--- a/stokesian_dynamics/functions/generate_Minfinity_periodic.py
+++ b/stokesian_dynamics/functions/generate_Minfinity_periodic.py
@@ -702,8 +702,9 @@ def M22(i, j, r, s, a1, a2, erfcs, L, X_lmn, Xdash_lmn, Sdash_lmn,
         for q in range(num_K_points):
             sum_ck += cktilde(K_lmn[q], Ks_lmn[q], a1, a1, i, j, RR_K[q], c)
         sum_ck *= 1./L**3
-        # (5) = 0
-        return c_aa + sum_cr + sum_ck
+        # (5)
+        c_k0 = c*kronmatrix[i][j]*(40*(spi/L)**3)/(3*spi)
+        return c_aa + sum_cr + sum_ck - c_k0
 
 
 @njit(cache=True)
-- 
2.43.0


From a0c7066cb8ce974133c83cdf296282e58323e33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:28:10 +0000
Subject: [PATCH 04/43] fix: use the right particle sizes in periodic
 sphere-bead couplings

The blocks giving a sphere's rotation and strain due to a force on a dumbbell
bead are transposes of the bead's velocity due to the sphere's torque and
stresslet, so the bead's size comes first. The nonperiodic code already does
this.
---
 .../functions/generate_Minfinity_periodic.py              | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/stokesian_dynamics/functions/generate_Minfinity_periodic.py b/stokesian_dynamics/functions/generate_Minfinity_periodic.py
index 5dcad11..6c70d96 100644
--- a/stokesian_dynamics/functions/generate_Minfinity_periodic.py
+++ b/stokesian_dynamics/functions/generate_Minfinity_periodic.py
@@ -1121,13 +1121,13 @@ def generate_Minfinity_loop(Minfinity, bead_positions, bead_sizes, num_spheres,
 
             Minfinity[M24_c[0]:M24_c[0]+3,
                       M24_c[1]:M24_c[1]+3] = np.array([[
-                          M12(j, i, mr, s, a1, a2, L,
+                          M12(j, i, mr, s, a2, a1, L,
                               X_lmn, K_lmn, Ks_lmn, RR_K,
                               num_X_points, num_K_points,
                               c, mu, m_s_lmn, m_erfcs_lmn)
                           for j in range(3)] for i in range(3)])
 
-            args = (mr, s, a1, a2, L, X_lmn, K_lmn, Ks_lmn, RR_K,
+            args = (mr, s, a2, a1, L, X_lmn, K_lmn, Ks_lmn, RR_K,
                     num_X_points, num_K_points, c, mu, m_s_lmn, m_erfcs_lmn)
             for i in range(5):
                 for j in range(3):
@@ -1157,13 +1157,13 @@ def generate_Minfinity_loop(Minfinity, bead_positions, bead_sizes, num_spheres,
                           for j in range(3)] for i in range(3)])
             Minfinity[M25_c[0]:M25_c[0]+3,
                       M25_c[1]:M25_c[1]+3] = np.array([[
-                          M12(j, i, mr, s, a1, a2, L,
+                          M12(j, i, mr, s, a2, a1, L,
                               X_lmn, K_lmn, Ks_lmn, RR_K,
                               num_X_points, num_K_points,
                               c, mu, m_s_lmn, m_erfcs_lmn)
                           for j in range(3)] for i in range(3)])
 
-            args = (mr, s, a1, a2, L, X_lmn, K_lmn, Ks_lmn, RR_K,
+            args = (mr, s, a2, a1, L, X_lmn, K_lmn, Ks_lmn, RR_K,
                     num_X_points, num_K_points, c, mu, m_s_lmn, m_erfcs_lmn)
             for i in range(5):
                 for j in range(3):
-- 
2.43.0


From 453e098f99a83526719a7b6983f01e193fad9fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:34:40 +0000
Subject: [PATCH 05/43] fix: let Adams-Bashforth runs with dumbbells take their
 first step

The first-step test subtracted the checkpoint file name from the frame number,
so any ab2 simulation containing dumbbells stopped with a TypeError.
---
 stokesian_dynamics/run_simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stokesian_dynamics/run_simulation.py b/stokesian_dynamics/run_simulation.py
index 96a4ddb..5a629c6 100755
--- a/stokesian_dynamics/run_simulation.py
+++ b/stokesian_dynamics/run_simulation.py
@@ -279,7 +279,7 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
                 Ub_out_plus_infinities_k1, HalfDUb_out_plus_infinities_k1 = add_background_flow_dumbbells(
                     Ub_out_k1, HalfDUb_out_k1, Ea_out_k1, U_infinity_k1, O_infinity_k1,
                     dumbbell_positions, dumbbell_deltax, centre_of_background_flow)
-                if timestepping_scheme == "euler" or frameno - checkpoint_filename == 0:
+                if timestepping_scheme == "euler" or frameno - checkpoint_start_from_frame == 0:
                     new_dumbbell_positions = euler_timestep(
                         dumbbell_positions, Ub_out_plus_infinities_k1, timestep)
                     new_dumbbell_deltax = euler_timestep(
-- 
2.43.0


From f05796cf52da982beacf03ce5ecb7452d7f2b84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:34:40 +0000
Subject: [PATCH 06/43] fix: use the second stage's strain rate in the second
 RK4 dumbbell stage

---
 stokesian_dynamics/run_simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stokesian_dynamics/run_simulation.py b/stokesian_dynamics/run_simulation.py
index 5a629c6..c61da26 100755
--- a/stokesian_dynamics/run_simulation.py
+++ b/stokesian_dynamics/run_simulation.py
@@ -413,7 +413,7 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
 
             if (num_dumbbells > 0):
                 Ub_out_plus_infinities_k2, HalfDUb_out_plus_infinities_k2 = add_background_flow_dumbbells(
-                    Ub_out_k2, HalfDUb_out_k2, Ea_out_k1, U_infinity_k2, O_infinity_k2,
+                    Ub_out_k2, HalfDUb_out_k2, Ea_out_k2, U_infinity_k2, O_infinity_k2,
                     dumbbell_positions, dumbbell_deltax, centre_of_background_flow)
                 dumbbell_positions_k2 = euler_timestep(
                     dumbbell_positions, Ub_out_plus_infinities_k2, timestep/2)
-- 
2.43.0


From 0fe18ee2dab1b48180695c3b3b32cdc01ec5a1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:34:40 +0000
Subject: [PATCH 07/43] fix: evaluate the background flow at the RK4 stage
 positions

Stages 2 to 4 added the background flow at the start-of-step positions, so
particles carried by a shear were only integrated to low order. The stage
positions are no longer wrapped into the periodic box, because a wrapped stage
would pick up the background velocity of a different image of the particle.
---
 stokesian_dynamics/run_simulation.py | 36 +++++-----------------------
 1 file changed, 6 insertions(+), 30 deletions(-)

diff --git a/stokesian_dynamics/run_simulation.py b/stokesian_dynamics/run_simulation.py
index c61da26..830c30d 100755
--- a/stokesian_dynamics/run_simulation.py
+++ b/stokesian_dynamics/run_simulation.py
@@ -354,10 +354,6 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
                 sphere_rotations_k1 = euler_timestep_rotation(
                     sphere_positions, sphere_rotations, sphere_positions_k1,
                     sphere_rotations_k1, Oa_out_plus_infinities_k1, timestep/2)
-                if periodic:
-                    sphere_positions_k1 = wrap_around(
-                        sphere_positions_k1, box_bottom_left, box_top_right,
-                        Ot_infinity_k1, Et_infinity_k1)
 
             if (num_dumbbells > 0):
                 Ub_out_plus_infinities_k1, HalfDUb_out_plus_infinities_k1 = add_background_flow_dumbbells(
@@ -369,10 +365,6 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
                     dumbbell_deltax, 2*HalfDUb_out_plus_infinities_k1, timestep/2)
                 error = did_something_go_wrong_with_dumbells(
                     error, dumbbell_deltax, dumbbell_deltax_k1, explosion_protection)
-                if periodic:
-                    dumbbell_positions_k1 = wrap_around(
-                        dumbbell_positions_k1, box_bottom_left, box_top_right,
-                        Ot_infinity_k1, Et_infinity_k1)
 
             posdata_k1 = (sphere_sizes, sphere_positions_k1,
                           sphere_rotations_k1, dumbbell_sizes,
@@ -400,31 +392,23 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
             if (num_spheres > 0):
                 Ua_out_plus_infinities_k2, Oa_out_plus_infinities_k2 = add_background_flow_spheres(
                     Ua_out_k2, Oa_out_k2, Ea_out_k2, U_infinity_k2, O_infinity_k2,
-                    sphere_positions, centre_of_background_flow)
+                    sphere_positions_k1, centre_of_background_flow)
                 sphere_positions_k2 = euler_timestep(
                     sphere_positions, Ua_out_plus_infinities_k2, timestep/2)
                 sphere_rotations_k2 = euler_timestep_rotation(
                     sphere_positions, sphere_rotations, sphere_positions_k2,
                     sphere_rotations_k2, Oa_out_plus_infinities_k2, timestep/2)
-                if periodic:
-                    sphere_positions_k2 = wrap_around(
-                        sphere_positions_k2, box_bottom_left, box_top_right,
-                        Ot_infinity_k2, Et_infinity_k2)
 
             if (num_dumbbells > 0):
                 Ub_out_plus_infinities_k2, HalfDUb_out_plus_infinities_k2 = add_background_flow_dumbbells(
                     Ub_out_k2, HalfDUb_out_k2, Ea_out_k2, U_infinity_k2, O_infinity_k2,
-                    dumbbell_positions, dumbbell_deltax, centre_of_background_flow)
+                    dumbbell_positions_k1, dumbbell_deltax_k1, centre_of_background_flow)
                 dumbbell_positions_k2 = euler_timestep(
                     dumbbell_positions, Ub_out_plus_infinities_k2, timestep/2)
                 dumbbell_deltax_k2 = euler_timestep(
                     dumbbell_deltax, 2*HalfDUb_out_plus_infinities_k2, timestep/2)
                 error = did_something_go_wrong_with_dumbells(
                     error, dumbbell_deltax, dumbbell_deltax_k2, explosion_protection)
-                if periodic:
-                    dumbbell_positions_k2 = wrap_around(
-                        dumbbell_positions_k2, box_bottom_left, box_top_right,
-                        Ot_infinity_k2, Et_infinity_k2)
 
             posdata_k2 = (sphere_sizes, sphere_positions_k2,
                           sphere_rotations_k2, dumbbell_sizes,
@@ -449,31 +433,23 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
             if (num_spheres > 0):
                 Ua_out_plus_infinities_k3, Oa_out_plus_infinities_k3 = add_background_flow_spheres(
                     Ua_out_k3, Oa_out_k3, Ea_out_k3, U_infinity_k3, O_infinity_k3,
-                    sphere_positions, centre_of_background_flow)
+                    sphere_positions_k2, centre_of_background_flow)
                 sphere_positions_k3 = euler_timestep(
                     sphere_positions, Ua_out_plus_infinities_k3, timestep)
                 sphere_rotations_k3 = euler_timestep_rotation(
                     sphere_positions, sphere_rotations, sphere_positions_k3,
                     sphere_rotations_k3, Oa_out_plus_infinities_k3, timestep)
-                if periodic:
-                    sphere_positions_k3 = wrap_around(
-                        sphere_positions_k3, box_bottom_left, box_top_right,
-                        Ot_infinity_k3, Et_infinity_k3)
 
             if (num_dumbbells > 0):
                 Ub_out_plus_infinities_k3, HalfDUb_out_plus_infinities_k3 = add_background_flow_dumbbells(
                     Ub_out_k3, HalfDUb_out_k3, Ea_out_k3, U_infinity_k3, O_infinity_k3,
-                    dumbbell_positions, dumbbell_deltax, centre_of_background_flow)
+                    dumbbell_positions_k2, dumbbell_deltax_k2, centre_of_background_flow)
                 dumbbell_positions_k3 = euler_timestep(
                     dumbbell_positions, Ub_out_plus_infinities_k3, timestep)
                 dumbbell_deltax_k3 = euler_timestep(
                     dumbbell_deltax, 2*HalfDUb_out_plus_infinities_k3, timestep)
                 error = did_something_go_wrong_with_dumbells(
                     error, dumbbell_deltax, dumbbell_deltax_k3, explosion_protection)
-                if periodic:
-                    dumbbell_positions_k3 = wrap_around(
-                        dumbbell_positions_k3, box_bottom_left, box_top_right,
-                        Ot_infinity_k3, Et_infinity_k3)
 
             posdata_k3 = (sphere_sizes, sphere_positions_k3,
                           sphere_rotations_k3, dumbbell_sizes,
@@ -497,11 +473,11 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
             if (num_spheres > 0):
                 Ua_out_plus_infinities_k4, Oa_out_plus_infinities_k4 = add_background_flow_spheres(
                     Ua_out_k4, Oa_out_k4, Ea_out_k4, U_infinity_k4, O_infinity_k4,
-                    sphere_positions, centre_of_background_flow)
+                    sphere_positions_k3, centre_of_background_flow)
             if (num_dumbbells > 0):
                 Ub_out_plus_infinities_k4, HalfDUb_out_plus_infinities_k4 = add_background_flow_dumbbells(
                     Ub_out_k4, HalfDUb_out_k4, Ea_out_k4, U_infinity_k4, O_infinity_k4,
-                    dumbbell_positions, dumbbell_deltax, centre_of_background_flow)
+                    dumbbell_positions_k3, dumbbell_deltax_k3, centre_of_background_flow)
             for i in range(len(gen_times)):
                 gen_times[i] = gen_times[i] + gen_times_2[i]
 
-- 
2.43.0


From c31bea371b870d5acae974b193d876f50f662fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:10 +0000
Subject: [PATCH 08/43] fix: wrap particles into the box as it is at the end of
 the step

Particles leaving a sheared periodic box were moved by the box vector from the
start of the step, although their new positions belong to the end of it. Each
crossing displaced the particle relative to its neighbours by the shear of one
timestep.
---
 stokesian_dynamics/run_simulation.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/stokesian_dynamics/run_simulation.py b/stokesian_dynamics/run_simulation.py
index 830c30d..01aaf62 100755
--- a/stokesian_dynamics/run_simulation.py
+++ b/stokesian_dynamics/run_simulation.py
@@ -249,6 +249,12 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
                 use_Minfinity_only, extract_force_on_wall_due_to_dumbbells,
                 last_velocities, last_velocity_vector)
             # Euler/AB2 timestepping k1
+            if periodic:
+                # The box has sheared by the end of the step
+                Ot_infinity_end, Et_infinity_end = input_ftsuoe(
+                    input_number, posdata, frameno + 1, timestep,
+                    last_velocities, input_form=input_form,
+                    skip_computation=True)[16:18]
             if (num_spheres > 0):
                 Ua_out_plus_infinities_k1, Oa_out_plus_infinities_k1 = add_background_flow_spheres(
                     Ua_out_k1, Oa_out_k1, Ea_out_k1, U_infinity_k1, O_infinity_k1,
@@ -273,7 +279,7 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
                 if periodic:
                     new_sphere_positions = wrap_around(
                         new_sphere_positions, box_bottom_left, box_top_right,
-                        Ot_infinity_k1, Et_infinity_k1)
+                        Ot_infinity_end, Et_infinity_end)
 
             if (num_dumbbells > 0):
                 Ub_out_plus_infinities_k1, HalfDUb_out_plus_infinities_k1 = add_background_flow_dumbbells(
@@ -294,7 +300,7 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
                 if periodic:
                     new_dumbbell_positions = wrap_around(
                         new_dumbbell_positions, box_bottom_left, box_top_right,
-                        Ot_infinity_k1, Et_infinity_k1)
+                        Ot_infinity_end, Et_infinity_end)
 
             if num_spheres > 0 and num_dumbbells == 0:
                 last_velocities = [Ua_out_plus_infinities_k1, 0, 0, Oa_out_plus_infinities_k1]
@@ -503,7 +509,7 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
                 if periodic:
                     new_sphere_positions = wrap_around(
                         new_sphere_positions, box_bottom_left, box_top_right,
-                        Ot_infinity_k1, Et_infinity_k1)
+                        Ot_infinity_k4, Et_infinity_k4)
                 new_sphere_rotations = euler_timestep_rotation(
                     sphere_positions, sphere_rotations, new_sphere_positions,
                     new_sphere_rotations, Oa_out_blended, timestep)
@@ -526,7 +532,7 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
                 if periodic:
                     new_dumbbell_positions = wrap_around(
                         new_dumbbell_positions, box_bottom_left, box_top_right,
-                        Ot_infinity_k1, Et_infinity_k1)
+                        Ot_infinity_k4, Et_infinity_k4)
 
             if num_spheres > 0 and num_dumbbells == 0:
                 last_velocities = [Ua_out_blended, 0, 0, Oa_out_blended]
-- 
2.43.0


From bf36c29c04346b6eafdc420089a0a05e67dc6dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:10 +0000
Subject: [PATCH 09/43] fix: keep rotation markers on spheres that wrap around
 the periodic box

Euler and ab2 steps placed the markers around the sphere's position before it
was wrapped, leaving them a box length away from the sphere.
---
 stokesian_dynamics/run_simulation.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/stokesian_dynamics/run_simulation.py b/stokesian_dynamics/run_simulation.py
index 01aaf62..e72924b 100755
--- a/stokesian_dynamics/run_simulation.py
+++ b/stokesian_dynamics/run_simulation.py
@@ -264,22 +264,24 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
                 if timestepping_scheme == "euler" or frameno - checkpoint_start_from_frame == 0:
                     new_sphere_positions = euler_timestep(
                         sphere_positions, Ua_out_plus_infinities_k1, timestep)
+                else:
+                    new_sphere_positions = ab2_timestep(
+                        sphere_positions, Ua_out_plus_infinities_k1, last_velocities[0], timestep)
+                if periodic:
+                    new_sphere_positions = wrap_around(
+                        new_sphere_positions, box_bottom_left, box_top_right,
+                        Ot_infinity_end, Et_infinity_end)
+                if timestepping_scheme == "euler" or frameno - checkpoint_start_from_frame == 0:
                     new_sphere_rotations = euler_timestep_rotation(
                         sphere_positions, sphere_rotations,
                         new_sphere_positions, new_sphere_rotations,
                         Oa_out_plus_infinities_k1, timestep)
                 else:
-                    new_sphere_positions = ab2_timestep(
-                        sphere_positions, Ua_out_plus_infinities_k1, last_velocities[0], timestep)
                     new_sphere_rotations = ab2_timestep_rotation(
                         sphere_positions, sphere_rotations,
                         new_sphere_positions, new_sphere_rotations,
                         Oa_out_plus_infinities_k1, last_velocities[3],
                         timestep)
-                if periodic:
-                    new_sphere_positions = wrap_around(
-                        new_sphere_positions, box_bottom_left, box_top_right,
-                        Ot_infinity_end, Et_infinity_end)
 
             if (num_dumbbells > 0):
                 Ub_out_plus_infinities_k1, HalfDUb_out_plus_infinities_k1 = add_background_flow_dumbbells(
-- 
2.43.0


From fb8ab2bd6f1dc96d24b9138cd0d9b299d00fd501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:40 +0000
Subject: [PATCH 10/43] fix: give wrapped particles the previous velocity of
 their new image in ab2

A particle wrapped across a sheared periodic box changes background velocity.
The two-step scheme kept the velocity of the old image for its next step, which
moved the particle relative to its neighbours.
---
 stokesian_dynamics/run_simulation.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/stokesian_dynamics/run_simulation.py b/stokesian_dynamics/run_simulation.py
index e72924b..b8604b5 100755
--- a/stokesian_dynamics/run_simulation.py
+++ b/stokesian_dynamics/run_simulation.py
@@ -268,6 +268,7 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
                     new_sphere_positions = ab2_timestep(
                         sphere_positions, Ua_out_plus_infinities_k1, last_velocities[0], timestep)
                 if periodic:
+                    unwrapped_sphere_positions = new_sphere_positions
                     new_sphere_positions = wrap_around(
                         new_sphere_positions, box_bottom_left, box_top_right,
                         Ot_infinity_end, Et_infinity_end)
@@ -282,6 +283,12 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
                         new_sphere_positions, new_sphere_rotations,
                         Oa_out_plus_infinities_k1, last_velocities[3],
                         timestep)
+                if periodic:
+                    # A wrapped sphere carries on with the background velocity
+                    # of its new image
+                    Ua_out_plus_infinities_k1, _ = add_background_flow_spheres(
+                        Ua_out_plus_infinities_k1, Oa_out_k1, Ea_out_k1, 0, O_infinity_k1,
+                        new_sphere_positions - unwrapped_sphere_positions, 0)
 
             if (num_dumbbells > 0):
                 Ub_out_plus_infinities_k1, HalfDUb_out_plus_infinities_k1 = add_background_flow_dumbbells(
@@ -300,9 +307,14 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
                 error = did_something_go_wrong_with_dumbells(
                     error, dumbbell_deltax, new_dumbbell_deltax, explosion_protection)
                 if periodic:
+                    unwrapped_dumbbell_positions = new_dumbbell_positions
                     new_dumbbell_positions = wrap_around(
                         new_dumbbell_positions, box_bottom_left, box_top_right,
                         Ot_infinity_end, Et_infinity_end)
+                    Ub_out_plus_infinities_k1, _ = add_background_flow_dumbbells(
+                        Ub_out_plus_infinities_k1, HalfDUb_out_k1, Ea_out_k1, 0, O_infinity_k1,
+                        new_dumbbell_positions - unwrapped_dumbbell_positions,
+                        dumbbell_deltax, 0)
 
             if num_spheres > 0 and num_dumbbells == 0:
                 last_velocities = [Ua_out_plus_infinities_k1, 0, 0, Oa_out_plus_infinities_k1]
-- 
2.43.0


From 856d0fd234eb0ffd55bf434f91ae79f15a0d4366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:40 +0000
Subject: [PATCH 11/43] fix: keep dumbbells in the plane in fully 2D problems

Only the spheres' out-of-plane velocity was removed.
---
 stokesian_dynamics/run_simulation.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/stokesian_dynamics/run_simulation.py b/stokesian_dynamics/run_simulation.py
index b8604b5..4e2ac6b 100755
--- a/stokesian_dynamics/run_simulation.py
+++ b/stokesian_dynamics/run_simulation.py
@@ -294,6 +294,9 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
                 Ub_out_plus_infinities_k1, HalfDUb_out_plus_infinities_k1 = add_background_flow_dumbbells(
                     Ub_out_k1, HalfDUb_out_k1, Ea_out_k1, U_infinity_k1, O_infinity_k1,
                     dumbbell_positions, dumbbell_deltax, centre_of_background_flow)
+                if fully_2d_problem:
+                    Ub_out_plus_infinities_k1[:, 1] = 0
+                    HalfDUb_out_plus_infinities_k1[:, 1] = 0
                 if timestepping_scheme == "euler" or frameno - checkpoint_start_from_frame == 0:
                     new_dumbbell_positions = euler_timestep(
                         dumbbell_positions, Ub_out_plus_infinities_k1, timestep)
@@ -537,6 +540,11 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
                                          + 2*HalfDUb_out_plus_infinities_k2
                                          + 2*HalfDUb_out_plus_infinities_k3
                                          + HalfDUb_out_plus_infinities_k4)
+
+                if fully_2d_problem:
+                    Ub_out_blended[:, 1] = 0
+                    DUb_out_blended[:, 1] = 0
+
                 new_dumbbell_positions = euler_timestep(
                     dumbbell_positions, Ub_out_blended, timestep)
                 new_dumbbell_deltax = euler_timestep(
-- 
2.43.0


From c36c2a88a30e242c1b9f0b95e4fba463b1971ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:40 +0000
Subject: [PATCH 12/43] fix: let ufte runs extract the force on the wall due to
 dumbbells

With extraction on, the solution was never unpacked and the wall force was
reshaped with a non-integer length, so the first frame failed.
---
 stokesian_dynamics/functions/timestepping.py | 22 ++++++++++----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/stokesian_dynamics/functions/timestepping.py b/stokesian_dynamics/functions/timestepping.py
index 613320a..3d884f9 100755
--- a/stokesian_dynamics/functions/timestepping.py
+++ b/stokesian_dynamics/functions/timestepping.py
@@ -380,16 +380,16 @@ def generate_output_FTSUOE(
             else:
                 velocity_vector = np.linalg.solve(grand_resistance_matrix_ufte,
                                                   force_vector)
-                (FUa_out, Oa_out, Sa_out, Ub_out, HalfDUb_out) = deconstruct_velocity_vector_for_fts(
-                    posdata, velocity_vector)
-                Fa_out = [['chen', 'chen', 'chen'] for _ in range(num_spheres)]
-                Ua_out = [['chen', 'chen', 'chen'] for _ in range(num_spheres)]
-                Fa_out[0:num_fixed_velocity_spheres] = FUa_out[0:num_fixed_velocity_spheres]
-                Fa_out[num_fixed_velocity_spheres:num_spheres] = Fa_in[num_fixed_velocity_spheres:num_spheres]
-                Ua_out[0:num_fixed_velocity_spheres] = Ua_in[0:num_fixed_velocity_spheres]
-                Ua_out[num_fixed_velocity_spheres:num_spheres] = FUa_out[num_fixed_velocity_spheres:num_spheres]
-                (Ta_out, Ea_out, Fb_out, DFb_out) = (
-                    Ta_in[:], Ea_in[:], Fb_in[:], DFb_in[:])
+            (FUa_out, Oa_out, Sa_out, Ub_out, HalfDUb_out) = deconstruct_velocity_vector_for_fts(
+                posdata, velocity_vector)
+            Fa_out = [['chen', 'chen', 'chen'] for _ in range(num_spheres)]
+            Ua_out = [['chen', 'chen', 'chen'] for _ in range(num_spheres)]
+            Fa_out[0:num_fixed_velocity_spheres] = FUa_out[0:num_fixed_velocity_spheres]
+            Fa_out[num_fixed_velocity_spheres:num_spheres] = Fa_in[num_fixed_velocity_spheres:num_spheres]
+            Ua_out[0:num_fixed_velocity_spheres] = Ua_in[0:num_fixed_velocity_spheres]
+            Ua_out[num_fixed_velocity_spheres:num_spheres] = FUa_out[num_fixed_velocity_spheres:num_spheres]
+            (Ta_out, Ea_out, Fb_out, DFb_out) = (
+                Ta_in[:], Ea_in[:], Fb_in[:], DFb_in[:])
 
             if extract_force_on_wall_due_to_dumbbells:
                 # For finding effect of the dumbbells on the measured Force on the walls.
@@ -401,7 +401,7 @@ def generate_output_FTSUOE(
                 force_on_wall_due_to_dumbbells_flat = np.dot(
                     force_on_wall_due_to_dumbbells_matrix, dumbbell_forces)
                 force_on_wall_due_to_dumbbells = force_on_wall_due_to_dumbbells_flat.reshape(
-                    len(force_on_wall_due_to_dumbbells_flat)/3, 3)
+                    len(force_on_wall_due_to_dumbbells_flat)//3, 3)
 
         elif input_form == 'ufteu':
             num_fixed_velocity_spheres = (num_spheres
-- 
2.43.0


From 17c3cc5992a073aff51c15496aef168182369917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:40 +0000
Subject: [PATCH 13/43] fix: honour the sixth command-line argument

The extract-dumbbell-force flag was read from the command line and then reset
to False further down the settings file.
---
 stokesian_dynamics/settings.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/stokesian_dynamics/settings.py b/stokesian_dynamics/settings.py
index 9f8c847..83ca4bd 100755
--- a/stokesian_dynamics/settings.py
+++ b/stokesian_dynamics/settings.py
@@ -35,6 +35,11 @@ num_frames = 100
 # How to solve the equation U=MF. {'fts','fte','ufte','ufteu','duf'}
 input_form = 'fte'
 
+# Work out the force on any particles whose velocities are specified in the
+# input file. (Typical use case: these 'fixed' particles are acting as walls.)
+# This is saved to `force_on_wall_due_to_dumbbells` in the output NPZ file.
+extract_force_on_wall_due_to_dumbbells = False
+
 # ----------------------------------------------------------------------------|
 # BASIC SETTINGS: OVERRIDES FROM COMMAND LINE
 
@@ -121,11 +126,6 @@ if start_saving_after_first_n_timesteps > num_frames:
     print("WARNING: start_saving_after_first_n_timesteps > num_frames. "
           + "Saving will fail.")
 
-# Work out the force on any particles whose velocities are specified in the
-# input file. (Typical use case: these 'fixed' particles are acting as walls.)
-# This is saved to `force_on_wall_due_to_dumbbells` in the output NPZ file.
-extract_force_on_wall_due_to_dumbbells = False
-
 # Just use diagonal terms of Minfinity. Good(?) approximation for dense
 # suspensions only.
 use_drag_Minfinity = False
-- 
2.43.0


From ac0131de58167e77a018bb431d33a4360fa59d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:54 +0000
Subject: [PATCH 14/43] fix: let dumbbell-only simulations run without a
 background flow

The background strain rate is read from the first sphere. With no spheres and no
shear in the input there is nothing to read, and the run stopped with an
IndexError.
---
 stokesian_dynamics/functions/timestepping.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/stokesian_dynamics/functions/timestepping.py b/stokesian_dynamics/functions/timestepping.py
index 3d884f9..2000191 100755
--- a/stokesian_dynamics/functions/timestepping.py
+++ b/stokesian_dynamics/functions/timestepping.py
@@ -290,7 +290,8 @@ def generate_output_FTSUOE(
                 cutoff_factor=cutoff_factor, printout=printout,
                 use_drag_Minfinity=use_drag_Minfinity,
                 use_Minfinity_only=use_Minfinity_only, frameno=frameno, mu=mu,
-                O_infinity=O_infinity, E_infinity=Ea_in[0],
+                O_infinity=O_infinity,
+                E_infinity=Ea_in[0] if len(Ea_in) > 0 else np.zeros([3, 3]),
                 timestep=timestep,
                 centre_of_background_flow=centre_of_background_flow,
                 Ot_infinity=Ot_infinity, Et_infinity=Et_infinity)
@@ -705,6 +706,9 @@ def add_background_flow_dumbbells(Ub_out_k1, HalfDUb_out_k1, Ea_out_k1,
                                   centre_of_background_flow):
     """Return Ub_out and HalfDUb_out + the background flow."""
     num_dumbbells = dumbbell_positions.shape[0]
+    if len(Ea_out_k1) == 0:
+        # Only dumbbells, and no background strain rate specified
+        Ea_out_k1 = np.zeros([1, 3, 3])
     O_infinity_cross_xbar_k1 = np.cross(O_infinity_k1,
                                         dumbbell_positions - centre_of_background_flow)
     O_infinity_cross_deltax_k1 = np.cross(O_infinity_k1, dumbbell_deltax)
-- 
2.43.0


From ec85f803f58a55f330d96ac870d763a1d3767dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:54 +0000
Subject: [PATCH 15/43] fix: find close pairs of large particles in periodic
 boxes

Pairs were first limited to a separation of twice the cutoff factor in absolute
units, so particles with radius above 1 lost part of their lubrication
interactions. Scale the limit with the largest radius, and treat a pair exactly
at the cutoff as in the nonperiodic case.
---
 stokesian_dynamics/functions/shared.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/stokesian_dynamics/functions/shared.py b/stokesian_dynamics/functions/shared.py
index f1aa985..392eb46 100755
--- a/stokesian_dynamics/functions/shared.py
+++ b/stokesian_dynamics/functions/shared.py
@@ -457,7 +457,9 @@ def close_particles(bead_positions, bead_sizes, cutoff_factor,
             basis_canonical)
         closer_than_cutoff_pairs = []
         displacements_pairs = np.empty([0, 3])
-        # This lists pairs that are closer than 4 units, regardless of size ratio.
+        # This lists pairs that are closer than the cutoff would be for two of
+        # the largest particles, regardless of size ratio.
+        largest_cutoff = cutoff*np.max(bead_sizes)
         for i in range(len(unsheared_positions)):
             sphere_position = unsheared_positions[i]
             sheared_centred_box = np.dot(np.mod(np.dot(unsheared_positions-sphere_position,
@@ -466,10 +468,10 @@ def close_particles(bead_positions, bead_sizes, cutoff_factor,
                                          sheared_basis_vectors)
             # Shear again
             # Take particles only within a cube of the correct radius:
-            particles_in_cube = np.where(np.max(np.abs(sheared_centred_box), axis=1) <= cutoff)
+            particles_in_cube = np.where(np.max(np.abs(sheared_centred_box), axis=1) <= largest_cutoff)
             # Take particles only within a sphere of the correct radius:
             particles_in_radius = np.where(
-                np.linalg.norm(sheared_centred_box[particles_in_cube], axis=1) <= cutoff)
+                np.linalg.norm(sheared_centred_box[particles_in_cube], axis=1) <= largest_cutoff)
             particles_in_radius_ids = particles_in_cube[0][particles_in_radius][
                 particles_in_cube[0][particles_in_radius] >= i]
             closer_than_cutoff_pairs += [(i, j) for j in particles_in_radius_ids]
@@ -483,7 +485,7 @@ def close_particles(bead_positions, bead_sizes, cutoff_factor,
         distances_pairs_scaled = []
         size_ratios = []
         for (a1_index, a2_index) in closer_than_cutoff_pairs:
-            if 2*distances_pairs[jj]/(bead_sizes[a1_index]+bead_sizes[a2_index]) <= cutoff:
+            if 2*distances_pairs[jj]/(bead_sizes[a1_index]+bead_sizes[a2_index]) < cutoff:
                 closer_than_cutoff_pairs_scaled.append((a1_index, a2_index))
                 displacements_pairs_scaled = np.concatenate((
                     displacements_pairs_scaled,
-- 
2.43.0


From c91c425af40a6da15d41be29df6e27482c93e52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:36:25 +0000
Subject: [PATCH 16/43] fix: give the drag-only far field the units of the full
 one

The drag-only option should keep the diagonal self terms of the far-field
matrix. It left out their common factor of 6*pi, so it was added to lubrication
terms in different units and a single sphere did not obey Stokes' law. In
periodic boxes it also failed on non-integer indices.
---
 .../functions/generate_grand_resistance_matrix.py  | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/stokesian_dynamics/functions/generate_grand_resistance_matrix.py b/stokesian_dynamics/functions/generate_grand_resistance_matrix.py
index b7737d2..f9fef01 100755
--- a/stokesian_dynamics/functions/generate_grand_resistance_matrix.py
+++ b/stokesian_dynamics/functions/generate_grand_resistance_matrix.py
@@ -60,7 +60,7 @@ def generate_grand_resistance_matrix(
             element_sizes, element_positions, element_deltax, num_elements,
             num_elements_array, element_type, uv_start, uv_size,
             element_start_count) = posdata_data(posdata)
-        Minfinity_inverse = mu*np.diag(
+        Minfinity_inverse = 6*np.pi*mu*np.diag(
             [sphere_sizes[i//3] for i in range(3*num_spheres)]
             + [1/0.75 * sphere_sizes[i//3]**3 for i in range(3*num_spheres)]
             + [1/0.9 * sphere_sizes[i//5]**3 for i in range(5*num_spheres)]
@@ -169,12 +169,12 @@ def generate_grand_resistance_matrix_periodic(
             element_sizes, element_positions, element_deltax, num_elements,
             num_elements_array, element_type, uv_start, uv_size,
             element_start_count) = posdata_data(posdata)
-        Minfinity_inverse = mu * np.diag(
-            [sphere_sizes[i/3] for i in range(3*num_spheres)]
-            + [1/0.75 * sphere_sizes[i/3]**3 for i in range(3*num_spheres)]
-            + [1/0.9 * sphere_sizes[i/5]**3 for i in range(5*num_spheres)]
-            + [2 * dumbbell_sizes[i/3] for i in range(3*num_dumbbells)]
-            + [2 * dumbbell_sizes[i/3] for i in range(3*num_dumbbells)])
+        Minfinity_inverse = 6*np.pi*mu*np.diag(
+            [sphere_sizes[i//3] for i in range(3*num_spheres)]
+            + [1/0.75 * sphere_sizes[i//3]**3 for i in range(3*num_spheres)]
+            + [1/0.9 * sphere_sizes[i//5]**3 for i in range(5*num_spheres)]
+            + [2 * dumbbell_sizes[i//3] for i in range(3*num_dumbbells)]
+            + [2 * dumbbell_sizes[i//3] for i in range(3*num_dumbbells)])
         Minfinity_elapsed_time = 0
         Minfinity_inverse_elapsed_time = 0
 
-- 
2.43.0


From ebb61899934b27cd83e14b6bee38245ac053c9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:36:25 +0000
Subject: [PATCH 17/43] fix: load the drag-only scalars only when they are
 asked for

The choice between the full and drag-only tables was the wrong way round. With
the drag-only far field and the default scalars the run looked for a table that
is not shipped.
---
 stokesian_dynamics/resistance_scalars/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stokesian_dynamics/resistance_scalars/data.py b/stokesian_dynamics/resistance_scalars/data.py
index 74fada9..c65a037 100755
--- a/stokesian_dynamics/resistance_scalars/data.py
+++ b/stokesian_dynamics/resistance_scalars/data.py
@@ -23,7 +23,7 @@ lam_range_with_reciprocals.sort()
 
 # The resistance scalars already have R2Binfinity subtracted off. Decide here
 # whether this is with the full R2Binfinity or the drag-only R2Binfinity.
-if not use_drag_Minfinity or (use_drag_Minfinity and use_drag_R2Binfinity):
+if not (use_drag_Minfinity and use_drag_R2Binfinity):
     filename = f'{resistance_scalars_folder}/scalars_general_resistance_d.npy'
 else:
     filename = f'{resistance_scalars_folder}/scalars_general_resistance_d_drag.npy'
-- 
2.43.0


From d8f97a8e98559eef62288031ddecbed238a1d9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:36:25 +0000
Subject: [PATCH 18/43] fix: save results whichever saving intervals are chosen

The saved arrays were only created on the exact frame where saving starts. If
that frame was not a multiple of a saving interval, or if only positions or only
forces were saved, the run stopped with an error and its results were lost.
---
 stokesian_dynamics/run_simulation.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/stokesian_dynamics/run_simulation.py b/stokesian_dynamics/run_simulation.py
index 4e2ac6b..f365e10 100755
--- a/stokesian_dynamics/run_simulation.py
+++ b/stokesian_dynamics/run_simulation.py
@@ -218,6 +218,12 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
         if trace_paths > 0 and frameno % trace_paths == 0:
             previous_step_posdata = posdata
 
+        if frameno == checkpoint_start_from_frame and checkpoint_filename == "":
+            # Nothing has been saved yet
+            (saved_Fa_out, saved_Fb_out, saved_DFb_out, saved_Sa_out,
+             saved_force_on_wall_due_to_dumbbells, saved_deltax,
+             saved_sphere_rotations) = [np.array([]) for _ in range(7)]
+
         if frameno == 0 or frameno == checkpoint_start_from_frame:
             Ua_blank = np.array([[0, 0, 0] for _ in range(num_spheres)])
             Ub_blank = np.array([[0, 0, 0] for _ in range(num_dumbbells)])
@@ -607,7 +613,8 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
             and frameno % save_positions_every_n_timesteps == 0
             and frameno >= start_saving_after_first_n_timesteps
         ):
-            if frameno == start_saving_after_first_n_timesteps:  # usually 0
+            if frameno < start_saving_after_first_n_timesteps + save_positions_every_n_timesteps:
+                # First save, usually frame 0
                 saved_element_positions = np.array([element_positions])
                 saved_sphere_rotations = np.array([sphere_rotations])
                 saved_deltax = np.array([dumbbell_deltax])
@@ -632,7 +639,8 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
             and frameno % save_forces_every_n_timesteps == 0
             and frameno >= start_saving_after_first_n_timesteps
         ):
-            if frameno == start_saving_after_first_n_timesteps:  # usually 0
+            if frameno < start_saving_after_first_n_timesteps + save_forces_every_n_timesteps:
+                # First save, usually frame 0
                 saved_Fa_out = np.array([Fa_out])
                 saved_Fb_out = np.array([Fb_out])
                 saved_DFb_out = np.array([DFb_out])
-- 
2.43.0


From 54e44e1481bb50b26834a66610e4c736cd602e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:36:53 +0000
Subject: [PATCH 19/43] fix: continue an interrupted simulation from the frame
 it had reached

The positions in the backup file are those at the start of each saved frame. The
restart took the number of saved frames as the next frame to run, which dropped
one step, and misread the frame number altogether when positions are not saved
every step.
---
 stokesian_dynamics/setups/positions.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/stokesian_dynamics/setups/positions.py b/stokesian_dynamics/setups/positions.py
index bb6b78d..f7e510d 100755
--- a/stokesian_dynamics/setups/positions.py
+++ b/stokesian_dynamics/setups/positions.py
@@ -12,7 +12,9 @@ import numpy as np
 from functions.shared import (add_sphere_rotations_to_positions, same_setup_as,
                               throw_error)
 import glob
-from settings import setup_number, input_number, num_frames, timestep
+from settings import (setup_number, input_number, num_frames, timestep,
+                      save_positions_every_n_timesteps,
+                      start_saving_after_first_n_timesteps)
 from setups.tests.positions import pos_setup_tests
 from setups.functions_positions import (simple_cubic_8, randomise_spheres,
                                         randomise_dumbbells)
@@ -230,7 +232,13 @@ for filename in sorted(glob.glob("output/*_TEMP.npz"), reverse=True):
                        dumbbell_sizes, dumbbell_positions, dumbbell_deltax)
 
             checkpoint_filename = filename
-            checkpoint_start_from_frame = positions_centres.shape[0]
+            # The last saved positions are from the start of a frame, so that
+            # frame is the one to continue from.
+            first_saved_frame = save_positions_every_n_timesteps * -(
+                -start_saving_after_first_n_timesteps
+                // save_positions_every_n_timesteps)
+            checkpoint_start_from_frame = first_saved_frame + (
+                positions_centres.shape[0] - 1)*save_positions_every_n_timesteps
 
             word_checkpoint = "\033[42m\033[01m CHECKPOINT FOUND \033[0m\033[49m "
             print(
-- 
2.43.0


From 7ef4b2a513fcec12f11096c69d2feed958e5c4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:36:53 +0000
Subject: [PATCH 20/43] fix: restore sphere rotations when continuing an
 interrupted simulation

The rotation markers were reset to their initial directions on restart although
the backup file records them.
---
 stokesian_dynamics/setups/positions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stokesian_dynamics/setups/positions.py b/stokesian_dynamics/setups/positions.py
index f7e510d..b0a75d8 100755
--- a/stokesian_dynamics/setups/positions.py
+++ b/stokesian_dynamics/setups/positions.py
@@ -217,6 +217,7 @@ for filename in sorted(glob.glob("output/*_TEMP.npz"), reverse=True):
             with np.load(filename) as data1:
                 positions_centres = data1['centres']
                 positions_deltax = data1['deltax']
+                positions_rotations = data1['sphere_rotations']
             num_particles = positions_centres.shape[1]
             num_dumbbells = positions_deltax.shape[1]
             num_spheres = num_particles - num_dumbbells
@@ -226,8 +227,7 @@ for filename in sorted(glob.glob("output/*_TEMP.npz"), reverse=True):
             dumbbell_deltax = positions_deltax[-1, :, :]
             sphere_sizes = ignored_posdata[0]
             dumbbell_sizes = ignored_posdata[3]
-            sphere_rotations = add_sphere_rotations_to_positions(
-                sphere_positions, sphere_sizes, np.array([[1,0,0],[0,0,1]]))
+            sphere_rotations = positions_rotations[-1]
             posdata = (sphere_sizes, sphere_positions, sphere_rotations,
                        dumbbell_sizes, dumbbell_positions, dumbbell_deltax)
 
-- 
2.43.0


From cde38b7b41ee804ed2a15b749b8f6169d99d2f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:36:53 +0000
Subject: [PATCH 21/43] fix: do not duplicate saved forces when continuing a
 simulation

When forces are saved more often than positions, the restart repeats frames
whose forces are already in the backup file.
---
 stokesian_dynamics/run_simulation.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/stokesian_dynamics/run_simulation.py b/stokesian_dynamics/run_simulation.py
index f365e10..12be964 100755
--- a/stokesian_dynamics/run_simulation.py
+++ b/stokesian_dynamics/run_simulation.py
@@ -811,6 +811,18 @@ if error == 0:
             saved_deltax = saved_data['deltax']
             saved_force_on_wall_due_to_dumbbells = saved_data[
                 'force_on_wall_due_to_dumbbells']
+        # The forces may have been saved more recently than the positions.
+        # Discard those which are about to be generated again.
+        if save_forces_every_n_timesteps > 0:
+            num_saved_forces = (
+                checkpoint_start_from_frame//save_forces_every_n_timesteps + 1
+                + -start_saving_after_first_n_timesteps//save_forces_every_n_timesteps)
+            saved_Fa_out = saved_Fa_out[:num_saved_forces]
+            saved_Fb_out = saved_Fb_out[:num_saved_forces]
+            saved_DFb_out = saved_DFb_out[:num_saved_forces]
+            saved_Sa_out = saved_Sa_out[:num_saved_forces]
+            saved_force_on_wall_due_to_dumbbells = (
+                saved_force_on_wall_due_to_dumbbells[:num_saved_forces])
 
     warning_formatting_start = "\033[43m\033[30m"
     warning_formatting_end = "\033[39m\033[49m"
-- 
2.43.0


From 927c8b10a7c380a8c372afea8e0d9c38f8d7c53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:58 +0000
Subject: [PATCH 22/43] fix: let combine_scalars.py finish, with rows matching
 its distances

The list of distances was sorted into a plain list, so building the
human-readable table failed. The scalars themselves were not reordered with the
distances.
---
 find_resistance_scalars/combine_scalars.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/find_resistance_scalars/combine_scalars.py b/find_resistance_scalars/combine_scalars.py
index 3dea844..96d5e52 100755
--- a/find_resistance_scalars/combine_scalars.py
+++ b/find_resistance_scalars/combine_scalars.py
@@ -27,8 +27,10 @@ values_of_s_dash_nearfield = np.loadtxt('values_of_s_dash_nearfield.txt',
                                         ndmin=1)
 values_of_s_dash_midfield = np.loadtxt('values_of_s_dash_midfield.txt',
                                        ndmin=1)
-values_of_s_dash = sorted(np.concatenate((values_of_s_dash_nearfield,
-                                          values_of_s_dash_midfield)))
+values_of_s_dash = np.concatenate((values_of_s_dash_nearfield,
+                                   values_of_s_dash_midfield))
+s_dash_order = np.argsort(values_of_s_dash, kind='stable')
+values_of_s_dash = values_of_s_dash[s_dash_order]
 np.savetxt('values_of_s_dash.txt', values_of_s_dash, fmt="% .8e")
 s_dash_range = values_of_s_dash
 s_dash_length = len(s_dash_range)
@@ -46,7 +48,8 @@ print(XYZ_mid_raw.shape)
 print(XYZ_near_raw.shape)
 
 
-XYZ_general_table = np.concatenate((XYZ_near_raw, XYZ_mid_raw), axis=2)
+XYZ_general_table = np.concatenate((XYZ_near_raw, XYZ_mid_raw),
+                                   axis=2)[:, :, s_dash_order, :]
 general_scalars_length = len(general_resistance_scalars_names)
 
 with open('scalars_general_resistance.npy', 'wb') as outputfile:
-- 
2.43.0


From 42584a5e84e9edcefe2462c5ba09131c92041d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:58 +0000
Subject: [PATCH 23/43] fix: write the subtracted scalars where the other
 scripts read them

All input and output of this folder's scripts is relative to the folder, except
for this one file, so the last step failed. A single size ratio is now accepted
too.
---
 .../subtract_R2Binfinity_from_scalars.py                    | 6 +++---
 .../subtract_R2Binfinitydrag_from_scalars.py                | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/find_resistance_scalars/subtract_R2Binfinity_from_scalars.py b/find_resistance_scalars/subtract_R2Binfinity_from_scalars.py
index 3e69284..48cd3e7 100755
--- a/find_resistance_scalars/subtract_R2Binfinity_from_scalars.py
+++ b/find_resistance_scalars/subtract_R2Binfinity_from_scalars.py
@@ -22,8 +22,8 @@ with open('scalars_general_resistance.npy', 'rb') as inputfile:
     XYZ_raw = np.load(inputfile)
 XYZd_raw = np.copy(XYZ_raw)
 
-s_dash_range = np.loadtxt('values_of_s_dash.txt')
-lam_range = np.loadtxt('values_of_lambda.txt')
+s_dash_range = np.loadtxt('values_of_s_dash.txt', ndmin=1)
+lam_range = np.loadtxt('values_of_lambda.txt', ndmin=1)
 lam_range_with_reciprocals = np.copy(lam_range)
 for lam in lam_range:
     if 1/lam not in lam_range_with_reciprocals:
@@ -103,7 +103,7 @@ for lam_index, lam in enumerate(lam_range_with_reciprocals):
         XYZd_raw[10, 1, s_dash_index, lam_index] = XYZ_raw[10, 1, s_dash_index, lam_index] - ZM1
 
 # computer readable
-with open('find_resistance_scalars/scalars_general_resistance_d.npy', 'wb+') as outputfile:
+with open('scalars_general_resistance_d.npy', 'wb+') as outputfile:
     np.save(outputfile, XYZd_raw)
 
 # human readable
diff --git a/find_resistance_scalars/subtract_R2Binfinitydrag_from_scalars.py b/find_resistance_scalars/subtract_R2Binfinitydrag_from_scalars.py
index 95e9bfa..197bbdd 100644
--- a/find_resistance_scalars/subtract_R2Binfinitydrag_from_scalars.py
+++ b/find_resistance_scalars/subtract_R2Binfinitydrag_from_scalars.py
@@ -26,8 +26,8 @@ with open('scalars_general_resistance.npy', 'rb') as inputfile:
     XYZ_raw = np.load(inputfile)
 XYZd_raw = np.copy(XYZ_raw)
 
-s_dash_range = np.loadtxt('values_of_s_dash.txt')
-lam_range = np.loadtxt('values_of_lambda.txt')
+s_dash_range = np.loadtxt('values_of_s_dash.txt', ndmin=1)
+lam_range = np.loadtxt('values_of_lambda.txt', ndmin=1)
 lam_range_with_reciprocals = np.copy(lam_range)
 for lam in lam_range:
     if 1/lam not in lam_range_with_reciprocals:
-- 
2.43.0


From 00967d23f35ebcb761949ac6368a73b6c1a1dbbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:58 +0000
Subject: [PATCH 24/43] fix: use integer division when feeding in new dumbbells

---
 stokesian_dynamics/functions/shared.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/stokesian_dynamics/functions/shared.py b/stokesian_dynamics/functions/shared.py
index 392eb46..75dfb6f 100755
--- a/stokesian_dynamics/functions/shared.py
+++ b/stokesian_dynamics/functions/shared.py
@@ -411,9 +411,9 @@ def feed_particles_from_bottom(posdata, feed_every_n_timesteps, feed_from_file,
         new_bead_positions = np.concatenate([new_bead_positions, readd_beads], axis=0)
 
     # form back into dumbbells
-    beads1 = new_bead_positions[:new_bead_positions.shape[0]/2]
-    beads2 = new_bead_positions[new_bead_positions.shape[0]/2:
-                                (new_bead_positions.shape[0]/2)*2]
+    beads1 = new_bead_positions[:new_bead_positions.shape[0]//2]
+    beads2 = new_bead_positions[new_bead_positions.shape[0]//2:
+                                (new_bead_positions.shape[0]//2)*2]
     new_dumbbell_positions = 0.5*(beads1+beads2)
     new_dumbbell_deltax = beads2-beads1
     new_dumbbell_sizes = np.array(
-- 
2.43.0


From e201a0239bb020392b164f126ed83225176f9e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:58 +0000
Subject: [PATCH 25/43] fix: return the dumbbells that were placed inside the
 quadrilateral

The bead positions were reshaped with a non-integer length, the separations were
halved, and the sizes used in the overlap test did not match the pairing of
beads into dumbbells.
---
 stokesian_dynamics/setups/functions_positions.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/stokesian_dynamics/setups/functions_positions.py b/stokesian_dynamics/setups/functions_positions.py
index 0269ebc..1d84ce2 100644
--- a/stokesian_dynamics/setups/functions_positions.py
+++ b/stokesian_dynamics/setups/functions_positions.py
@@ -356,24 +356,24 @@ def randomise_beads_inside_quadrilateral(quadrilateral, dumbbell_sizes,
                 for j in range(num_current_spheres):
                     if not fail and overlaps(proposed_bead1_position,
                                              current_sphere_positions[j],
-                                             dumbbell_sizes[i//2],
+                                             dumbbell_sizes[i % num_dumbbells],
                                              current_sphere_size):
                         fail = True
             if not fail:
                 for j in range(i):
                     if not fail and overlaps(proposed_bead1_position,
                                              bead_positions[j],
-                                             dumbbell_sizes[i//2],
-                                             dumbbell_sizes[j//2]):
+                                             dumbbell_sizes[i % num_dumbbells],
+                                             dumbbell_sizes[j % num_dumbbells]):
                         fail = True
 
         sys.stdout.write('|')
         sys.stdout.flush()
         bead_positions[i] = proposed_bead1_position
 
-    pos3 = bead_positions.reshape([2, bead_positions.shape[0]/2, 3])
+    pos3 = bead_positions.reshape([2, bead_positions.shape[0]//2, 3])
     pos3_dumbbell = 0.5*(pos3[0] + pos3[1])
-    pos3_deltax = 0.5*(pos3[1] - pos3[0])
+    pos3_deltax = pos3[1] - pos3[0]
 
     print("... succeeded.")
 
-- 
2.43.0


From 8bb39b28d8a0067cc6164435b4ff445a80475635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:59 +0000
Subject: [PATCH 26/43] fix: remove leftover debugging shell from periodic
 dumbbell placement

Beads smaller than 0.1 which were correctly placed closer than 0.2 opened an
IPython shell. Each orientation tried for a dumbbell is now also judged on its
own overlaps.
---
 stokesian_dynamics/setups/functions_positions.py | 15 ++-------------
 1 file changed, 2 insertions(+), 13 deletions(-)

diff --git a/stokesian_dynamics/setups/functions_positions.py b/stokesian_dynamics/setups/functions_positions.py
index 1d84ce2..03e680a 100644
--- a/stokesian_dynamics/setups/functions_positions.py
+++ b/stokesian_dynamics/setups/functions_positions.py
@@ -117,6 +117,7 @@ def randomise_dumbbells(random_box_bottom_left, random_box_top_right,
             if too_close == 0:
                 bingo = 0
                 for _ in range(100):
+                    too_close = 0
                     if random_theta:
                         theta = np.random.rand()*np.pi*2
                     if random_phi:
@@ -231,6 +232,7 @@ def randomise_dumbbells_periodic(random_box_bottom_left, random_box_top_right,
             if too_close == 0:
                 bingo = 0
                 for _ in range(100):
+                    too_close = 0
                     if random_theta:
                         theta = np.random.rand()*np.pi*2
                     if random_phi:
@@ -264,19 +266,6 @@ def randomise_dumbbells_periodic(random_box_bottom_left, random_box_top_right,
                 if bingo == 1:
                     break
 
-        q = 1000
-        qq = 1000
-        for m in [-1, 0, 1]:
-            for n in [-1, 0, 1]:
-                dxy = np.array([m*Dx, 0, n*Dz])
-                for p in bead_positions[:i]:
-                    q = min(q, np.linalg.norm(proposed_bead2_position - (p+dxy)))
-                    qq = min(qq, np.linalg.norm(proposed_bead1_position - (p+dxy)))
-        if min(q, qq) < 0.2:
-            print(min(q, qq))
-            from IPython import embed
-            embed()
-
         sys.stdout.write('|')
         sys.stdout.flush()
         bead_positions[2*i] = proposed_bead1_position
-- 
2.43.0


From e5d087821d7d326e9f9a8df4c1218c6522f9867c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:59 +0000
Subject: [PATCH 27/43] fix: allow a single sphere to be placed at random

---
 stokesian_dynamics/setups/functions_positions.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/stokesian_dynamics/setups/functions_positions.py b/stokesian_dynamics/setups/functions_positions.py
index 03e680a..92ae755 100644
--- a/stokesian_dynamics/setups/functions_positions.py
+++ b/stokesian_dynamics/setups/functions_positions.py
@@ -64,10 +64,11 @@ def randomise_spheres(random_box_bottom_left, random_box_top_right,
         current_sphere_positions.shape[0]:all_sphere_sizes.shape[0]]
     distance_matrix = np.linalg.norm(
         random_sphere_positions-random_sphere_positions[:, None], axis=2)
-    min_element_distance = np.min(distance_matrix[np.nonzero(distance_matrix)])
-    two_closest_elements = np.where(distance_matrix == min_element_distance)
-    print("Min added sphere s': " + str(min_element_distance/random_sphere_sizes[0]))
-    print("Closest two spheres: " + str(two_closest_elements[0]))
+    if len(random_sphere_sizes) > 1:
+        min_element_distance = np.min(distance_matrix[np.nonzero(distance_matrix)])
+        two_closest_elements = np.where(distance_matrix == min_element_distance)
+        print("Min added sphere s': " + str(min_element_distance/random_sphere_sizes[0]))
+        print("Closest two spheres: " + str(two_closest_elements[0]))
 
     box_dimensions = abs(np.asarray(random_box_top_right)
                          - np.asarray(random_box_bottom_left))
-- 
2.43.0


From ee30619ca0b6946da439f45aed56685e75a8b9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:44:11 +0000
Subject: [PATCH 28/43] fix: let matrices be printed when Minfinity is not
 regenerated

---
 .../functions/generate_grand_resistance_matrix.py            | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/stokesian_dynamics/functions/generate_grand_resistance_matrix.py b/stokesian_dynamics/functions/generate_grand_resistance_matrix.py
index f9fef01..36f2273 100755
--- a/stokesian_dynamics/functions/generate_grand_resistance_matrix.py
+++ b/stokesian_dynamics/functions/generate_grand_resistance_matrix.py
@@ -99,8 +99,9 @@ def generate_grand_resistance_matrix(
         R2Bexact_elapsed_time = 0
 
     if (printout > 1):
-        print("M infinity")
-        print(np.array_str(Minfinity, max_line_width=100000))
+        if regenerate_Minfinity and not use_drag_Minfinity:
+            print("M infinity")
+            print(np.array_str(Minfinity, max_line_width=100000))
         print("\n\nGrand resistance matrix")
         print(np.array_str(grand_resistance_matrix, max_line_width=100000))
         save_matrix(grand_resistance_matrix, "Grand Resistance Matrix",
-- 
2.43.0


From b22b4d5b5012ec07891dd0a6044e18c37b5ec58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:42:57 +0000
Subject: [PATCH 29/43] fix: printing the lubrication matrix failed because it
 is not sparse

---
 .../functions/generate_grand_resistance_matrix.py               | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stokesian_dynamics/functions/generate_grand_resistance_matrix.py b/stokesian_dynamics/functions/generate_grand_resistance_matrix.py
index 36f2273..78c437c 100755
--- a/stokesian_dynamics/functions/generate_grand_resistance_matrix.py
+++ b/stokesian_dynamics/functions/generate_grand_resistance_matrix.py
@@ -84,7 +84,7 @@ def generate_grand_resistance_matrix(
         R2Bexact_elapsed_time = time.time() - R2Bexact_start_time
         if printout > 1:
             print("R2Bexact")
-            print(np.array_str(R2Bexact.toarray(), max_line_width=100000))
+            print(np.array_str(R2Bexact, max_line_width=100000))
 
         grand_resistance_matrix = R2Bexact  # shallow copy for better naming
         grand_resistance_matrix += Minfinity_inverse  # in-place addition
-- 
2.43.0


From cb9762929f57e4b7e7c5522e994f8f3729ee3651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:32:08 +0000
Subject: [PATCH 30/43] fix: leave out the coupling within a dumbbell too when
 bead-bead interactions are off in periodic boxes

---
 stokesian_dynamics/functions/generate_Minfinity_periodic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stokesian_dynamics/functions/generate_Minfinity_periodic.py b/stokesian_dynamics/functions/generate_Minfinity_periodic.py
index 6c70d96..c40f6e4 100644
--- a/stokesian_dynamics/functions/generate_Minfinity_periodic.py
+++ b/stokesian_dynamics/functions/generate_Minfinity_periodic.py
@@ -1196,7 +1196,7 @@ def generate_Minfinity_loop(Minfinity, bead_positions, bead_sizes, num_spheres,
             # Dumbbell bead 1 to dumbbell bead 2
             a1_index_d = a1_index-num_spheres
             a2_index_d = a2_index-num_spheres-num_dumbbells
-            if bead_bead_interactions or a1_index_d == a2_index_d:
+            if bead_bead_interactions:
                 erfcs = generate_erfcs(s, lamb)
                 # s_lmn = np.linalg.norm(r + X_lmn, axis=1) # Unsupported Numba
                 s_lmn = np.sqrt(np.sum((r + X_lmn)**2,axis=1))
-- 
2.43.0


From 3738faca14815408ba9eb237cce249df4d0ea0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:21:07 +0000
Subject: [PATCH 31/43] fix: refuse runs whose bead sizes are not in the
 resistance table either

---
 stokesian_dynamics/run_simulation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/stokesian_dynamics/run_simulation.py b/stokesian_dynamics/run_simulation.py
index 12be964..46f9d4a 100755
--- a/stokesian_dynamics/run_simulation.py
+++ b/stokesian_dynamics/run_simulation.py
@@ -772,10 +772,10 @@ if num_spheres > 0 and input_form in ["fts"]:
      skip_computation=True, input_form=input_form)
 
 # Are all size ratios in the XYZ table for R2Bexact?
-sphere_sizes_unique = list(set(sphere_sizes))
+element_sizes_unique = list(set(element_sizes))
 size_ratios = list(set([i/j
-                        for i in sphere_sizes_unique
-                        for j in sphere_sizes_unique]))
+                        for i in element_sizes_unique
+                        for j in element_sizes_unique]))
 for size_ratio in size_ratios:
     if not np.any(np.isclose(size_ratio, lam_range_with_reciprocals)):
         throw_error("Particle size ratio " + str(size_ratio) + " not in the "
-- 
2.43.0


From b120fa1f1e65c920aa7b7618e61d9ba7981eee9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:57:05 +0000
Subject: [PATCH 32/43] fix: keep randomly placed dumbbells of periodic boxes
 near the box across the periodic directions

---
 stokesian_dynamics/setups/functions_positions.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/stokesian_dynamics/setups/functions_positions.py b/stokesian_dynamics/setups/functions_positions.py
index 92ae755..527757e 100644
--- a/stokesian_dynamics/setups/functions_positions.py
+++ b/stokesian_dynamics/setups/functions_positions.py
@@ -274,10 +274,12 @@ def randomise_dumbbells_periodic(random_box_bottom_left, random_box_top_right,
         dumbbell_positions[i] = 0.5*(proposed_bead1_position+proposed_bead2_position)
         dumbbell_deltax[i] = (proposed_bead2_position-proposed_bead1_position)
 
-        # Move the dumbbell_positions (centre) to inside the periodic box
-        dumbbell_positions[i] = (np.mod(
-            dumbbell_positions[i]-random_box_bottom_left, [Dx, 1e6, Dz]
-        ) + random_box_bottom_left)
+        # Move the dumbbell_positions (centre) to inside the periodic box,
+        # which is periodic in x and z only
+        for axis, length in [(0, Dx), (2, Dz)]:
+            dumbbell_positions[i, axis] = (np.mod(
+                dumbbell_positions[i, axis]-random_box_bottom_left[axis], length
+            ) + random_box_bottom_left[axis])
 
     print(" succeeded.")
 
-- 
2.43.0


From a7d10fd5fc1c137e96adf8ce3e53b6c945ee5189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:57:52 +0000
Subject: [PATCH 33/43] fix: return no dumbbells when none are to be placed at
 random

---
 stokesian_dynamics/setups/functions_positions.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/stokesian_dynamics/setups/functions_positions.py b/stokesian_dynamics/setups/functions_positions.py
index 527757e..97c0b93 100644
--- a/stokesian_dynamics/setups/functions_positions.py
+++ b/stokesian_dynamics/setups/functions_positions.py
@@ -98,6 +98,9 @@ def randomise_dumbbells(random_box_bottom_left, random_box_top_right,
     random_theta = theta == 'r'
     random_phi = phi == 'r'
 
+    if len(dumbbell_sizes) == 0:
+        return dumbbell_positions, dumbbell_deltax
+
     print("Randomly distributing " + str(len(dumbbell_sizes))
           + " dumbbells... ", end=" ")
 
@@ -204,6 +207,9 @@ def randomise_dumbbells_periodic(random_box_bottom_left, random_box_top_right,
     random_theta = theta == 'r'
     random_phi = phi == 'r'
 
+    if len(dumbbell_sizes) == 0:
+        return dumbbell_positions, dumbbell_deltax
+
     Dx, Dy, Dz = np.array(random_box_top_right) - np.array(random_box_bottom_left)
 
     print("Randomly distributing " + str(len(dumbbell_sizes))
-- 
2.43.0


From 94f8f5f732c5e6c055499cba806075f88430938e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:29:17 +0000
Subject: [PATCH 34/43] fix: compiled loops take bead_bead_interactions as an
 argument, so that kept compiled code follows the setting

---
 stokesian_dynamics/functions/generate_Minfinity.py          | 5 +++--
 stokesian_dynamics/functions/generate_Minfinity_periodic.py | 5 +++--
 stokesian_dynamics/functions/generate_R2Bexact.py           | 4 ++--
 3 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/stokesian_dynamics/functions/generate_Minfinity.py b/stokesian_dynamics/functions/generate_Minfinity.py
index 7a48eb5..dccbb2c 100755
--- a/stokesian_dynamics/functions/generate_Minfinity.py
+++ b/stokesian_dynamics/functions/generate_Minfinity.py
@@ -293,7 +293,8 @@ def generate_Minfinity(posdata, printout=0, frameno=0, mu=1):
     c = 1./(8*pi*mu)
 
     Minfinity = generate_Minfinity_loop(Minfinity, bead_positions, bead_sizes,
-                                        num_spheres, num_dumbbells, c, mu)
+                                        num_spheres, num_dumbbells, c, mu,
+                                        bead_bead_interactions)
 
     if num_dumbbells > 0:
         # This can surely be done more efficiently. See how much time is
@@ -329,7 +330,7 @@ def generate_Minfinity(posdata, printout=0, frameno=0, mu=1):
 
 @njit(cache=True)
 def generate_Minfinity_loop(Minfinity, bead_positions, bead_sizes, num_spheres,
-                            num_dumbbells, c, mu):
+                            num_dumbbells, c, mu, bead_bead_interactions):
     """Helper function for generating Minfinity matrix for nonperiodic domain.
     This function can be Numba-d.
 
diff --git a/stokesian_dynamics/functions/generate_Minfinity_periodic.py b/stokesian_dynamics/functions/generate_Minfinity_periodic.py
index c40f6e4..e909fb8 100644
--- a/stokesian_dynamics/functions/generate_Minfinity_periodic.py
+++ b/stokesian_dynamics/functions/generate_Minfinity_periodic.py
@@ -906,7 +906,8 @@ def generate_Minfinity_periodic(posdata, box_bottom_left, box_top_right,
                                         lamb, X_lmn, Xdash_lmn, Sdash_lmn,
                                         erfcs_Sdash_lmn, K_lmn, Ks_lmn, RR_K,
                                         num_X_points, num_Xdash_points,
-                                        num_K_points, L)
+                                        num_K_points, L,
+                                        bead_bead_interactions)
 
     if num_dumbbells > 0:
         # Row and column ops I want are equivalent to doing
@@ -940,7 +941,7 @@ def generate_Minfinity_loop(Minfinity, bead_positions, bead_sizes, num_spheres,
                             num_dumbbells, c, mu,
                             lamb, X_lmn, Xdash_lmn, Sdash_lmn, erfcs_Sdash_lmn,
                             K_lmn, Ks_lmn, RR_K, num_X_points, num_Xdash_points,
-                            num_K_points, L):
+                            num_K_points, L, bead_bead_interactions):
     """Helper function for generating Minfinity matrix for nonperiodic domain.
     This function can be Numba-d.
 
diff --git a/stokesian_dynamics/functions/generate_R2Bexact.py b/stokesian_dynamics/functions/generate_R2Bexact.py
index 23b9896..7130672 100644
--- a/stokesian_dynamics/functions/generate_R2Bexact.py
+++ b/stokesian_dynamics/functions/generate_R2Bexact.py
@@ -305,7 +305,7 @@ def generate_R2Bexact(posdata,
     R2Bexact = generate_R2Bexact_loop(
         R2Bexact, bead_sizes, num_spheres, num_dumbbells,
         closer_than_cutoff_pairs_scaled, displacements_pairs_scaled,
-        distances_pairs_scaled, size_ratios)
+        distances_pairs_scaled, size_ratios, bead_bead_interactions)
 
     if num_dumbbells > 0:
         # Row and column ops I want are equivalent to doing
@@ -341,7 +341,7 @@ def generate_R2Bexact(posdata,
 def generate_R2Bexact_loop(R2Bexact, bead_sizes, num_spheres, num_dumbbells,
                            closer_than_cutoff_pairs_scaled,
                            displacements_pairs_scaled, distances_pairs_scaled,
-                           size_ratios):
+                           size_ratios, bead_bead_interactions):
     """Helper function for generating R2Bexact matrix.
     This function can be Numba-d.
 
-- 
2.43.0


From ab0bd42107f524d7f09a2b29018c5b2c5d69ac7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:32:57 +0000
Subject: [PATCH 35/43] fix: all-dumbbell problems solve with Numba on (an
 empty list of stresslets has the shape of one)

---
 stokesian_dynamics/functions/simulation_tools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stokesian_dynamics/functions/simulation_tools.py b/stokesian_dynamics/functions/simulation_tools.py
index f36ad10..0eb6bcd 100755
--- a/stokesian_dynamics/functions/simulation_tools.py
+++ b/stokesian_dynamics/functions/simulation_tools.py
@@ -111,8 +111,8 @@ def construct_force_vector_from_fts(posdata, f_spheres, t_spheres, s_spheres,
      element_sizes, element_positions, element_deltax, num_elements,
      num_elements_array, element_type, uv_start, uv_size,
      element_start_count) = posdata_data(posdata)
-    s_spheres_condensed_flat = condense_and_flatten(np.array(s_spheres),
-                                                    num_spheres)
+    s_spheres_condensed_flat = condense_and_flatten(
+        np.array(s_spheres).reshape(-1, 3, 3), num_spheres)
     if num_spheres == 0 and num_dumbbells == 0:
         force_vector = np.array([])
     if num_spheres > 0 and num_dumbbells == 0:
-- 
2.43.0


From 4bfae3d190ee29bfe825bf768bd49c08cd1afbac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:13:42 +0000
Subject: [PATCH 36/43] fix: plotting scripts call plot_all_dumbbells with the
 arguments it takes

---
 stokesian_dynamics/plotting/make_video.py     | 2 +-
 stokesian_dynamics/plotting/plot_positions.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/stokesian_dynamics/plotting/make_video.py b/stokesian_dynamics/plotting/make_video.py
index 1c962a9..47417d4 100755
--- a/stokesian_dynamics/plotting/make_video.py
+++ b/stokesian_dynamics/plotting/make_video.py
@@ -276,7 +276,7 @@ def generate_frame(frameno, viewbox_bottomleft_topright=np.array([]),
             sphere_trace_lines, FaX)
     if num_dumbbells > 0:
         (dumbbell_spheres, dumbbell_lines, dumbbell_trace_lines) = plot_all_dumbbells(
-            ax, real_frameno, posdata, trace_paths,
+            ax, posdata, trace_paths,
             dumbbell_trace_lines, FbX, DFbX, no_line=no_line)
 
     if view_labels:
diff --git a/stokesian_dynamics/plotting/plot_positions.py b/stokesian_dynamics/plotting/plot_positions.py
index e3ff14a..dc22526 100755
--- a/stokesian_dynamics/plotting/plot_positions.py
+++ b/stokesian_dynamics/plotting/plot_positions.py
@@ -102,7 +102,7 @@ if num_spheres > 0:
         sphere_trace_lines, Fa_out[frameno])
 if num_dumbbells > 0:
     (dumbbell_spheres, dumbbell_lines, dumbbell_trace_lines) = plot_all_dumbbells(
-        ax, frameno, posdata, trace_paths, dumbbell_trace_lines,
+        ax, posdata, trace_paths, dumbbell_trace_lines,
         Fb_out[frameno], DFb_out[frameno])
 if view_labels:
     torque_lines = plot_all_torque_lines(ax, posdata, Ta_out)
-- 
2.43.0


From 2c64e6b4a6446c0ef07f73903a902cb198a29ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:13:42 +0000
Subject: [PATCH 37/43] fix: plot the final positions of a run, for which no
 forces are saved

---
 stokesian_dynamics/plotting/plot_positions.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/stokesian_dynamics/plotting/plot_positions.py b/stokesian_dynamics/plotting/plot_positions.py
index dc22526..7cabd50 100755
--- a/stokesian_dynamics/plotting/plot_positions.py
+++ b/stokesian_dynamics/plotting/plot_positions.py
@@ -39,6 +39,8 @@ positions_deltax = data1['deltax']
 Fa_out = data1['Fa']
 Fb_out = data1['Fb']
 DFb_out = data1['DFb']
+# Forces are not saved for the final positions of a run
+force_frameno = min(frameno, len(Fa_out) - 1)
 
 num_frames = positions_centres.shape[0]
 num_particles = positions_centres.shape[1]
@@ -99,11 +101,11 @@ fig.tight_layout()
 if num_spheres > 0:
     (spheres, sphere_lines, sphere_trace_lines) = plot_all_spheres(
         ax, frameno, posdata, previous_step_posdata, trace_paths,
-        sphere_trace_lines, Fa_out[frameno])
+        sphere_trace_lines, Fa_out[force_frameno])
 if num_dumbbells > 0:
     (dumbbell_spheres, dumbbell_lines, dumbbell_trace_lines) = plot_all_dumbbells(
         ax, posdata, trace_paths, dumbbell_trace_lines,
-        Fb_out[frameno], DFb_out[frameno])
+        Fb_out[force_frameno], DFb_out[force_frameno])
 if view_labels:
     torque_lines = plot_all_torque_lines(ax, posdata, Ta_out)
     (velocity_lines, velocity_text, sphere_labels) = plot_all_velocity_lines(
-- 
2.43.0


From 54d8550b3bb1df35a0e882bac0bdd7b047024090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:13:42 +0000
Subject: [PATCH 38/43] fix: videos that skip frames colour particles by the
 forces of the frame shown

---
 stokesian_dynamics/plotting/make_video.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/stokesian_dynamics/plotting/make_video.py b/stokesian_dynamics/plotting/make_video.py
index 47417d4..75bec47 100755
--- a/stokesian_dynamics/plotting/make_video.py
+++ b/stokesian_dynamics/plotting/make_video.py
@@ -162,14 +162,11 @@ def generate_frame(frameno, viewbox_bottomleft_topright=np.array([]),
     dumbbell_deltax = positions_deltax[real_frameno, :, :]
 
     no_line = False
-    if frameno == num_frames - 1:
-        FaX = Fa_out[frameno-1]
-        FbX = Fb_out[frameno-1]
-        DFbX = DFb_out[frameno-1]
-    else:
-        FaX = Fa_out[frameno]
-        FbX = Fb_out[frameno]
-        DFbX = DFb_out[frameno]
+    # Forces are not saved for the final positions of a run
+    force_frameno = min(real_frameno, len(Fa_out) - 1)
+    FaX = Fa_out[force_frameno]
+    FbX = Fb_out[force_frameno]
+    DFbX = DFb_out[force_frameno]
 
     # FOR PERIODIC, let's get it to repeat itself left and right
     (Fa_in, Ta_in, Sa_in, Sa_c_in, Fb_in, DFb_in, Ua_in, Oa_in, Ea_in,
-- 
2.43.0


From 6f96d34c78f43c81d5a270c5ffd19c0225df58ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:13:42 +0000
Subject: [PATCH 39/43] fix: shear the periodic box drawn in videos in the
 direction of the flow

---
 stokesian_dynamics/plotting/make_video.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stokesian_dynamics/plotting/make_video.py b/stokesian_dynamics/plotting/make_video.py
index 75bec47..2884734 100755
--- a/stokesian_dynamics/plotting/make_video.py
+++ b/stokesian_dynamics/plotting/make_video.py
@@ -208,7 +208,7 @@ def generate_frame(frameno, viewbox_bottomleft_topright=np.array([]),
         # box corners, sheared:
         #  (i) Transformed into the canonical basis (box length = 1 unit)
         # (ii) Transformed into the sheared basis
-        corners_sheared = np.dot(sheared_basis_vectors,
+        corners_sheared = np.dot(sheared_basis_vectors.T,
                                  np.linalg.solve(basis_canonical,
                                                  corners.T)).T
         cor1 = corners_sheared[0]
-- 
2.43.0


From fe99701a7e23cae90ae27b86420e605c4e174beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:13:42 +0000
Subject: [PATCH 40/43] fix: remove the box of the first frame, which is drawn
 twice, from the rest of a video

---
 stokesian_dynamics/plotting/make_video.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/stokesian_dynamics/plotting/make_video.py b/stokesian_dynamics/plotting/make_video.py
index 2884734..80f0b60 100755
--- a/stokesian_dynamics/plotting/make_video.py
+++ b/stokesian_dynamics/plotting/make_video.py
@@ -101,6 +101,7 @@ angular_velocity_lines = list()
 sphere_lines = list()
 sphere_trace_lines = list()
 dumbbell_trace_lines = list()
+box_lines = list()
 v = viewbox_bottomleft_topright.transpose()
 ax.auto_scale_xyz(v[0], v[1], v[2])
 ax.set_xlim3d(v[0, 0], v[0, 1])
@@ -145,7 +146,7 @@ def generate_frame(frameno, viewbox_bottomleft_topright=np.array([]),
     global error, previous_timestamp, saved_element_positions, saved_deltax
     global saved_Fa_out, saved_Fb_out, saved_DFb_out
     global fig, ax
-    global linec1, linec2, linec3, linec4
+    global box_lines
 
     frame_start_time = time.time()
     real_frameno = frameno*display_every_n_frames + num_frames_override_start
@@ -215,15 +216,13 @@ def generate_frame(frameno, viewbox_bottomleft_topright=np.array([]),
         cor2 = corners_sheared[1]
         cor3 = corners_sheared[2]
         cor4 = corners_sheared[3]
-        if frameno > 0:
-            linec1.remove()
-            linec2.remove()
-            linec3.remove()
-            linec4.remove()
+        for q in box_lines:
+            q.remove()
         linec1 = plt.plot(*np.transpose([cor1,cor2]), color='r', linewidth=1)[0]
         linec2 = plt.plot(*np.transpose([cor2,cor3]), color='r', linewidth=1)[0]
         linec3 = plt.plot(*np.transpose([cor3,cor4]), color='r', linewidth=1)[0]
         linec4 = plt.plot(*np.transpose([cor4,cor1]), color='r', linewidth=1)[0]
+        box_lines = [linec1, linec2, linec3, linec4]
 
         # NOTE: If you change the next line you have to change it in K_lmn too!
         X_lmn_sheared_inside_radius = X_lmn_sheared[
-- 
2.43.0


From 3c323b3ad1384a85735b9e517213c3056b794d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:13:42 +0000
Subject: [PATCH 41/43] fix: draw the force arrows of all spheres to the same
 scale

---
 stokesian_dynamics/functions/graphics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stokesian_dynamics/functions/graphics.py b/stokesian_dynamics/functions/graphics.py
index 6a9cb06..fd3dc57 100755
--- a/stokesian_dynamics/functions/graphics.py
+++ b/stokesian_dynamics/functions/graphics.py
@@ -257,11 +257,11 @@ def plot_all_force_lines(ax, posdata, f_spheres):
     (sphere_sizes, sphere_positions, sphere_rotations, dumbbell_sizes,
      dumbbell_positions, dumbbell_deltax) = posdata
     force_lines = force_text = []
+    f_spheres = f_spheres*6  # so we can see it
     for i in range(sphere_sizes.size):
         # Make invisible if hidden
         if ((f_spheres[i, :] != np.array([0, 0, 0])).any()
                 and (sphere_positions[i, 1] < 0.05 and sphere_positions[i, 1] > -1)):
-            f_spheres = f_spheres*6  # so we can see it
             line = Arrow3D([sphere_positions[i, 0],
                             sphere_positions[i, 0]+f_spheres[i, 0]],
                            [sphere_positions[i, 1],
-- 
2.43.0


From e1e7a3506a77e81962ffe057c15960face93eb73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:14:21 +0000
Subject: [PATCH 42/43] fix: create the folder for videos if it does not exist

---
 stokesian_dynamics/plotting/make_video.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/stokesian_dynamics/plotting/make_video.py b/stokesian_dynamics/plotting/make_video.py
index 80f0b60..c6b8353 100755
--- a/stokesian_dynamics/plotting/make_video.py
+++ b/stokesian_dynamics/plotting/make_video.py
@@ -34,6 +34,7 @@ matplotlib.use('Agg')
 this_folder = os.path.dirname(os.path.abspath(__file__))
 output_folder = this_folder + "/../output/"
 video_folder = this_folder + "/../output_videos/"
+os.makedirs(video_folder, exist_ok=True)
 
 # Use newest file
 newest = max(glob.iglob(output_folder + '*.[Nn][Pp][Zz]'), key=os.path.getctime)
-- 
2.43.0


From d6ad01d8de29187d3dc0cfbfc4ed1e4fb987f4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:28:26 +0000
Subject: [PATCH 43/43] fix: begin the From header of the completion email
 without a backslash

---
 stokesian_dynamics/functions/email.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stokesian_dynamics/functions/email.py b/stokesian_dynamics/functions/email.py
index 39da537..feda61d 100644
--- a/stokesian_dynamics/functions/email.py
+++ b/stokesian_dynamics/functions/email.py
@@ -25,7 +25,7 @@ def send_email(subject, body):
     to_address = recipient if isinstance(recipient,list) else [recipient]
 
     # Prepare actual message
-    message = """\\From: %s\nTo: %s\nSubject: %s\n\n%s
+    message = """From: %s\nTo: %s\nSubject: %s\n\n%s
     """ % (from_address, ", ".join(to_address), subject, body)
     try:
         server = smtplib.SMTP("smtp.gmail.com", 587)
-- 
2.43.0

