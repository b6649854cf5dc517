From 8de5e844ae513077c3726912f1a734f2c4276469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:56 +0000
Subject: [PATCH 01/46] fix: a lifting-line solve without a control_state keeps
 no earlier deflections

---
 machup/llmodel.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/machup/llmodel.py b/machup/llmodel.py
index 812c189..fef2b63 100644
--- a/machup/llmodel.py
+++ b/machup/llmodel.py
@@ -231,7 +231,10 @@ class LLModel:
 
     def _process_control_state(self, state):
         # Takes state data from state and constructs necessary arrays
-        if state:
+        if not state:
+            self._control_data["delta_flap"] = np.zeros(self._num_vortices)
+            self._control_data["deflection_eff"] = np.zeros(self._num_vortices)
+        else:
             delta_a = state.get("aileron", 0.)
             delta_e = state.get("elevator", 0.)
             delta_r = state.get("rudder", 0.)
-- 
2.43.0


From 8f7ecf79352ad4abe2505fd572f2b283ae3dafa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:56 +0000
Subject: [PATCH 02/46] fix: a lifting-line solve without an aero_state keeps
 no earlier flow state

---
 machup/llmodel.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/machup/llmodel.py b/machup/llmodel.py
index fef2b63..3318f99 100644
--- a/machup/llmodel.py
+++ b/machup/llmodel.py
@@ -210,8 +210,9 @@ class LLModel:
 
         else:
             # assume uniform flow in -x direction for now
-            v_local[:, 0] = -10.
-            u_inf[0] = -1.
+            v_local[:] = [-10., 0., 0.]
+            u_inf[:] = [-1., 0., 0.]
+            rho_local[:] = 1.
 
     def _superimpose_rotation(self, state):
         # Calculate velocities due to rotation and superimpose them
-- 
2.43.0


From 9dbe121dfab47539dfc4c4c7d93bd0f47dd5a672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:56 +0000
Subject: [PATCH 03/46] fix: LLModel.solve returns its own results instead of
 the internal ones

---
 machup/llmodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/machup/llmodel.py b/machup/llmodel.py
index 3318f99..7117cb4 100644
--- a/machup/llmodel.py
+++ b/machup/llmodel.py
@@ -308,7 +308,7 @@ class LLModel:
             self._setup_linear_matrices()
             self._solve_linear_system()
             self._forces_and_moments()
-            return self._results
+            return {key: dict(val) for key, val in self._results.items()}
         else:
             raise RuntimeError("solver type not yet supported")
 
-- 
2.43.0


From bcbc92f22a00ad784cb7b05a6cc703a94c606212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:56 +0000
Subject: [PATCH 04/46] fix: distributions returns copies of the grid arrays

---
 machup/llmodel.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/machup/llmodel.py b/machup/llmodel.py
index 7117cb4..dca6bfe 100644
--- a/machup/llmodel.py
+++ b/machup/llmodel.py
@@ -612,19 +612,19 @@ class LLModel:
 
     def _distributions(self):
         distributions = {}
-        distributions["name"] = self._grid.get_wing_names()
-        distributions["control_points"] = self._grid.get_control_point_pos()
-        distributions["chord"] = self._grid.get_chord_length()
+        distributions["name"] = np.copy(self._grid.get_wing_names())
+        distributions["control_points"] = np.copy(self._grid.get_control_point_pos())
+        distributions["chord"] = np.copy(self._grid.get_chord_length())
         distributions["twist"] = self._grid.get_twist()
-        distributions["dihedral"] = self._grid.get_dihedral()
-        distributions["sweep"] = self._grid.get_sweep()
-        distributions["area"] = self._grid.get_section_areas()
+        distributions["dihedral"] = np.copy(self._grid.get_dihedral())
+        distributions["sweep"] = np.copy(self._grid.get_sweep())
+        distributions["area"] = np.copy(self._grid.get_section_areas())
         distributions["alpha"] = self._alphas
         distributions["forces_xyz"] = self._forces
         distributions["section_CL"] = self.section_cl
         distributions["section_Cm"] = self.section_cm
         distributions["section_CD_parasitic"] = self.section_cd
-        distributions["section_alpha_L0"] = self._grid.get_zero_lift_alpha()
+        distributions["section_alpha_L0"] = np.copy(self._grid.get_zero_lift_alpha())
         return distributions
 
 
-- 
2.43.0


From a6b199c92fa475841ff4a6f9ece7e9766c07884f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:56 +0000
Subject: [PATCH 05/46] fix: solve can save results when no aero_state is given

---
 machup/MU.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/machup/MU.py b/machup/MU.py
index 55eb927..c1c4a0a 100644
--- a/machup/MU.py
+++ b/machup/MU.py
@@ -176,7 +176,7 @@ class MachUp:
             aero_state = {"V_mag":10,
                           "rho":0.0023769,
                           "alpha": 0}
-            total_results = self.solve(aero_state = aero_state,control_state = control_state, prop_state = prop_state)
+            return self.solve(aero_state,control_state,prop_state,filename)
 
         if filename:
             results = {
-- 
2.43.0


From 9201612c3387bc9ac9c8820ae70dba93a1587038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:56 +0000
Subject: [PATCH 06/46] fix: solve does not write the slipstream into the
 caller's aero_state

---
 machup/MU.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/machup/MU.py b/machup/MU.py
index c1c4a0a..eb9f54f 100644
--- a/machup/MU.py
+++ b/machup/MU.py
@@ -152,7 +152,7 @@ class MachUp:
             if self.myairplane._props:
                 prop_results,velocity_array = self.myprops.solve(aero_state,prop_state)
                 if velocity_array is not None:
-                    aero_state["local_state"] = velocity_array
+                    aero_state = dict(aero_state,local_state = velocity_array)
 
             if self.myairplane._wings:
                 wing_results = self.myllmodel.solve("linear",aero_state = aero_state,control_state = control_state)
-- 
2.43.0


From 4d2b674a5e3e7e1d410512dee9bf75af71b86cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:56 +0000
Subject: [PATCH 07/46] fix: control_derivatives works without an aero_state

---
 machup/MU.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/machup/MU.py b/machup/MU.py
index eb9f54f..6d525c4 100644
--- a/machup/MU.py
+++ b/machup/MU.py
@@ -988,6 +988,11 @@ class MachUp:
         """
         cont_deriv = {}
 
+        if not aero_state:
+            aero_state = {"V_mag":10,
+                          "rho":0.0023769,
+                          "alpha": 0}
+
         if control_state:
             DP = 0.5*aero_state.get("rho",0.0023769)*(aero_state.get("V_mag",10.)**2)*self.Sw
 
-- 
2.43.0


From 97f0cf4843e92f42a429046c789c7e9e2e6807c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:56 +0000
Subject: [PATCH 08/46] fix: stall_airspeed works without an aero_state

---
 machup/MU.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/machup/MU.py b/machup/MU.py
index 6d525c4..6be7d22 100644
--- a/machup/MU.py
+++ b/machup/MU.py
@@ -673,7 +673,7 @@ class MachUp:
                 aero_state = {"V_mag":10,
                               "rho":0.0023769,
                               "alpha": 0}
-                stall_airspeed_info = self.stall_airspeed(self, weight, aero_state, control_state, prop_state)
+                stall_airspeed_info = self.stall_airspeed(weight, aero_state, control_state, prop_state)
         else:
             if filename:
                 stall_airspeed_info = {"error":"unstallable"}
-- 
2.43.0


From 6f5cbf6d181b6bb5e57ad01026d1626227a32df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:56 +0000
Subject: [PATCH 09/46] fix: damping_derivatives restores the yaw rate it was
 given

---
 machup/MU.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/machup/MU.py b/machup/MU.py
index 6be7d22..432c6d3 100644
--- a/machup/MU.py
+++ b/machup/MU.py
@@ -938,7 +938,7 @@ class MachUp:
             damp_deriv["Cl_rbar"] = (forw["MX"]-back["MX"])/non_dim/self.lat_ref
             damp_deriv["Cm_rbar"] = (forw["MY"]-back["MY"])/non_dim/self.long_ref
             damp_deriv["Cn_rbar"] = (forw["MZ"]-back["MZ"])/non_dim/self.lat_ref
-            aero_state["yaw_rate"] = q0
+            aero_state["yaw_rate"] = r0
 
         else:
             aero_state = {"V_mag":10,
-- 
2.43.0


From e4d611e056044a9d612c9abb34e8ce89b958ed75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:41 +0000
Subject: [PATCH 10/46] fix: the analyses leave the caller's aero_state and
 control_state alone

---
 machup/MU.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/machup/MU.py b/machup/MU.py
index 432c6d3..13e472c 100644
--- a/machup/MU.py
+++ b/machup/MU.py
@@ -415,6 +415,7 @@ class MachUp:
         """
 
         if aero_state:
+            aero_state = dict(aero_state)
             ao = aero_state.get("alpha",0.)
             DP = 0.5*aero_state.get("rho",0.0023769)*(aero_state.get("V_mag",10.)**2)*self.Sw
             Normal = []
@@ -562,7 +563,7 @@ class MachUp:
         """
         if self.myairplane._wings:
             if aero_state:
-                a0 = aero_state.get("alpha",0.) 
+                aero_state = dict(aero_state)
                 a = 0.
                 while True:
                     aero_state["alpha"] = a
@@ -793,6 +794,7 @@ class MachUp:
         stab_deriv = {}
 
         if aero_state:
+            aero_state = dict(aero_state)
             DP = 0.5*aero_state.get("rho",0.0023769)*(aero_state.get("V_mag",10.)**2)*self.Sw
 
             delta = 0.5
@@ -879,6 +881,7 @@ class MachUp:
         damp_deriv = {}
         
         if aero_state:
+            aero_state = dict(aero_state)
             V = aero_state.get("V_mag",10.)
             DP = 0.5*aero_state.get("rho",0.0023769)*V*V*self.Sw
 
@@ -994,6 +997,7 @@ class MachUp:
                           "alpha": 0}
 
         if control_state:
+            control_state = dict(control_state)
             DP = 0.5*aero_state.get("rho",0.0023769)*(aero_state.get("V_mag",10.)**2)*self.Sw
 
             delta = 0.25
@@ -1229,6 +1233,8 @@ class MachUp:
 
         """
         if aero_state and control_state:
+            aero_state = dict(aero_state)
+            control_state = dict(control_state)
 
             a, de = 0.,0.
             iters = 0.
-- 
2.43.0


From a848485d8c91f1cd6972d31aeab301d6152a6053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:41 +0000
Subject: [PATCH 11/46] fix: pitch_trim keeps filename and error when a state
 is defaulted

---
 machup/MU.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/machup/MU.py b/machup/MU.py
index 13e472c..8c34b14 100644
--- a/machup/MU.py
+++ b/machup/MU.py
@@ -1282,12 +1282,12 @@ class MachUp:
                              "elevator":0.,
                              "rudder": 0.,
                              "flap": 0.}
-            return self.pitch_trim(L_target,m_target,aero_state,control_state,prop_state)
+            return self.pitch_trim(L_target,m_target,aero_state,control_state,prop_state,filename,error)
 
         elif control_state:
             aero_state = {"V_mag":10,
                           "rho":0.0023769}
-            return self.pitch_trim(L_target,m_target,aero_state,control_state,prop_state)
+            return self.pitch_trim(L_target,m_target,aero_state,control_state,prop_state,filename,error)
 
         else:
             aero_state = {"V_mag":10,
@@ -1296,7 +1296,7 @@ class MachUp:
                              "elevator":0.,
                              "rudder": 0.,
                              "flap": 0.}
-            return self.pitch_trim(L_target,m_target,aero_state,control_state,prop_state)
+            return self.pitch_trim(L_target,m_target,aero_state,control_state,prop_state,filename,error)
 
     def _lift_slope(self,aero_state = None, control_state = None, prop_state = None):
         delta = 0.25
-- 
2.43.0


From 37c7acc7cf1cd7570c5634a01f975680e704e34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:41 +0000
Subject: [PATCH 12/46] fix: target_lift keeps filename and error when
 aero_state is defaulted

---
 machup/MU.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/machup/MU.py b/machup/MU.py
index 8c34b14..4839f29 100644
--- a/machup/MU.py
+++ b/machup/MU.py
@@ -1171,7 +1171,7 @@ class MachUp:
                           "rho":0.0023769,
                           "alpha": 0}
 
-            target_state = self.target_lift(L_target, aero_state, control_state, prop_state)
+            return self.target_lift(L_target, aero_state, control_state, prop_state, filename, error)
 
         if filename:
             with open(filename, 'w') as outfile:
-- 
2.43.0


From cc61a5a4c909c1a44968c7a75fc6066c87fdac9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:41 +0000
Subject: [PATCH 13/46] fix: target_lift does not require an alpha guess

---
 machup/MU.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/machup/MU.py b/machup/MU.py
index 4839f29..0f3e37b 100644
--- a/machup/MU.py
+++ b/machup/MU.py
@@ -1132,7 +1132,7 @@ class MachUp:
         if aero_state:
             aero0 = aero_state.copy()
             aero1 = aero_state.copy()
-            x0 = aero0["alpha"] #alpha guess
+            x0 = aero0.get("alpha",0.) #alpha guess
             x1 = (x0*1.5)+0.1
             aero0["alpha"] = x0
             aero1["alpha"] = x1
-- 
2.43.0


From 76878ec08b779935be2127c871e7342d95dd4cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:41 +0000
Subject: [PATCH 14/46] fix: the propeller distributions are written
 completely, and only appended to the wing ones

---
 machup/MU.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/machup/MU.py b/machup/MU.py
index 0f3e37b..4568541 100644
--- a/machup/MU.py
+++ b/machup/MU.py
@@ -324,7 +324,7 @@ class MachUp:
                 np.savetxt(filename,ab,fmt= format_string,header = wing_header)
 
             if self.myairplane._props:
-                distrib_file = open(filename, 'ab')
+                distrib_file = open(filename, 'ab' if self.myairplane._wings else 'wb')
                 pd = prop_distributions
 
                 prop_header = "\n\nPropellerDistributions \n{:<16}{:>21}{:>21}{:>21}{:>21}{:>21}{:>21}{:>21}{:>21}{:>21}{:>21}{:>21}".format(
@@ -361,6 +361,7 @@ class MachUp:
 
                 format_string = "%-18s %20.12e %20.12e %20.12e %20.12e %20.12e %20.12e %20.12e %20.12e %20.12e %20.12e %20.12e"
                 np.savetxt(distrib_file,ab,fmt= format_string,header = prop_header)
+                distrib_file.close()
             if filename[-4:] == "json":
                 rawtxtfile = open(filename, "r+")
                 data = rawtxtfile.read()
-- 
2.43.0


From a365ef77a4496fdb46d99b5969c6a9714b7b1ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:41 +0000
Subject: [PATCH 15/46] fix: the Alpha(deg) column of the wing distributions is
 in degrees

---
 machup/MU.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/machup/MU.py b/machup/MU.py
index 4568541..c7d2dfb 100644
--- a/machup/MU.py
+++ b/machup/MU.py
@@ -310,7 +310,7 @@ class MachUp:
                 ab['dih'] = wd["dihedral"]
                 ab['swp'] = wd["sweep"]
                 ab['are'] = wd["area"]
-                ab['alp'] = wd["alpha"]
+                ab['alp'] = np.degrees(wd["alpha"])
                 ab['f_x'] = wd["forces_xyz"][:,0]
                 ab['f_y'] = wd["forces_xyz"][:,1]
                 ab['f_z'] = wd["forces_xyz"][:,2]
-- 
2.43.0


From abaa9666194196930be27f3d430466db48c298f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:41 +0000
Subject: [PATCH 16/46] fix: a coordinate of the center of gravity can be set
 to zero

---
 machup/geometry.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/machup/geometry.py b/machup/geometry.py
index 3e0ad27..ab53418 100644
--- a/machup/geometry.py
+++ b/machup/geometry.py
@@ -383,11 +383,11 @@ class Airplane:
             The updated z-coordinate of the center of gravity.
 
         """
-        if x_coord:
+        if x_coord is not None:
             self._cg_loc[0] = x_coord
-        if y_coord:
+        if y_coord is not None:
             self._cg_loc[1] = y_coord
-        if z_coord:
+        if z_coord is not None:
             self._cg_loc[2] = z_coord
 
     def set_reference_lengths(self, lateral = None, longitudinal = None):
-- 
2.43.0


From 788b45f3238689eb869de1a0cc9e2a9f8f184baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:41 +0000
Subject: [PATCH 17/46] fix: control_surface accepts the documented is_sealed

---
 machup/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/machup/geometry.py b/machup/geometry.py
index ab53418..0be93c8 100644
--- a/machup/geometry.py
+++ b/machup/geometry.py
@@ -1403,7 +1403,7 @@ class ControlSurface:
             except TypeError:
                 self._chord_root = dimensions["percent_chord"]
                 self._chord_tip = dimensions["percent_chord"]
-            self._is_sealed = dimensions.get("sealed", 1)
+            self._is_sealed = dimensions.get("sealed", dimensions.get("is_sealed", 1))
 
             mix_dict = dimensions["mix"]
             if "aileron" in mix_dict:
-- 
2.43.0


From 6f7406008e680ea4877fb1f5a4f473ad0ac66f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:41 +0000
Subject: [PATCH 18/46] fix: an Airplane not built from a file has units

---
 machup/geometry.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/machup/geometry.py b/machup/geometry.py
index 0be93c8..5820421 100644
--- a/machup/geometry.py
+++ b/machup/geometry.py
@@ -70,6 +70,7 @@ class Airplane:
         self._lat_ref = None
         self._position = position
         self._connections = {}
+        self._units = None
 
         if inputfile:
             self._buildfrominputfile(inputfile)
-- 
2.43.0


From fa805892f1f9891fa9afa182be3c340ced51be31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:41 +0000
Subject: [PATCH 19/46] fix: rotation direction 0 means clockwise, as
 documented

---
 machup/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/machup/geometry.py b/machup/geometry.py
index 5820421..d802ad7 100644
--- a/machup/geometry.py
+++ b/machup/geometry.py
@@ -1187,7 +1187,7 @@ class Prop:
         """
         if self._rot_dir == "CCW" or self._rot_dir =="ccw" or self._rot_dir == 1.:
             return 1.
-        elif self._rot_dir == "CW" or self._rot_dir =="cw" or self._rot_dir == -1.:
+        elif self._rot_dir == "CW" or self._rot_dir =="cw" or self._rot_dir == -1. or self._rot_dir == 0:
             return -1
         else: 
             return 1.
-- 
2.43.0


From 403715e2b6eb7105f9d23102535eae44de133a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:41 +0000
Subject: [PATCH 20/46] fix: is_main is optional in the input file, as for
 add_wing

---
 machup/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/machup/geometry.py b/machup/geometry.py
index d802ad7..33e29b9 100644
--- a/machup/geometry.py
+++ b/machup/geometry.py
@@ -128,7 +128,7 @@ class Airplane:
                              position=[wing_dict["connect"]["dx"],
                                        wing_dict["connect"]["dy"],
                                        wing_dict["connect"]["dz"]],
-                             is_main = wing_dict["is_main"],
+                             is_main = wing_dict.get("is_main",1),
                              yoffset=wing_dict["connect"]["yoffset"],
                              semispan=wing_dict["span"],
                              sweep=wing_dict["sweep"],
-- 
2.43.0


From ccf6ea82b0f2371e9c7643a8c736adcab8a21b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:41 +0000
Subject: [PATCH 21/46] fix: has_control_surface false in the input file means
 no control surface

---
 machup/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/machup/geometry.py b/machup/geometry.py
index 33e29b9..7be854c 100644
--- a/machup/geometry.py
+++ b/machup/geometry.py
@@ -180,7 +180,7 @@ class Airplane:
         control_dict = wing_dict["control"]
 
         # add control surface to wing
-        if control_dict:
+        if control_dict and control_dict.get("has_control_surface", True):
             wing.control_surface(percent_span=(control_dict["span_root"],
                                                control_dict["span_tip"]),
                                  percent_chord=(control_dict["chord_root"],
-- 
2.43.0


From 3a75ba6dfea90dab5b14dcc48824698239b3769b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:41 +0000
Subject: [PATCH 22/46] fix: a propeller aligned with the flow does not leave
 the domain of acos

---
 machup/propmodel.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/machup/propmodel.py b/machup/propmodel.py
index 91c8379..b0e10b3 100644
--- a/machup/propmodel.py
+++ b/machup/propmodel.py
@@ -558,7 +558,8 @@ class PropModel:
             N = self._rho*(self._rot_per_sec*self._rot_per_sec)*(self._d**4)*self._CN_a*angle
             n = self._rho*(self._rot_per_sec*self._rot_per_sec)*(self._d**5)*self._Cn_a*angle
             N_dir = np.cross(np.cross(-self._v_xyz, self._prop_forward),self._prop_forward)
-            N_vec = N_dir/m.sqrt(N_dir[0]**2+N_dir[1]**2+N_dir[2]**2)
+            N_mag = m.sqrt(N_dir[0]**2+N_dir[1]**2+N_dir[2]**2)
+            N_vec = N_dir/N_mag if N_mag > 0. else np.zeros(3)
 
         self._T = self._rho*(self._rot_per_sec*self._rot_per_sec)*(self._d**4)*self._CT
         self._l = self._rho*(self._rot_per_sec*self._rot_per_sec)*(self._d**5)*self._Cl*(-self._rot_dir)
@@ -1548,4 +1549,4 @@ class PropModel:
         d,e,f = v2
         dot = a*d+b*e+c*f
         mag = m.sqrt(a*a+b*b+c*c)*m.sqrt(d*d+e*e+f*f)
-        return m.acos(dot/mag)
+        return m.acos(max(-1.,min(1.,dot/mag)))
-- 
2.43.0


From 3b7da40f543ad80bd2eaf937bea46fa6aeb3c7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:41 +0000
Subject: [PATCH 23/46] fix: a blade section at exactly zero angle of attack
 has a lift coefficient

---
 machup/propmodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/machup/propmodel.py b/machup/propmodel.py
index b0e10b3..585937e 100644
--- a/machup/propmodel.py
+++ b/machup/propmodel.py
@@ -1271,7 +1271,7 @@ class PropModel:
 
     def _get_CL(self,alpha):
 
-        CL = np.empty_like(alpha)
+        CL = np.zeros_like(alpha)
         neg = np.where(alpha<0)
         pos = np.where(alpha>0)
 
-- 
2.43.0


From 1c064b4f11733941f681ec66058dc159457ea1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:39 +0000
Subject: [PATCH 24/46] fix: the Thrust and Torque totals include every
 propeller

---
 machup/propssolver.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/machup/propssolver.py b/machup/propssolver.py
index 6853958..8182b28 100644
--- a/machup/propssolver.py
+++ b/machup/propssolver.py
@@ -70,6 +70,8 @@ class PropsSolver:
     def _calc_forces(self,aero_state = None,prop_state = None):
         self._F = np.zeros(3)
         self._M = np.zeros(3)
+        thrust = 0.
+        torque = 0.
 
         self._results = {
             "total":{}
@@ -91,6 +93,8 @@ class PropsSolver:
             F,M,T,l = pm._calc_forces()
             self._F += F
             self._M += M
+            thrust += T
+            torque += l
 
         lift,drag,side = self._rotate_aero_forces(self._F,aero_state)
 
@@ -103,8 +107,8 @@ class PropsSolver:
         self._results["total"]['MX'] = self._M[0]
         self._results["total"]['MY'] = self._M[1]
         self._results["total"]['MZ'] = self._M[2]
-        self._results["total"]['Thrust'] = T
-        self._results["total"]['Torque'] = l
+        self._results["total"]['Thrust'] = thrust
+        self._results["total"]['Torque'] = torque
 
         return self._results
 
-- 
2.43.0


From 5df8cfd5b96a815bd9a88d56808000f38d805a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:39 +0000
Subject: [PATCH 25/46] fix: a wing point on the propeller axis sees no swirl
 instead of nan

---
 machup/propmodel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/machup/propmodel.py b/machup/propmodel.py
index 585937e..7ec6a22 100644
--- a/machup/propmodel.py
+++ b/machup/propmodel.py
@@ -289,7 +289,8 @@ class PropModel:
         center2point_vec = wing_points-P #vector from point to centerline
         self._center2point_dist = self._vec_mag_mult(center2point_vec) #distance from point to center line
         tangent = np.cross(self._prop_forward,center2point_vec)
-        self._tangent_norm = tangent/self._vec_mag_mult(tangent)[:,None]
+        tangent_mag = self._vec_mag_mult(tangent)[:,None]
+        self._tangent_norm = np.divide(tangent,tangent_mag,out=np.zeros_like(tangent),where=tangent_mag>0.)
 
         self._points_in_stream = np.where((abs(self._center2point_dist)<=(self._d/2))&(self._t<0.))
 
-- 
2.43.0


From 1763117fe1ff98362e8db8c583f20096e794b76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:39 +0000
Subject: [PATCH 26/46] fix: airfoil names that are not 4-digit NACA ones are
 drawn as NACA 2412

---
 machup/outputstl.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/machup/outputstl.py b/machup/outputstl.py
index bb24145..7503902 100644
--- a/machup/outputstl.py
+++ b/machup/outputstl.py
@@ -43,15 +43,15 @@ def create_from_grid(llgrid = None, prop_models = None,filename = None):
             left_name = left_airfoil.get_name()
             right_name = right_airfoil.get_name()
         
+            left_NACA = '2412'
             if left_name[:4] == 'NACA' or left_name[:4] == 'naca':
                 if len(left_name) == 8:
                     left_NACA = left_name[4:]
-            else: left_NACA = '2412'
                     
+            right_NACA = '2412'
             if right_name[:4] == 'NACA' or right_name[:4] == 'naca':
                 if len(right_name) == 8:
                     right_NACA = right_name[4:]
-            else: right_NACA = '2412'
 
             left_X,left_Z = plotNACA(left_NACA,n)
             right_X,right_Z = plotNACA(right_NACA,n)
@@ -108,10 +108,10 @@ def create_from_grid(llgrid = None, prop_models = None,filename = None):
                 af_loc.append(airfoil[0])
                 af = airfoil[1]
                 name = af.get_name()
+                NACA = '2412'
                 if name[:4] == 'NACA' or name[:4] == 'naca':
                     if len(name) == 8:
                         NACA = name[4:]
-                else: NACA = '2412'
                 X,Z = plotNACA(NACA,n)
                 X_list.append(X)
                 Z_list.append(Z)
-- 
2.43.0


From 3f72313035ef78f02fd1a3cab3647578e13dcf3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:30 +0000
Subject: [PATCH 27/46] fix: propeller solution no longer depends on earlier
 solves (reset iteration starting points)

---
 machup/propmodel.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/machup/propmodel.py b/machup/propmodel.py
index 7ec6a22..7d45aab 100644
--- a/machup/propmodel.py
+++ b/machup/propmodel.py
@@ -544,7 +544,11 @@ class PropModel:
     #---------------------------------------Functions for calculating prop forces-----------------------------------------
 
     def _calc_forces(self):
+        #start every solution from the same initial guesses so that the
+        #result does not depend on previously solved operating states
+        self._ei = np.zeros(self._nodes)
         if self._solve_from_power == True:
+            self._rot_per_sec = 15
             self._prop_state_from_power()
         else:
             self._find_coefficients()
-- 
2.43.0


From 7763d5da318545a9d08df66d7080deb56360c86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:30 +0000
Subject: [PATCH 28/46] fix: distribution tables keep complete wing and
 propeller names

---
 machup/MU.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/machup/MU.py b/machup/MU.py
index c7d2dfb..de70978 100644
--- a/machup/MU.py
+++ b/machup/MU.py
@@ -281,7 +281,7 @@ class MachUp:
                               'Name','ControlPoint(x)','ControlPoint(y)','ControlPoint(z)','Chord','Twist(deg)','Dihedral(deg)','Sweep(deg)',
                               'Area','Alpha(deg)','Force(x)','Force(y)','Force(z)','SectionCL','SectionCm','SectionCDParasitic','SectionAlpha_L0',
                               'SectionCL_ref')
-                item_types = [('name','U18'),
+                item_types = [('name',object),
                               ('cpx', 'float'),
                               ('cpy', 'float'),
                               ('cpz', 'float'),
@@ -331,7 +331,7 @@ class MachUp:
                               'Name','RadialPosition','Chord','Pitch(deg)','AdvangeAngle(deg)','InducedAngle(deg)',
                               'Alpha(deg)','SectionCL','SectionCD','InducedVelocity,Vi','Vi(Axial)','Vi(Tangential)')
 
-                item_types = [('name','U18'),
+                item_types = [('name',object),
                               ('rps', 'float'),
                               ('crd', 'float'),
                               ('pit', 'float'),
-- 
2.43.0


From 9b2a827e96b286b9d9f1303b221c6d173eb457da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:30 +0000
Subject: [PATCH 29/46] fix: stall_onset terminates when the wings cannot stall

---
 machup/MU.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/machup/MU.py b/machup/MU.py
index de70978..0ecd98e 100644
--- a/machup/MU.py
+++ b/machup/MU.py
@@ -575,6 +575,11 @@ class MachUp:
                         stall_info["lift"] = results["FL"]
                         break
                     a+=0.1
+                    if a>90.:
+                        if filename:
+                            stall_info = {"error":"unstallable"}
+                            break
+                        raise RuntimeError("Wings do not stall below an angle of attack of 90 degrees")
             else:
                 aero_state = {"V_mag":10,
                               "rho":0.0023769,
-- 
2.43.0


From 2304e25837f10a952e925907b7a0357012f165fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:33 +0000
Subject: [PATCH 30/46] fix: propeller induced angles solve the vortex
 condition at every section

The secant iteration took a section for converged when two successive
guesses were both reset to the same value, far from a root, and never
ended with three or more sections unresolved. Sections it leaves away
from a root are now bisected.
---
 machup/propmodel.py | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/machup/propmodel.py b/machup/propmodel.py
index 7d45aab..adafbbc 100644
--- a/machup/propmodel.py
+++ b/machup/propmodel.py
@@ -439,11 +439,8 @@ class PropModel:
             x2[loc] = x1[loc]-((y1[loc]*(x1[loc]-x0[loc]))/(y1[loc]-y0[loc]))
             i+=1
             x2 = self._correct_ei(x2)
-            if i>50 and loc[0].size<3:
-                #print("Ei convergence issues @ J=",self._J)
-                return x2
-            if loc[0].size == 0:
-                return x2
+            if i>50 or loc[0].size == 0:
+                return self._bisect_unsolved_ei(x2)
 
             x0 = np.copy(x1)
             x1 = np.copy(x2)
@@ -451,6 +448,23 @@ class PropModel:
             y1 = self._ei_function(x1)
 
 
+    def _bisect_unsolved_ei(self,ei,error = 1E-9):
+        #sections left away from a root by the secant iteration (reset guesses)
+        #are bisected between no induced angle and no angle of attack
+        residual = np.absolute(self._ei_function(ei))
+        if np.all(residual<=error):
+            return ei
+        inner = np.zeros_like(ei)
+        outer = self._beta-self._einf
+        inner_sign = np.sign(self._ei_function(inner))
+        for _ in range(60):
+            middle = 0.5*(inner+outer)
+            same = np.sign(self._ei_function(middle)) == inner_sign
+            inner = np.where(same,middle,inner)
+            outer = np.where(same,outer,middle)
+        better = (residual>error)&(np.absolute(self._ei_function(middle))<residual)
+        return np.where(better,middle,ei)
+
     def _ei_function(self,ei):
         alpha = self._beta-self._einf-ei
         CLift = self._get_CL(alpha)
-- 
2.43.0


From 9174e364690ab108786749b92f8c7de64a605af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:35 +0000
Subject: [PATCH 31/46] fix: operating point from shaft power or throttle is
 always found or refused

The secant iteration could leave the positive rotation rates and never
end, and its stopping criterion is below the resolution of the numbers.
The rotation rate is now bracketed and closed in on.
---
 machup/propmodel.py | 61 +++++++++++++++++++--------------------------
 1 file changed, 25 insertions(+), 36 deletions(-)

diff --git a/machup/propmodel.py b/machup/propmodel.py
index adafbbc..8b83d6c 100644
--- a/machup/propmodel.py
+++ b/machup/propmodel.py
@@ -490,24 +490,29 @@ class PropModel:
             self._rot_per_sec = self._find_rot_rate_power()
         self._J = self._Vinf/(self._rot_per_sec*self._d)
 
-    def _find_rot_rate_power(self, error = 1E-14):
-        x0 = self._rot_per_sec #get a better guess
-        x1 = x0*1.5
-        y0 = self._zero_power_difference(x0)
-        if abs(y0)<error:
-            return x0
-        y1 = self._zero_power_difference(x1)
-        while True:
-            #new guess based on secant method
-            x2 = x1-((y1*(x1-x0))/(y1-y0))
-            #if solution has converged, return results
-            if abs(x2-x1)<error:
-                return x2
-            #set variables for next iteration
-            x0=x1
-            y0=y1
-            x1=x2
-            y1=self._zero_power_difference(x1)
+    def _find_rot_rate_power(self):
+        return self._find_rot_rate(self._zero_power_difference)
+
+    def _find_rot_rate(self, difference):
+        #the absorbed power and torque less the supplied ones rise through zero
+        def function(rot_per_sec):
+            self._ei = np.zeros(self._nodes)
+            return difference(rot_per_sec)
+
+        low = high = self._rot_per_sec #get a better guess
+        while not function(high)>=0.:
+            low = high
+            high *= 2.
+            if high>1E6:
+                raise RuntimeError("No rotation rate found for the supplied power")
+        while not function(low)<=0.:
+            high = low
+            low *= 0.5
+            if low<1E-6:
+                raise RuntimeError("No rotation rate found for the supplied power")
+        rot_per_sec = opt.brentq(function,low,high,xtol=1E-13)
+        function(rot_per_sec)
+        return rot_per_sec
 
     def _zero_power_difference(self,rot_per_sec_est):
         self._rot_per_sec = rot_per_sec_est
@@ -516,24 +521,8 @@ class PropModel:
         prop_power = (self._rho*(self._rot_per_sec**3)*(self._d**5)*self._CP)
         return prop_power-self._brake_power
 
-    def _find_rot_rate_motor(self,error = 1E-14):
-        x0 = self._rot_per_sec #get a better guess
-        x1 = x0*1.5
-        y0 = self._zero_torque_difference(x0)
-        if abs(y0)<error:
-            return x0
-        y1 = self._zero_torque_difference(x1)
-        while True:
-            #new guess based on secant method
-            x2 = x1-((y1*(x1-x0))/(y1-y0))
-            #if solution has converged, return results
-            if abs(x2-x1)<error:
-                return x2
-            #set variables for next iteration
-            x0=x1
-            y0=y1
-            x1=x2
-            y1=self._zero_torque_difference(x1)
+    def _find_rot_rate_motor(self):
+        return self._find_rot_rate(self._zero_torque_difference)
 
     def _zero_torque_difference(self,rot_per_sec_est):
         self._rot_per_sec = rot_per_sec_est
-- 
2.43.0


From d4a37b351eea08291345f5938091248705a56f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:20 +0000
Subject: [PATCH 32/46] fix: PropsSolver.solve without aero_state uses the
 documented default flow

---
 machup/propssolver.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/machup/propssolver.py b/machup/propssolver.py
index 8182b28..6864bf8 100644
--- a/machup/propssolver.py
+++ b/machup/propssolver.py
@@ -113,6 +113,7 @@ class PropsSolver:
         return self._results
 
     def _rotate_aero_forces(self,F,aero_state):
+        aero_state = aero_state or {}
         a = m.radians(aero_state.get("alpha",0.))
         b = m.radians(aero_state.get("beta",0.))
         ca = m.cos(a)
-- 
2.43.0


From 58e7a767084c6fe87f39003083de5388b19d7b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:09 +0000
Subject: [PATCH 33/46] fix: end the stall airspeed search when it does not
 converge

---
 machup/MU.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/machup/MU.py b/machup/MU.py
index 0ecd98e..8f2d1bc 100644
--- a/machup/MU.py
+++ b/machup/MU.py
@@ -659,6 +659,7 @@ class MachUp:
                 y0 = stall_info0["lift"]-weight #difference between max lift and weight
                 y1 = stall_info1["lift"]-weight
 
+                iters = 0
                 while True:
                     #new guess based on secant method
                     x2 = x1-((y1*(x1-x0))/(y1-y0))
@@ -676,6 +677,12 @@ class MachUp:
                     aero1["V_mag"] = x1
                     stall_info1 = self.stall_onset(aero1,control_state,prop_state)
                     y1=stall_info1["lift"]-weight
+                    iters += 1
+                    if iters>50:
+                        if filename:
+                            stall_airspeed_info = {"error":"unstallable"}
+                            break
+                        raise RuntimeError("Unable to find the stall airspeed")
             else:
                 aero_state = {"V_mag":10,
                               "rho":0.0023769,
-- 
2.43.0


From 085a899c8f15757b5a0373b09145f5e3e1783251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:09 +0000
Subject: [PATCH 34/46] fix: keep the file name and error bound of stall
 analyses without a flow state

---
 machup/MU.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/machup/MU.py b/machup/MU.py
index 8f2d1bc..943378c 100644
--- a/machup/MU.py
+++ b/machup/MU.py
@@ -584,7 +584,7 @@ class MachUp:
                 aero_state = {"V_mag":10,
                               "rho":0.0023769,
                               "alpha": 0}
-                stall_info = self.stall_onset(aero_state,control_state,prop_state)
+                stall_info = self.stall_onset(aero_state,control_state,prop_state,filename)
 
         else:
             if filename:
@@ -687,7 +687,7 @@ class MachUp:
                 aero_state = {"V_mag":10,
                               "rho":0.0023769,
                               "alpha": 0}
-                stall_airspeed_info = self.stall_airspeed(weight, aero_state, control_state, prop_state)
+                stall_airspeed_info = self.stall_airspeed(weight, aero_state, control_state, prop_state, filename, error)
         else:
             if filename:
                 stall_airspeed_info = {"error":"unstallable"}
-- 
2.43.0


From fc183fe3f7eef7b66be71f8b2d2d00d32faad155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:36 +0000
Subject: [PATCH 35/46] fix: target_lift's second guess differs from its first
 at every angle of attack

Starting from an angle of attack of -0.2 degrees both guesses were the
same angle, so that a lift within reach was reported as unreachable.
---
 machup/MU.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/machup/MU.py b/machup/MU.py
index 943378c..7549981 100644
--- a/machup/MU.py
+++ b/machup/MU.py
@@ -1146,7 +1146,7 @@ class MachUp:
             aero0 = aero_state.copy()
             aero1 = aero_state.copy()
             x0 = aero0.get("alpha",0.) #alpha guess
-            x1 = (x0*1.5)+0.1
+            x1 = x0+0.5*abs(x0)+0.1
             aero0["alpha"] = x0
             aero1["alpha"] = x1
             FM0 = self.solve(aero0,control_state,prop_state)
-- 
2.43.0


From d3004df700715a93152766dfcd57794954c314bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:53 +0000
Subject: [PATCH 36/46] fix: a singular trim step ends as untrimmable

Where alpha and elevator change lift and moment in the same proportion,
pitch_trim stopped with numpy's LinAlgError instead of its own failure,
and wrote no file.
---
 machup/MU.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/machup/MU.py b/machup/MU.py
index 7549981..8558442 100644
--- a/machup/MU.py
+++ b/machup/MU.py
@@ -1276,8 +1276,12 @@ class MachUp:
 
                 J = np.array([[L_a, L_de],
                               [m_a, m_de]])
-                Ji = np.linalg.inv(J)
-                dP = np.degrees(np.matmul(Ji,-F))
+                try:
+                    Ji = np.linalg.inv(J)
+                    dP = np.degrees(np.matmul(Ji,-F))
+                except np.linalg.LinAlgError:
+                    dP = np.zeros(2)
+                    iters = 100
                 a += dP[0]
                 de += dP[1]
                 iters+=1
-- 
2.43.0


From d623eb4597ea5a2d431a28bcecff82f86a6cdec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:01 +0000
Subject: [PATCH 37/46] fix: stall_airspeed no longer returns negative
 airspeeds

An airplane whose lift at stall is negative has no airspeed at which it
carries its weight; the search ran on into negative airspeeds and could
stop there.
---
 machup/MU.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/machup/MU.py b/machup/MU.py
index 8558442..26fd1e8 100644
--- a/machup/MU.py
+++ b/machup/MU.py
@@ -678,7 +678,7 @@ class MachUp:
                     stall_info1 = self.stall_onset(aero1,control_state,prop_state)
                     y1=stall_info1["lift"]-weight
                     iters += 1
-                    if iters>50:
+                    if iters>50 or x1<=0.:
                         if filename:
                             stall_airspeed_info = {"error":"unstallable"}
                             break
-- 
2.43.0


From 936ed4f2bc7288d53570401dc8c9051a945d7c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:18 +0000
Subject: [PATCH 38/46] fix: camber line slope behind the maximum of four-digit
 sections

The slope aft of the maximum camber was half the derivative of the
camber line, so that the thickness of exported sections was not laid
off across it and the slope was wrong on one side of the maximum.
---
 machup/outputstl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/machup/outputstl.py b/machup/outputstl.py
index 7503902..11f5e2f 100644
--- a/machup/outputstl.py
+++ b/machup/outputstl.py
@@ -229,7 +229,7 @@ def plotNACA(airfoil,n):
         Yc_x = np.copy(Yc)
     else:
         Yc = np.where(Xc<p,(m/(p*p))*(2*p*Xc-Xc*Xc),(m/((1-p)**2))*((1-2*p)+2*p*Xc-Xc*Xc))
-        Yc_x = np.where(Xc<p,(2*m/(p*p))*(p-Xc),(m/(1-p)**2)*(p-Xc))
+        Yc_x = np.where(Xc<p,(2*m/(p*p))*(p-Xc),(2*m/(1-p)**2)*(p-Xc))
 
     Yul = Yc+(Yt*np.cos(np.arctan(Yc_x))*np.sign(theta))
     Xul = Xc-(Yt*np.sin(np.arctan(Yc_x))*np.sign(theta))
-- 
2.43.0


From 774a91e075a1c354d90935dc9426ff903ad35543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:21 +0000
Subject: [PATCH 39/46] fix: blade sections are not left at induced angles that
 reverse their angle of attack

---
 machup/propmodel.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/machup/propmodel.py b/machup/propmodel.py
index 8b83d6c..c97e3e1 100644
--- a/machup/propmodel.py
+++ b/machup/propmodel.py
@@ -450,19 +450,22 @@ class PropModel:
 
     def _bisect_unsolved_ei(self,ei,error = 1E-9):
         #sections left away from a root by the secant iteration (reset guesses)
-        #are bisected between no induced angle and no angle of attack
+        #or at a root that reverses their angle of attack are bisected between
+        #no induced angle and no angle of attack
         residual = np.absolute(self._ei_function(ei))
-        if np.all(residual<=error):
-            return ei
         inner = np.zeros_like(ei)
         outer = self._beta-self._einf
+        reversed_flow = np.absolute(ei)>np.absolute(outer)+error
+        if np.all((residual<=error)&~reversed_flow):
+            return ei
         inner_sign = np.sign(self._ei_function(inner))
         for _ in range(60):
             middle = 0.5*(inner+outer)
             same = np.sign(self._ei_function(middle)) == inner_sign
             inner = np.where(same,middle,inner)
             outer = np.where(same,outer,middle)
-        better = (residual>error)&(np.absolute(self._ei_function(middle))<residual)
+        found = np.absolute(self._ei_function(middle))
+        better = ((residual>error)&(found<residual))|(reversed_flow&(found<=error))
         return np.where(better,middle,ei)
 
     def _ei_function(self,ei):
-- 
2.43.0


From 9e098fc24cee5d951c06103344dfee759862fb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:56 +0000
Subject: [PATCH 40/46] fix: an airplane's position may be a numpy array

---
 machup/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/machup/geometry.py b/machup/geometry.py
index 7be854c..a0a12f6 100644
--- a/machup/geometry.py
+++ b/machup/geometry.py
@@ -425,7 +425,7 @@ class Airplane:
             Position of Airplane as specified by the user.
         """
         # pylint: disable=unused-argument
-        if self._position:
+        if self._position is not None:
             return self._position
 
         return np.array([0., 0., 0.])
-- 
2.43.0


From 46405a62433a66bf3bb17c9180faede98b8bfe49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:56 +0000
Subject: [PATCH 41/46] fix: a single control surface chord may be a numpy
 number

---
 machup/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/machup/geometry.py b/machup/geometry.py
index a0a12f6..78e4723 100644
--- a/machup/geometry.py
+++ b/machup/geometry.py
@@ -1401,7 +1401,7 @@ class ControlSurface:
             try:
                 self._chord_root = dimensions["percent_chord"][0]
                 self._chord_tip = dimensions["percent_chord"][1]
-            except TypeError:
+            except (TypeError, IndexError):
                 self._chord_root = dimensions["percent_chord"]
                 self._chord_tip = dimensions["percent_chord"]
             self._is_sealed = dimensions.get("sealed", dimensions.get("is_sealed", 1))
-- 
2.43.0


From 12ec75df2bab557df43662ec340217283bf1be3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:52 +0000
Subject: [PATCH 42/46] fix: target_lift does not take a step shortened by a
 far-off guess for convergence

---
 machup/MU.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/machup/MU.py b/machup/MU.py
index 26fd1e8..3731167 100644
--- a/machup/MU.py
+++ b/machup/MU.py
@@ -1159,8 +1159,13 @@ class MachUp:
             while True:
                 #new guess based on secant method
                 x2 = x1-((y1*(x1-x0))/(y1-y0))
-                #if solution has converged, return results
-                if abs(x2-x1)<error:
+                aero1["alpha"] = x2
+                FM1 = self.solve(aero1,control_state,prop_state)
+                y2=FM1["FL"]-L_target
+                #if solution has converged, return results (a step can also
+                #be short because the guess before it was far off)
+                if abs(x2-x1)<error and (y2 == y1 or
+                                         abs(y2*(x2-x1))<=error*abs(y2-y1)):
                     alpha = x2
                     target_state = {"alpha":alpha}
                     break
@@ -1169,9 +1174,7 @@ class MachUp:
                 x0=x1
                 y0=y1
                 x1=x2
-                aero1["alpha"] = x1
-                FM1 = self.solve(aero1,control_state,prop_state)
-                y1=FM1["FL"]-L_target
+                y1=y2
                 iters += 1
                 if iters>20:
                     if filename:
-- 
2.43.0


From 62e451f83cb9b60d29dc52308903fb9ae4b2b509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:51 +0000
Subject: [PATCH 43/46] fix: the aerodynamic pitch of sections next to the hub
 may pass a right angle

---
 machup/propmodel.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/machup/propmodel.py b/machup/propmodel.py
index c97e3e1..34aa408 100644
--- a/machup/propmodel.py
+++ b/machup/propmodel.py
@@ -176,8 +176,8 @@ class PropModel:
 
             beta_c = pitch_func(self._zeta)
             l_c = 2*np.pi*self._r*np.tan(beta_c)
-            l = (2*np.pi*self._r)*(l_c-2*np.pi*self._r*np.tan(self._alpha_L0))/(2*np.pi*self._r+l_c*np.tan(self._alpha_L0))
-            self._beta = np.arctan(l/(2*np.pi*self._r))
+            self._beta = np.arctan2(l_c-2*np.pi*self._r*np.tan(self._alpha_L0),
+                                    2*np.pi*self._r+l_c*np.tan(self._alpha_L0))
             if pitch_increment:
                 self._beta+=np.radians(pitch_increment)
             return
@@ -188,9 +188,9 @@ class PropModel:
         else:
             raise RuntimeError("Invalid pitch type")
         
-        # convert chord line pitch (Kc) to aerodynamic pitch (K)
-        K = np.pi*self._zeta*((Kc-np.pi*self._zeta*np.tan(self._alpha_L0))/(np.pi*self._zeta+Kc*np.tan(self._alpha_L0)))
-        self._beta = np.arctan2(K,np.pi*self._zeta)
+        # convert chord line pitch (Kc) to aerodynamic pitch angle
+        self._beta = np.arctan2(Kc-np.pi*self._zeta*np.tan(self._alpha_L0),
+                                np.pi*self._zeta+Kc*np.tan(self._alpha_L0))
         if pitch_increment:
             self._beta+=np.radians(pitch_increment)
 
-- 
2.43.0


From 09d35df61cd891259809c5bd3437bc95736b04da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:04 +0000
Subject: [PATCH 44/46] fix: modelling a propeller that has no airfoils yet
 does not give it one

---
 machup/propmodel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/machup/propmodel.py b/machup/propmodel.py
index 34aa408..c272682 100644
--- a/machup/propmodel.py
+++ b/machup/propmodel.py
@@ -1,4 +1,5 @@
 import numpy as np
+from machup.geometry import Airfoil
 from scipy.interpolate import interp1d
 from scipy.integrate import simps, ode,trapz
 import math as m
@@ -77,7 +78,7 @@ class PropModel:
 
         airfoils = self._prop.get_airfoils()
         if len(airfoils) == 0:
-            self._prop.airfoil()
+            airfoils = {"NACA2412": Airfoil()}
 
         if len(airfoils) == 1:
             af = list(airfoils.values())[0]
-- 
2.43.0


From 7ea2ff9bfb8bb376b0df1de94a01c1370541ead5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:04 +0000
Subject: [PATCH 45/46] fix: a propeller keeps what it was given when its
 caller reuses the lists and dictionaries

---
 machup/geometry.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/machup/geometry.py b/machup/geometry.py
index 78e4723..9e30fd7 100644
--- a/machup/geometry.py
+++ b/machup/geometry.py
@@ -24,6 +24,7 @@ ControlSurface
 """
 
 from collections import OrderedDict
+import copy
 import json
 import numpy as np
 import machup.helpers
@@ -1051,6 +1052,7 @@ class Prop:
 
 
     def _unpack(self, prop_dict):
+        prop_dict = copy.deepcopy(prop_dict)
         self._position = prop_dict.get("position", [0.,0.,0.])
         self._orientation = prop_dict.get("orientation", [0.,0.])
         self._nodes = prop_dict.get("nodes", 100)
-- 
2.43.0


From 397a17c68672e133f79056e401dbb27b621fba00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:04 +0000
Subject: [PATCH 46/46] fix: an airplane stays where it was put when its caller
 reuses the position

---
 machup/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/machup/geometry.py b/machup/geometry.py
index 9e30fd7..df9c6d6 100644
--- a/machup/geometry.py
+++ b/machup/geometry.py
@@ -69,7 +69,7 @@ class Airplane:
         self._cg_loc = np.zeros(3)
         self._long_ref = None
         self._lat_ref = None
-        self._position = position
+        self._position = copy.copy(position)
         self._connections = {}
         self._units = None
 
-- 
2.43.0

