From 783d3f1144f0028f3bbdef07a4bd36991d30acb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:38 +0000
Subject: [PATCH 01/72] fix: keep setpoints as floats (integer inputs were
 truncated or rejected)

---
 pySC/utils/classdef_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/utils/classdef_tools.py b/pySC/utils/classdef_tools.py
index 9641d74..8514826 100644
--- a/pySC/utils/classdef_tools.py
+++ b/pySC/utils/classdef_tools.py
@@ -55,7 +55,7 @@ def check_input_and_setpoints(method, ords, setpoints):
     if method not in SETTING_METHODS:
         raise ValueError(f'Unsupported setpoint method: {method}. Allowed options are: {SETTING_METHODS}.')
     ords_1d = np.ravel(np.array([ords], dtype=int))
-    setpoints_1d = np.ravel(np.array([setpoints]))
+    setpoints_1d = np.ravel(np.array([setpoints], dtype=float))
     if len(setpoints_1d) not in (1, len(ords_1d)):
         raise ValueError(f'Setpoints have to have length of 1 or matching to the length or ordinates.')
     return ords_1d, (np.repeat(setpoints_1d, len(ords_1d)) if len(setpoints_1d) == 1 else setpoints_1d)
-- 
2.43.0


From 606acd6614949dac62478c22ae547e32f8a520f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:38 +0000
Subject: [PATCH 02/72] fix: roll of a support structure spanning the ring end
 affects only its own elements

---
 pySC/core/simulated_commissioning.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pySC/core/simulated_commissioning.py b/pySC/core/simulated_commissioning.py
index ed5ff31..459cb09 100644
--- a/pySC/core/simulated_commissioning.py
+++ b/pySC/core/simulated_commissioning.py
@@ -748,8 +748,8 @@ class SimulatedCommissioning:
                 offset2 = off0[0, ords[1]] - off0[0, ords[0]]
                 if ords[0] > ords[1]:
                     struct_length = ring_length + struct_length
-                    mask[ords[0]] = False
-                    mask = ~mask
+                    mask[ords[0]:] = True
+                    mask[:ords[1] + 1] = True
                 else:
                     mask[ords[1]] = True
                 roll0[0, mask] += roll_start0
-- 
2.43.0


From 8cc6237c55b76b482c58008bc17f3f74cecb49f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:38 +0000
Subject: [PATCH 03/72] fix: registering a support keeps uncertainties of other
 support types at a shared ordinate

---
 pySC/core/simulated_commissioning.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pySC/core/simulated_commissioning.py b/pySC/core/simulated_commissioning.py
index 459cb09..e29366d 100644
--- a/pySC/core/simulated_commissioning.py
+++ b/pySC/core/simulated_commissioning.py
@@ -430,7 +430,9 @@ class SimulatedCommissioning:
         for ind in np.ravel(support_ords):
             setattr(self.RING[ind], f"{support_type}Offset", np.zeros(3))  # [x,y,z]
             setattr(self.RING[ind], f"{support_type}Roll", np.zeros(3))  # [az,ax,ay]
-            self.SIG.Support[ind] = DotDict()
+            # replaces the uncertainties of the given support type only, other types may share the ordinate
+            self.SIG.Support[ind] = DotDict({field: value for field, value in self.SIG.Support.get(ind, {}).items()
+                                             if not field.startswith(support_type)})
         for ord_pair in support_ords.T:
             for key, value in kwargs.items():
                 if isinstance(value, list):
-- 
2.43.0


From 723af505edece1fbca5e7fc8054e75c35534adea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:38 +0000
Subject: [PATCH 04/72] fix: systematic multipoles use normal (skew) column for
 PolynomB (PolynomA) and leave the input intact

---
 pySC/core/simulated_commissioning.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pySC/core/simulated_commissioning.py b/pySC/core/simulated_commissioning.py
index e29366d..af48461 100644
--- a/pySC/core/simulated_commissioning.py
+++ b/pySC/core/simulated_commissioning.py
@@ -479,13 +479,13 @@ class SimulatedCommissioning:
         if BA.ndim != 2 or BA.shape[1] != 2:
             raise ValueError("BA has to  be numpy.array of shape N x 2.")
         ind, source = (1, "A") if skewness else (0, "B")
-        newBA = BA[:, :]
+        newBA = np.array(BA, dtype=float)
         newBA[order, ind] = 0
         for ord in ords:
-            for target in ("A", "B"):
+            for target_ind, target in enumerate(("B", "A")):
                 attr_name = f'SysPol{target}From{source}'
                 syspol = getattr(self.RING[ord], attr_name) if hasattr(self.RING[ord], attr_name) else DotDict()
-                syspol[order] = newBA[:, ind]
+                syspol[order] = newBA[:, target_ind].copy()
                 setattr(self.RING[ord], attr_name, syspol)
 
     def set_random_multipole_errors(self, ords: ndarray, BA):
-- 
2.43.0


From 51d47e355903795b8ed5ed0f3e5668e41838c52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:38 +0000
Subject: [PATCH 05/72] fix: generated bunches follow the full beam sigma
 matrix

---
 pySC/core/beam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/core/beam.py b/pySC/core/beam.py
index bffd73d..195c5b3 100644
--- a/pySC/core/beam.py
+++ b/pySC/core/beam.py
@@ -163,7 +163,7 @@ def generate_bunches(SC: SimulatedCommissioning, nParticles=None) -> ndarray:
     Z = np.tile(np.transpose(SC.INJ.randomInjectionZ * sc_tools.randnc(2, (1, 6)) + SC.INJ.Z0), nParticles)
     if nParticles != 1:
         V, L = np.linalg.eig(SC.INJ.beamSize)
-        Z += np.diag(np.sqrt(V)) @ L @ sc_tools.randnc(3, (6, nParticles))
+        Z += L @ np.diag(np.sqrt(V)) @ sc_tools.randnc(3, (6, nParticles))
     return SC.INJ.postFun(Z)
 
 
-- 
2.43.0


From f756155e2c372d0d3b09e8d22e6759b1e401b69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:56 +0000
Subject: [PATCH 06/72] fix: degenerate (zero-emittance) beam sigma matrices do
 not generate NaN particles

---
 pySC/core/beam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/core/beam.py b/pySC/core/beam.py
index 195c5b3..d9f9be9 100644
--- a/pySC/core/beam.py
+++ b/pySC/core/beam.py
@@ -163,7 +163,7 @@ def generate_bunches(SC: SimulatedCommissioning, nParticles=None) -> ndarray:
     Z = np.tile(np.transpose(SC.INJ.randomInjectionZ * sc_tools.randnc(2, (1, 6)) + SC.INJ.Z0), nParticles)
     if nParticles != 1:
         V, L = np.linalg.eig(SC.INJ.beamSize)
-        Z += L @ np.diag(np.sqrt(V)) @ sc_tools.randnc(3, (6, nParticles))
+        Z += L @ np.diag(np.sqrt(np.maximum(V, 0))) @ sc_tools.randnc(3, (6, nParticles))
     return SC.INJ.postFun(Z)
 
 
-- 
2.43.0


From ff5536ce9a59548de331d28b745ad55d90080cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:56 +0000
Subject: [PATCH 07/72] fix: scalar calibration errors (as documented for
 correctors) can be applied

---
 pySC/core/simulated_commissioning.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pySC/core/simulated_commissioning.py b/pySC/core/simulated_commissioning.py
index af48461..01fd473 100644
--- a/pySC/core/simulated_commissioning.py
+++ b/pySC/core/simulated_commissioning.py
@@ -1074,8 +1074,8 @@ class SimulatedCommissioning:
 
     def _update_magnets(self, source_ord, target_ord):
         setpoints_a, setpoints_b = self.RING[source_ord].SetPointA, self.RING[source_ord].SetPointB
-        polynoms = dict(A=setpoints_a * classdef_tools.add_padded(np.ones(len(setpoints_a)), self.RING[source_ord].CalErrorA),
-                        B=setpoints_b * classdef_tools.add_padded(np.ones(len(setpoints_b)), self.RING[source_ord].CalErrorB))
+        polynoms = dict(A=setpoints_a * classdef_tools.add_padded(np.ones(len(setpoints_a)), np.atleast_1d(self.RING[source_ord].CalErrorA)),
+                        B=setpoints_b * classdef_tools.add_padded(np.ones(len(setpoints_b)), np.atleast_1d(self.RING[source_ord].CalErrorB)))
         for target in AB:
             new_polynom = polynoms[target][:]
             if hasattr(self.RING[target_ord], f'Polynom{target}Offset'):
-- 
2.43.0


From 9a6f78468ab78297c41a3b9c1ff9dace814fbd98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:56 +0000
Subject: [PATCH 08/72] fix: verification of split magnets iterates over fields
 of the child magnets

---
 pySC/core/simulated_commissioning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/core/simulated_commissioning.py b/pySC/core/simulated_commissioning.py
index 01fd473..b2facf4 100644
--- a/pySC/core/simulated_commissioning.py
+++ b/pySC/core/simulated_commissioning.py
@@ -1019,7 +1019,7 @@ class SimulatedCommissioning:
                         LOGGER.warning(f'Field "{field:s}" in SC.SIG.Magnet doesnt match lattice element (Magnet ord: {ord:d})')
             if hasattr(self.RING[ord],'MasterOf'):
                 for cOrd in self.RING[ord].MasterOf:
-                    for field in self.RING[cOrd]:
+                    for field in vars(self.RING[cOrd]):
                         if not hasattr(self.RING[ord],field): 
                             LOGGER.warning(f'Child magnet (ord: {ord:d}) has different field "{field:s}" than master magnet (ord: %{cOrd:d}).')
        
-- 
2.43.0


From e1aa45853a3c0f3f2c305728b09ad4eed4875370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:13 +0000
Subject: [PATCH 09/72] fix: model ring does not share (and reset) the setpoint
 arrays of the machine

---
 pySC/lattice_properties/response_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pySC/lattice_properties/response_model.py b/pySC/lattice_properties/response_model.py
index 5c3dea5..0fc2f8a 100644
--- a/pySC/lattice_properties/response_model.py
+++ b/pySC/lattice_properties/response_model.py
@@ -160,8 +160,8 @@ def SCgetModelRING(SC: SimulatedCommissioning, includeAperture: bool =False) ->
     ring = SC.IDEALRING.deepcopy()
     for ord in range(len(SC.RING)):
         if hasattr(SC.RING[ord], 'SetPointA') and hasattr(SC.RING[ord], 'SetPointB'):
-            ring[ord].PolynomA = SC.RING[ord].SetPointA
-            ring[ord].PolynomB = SC.RING[ord].SetPointB
+            ring[ord].PolynomA = SC.RING[ord].SetPointA.copy()
+            ring[ord].PolynomB = SC.RING[ord].SetPointB.copy()
             ring[ord].PolynomA[0] = 0.0
             ring[ord].PolynomB[0] = 0.0
         if includeAperture:
-- 
2.43.0


From 4079d38df4c528d374047baf5b8939e0bd69e5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:13 +0000
Subject: [PATCH 10/72] fix: model ring can include apertures

---
 pySC/lattice_properties/response_model.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pySC/lattice_properties/response_model.py b/pySC/lattice_properties/response_model.py
index 0fc2f8a..8a4de83 100644
--- a/pySC/lattice_properties/response_model.py
+++ b/pySC/lattice_properties/response_model.py
@@ -165,10 +165,9 @@ def SCgetModelRING(SC: SimulatedCommissioning, includeAperture: bool =False) ->
             ring[ord].PolynomA[0] = 0.0
             ring[ord].PolynomB[0] = 0.0
         if includeAperture:
-            if 'EApertures' in SC.RING[ord]:
-                ring[ord].EApertures = SC.RING[ord].EApertures
-            if 'RApertures' in SC.RING[ord]:
-                ring[ord].RApertures = SC.RING[ord].RApertures
+            for field in ('EApertures', 'RApertures'):
+                if hasattr(SC.RING[ord], field):
+                    setattr(ring[ord], field, copy.deepcopy(getattr(SC.RING[ord], field)))
         if len(SC.ORD.RF) and hasattr(SC.RING[ord], 'Frequency'):
             for field in RF_PROPERTIES:
                 setattr(ring[ord], field, getattr(SC.RING[ord], f"{field}SetPoint"))
-- 
2.43.0


From b482413207eeebf95342c35d71ef250173b9ab9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:13 +0000
Subject: [PATCH 11/72] fix: raise the error on unknown track mode of model
 response and dispersion

---
 pySC/lattice_properties/response_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pySC/lattice_properties/response_model.py b/pySC/lattice_properties/response_model.py
index 8a4de83..84dadba 100644
--- a/pySC/lattice_properties/response_model.py
+++ b/pySC/lattice_properties/response_model.py
@@ -51,7 +51,7 @@ def SCgetModelRM(SC, BPMords, CMords, trackMode='TBT', Z0=np.zeros(6), nTurns=1,
     LOGGER.info('Calculating model response matrix')
     track_methods = dict(TBT=at_wrapper.lattice_track, ORB=orbpass)
     if trackMode not in track_methods.keys():
-        ValueError(f'Unknown track mode {trackMode}. Valid values are {track_methods.keys()}')
+        raise ValueError(f'Unknown track mode {trackMode}. Valid values are {track_methods.keys()}')
     ring = SC.IDEALRING.deepcopy() if useIdealRing else SCgetModelRING(SC)
     trackmethod = track_methods[trackMode]
     if trackMode == 'ORB':
@@ -123,7 +123,7 @@ def SCgetModelDispersion(SC, BPMords, CAVords, trackMode='ORB', Z0=np.zeros(6),
     LOGGER.info('Calculating model dispersion')
     track_methods = dict(TBT=at_wrapper.lattice_track, ORB=orbpass)
     if trackMode not in track_methods.keys():
-        ValueError(f'Unknown track mode {trackMode}. Valid values are {track_methods.keys()}')
+        raise ValueError(f'Unknown track mode {trackMode}. Valid values are {track_methods.keys()}')
     ring = SC.IDEALRING.deepcopy() if useIdealRing else SCgetModelRING(SC)
     trackmethod = track_methods[trackMode]
     if trackMode == 'ORB':
-- 
2.43.0


From a4ef1f1b6abce789002c3a3dfa1b884ca9603a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:13 +0000
Subject: [PATCH 12/72] fix: constant BPM readings count as converged

---
 pySC/correction/orbit_trajectory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/correction/orbit_trajectory.py b/pySC/correction/orbit_trajectory.py
index 2d0d444..9ae7958 100644
--- a/pySC/correction/orbit_trajectory.py
+++ b/pySC/correction/orbit_trajectory.py
@@ -371,7 +371,7 @@ def _golden_donut_diffs(r0, r1, n_points):
 def _is_stable_or_converged(n, eps, hist):  # TODO rethink
     if len(hist) < n:
         return False
-    return (np.var(hist[-n:]) / np.std(hist[-n:])) < eps
+    return np.std(hist[-n:]) < eps
 
 
 def _wiggling(SC, bpm_ords, cm_ords, transmission_limit, nums_correctors=range(1, 9)):
-- 
2.43.0


From 2a4f5dd7cb820b20c1df13f420256429304e52e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:13 +0000
Subject: [PATCH 13/72] fix: stitch and balance leave the given reference
 intact

---
 pySC/correction/orbit_trajectory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pySC/correction/orbit_trajectory.py b/pySC/correction/orbit_trajectory.py
index 9ae7958..e7fb82a 100644
--- a/pySC/correction/orbit_trajectory.py
+++ b/pySC/correction/orbit_trajectory.py
@@ -142,7 +142,7 @@ def stitch(SC, response_matrix, reference=None, cm_ords=None, bpm_ords=None, n_b
             raise RuntimeError("Not enough transmission for stitching to work.")
 
     # Prepare reference
-    reference = reference.reshape(2, len(bpm_readings[0]))
+    reference = reference.reshape(2, len(bpm_readings[0])).copy()
     reference[:, len(bpm_ords):] = 0
     reference = reference.reshape(response_matrix.shape[0])
     Mplus = sc_tools.pinv(response_matrix, **pinv_params)
@@ -209,7 +209,7 @@ def balance(SC, response_matrix, reference=None, cm_ords=None, bpm_ords=None, ep
         raise ValueError("Balancing works only with full 2 turn transmission.")
 
     # Prepare reference
-    reference = reference.reshape(2, len(bpm_readings[0]))
+    reference = reference.reshape(2, len(bpm_readings[0])).copy()
     reference[:, len(bpm_ords):] = 0
     reference = reference.reshape(response_matrix.shape[0])
     Mplus = sc_tools.pinv(response_matrix, **pinv_params)
-- 
2.43.0


From c6aeb092e05383cd5936b71516c401cf343ab8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:56 +0000
Subject: [PATCH 14/72] fix: measured response matrix (two-step and multi-step
 branches were swapped, scalar amplitude)

---
 pySC/lattice_properties/response_measurement.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/pySC/lattice_properties/response_measurement.py b/pySC/lattice_properties/response_measurement.py
index 33dbb60..727e475 100644
--- a/pySC/lattice_properties/response_measurement.py
+++ b/pySC/lattice_properties/response_measurement.py
@@ -8,7 +8,7 @@ LOGGER = logging_tools.get_logger(__name__)
 
 
 def response_matrix(SC, amp, bpm_ords, cm_ords, mode='fixedKick', n_steps=2, fit_order=1):
-    if ((not isinstance(amp, list) and not len(amp) == 1) or
+    if ((not isinstance(amp, list) and not np.size(amp) == 1) or
             (isinstance(amp, list) and (len(amp[0]) != len(cm_ords[0]) or len(amp[1]) != len(cm_ords[1])))):
         raise ValueError('response_matrix amplitude must be defined as single value or '
                          'array matching the number of used HCM and VCM.')
@@ -30,20 +30,19 @@ def response_matrix(SC, amp, bpm_ords, cm_ords, mode='fixedKick', n_steps=2, fit
         for nCM in range(len(cm_ords[n_dim])):
             max_step, gradient = _kick_amplitude(SC, bref, bpm_ords, cm_ords[n_dim][nCM], amp[n_dim][nCM], bool(n_dim), mode)
             cm_step_vec = np.linspace(-max_step, max_step, n_steps)
-            if n_steps != 2:
+            if n_steps == 2:
+                cm_steps[n_dim][:, nCM] = np.array([0.0, max_step])
+                rm[:, i] = gradient / max_step
+            else:
                 real_cm_setpoint = cmstart[nCM] + cm_step_vec
-                gradient = np.vstack((np.zeros((n_steps - 1, len(bref))), gradient.T))
+                gradient = np.vstack((np.zeros((n_steps - 1, len(bref))), gradient))
                 for n_step in range(n_steps):
                     if cm_step_vec[n_step] != 0 and cm_step_vec[n_step] != max_step:
                         SC.set_cm_setpoints(cm_ords[n_dim][nCM], cmstart[nCM] + cm_step_vec[n_step], skewness=bool(n_dim))
-                        real_cm_setpoint[n_step] = SC.get_cm_setpoints(cm_ords[n_dim][nCM], skewness=bool(n_dim))
+                        real_cm_setpoint[n_step] = SC.get_cm_setpoints(cm_ords[n_dim][nCM], skewness=bool(n_dim))[0]
                         gradient[n_step, :] = np.ravel(bpm_reading(SC, bpm_ords=bpm_ords)[0]) - bref
                 dCM = real_cm_setpoint - cmstart[nCM]
                 cm_steps[n_dim][:, nCM] = dCM
-                rm[:, i] = gradient / dCM
-            else:
-                dCM = max_step
-                cm_steps[n_dim][:, nCM] = dCM
                 for nBPM in range(gradient.shape[1]):
                     x = dCM[~np.isnan(gradient[:, nBPM])]
                     y = gradient[~np.isnan(gradient[:, nBPM]), nBPM]
@@ -100,7 +99,7 @@ def _kick_amplitude(SC, bref, bpm_ords, cm_ord, amp, skewness: bool, mode):
         else:
             max_step *= decrease_factor
             LOGGER.debug(
-                f'Insufficient beam reach ({max_pos:d}/{max_pos_ref:d}). '
+                f'Insufficient beam reach ({max_pos:.0f}/{max_pos_ref:.0f}). '
                 f'cm_step reduced to {1E6 * max_step:.1f}urad.')
     return max_step, np.ravel(bpm_reading(SC, bpm_ords=bpm_ords)[0]) - bref
 
-- 
2.43.0


From 0a23a37fcec6afd495622826f7c490edb59c18d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:56 +0000
Subject: [PATCH 15/72] fix: multi-step dispersion measurement

---
 pySC/lattice_properties/response_measurement.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/lattice_properties/response_measurement.py b/pySC/lattice_properties/response_measurement.py
index 727e475..41644a6 100644
--- a/pySC/lattice_properties/response_measurement.py
+++ b/pySC/lattice_properties/response_measurement.py
@@ -72,7 +72,7 @@ def dispersion(SC, rf_step, bpm_ords=None, cav_ords=None, n_steps=2):
         SC.set_cavity_setpoints(cav_ords, rf_steps[:, nStep], 'Frequency', 'abs')
         dB[nStep, :] = np.ravel(bpm_reading(SC, bpm_ords=bpm_ords)[0]) - bref
     SC.set_cavity_setpoints(cav_ords, rf0, 'Frequency', 'abs')
-    return np.linalg.lstsq(np.linspace(-rf_step, rf_step, n_steps), dB)[0]
+    return np.linalg.lstsq(np.linspace(-rf_step, rf_step, n_steps)[:, np.newaxis], dB, rcond=None)[0][0]
 
 
 def _check_ords(SC, bpm_ords, cav_ords):
-- 
2.43.0


From 2c5aef0e81eaed6220fb897b2444b0de62ac0292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:56 +0000
Subject: [PATCH 16/72] fix: imprecise RF phase measurement leaves the phase
 unchanged

---
 pySC/correction/rf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/correction/rf.py b/pySC/correction/rf.py
index 069b286..b1d4bdf 100644
--- a/pySC/correction/rf.py
+++ b/pySC/correction/rf.py
@@ -49,7 +49,7 @@ def correct_rf_phase(SC, cav_ords=None, bpm_ords=None, n_steps=15, plot_results=
     delta_phi = _fold_phase(fsolve(sol, test_vec[np.argmax(sol(test_vec))] - abs(test_vec[0]) / 2), lamb)
     if np.abs(param[0]) < 2 * np.sqrt(param_cov[0, 0]) or np.abs(param[2]) < 2 * np.sqrt(param_cov[2, 2]):
         LOGGER.warning("Measurements is not sufficiently precise to make a correction")
-        delta_phi = 0.0
+        delta_phi = np.zeros(1)
     if np.isnan(delta_phi):  # TODO does this ever happen?
         raise RuntimeError('RF phase correction unsuccessful: NaN phase')
 
-- 
2.43.0


From 9c9c2f65adf1552311b80209a4392e43eb509086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:56 +0000
Subject: [PATCH 17/72] fix: static phase error folded within one RF wavelength

---
 pySC/correction/rf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/correction/rf.py b/pySC/correction/rf.py
index b1d4bdf..a725350 100644
--- a/pySC/correction/rf.py
+++ b/pySC/correction/rf.py
@@ -99,7 +99,7 @@ def phase_and_energy_error(SC, cav_ords):
     """This is not a simple observable in reality."""
     lamb = SPEED_OF_LIGHT / SC.RING[cav_ords[0]].Frequency
     orbit6 = at_wrapper.findorbit6(SC.RING)[0]
-    phase_error = _fold_phase((orbit6[5] - SC.INJ.Z0[5]) / lamb, lamb) * 360
+    phase_error = _fold_phase(orbit6[5] - SC.INJ.Z0[5], lamb) / lamb * 360
     energy_error = SC.INJ.Z0[4] - orbit6[4]
     LOGGER.info(f'Static phase error {phase_error:.0f} deg')
     LOGGER.info(f'Energy error {1E2 * energy_error:.2f}%')
-- 
2.43.0


From dcfef91da8233d81a136f11edcd4c090b078e06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:56 +0000
Subject: [PATCH 18/72] fix: injection trajectory fit minimises the rms of the
 residuals

---
 pySC/correction/injection_fit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/correction/injection_fit.py b/pySC/correction/injection_fit.py
index 95a35e1..bf97557 100644
--- a/pySC/correction/injection_fit.py
+++ b/pySC/correction/injection_fit.py
@@ -69,7 +69,7 @@ def _fit_bpm_data(s_bpm, bref):
 
 def _merit_function(x, SC, bref, ords_used):
     t = at_wrapper.lattice_track(SC.IDEALRING, np.concatenate((x, np.zeros(2))), 1, ords_used, keep_lattice=False)[[0, 2], 0, :, 0]
-    return np.sqrt(np.mean(bref - t) ** 2)
+    return np.sqrt(np.mean((bref - t) ** 2))
 
 
 def _log_initial_final_states(SC, delta_z0):
-- 
2.43.0


From 0765603cf0ce12cfdd11cb8dc22cb239f8bcd047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:56 +0000
Subject: [PATCH 19/72] fix: LOCO correction uses the jacobian of the selected
 parameters

---
 pySC/correction/loco.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/correction/loco.py b/pySC/correction/loco.py
index 99568b4..272cab4 100644
--- a/pySC/correction/loco.py
+++ b/pySC/correction/loco.py
@@ -96,7 +96,7 @@ def loco_correction_ng(initial_guess0, orm_model, orm_measured, J, lengths, incl
     r = residuals.reshape(np.transpose(orm_model).shape)
     t2 = np.zeros([len(initial_guess[mask]), 1])
     for i in range(len(initial_guess[mask])):
-        t2[i] = np.sum(np.dot(np.dot(J[i].T, weights), r.T))
+        t2[i] = np.sum(np.dot(np.dot(J[mask][i].T, weights), r.T))
     return get_inverse(J[mask, :, :], t2, s_cut, weights, LM_lambda=LM_lambda)
 
 
-- 
2.43.0


From 0ef5fdd8bbfdc667bd20a10e87e3f7e7d5a204ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:56 +0000
Subject: [PATCH 20/72] fix: sample size of unweighted data does not count
 masked (NaN) values

---
 pySC/utils/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/utils/stats.py b/pySC/utils/stats.py
index fafc5d8..f2cab68 100644
--- a/pySC/utils/stats.py
+++ b/pySC/utils/stats.py
@@ -286,7 +286,7 @@ def effective_sample_size(data, weights, axis=None):
         Returns the error of weighted circular average along the specified axis.
     """
     if weights is None:
-        sample_size = np.sum(np.ones(data.shape), axis=axis)
+        sample_size = np.ma.count(data, axis=axis)
     else:
         sample_size = np.square(np.sum(weights, axis=axis)) / np.sum(np.square(weights), axis=axis)
     return np.where(sample_size > 2, sample_size, 2)
-- 
2.43.0


From 209e8c94e2078cb7f07416885c58d809235d100e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:20 +0000
Subject: [PATCH 21/72] fix: SCsynchEnergyCorrection does not pass an argument
 unknown to correct_rf_frequency

---
 pySC/matlab_index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/matlab_index.py b/pySC/matlab_index.py
index 082f0c9..a51800b 100644
--- a/pySC/matlab_index.py
+++ b/pySC/matlab_index.py
@@ -316,7 +316,7 @@ def SCsynchEnergyCorrection(SC, /, *, cavOrd=None, f_range=(-1E3, 1E3), nSteps=1
                             plotProgress=False, verbose=False):
     init_nturns = SC.INJ.nTurns
     SC.INJ.nTurns = nTurns
-    SC = correct_rf_frequency(SC, cav_ords=cavOrd, f_range=f_range, n_steps=nSteps, minTurns=minTurns,
+    SC = correct_rf_frequency(SC, cav_ords=cavOrd, f_range=f_range, n_steps=nSteps,
                            plot_results=plotResults, plot_progress=plotProgress, )
     SC.INJ.nTurns = init_nturns
     return SC
-- 
2.43.0


From c2665e1ea13520f5f98d5126eea84ee76e6d720f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:20 +0000
Subject: [PATCH 22/72] fix: tune scan stays within the given setpoints for
 even numbers of setpoints

---
 pySC/correction/tune.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/correction/tune.py b/pySC/correction/tune.py
index cb38b9f..cfdeae3 100644
--- a/pySC/correction/tune.py
+++ b/pySC/correction/tune.py
@@ -49,7 +49,7 @@ def tune_scan(SC, quad_ords, rel_quad_changes, target=1, n_points=60, do_plot=Fa
     nqsp = np.array([len(rel_quad_changes[0]), len(rel_quad_changes[1])], dtype=int)
     max_turns = np.full((nqsp[0], nqsp[1]), np.nan)
     transmission = np.full((nqsp[0], nqsp[1], nTurns), np.nan)
-    inds = _golden_donut_inds(np.floor_divide(nqsp, 2), n_points=n_points)
+    inds = _golden_donut_inds(np.floor_divide(nqsp - 1, 2), n_points=n_points)
     first_quads = [SC.RING[quad_ords[0][0]].FamName, SC.RING[quad_ords[1][0]].FamName]
     ords = np.hstack(quad_ords)
     for q1, q2 in inds.T:
-- 
2.43.0


From 5fdb469215e7f8554ac08eb24fe6698d7160355d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:20 +0000
Subject: [PATCH 23/72] fix: tune scan restores the initial quadrupole
 setpoints between the scan points

---
 pySC/correction/tune.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pySC/correction/tune.py b/pySC/correction/tune.py
index cfdeae3..a6ae863 100644
--- a/pySC/correction/tune.py
+++ b/pySC/correction/tune.py
@@ -11,7 +11,7 @@ from scipy.optimize import fmin
 
 from pySC.core.beam import beam_transmission, plot_transmission
 from pySC.utils import logging_tools
-from pySC.utils.at_wrapper import atlinopt
+from pySC.utils.at_wrapper import atgetfieldvalues, atlinopt
 
 LOGGER = logging_tools.get_logger(__name__)
 
@@ -52,12 +52,13 @@ def tune_scan(SC, quad_ords, rel_quad_changes, target=1, n_points=60, do_plot=Fa
     inds = _golden_donut_inds(np.floor_divide(nqsp - 1, 2), n_points=n_points)
     first_quads = [SC.RING[quad_ords[0][0]].FamName, SC.RING[quad_ords[1][0]].FamName]
     ords = np.hstack(quad_ords)
+    initial_setpoints = atgetfieldvalues(SC.RING, ords, "SetPointB", 1)
     for q1, q2 in inds.T:
         q_setpoints = np.hstack((np.ones(nq[0]) * rel_quad_changes[0][q1], np.ones(nq[1]) * rel_quad_changes[1][q2]))
         SC.set_magnet_setpoints(ords, q_setpoints, False, 1, method='rel')
         max_turns[q1, q2], surviving_fraction = beam_transmission(SC, nParticles=nParticles, nTurns=nTurns)
         transmission[q1, q2, :] = 1 * surviving_fraction
-        SC.set_magnet_setpoints(ords, 1 / q_setpoints, False, 1, method='rel')
+        SC.set_magnet_setpoints(ords, initial_setpoints, False, 1, method='abs')
 
         if do_plot:
             f, ax = plot_scan(transmission[:, :, -1], max_turns, first_quads, rel_quad_changes)
-- 
2.43.0


From 55d6a087fa89469725cd4dd5c4a5771b6344ccc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:32 +0000
Subject: [PATCH 24/72] fix: tune evaluation and tune fit work with the used AT
 optics interface and set the fitted solution

---
 pySC/correction/tune.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/pySC/correction/tune.py b/pySC/correction/tune.py
index a6ae863..dbeecd6 100644
--- a/pySC/correction/tune.py
+++ b/pySC/correction/tune.py
@@ -135,19 +135,17 @@ def fit_tune(SC, q_ords, target_tune=None, xtol=1E-4, ftol=1E-3, fit_integer=Tru
     if target_tune is None:
         target_tune = tune(SC, fit_integer, ideal=True)
     LOGGER.debug(f'Fitting tunes from [{tune(SC, fit_integer)}] to [{target_tune}].')
-    SP0 = np.zeros((len(q_ords), len(q_ords[0])))  # TODO can the lengts vary
-    for nFam in range(len(q_ords)):
-        for n in range(len(q_ords[nFam])):
-            SP0[nFam][n] = SC.RING[q_ords[nFam][n]].SetPointB[1]
+    SP0 = [atgetfieldvalues(SC.RING, ords, "SetPointB", 1) for ords in q_ords]
     fun = lambda x: _fit_tune_fun(SC, q_ords, x, SP0, target_tune, fit_integer)
-    sol = fmin(fun, xtol=xtol, ftol=ftol)
-    SC.set_magnet_setpoints(q_ords, sol + SP0, False, 1, method='abs', dipole_compensation=True)
+    sol = fmin(fun, np.zeros(len(q_ords)), xtol=xtol, ftol=ftol, disp=False)
+    _fit_tune_fun(SC, q_ords, sol, SP0, target_tune, fit_integer)  # applies the solution
     LOGGER.debug(f'       Final tune: [{tune(SC, fit_integer)}]\n  Setpoints change: [{sol}]')
     return SC
 
 
 def _fit_tune_fun(SC, q_ords, setpoints, init_setpoints, target, fit_integer):
-    SC.set_magnet_setpoints(q_ords, setpoints + init_setpoints, False, 1, method='abs', dipole_compensation=True)
+    for n in range(len(q_ords)):
+        SC.set_magnet_setpoints(q_ords[n], setpoints[n] + init_setpoints[n], False, 1, method='abs', dipole_compensation=True)
     nu = tune(SC, fit_integer)
     return np.sqrt(np.mean((nu - target) ** 2))
 
@@ -155,7 +153,7 @@ def _fit_tune_fun(SC, q_ords, setpoints, init_setpoints, target, fit_integer):
 def tune(SC, fit_integer: bool = False, ideal: bool = False):
     ring = SC.IDEALRING if ideal else SC.RING
     if fit_integer:
-        ld, _, _ = atlinopt(ring, 0, range(len(ring) + 1))
-        return ld[-1].mu / 2 / np.pi
-    _, nu, _ = atlinopt(ring, 0)
-    return nu
+        _, _, ld = atlinopt(ring, range(len(ring) + 1))
+        return ld.mu[-1, 0:2] / 2 / np.pi
+    _, ring_data, _ = atlinopt(ring)
+    return ring_data.tune[0:2]
-- 
2.43.0


From 66c21cc830fe5358181748bd2d163b234f7eec7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:32 +0000
Subject: [PATCH 25/72] fix: chromaticity fit starts from the actual (not
 truncated) setpoints and sets the fitted solution

---
 pySC/correction/chroma.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pySC/correction/chroma.py b/pySC/correction/chroma.py
index 27b08ee..99f7d99 100644
--- a/pySC/correction/chroma.py
+++ b/pySC/correction/chroma.py
@@ -39,13 +39,13 @@ def fit_chroma(SC, s_ords, target_chroma=None, init_step_size=np.array([2, 2]),
     LOGGER.debug(f'Fitting chromaticities from {SC.RING.get_chrom()} to {target_chroma}.')  # first two elements
     SP0 = []
     for n in range(len(s_ords)):
-        SP0.append(np.zeros_like(s_ords[n]))
+        SP0.append(np.zeros(len(s_ords[n])))
     for nFam in range(len(s_ords)):
         for n in range(len(s_ords[nFam])):
             SP0[nFam][n] = SC.RING[s_ords[nFam][n]].SetPointB[2]
     fun = lambda x: _fit_chroma_fun(SC, s_ords, x, SP0, target_chroma)
     sol = fmin(fun, init_step_size, xtol=xtol, ftol=ftol)
-    # TODO needs to set the solution to SC
+    _fit_chroma_fun(SC, s_ords, sol, SP0, target_chroma)  # applies the solution
     LOGGER.debug(f'        Final chromaticity: {SC.RING.get_chrom()}\n          Setpoints change: {sol}.')  # first two elements
     return SC
 
-- 
2.43.0


From 11d77323174e8e0c49f6abd8a881241c9e7b5159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:24 +0000
Subject: [PATCH 26/72] fix: support offsets are assigned per element (elements
 in and out of a structure may share an s-position)

---
 pySC/core/simulated_commissioning.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/pySC/core/simulated_commissioning.py b/pySC/core/simulated_commissioning.py
index b2facf4..c94017e 100644
--- a/pySC/core/simulated_commissioning.py
+++ b/pySC/core/simulated_commissioning.py
@@ -678,13 +678,13 @@ class SimulatedCommissioning:
             *SC.register_support*, *SC.support_offset_and_roll*, *plot_support*
 
         """
-        s_pos = at_wrapper.findspos(self.RING)
+        # evaluated at the elements, as elements in and out of a structure may share the same s-position
+        offsets, rolls = self.support_offset_and_roll(at_wrapper.findspos(self.RING))
         if offset_magnets:
             if len(self.ORD.Magnet):
-                offsets, rolls = self.support_offset_and_roll(s_pos[self.ORD.Magnet])
-                for i, ind in enumerate(self.ORD.Magnet):
-                    setattr(self.RING[ind], "SupportOffset", offsets[:, i])
-                    setattr(self.RING[ind], "SupportRoll", rolls[:, i])
+                for ind in self.ORD.Magnet:
+                    setattr(self.RING[ind], "SupportOffset", offsets[:, ind].copy())
+                    setattr(self.RING[ind], "SupportRoll", rolls[:, ind].copy())
                     self.RING[ind] = sc_tools.update_transformation(self.RING[ind])
                     if hasattr(self.RING[ind], 'MasterOf'):
                         for child_ind in self.RING[ind].MasterOf:
@@ -694,11 +694,10 @@ class SimulatedCommissioning:
                 LOGGER.warning('SC: No magnets have been registered!')
         if offset_bpms:
             if len(self.ORD.BPM):
-                offsets, rolls = self.support_offset_and_roll(s_pos[self.ORD.BPM])
-                for i, ind in enumerate(self.ORD.BPM):
-                    setattr(self.RING[ind], "SupportOffset", offsets[0:2, i])  # No longitudinal BPM offsets implemented
+                for ind in self.ORD.BPM:
+                    setattr(self.RING[ind], "SupportOffset", offsets[0:2, ind].copy())  # No longitudinal BPM offsets implemented
                     setattr(self.RING[ind], "SupportRoll",
-                            rolls[0, i])  # BPM pitch and yaw angles not  implemented
+                            rolls[0, ind])  # BPM pitch and yaw angles not  implemented
             else:
                 LOGGER.warning('SC: No BPMs have been registered!')
 
-- 
2.43.0


From 661d42e6f32decb385377b086d700524ac4788c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:33 +0000
Subject: [PATCH 27/72] fix: very_deep_copy keeps the ideal ring (it was
 overwritten by the ring with errors)

---
 pySC/core/simulated_commissioning.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pySC/core/simulated_commissioning.py b/pySC/core/simulated_commissioning.py
index c94017e..601e972 100644
--- a/pySC/core/simulated_commissioning.py
+++ b/pySC/core/simulated_commissioning.py
@@ -950,9 +950,9 @@ class SimulatedCommissioning:
         copied_structure = copy.deepcopy(self)
         copied_structure.RING = self.RING.deepcopy()
         copied_structure.IDEALRING = self.IDEALRING.deepcopy()
-        for ind, element in enumerate(self.RING):
-            copied_structure.RING[ind] = element.deepcopy()
-            copied_structure.IDEALRING[ind] = element.deepcopy()
+        for ind in range(len(self.RING)):
+            copied_structure.RING[ind] = self.RING[ind].deepcopy()
+            copied_structure.IDEALRING[ind] = self.IDEALRING[ind].deepcopy()
         return copied_structure
 
     def verify_structure(self):
-- 
2.43.0


From c67f47aea8f43544a68bc0b1436547587b4cb49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:38 +0000
Subject: [PATCH 28/72] fix: calibration errors shorter than the quadrupole
 component apply to combined-function magnets

---
 pySC/core/simulated_commissioning.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pySC/core/simulated_commissioning.py b/pySC/core/simulated_commissioning.py
index 601e972..97f2cdc 100644
--- a/pySC/core/simulated_commissioning.py
+++ b/pySC/core/simulated_commissioning.py
@@ -1091,8 +1091,7 @@ class SimulatedCommissioning:
                                                   * self.RING[target_ord].BendingAngle / self.RING[target_ord].Length)
         if hasattr(self.RING[source_ord], 'BendingAngle'):
             if hasattr(self.RING[source_ord], 'CombinedFunction') and self.RING[source_ord].CombinedFunction:
-                alpha_act = (self.RING[source_ord].SetPointB[1] * (1 + self.RING[source_ord].CalErrorB[1])
-                             / self.RING[source_ord].NomPolynomB[1])
+                alpha_act = polynoms["B"][1] / self.RING[source_ord].NomPolynomB[1]
                 effBendingAngle = alpha_act * self.RING[target_ord].BendingAngle
                 self.RING[target_ord].PolynomB[0] += ((effBendingAngle - self.RING[target_ord].BendingAngle)
                                                       / self.RING[target_ord].Length)
-- 
2.43.0


From 9131a953a036f4b53ba084f04ea8f27bb1affd5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:14 +0000
Subject: [PATCH 29/72] fix: pitch and yaw of a structure follow its own end
 points (not those of the structures it carries)

---
 pySC/core/simulated_commissioning.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pySC/core/simulated_commissioning.py b/pySC/core/simulated_commissioning.py
index 97f2cdc..e7aa474 100644
--- a/pySC/core/simulated_commissioning.py
+++ b/pySC/core/simulated_commissioning.py
@@ -726,6 +726,7 @@ class SimulatedCommissioning:
         ring_length = s_pos[-1]
         off0 = np.zeros((3, len(s_pos)))
         roll0 = np.zeros((3, len(s_pos)))
+        end_offsets = {}  # of each structure, i.e. without the structures it carries
 
         for suport_type in SUPPORT_TYPES:  # Order has to be Section, Plinth, Girder
             if suport_type in self.ORD:
@@ -736,17 +737,19 @@ class SimulatedCommissioning:
                 for i in range(len(ord1)):
                     tmpoff1[:, i] = off0[:, ord1[i]] + getattr(self.RING[ord1[i]], f"{suport_type}Offset")
                     tmpoff2[:, i] = off0[:, ord2[i]] + getattr(self.RING[ord2[i]], f"{suport_type}Offset")
+                end_offsets[suport_type] = (tmpoff1, tmpoff2)
                 for i in range(3):
                     off0[i, :] = classdef_tools.s_interpolation(off0[i, :], s_pos, ord1, tmpoff1[i, :], ord2, tmpoff2[i, :])
 
         for support_type in SUPPORT_TYPES:  # Order has to be Section, Plinth, Girder
-            for ords in self.ORD[support_type].T:
+            for n, ords in enumerate(self.ORD[support_type].T):
                 roll_start0 = getattr(self.RING[ords[0]], f"{support_type}Roll")[0]
                 struct_length = s_pos[ords[1]] - s_pos[ords[0]]
                 mask = np.zeros(len(s_pos), dtype=bool)
                 mask[ords[0]:ords[1]] = True
-                offset1 = off0[1, ords[1]] - off0[1, ords[0]]
-                offset2 = off0[0, ords[1]] - off0[0, ords[0]]
+                start_offset, end_offset = (offsets[:, n] for offsets in end_offsets[support_type])
+                offset1 = end_offset[1] - start_offset[1]
+                offset2 = end_offset[0] - start_offset[0]
                 if ords[0] > ords[1]:
                     struct_length = ring_length + struct_length
                     mask[ords[0]:] = True
-- 
2.43.0


From 76448e1cf8d96ee94982fe6ecc08b712709efaf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:26 +0000
Subject: [PATCH 30/72] fix: pseudo-orbit readings with a lost BPM are NaN
 (weights summing to zero raised)

---
 pySC/core/beam.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pySC/core/beam.py b/pySC/core/beam.py
index d9f9be9..c305d5d 100644
--- a/pySC/core/beam.py
+++ b/pySC/core/beam.py
@@ -55,9 +55,9 @@ def bpm_reading(SC: SimulatedCommissioning, bpm_ords: ndarray = None, calculate_
     if SC.plot:
         _plot_bpm_reading(SC, mean_bpm_orbits_3d, bpm_inds)
     if SC.INJ.trackMode == TRACK_PORB:   # ORB averaged over low amount of turns
-        mean_bpm_orbits_3d = np.average(np.ma.array(mean_bpm_orbits_3d, mask=np.isnan(mean_bpm_orbits_3d)),
-                                        weights=np.ma.array(mean_bpm_sums_3d, mask=np.isnan(mean_bpm_sums_3d)), axis=2,
-                                        keepdims=True).filled(np.nan)
+        mean_bpm_orbits_3d = np.ma.average(np.ma.array(mean_bpm_orbits_3d, mask=np.isnan(mean_bpm_orbits_3d)),
+                                           weights=np.ma.array(mean_bpm_sums_3d, mask=np.isnan(mean_bpm_sums_3d)), axis=2,
+                                           keepdims=True).filled(np.nan)
         mean_bpm_sums_3d = np.nansum(mean_bpm_sums_3d, axis=2, keepdims=True) / SC.INJ.nTurns
     if calculate_errors and SC.INJ.trackMode == TRACK_TBT:
         bpm_orbits_4d[np.sum(np.isnan(bpm_orbits_4d), axis=3) > 0, :] = np.nan
-- 
2.43.0


From 3b4dfb59c55097ff8a7079e2f52fff2220f44ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:26 +0000
Subject: [PATCH 31/72] fix: model ring can be built with only some of the
 cavities registered

---
 pySC/lattice_properties/response_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/lattice_properties/response_model.py b/pySC/lattice_properties/response_model.py
index 84dadba..68c714f 100644
--- a/pySC/lattice_properties/response_model.py
+++ b/pySC/lattice_properties/response_model.py
@@ -168,7 +168,7 @@ def SCgetModelRING(SC: SimulatedCommissioning, includeAperture: bool =False) ->
             for field in ('EApertures', 'RApertures'):
                 if hasattr(SC.RING[ord], field):
                     setattr(ring[ord], field, copy.deepcopy(getattr(SC.RING[ord], field)))
-        if len(SC.ORD.RF) and hasattr(SC.RING[ord], 'Frequency'):
+        if ord in SC.ORD.RF:
             for field in RF_PROPERTIES:
                 setattr(ring[ord], field, getattr(SC.RING[ord], f"{field}SetPoint"))
     return ring
-- 
2.43.0


From e2246ff6906ad22eae53dcd28daa7a939380a005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:26 +0000
Subject: [PATCH 32/72] fix: response measurement uses the corrector step
 actually set

---
 pySC/lattice_properties/response_measurement.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pySC/lattice_properties/response_measurement.py b/pySC/lattice_properties/response_measurement.py
index 41644a6..60ea4d6 100644
--- a/pySC/lattice_properties/response_measurement.py
+++ b/pySC/lattice_properties/response_measurement.py
@@ -101,6 +101,8 @@ def _kick_amplitude(SC, bref, bpm_ords, cm_ord, amp, skewness: bool, mode):
             LOGGER.debug(
                 f'Insufficient beam reach ({max_pos:.0f}/{max_pos_ref:.0f}). '
                 f'cm_step reduced to {1E6 * max_step:.1f}urad.')
+    # the step which is actually set (limits, or a step scaled after the last iteration)
+    max_step = (SC.get_cm_setpoints(cm_ord, skewness) - cmstart)[0]
     return max_step, np.ravel(bpm_reading(SC, bpm_ords=bpm_ords)[0]) - bref
 
 
-- 
2.43.0


From 288e78fecbc6a741dd33901a65bd502bed2d749f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:26 +0000
Subject: [PATCH 33/72] fix: response matrix can be measured in pseudo-orbit
 mode with several turns

---
 pySC/lattice_properties/response_measurement.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pySC/lattice_properties/response_measurement.py b/pySC/lattice_properties/response_measurement.py
index 60ea4d6..b8f2fdc 100644
--- a/pySC/lattice_properties/response_measurement.py
+++ b/pySC/lattice_properties/response_measurement.py
@@ -18,10 +18,10 @@ def response_matrix(SC, amp, bpm_ords, cm_ords, mode='fixedKick', n_steps=2, fit
                  f'{len(cm_ords[0])}|{len(cm_ords[1])} CMs with {mode=} and '
                  f'amplitudes {np.mean(amp[0])}|{np.mean(amp[1])} using {n_steps} steps ...')
     n_hcm, n_vcm = cm_ords[0].shape[0], cm_ords[1].shape[0]
-    rm = np.full((2 * SC.INJ.nTurns * bpm_ords.shape[0], n_hcm + n_vcm), np.nan)
-    error = np.full((2 * SC.INJ.nTurns * bpm_ords.shape[0], n_hcm + n_vcm), np.nan)
     cm_steps = [np.zeros((n_steps, n_hcm)), np.zeros((n_steps, n_vcm))]
     bref = np.ravel(bpm_reading(SC, bpm_ords=bpm_ords)[0])
+    rm = np.full((len(bref), n_hcm + n_vcm), np.nan)
+    error = np.full((len(bref), n_hcm + n_vcm), np.nan)
     if SC.INJ.trackMode == 'ORB' and np.sum(np.isnan(bref)):
         raise ValueError('No closed orbit found.')
     i = 0
-- 
2.43.0


From 041e8f42456c989b50d7fa1d1f1a72fff32cbe3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:28 +0000
Subject: [PATCH 34/72] fix: bunches follow sigma matrices with repeated
 eigenvalues (orthonormal eigenvectors of the symmetric matrix)

---
 pySC/core/beam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/core/beam.py b/pySC/core/beam.py
index c305d5d..80d8814 100644
--- a/pySC/core/beam.py
+++ b/pySC/core/beam.py
@@ -162,7 +162,7 @@ def generate_bunches(SC: SimulatedCommissioning, nParticles=None) -> ndarray:
         nParticles = SC.INJ.nParticles
     Z = np.tile(np.transpose(SC.INJ.randomInjectionZ * sc_tools.randnc(2, (1, 6)) + SC.INJ.Z0), nParticles)
     if nParticles != 1:
-        V, L = np.linalg.eig(SC.INJ.beamSize)
+        V, L = np.linalg.eigh(SC.INJ.beamSize)
         Z += L @ np.diag(np.sqrt(np.maximum(V, 0))) @ sc_tools.randnc(3, (6, nParticles))
     return SC.INJ.postFun(Z)
 
-- 
2.43.0


From 75080c3872638c095d467de1afe7122934b10be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:17 +0000
Subject: [PATCH 35/72] fix: multi-step response measurement with BPMs which do
 not see the beam often enough for the fit

---
 pySC/lattice_properties/response_measurement.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pySC/lattice_properties/response_measurement.py b/pySC/lattice_properties/response_measurement.py
index b8f2fdc..fe9f082 100644
--- a/pySC/lattice_properties/response_measurement.py
+++ b/pySC/lattice_properties/response_measurement.py
@@ -46,6 +46,8 @@ def response_matrix(SC, amp, bpm_ords, cm_ords, mode='fixedKick', n_steps=2, fit
                 for nBPM in range(gradient.shape[1]):
                     x = dCM[~np.isnan(gradient[:, nBPM])]
                     y = gradient[~np.isnan(gradient[:, nBPM]), nBPM]
+                    if len(np.unique(x)) <= fit_order:  # the BPM does not see the beam often enough
+                        continue
                     rm[nBPM, i] = np.polyfit(x, y, fit_order)[fit_order - 1]
                     error[nBPM, i] = np.sqrt(np.mean((rm[nBPM, i] * x - y).T ** 2))
             i = i + 1
-- 
2.43.0


From 7f351b1098eee77147055862abc92b68edb5f654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:17 +0000
Subject: [PATCH 36/72] fix: fixedOffset mode of the response measurement with
 BPMs not seeing the beam or the corrector

---
 pySC/lattice_properties/response_measurement.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pySC/lattice_properties/response_measurement.py b/pySC/lattice_properties/response_measurement.py
index fe9f082..ace9bf2 100644
--- a/pySC/lattice_properties/response_measurement.py
+++ b/pySC/lattice_properties/response_measurement.py
@@ -95,7 +95,9 @@ def _kick_amplitude(SC, bref, bpm_ords, cm_ord, amp, skewness: bool, mode):
         max_pos, max_pos_ref = np.sum(~np.isnan(bpm_readings_ravel)) / 2, np.sum(~np.isnan(bref)) / 2
         if max_pos_ref <= max_pos:
             if mode == "fixedOffset":
-                max_step = max_step * amp / np.max(np.abs(bpm_readings_ravel - bref))
+                offset = np.nanmax(np.abs(bpm_readings_ravel - bref))
+                if offset > 0:  # the corrector acts on some BPM which sees the beam
+                    max_step = max_step * amp / offset
             else:
                 break
         else:
-- 
2.43.0


From c0de225be15645a05b964b0a0b38c50d0edb5bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:02 +0000
Subject: [PATCH 37/72] fix: magnet fields may become shorter or differ in
 length between normal and skew (multipole order follows)

---
 pySC/core/simulated_commissioning.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pySC/core/simulated_commissioning.py b/pySC/core/simulated_commissioning.py
index e7aa474..447ba81 100644
--- a/pySC/core/simulated_commissioning.py
+++ b/pySC/core/simulated_commissioning.py
@@ -1078,6 +1078,7 @@ class SimulatedCommissioning:
         setpoints_a, setpoints_b = self.RING[source_ord].SetPointA, self.RING[source_ord].SetPointB
         polynoms = dict(A=setpoints_a * classdef_tools.add_padded(np.ones(len(setpoints_a)), np.atleast_1d(self.RING[source_ord].CalErrorA)),
                         B=setpoints_b * classdef_tools.add_padded(np.ones(len(setpoints_b)), np.atleast_1d(self.RING[source_ord].CalErrorB)))
+        new_polynoms = dict()
         for target in AB:
             new_polynom = polynoms[target][:]
             if hasattr(self.RING[target_ord], f'Polynom{target}Offset'):
@@ -1087,7 +1088,12 @@ class SimulatedCommissioning:
                     polynom_errors = getattr(self.RING[target_ord], f'SysPol{target}From{source}')
                     for n in polynom_errors.keys():
                         new_polynom = classdef_tools.add_padded(new_polynom, polynoms[source][n] * polynom_errors[n])
-            setattr(self.RING[target_ord], f"Polynom{target}", new_polynom)
+            new_polynoms[target] = new_polynom
+        self.RING[target_ord].MaxOrder = 0  # polynoms may also become shorter, both have the same length
+        n_poles = max(len(new_polynom) for new_polynom in new_polynoms.values())
+        for target in AB:
+            setattr(self.RING[target_ord], f"Polynom{target}",
+                    classdef_tools.add_padded(new_polynoms[target], np.zeros(n_poles)))
 
         if hasattr(self.RING[source_ord], 'BendingAngleError'):
             self.RING[target_ord].PolynomB[0] += (self.RING[source_ord].BendingAngleError
-- 
2.43.0


From fef1ad0c678caef1d554f19d6d8bbee6e16d5f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:28 +0000
Subject: [PATCH 38/72] fix: orbit correction judges stability per plane
 (readings of different size in both planes never counted as stable)

---
 pySC/correction/orbit_trajectory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/correction/orbit_trajectory.py b/pySC/correction/orbit_trajectory.py
index e7fb82a..e9c2a92 100644
--- a/pySC/correction/orbit_trajectory.py
+++ b/pySC/correction/orbit_trajectory.py
@@ -371,7 +371,7 @@ def _golden_donut_diffs(r0, r1, n_points):
 def _is_stable_or_converged(n, eps, hist):  # TODO rethink
     if len(hist) < n:
         return False
-    return np.std(hist[-n:]) < eps
+    return np.max(np.std(hist[-n:], axis=0)) < eps  # in each of the planes
 
 
 def _wiggling(SC, bpm_ords, cm_ords, transmission_limit, nums_correctors=range(1, 9)):
-- 
2.43.0


From 5e8c0248d243394be7d9ea5c2b69f94d01718d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:36 +0000
Subject: [PATCH 39/72] fix: beam-based alignment of noise-free BPMs and
 without any visible downstream effect (failed measurement instead of an
 exception)

---
 pySC/correction/bba.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pySC/correction/bba.py b/pySC/correction/bba.py
index 77682aa..277d81d 100644
--- a/pySC/correction/bba.py
+++ b/pySC/correction/bba.py
@@ -11,6 +11,7 @@ from pySC.correction import orbit_trajectory
 LOGGER = logging_tools.get_logger(__name__)
 CONFIDENCE_LEVEL_SIGMAS = 2.5
 OUTLIER_LIMIT = 1.5e-3
+MIN_BPM_ERROR = 1e-12
 
 
 def trajectory_bba(SC, bpm_ords, mag_ords, **kwargs):
@@ -141,7 +142,9 @@ def _get_bpm_offset_from_mag(ring, bpm_ords, mag_ords):
 def _data_evaluation(SC, bpm_pos, trajectories, mag_vec, n_dim, m_ord, par):
     x = np.mean(bpm_pos, axis=1)
     x_mask = ~np.isnan(x)
-    err = np.mean(np.std(bpm_pos[x_mask, :], axis=1))
+    if not np.any(x_mask):
+        return np.nan, np.nan
+    err = max(np.mean(np.std(bpm_pos[x_mask, :], axis=1)), MIN_BPM_ERROR)  # readings may repeat exactly
     x = x[x_mask]
     new_tmp_tra = trajectories[x_mask, :, :]
 
@@ -172,6 +175,8 @@ def _data_evaluation(SC, bpm_pos, trajectories, mag_vec, n_dim, m_ord, par):
         center[j] = -p[1] / (par.fit_order * p[0])  # zero-crossing if linear, minimum is quadratic
         center_err[j] = np.sqrt(center[j] ** 2 * (pcov[0,0]/p[0]**2 + pcov[1,1]/p[1]**2 - 2 * pcov[0, 1] / p[0] / p[1]))
     mask = ~np.isnan(center)
+    if not np.any(mask):
+        return np.nan, np.nan
     offset_change = stats.weighted_mean(center[mask], center_err[mask])
     offset_change_error = stats.weighted_error(center[mask]-offset_change, center_err[mask]) / np.sqrt(stats.effective_sample_size(center[mask], stats.weights_from_errors(center_err[mask])))
     if not par.dipole_compensation and n_dim == 0 and SC.RING[m_ord].NomPolynomB[1] != 0:
-- 
2.43.0


From 105598e21574e96b732f3b3bc023dbc40140ef0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:47 +0000
Subject: [PATCH 40/72] fix: dispersion in the LOCO jacobian follows the rf
 step and ring of the response and can be part of the full jacobian

---
 pySC/correction/loco.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pySC/correction/loco.py b/pySC/correction/loco.py
index 272cab4..43b881f 100644
--- a/pySC/correction/loco.py
+++ b/pySC/correction/loco.py
@@ -28,6 +28,9 @@ def calculate_jacobian(SC, C_model, dkick, used_cor_ind, bpm_indexes, quads_ind,
         # assuming only linear scaling errors of BPMs and corrector magnets
         n_correctors = len(np.concatenate(used_cor_ind))
         n_bpms = len(bpm_indexes) * 2  # in both planes
+        if includeDispersion:
+            dispersion_model = SCgetModelDispersion(SC, bpm_indexes, CAVords=cav_ords, rfStep=rf_step, useIdealRing=useIdealRing)
+            C_model = np.hstack((C_model, dispersion_model.reshape(-1, 1)))
         j_cor = np.zeros((n_correctors,) + C_model.shape)
         for i in range(n_correctors):
             j_cor[i, :, i] = C_model[:, i]   # a single column of response matrix corresponding to a corrector
@@ -50,11 +53,11 @@ def generating_quads_response_matrices(args):
         SC.set_magnet_setpoints(quad_index, -dk, skewness, order, method)
         return C_measured - C_model
 
-    dispersion_model = SCgetModelDispersion(SC, used_bpm_indexes, CAVords=cav_ords)
+    dispersion_model = SCgetModelDispersion(SC, used_bpm_indexes, CAVords=cav_ords, rfStep=rf_step, useIdealRing=useIdealRing)
     SC.set_magnet_setpoints(quad_index, dk, skewness, order, method)
     C_measured = SCgetModelRM(SC, used_bpm_indexes, used_cor_indexes, dkick=correctors_kick, useIdealRing=useIdealRing,
                               trackMode=trackMode)
-    dispersion_meas = SCgetModelDispersion(SC, used_bpm_indexes, CAVords=cav_ords, rfStep=rf_step)
+    dispersion_meas = SCgetModelDispersion(SC, used_bpm_indexes, CAVords=cav_ords, rfStep=rf_step, useIdealRing=useIdealRing)
     SC.set_magnet_setpoints(quad_index, -dk, skewness, order, method)
     return np.hstack((C_measured - C_model, (dispersion_meas - dispersion_model).reshape(-1, 1)))
 
-- 
2.43.0


From 6f20983d929b4d9dd38fabc405271efd12c785ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:47 +0000
Subject: [PATCH 41/72] fix: weighted Gauss-Newton step of LOCO solves its
 normal equations

---
 pySC/correction/loco.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/correction/loco.py b/pySC/correction/loco.py
index 43b881f..79005d0 100644
--- a/pySC/correction/loco.py
+++ b/pySC/correction/loco.py
@@ -99,7 +99,7 @@ def loco_correction_ng(initial_guess0, orm_model, orm_measured, J, lengths, incl
     r = residuals.reshape(np.transpose(orm_model).shape)
     t2 = np.zeros([len(initial_guess[mask]), 1])
     for i in range(len(initial_guess[mask])):
-        t2[i] = np.sum(np.dot(np.dot(J[mask][i].T, weights), r.T))
+        t2[i] = np.sum(np.dot(np.dot(J[mask][i].T, np.sqrt(weights)), r.T))  # residuals already carry the other half
     return get_inverse(J[mask, :, :], t2, s_cut, weights, LM_lambda=LM_lambda)
 
 
-- 
2.43.0


From ff8d1f4e590feb7c01fc0ecffd297720a0f25174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:56 +0000
Subject: [PATCH 42/72] fix: rf corrections of the MATLAB-style interface
 restore the number of turns also if they fail

---
 pySC/matlab_index.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/pySC/matlab_index.py b/pySC/matlab_index.py
index a51800b..7999857 100644
--- a/pySC/matlab_index.py
+++ b/pySC/matlab_index.py
@@ -316,19 +316,21 @@ def SCsynchEnergyCorrection(SC, /, *, cavOrd=None, f_range=(-1E3, 1E3), nSteps=1
                             plotProgress=False, verbose=False):
     init_nturns = SC.INJ.nTurns
     SC.INJ.nTurns = nTurns
-    SC = correct_rf_frequency(SC, cav_ords=cavOrd, f_range=f_range, n_steps=nSteps,
-                           plot_results=plotResults, plot_progress=plotProgress, )
-    SC.INJ.nTurns = init_nturns
-    return SC
+    try:
+        return correct_rf_frequency(SC, cav_ords=cavOrd, f_range=f_range, n_steps=nSteps,
+                                    plot_results=plotResults, plot_progress=plotProgress, )
+    finally:
+        SC.INJ.nTurns = init_nturns
 
 
 def SCsynchPhaseCorrection(SC, /, *, cavOrd=None, nSteps=15, nTurns=20, plotResults=False, plotProgress=False,
                            verbose=False):
     init_nturns = SC.INJ.nTurns
     SC.INJ.nTurns = nTurns
-    SC = correct_rf_phase(SC, cav_ords=cavOrd, n_steps=nSteps, plot_results=plotResults, plot_progress=plotProgress, )
-    SC.INJ.nTurns = init_nturns
-    return SC
+    try:
+        return correct_rf_phase(SC, cav_ords=cavOrd, n_steps=nSteps, plot_results=plotResults, plot_progress=plotProgress, )
+    finally:
+        SC.INJ.nTurns = init_nturns
 
 
 def SCtuneScan(SC, qOrds, qSPvec, /, *, verbose=False, plotFlag=False, nParticles=None, nTurns=None, target=1,
-- 
2.43.0


From d5c3b93f0071ebc865956f7bbbe9bd9142739de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:42 +0000
Subject: [PATCH 43/72] fix: errors applied again replace earlier support tilts
 instead of adding up or being rejected

---
 pySC/core/simulated_commissioning.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/pySC/core/simulated_commissioning.py b/pySC/core/simulated_commissioning.py
index 447ba81..7a085cd 100644
--- a/pySC/core/simulated_commissioning.py
+++ b/pySC/core/simulated_commissioning.py
@@ -593,21 +593,26 @@ class SimulatedCommissioning:
                 offsets0 = copy.deepcopy(getattr(self.RING[ordPair[0]], f"{support_type}Offset"))
                 offsets1 = copy.deepcopy(getattr(self.RING[ordPair[1]], f"{support_type}Offset"))
 
+                two_offsets = f"{support_type}Offset" in self.SIG.Support[ordPair[1]].keys()
+                if two_offsets and f"{support_type}Roll" not in self.SIG.Support[ordPair[0]].keys():
+                    rolls0[1:] = 0  # follow from the endpoints, drop the values of previously applied errors
                 if rolls0[1] != 0:
-                    if f"{support_type}Offset" in self.SIG.Support[ordPair[1]].keys():
+                    if two_offsets:
                         raise Exception(f'Pitch angle errors can not be given explicitly if {support_type} '
                                         f'start and endpoints each have offset uncertainties.')
-                    offsets0[1] -= rolls0[1] * struct_length / 2
-                    offsets1[1] += rolls0[1] * struct_length / 2
+                    center = (offsets0[1] + offsets1[1]) / 2
+                    offsets0[1] = center - rolls0[1] * struct_length / 2
+                    offsets1[1] = center + rolls0[1] * struct_length / 2
 
                 else:
                     rolls0[1] = (offsets1[1] - offsets0[1]) / struct_length
                 if rolls0[2] != 0:
-                    if f"{support_type}Offset" in self.SIG.Support[ordPair[1]].keys():
+                    if two_offsets:
                         raise Exception(f'Yaw angle errors can not be given explicitly if {support_type} '
                                         f'start and endpoints each have offset uncertainties.')
-                    offsets0[0] -= rolls0[2] * struct_length / 2
-                    offsets1[0] += rolls0[2] * struct_length / 2
+                    center = (offsets0[0] + offsets1[0]) / 2
+                    offsets0[0] = center - rolls0[2] * struct_length / 2
+                    offsets1[0] = center + rolls0[2] * struct_length / 2
                 else:
                     rolls0[2] = (offsets1[0] - offsets0[0]) / struct_length
                 setattr(self.RING[ordPair[0]], f"{support_type}Roll", rolls0)
-- 
2.43.0


From d1c2dace4ef7bd9c835695ff38d958177ed7636a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:05 +0000
Subject: [PATCH 44/72] fix: registered uncertainties and BPM noise levels are
 copies, not shared between elements and with the caller

---
 pySC/core/simulated_commissioning.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pySC/core/simulated_commissioning.py b/pySC/core/simulated_commissioning.py
index 7a085cd..d0b5c8f 100644
--- a/pySC/core/simulated_commissioning.py
+++ b/pySC/core/simulated_commissioning.py
@@ -127,7 +127,7 @@ class SimulatedCommissioning:
         for ind in np.unique(ords):
             if ind not in self.SIG.BPM.keys():
                 self.SIG.BPM[ind] = DotDict()
-            self.SIG.BPM[ind].update(kwargs)
+            self.SIG.BPM[ind].update(copy.deepcopy(kwargs))
 
             self.RING[ind].Noise = np.zeros(2)
             self.RING[ind].NoiseCO = np.zeros(2)
@@ -185,7 +185,7 @@ class SimulatedCommissioning:
         for ind in np.unique(ords):
             if ind not in self.SIG.RF.keys():
                 self.SIG.RF[ind] = DotDict()
-            self.SIG.RF[ind].update(kwargs)
+            self.SIG.RF[ind].update(copy.deepcopy(kwargs))
             for field in RF_PROPERTIES:
                 setattr(self.RING[ind], f"{field}SetPoint", getattr(self.RING[ind], field))
                 setattr(self.RING[ind], f"{field}Offset", 0)
@@ -325,7 +325,7 @@ class SimulatedCommissioning:
         for ind in ords:
             if ind not in self.SIG.Magnet.keys():
                 self.SIG.Magnet[ind] = DotDict()
-            self.SIG.Magnet[ind].update(nvpairs)
+            self.SIG.Magnet[ind].update(copy.deepcopy(nvpairs))
         # TODO Correctors
             for ab in AB:
                 order = len(getattr(self.RING[ind], f"Polynom{ab}"))
@@ -434,7 +434,7 @@ class SimulatedCommissioning:
             self.SIG.Support[ind] = DotDict({field: value for field, value in self.SIG.Support.get(ind, {}).items()
                                              if not field.startswith(support_type)})
         for ord_pair in support_ords.T:
-            for key, value in kwargs.items():
+            for key, value in copy.deepcopy(kwargs).items():
                 if isinstance(value, list):
                     if value[0].ndim == 1:
                         self.SIG.Support[ord_pair[0]][f"{support_type}{key}"] = value
@@ -549,7 +549,7 @@ class SimulatedCommissioning:
         for ind in classdef_tools.intersect(self.ORD.BPM, self.SIG.BPM.keys()):
             for field in self.SIG.BPM[ind]:
                 if re.search('Noise', field):
-                    setattr(self.RING[ind], field, self.SIG.BPM[ind][field])
+                    setattr(self.RING[ind], field, copy.deepcopy(self.SIG.BPM[ind][field]))
                 else:
                     setattr(self.RING[ind], field, classdef_tools.randn_cutoff(self.SIG.BPM[ind][field], nsigmas))
         # Magnet
-- 
2.43.0


From db7bb6e50ba0fb9961883e3b4dea4aef1637e5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:34 +0000
Subject: [PATCH 45/72] fix: closed orbit response for LOCO divides by the step
 actually set and restores correctors at their limits

---
 pySC/correction/loco.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pySC/correction/loco.py b/pySC/correction/loco.py
index 79005d0..d6259ed 100644
--- a/pySC/correction/loco.py
+++ b/pySC/correction/loco.py
@@ -2,7 +2,7 @@ import at
 import numpy as np
 import multiprocessing
 from pySC.lattice_properties.response_model import SCgetModelRM, SCgetModelDispersion
-from pySC.core.constants import SETTING_ADD, TRACK_ORB
+from pySC.core.constants import SETTING_ABS, SETTING_ADD, TRACK_ORB
 from pySC.core.beam import bpm_reading
 import matplotlib.pyplot as plt
 from scipy.optimize import least_squares
@@ -74,10 +74,15 @@ def measure_closed_orbit_response_matrix(SC, bpm_ords, cm_ords, dkick=1e-5):
     cnt = 0
     for n_dim in range(2):
         for cm_ord in cm_ords[n_dim]:
+            cm_start = SC.get_cm_setpoints(cm_ord, skewness=bool(n_dim))
             SC.set_cm_setpoints(cm_ord, dkick, skewness=bool(n_dim), method=SETTING_ADD)
+            cm_step = SC.get_cm_setpoints(cm_ord, skewness=bool(n_dim)) - cm_start
+            if np.abs(cm_step[0]) < np.abs(dkick) / 2:  # limited, step in the other direction
+                SC.set_cm_setpoints(cm_ord, cm_start - dkick, skewness=bool(n_dim), method=SETTING_ABS)
+                cm_step = SC.get_cm_setpoints(cm_ord, skewness=bool(n_dim)) - cm_start
             closed_orbits1 = bpm_reading(SC, bpm_ords=bpm_ords)[0]
-            SC.set_cm_setpoints(cm_ord, -dkick, skewness=bool(n_dim), method=SETTING_ADD)
-            response_matrix[:, cnt] = np.ravel((closed_orbits1 - closed_orbits0) / dkick)
+            SC.set_cm_setpoints(cm_ord, cm_start, skewness=bool(n_dim), method=SETTING_ABS)
+            response_matrix[:, cnt] = np.ravel((closed_orbits1 - closed_orbits0) / cm_step)
             cnt = cnt + 1
     return response_matrix
 
-- 
2.43.0


From 21ce83832c7faf34edf5d9d72b68a5ae6fb3f9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:51 +0000
Subject: [PATCH 46/72] fix: errors of support end points follow the
 uncertainties registered for the end points

---
 pySC/core/simulated_commissioning.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pySC/core/simulated_commissioning.py b/pySC/core/simulated_commissioning.py
index d0b5c8f..01b6c07 100644
--- a/pySC/core/simulated_commissioning.py
+++ b/pySC/core/simulated_commissioning.py
@@ -585,7 +585,8 @@ class SimulatedCommissioning:
                         continue
                     setattr(self.RING[ordPair[0]], field, classdef_tools.randn_cutoff(value, nsigmas))
                     setattr(self.RING[ordPair[1]], field,
-                            classdef_tools.randn_cutoff(value, nsigmas) if field in self.SIG.Support[ordPair[1]].keys()
+                            classdef_tools.randn_cutoff(self.SIG.Support[ordPair[1]][field], nsigmas)
+                            if field in self.SIG.Support[ordPair[1]].keys()
                             else getattr(self.RING[ordPair[0]], field))
 
                 struct_length = np.remainder(s_pos[ordPair][1] - s_pos[ordPair][0], s_pos[-1])
-- 
2.43.0


From a8506eec97f5ae824a6654495bfde45f33859e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:58 +0000
Subject: [PATCH 47/72] fix: length of supports spanning the whole ring
 (explicit pitch and yaw were lost, rolls became NaN)

---
 pySC/core/simulated_commissioning.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pySC/core/simulated_commissioning.py b/pySC/core/simulated_commissioning.py
index 01b6c07..af421aa 100644
--- a/pySC/core/simulated_commissioning.py
+++ b/pySC/core/simulated_commissioning.py
@@ -589,7 +589,9 @@ class SimulatedCommissioning:
                             if field in self.SIG.Support[ordPair[1]].keys()
                             else getattr(self.RING[ordPair[0]], field))
 
-                struct_length = np.remainder(s_pos[ordPair][1] - s_pos[ordPair][0], s_pos[-1])
+                struct_length = s_pos[ordPair][1] - s_pos[ordPair][0]
+                if ordPair[0] > ordPair[1]:  # Injection is within the structure
+                    struct_length += s_pos[-1]
                 rolls0 = copy.deepcopy(getattr(self.RING[ordPair[0]], f"{support_type}Roll"))  # Twisted supports are not considered
                 offsets0 = copy.deepcopy(getattr(self.RING[ordPair[0]], f"{support_type}Offset"))
                 offsets1 = copy.deepcopy(getattr(self.RING[ordPair[1]], f"{support_type}Offset"))
-- 
2.43.0


From 2d424004e76c9fda8b2399de1f82f8a2114dfe50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:52 +0000
Subject: [PATCH 48/72] fix: dipole compensation acts only on normal gradients
 of combined function magnets (NaN corrector setpoints of pure dipoles)

---
 pySC/core/simulated_commissioning.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pySC/core/simulated_commissioning.py b/pySC/core/simulated_commissioning.py
index af421aa..9cd46cc 100644
--- a/pySC/core/simulated_commissioning.py
+++ b/pySC/core/simulated_commissioning.py
@@ -943,15 +943,16 @@ class SimulatedCommissioning:
             if skewness and order == 1 and getattr(self.RING[ord], 'SkewQuadLimit', np.inf) < np.abs(setpoints_1d[i]):
                 LOGGER.info(f'SkewLim \n Skew quadrupole (ord: {ord}) is clipping')
                 setpoints_1d[i] = np.sign(setpoints_1d[i]) * self.RING[ord].SkewQuadLimit
-            # TODO should check CF magnets
-            if dipole_compensation and order == 1:  # quad  # TODO check also skewness?
+            if dipole_compensation and order == 1 and not skewness:  # quad
                 self._dipole_compensation(ord, setpoints_1d[i])
             getattr(self.RING[ord], f"{SETPOINT}{letter}")[order] = setpoints_1d[i]
 
         self.update_magnets(ords_1d)
 
     def _dipole_compensation(self, ord, setpoint):
-        if getattr(self.RING[ord], 'BendingAngle', 0) != 0 and ord in self.ORD.HCM:
+        # the bending angle depends on the quadrupole setpoint only for combined function magnets
+        if (getattr(self.RING[ord], 'CombinedFunction', False) and getattr(self.RING[ord], 'BendingAngle', 0) != 0
+                and ord in self.ORD.HCM):
             self.set_cm_setpoints(
                 ord,
                 (setpoint - self.RING[ord].SetPointB[1]) / self.RING[ord].NomPolynomB[1] * self.RING[ord].BendingAngle,
-- 
2.43.0


From f63d101a4336ae0310ebedcc6a4557505a967e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:59 +0000
Subject: [PATCH 49/72] fix: CF=False does not register a combined function
 magnet

---
 pySC/core/simulated_commissioning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/core/simulated_commissioning.py b/pySC/core/simulated_commissioning.py
index 9cd46cc..2de230e 100644
--- a/pySC/core/simulated_commissioning.py
+++ b/pySC/core/simulated_commissioning.py
@@ -1069,7 +1069,7 @@ class SimulatedCommissioning:
 
     def _optional_magnet_fields(self, ind, MAGords, **kwargs):
         if 'CF' in kwargs.keys():
-            self.RING[ind].CombinedFunction = True
+            self.RING[ind].CombinedFunction = bool(kwargs['CF'])
         if classdef_tools.intersect(("HCM", "VCM"), kwargs.keys()) and not hasattr(self.RING[ind], 'CMlimit'):
             self.RING[ind].CMlimit = np.zeros(2)
         if 'HCM' in kwargs.keys():
-- 
2.43.0


From af8b698353625e96d1a7d43f89fcde43a73aa162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:21 +0000
Subject: [PATCH 50/72] fix: circular rms scales with the period

---
 pySC/utils/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/utils/stats.py b/pySC/utils/stats.py
index f2cab68..a05f3d4 100644
--- a/pySC/utils/stats.py
+++ b/pySC/utils/stats.py
@@ -186,7 +186,7 @@ def circular_rms(data, period=PI2, axis=None):
     Returns:
         Returns the circular root mean square along the specified axis.
     """
-    return np.sqrt(circular_mean(np.square(data / period), period=1, axis=axis) * period)
+    return period * np.sqrt(circular_mean(np.square(data / period), period=1, axis=axis))
 
 
 def rms(data, axis=None):
-- 
2.43.0


From b328dedd9ab739d42a8f3ec40d791c57d8cbed9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:21 +0000
Subject: [PATCH 51/72] fix: response measurement took rounding of thick
 corrector setpoints as a reached limit

---
 pySC/lattice_properties/response_measurement.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pySC/lattice_properties/response_measurement.py b/pySC/lattice_properties/response_measurement.py
index ace9bf2..2f58fe9 100644
--- a/pySC/lattice_properties/response_measurement.py
+++ b/pySC/lattice_properties/response_measurement.py
@@ -113,7 +113,8 @@ def _kick_amplitude(SC, bref, bpm_ords, cm_ord, amp, skewness: bool, mode):
 def _try_setpoint(SC, bpm_ords, cm_ord, cmstart, max_step, skewness):
     SC.set_cm_setpoints(cm_ord, cmstart + max_step, skewness)
     real_cm_setpoint = SC.get_cm_setpoints(cm_ord, skewness)
-    if real_cm_setpoint != (cmstart + max_step):
+    # up to rounding: the setpoint of a thick corrector does not always come back exactly
+    if not np.allclose(real_cm_setpoint, cmstart + max_step, rtol=1e-12, atol=0):
         LOGGER.debug('CM  clipped. Using different CM direction.')
         max_step *= -1
         SC.set_cm_setpoints(cm_ord, cmstart + max_step, skewness)
-- 
2.43.0


From 82c4136dd406346881b89906aca5c20e0d2cdf7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:25 +0000
Subject: [PATCH 52/72] fix: LOCO measurement of corrector responses takes the
 keyword arguments of its caller and joins the planes along the right axis

---
 pySC/correction/loco_wrapper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pySC/correction/loco_wrapper.py b/pySC/correction/loco_wrapper.py
index 1aff83e..e0b0e38 100644
--- a/pySC/correction/loco_wrapper.py
+++ b/pySC/correction/loco_wrapper.py
@@ -59,8 +59,8 @@ def loco_measurement(SC, CMstep, deltaRF, BPMords, CMords, **kwargs):
     loco_meas_data.RF = SC.RING[SC.ORD.RF[0]].Frequency
     loco_meas_data.DeltaRF = deltaRF
     loco_meas_data.BPMSTD = 1E-3 * np.ones(2 * len(BPMords))  # [mm]
-    RM, Err, CMsteps = response_matrix(SC, CMstep, BPMords, CMords, *kwargs)
-    CMsteps = [np.max(np.abs(CMsteps[0]), axis=1), np.max(np.abs(CMsteps[1]), axis=1)]
+    RM, Err, CMsteps = response_matrix(SC, CMstep, BPMords, CMords, **kwargs)
+    CMsteps = [np.max(np.abs(CMsteps[0]), axis=0), np.max(np.abs(CMsteps[1]), axis=0)]
     loco_meas_data.M = 2 * 1000 * np.concatenate((CMsteps[0], CMsteps[1])) * RM
     loco_meas_data.Eta = deltaRF * 1000 * dispersion(SC, rf_step=deltaRF, bpm_ords=BPMords, n_steps=3)
     return loco_meas_data, CMsteps
-- 
2.43.0


From b90772c644bd19605afacfde9891f6d564dcefb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:25 +0000
Subject: [PATCH 53/72] fix: LOCO structures accept correctors without given
 steps

---
 pySC/correction/loco_wrapper.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pySC/correction/loco_wrapper.py b/pySC/correction/loco_wrapper.py
index e0b0e38..d9462c2 100644
--- a/pySC/correction/loco_wrapper.py
+++ b/pySC/correction/loco_wrapper.py
@@ -43,6 +43,8 @@ def loco_cm_structure(SC, cmords=None, cm_steps=None, **kwargs):
                            HCMsteps=np.ones(n_hcms), VCMsteps=np.ones(n_vcms),
                            HCMKicks=2e3 * np.ones(n_hcms), VCMKicks=2e3 * np.ones(n_vcms)  # [mrad] TODO why 2?
                            ))
+    if cm_steps is None:
+        cm_steps = 1
     if isinstance(cm_steps, (int, float)) or len(cm_steps) == 1:
         cm_data.HCMsteps *= cm_steps
         cm_data.VCMsteps *= cm_steps
-- 
2.43.0


From f3dc3c783bafef343cb3f998901875676dcd8278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:25 +0000
Subject: [PATCH 54/72] fix: LOCO diagnostic correction works for scalar
 settings, absolute limits and without outlier limit, and leaves the fit
 results unchanged

---
 pySC/correction/loco_wrapper.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pySC/correction/loco_wrapper.py b/pySC/correction/loco_wrapper.py
index d9462c2..2b8228e 100644
--- a/pySC/correction/loco_wrapper.py
+++ b/pySC/correction/loco_wrapper.py
@@ -112,7 +112,7 @@ def apply_lattice_correction(SC, fit_parameters, dipole_compensation=True, dampi
 
 
 def applyDiagnosticCorrection(SC, cm_step, CMData, BPMData, CMcalOffsets=None, meanToZero=False, outlierRemovalAt=None):
-    if not isinstance(cm_step, list) and not len(cm_step) == 1:
+    if not isinstance(cm_step, list) and not np.size(cm_step) == 1:
         raise ValueError(
             'CM steps must be defined as single value or cell array matching the number of used HCM and VCM.')
     if not isinstance(cm_step, list):
@@ -132,11 +132,11 @@ def applyDiagnosticCorrection(SC, cm_step, CMData, BPMData, CMcalOffsets=None, m
                 fit_cal_cm = fit_cal_cm + np.mean(1 - fit_cal_cm)
             i = 0
             for ord in CMData[fields[nDim] + 'CMIndex']:
-                SC.RING[ord][sc_fields[nDim]][0] = SC.RING[ord][sc_fields[nDim]][0] + (1 - fit_cal_cm[i])
+                getattr(SC.RING[ord], sc_fields[nDim])[0] += 1 - fit_cal_cm[i]
                 i = i + 1
         if BPMData.FitGains:
-            fit_cal_bpm = BPMData[fields[nDim] + 'BPMGain']
-            if not outlierRemovalAt == []:
+            fit_cal_bpm = BPMData[fields[nDim] + 'BPMGain'].copy()
+            if outlierRemovalAt is not None:
                 fit_cal_bpm[np.abs(1 - fit_cal_bpm) >= outlierRemovalAt] = 1
             if meanToZero:
                 fit_cal_bpm = fit_cal_bpm + np.mean(1 - fit_cal_bpm)
-- 
2.43.0


From 8da0cecbf10dbe607e96ff8e19bd976a17622efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:25 +0000
Subject: [PATCH 55/72] fix: plot of the trajectory fit showed readings with
 the correction applied twice

---
 pySC/correction/injection_fit.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pySC/correction/injection_fit.py b/pySC/correction/injection_fit.py
index bf97557..057cfce 100644
--- a/pySC/correction/injection_fit.py
+++ b/pySC/correction/injection_fit.py
@@ -46,9 +46,7 @@ def fit_injection_trajectory(SC: SimulatedCommissioning, bpm_inds: ndarray = np.
     SC.INJ.Z0 += delta_z0
     if plot:
         fig, ax = plt.subplots(nrows=2, num=342, sharex="all")
-        SC.INJ.Z0 += delta_z0
         bnew = bpm_reading(SC)[0][:, bpm_inds]
-        SC.INJ.Z0 -= delta_z0
         s_bpm = s_pos[SC.ORD.BPM[bpm_inds]]
         for n_dim in range(2):
             ax[n_dim].plot(s_bpm, 1E3 * bref[n_dim, :], 'ro--', label="Initial")
-- 
2.43.0


From 65abbd0acabf000213464f9e463999cf4206b1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:25 +0000
Subject: [PATCH 56/72] fix: support plot with a limited range draws only the
 supports in the range

---
 pySC/plotting/plot_support.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/plotting/plot_support.py b/pySC/plotting/plot_support.py
index 526e872..6b7b1be 100644
--- a/pySC/plotting/plot_support.py
+++ b/pySC/plotting/plot_support.py
@@ -84,7 +84,7 @@ def plot_support(SC: SimulatedCommissioning, font_size: int = 8, x_lim: Tuple[fl
         ax[3*n_dim, 1].plot(s_mag, 1e6 * roll_mag_support[:, n_dim], 'D', color=blu, label='Overall supports')
         # plot individual support and roll contributions
         for sup_type in SUPPORT_TYPES:
-            for i, val in enumerate(SC.ORD[sup_type].T):  # loop supports
+            for i, val in enumerate(supdict[sup_type]['Ords']):  # loop supports in range
                 ax[3*n_dim, 0] = _plot_support(ax[3 * n_dim, 0], s_pos[val],
                                                [1e6 * supdict[sup_type]['Off']['a'][i][n_dim],
                                                 1e6 * supdict[sup_type]['Off']['b'][i][n_dim]],
-- 
2.43.0


From f22facc5984c24e658d33f995e796d5af8a73bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:26 +0000
Subject: [PATCH 57/72] fix: tune scan plot has the settings of the families
 along their own axes

---
 pySC/correction/tune.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pySC/correction/tune.py b/pySC/correction/tune.py
index dbeecd6..c01fc79 100644
--- a/pySC/correction/tune.py
+++ b/pySC/correction/tune.py
@@ -113,15 +113,15 @@ def plot_scan(fin_trans, max_turns, first_quads, rel_quad_changes):
     ax3 = f.add_subplot(gs[1, :])
     ticks = np.array([[0, rel_quad_changes[0].shape[0] // 2, rel_quad_changes[0].shape[0] - 1],
                      [0, rel_quad_changes[1].shape[0] // 2, rel_quad_changes[1].shape[0] - 1]])
-    im = ax1.imshow(100 * fin_trans, vmin=0, vmax=100)
+    im = ax1.imshow(100 * fin_trans.T, vmin=0, vmax=100)
     c1 = plt.colorbar(im, ax=ax1, orientation='vertical', label='Beam transmission [%]', shrink=0.6)
-    im2 = ax2.imshow(max_turns, vmin=0)
+    im2 = ax2.imshow(max_turns.T, vmin=0)
     c2 = plt.colorbar(im2, ax=ax2, orientation='vertical', label='Number of turns', shrink=0.6)
     for ax in (ax1, ax2):
         ax.set_xlabel(rf'$\Delta${first_quads[0]} [relative]')
         ax.set_ylabel(rf'$\Delta${first_quads[1]} [relative]')
         ax.set_xticks(ticks[0], np.round(rel_quad_changes[0][ticks[0, :]]-1, 5))
-        ax.set_yticks(ticks[0], np.round(rel_quad_changes[1][ticks[1, :]]-1, 5))
+        ax.set_yticks(ticks[1], np.round(rel_quad_changes[1][ticks[1, :]]-1, 5))
         for item in ([ax.xaxis.label, ax.yaxis.label] + ax.get_xticklabels() + ax.get_yticklabels()):
             item.set_fontsize(18)
     for cx in (c1, c2):
-- 
2.43.0


From b57619cfb2d08f9d6ba4c3cd9308ec6df671887e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:26 +0000
Subject: [PATCH 58/72] fix: BBA plots draw offsets at their own BPM in any
 order, work with few BPMs and leave the plot settings unchanged

---
 pySC/correction/bba.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pySC/correction/bba.py b/pySC/correction/bba.py
index 277d81d..f822637 100644
--- a/pySC/correction/bba.py
+++ b/pySC/correction/bba.py
@@ -187,11 +187,12 @@ def _data_evaluation(SC, bpm_pos, trajectories, mag_vec, n_dim, m_ord, par):
 def plot_bba_results(SC, bpm_ords, bba_offsets, bba_offset_errors):
     to_um = 1E6
     errors = is_bba_errored(bba_offsets, bba_offset_errors)
+    init_font = plt.rcParams["font.size"]
     plt.rcParams.update({'font.size': 10})
     f, ax = plt.subplots(nrows=2, num=90, figsize=(8, 8), facecolor="w")
     plabels = ("Horizontal", "Vertical")
     for n_dim in range(bpm_ords.shape[0]):
-        x = np.where(np.in1d(SC.ORD.BPM, bpm_ords[n_dim, :]))[0]
+        x = np.searchsorted(SC.ORD.BPM, bpm_ords[n_dim, :])
         mask = errors[n_dim, :]
         ax[n_dim].errorbar(x[~mask], to_um * bba_offsets[n_dim, ~mask], yerr=to_um * bba_offset_errors[n_dim, ~mask], fmt="bo",
                            label=plabels[n_dim])
@@ -202,12 +203,14 @@ def plot_bba_results(SC, bpm_ords, bba_offsets, bba_offset_errors):
         ax[n_dim].set_xlim([0, len(SC.ORD.BPM)])
         ax[n_dim].legend()
     f.show()
+    plt.rcParams.update({'font.size': init_font})
 
 
 def plot_bpm_offsets_from_magnets(SC, bpm_ords, mag_ords, error_flags):
+    init_font = plt.rcParams["font.size"]
     plt.rcParams.update({'font.size': 10})
     fom = _get_bpm_offset_from_mag(SC.RING, bpm_ords, mag_ords)
-    n_steps = 1 if bpm_ords.shape[1] == 1 else 1.1 * np.max(np.abs(fom)) * np.linspace(-1, 1, int(np.floor(bpm_ords.shape[1] / 3)))
+    n_steps = 1 if bpm_ords.shape[1] == 1 else 1.1 * np.max(np.abs(fom)) * np.linspace(-1, 1, max(2, int(np.floor(bpm_ords.shape[1] / 3))))
     f, ax = plt.subplots(nrows=3, num=91, figsize=(8, 11), facecolor="w")
     colors = ['#1f77b4', '#ff7f0e']
     for n_dim in range(bpm_ords.shape[0]):
@@ -224,7 +227,7 @@ def plot_bpm_offsets_from_magnets(SC, bpm_ords, mag_ords, error_flags):
 
     plabels = ("Horizontal", "Vertical")
     for n_dim in range(bpm_ords.shape[0]):
-        x = np.where(np.in1d(SC.ORD.BPM, bpm_ords[n_dim, :]))[0]
+        x = np.searchsorted(SC.ORD.BPM, bpm_ords[n_dim, :])
         mask = ~error_flags[n_dim, :]
         if not np.all(np.isnan(fom[n_dim, mask])):
             ax[n_dim + 1].plot(x[mask], 1E6 * fom[n_dim, mask], 'bo', label=plabels[n_dim])
@@ -237,6 +240,7 @@ def plot_bpm_offsets_from_magnets(SC, bpm_ords, mag_ords, error_flags):
         ax[n_dim + 1].legend()
     f.tight_layout()
     f.show()
+    plt.rcParams.update({'font.size': init_font})
 
 
     
-- 
2.43.0


From abe3e9c5cd3c7a07fd2cafe9c9be7a9231d533bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:26 +0000
Subject: [PATCH 59/72] fix: rf progress plot failed without any signal

---
 pySC/correction/rf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pySC/correction/rf.py b/pySC/correction/rf.py
index a725350..c734b10 100644
--- a/pySC/correction/rf.py
+++ b/pySC/correction/rf.py
@@ -132,7 +132,8 @@ def _plot_progress(data, mean_tbt, phase=True):
     f, ax = plt.subplots(nrows=2, num=2)
     y_scale = 1e6
     ax[0].plot(y_scale * mean_tbt, 'o')
-    ax[0].plot(y_scale * np.arange(len(mean_tbt)) * bpm_shift[~np.isnan(bpm_shift)][-1], '--')
+    if not np.all(np.isnan(bpm_shift)):
+        ax[0].plot(y_scale * np.arange(len(mean_tbt)) * bpm_shift[~np.isnan(bpm_shift)][-1], '--')
     ax[0].set_xlabel('Number of turns')
     ax[0].set_ylabel(r'$\overline{\Delta x}$ [$\mu$m / turn]')
     ax[1].errorbar(test_vec, y_scale * bpm_shift, yerr=y_scale * bpm_shift_err, fmt='o')
-- 
2.43.0


From b8d5199f975185d7c95e2adf6e0c0dd725ce617e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:26 +0000
Subject: [PATCH 60/72] fix: phase space plot with invalid input left the plot
 settings changed

---
 pySC/plotting/plot_phase_space.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/plotting/plot_phase_space.py b/pySC/plotting/plot_phase_space.py
index cf7333a..cdb2475 100644
--- a/pySC/plotting/plot_phase_space.py
+++ b/pySC/plotting/plot_phase_space.py
@@ -7,9 +7,9 @@ from pySC.core.beam import generate_bunches
 
 
 def plot_phase_space(SC, ords=np.zeros(1, dtype=int), custom_bunch=None, nParticles=None, nTurns=None, plotCO=False):
+    z_in, n_particles, n_turns = _check_input(SC, custom_bunch, nParticles, nTurns)
     init_font = plt.rcParams["font.size"]
     plt.rcParams.update({'font.size': 18})
-    z_in, n_particles, n_turns = _check_input(SC, custom_bunch, nParticles, nTurns)
     T = at_wrapper.lattice_track(SC.RING, z_in, n_turns, ords, keep_lattice=False)
     T[:, np.isnan(T[0, :])] = np.nan
     label_str = [r'$\Delta x$ [$\mu$m]', r"$\Delta x'$ [$\mu$rad]", r'$\Delta y$ [$\mu$m]', r"$\Delta y'$ [$\mu$rad]",
-- 
2.43.0


From a39b18daf946156003cf562f8e4fd33b32293e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:26 +0000
Subject: [PATCH 61/72] fix: orbit in magnets (SCgetCOD) could not be evaluated

---
 pySC/lattice_properties/magnet_orbit.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pySC/lattice_properties/magnet_orbit.py b/pySC/lattice_properties/magnet_orbit.py
index 75423f0..1d41c1a 100644
--- a/pySC/lattice_properties/magnet_orbit.py
+++ b/pySC/lattice_properties/magnet_orbit.py
@@ -8,15 +8,15 @@ LOGGER = logging_tools.get_logger(__name__)
 def SCgetCOD(SC, ords=None, plot=False):
     if ords is None:
         ords = SC.ORD.Magnet
-    T = at_wrapper.findorbit6(SC.RING, ords)
-    if any(np.isnan(T)):
+    T = at_wrapper.findorbit6(SC.RING, ords)[1].T
+    if np.any(np.isnan(T)):
         LOGGER.error('Closed orbit could not be found.')
-        COD = np.nan(2, len(ords))
+        COD = np.full((2, len(ords)), np.nan)
         return COD
     magOffset = np.zeros((2, len(ords)))
     for i, ord in enumerate(ords):
-        magOffset[:, i] = SC.RING[ord].T2([1, 3])
-    COD = T[[1, 3], :] - magOffset
+        magOffset[:, i] = SC.RING[ord].T2[[0, 2]]
+    COD = T[[0, 2], :] - magOffset
     if plot:
         sPos = at_wrapper.findspos(SC.RING)[ords]
         ylabelStr = ['$\Delta x$ [mm]', '$\Delta y$ [mm]']
@@ -30,7 +30,7 @@ def SCgetCOD(SC, ords=None, plot=False):
             plt.legend(['COD in magnets', 'Magnet offset', 'Orbit'])
             plt.xlabel('s [m]')
             plt.ylabel(ylabelStr[nDim])
-            plt.gca().set_box(True)
+            plt.gca().set_frame_on(True)
             plt.gca().set_xlim([min(sPos), max(sPos)])
         plt.gcf().set_size_inches(8, 12)
         plt.gcf().set_dpi(100)
-- 
2.43.0


From 5a099ee6aa794c272326cc076203115363d97b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:26 +0000
Subject: [PATCH 62/72] fix: dynamic aperture could not be evaluated (shape of
 the tracked particles, shared start coordinates, energy in the wrong
 coordinate)

---
 pySC/lattice_properties/apertures.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/pySC/lattice_properties/apertures.py b/pySC/lattice_properties/apertures.py
index 7aaf94a..fc8e39d 100644
--- a/pySC/lattice_properties/apertures.py
+++ b/pySC/lattice_properties/apertures.py
@@ -15,12 +15,12 @@ def SCdynamicAperture(RING, dE, bounds=np.array([0, 1e-3]), nturns=1000, thetas=
     ZCO = np.zeros(6)
     if launchOnOrbit:
         if useOrbit6:
-            ZCO = at_wrapper.findorbit6(RING)
+            ZCO = at_wrapper.findorbit6(RING)[0]
         else:
-            tmp = at_wrapper.findorbit4(RING, 0)
+            tmp = at_wrapper.findorbit4(RING, 0)[0]
             if ~np.isnan(tmp[0]):
-                ZCO[0:4] = tmp
-    ZCO[5] = ZCO[5] + dE
+                ZCO[0:4] = tmp[0:4]
+    ZCO[4] = ZCO[4] + dE
     RMAXs = np.full(len(thetas), np.nan)  # Initialize output array
     DA = np.nan
     for cntt in range(len(thetas)):  # Loop over angles
@@ -48,9 +48,9 @@ def SCdynamicAperture(RING, dE, bounds=np.array([0, 1e-3]), nturns=1000, thetas=
     DA = np.sum(np.sin(dthetas) * r0 * r1 / 2.)
     if centerOnOrbit:
         if useOrbit6:
-            tmp = at_wrapper.findorbit6(RING)
+            tmp = at_wrapper.findorbit6(RING)[0]
         else:
-            tmp = at_wrapper.findorbit4(RING, 0)
+            tmp = at_wrapper.findorbit4(RING, 0)[0]
         if not np.isnan(tmp[0]):
             x, y = pol2cart(RMAXs, thetas)
             x = x - tmp[0]
@@ -96,14 +96,14 @@ def SCmomentumAperture(RING, REFPTS, inibounds, nturns=1000, accuracy=1e-4, step
 
 
 def _check_bounds(RING, ZCO, nturns, theta, boundsIn):
-    Zmin = ZCO[:]
+    Zmin = ZCO.copy()
     Zmin[0] = boundsIn[0] * np.cos(theta)
     Zmin[2] = boundsIn[0] * np.sin(theta)
-    Zmax = ZCO[:]
+    Zmax = ZCO.copy()
     Zmax[0] = boundsIn[1] * np.cos(theta)
     Zmax[2] = boundsIn[1] * np.sin(theta)
-    ROUT = at_wrapper.lattice_track(RING, [Zmin, Zmax], nturns, len(RING), keep_lattice=True)  # Track
-    RLAST = ROUT[:, len(ROUT) - 1:len(ROUT)]  # Get positions after last turn
+    ROUT = at_wrapper.lattice_track(RING, np.array([Zmin, Zmax]).T, nturns, len(RING), keep_lattice=True)  # Track
+    RLAST = ROUT[:, :, 0, -1]  # Get positions after last turn
     return ~np.isnan(RLAST[0, 0]) and np.isnan(RLAST[0, 1])
 
 
@@ -111,11 +111,11 @@ def _refine_bounds(RING, ZCO, nturns, theta, boundsIn):
     rmin = boundsIn[0]
     rmax = boundsIn[1]
     rmid = np.mean(boundsIn)
-    Z = ZCO[:]
+    Z = ZCO.copy()
     Z[0] = rmid * np.cos(theta)
     Z[2] = rmid * np.sin(theta)
     ROUT = at_wrapper.lattice_track(RING, Z, nturns, len(RING), keep_lattice=True)  # Track
-    RLAST = ROUT[:, len(ROUT) - 1]  # Get positions after last turn
+    RLAST = ROUT[:, 0, 0, -1]  # Get positions after last turn
     return [rmin, rmid] if np.isnan(RLAST[0]) else [rmid, rmax]  # Midpoint is outside or inside DA
 
 
-- 
2.43.0


From 1ef562b80306e412e1cf2a07f8501b096e22863e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:26 +0000
Subject: [PATCH 63/72] fix: momentum aperture could not be evaluated, changed
 the given bounds and accumulated the offsets

---
 pySC/lattice_properties/apertures.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pySC/lattice_properties/apertures.py b/pySC/lattice_properties/apertures.py
index fc8e39d..9d05d37 100644
--- a/pySC/lattice_properties/apertures.py
+++ b/pySC/lattice_properties/apertures.py
@@ -63,15 +63,15 @@ def SCdynamicAperture(RING, dE, bounds=np.array([0, 1e-3]), nturns=1000, thetas=
 def SCmomentumAperture(RING, REFPTS, inibounds, nturns=1000, accuracy=1e-4, stepsize=1e-3, plot=0):
     dboundHI = np.zeros(len(REFPTS))
     dboundLO = np.zeros(len(REFPTS))
-    ZCOs = at_wrapper.findorbit6(RING, REFPTS)
+    ZCOs = at_wrapper.findorbit6(RING, REFPTS)[1].T
     if any(~np.isfinite(ZCOs.flatten())):
         dbounds = np.array([dboundHI, dboundLO]).T
         LOGGER.info('Closed Orbit could not be determined during MA evaluation. MA set to zero.')
         return dbounds
     for i in range(len(REFPTS)):
         ord = REFPTS[i]
-        local_bounds = inibounds
-        SHIFTRING = RING.rotate(-ord)  # TODO +/-
+        local_bounds = np.array(inibounds, dtype=float)
+        SHIFTRING = RING.rotate(ord)
         ZCO = ZCOs[:, i]
         while not check_bounds(local_bounds, SHIFTRING, ZCO, nturns):
             local_bounds = increment_bounds(local_bounds, stepsize)
@@ -144,9 +144,9 @@ def pol2cart(rho, phi):
 
 def refine_bounds(local_bounds, RING, ZCO, nturns):
     dmean = np.mean(local_bounds)
-    Z0 = ZCO
+    Z0 = ZCO.copy()
     Z0[4] = Z0[4] + dmean
-    ROUT = at_wrapper.lattice_track(RING, Z0, nturns, len(RING))
+    ROUT = at_wrapper.lattice_track(RING, Z0, nturns, len(RING))[:, 0, 0, -1]
     if np.isnan(ROUT[0]):  # Particle dead :(
         local_bounds[1] = dmean  # Set abs-upper bound to midpoint
     else:  # Particle alive :)
@@ -155,9 +155,9 @@ def refine_bounds(local_bounds, RING, ZCO, nturns):
 
 
 def check_bounds(local_bounds, RING, ZCO, nturns):
-    Z = np.array([ZCO, ZCO])
+    Z = np.array([ZCO, ZCO]).T
     Z[4, :] = Z[4, :] + local_bounds[:]
-    ROUT = at_wrapper.lattice_track(RING, Z, nturns, len(RING))
+    ROUT = at_wrapper.lattice_track(RING, Z, nturns, len(RING))[:, :, 0, -1]
     if np.isnan(ROUT[0, 0]) and not np.isnan(ROUT[0, 1]):
         LOGGER.warning('Closer-to-momentum particle is unstable. This shouldnt be!')
     return not np.isnan(ROUT[0, 0]) and np.isnan(ROUT[0, 1])
-- 
2.43.0


From 93d6cb7788650ca1fa559605872fefbfb16db225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:26 +0000
Subject: [PATCH 64/72] fix: defaults of SCplotLattice and SCplotPhaseSpace
 could not be plotted

---
 pySC/matlab_index.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pySC/matlab_index.py b/pySC/matlab_index.py
index 7999857..3715835 100644
--- a/pySC/matlab_index.py
+++ b/pySC/matlab_index.py
@@ -212,13 +212,13 @@ def SCplotCMstrengths(SC: SimulatedCommissioning):
     plot_cm_strengths(SC)
 
 
-def SCplotLattice(SC, /, *, transferLine=0, nSectors=1, oList=[], plotIdealRing=1, sRange=[], plotMagNames=0,
+def SCplotLattice(SC, /, *, transferLine=0, nSectors=1, oList=None, plotIdealRing=1, sRange=None, plotMagNames=0,
                   fontSize=16):
     return plot_lattice(SC, transfer_line=bool(transferLine), n_sectors=nSectors, indices=oList,
                         ideal_ring=bool(plotIdealRing), s_range=sRange, plot_magnet_names=bool(plotMagNames), font_size=fontSize)
 
 
-def SCplotPhaseSpace(SC, /, *, ord=np.zeros(1), customBunch=[], nParticles=None, nTurns=None, plotCO=False):
+def SCplotPhaseSpace(SC, /, *, ord=np.zeros(1, dtype=int), customBunch=None, nParticles=None, nTurns=None, plotCO=False):
     plot_phase_space(SC, ords=ord, custom_bunch=customBunch, nParticles=nParticles, nTurns=nTurns, plotCO=plotCO)
 
 
-- 
2.43.0


From 8e369feb2490c84227971582c4e2c41778c103f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:04 +0000
Subject: [PATCH 65/72] fix: support plot failed for ranges below two metres

---
 pySC/plotting/plot_support.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/plotting/plot_support.py b/pySC/plotting/plot_support.py
index 6b7b1be..29a7d1a 100644
--- a/pySC/plotting/plot_support.py
+++ b/pySC/plotting/plot_support.py
@@ -33,7 +33,7 @@ def plot_support(SC: SimulatedCommissioning, font_size: int = 8, x_lim: Tuple[fl
     if x_lim is None:
         x_lim = (0, circumference)
 
-    s = np.linspace(x_lim[0], x_lim[1], 100 * int((x_lim[1] - x_lim[0]) / 2))  # s locations to compute
+    s = np.linspace(x_lim[0], x_lim[1], 100 * int(np.ceil((x_lim[1] - x_lim[0]) / 2)))  # s locations to compute
     s_mag = s_pos[SC.ORD.Magnet]
     s_bpm = s_pos[SC.ORD.BPM]
 
-- 
2.43.0


From 8b72844ea2532806272dce53057231887ea82705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:23 +0000
Subject: [PATCH 66/72] fix: orbit correction of a lost beam left not-a-number
 setpoints

---
 pySC/correction/orbit_trajectory.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pySC/correction/orbit_trajectory.py b/pySC/correction/orbit_trajectory.py
index e9c2a92..fcd38cb 100644
--- a/pySC/correction/orbit_trajectory.py
+++ b/pySC/correction/orbit_trajectory.py
@@ -287,6 +287,8 @@ def correct(SC, response_matrix, reference=None, cm_ords=None, bpm_ords=None, ep
     bpm_ords, cm_ords, reference = _check_ords(SC, response_matrix[:, :-1] if scaleDisp else response_matrix,
                                                reference, bpm_ords, cm_ords)
     bpm_readings, transmission_history, rms_orbit_history = _bpm_reading_and_logging(SC, bpm_ords=bpm_ords)  # Inject ...
+    if np.any(np.isnan(bpm_readings[0, :])):
+        raise RuntimeError('Orbit/trajectory correction: FAIL (no transmission to begin with)')
     Mplus = sc_tools.pinv(response_matrix, **pinv_params)
 
     # Main loop
-- 
2.43.0


From 4ee3d5f81ad320103a64bcc6f4c3cfe6cc1abf5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:58 +0000
Subject: [PATCH 67/72] fix: apply_lattice_correction returned None instead of
 the machine

---
 pySC/correction/loco_wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/correction/loco_wrapper.py b/pySC/correction/loco_wrapper.py
index 2b8228e..0f87f1d 100644
--- a/pySC/correction/loco_wrapper.py
+++ b/pySC/correction/loco_wrapper.py
@@ -107,7 +107,7 @@ def apply_lattice_correction(SC, fit_parameters, dipole_compensation=True, dampi
                 SC.set_magnet_setpoints(ord, setpoint, False, 1, dipole_compensation=dipole_compensation)
             elif field == 'SetPointA':  # Skew quadrupole
                 SC.set_magnet_setpoints(ord, setpoint, True, 1)
-    SC = SC.update_magnets(SC.ORD.Magnet)
+    SC.update_magnets(SC.ORD.Magnet)
     return SC
 
 
-- 
2.43.0


From 87a9731b966c4ba7e60202fce79794f2fb2ca26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:59 +0000
Subject: [PATCH 68/72] fix: loco_fit_parameters could not be called (unfilled
 structures, elements indexed by field name)

---
 pySC/correction/loco_wrapper.py | 36 ++++++++++++++-------------------
 1 file changed, 15 insertions(+), 21 deletions(-)

diff --git a/pySC/correction/loco_wrapper.py b/pySC/correction/loco_wrapper.py
index 0f87f1d..137a9d4 100644
--- a/pySC/correction/loco_wrapper.py
+++ b/pySC/correction/loco_wrapper.py
@@ -72,27 +72,21 @@ def loco_fit_parameters(SC, RING0, RINGdata, DeltaRF, *args):
     fit_parameters = DotDict()
     fit_parameters.FitRFFrequency = True
     fit_parameters.DeltaRF = DeltaRF
-    n_group = 0
-    for nFam in range(len(args)):
-        n_elem = 0
-        for ord in args[nFam][0]:
-            (fname, sc_fname) = ('PolynomA', 'SetPointA') if args[nFam][1] else ('PolynomB', 'SetPointB')
-            fit_parameters.Params[n_group][0][n_elem].FieldName = fname
-            fit_parameters.Params[n_group][0][n_elem].SCFieldName = sc_fname
-            fit_parameters.Params[n_group][0][n_elem].ElemIndex = ord
-            fit_parameters.Params[n_group][0][n_elem].FieldIndex = np.arange(2)
-            fit_parameters.Params[n_group][0][n_elem].Function = lambda x: x
-            fit_parameters.Params[n_group][0][n_elem].Args = []
-            fit_parameters.Values[n_group][0] = RINGdata.Lattice[ord][fit_parameters.Params[n_group][0][n_elem].FieldName][2]
-            fit_parameters.IdealValues[n_group][0] = SC.IDEALRING[ord][fit_parameters.Params[n_group][0][n_elem].FieldName][2]
-            fit_parameters.OrigValues[n_group][0] = RING0[ord][fit_parameters.Params[n_group][0][n_elem].SCFieldName][2]
-            fit_parameters.Deltas[n_group][0] = args[nFam][4]
-            if args[nFam][3] == 'family':
-                n_elem = n_elem + 1
-                if ord == args[nFam][0][-1]:
-                    n_group = n_group + 1
-            else:
-                n_group = n_group + 1
+    fit_parameters.Params = []
+    values = []  # per group: fitted (initially ideal), ideal and original value, step
+    for ords, skewness, grouping, delta in args:
+        (fname, sc_fname) = ('PolynomA', 'SetPointA') if skewness else ('PolynomB', 'SetPointB')
+        for i, ord in enumerate(ords):
+            if i == 0 or grouping != 'family':
+                fit_parameters.Params.append([])
+                values.append(None)
+            fit_parameters.Params[-1].append(DotDict(FieldName=fname, SCFieldName=sc_fname, ElemIndex=ord,
+                                                     FieldIndex=np.arange(2), Function=lambda x: x, Args=[]))
+            values[-1] = (getattr(RINGdata.Lattice[ord], fname)[1], getattr(SC.IDEALRING[ord], fname)[1],
+                          getattr(RING0[ord], sc_fname)[1], delta)
+    values = np.array(values, dtype=float).reshape(-1, 4)
+    fit_parameters.Values, fit_parameters.IdealValues = values[:, 0].copy(), values[:, 1].copy()
+    fit_parameters.OrigValues, fit_parameters.Deltas = values[:, 2].copy(), values[:, 3].copy()
     return fit_parameters
 
 
-- 
2.43.0


From 9406e976e1adc3fd8efe2d5e0f4281748cdcec72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:47 +0000
Subject: [PATCH 69/72] fix: verify_structure refused consistent machines with
 scalar or shorter calibration errors once errors are applied

---
 pySC/core/simulated_commissioning.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pySC/core/simulated_commissioning.py b/pySC/core/simulated_commissioning.py
index 2de230e..85944d3 100644
--- a/pySC/core/simulated_commissioning.py
+++ b/pySC/core/simulated_commissioning.py
@@ -1009,10 +1009,11 @@ class SimulatedCommissioning:
         for ord in self.ORD.Magnet:
             if len(self.RING[ord].PolynomB) != len(self.RING[ord].PolynomA):
                 raise ValueError(f'Length of PolynomB and PolynomA are not equal (Magnet ord: {ord:d})')
-            elif len(self.RING[ord].SetPointB) != len(self.RING[ord].CalErrorB): # TODO: make consistent with _updateMagnets (calError adn Setpoints could get mult_padded)
-                raise ValueError(f'Length of SetPointB and CalErrorB are not equal (Magnet ord: {ord:d})')
-            elif len(self.RING[ord].SetPointA) != len(self.RING[ord].CalErrorA):
-                raise ValueError(f'Length of SetPointA and CalErrorA are not equal (Magnet ord: {ord:d})')
+            # shorter calibration errors (or scalars) are padded in _update_magnets
+            elif len(self.RING[ord].SetPointB) < np.size(self.RING[ord].CalErrorB):
+                raise ValueError(f'CalErrorB is longer than SetPointB (Magnet ord: {ord:d})')
+            elif len(self.RING[ord].SetPointA) < np.size(self.RING[ord].CalErrorA):
+                raise ValueError(f'CalErrorA is longer than SetPointA (Magnet ord: {ord:d})')
             if hasattr(self.RING[ord],'PolynomBOffset') and len(self.RING[ord].PolynomBOffset) != len(self.RING[ord].PolynomAOffset):
                     raise ValueError(f'Length of PolynomBOffset and PolynomAOffset are not equal (Magnet ord: {ord:d})')
             if hasattr(self.RING[ord],'CombinedFunction') and self.RING[ord].CombinedFunction:
-- 
2.43.0


From 3a336c7081ed7e8c7eaca479102037bb513fb5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:47 +0000
Subject: [PATCH 70/72] fix: verify_structure named the master as child and the
 child as master

---
 pySC/core/simulated_commissioning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/core/simulated_commissioning.py b/pySC/core/simulated_commissioning.py
index 85944d3..435cb2c 100644
--- a/pySC/core/simulated_commissioning.py
+++ b/pySC/core/simulated_commissioning.py
@@ -1033,7 +1033,7 @@ class SimulatedCommissioning:
                 for cOrd in self.RING[ord].MasterOf:
                     for field in vars(self.RING[cOrd]):
                         if not hasattr(self.RING[ord],field): 
-                            LOGGER.warning(f'Child magnet (ord: {ord:d}) has different field "{field:s}" than master magnet (ord: %{cOrd:d}).')
+                            LOGGER.warning(f'Child magnet (ord: {cOrd:d}) has different field "{field:s}" than master magnet (ord: {ord:d}).')
        
         if len(self.ORD.RF) == 0:
             LOGGER.warning('No cavity registered. Use "SCregisterCavity".')
-- 
2.43.0


From cfd65ea935ff49c377f3d5ed51036ebe1f09ef3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:02 +0000
Subject: [PATCH 71/72] fix: beam-based alignment took the variance of the
 slopes for their error, so that centres from downstream BPMs without any
 response dominated the result

---
 pySC/correction/bba.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/correction/bba.py b/pySC/correction/bba.py
index f822637..f9926f6 100644
--- a/pySC/correction/bba.py
+++ b/pySC/correction/bba.py
@@ -160,7 +160,7 @@ def _data_evaluation(SC, bpm_pos, trajectories, mag_vec, n_dim, m_ord, par):
                 continue
             # TODO once the position errors are calculated and propagated, should be used
             p, pcov = np.polyfit(mag_vec[y_mask], y[y_mask], 1, w=np.ones(int(np.sum(y_mask))) / err, cov='unscaled')
-            tmp_slope[i, j], tmp_slope_err[i, j] = p[0], pcov[0, 0]
+            tmp_slope[i, j], tmp_slope_err[i, j] = p[0], np.sqrt(pcov[0, 0])
 
     for j in range(min(new_tmp_tra.shape[2], par.num_downstream_bpms)):
         y = tmp_slope[:, j]
-- 
2.43.0


From 2c2461a0d2e13c868c15adfbd2f2b75d91c43d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:38 +0000
Subject: [PATCH 72/72] fix: read_multipoles failed where it announces to
 continue with the first component as the nominal one

---
 pySC/utils/sc_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/utils/sc_tools.py b/pySC/utils/sc_tools.py
index ab1027d..82e0adc 100644
--- a/pySC/utils/sc_tools.py
+++ b/pySC/utils/sc_tools.py
@@ -159,7 +159,7 @@ def read_multipoles(fname):  # TODO sample of the input anywhere?
     idx = np.where(AB == 1)
     if len(idx[0]) != 1:
         LOGGER.warning('Nominal order could not be (uniquely) determined. Continuing with idx=1.')
-        idx = 1
+        idx = (np.array([0]), np.array([0]))
     order, type = idx[0][0], idx[1][0]
     if type > 2:
         LOGGER.error('Ill-defined magnet type.')
-- 
2.43.0

