From d0c0142d6979660b4aa2286b4d1741aa135cd82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:35 +0000
Subject: [PATCH 001/107] fix: NamedValues.copy() shared its storage with the
 original

---
 aviary/utils/named_values.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/aviary/utils/named_values.py b/aviary/utils/named_values.py
index 0a38a78..9b09dbb 100644
--- a/aviary/utils/named_values.py
+++ b/aviary/utils/named_values.py
@@ -95,7 +95,10 @@ class NamedValues(Collection):
         -------
         NamedValues()
         """
-        return copy.copy(self)
+        new = copy.copy(self)
+        # the copy needs its own mapping, or setting a value on it would change the original
+        new._mapping = self._mapping.copy()
+        return new
 
     def deepcopy(self):
         """
-- 
2.43.0


From 281b434cea398e1f2c5348b7a0e8e0c7e33453c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:48 +0000
Subject: [PATCH 002/107] fix: numbers in scientific notation without a decimal
 point were read as strings

---
 aviary/utils/functions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/aviary/utils/functions.py b/aviary/utils/functions.py
index f5aae7c..17859df 100644
--- a/aviary/utils/functions.py
+++ b/aviary/utils/functions.py
@@ -113,7 +113,10 @@ def convert_strings_to_data(input_string):
             # if the value is a number store it as a float or an int as appropriate
             # BUG this returns floats that can be converted to int (e.g. 1.0) as an
             # int (1), even if the variable requires floats
-            value_list[ii] = int(dat) if '.' not in dat else float(dat)
+            try:
+                value_list[ii] = int(dat)
+            except ValueError:
+                value_list[ii] = float(dat)
         except ValueError:
             # store value as a boolean if it is a string that represents True or False
             if dat.lower() == 'true':
-- 
2.43.0


From 8c6a59c1bb38361eb75e64789aee1bfd8c4a7ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:48 +0000
Subject: [PATCH 003/107] fix: custom metadata was not passed to
 preprocess_options

---
 aviary/core/aviary_group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aviary/core/aviary_group.py b/aviary/core/aviary_group.py
index 7f56f0d..1cc3f5d 100644
--- a/aviary/core/aviary_group.py
+++ b/aviary/core/aviary_group.py
@@ -466,7 +466,7 @@ class AviaryGroup(om.Group):
             aviary_inputs,
             engine_models=self.engine_models,
             verbosity=verbosity,
-            metadata=self.meta_data,
+            meta_data=self.meta_data,
         )
 
         self.initialization_guesses = initialization_guessing(
-- 
2.43.0


From 3679ad5ca5d39392c664451f5a3cce15c1da16d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:48 +0000
Subject: [PATCH 004/107] fix: add_aviary_group never raised its error on a
 single-mission problem

---
 aviary/core/aviary_problem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aviary/core/aviary_problem.py b/aviary/core/aviary_problem.py
index f4b1f42..9199765 100644
--- a/aviary/core/aviary_problem.py
+++ b/aviary/core/aviary_problem.py
@@ -293,7 +293,7 @@ class AviaryProblem(om.Problem):
         verbosity = self._override_verbosity(verbosity)
 
         if self.problem_type is not ProblemType.MULTI_MISSION:
-            ValueError(
+            raise ValueError(
                 'add_aviary_group() should only be called when ProblemType is MULTI_MISSION.'
             )
 
-- 
2.43.0


From cdf4ef2d20dc8dfc777354a5144e8e089d7416ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:48 +0000
Subject: [PATCH 005/107] fix: problem setup modified the caller's (or the
 default) phase_info, changing later problems

---
 aviary/core/aviary_group.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/aviary/core/aviary_group.py b/aviary/core/aviary_group.py
index 1cc3f5d..30f8f5d 100644
--- a/aviary/core/aviary_group.py
+++ b/aviary/core/aviary_group.py
@@ -59,6 +59,13 @@ FLOPS = LegacyCode.FLOPS
 GASP = LegacyCode.GASP
 
 
+def _copy_nested_dicts(data):
+    """Return a copy of a dictionary and any dictionaries nested in it. Other values are shared."""
+    return {
+        key: _copy_nested_dicts(val) if isinstance(val, dict) else val for key, val in data.items()
+    }
+
+
 class AviaryGroup(om.Group):
     """
     A standard OpenMDAO group where all elements of a given aviary aircraft design and mission are
@@ -350,6 +357,10 @@ class AviaryGroup(om.Group):
                     'of motion.'
                 )
 
+        # The phase_info dictionaries are modified during problem setup. Work on a copy, so changes
+        # do not leak into the user's (or the default) phase_info and every problem built from it
+        phase_info = _copy_nested_dicts(phase_info)
+
         # create a new dictionary that only contains the phases from phase_info
         self.mission_info = {}
 
-- 
2.43.0


From 63f82fa5bf71428ac3511de70ed32cd21b443bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:09 +0000
Subject: [PATCH 006/107] fix: off-design and payload-range runs modified the
 phase_info of the sized aircraft

---
 aviary/core/aviary_problem.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/aviary/core/aviary_problem.py b/aviary/core/aviary_problem.py
index 9199765..3b5c62f 100644
--- a/aviary/core/aviary_problem.py
+++ b/aviary/core/aviary_problem.py
@@ -1535,6 +1535,9 @@ class AviaryProblem(om.Problem):
                     )
                 mission_range = self.get_val(Mission.RANGE, units='NM')[0]
 
+            # don't add the range to a phase_info that belongs to the user
+            phase_info = phase_info.copy()
+            phase_info['post_mission'] = phase_info['post_mission'].copy()
             phase_info['post_mission']['target_range'] = (
                 mission_range,
                 'nmi',
@@ -1702,6 +1705,10 @@ class AviaryProblem(om.Problem):
             phase_info = self.model.mission_info.copy()
             phase_info['pre_mission'] = self.model.pre_mission_info.copy()
             phase_info['post_mission'] = self.model.post_mission_info.copy()
+            if 'cruise' in phase_info:
+                # the cruise options are changed below
+                phase_info['cruise'] = phase_info['cruise'].copy()
+                phase_info['cruise']['user_options'] = phase_info['cruise']['user_options'].copy()
             # This checks if the 'cruise' phase exists, then automatically extends duration bounds
             # of the cruise stage to allow for the longer off design missions.
             if phase_info['cruise']:
-- 
2.43.0


From 2491e30fea75e94a210069486f52b9ecca29cd78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:09 +0000
Subject: [PATCH 007/107] fix: an invalid time_duration raised a TypeError
 instead of its error message

---
 aviary/core/aviary_group.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aviary/core/aviary_group.py b/aviary/core/aviary_group.py
index 30f8f5d..4f06381 100644
--- a/aviary/core/aviary_group.py
+++ b/aviary/core/aviary_group.py
@@ -441,8 +441,8 @@ class AviaryGroup(om.Group):
                     if time_duration <= 0:
                         raise ValueError(
                             f'Invalid time_duration in phase_info[{phase_name}]'
-                            f'[user_options]. Current (value: {time_duration[0]}), '
-                            f'(units: {time_duration[1]}) <= 0")'
+                            f'[user_options]. Current (value: {time_duration}), '
+                            f'(units: {units}) <= 0")'
                         )
 
                     if 'initial_guesses' not in phase:
-- 
2.43.0


From 2f46a4753a63785e60702d409ec62723bfabfb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:10 +0000
Subject: [PATCH 008/107] fix: save_results replaced lists of enums and paths
 in the problem's aviary_inputs

---
 aviary/core/aviary_problem.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/aviary/core/aviary_problem.py b/aviary/core/aviary_problem.py
index 3b5c62f..b7a8649 100644
--- a/aviary/core/aviary_problem.py
+++ b/aviary/core/aviary_problem.py
@@ -1915,13 +1915,12 @@ class AviaryProblem(om.Problem):
                         value = value.tolist()
 
                     # Lists are fine except if they contain enums or Paths
-                    if type_value is list:
+                    # (build new lists, the originals still belong to aviary_inputs)
+                    if type_value is list and len(value) > 0:
                         if isinstance(value[0], Enum):
-                            for i in range(len(value)):
-                                value[i] = value[i].name
+                            value = [val.name for val in value]
                         elif isinstance(value[0], Path):
-                            for i in range(len(value)):
-                                value[i] = str(value[i])
+                            value = [str(val) for val in value]
 
                     # Enums and Paths need converting to a string
                     if isinstance(value, Enum):
-- 
2.43.0


From 7f923463255456408c17d71786b180e1bb186712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:10 +0000
Subject: [PATCH 009/107] fix: data file reading and writing modified the
 caller's aliases and comments

---
 aviary/utils/csv_data_file.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/aviary/utils/csv_data_file.py b/aviary/utils/csv_data_file.py
index 4498bbe..88d3590 100644
--- a/aviary/utils/csv_data_file.py
+++ b/aviary/utils/csv_data_file.py
@@ -68,6 +68,8 @@ def read_data_file(
 
     # prep aliases for case-insensitive matching, with spaces == underscores
     if aliases:
+        # don't change the dictionary provided by the caller
+        aliases = aliases.copy()
         for key in aliases:
             if isinstance(aliases[key], str):
                 aliases[key] = [aliases[key]]
@@ -255,6 +257,9 @@ def write_data_file(
 
     if type(comments) is str:
         comments = [comments]
+    else:
+        # don't change the list provided by the caller
+        comments = list(comments)
 
     # strip '#' from comments - np.savetxt() will automatically add them
     for idx, line in enumerate(comments):
-- 
2.43.0


From 862d78939886c3bebfb0199bbef79eba9f2c1770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:23 +0000
Subject: [PATCH 010/107] fix: an engine left without a mount location when no
 other engine is wing-mounted was not counted

---
 aviary/utils/preprocessors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aviary/utils/preprocessors.py b/aviary/utils/preprocessors.py
index ef2be90..c0fa43a 100644
--- a/aviary/utils/preprocessors.py
+++ b/aviary/utils/preprocessors.py
@@ -937,7 +937,7 @@ def preprocess_propulsion(
                         'Mount location was not defined for all engines of EngineModel '
                         f'<{eng_name}> - unspecified engines are assumed wing-mounted.'
                     )
-            elif num_unspecified_engines == 1 and num_wing_engines != 0:
+            elif num_unspecified_engines == 1:
                 num_fuse_engines_all[i] = num_fuse_engines + num_unspecified_engines
                 if verbosity >= Verbosity.VERBOSE:  # VERBOSE, DEBUG
                     warnings.warn(
-- 
2.43.0


From a5100322b3a3e99938ca238ba3d73908f7197536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:51 +0000
Subject: [PATCH 011/107] fix: AeroGeom did not declare derivatives of SA7 with
 respect to the drag factors and strut chord

---
 aviary/subsystems/aerodynamics/gasp_based/gaspaero.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/aviary/subsystems/aerodynamics/gasp_based/gaspaero.py b/aviary/subsystems/aerodynamics/gasp_based/gaspaero.py
index cc5c2ac..78db378 100644
--- a/aviary/subsystems/aerodynamics/gasp_based/gaspaero.py
+++ b/aviary/subsystems/aerodynamics/gasp_based/gaspaero.py
@@ -857,6 +857,7 @@ class AeroGeom(om.ExplicitComponent):
             Aircraft.Fuselage.FLAT_PLATE_AREA_INCREMENT,
             Aircraft.Wing.TAPER_RATIO,
             Aircraft.Strut.AREA_RATIO,
+            Aircraft.Strut.CHORD,
             Aircraft.Wing.AVERAGE_CHORD,
             Aircraft.HorizontalTail.AVERAGE_CHORD,
             Aircraft.VerticalTail.AVERAGE_CHORD,
@@ -889,7 +890,10 @@ class AeroGeom(om.ExplicitComponent):
         )
         self.declare_partials(
             'SA7',
-            most_params + [Aircraft.Wing.ASPECT_RATIO, Aircraft.Wing.SWEEP] + ['siwb'],
+            most_params
+            + drag_factors
+            + [Aircraft.Wing.ASPECT_RATIO, Aircraft.Wing.SWEEP]
+            + ['siwb'],
             method='cs',
         )
 
-- 
2.43.0


From bdabe69b64742ac4b9b9da45ea963597d4c42bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:23 +0000
Subject: [PATCH 012/107] fix: derivatives of the GASP tail masses left out the
 tail mass scalers

---
 aviary/subsystems/mass/gasp_based/fixed.py | 83 +++++++++++++++-------
 1 file changed, 56 insertions(+), 27 deletions(-)

diff --git a/aviary/subsystems/mass/gasp_based/fixed.py b/aviary/subsystems/mass/gasp_based/fixed.py
index 7de2945..e28f578 100644
--- a/aviary/subsystems/mass/gasp_based/fixed.py
+++ b/aviary/subsystems/mass/gasp_based/fixed.py
@@ -660,6 +660,7 @@ class HorizontalTailMass(om.ExplicitComponent):
         htail_mom_arm = inputs[Aircraft.HorizontalTail.MOMENT_ARM]
         tc_ratio_root_htail = inputs[Aircraft.HorizontalTail.THICKNESS_TO_CHORD]
         root_chord_htail = inputs[Aircraft.HorizontalTail.ROOT_CHORD]
+        CK9 = inputs[Aircraft.HorizontalTail.MASS_SCALER]
 
         FH = (
             gross_wt_initial
@@ -725,7 +726,8 @@ class HorizontalTailMass(om.ExplicitComponent):
         )
 
         J[Aircraft.HorizontalTail.MASS, Aircraft.HorizontalTail.AREA] = (
-            350.0
+            CK9
+            * 350.0
             / GRAV_ENGLISH_LBM
             * 0.54
             * (
@@ -737,7 +739,8 @@ class HorizontalTailMass(om.ExplicitComponent):
             * htail_area ** (-0.46)
         )
         J[Aircraft.HorizontalTail.MASS, Aircraft.Design.GROSS_MASS] = (
-            350.0
+            CK9
+            * 350.0
             * 0.54
             * (
                 htail_area
@@ -749,7 +752,8 @@ class HorizontalTailMass(om.ExplicitComponent):
             * dFH_dGrossWtInitial
         )
         J[Aircraft.HorizontalTail.MASS, Aircraft.HorizontalTail.MASS_COEFFICIENT] = (
-            350.0
+            CK9
+            * 350.0
             / GRAV_ENGLISH_LBM
             * 0.54
             * (
@@ -762,7 +766,8 @@ class HorizontalTailMass(om.ExplicitComponent):
             * dFH_dCoefHtail
         )
         J[Aircraft.HorizontalTail.MASS, Aircraft.Fuselage.LENGTH] = (
-            350.0
+            CK9
+            * 350.0
             / GRAV_ENGLISH_LBM
             * 0.54
             * (
@@ -775,7 +780,8 @@ class HorizontalTailMass(om.ExplicitComponent):
             * dFH_dFusLen
         )
         J[Aircraft.HorizontalTail.MASS, Aircraft.HorizontalTail.SPAN] = (
-            350.0
+            CK9
+            * 350.0
             / GRAV_ENGLISH_LBM
             * 0.54
             * (
@@ -788,7 +794,8 @@ class HorizontalTailMass(om.ExplicitComponent):
             * dFH_dSpanHtail
         )
         J[Aircraft.HorizontalTail.MASS, Aircraft.LandingGear.TAIL_HOOK_MASS_SCALER] = (
-            350.0
+            CK9
+            * 350.0
             / GRAV_ENGLISH_LBM
             * 0.54
             * (
@@ -801,7 +808,8 @@ class HorizontalTailMass(om.ExplicitComponent):
             * dFH_dHookFac
         )
         J[Aircraft.HorizontalTail.MASS, Aircraft.HorizontalTail.TAPER_RATIO] = (
-            350.0
+            CK9
+            * 350.0
             / GRAV_ENGLISH_LBM
             * 0.54
             * (
@@ -814,7 +822,8 @@ class HorizontalTailMass(om.ExplicitComponent):
             * dFH_dTaperRatioHtail
         )
         J[Aircraft.HorizontalTail.MASS, 'min_dive_vel'] = (
-            350.0
+            CK9
+            * 350.0
             / GRAV_ENGLISH_LBM
             * 0.54
             * (htail_area * FH / (100.0 * htail_mom_arm * tc_ratio_root_htail * root_chord_htail))
@@ -823,7 +832,8 @@ class HorizontalTailMass(om.ExplicitComponent):
             / (min_dive_vel * np.log(10))
         )
         J[Aircraft.HorizontalTail.MASS, Aircraft.HorizontalTail.MOMENT_ARM] = (
-            350.0
+            CK9
+            * 350.0
             / GRAV_ENGLISH_LBM
             * (
                 htail_area
@@ -836,7 +846,8 @@ class HorizontalTailMass(om.ExplicitComponent):
             * htail_mom_arm ** (-1.54)
         )
         J[Aircraft.HorizontalTail.MASS, Aircraft.HorizontalTail.THICKNESS_TO_CHORD] = (
-            350.0
+            CK9
+            * 350.0
             / GRAV_ENGLISH_LBM
             * (
                 htail_area
@@ -849,7 +860,8 @@ class HorizontalTailMass(om.ExplicitComponent):
             * tc_ratio_root_htail ** (-1.54)
         )
         J[Aircraft.HorizontalTail.MASS, Aircraft.HorizontalTail.ROOT_CHORD] = (
-            350.0
+            CK9
+            * 350.0
             / GRAV_ENGLISH_LBM
             * (
                 htail_area
@@ -1025,6 +1037,7 @@ class VerticalTailMass(om.ExplicitComponent):
         vtail_mom_arm = inputs[Aircraft.VerticalTail.MOMENT_ARM]
         tc_ratio_root_vtail = inputs[Aircraft.VerticalTail.THICKNESS_TO_CHORD]
         root_chord_vtail = inputs[Aircraft.VerticalTail.ROOT_CHORD]
+        CK10 = inputs[Aircraft.VerticalTail.MASS_SCALER]
 
         tan_sweep_vtail_LE = (1.0 - taper_ratio_vtail) / (
             1.0 + taper_ratio_vtail
@@ -1195,36 +1208,43 @@ class VerticalTailMass(om.ExplicitComponent):
         )
 
         J[Aircraft.VerticalTail.MASS, Aircraft.Design.GROSS_MASS] = (
-            temp
+            CK10
+            * temp
             * 0.54
             * (FV + htail_loc * FH / 2.0) ** (-0.46)
             * (dFV_dGrossWtInitial + htail_loc * dFH_dGrossWtInitial / 2)
         )
         J[Aircraft.VerticalTail.MASS, Aircraft.VerticalTail.MASS_COEFFICIENT] = (
-            temp * 0.54 * (FV + htail_loc * FH / 2.0) ** (-0.46) * dFV_dCoefVtail / GRAV_ENGLISH_LBM
+            CK10
+            * temp * 0.54 * (FV + htail_loc * FH / 2.0) ** (-0.46) * dFV_dCoefVtail / GRAV_ENGLISH_LBM
         )
         J[Aircraft.VerticalTail.MASS, Aircraft.Fuselage.LENGTH] = (
-            temp
+            CK10
+            * temp
             / GRAV_ENGLISH_LBM
             * 0.54
             * (FV + htail_loc * FH / 2.0) ** (-0.46)
             * (dFV_dFusLen + htail_loc * dFH_dFusLen / 2)
         )
         J[Aircraft.VerticalTail.MASS, Aircraft.Wing.SPAN] = (
-            temp * 0.54 * (FV + htail_loc * FH / 2.0) ** (-0.46) * dFV_dWingspan / GRAV_ENGLISH_LBM
+            CK10
+            * temp * 0.54 * (FV + htail_loc * FH / 2.0) ** (-0.46) * dFV_dWingspan / GRAV_ENGLISH_LBM
         )
         J[Aircraft.VerticalTail.MASS, Aircraft.VerticalTail.SPAN] = (
-            temp * 0.54 * (FV + htail_loc * FH / 2.0) ** (-0.46) * dFV_dSpanVtail / GRAV_ENGLISH_LBM
+            CK10
+            * temp * 0.54 * (FV + htail_loc * FH / 2.0) ** (-0.46) * dFV_dSpanVtail / GRAV_ENGLISH_LBM
         )
         J[Aircraft.VerticalTail.MASS, Aircraft.VerticalTail.TAPER_RATIO] = (
-            temp
+            CK10
+            * temp
             * 0.54
             * (FV + htail_loc * FH / 2.0) ** (-0.46)
             * dFV_dTaperRatioVtail
             / GRAV_ENGLISH_LBM
         )
         J[Aircraft.VerticalTail.MASS, Aircraft.HorizontalTail.MASS_COEFFICIENT] = (
-            temp
+            CK10
+            * temp
             / GRAV_ENGLISH_LBM
             * 0.54
             * (FV + htail_loc * FH / 2.0) ** (-0.46)
@@ -1233,7 +1253,8 @@ class VerticalTailMass(om.ExplicitComponent):
             / 2
         )
         J[Aircraft.VerticalTail.MASS, Aircraft.HorizontalTail.SPAN] = (
-            temp
+            CK10
+            * temp
             / GRAV_ENGLISH_LBM
             * 0.54
             * (FV + htail_loc * FH / 2.0) ** (-0.46)
@@ -1242,7 +1263,8 @@ class VerticalTailMass(om.ExplicitComponent):
             / 2
         )
         J[Aircraft.VerticalTail.MASS, Aircraft.LandingGear.TAIL_HOOK_MASS_SCALER] = (
-            temp
+            CK10
+            * temp
             / GRAV_ENGLISH_LBM
             * 0.54
             * (FV + htail_loc * FH / 2.0) ** (-0.46)
@@ -1251,7 +1273,8 @@ class VerticalTailMass(om.ExplicitComponent):
             / 2
         )
         J[Aircraft.VerticalTail.MASS, Aircraft.HorizontalTail.TAPER_RATIO] = (
-            temp
+            CK10
+            * temp
             / GRAV_ENGLISH_LBM
             * 0.54
             * (FV + htail_loc * FH / 2.0) ** (-0.46)
@@ -1260,7 +1283,8 @@ class VerticalTailMass(om.ExplicitComponent):
             / 2
         )
         J[Aircraft.VerticalTail.MASS, Aircraft.HorizontalTail.VERTICAL_TAIL_MOUNT_LOCATION] = (
-            380.0
+            CK10
+            * 380.0
             / GRAV_ENGLISH_LBM
             * (
                 vtail_area
@@ -1274,7 +1298,8 @@ class VerticalTailMass(om.ExplicitComponent):
             / 2
         )
         J[Aircraft.VerticalTail.MASS, Aircraft.VerticalTail.AREA] = (
-            380.0
+            CK10
+            * 380.0
             / GRAV_ENGLISH_LBM
             * (
                 (FV + htail_loc * FH / 2.0)
@@ -1286,7 +1311,8 @@ class VerticalTailMass(om.ExplicitComponent):
             * vtail_area ** (-0.46)
         )
         J[Aircraft.VerticalTail.MASS, 'min_dive_vel'] = (
-            380.0
+            CK10
+            * 380.0
             / GRAV_ENGLISH_LBM
             * (
                 (FV + htail_loc * FH / 2.0)
@@ -1299,7 +1325,8 @@ class VerticalTailMass(om.ExplicitComponent):
             / (min_dive_vel * np.log(10))
         )
         J[Aircraft.VerticalTail.MASS, Aircraft.VerticalTail.MOMENT_ARM] = (
-            380.0
+            CK10
+            * 380.0
             / GRAV_ENGLISH_LBM
             * (
                 (FV + htail_loc * FH / 2.0)
@@ -1312,7 +1339,8 @@ class VerticalTailMass(om.ExplicitComponent):
             * vtail_mom_arm ** (-1.54)
         )
         J[Aircraft.VerticalTail.MASS, Aircraft.VerticalTail.THICKNESS_TO_CHORD] = (
-            380.0
+            CK10
+            * 380.0
             / GRAV_ENGLISH_LBM
             * (
                 (FV + htail_loc * FH / 2.0)
@@ -1325,7 +1353,8 @@ class VerticalTailMass(om.ExplicitComponent):
             * tc_ratio_root_vtail ** (-1.54)
         )
         J[Aircraft.VerticalTail.MASS, Aircraft.VerticalTail.ROOT_CHORD] = (
-            380.0
+            CK10
+            * 380.0
             / GRAV_ENGLISH_LBM
             * (
                 (FV + htail_loc * FH / 2.0)
-- 
2.43.0


From cc85b40e4195c421e0e5cc5e360cbd5f555ca22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:18 +0000
Subject: [PATCH 013/107] fix: BWB load path sweep derivatives were assigned to
 the wrong stations

---
 aviary/subsystems/geometry/flops_based/wing_detailed_bwb.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aviary/subsystems/geometry/flops_based/wing_detailed_bwb.py b/aviary/subsystems/geometry/flops_based/wing_detailed_bwb.py
index 7293e37..ba33fe9 100644
--- a/aviary/subsystems/geometry/flops_based/wing_detailed_bwb.py
+++ b/aviary/subsystems/geometry/flops_based/wing_detailed_bwb.py
@@ -118,8 +118,8 @@ class BWBUpdateDetailedWingDist(om.ExplicitComponent):
                 val=1,
             )
 
-            rows = np.arange(nn - 3) + 2
-            cols = np.arange(nn - 3) + 1
+            rows = np.arange(nn - 2) + 1
+            cols = np.arange(nn - 2)
             self.declare_partials(
                 'BWB_LOAD_PATH_SWEEP_DISTRIBUTION',
                 Aircraft.Wing.LOAD_PATH_SWEEP_DISTRIBUTION,
-- 
2.43.0


From cc74c40cd346922ac68c1de6f1f1ee668d14e9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:18 +0000
Subject: [PATCH 014/107] fix: main gear length derivatives with more than one
 wing location or unnormalized locations

---
 .../subsystems/geometry/flops_based/landing_gear.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/aviary/subsystems/geometry/flops_based/landing_gear.py b/aviary/subsystems/geometry/flops_based/landing_gear.py
index 791fc71..a7f34aa 100644
--- a/aviary/subsystems/geometry/flops_based/landing_gear.py
+++ b/aviary/subsystems/geometry/flops_based/landing_gear.py
@@ -144,7 +144,7 @@ class MainGearLength(om.ExplicitComponent):
                 yee = y_eng_aft
 
             dyee_dwel = 1.0
-            dyee_dspan = 1.0
+            dyee_dspan = 0.0
             if yee < 1.0:
                 dyee_dwel = 6.0 * inputs[Aircraft.Wing.SPAN]
                 dyee_dspan = 6.0 * yee
@@ -184,13 +184,20 @@ class MainGearLength(om.ExplicitComponent):
                 dcmlg_dhw * dhw_dfuse_wid
             )
 
+            # only the first engine model and the first wing location are used
+            partials[Aircraft.LandingGear.MAIN_GEAR_OLEO_LENGTH, Aircraft.Nacelle.AVG_DIAMETER] = (
+                0.0
+            )
             partials[Aircraft.LandingGear.MAIN_GEAR_OLEO_LENGTH, Aircraft.Nacelle.AVG_DIAMETER][
-                :
+                0, 0
             ] = dcmlg_dnac
 
             partials[Aircraft.LandingGear.MAIN_GEAR_OLEO_LENGTH, Aircraft.Engine.WING_LOCATIONS] = (
-                dcmlg_dyee * dyee_dwel
+                0.0
             )
+            partials[Aircraft.LandingGear.MAIN_GEAR_OLEO_LENGTH, Aircraft.Engine.WING_LOCATIONS][
+                0, 0
+            ] = (dcmlg_dyee * dyee_dwel).item()
 
             partials[Aircraft.LandingGear.MAIN_GEAR_OLEO_LENGTH, Aircraft.Wing.DIHEDRAL] = (
                 dcmlg_dtan * dtan_dih
-- 
2.43.0


From c8e8f22d6270ffa80605ca4d88d0e2c3d6315492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:18 +0000
Subject: [PATCH 015/107] fix: GASP surface control mass derivatives left out
 the mass scaler

---
 aviary/subsystems/mass/gasp_based/control.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aviary/subsystems/mass/gasp_based/control.py b/aviary/subsystems/mass/gasp_based/control.py
index 26347d9..3fe705f 100644
--- a/aviary/subsystems/mass/gasp_based/control.py
+++ b/aviary/subsystems/mass/gasp_based/control.py
@@ -250,19 +250,19 @@ class SurfaceControlMass(om.ExplicitComponent):
             Aircraft.Wing.SURFACE_CONTROL_MASS_COEFFICIENT,
         ] = dSCW_dSWCC / GRAV_ENGLISH_LBM
 
-        J[Aircraft.Wing.SURFACE_CONTROL_MASS, Aircraft.Wing.AREA] = dSCW_dWA / GRAV_ENGLISH_LBM
+        J[Aircraft.Wing.SURFACE_CONTROL_MASS, Aircraft.Wing.AREA] = CK18 * dSCW_dWA / GRAV_ENGLISH_LBM
 
         J[Aircraft.Wing.SURFACE_CONTROL_MASS, Aircraft.Design.GROSS_MASS] = CK18 * dSCW_dWG
 
         J[Aircraft.Wing.SURFACE_CONTROL_MASS, Aircraft.Wing.ULTIMATE_LOAD_FACTOR] = (
-            dSCW_dULF / GRAV_ENGLISH_LBM
+            CK18 * dSCW_dULF / GRAV_ENGLISH_LBM
         )
 
         J[Aircraft.Wing.SURFACE_CONTROL_MASS, Aircraft.Wing.SURFACE_CONTROL_MASS_SCALER] = (
             intermediate_control_wt - intermediate_cockpit_control_wt
         ) / GRAV_ENGLISH_LBM
 
-        J[Aircraft.Wing.SURFACE_CONTROL_MASS, 'min_dive_vel'] = dSCW_dMDV / GRAV_ENGLISH_LBM
+        J[Aircraft.Wing.SURFACE_CONTROL_MASS, 'min_dive_vel'] = CK18 * dSCW_dMDV / GRAV_ENGLISH_LBM
 
         J[Aircraft.Wing.SURFACE_CONTROL_MASS, Aircraft.Controls.COCKPIT_CONTROL_MASS] = -CK18 / CK15
 
-- 
2.43.0


From 0d2bf92a2625f8dcc154751178c7ec11c6ef4fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:18 +0000
Subject: [PATCH 016/107] fix: derivatives of GASP load speeds (category 1) and
 smoothed load parameters

---
 .../subsystems/mass/gasp_based/design_load.py | 20 +++++--------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/aviary/subsystems/mass/gasp_based/design_load.py b/aviary/subsystems/mass/gasp_based/design_load.py
index c3291d7..769e667 100644
--- a/aviary/subsystems/mass/gasp_based/design_load.py
+++ b/aviary/subsystems/mass/gasp_based/design_load.py
@@ -203,11 +203,6 @@ class LoadSpeeds(om.ExplicitComponent):
                     dVCMIN_dmax_struct_speed_mph = dVCMAX_dmax_struct_speed_mph
                     dVCMIN_dwing_loading = 0.0
 
-            # why this block?
-            if CATD == 1:
-                dVCMIN_dwing_loading = 0.0
-                dVCMIN_dmax_struct_speed_mph = 0.9 / 1.15
-
             VDCOF = 1.4
             dVDCOF_dwing_loading = 0.0
 
@@ -489,13 +484,8 @@ class LoadParameters(om.ExplicitComponent):
             DSigF = dSigmoidXdx(density_ratio, 1, 0.01)
             dV9_dmax_airspeed = (
                 vel_c * DSigF * (-ddensity_ratio_dmax_airspeed)
-                + 661.7
-                * dmax_mach_dmax_airspeed
-                * SigF
-                * 661.7
-                * max_mach
-                * DSigF
-                * ddensity_ratio_dmax_airspeed
+                + 661.7 * dmax_mach_dmax_airspeed * SigF
+                + 661.7 * max_mach * DSigF * ddensity_ratio_dmax_airspeed
             )
             dV9_dvel_c = SigE
 
@@ -513,7 +503,7 @@ class LoadParameters(om.ExplicitComponent):
                     / 0.6820
                     + ddensity_ratio_dmax_airspeed
                     * sigmoidX(density_ratio / 0.6820, 1, 0.01)
-                    * SigF
+                    * SigE
                     + density_ratio
                     * (
                         dSigmoidXdx(density_ratio / 0.6820, 1, 0.01)
@@ -549,8 +539,8 @@ class LoadParameters(om.ExplicitComponent):
                         * ddensity_ratio_dmax_airspeed
                         / 0.53281
                         * SigE
-                        + sigmoidX(density_ratio / 0.53281, 1, -0.01)
-                        * SigF
+                        + sigmoidX(density_ratio / 0.53281, 1, 0.01)
+                        * DSigF
                         * -ddensity_ratio_dmax_airspeed
                     )
                     + DSigF * ddensity_ratio_dmax_airspeed
-- 
2.43.0


From 401dadf667086374633f127d52c5b0325ef3ec68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:18 +0000
Subject: [PATCH 017/107] fix: GASP pylon mass and wing mounted mass
 derivatives

---
 aviary/subsystems/mass/gasp_based/engine.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/aviary/subsystems/mass/gasp_based/engine.py b/aviary/subsystems/mass/gasp_based/engine.py
index 2592027..5c250b2 100644
--- a/aviary/subsystems/mass/gasp_based/engine.py
+++ b/aviary/subsystems/mass/gasp_based/engine.py
@@ -131,6 +131,7 @@ class TotalEngineMass(om.ExplicitComponent):
             0.736
             * pylon_fac
             * (eng_spec_wt * Fn_SLS + scaler * spec_nacelle_wt * nacelle_area) ** (-0.264)
+            * scaler
             * nacelle_area
         )
         dNW_dNSA = scaler * spec_nacelle_wt
@@ -138,6 +139,7 @@ class TotalEngineMass(om.ExplicitComponent):
             0.736
             * pylon_fac
             * (eng_spec_wt * Fn_SLS + scaler * spec_nacelle_wt * nacelle_area) ** (-0.264)
+            * scaler
             * spec_nacelle_wt
         )
         dPW_dPF = (eng_spec_wt * Fn_SLS + scaler * spec_nacelle_wt * nacelle_area) ** 0.736
@@ -506,7 +508,6 @@ class WingMountEngineMass(om.ExplicitComponent):
     def compute_partials(self, inputs, J):
         num_engines = self.options[Aircraft.Engine.NUM_ENGINES]
         num_engine_type = len(num_engines)
-        c_instl = self.options[Aircraft.Engine.ADDITIONAL_MASS_FRACTION]
 
         eng_spec_wt = inputs[Aircraft.Engine.MASS_SPECIFIC] * GRAV_ENGLISH_LBM
         Fn_SLS = inputs[Aircraft.Engine.SCALED_SLS_THRUST]
@@ -529,7 +530,7 @@ class WingMountEngineMass(om.ExplicitComponent):
 
         dry_wt_eng = eng_spec_wt * Fn_SLS
         pod_wt = inputs[Aircraft.Engine.POD_MASS] * GRAV_ENGLISH_LBM
-        eng_instl_wt = c_instl * dry_wt_eng
+        eng_instl_wt = inputs[Aircraft.Engine.ADDITIONAL_MASS] / CK7 * GRAV_ENGLISH_LBM
         prop_wt = inputs[Aircraft.Engine.Propeller.MASS] * GRAV_ENGLISH_LBM
         # prop_wt_all = sum(num_engines * prop_wt) / GRAV_ENGLISH_LBM
         span_frac_factor = eng_span_frac / (eng_span_frac + 0.001)
-- 
2.43.0


From d57a4cbb2b9ddea8f7f20c5ac7ee7bf7e488fea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:18 +0000
Subject: [PATCH 018/107] fix: BWB fuselage mass derivatives left out the mass
 scaler

---
 aviary/subsystems/mass/gasp_based/fuel.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/aviary/subsystems/mass/gasp_based/fuel.py b/aviary/subsystems/mass/gasp_based/fuel.py
index 5cd41be..453fc77 100644
--- a/aviary/subsystems/mass/gasp_based/fuel.py
+++ b/aviary/subsystems/mass/gasp_based/fuel.py
@@ -1195,6 +1195,7 @@ class BWBFuselageMass(om.ExplicitComponent):
         area_aft_to_total = inputs[Aircraft.Fuselage.WETTED_AREA_RATIO_AFTBODY_TO_TOTAL]
         uwt_aft = inputs[Aircraft.Fuselage.AFTBODY_MASS_PER_UNIT_AREA] * GRAV_ENGLISH_LBM
         fus_SA = inputs[Aircraft.Fuselage.WETTED_AREA]
+        CK11 = inputs[Aircraft.Fuselage.MASS_SCALER]
 
         dFusWt_dc_fuselage = (
             1.8 * (gross_wt_initial**0.167) * (area_cabin**1.06)
@@ -1210,14 +1211,14 @@ class BWBFuselageMass(om.ExplicitComponent):
         dFusWt_duwt_aft = c_fuselage * fus_SA * area_aft_to_total
         dFusWt_dfus_SA = c_fuselage * area_aft_to_total * uwt_aft / GRAV_ENGLISH_LBM
 
-        J[Aircraft.Fuselage.MASS, Aircraft.Fuselage.MASS_COEFFICIENT] = dFusWt_dc_fuselage
-        J[Aircraft.Fuselage.MASS, Aircraft.Design.GROSS_MASS] = dFusWt_dgross_wt_initial
-        J[Aircraft.Fuselage.MASS, Aircraft.Fuselage.CABIN_AREA] = dFusWt_darea_cabin
+        J[Aircraft.Fuselage.MASS, Aircraft.Fuselage.MASS_COEFFICIENT] = CK11 * dFusWt_dc_fuselage
+        J[Aircraft.Fuselage.MASS, Aircraft.Design.GROSS_MASS] = CK11 * dFusWt_dgross_wt_initial
+        J[Aircraft.Fuselage.MASS, Aircraft.Fuselage.CABIN_AREA] = CK11 * dFusWt_darea_cabin
         J[Aircraft.Fuselage.MASS, Aircraft.Fuselage.WETTED_AREA_RATIO_AFTBODY_TO_TOTAL] = (
-            dFusWt_darea_aft_to_total
+            CK11 * dFusWt_darea_aft_to_total
         )
-        J[Aircraft.Fuselage.MASS, Aircraft.Fuselage.AFTBODY_MASS_PER_UNIT_AREA] = dFusWt_duwt_aft
-        J[Aircraft.Fuselage.MASS, Aircraft.Fuselage.WETTED_AREA] = dFusWt_dfus_SA
+        J[Aircraft.Fuselage.MASS, Aircraft.Fuselage.AFTBODY_MASS_PER_UNIT_AREA] = CK11 * dFusWt_duwt_aft
+        J[Aircraft.Fuselage.MASS, Aircraft.Fuselage.WETTED_AREA] = CK11 * dFusWt_dfus_SA
         J[Aircraft.Fuselage.MASS, Aircraft.Fuselage.MASS_SCALER] = (
             c_fuselage * 1.8 * (gross_wt_initial**0.167) * (area_cabin**1.06)
             + c_fuselage * fus_SA * area_aft_to_total * uwt_aft
-- 
2.43.0


From f29e5546e42c63be7a76f9afd0467c7ed061b7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:18 +0000
Subject: [PATCH 019/107] fix: smoothed GASP furnishings mass added the heavy
 aircraft equation for light aircraft

---
 aviary/subsystems/mass/gasp_based/furnishings.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aviary/subsystems/mass/gasp_based/furnishings.py b/aviary/subsystems/mass/gasp_based/furnishings.py
index dfc3a8c..fc78fb7 100644
--- a/aviary/subsystems/mass/gasp_based/furnishings.py
+++ b/aviary/subsystems/mass/gasp_based/furnishings.py
@@ -95,7 +95,7 @@ def common_compute(
             )
             furnishing_wt_2 = CPX * PAX + 310.0
         smoother = sigmoidX(gross_wt_init, 10000.0, 0.01)
-        furnishing_wt = (1 - smoother) * furnishing_wt_1 + smooth * furnishing_wt_2
+        furnishing_wt = (1 - smoother) * furnishing_wt_1 + smoother * furnishing_wt_2
         furnishing_wt = smooth_max(furnishing_wt, 30.0, mu)
     else:
         if gross_wt_init <= 10000.0:
@@ -222,7 +222,7 @@ def common_compute_partials(
 
         smoother = sigmoidX(gross_wt_init, 10000.0, 0.01)
         dsmoother_dgross_wt_init = dSigmoidXdx(gross_wt_init, 10000.0, 0.01)
-        furnishing_wt = (1 - smoother) * furnishing_wt_1 + smooth * furnishing_wt_2
+        furnishing_wt = (1 - smoother) * furnishing_wt_1 + smoother * furnishing_wt_2
         dfurnishing_wt_dcabin_width = (
             1 - smoother
         ) * dfurnishing_wt_dcabin_width_1 + smoother * dfurnishing_wt_dcabin_width_2
-- 
2.43.0


From 5b48ebb892819fc8be557b51f701a9b2f7986464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:18 +0000
Subject: [PATCH 020/107] fix: GASP landing gear mass derivatives

---
 aviary/subsystems/mass/gasp_based/landing.py | 44 ++++++++++----------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/aviary/subsystems/mass/gasp_based/landing.py b/aviary/subsystems/mass/gasp_based/landing.py
index da0cd6b..286de7c 100644
--- a/aviary/subsystems/mass/gasp_based/landing.py
+++ b/aviary/subsystems/mass/gasp_based/landing.py
@@ -66,6 +66,7 @@ class TotalLandingGearMass(om.ExplicitComponent):
         self.declare_partials(
             Aircraft.LandingGear.TOTAL_MASS,
             [
+                Aircraft.Wing.VERTICAL_MOUNT_LOCATION,
                 Aircraft.LandingGear.MASS_COEFFICIENT,
                 Aircraft.Design.TOUCHDOWN_MASS_MAX,
                 Aircraft.Nacelle.CLEARANCE_RATIO,
@@ -114,6 +115,7 @@ class TotalLandingGearMass(om.ExplicitComponent):
         wing_loc = inputs[Aircraft.Wing.VERTICAL_MOUNT_LOCATION]
         clearance_ratio = inputs[Aircraft.Nacelle.CLEARANCE_RATIO]
         nacelle_diam = inputs[Aircraft.Nacelle.AVG_DIAMETER]
+        CK12 = inputs[Aircraft.LandingGear.TOTAL_MASS_SCALER]
 
         val = (1.0 + clearance_ratio) * nacelle_diam
         gear_height_temp = KSfunction.compute(val, 50.0)
@@ -129,47 +131,45 @@ class TotalLandingGearMass(om.ExplicitComponent):
             + sigmoidX(wing_loc, 0.005, 0.01 / 320.0)
         ) * landing_wt
 
-        dGH_dCR = (
-            (
-                sigmoidX(gear_height_temp, 6, 1 / 320.0) * nacelle_diam
-                + gear_height_temp * dSigmoidXdx(gear_height_temp, 6, 1 / 320.0) * nacelle_diam
-            )
-            + (6 * dSigmoidXdx(gear_height_temp, 6, 1 / 320.0) * -nacelle_diam)
-        ) * dKS
-
-        dGH_dND = (
-            sigmoidX(gear_height_temp, 6, 1 / 320.0) * (1 + clearance_ratio)
-            + gear_height_temp * dSigmoidXdx(gear_height_temp, 6, 1 / 320.0) * (1 + clearance_ratio)
-        ) * dKS + (6 * dSigmoidXdx(gear_height_temp, 6, 1 / 320.0) * (1 + clearance_ratio))
+        dGH = sigmoidX(gear_height_temp, 6, 1 / 320.0) + (gear_height_temp - 6) * dSigmoidXdx(
+            gear_height_temp, 6, 1 / 320.0
+        )
+        dGH_dCR = dGH * nacelle_diam * dKS
+        dGH_dND = dGH * (1 + clearance_ratio) * dKS
 
         c_gear_mass_modified = (c_gear_mass * 0.85 * (1.0 + 0.1765 * gear_height / 6.0)) * sigmoidX(
             wing_loc, 0.005, -0.01 / 320.0
         ) + c_gear_mass * sigmoidX(wing_loc, 0.005, 0.01 / 320.0)
 
-        dLGW_dCR = max(
-            (c_gear_mass * 0.85 * 0.1765 / 6 * dGH_dCR * landing_wt)
-            * sigmoidX(wing_loc, 0.005, -0.01 / 320.0)
+        dLGW_dGH = (
+            c_gear_mass * 0.85 * 0.1765 / 6 * landing_wt * sigmoidX(wing_loc, 0.005, -0.01 / 320.0)
         )
+        dLGW_dCR = dLGW_dGH * dGH_dCR
+        dLGW_dND = dLGW_dGH * dGH_dND
 
-        dLGW_dND = max(
-            (c_gear_mass * 0.85 * 0.1765 / 6 * dGH_dND * landing_wt)
-            * sigmoidX(wing_loc, 0.005, -0.01 / 320.0)
+        J[Aircraft.LandingGear.TOTAL_MASS, Aircraft.Wing.VERTICAL_MOUNT_LOCATION] = (
+            CK12
+            * c_gear_mass
+            * (1.0 - 0.85 * (1.0 + 0.1765 * gear_height / 6.0))
+            * dSigmoidXdx(wing_loc, 0.005, 0.01 / 320.0)
+            * landing_wt
+            / GRAV_ENGLISH_LBM
         )
 
         J[Aircraft.LandingGear.TOTAL_MASS, Aircraft.LandingGear.MASS_COEFFICIENT] = (
-            dLGW_dCGW / GRAV_ENGLISH_LBM
+            CK12 * dLGW_dCGW / GRAV_ENGLISH_LBM
         )
 
         J[Aircraft.LandingGear.TOTAL_MASS, Aircraft.Nacelle.CLEARANCE_RATIO] = (
-            dLGW_dCR / GRAV_ENGLISH_LBM
+            CK12 * dLGW_dCR / GRAV_ENGLISH_LBM
         )
 
         J[Aircraft.LandingGear.TOTAL_MASS, Aircraft.Nacelle.AVG_DIAMETER] = (
-            dLGW_dND / GRAV_ENGLISH_LBM
+            CK12 * dLGW_dND / GRAV_ENGLISH_LBM
         )
 
         J[Aircraft.LandingGear.TOTAL_MASS, Aircraft.Design.TOUCHDOWN_MASS_MAX] = (
-            c_gear_mass_modified
+            CK12 * c_gear_mass_modified
         )
 
         J[Aircraft.LandingGear.TOTAL_MASS, Aircraft.LandingGear.TOTAL_MASS_SCALER] = (
-- 
2.43.0


From b2f71e47cd8ab5f3e6ae849ba028855efdb43e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:18 +0000
Subject: [PATCH 021/107] fix: starter mass derivatives with distributed or
 multiple engine types

---
 aviary/subsystems/mass/flops_based/starter.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/aviary/subsystems/mass/flops_based/starter.py b/aviary/subsystems/mass/flops_based/starter.py
index 7def8a5..278d143 100644
--- a/aviary/subsystems/mass/flops_based/starter.py
+++ b/aviary/subsystems/mass/flops_based/starter.py
@@ -5,7 +5,6 @@ from aviary.constants import GRAV_ENGLISH_LBM
 from aviary.subsystems.mass.flops_based.distributed_prop import (
     distributed_engine_count_factor,
     distributed_nacelle_diam_factor,
-    distributed_nacelle_diam_factor_deriv,
 )
 from aviary.variable_info.functions import add_aviary_input, add_aviary_option, add_aviary_output
 from aviary.variable_info.variables import Aircraft, Mission
@@ -66,25 +65,29 @@ class TransportStarterMass(om.ExplicitComponent):
         thrust_ratio = inputs[Aircraft.Engine.SCALE_FACTOR]
         adjusted_d_nacelle = d_nacelle * np.sqrt(thrust_ratio)
 
-        diam_deriv_fact = distributed_nacelle_diam_factor_deriv(num_engines)
+        # derivative of the nacelle diameter factor w.r.t. each adjusted nacelle diameter
+        num_engines_sum = sum(num_engines)
+        diam_deriv_fact = num_engines / num_engines_sum
+        if num_engines_sum > 4:
+            diam_deriv_fact = diam_deriv_fact * 0.5 * num_engines_sum**0.5
         max_mach_exp = max_mach**0.32
-        d_avg = sum(adjusted_d_nacelle * num_engines) / total_engines
+        f_nacelle = distributed_nacelle_diam_factor(adjusted_d_nacelle, num_engines)
 
         J[Aircraft.Propulsion.TOTAL_STARTER_MASS, Aircraft.Nacelle.AVG_DIAMETER] = (
             11.0
             * 1.6
             * eng_count_factor
             * max_mach_exp
-            * diam_deriv_fact**1.6
+            * diam_deriv_fact
             * np.sqrt(thrust_ratio)
-            * d_avg**0.6
+            * f_nacelle**0.6
         ) / GRAV_ENGLISH_LBM
 
         J[Aircraft.Propulsion.TOTAL_STARTER_MASS, Aircraft.Engine.SCALE_FACTOR] = (
             17.6
             * eng_count_factor
             * max_mach_exp
-            * diam_deriv_fact**1.6
-            * d_avg**0.6
+            * diam_deriv_fact
+            * f_nacelle**0.6
             * (d_nacelle * 0.5 / np.sqrt(thrust_ratio))
         ) / GRAV_ENGLISH_LBM
-- 
2.43.0


From 9bbf6e3761ee992b5da748c804c3f0b0dd225829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:18 +0000
Subject: [PATCH 022/107] fix: simple cruise distance declared its derivative
 to the initial distance at the first node only

---
 aviary/mission/two_dof/ode/simple_cruise_eom.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/aviary/mission/two_dof/ode/simple_cruise_eom.py b/aviary/mission/two_dof/ode/simple_cruise_eom.py
index 792f81f..5635942 100644
--- a/aviary/mission/two_dof/ode/simple_cruise_eom.py
+++ b/aviary/mission/two_dof/ode/simple_cruise_eom.py
@@ -55,8 +55,6 @@ class DistanceComp(om.ExplicitComponent):
         self.declare_partials(
             Dynamic.Mission.DISTANCE,
             'cruise_distance_initial',
-            rows=[0],
-            cols=[0],
             val=1.0,
         )
 
-- 
2.43.0


From bbb9682018f8eaf6b4d4b6e31203a7d704bd98e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:18 +0000
Subject: [PATCH 023/107] fix: PreHamiltonStandard overwrote its velocity input

---
 aviary/subsystems/propulsion/propeller/hamilton_standard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aviary/subsystems/propulsion/propeller/hamilton_standard.py b/aviary/subsystems/propulsion/propeller/hamilton_standard.py
index b8fd84d..594a371 100644
--- a/aviary/subsystems/propulsion/propeller/hamilton_standard.py
+++ b/aviary/subsystems/propulsion/propeller/hamilton_standard.py
@@ -530,7 +530,7 @@ class PreHamiltonStandard(om.ExplicitComponent):
         rho_sea_level = self.options[Mission.SEA_LEVEL_DENSITY][0]
 
         # arbitrarily small number to keep advance ratio nonzero, which allows for static thrust prediction
-        vtas[np.where(vtas <= 1e-6)] = 1e-6
+        vtas = np.where(vtas <= 1e-6, 1e-6, vtas)
         density_ratio = inputs[Dynamic.Atmosphere.DENSITY] / rho_sea_level
 
         if diam_prop <= 0.0:
-- 
2.43.0


From 403146fdf86bb64741d0a7199a2c45b48d8fcb36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:18 +0000
Subject: [PATCH 024/107] fix: derivatives of UFac and of DragCoefClean with
 respect to the drag factors

---
 .../aerodynamics/gasp_based/gaspaero.py       | 20 +++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/aviary/subsystems/aerodynamics/gasp_based/gaspaero.py b/aviary/subsystems/aerodynamics/gasp_based/gaspaero.py
index 78db378..2f9d1a7 100644
--- a/aviary/subsystems/aerodynamics/gasp_based/gaspaero.py
+++ b/aviary/subsystems/aerodynamics/gasp_based/gaspaero.py
@@ -617,12 +617,19 @@ class UFac(om.ExplicitComponent):
         sigma = inputs['sigma']
         sigstr = inputs['sigstr']
 
+        bbar_replaced = False
+        if design_type is AircraftTypes.BLENDED_WING_BODY:
+            # for a tailless BWB, compute() replaces bbar with a constant
+            if bbar < 0.01 * inputs[Aircraft.Wing.SPAN]:
+                bbar = 1.0
+                bbar_replaced = True
+
         numer = (1 + lift_ratio) ** 2
         denom = sigstr * (lift_ratio / bbar) ** 2 + 2 * sigma * lift_ratio / bbar + 1
         ufac = numer / denom
 
         # w.r.t. lift_ratio
-        dnumer = 2 * (1 + lift_ratio) / bbar
+        dnumer = 2 * (1 + lift_ratio)
         ddenom = 2 * sigstr * (lift_ratio / bbar) / bbar + 2 * sigma / bbar
         dufac_dlift_ratio = (dnumer * denom - numer * ddenom) / denom**2
 
@@ -634,16 +641,21 @@ class UFac(om.ExplicitComponent):
             - 2 * sigma * lift_ratio / bbar**2
         )
         dufac_dbbar = -numer * ddenom_dbbar / denom**2
+        if bbar_replaced:
+            dufac_dbbar = np.zeros_like(dufac_dbbar)
 
         if design_type is AircraftTypes.BLENDED_WING_BODY:
             smooth = self.options['smooth_ufac']
             if smooth:
                 mu = self.options['mu']
+                dufac_dlift_ratio = d_smooth_min(ufac, 0.975, mu) * dufac_dlift_ratio
                 dufac_dsigstr = d_smooth_min(ufac, 0.975, mu) * dufac_dsigstr
                 dufac_dsigma = d_smooth_min(ufac, 0.975, mu) * dufac_dsigma
                 dufac_dbbar = d_smooth_min(ufac, 0.975, mu) * dufac_dbbar
             else:
-                ufac = np.minimum(ufac, 0.975)
+                dufac_dlift_ratio = (
+                    np.piecewise(ufac, [ufac < 0.975, ufac >= 0.975], [1, 0]) * dufac_dlift_ratio
+                )
                 dufac_dsigstr = (
                     np.piecewise(ufac, [ufac < 0.975, ufac >= 0.975], [1, 0]) * dufac_dsigstr
                 )
@@ -1397,6 +1409,10 @@ class DragCoefClean(om.ExplicitComponent):
             Dynamic.Vehicle.DRAG_COEFFICIENT,
             [
                 Aircraft.Design.DRAG_DIVERGENCE_SHIFT,
+                Aircraft.Design.SUBSONIC_DRAG_COEFF_FACTOR,
+                Aircraft.Design.SUPERSONIC_DRAG_COEFF_FACTOR,
+                Aircraft.Design.LIFT_DEPENDENT_DRAG_COEFF_FACTOR,
+                Aircraft.Design.ZERO_LIFT_DRAG_COEFF_FACTOR,
                 Aircraft.Design.COMPRESSIBILITY_DRAG_FACTOR,
             ],
             method='cs',
-- 
2.43.0


From 52885cc1ec657b7bb536e35d753e0782dc8a49d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:10 +0000
Subject: [PATCH 025/107] fix: fuel system mass derivative ignored the
 distributed engine count factor

---
 aviary/subsystems/mass/flops_based/fuel_system.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aviary/subsystems/mass/flops_based/fuel_system.py b/aviary/subsystems/mass/flops_based/fuel_system.py
index 5e37d5b..c583d9d 100644
--- a/aviary/subsystems/mass/flops_based/fuel_system.py
+++ b/aviary/subsystems/mass/flops_based/fuel_system.py
@@ -52,7 +52,7 @@ class TransportFuelSystemMass(om.ExplicitComponent):
             1.07
             * 0.58
             * capacity**-0.42
-            * num_eng**0.43
+            * num_eng_fact**0.43
             * max_mach**0.34
             * scaler
             / GRAV_ENGLISH_LBM
-- 
2.43.0


From ddd64eb9dd902c65aea392a33d690fc4e4733c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:50 +0000
Subject: [PATCH 026/107] fix: canard characteristic length and fineness kept
 stale values when there is no canard

---
 .../subsystems/geometry/flops_based/characteristic_lengths.py   | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aviary/subsystems/geometry/flops_based/characteristic_lengths.py b/aviary/subsystems/geometry/flops_based/characteristic_lengths.py
index 4b72422..4cdd43b 100644
--- a/aviary/subsystems/geometry/flops_based/characteristic_lengths.py
+++ b/aviary/subsystems/geometry/flops_based/characteristic_lengths.py
@@ -600,6 +600,8 @@ class CanardCharacteristicLength(om.ExplicitComponent):
         area = inputs[Aircraft.Canard.AREA]
 
         if area <= 0.0:
+            outputs[Aircraft.Canard.CHARACTERISTIC_LENGTH] = 0.0
+            outputs[Aircraft.Canard.FINENESS] = 0.0
             return
 
         thickness_to_chord = inputs[Aircraft.Canard.THICKNESS_TO_CHORD]
-- 
2.43.0


From ea5779b954897df026c3d34cf5fe5734043f1b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:42 +0000
Subject: [PATCH 027/107] fix: skin friction drag kept a stale Reynolds number
 derivative after laminar flow was switched off

---
 .../subsystems/aerodynamics/flops_based/skin_friction_drag.py   | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aviary/subsystems/aerodynamics/flops_based/skin_friction_drag.py b/aviary/subsystems/aerodynamics/flops_based/skin_friction_drag.py
index 06c792b..d8dfb27 100644
--- a/aviary/subsystems/aerodynamics/flops_based/skin_friction_drag.py
+++ b/aviary/subsystems/aerodynamics/flops_based/skin_friction_drag.py
@@ -276,6 +276,8 @@ class SkinFrictionDrag(om.ExplicitComponent):
 
         if laminar_flow:
             partials['skin_friction_drag_coeff', 'Re'] = DCDF_dRe.ravel()
+        else:
+            partials['skin_friction_drag_coeff', 'Re'] = 0.0
 
         partials['skin_friction_drag_coeff', 'fineness_ratios'] = np.einsum(
             'ij,j->ij', DCDF_dform, dform_dfine
-- 
2.43.0


From b19a773417ce23b64bb088933a78565e19588e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:59 +0000
Subject: [PATCH 028/107] fix: rate of true airspeed in the unsteady solved
 mission with equivalent airspeed, and its derivatives

---
 .../ode/unsteady_solved_flight_conditions.py  | 39 ++++++++++++++-----
 1 file changed, 30 insertions(+), 9 deletions(-)

diff --git a/aviary/mission/solved_two_dof/ode/unsteady_solved_flight_conditions.py b/aviary/mission/solved_two_dof/ode/unsteady_solved_flight_conditions.py
index 0f1f4e6..69c67d7 100644
--- a/aviary/mission/solved_two_dof/ode/unsteady_solved_flight_conditions.py
+++ b/aviary/mission/solved_two_dof/ode/unsteady_solved_flight_conditions.py
@@ -294,7 +294,15 @@ class UnsteadySolvedFlightConditions(om.ExplicitComponent):
             )
 
             self.declare_partials(
-                of='dTAS_dt_approx', wrt=['dmach_dr', 'dsos_dh'], rows=ar, cols=ar
+                of='dTAS_dt_approx',
+                wrt=[
+                    'dmach_dr',
+                    'dsos_dh',
+                    Dynamic.Atmosphere.SPEED_OF_SOUND,
+                    Dynamic.Atmosphere.MACH,
+                ],
+                rows=ar,
+                cols=ar,
             )
 
     def compute(self, inputs, outputs):
@@ -325,8 +333,8 @@ class UnsteadySolvedFlightConditions(om.ExplicitComponent):
             drho_dt_approx = drho_dh * tas * sgam
             deas_dt_approx = deas_dr * tas * cgam
             outputs['dTAS_dt_approx'] = (
-                deas_dt_approx * (rho_sl / rho) ** 1.5
-                - 0.5 * eas * drho_dt_approx * rho_sl**1.5 / rho_sl**2.5
+                deas_dt_approx / sqrt_rho_rho_sl
+                - 0.5 * eas * drho_dt_approx * rho_sl**0.5 / rho**1.5
             )
 
         else:
@@ -389,15 +397,22 @@ class UnsteadySolvedFlightConditions(om.ExplicitComponent):
             partials[Dynamic.Atmosphere.MACH, Dynamic.Atmosphere.SPEED_OF_SOUND] = -TAS / sos**2
             partials[Dynamic.Mission.VELOCITY, Dynamic.Atmosphere.DENSITY] = dTAS_dRho
             partials[Dynamic.Mission.VELOCITY, 'EAS'] = dTAS_dEAS
-            partials['dTAS_dt_approx', 'dEAS_dr'] = TAS * cgam * (rho_sl / rho) ** 1.5
-            partials['dTAS_dt_approx', 'drho_dh'] = (
-                -0.5 * EAS * TAS * sgam * rho_sl**1.5 / rho_sl**2.5
+            # dTAS_dt_approx = TAS * (EAS rate term + density rate term)
+            eas_term = inputs['dEAS_dr'] * cgam * dTAS_dEAS
+            rho_term = inputs['drho_dh'] * sgam * dTAS_dRho
+
+            partials['dTAS_dt_approx', 'dEAS_dr'] = TAS * cgam * dTAS_dEAS
+            partials['dTAS_dt_approx', 'drho_dh'] = TAS * sgam * dTAS_dRho
+            partials['dTAS_dt_approx', 'EAS'] = (
+                dTAS_dEAS * (eas_term + rho_term) + TAS * rho_term / EAS
             )
+            partials['dTAS_dt_approx', Dynamic.Atmosphere.DENSITY] = dTAS_dRho * (
+                eas_term + rho_term
+            ) - TAS * (0.5 * eas_term + 1.5 * rho_term) / rho
 
             if not ground_roll:
-                partials['dTAS_dt_approx', Dynamic.Mission.FLIGHT_PATH_ANGLE] = (
-                    -TAS * sgam * (rho_sl / rho) ** 1.5 * inputs['dEAS_dr']
-                    - 0.5 * EAS * TAS * cgam * rho_sl**1.5 / rho_sl**2.5 * inputs['drho_dh']
+                partials['dTAS_dt_approx', Dynamic.Mission.FLIGHT_PATH_ANGLE] = TAS * (
+                    -inputs['dEAS_dr'] * sgam * dTAS_dEAS + inputs['drho_dh'] * cgam * dTAS_dRho
                 )
 
         else:
@@ -422,6 +437,12 @@ class UnsteadySolvedFlightConditions(om.ExplicitComponent):
             )
             partials['dTAS_dt_approx', 'dmach_dr'] = TAS * cgam * sos
             partials['dTAS_dt_approx', 'dsos_dh'] = TAS**2 * sgam / sos
+            partials['dTAS_dt_approx', Dynamic.Atmosphere.SPEED_OF_SOUND] = (
+                2 * inputs['dmach_dr'] * mach * sos * cgam + inputs['dsos_dh'] * mach**2 * sgam
+            )
+            partials['dTAS_dt_approx', Dynamic.Atmosphere.MACH] = (
+                inputs['dmach_dr'] * sos**2 * cgam + 2 * inputs['dsos_dh'] * mach * sos * sgam
+            )
 
             if not ground_roll:
                 partials['dTAS_dt_approx', Dynamic.Mission.FLIGHT_PATH_ANGLE] = (
-- 
2.43.0


From 0ca3df6a8741ab3db388fd34bb9d05d7b06d1517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:59 +0000
Subject: [PATCH 029/107] fix: BWB hydraulic diameter derivative to the aisle
 width

---
 aviary/subsystems/geometry/gasp_based/fuselage.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aviary/subsystems/geometry/gasp_based/fuselage.py b/aviary/subsystems/geometry/gasp_based/fuselage.py
index 667c704..b0d3e46 100644
--- a/aviary/subsystems/geometry/gasp_based/fuselage.py
+++ b/aviary/subsystems/geometry/gasp_based/fuselage.py
@@ -412,8 +412,8 @@ class BWBFuselageParameters1(om.ExplicitComponent):
             0.5 * body_width * cabin_width / hydraulic_diameter
         )
         J[Aircraft.Fuselage.HYDRAULIC_DIAMETER, Aircraft.Fuselage.AISLE_WIDTH] = (
-            cabin_width * num_aisle * nose_height_to_length / hydraulic_diameter / 12
-        )
+            0.5 * num_aisle / 12 * (cabin_width + body_width) * nose_height_to_length
+        ) / hydraulic_diameter
         J[Aircraft.Fuselage.HYDRAULIC_DIAMETER, Aircraft.Fuselage.SEAT_WIDTH_ECONOMY] = (
             0.5 * seats_abreast / 12 * (cabin_width + body_width) * nose_height_to_length
         ) / hydraulic_diameter
-- 
2.43.0


From 0fce5964c88b037d06120367b7f25ea9d8456968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:59 +0000
Subject: [PATCH 030/107] fix: smoothed landing gear location coefficient
 derivative was 100 times too large

---
 aviary/subsystems/mass/gasp_based/fixed.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aviary/subsystems/mass/gasp_based/fixed.py b/aviary/subsystems/mass/gasp_based/fixed.py
index e28f578..9dfd14e 100644
--- a/aviary/subsystems/mass/gasp_based/fixed.py
+++ b/aviary/subsystems/mass/gasp_based/fixed.py
@@ -241,9 +241,9 @@ class MassParameters(om.ExplicitComponent):
         J['c_strut_braced', Aircraft.Strut.ATTACHMENT_LOCATION_DIMENSIONLESS] = -2 * strut_x
 
         if smooth:
-            J['c_gear_loc', Aircraft.LandingGear.MAIN_GEAR_LOCATION] = 0.95 * (-100) * dSigmoidXdx(
+            J['c_gear_loc', Aircraft.LandingGear.MAIN_GEAR_LOCATION] = -0.95 * dSigmoidXdx(
                 loc_main_gear, 0.005, 0.01 / 320.0
-            ) + 1 * (100) * dSigmoidXdx(loc_main_gear, 0.005, 0.01 / 320.0)
+            ) + 1 * dSigmoidXdx(loc_main_gear, 0.005, 0.01 / 320.0)
         else:
             J['c_gear_loc', Aircraft.LandingGear.MAIN_GEAR_LOCATION] = 0.0
 
-- 
2.43.0


From 549953749fd00fc2f95923b1ac92ee45e131e736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:59 +0000
Subject: [PATCH 031/107] fix: GASP fuselage mass derivative to the acoustic
 treatment left out the mass scaler

---
 aviary/subsystems/mass/gasp_based/fuel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aviary/subsystems/mass/gasp_based/fuel.py b/aviary/subsystems/mass/gasp_based/fuel.py
index 453fc77..f0ef303 100644
--- a/aviary/subsystems/mass/gasp_based/fuel.py
+++ b/aviary/subsystems/mass/gasp_based/fuel.py
@@ -1137,7 +1137,7 @@ class FuselageMass(om.ExplicitComponent):
         J[Aircraft.Fuselage.MASS, Aircraft.Wing.ULTIMATE_LOAD_FACTOR] = (
             dFusWt_dULF / GRAV_ENGLISH_LBM
         )
-        J[Aircraft.Fuselage.MASS, 'MAT'] = 1
+        J[Aircraft.Fuselage.MASS, 'MAT'] = CK11
 
 
 class BWBFuselageMass(om.ExplicitComponent):
-- 
2.43.0


From e58a14d90445b8fae03d80d005b6f6d607206821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:37 +0000
Subject: [PATCH 032/107] fix: connect both ends of a reserve mission that has
 a single phase

---
 aviary/core/aviary_group.py                | 27 +++++++++++++---------
 aviary/subsystems/energy/energy_builder.py | 15 +++++++-----
 aviary/subsystems/subsystem_builder.py     |  1 +
 3 files changed, 26 insertions(+), 17 deletions(-)

diff --git a/aviary/core/aviary_group.py b/aviary/core/aviary_group.py
index 4f06381..2570a78 100644
--- a/aviary/core/aviary_group.py
+++ b/aviary/core/aviary_group.py
@@ -1284,17 +1284,22 @@ class AviaryGroup(om.Group):
             for phase_name, var_mapping in subsystem.get_post_mission_bus_variables(
                 aviary_inputs=self.aviary_inputs, mission_info=self.mission_info
             ).items():
-                for mission_variable_name, variable_data in var_mapping.items():
-                    post_mission_variable_names = variable_data['post_mission_name']
-                    src_indices = variable_data.get('src_indices', None)
-                    if not isinstance(post_mission_variable_names, list):
-                        post_mission_variable_names = [post_mission_variable_names]
-
-                    for post_mission_var_name in post_mission_variable_names:
-                        # Remove possible prefix before a `.`, like <external_subsystem_name>.<var_name>"
-                        mvn_basename = mission_variable_name.rpartition('.')[-1]
-                        src_name = f'traj.{phase_name}.mission_bus_variables.{mvn_basename}'
-                        self.connect(src_name, post_mission_var_name, src_indices=src_indices)
+                for mission_variable_name, connections in var_mapping.items():
+                    # A variable may be connected more than once, with different src_indices.
+                    if not isinstance(connections, list):
+                        connections = [connections]
+
+                    for variable_data in connections:
+                        post_mission_variable_names = variable_data['post_mission_name']
+                        src_indices = variable_data.get('src_indices', None)
+                        if not isinstance(post_mission_variable_names, list):
+                            post_mission_variable_names = [post_mission_variable_names]
+
+                        for post_mission_var_name in post_mission_variable_names:
+                            # Remove possible prefix before a `.`, like <external_subsystem_name>.<var_name>"
+                            mvn_basename = mission_variable_name.rpartition('.')[-1]
+                            src_name = f'traj.{phase_name}.mission_bus_variables.{mvn_basename}'
+                            self.connect(src_name, post_mission_var_name, src_indices=src_indices)
 
     def add_design_variables(self, problem_type: ProblemType = None, verbosity=None):
         """
diff --git a/aviary/subsystems/energy/energy_builder.py b/aviary/subsystems/energy/energy_builder.py
index 7a98e05..9ecfdb6 100644
--- a/aviary/subsystems/energy/energy_builder.py
+++ b/aviary/subsystems/energy/energy_builder.py
@@ -81,18 +81,21 @@ class CoreEnergyBuilder(EnergyBuilder):
         }
 
         if reserve_phases:
-            post_mission_bus[reserve_phases[0]] = {
-                f'mass': {
+            # The first and the last reserve phase may be the same phase.
+            start = post_mission_bus.setdefault(reserve_phases[0], {})
+            start.setdefault('mass', []).append(
+                {
                     'post_mission_name': f'{self.name}.reserve_fuel_burned.mass_initial',
                     'src_indices': [0],
                 }
-            }
-            post_mission_bus[reserve_phases[-1]] = {
-                f'mass': {
+            )
+            end = post_mission_bus.setdefault(reserve_phases[-1], {})
+            end.setdefault('mass', []).append(
+                {
                     'post_mission_name': f'{self.name}.reserve_fuel_burned.mass_final',
                     'src_indices': [-1],
                 }
-            }
+            )
 
         return post_mission_bus
 
diff --git a/aviary/subsystems/subsystem_builder.py b/aviary/subsystems/subsystem_builder.py
index 7130a34..11aaf17 100644
--- a/aviary/subsystems/subsystem_builder.py
+++ b/aviary/subsystems/subsystem_builder.py
@@ -523,6 +523,7 @@ class SubsystemBuilder(ABC):
                 Names of the input variable to be connected in the post-mission subsystem
             - 'src_indices': int or list of ints or tuple of ints or int ndarray or Iterable or None
                 Indices of the mission variable for connection
+            A list of such dictionaries connects the same variable more than once.
         """
         return {}
 
-- 
2.43.0


From e3ff48deacac08d885cf1a5d6977e9af7ad26a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:50 +0000
Subject: [PATCH 033/107] fix: use the constraint_ref option of a state for its
 final constraint

---
 aviary/mission/phase_builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aviary/mission/phase_builder.py b/aviary/mission/phase_builder.py
index bd14bc2..5c9df37 100644
--- a/aviary/mission/phase_builder.py
+++ b/aviary/mission/phase_builder.py
@@ -445,7 +445,7 @@ class PhaseBuilder(ABC):
                 loc='final',
                 equals=final,
                 units=units,
-                ref=final,
+                ref=constraint_ref,
             )
 
     def add_control(
-- 
2.43.0


From d4d46672be1b549ba8f96b142c02dd18db78f3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:29 +0000
Subject: [PATCH 034/107] fix: nacelle diameter factor derivative with several
 engine types and at most four engines

---
 aviary/subsystems/mass/flops_based/distributed_prop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aviary/subsystems/mass/flops_based/distributed_prop.py b/aviary/subsystems/mass/flops_based/distributed_prop.py
index 8edab19..a7b27f7 100644
--- a/aviary/subsystems/mass/flops_based/distributed_prop.py
+++ b/aviary/subsystems/mass/flops_based/distributed_prop.py
@@ -78,7 +78,7 @@ def distributed_nacelle_diam_factor_deriv(num_eng: int) -> float:
     except TypeError:
         total_num_engines = num_eng
 
-    deriv = 1.0
+    deriv = np.asarray(num_eng) / total_num_engines
     if total_num_engines > 4:
         deriv = num_eng * (0.5 * total_num_engines**0.5) / total_num_engines
 
-- 
2.43.0


From 14ff43c171dc24677c6b8141b7722652bec67400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:26 +0000
Subject: [PATCH 035/107] fix: the hybrid objective added the final mass
 instead of subtracting it

---
 aviary/core/aviary_problem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aviary/core/aviary_problem.py b/aviary/core/aviary_problem.py
index b7a8649..5deced9 100644
--- a/aviary/core/aviary_problem.py
+++ b/aviary/core/aviary_problem.py
@@ -1965,7 +1965,7 @@ class AviaryProblem(om.Problem):
         takeoff_mass = self.model.aviary_inputs.get_val(Aircraft.Design.GROSS_MASS, units='lbm')
 
         obj_comp = om.ExecComp(
-            f'obj = final_mass / {takeoff_mass} + final_time / 5.',
+            f'obj = -final_mass / {takeoff_mass} + final_time / 5.',
             final_mass={'units': 'lbm'},
             final_time={'units': 'h'},
         )
-- 
2.43.0


From 4a0383604c980df04829d0924f1481fcf13c5d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:15 +0000
Subject: [PATCH 036/107] fix: composite objectives with separate weights, or
 of a single mission, could not be set up

---
 aviary/core/aviary_problem.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/aviary/core/aviary_problem.py b/aviary/core/aviary_problem.py
index 5deced9..6ae780b 100644
--- a/aviary/core/aviary_problem.py
+++ b/aviary/core/aviary_problem.py
@@ -993,9 +993,9 @@ class AviaryProblem(om.Problem):
             obj_input = f'{model}_{output_safe}'
             obj_inputs.append(obj_input)
             weighted_exprs.append(f'{obj_input}*{weight}/{total_weight}')
-            connection_names.append(
-                [f'{model}.{output}', f'composite_function.{model}_{output_safe}']
-            )
+            # without a group of that name (single mission), outputs are at the top level
+            source = f'{model}.{output}' if model in self.aviary_groups_dict else output
+            connection_names.append([source, f'composite_function.{model}_{output_safe}'])
         final_expr = ' + '.join(weighted_exprs)
 
         # weighted_str looks like:  'model1_fuelburn*0.67*0.5 + model1_gross_mass*0.33*0.5 + model2_fuelburn*0.67*0.5 + model2_gross_mass*0.33*0.5'
@@ -1073,10 +1073,10 @@ class AviaryProblem(om.Problem):
         mission_weights = [float(weight / sum(mission_weights)) for weight in mission_weights]
         for mission, mission_weight in zip(missions, mission_weights):
             for output, output_weight in zip(outputs, output_weights):
-                connection_names.append(
-                    [f'composite_function.{mission}_{output}', f'{mission}.{output}']
-                )
-                weighted_exprs.append(f'{mission}_{output}*{output_weight}*{mission_weight}')
+                # we use "_" here because ExecComp() cannot intake ":"
+                obj_input = f'{mission}_{output.replace(":", "_")}'
+                connection_names.append([f'composite_function.{obj_input}', f'{mission}.{output}'])
+                weighted_exprs.append(f'{obj_input}*{output_weight}*{mission_weight}')
         final_expr = ' + '.join(weighted_exprs)
         # weighted_str looks like:  'model1.fuelburn*0.67*0.5 + model1.gross_mass*0.33*0.5 + model2.fuelburn*0.67*0.5 + model2.gross_mass*0.33*0.5'
 
@@ -1088,7 +1088,7 @@ class AviaryProblem(om.Problem):
         )
         # connect from inside of the models to the composite objective
         for target, source in connection_names:
-            self.model.connect(target, source)
+            self.model.connect(source, target)
         # finally add the objective
         self.model.add_objective('composite_objective', ref=ref)
 
-- 
2.43.0


From d597e11675b252ef64277cfe4e09e7d5e4fbd7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:22 +0000
Subject: [PATCH 037/107] fix: engine deck compares net thrust with gross
 thrust less ram drag the right way round

---
 aviary/subsystems/propulsion/engine_deck.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aviary/subsystems/propulsion/engine_deck.py b/aviary/subsystems/propulsion/engine_deck.py
index 777e3bc..2c8d20c 100644
--- a/aviary/subsystems/propulsion/engine_deck.py
+++ b/aviary/subsystems/propulsion/engine_deck.py
@@ -468,7 +468,7 @@ class EngineDeck(EngineModel):
             # prefer using directly provided values for net thrust vs. calculating
             if THRUST in engine_variables:
                 res = abs(net_thrust_calc - original_data[THRUST])
-                if np.any(self.thrust_tol > res):
+                if np.any(res > self.thrust_tol):
                     raise UserWarning(
                         'Provided net thrust is not equal to difference (within tolerance) between '
                         f'gross thrust and ram drag in {self.error_message}'
-- 
2.43.0


From bf63a6bc2627f19699cd5bd80bba4d30c8376f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:22 +0000
Subject: [PATCH 038/107] fix: report required variables missing from an engine
 deck

---
 aviary/subsystems/propulsion/engine_deck.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/aviary/subsystems/propulsion/engine_deck.py b/aviary/subsystems/propulsion/engine_deck.py
index 2c8d20c..ee0cea2 100644
--- a/aviary/subsystems/propulsion/engine_deck.py
+++ b/aviary/subsystems/propulsion/engine_deck.py
@@ -528,16 +528,11 @@ class EngineDeck(EngineModel):
         # check that all required variables are present in engine data
         if not self.required_variables.issubset(engine_variables):
             # gather all missing required variables
-            missing_variables = set()
-            for var in engine_variables:
-                if var in self.required_variables:
-                    missing_variables.add(var)
+            missing_variables = self.required_variables.difference(engine_variables)
 
-            # if missing_variables is not empty
-            if not missing_variables:
-                raise UserWarning(
-                    f'Required variables {missing_variables} are missing from {self.error_message}'
-                )
+            raise UserWarning(
+                f'Required variables {missing_variables} are missing from {self.error_message}'
+            )
 
         # removes data points with negative thrust if requested
         if self.get_val(Aircraft.Engine.IGNORE_NEGATIVE_THRUST):
-- 
2.43.0


From 0d1a34fd19df7629f3e18bdc3035c6d67d3ecfd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:22 +0000
Subject: [PATCH 039/107] fix: ignore negative thrust in decks that lack
 optional columns

---
 aviary/subsystems/propulsion/engine_deck.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aviary/subsystems/propulsion/engine_deck.py b/aviary/subsystems/propulsion/engine_deck.py
index ee0cea2..a76ae18 100644
--- a/aviary/subsystems/propulsion/engine_deck.py
+++ b/aviary/subsystems/propulsion/engine_deck.py
@@ -538,7 +538,8 @@ class EngineDeck(EngineModel):
         if self.get_val(Aircraft.Engine.IGNORE_NEGATIVE_THRUST):
             keep_idx = np.where(data[THRUST] >= 0)
             for key in data:
-                data[key] = data[key][keep_idx]
+                if len(data[key]):
+                    data[key] = data[key][keep_idx]
 
         self.model_length = len(self.data[ALTITUDE])
 
-- 
2.43.0


From aee47f9c0c6cd6c545536fbb07f5bac33c2efc48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:22 +0000
Subject: [PATCH 040/107] fix: count the last Mach number and flight condition
 of an engine deck

---
 aviary/subsystems/propulsion/engine_deck.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/aviary/subsystems/propulsion/engine_deck.py b/aviary/subsystems/propulsion/engine_deck.py
index a76ae18..08e9038 100644
--- a/aviary/subsystems/propulsion/engine_deck.py
+++ b/aviary/subsystems/propulsion/engine_deck.py
@@ -1702,9 +1702,10 @@ class EngineDeck(EngineModel):
                 # count data associated with new altitude
                 data_indices[mach_count - 1, alt_count - 1] = 1
 
+        # the last Mach number and flight condition count as well
         self.mach_max_count = mach_count
-        self.alt_max_count = max_alt_count
-        self.data_max_count = max_data_count
+        self.alt_max_count = max(max_alt_count, alt_count)
+        self.data_max_count = max(max_data_count, data_count)
         self.data_indices = data_indices.astype(int)
 
 
-- 
2.43.0


From 58d689238315873e673da55c7070e09890c2957f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:22 +0000
Subject: [PATCH 041/107] fix: engine decks given in memory can be built

---
 aviary/subsystems/propulsion/engine_deck.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aviary/subsystems/propulsion/engine_deck.py b/aviary/subsystems/propulsion/engine_deck.py
index 08e9038..c93fae8 100644
--- a/aviary/subsystems/propulsion/engine_deck.py
+++ b/aviary/subsystems/propulsion/engine_deck.py
@@ -360,6 +360,9 @@ class EngineDeck(EngineModel):
             raw_data, self.inputs, self.outputs = read_data_file(data_file, aliases=aliases)
 
         else:
+            # data in memory does not state which variables are inputs and outputs
+            self.inputs, self.outputs = [], []
+
             # run provided data through aliases
             # create dict of what names to change, modify outside of loop
             alias_dict = {}
-- 
2.43.0


From 61aacc227b2555a3e493c80fa41b8f4cab9aad13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:22 +0000
Subject: [PATCH 042/107] fix: reading engine data from memory leaves the given
 data alone

---
 aviary/subsystems/propulsion/engine_deck.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aviary/subsystems/propulsion/engine_deck.py b/aviary/subsystems/propulsion/engine_deck.py
index c93fae8..8633c7c 100644
--- a/aviary/subsystems/propulsion/engine_deck.py
+++ b/aviary/subsystems/propulsion/engine_deck.py
@@ -363,6 +363,9 @@ class EngineDeck(EngineModel):
             # data in memory does not state which variables are inputs and outputs
             self.inputs, self.outputs = [], []
 
+            # the provided data is not modified
+            raw_data = raw_data.copy()
+
             # run provided data through aliases
             # create dict of what names to change, modify outside of loop
             alias_dict = {}
-- 
2.43.0


From 7a866a4eba2d605cc35c01fb265967c4d4c091ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:22 +0000
Subject: [PATCH 043/107] fix: engine decks report the RPM of the data

---
 aviary/subsystems/propulsion/engine_deck.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aviary/subsystems/propulsion/engine_deck.py b/aviary/subsystems/propulsion/engine_deck.py
index 8633c7c..bdee076 100644
--- a/aviary/subsystems/propulsion/engine_deck.py
+++ b/aviary/subsystems/propulsion/engine_deck.py
@@ -1057,6 +1057,8 @@ class EngineDeck(EngineModel):
         outputs = []
         if getattr(self, 'use_t4', False):
             outputs.append(Dynamic.Vehicle.Propulsion.TEMPERATURE_T4)
+        if RPM in self.engine_variables:
+            outputs.append(RPM.value)
 
         engine_group.add_subsystem(
             'interpolation', engine, promotes_inputs=['*'], promotes_outputs=outputs
@@ -1140,6 +1142,8 @@ class EngineDeck(EngineModel):
         if SHAFT_POWER_CORRECTED in engine_outputs:
             shp_units = engine_outputs.pop(SHAFT_POWER_CORRECTED)
             engine_outputs[SHAFT_POWER] = shp_units
+        # RPM is not scaled, it comes directly from the interpolator
+        engine_outputs.pop(RPM, None)
 
         engine_group.add_subsystem(
             'engine_scaling',
-- 
2.43.0


From 5106ce16049763ef053fbf44bb5dced2fc7e829a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:44 +0000
Subject: [PATCH 044/107] fix: engine decks with local or global hybrid
 throttles use the hybrid throttle of maximum thrust

---
 aviary/subsystems/propulsion/engine_deck.py | 36 ++++++++++-----------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/aviary/subsystems/propulsion/engine_deck.py b/aviary/subsystems/propulsion/engine_deck.py
index bdee076..7af3c64 100644
--- a/aviary/subsystems/propulsion/engine_deck.py
+++ b/aviary/subsystems/propulsion/engine_deck.py
@@ -905,7 +905,9 @@ class EngineDeck(EngineModel):
         #      Pre-solve max throttle/hybrid throttle for each flight condition, interpolate on
         #      reduced data set?
         if self.use_thrust or self.use_shaft_power:
-            if self.global_throttle or (self.global_hybrid_throttle and self.use_hybrid_throttle):
+            global_hybrid = self.use_hybrid_throttle and self.global_hybrid_throttle
+            local_hybrid = self.use_hybrid_throttle and not self.global_hybrid_throttle
+            if self.global_throttle or global_hybrid:
                 # create IndepVarComp to pass maximum throttle to max thrust interpolator
                 fixed_throttles = om.IndepVarComp()
                 if self.global_throttle:
@@ -915,16 +917,14 @@ class EngineDeck(EngineModel):
                         units='unitless',
                         desc='Engine maximum throttle',
                     )
-                if self.global_hybrid_throttle and self.use_hybrid_throttle:
+                if global_hybrid:
                     fixed_throttles.add_output(
                         'hybrid_throttle_max',
                         val=np.ones(num_nodes) * self.hybrid_throttle_max,
                         units='unitless',
                         desc='Engine maximum hybrid throttle',
                     )
-            if not (
-                self.global_throttle or (self.global_hybrid_throttle and self.use_hybrid_throttle)
-            ):
+            if not self.global_throttle or local_hybrid:
                 interp_throttles = om.MetaModelSemiStructuredComp(
                     method=interp_method, extrapolate=False, vec_size=num_nodes
                 )
@@ -974,7 +974,7 @@ class EngineDeck(EngineModel):
                         units='unitless',
                         desc='max throttle available at current flight condition',
                     )
-                if not self.global_hybrid_throttle and self.use_hybrid_throttle:
+                if local_hybrid:
                     interp_throttles.add_output(
                         'hybrid_throttle_max',
                         self.hybrid_throttle_max,
@@ -1087,12 +1087,12 @@ class EngineDeck(EngineModel):
             )
 
         if self.use_thrust or self.use_shaft_power:
-            if self.global_throttle or (self.global_hybrid_throttle and self.use_hybrid_throttle):
+            if self.global_throttle or global_hybrid:
                 engine_group.add_subsystem(
                     'fixed_max_throttles',
                     fixed_throttles,
                 )
-            else:
+            if not self.global_throttle or local_hybrid:
                 engine_group.add_subsystem(
                     'interp_max_throttles',
                     interp_throttles,
@@ -1109,15 +1109,15 @@ class EngineDeck(EngineModel):
             )
 
             # manually connect max throttles - do not promote them out of group
-            if self.global_throttle or (self.global_hybrid_throttle and self.use_hybrid_throttle):
-                engine_group.connect(
-                    'fixed_max_throttles.throttle_max',
-                    'max_interpolation.throttle_max',
-                )
-            else:
+            fixed, local = 'fixed_max_throttles', 'interp_max_throttles'
+            engine_group.connect(
+                f'{fixed if self.global_throttle else local}.throttle_max',
+                'max_interpolation.throttle_max',
+            )
+            if self.use_hybrid_throttle:
                 engine_group.connect(
-                    'interp_max_throttles.throttle_max',
-                    'max_interpolation.throttle_max',
+                    f'{fixed if global_hybrid else local}.hybrid_throttle_max',
+                    'max_interpolation.hybrid_throttle_max',
                 )
 
             if uncorrect_shp:
@@ -1528,8 +1528,8 @@ class EngineDeck(EngineModel):
             if self.global_hybrid_throttle:
                 norm_hybrid_throttle = _hybrid_throttle_norm(self.data[HYBRID_THROTTLE])
 
-                self.hybrid_throttle_min = min(self.data[HYBRID_THROTTLE])
-                self.hybrid_throttle_max = max(self.data[HYBRID_THROTTLE])
+                self.hybrid_throttle_min = min(norm_hybrid_throttle)
+                self.hybrid_throttle_max = max(norm_hybrid_throttle)
                 self.data[HYBRID_THROTTLE] = norm_hybrid_throttle
             else:
                 self.data[HYBRID_THROTTLE] = normalized_hybrid_throttle
-- 
2.43.0


From 8c13f7c45de8730dfd96da0d186df21965092488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:17 +0000
Subject: [PATCH 045/107] fix: phase options given for an engine model reach
 its mission model

---
 aviary/subsystems/propulsion/propulsion_mission.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/aviary/subsystems/propulsion/propulsion_mission.py b/aviary/subsystems/propulsion/propulsion_mission.py
index 2bc160b..fcf4313 100644
--- a/aviary/subsystems/propulsion/propulsion_mission.py
+++ b/aviary/subsystems/propulsion/propulsion_mission.py
@@ -127,14 +127,14 @@ class PropulsionMission(om.Group):
                         num_nodes=nn,
                         aviary_inputs=options,
                         user_options=user_options,
-                        subsystem_options={},
+                        subsystem_options=kwargs,
                     )
                 else:
                     base_comp = engine.build_mission(
                         num_nodes=nn,
                         aviary_inputs=options,
                         user_options=user_options,
-                        subsystem_options={},
+                        subsystem_options=kwargs,
                     )
                     engine_model = om.Group()
 
@@ -142,7 +142,7 @@ class PropulsionMission(om.Group):
                         num_nodes=nn,
                         aviary_inputs=options,
                         user_options=user_options,
-                        subsystem_options={},
+                        subsystem_options=kwargs,
                     )
 
                     input_aliases = [(Dynamic.Vehicle.Propulsion.THROTTLE, 'throttle_max')]
@@ -198,14 +198,14 @@ class PropulsionMission(om.Group):
                     num_nodes=nn,
                     aviary_inputs=options,
                     user_options=user_options,
-                    subsystem_options={},
+                    subsystem_options=kwargs,
                 )
             else:
                 base_comp = engine.build_mission(
                     num_nodes=nn,
                     aviary_inputs=options,
                     user_options=user_options,
-                    subsystem_options={},
+                    subsystem_options=kwargs,
                 )
                 engine_model = om.Group()
 
@@ -213,7 +213,7 @@ class PropulsionMission(om.Group):
                     num_nodes=nn,
                     aviary_inputs=options,
                     user_options=user_options,
-                    subsystem_options={},
+                    subsystem_options=kwargs,
                 )
 
                 input_aliases = [(Dynamic.Vehicle.Propulsion.THROTTLE, 'throttle_max')]
-- 
2.43.0


From aff211d29aa15b66be8cd84441af8263e5a55cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:13 +0000
Subject: [PATCH 046/107] fix: options of an engine no longer reach engines
 whose name starts with its name

---
 aviary/variable_info/functions.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/aviary/variable_info/functions.py b/aviary/variable_info/functions.py
index 1d8cf9d..12f1d65 100644
--- a/aviary/variable_info/functions.py
+++ b/aviary/variable_info/functions.py
@@ -607,5 +607,9 @@ def setup_model_options(
                 val, units = aviary_inputs.get_item(key)
                 opts[key] = (val[idx], units)
 
-        path = f'{prefix}*propulsion.{eng_name}*'
-        prob.model_options[path] = opts
+        # the name of one engine may be the start of the name of another
+        for path in (
+            f'{prefix}*propulsion.{eng_name}',
+            f'{prefix}*propulsion.{eng_name}.*',
+        ):
+            prob.model_options[path] = opts
-- 
2.43.0


From 55be06e17578138935049edbcf29ae71118db548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:58 +0000
Subject: [PATCH 047/107] fix: values of integer arrays are no longer truncated
 when read in other units

---
 aviary/utils/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aviary/utils/utils.py b/aviary/utils/utils.py
index 1ad6e80..7789877 100644
--- a/aviary/utils/utils.py
+++ b/aviary/utils/utils.py
@@ -58,6 +58,10 @@ def wrapped_convert_units(val_unit_tuple, new_units):
         else:
             istuple = False
 
+        # converted values assigned to an integer array would be truncated
+        if isinstance(value, np.ndarray) and np.issubdtype(value.dtype, np.integer):
+            value = value.astype(float)
+
         for i, item in enumerate(value):
             # Any entry may be none.
             if value[i] is not None:
-- 
2.43.0


From 076411d4dc89443afbdc15b3257180bbf23fcd22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:58 +0000
Subject: [PATCH 048/107] fix: units of the battery volume

---
 aviary/variable_info/variable_meta_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aviary/variable_info/variable_meta_data.py b/aviary/variable_info/variable_meta_data.py
index a170848..b38223d 100644
--- a/aviary/variable_info/variable_meta_data.py
+++ b/aviary/variable_info/variable_meta_data.py
@@ -303,7 +303,7 @@ add_meta_data(
     Aircraft.Battery.VOLUME,
     meta_data=_MetaData,
     historical_name={'GASP': None, 'FLOPS': None},
-    units='ft*3',
+    units='ft**3',
     desc='total volume of the battery pack',
     default_value=0.0,
 )
-- 
2.43.0


From f2173b308e6b427a4ed70b20e8d36df170e2c893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:24 +0000
Subject: [PATCH 049/107] fix: integer inputs no longer drop the fractional
 part of the number given

---
 aviary/utils/utils.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/aviary/utils/utils.py b/aviary/utils/utils.py
index 7789877..5142272 100644
--- a/aviary/utils/utils.py
+++ b/aviary/utils/utils.py
@@ -242,6 +242,11 @@ def cast_type(key, val, meta_data=CoreMetaData):
             cast_val = enum_setter(meta_data[key], cast_val)
         else:
             for _type in expected_types:
+                if _type is int:
+                    # Don't drop the fractional part of a number
+                    items = cast_val if isiterable(cast_val) else [cast_val]
+                    if any(isinstance(item, float) and not item.is_integer() for item in items):
+                        continue
                 try:
                     if isiterable(cast_val):
                         if isinstance(cast_val, np.ndarray):
-- 
2.43.0


From cc9c6b3f184cccef0d1c0817cec39e5a355e8670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:33 +0000
Subject: [PATCH 050/107] fix: numbers given in lists for boolean inputs are
 rejected like single numbers

---
 aviary/utils/utils.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/aviary/utils/utils.py b/aviary/utils/utils.py
index 5142272..8e114a7 100644
--- a/aviary/utils/utils.py
+++ b/aviary/utils/utils.py
@@ -248,17 +248,18 @@ def cast_type(key, val, meta_data=CoreMetaData):
                     if any(isinstance(item, float) and not item.is_integer() for item in items):
                         continue
                 try:
+                    # Don't cast things to bool, most types will convert
+                    if _type is bool:
+                        continue
                     if isiterable(cast_val):
                         if isinstance(cast_val, np.ndarray):
                             cast_val = np.array([_type(item) for item in cast_val])
                         else:
                             cast_val = type(cast_val)([_type(item) for item in cast_val])
-                    # Don't cast things to bool, most types will convert
-                    elif _type is not bool:
-                        if _type is np.ndarray:
-                            cast_val = np.array([cast_val])
-                        else:
-                            cast_val = _type(cast_val)
+                    elif _type is np.ndarray:
+                        cast_val = np.array([cast_val])
+                    else:
+                        cast_val = _type(cast_val)
                 except (ValueError, TypeError):
                     # try another value in expected_types
                     pass
-- 
2.43.0


From 38530827e201c0ed765ce04a478e9f101d01d474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:50 +0000
Subject: [PATCH 051/107] fix: sigmoid of a scalar compared the distance times
 instead of divided by mu, derivative failed for scalars

---
 aviary/utils/math.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/aviary/utils/math.py b/aviary/utils/math.py
index 57a17f2..e2e0789 100644
--- a/aviary/utils/math.py
+++ b/aviary/utils/math.py
@@ -46,7 +46,7 @@ def sigmoidX(x, x0, mu=1.0):
         else:
             dtype = complex
         y = 0
-        if (x - x0) * mu > -320:
+        if (np.real(x) - x0) / mu > -320:
             y = 1 / (1 + np.exp(-(x - x0) / mu))
     if dtype == float:
         y = y.real
@@ -85,12 +85,19 @@ def dSigmoidXdx(x, x0, mu=1.0):
         term2 = np.zeros(n_size, dtype=dtype)
         # avoid overflow in squared term, underflow seems to be ok
         calc_idx = np.where((x.real - x0) / mu > -320)
-        term[calc_idx] = np.exp(-(x[calc_idx] - x0) / mu)
+        if isinstance(x0, np.ndarray) and len(x0) == n_size:
+            term[calc_idx] = np.exp(-(x[calc_idx] - x0[calc_idx]) / mu)
+        else:
+            term[calc_idx] = np.exp(-(x[calc_idx] - x0) / mu)
         term2[calc_idx] = (1 + term[calc_idx]) * (1 + term[calc_idx])
         y[calc_idx] = term[calc_idx] / mu / term2[calc_idx]
     else:
+        if isinstance(x, float):
+            dtype = float
+        else:
+            dtype = complex
         y = 0
-        if (x - x0) * mu > -320:
+        if (np.real(x) - x0) / mu > -320:
             term = np.exp(-(x - x0) / mu)
             term2 = (1 + term) * (1 + term)
             y = term / mu / term2
-- 
2.43.0


From 619307a8fcc92e2cbd7a9e35da68e6d84817d884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:01 +0000
Subject: [PATCH 052/107] fix: smooth minimum of large values was infinite

---
 aviary/utils/math.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/aviary/utils/math.py b/aviary/utils/math.py
index e2e0789..d5766b6 100644
--- a/aviary/utils/math.py
+++ b/aviary/utils/math.py
@@ -118,7 +118,11 @@ def smooth_min(x, b, mu=100.0):
     Returns:
     float or array-like: The smooth approximation of min(x, b).
     """
-    sum_log_exp = np.log(np.exp(np.multiply(-mu, x)) + np.exp(np.multiply(-mu, b)))
+    # factor out the smaller value, or the exponentials vanish where both values are large
+    mu_x = np.multiply(-mu, x)
+    mu_b = np.multiply(-mu, b)
+    m = np.maximum(mu_x, mu_b)
+    sum_log_exp = m + np.log(np.exp(mu_x - m) + np.exp(mu_b - m))
     rv = -(1 / mu) * sum_log_exp
     return rv
 
@@ -135,9 +139,10 @@ def d_smooth_min(x, b, mu=100.0):
     Returns:
     float or array-like: The smooth approximation of derivative of min(x, b).
     """
-    d_sum_log_exp = np.exp(np.multiply(-mu, x)) / (
-        np.exp(np.multiply(-mu, x)) + np.exp(np.multiply(-mu, b))
-    )
+    mu_x = np.multiply(-mu, x)
+    mu_b = np.multiply(-mu, b)
+    m = np.maximum(mu_x, mu_b)
+    d_sum_log_exp = np.exp(mu_x - m) / (np.exp(mu_x - m) + np.exp(mu_b - m))
     return d_sum_log_exp
 
 
-- 
2.43.0


From 535a1e2c1c62632bd00a7f23bc5003bd66be9cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:28 +0000
Subject: [PATCH 053/107] fix: interpolators read labelled outputs and columns
 in any order, and leave the given data alone

---
 aviary/utils/data_interpolator_builder.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/aviary/utils/data_interpolator_builder.py b/aviary/utils/data_interpolator_builder.py
index ebc9f67..47b7bfb 100644
--- a/aviary/utils/data_interpolator_builder.py
+++ b/aviary/utils/data_interpolator_builder.py
@@ -105,7 +105,7 @@ def build_data_interpolator(
     # Scenario 3: Both inputs and outputs provided
     # Check that nothing in interpolator_outputs conflicts with inputs - read_data_file() already
     # checks for "double labeling" of inputs/outputs in data file
-    for key in interpolator_outputs:
+    for key in outputs:
         if key in inputs:
             raise UserWarning(f'Variable <{key}> was specified as both an input and a output.')
     for key in all_vars:
@@ -125,14 +125,14 @@ def build_data_interpolator(
     for key, (val, units) in interpolator_data.items():
         if not isinstance(val, np.ndarray):
             val = np.array(val)
-        if key in interpolator_outputs:
+        if key in outputs:
             dep_vars.set_val(key, val, units)
         else:
             indep_vars.set_val(key, val, units)
-    # update interpolator_data with correctly ordered indep/dep vars in numpy arrays
-    interpolator_data.update(indep_vars)
-    for key, (val, units) in dep_vars.items():
-        interpolator_data.set_val(key, val, units)
+    # collect correctly ordered indep/dep vars in numpy arrays (the data provided by the caller is
+    # left as is)
+    interpolator_data = NamedValues(indep_vars)
+    interpolator_data.update(dep_vars)
 
     # TODO investigate creating structured grid from semistructured grid via extrapolation
 
-- 
2.43.0


From d55099398b1f4e79461977b8ae5bcfa6b876860c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:55 +0000
Subject: [PATCH 054/107] fix: options derived from inputs given in other units

---
 aviary/utils/process_input_decks.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aviary/utils/process_input_decks.py b/aviary/utils/process_input_decks.py
index 044ecbe..847b15d 100644
--- a/aviary/utils/process_input_decks.py
+++ b/aviary/utils/process_input_decks.py
@@ -280,7 +280,8 @@ def update_dependent_options(aircraft_values: AviaryValues, dependent_options):
     # gets the names of all the variables that affect dependent options
     for var_name, dependency in dependent_options:
         if var_name in aircraft_values.keys():
-            var_value, var_units = aircraft_values.get_item(var_name)
+            # the values in dependent_options are in the default units of the variable
+            var_value = aircraft_values.get_val(var_name, CoreMetaData[var_name]['units'])
             # dependency is a dictionary that contains the target option, the relationship to the variable and the output values
             if dependency['relation'] in operation_dict:
                 comp = operation_dict[dependency['relation']]
-- 
2.43.0


From 9eca628d80571c5e9fcaf48a4a186d51fdc9810a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:55 +0000
Subject: [PATCH 055/107] fix: lists of enumerations are saved to csv by value

---
 aviary/utils/aviary_inputs_to_csv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aviary/utils/aviary_inputs_to_csv.py b/aviary/utils/aviary_inputs_to_csv.py
index 7c0b638..8448380 100644
--- a/aviary/utils/aviary_inputs_to_csv.py
+++ b/aviary/utils/aviary_inputs_to_csv.py
@@ -20,7 +20,7 @@ def save_to_csv_file(filename, aviary_inputs):
         for name, (value, units) in sorted(aviary_inputs):
             output = [name]
             if isinstance(value, (np.ndarray, list, tuple)):
-                output.extend(value)
+                output.extend([v.value if isinstance(v, Enum) else v for v in value])
             elif isinstance(value, Enum):
                 output.append(value.value)
             else:
-- 
2.43.0


From 8e2b56b4074c501ec394af27e28575a9ca0515d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:13 +0000
Subject: [PATCH 056/107] fix: lists in brackets without units and text with
 special characters in vehicle files

---
 aviary/utils/process_input_decks.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/aviary/utils/process_input_decks.py b/aviary/utils/process_input_decks.py
index 847b15d..55f6628 100644
--- a/aviary/utils/process_input_decks.py
+++ b/aviary/utils/process_input_decks.py
@@ -175,7 +175,13 @@ def parse_inputs(
             if len(data_list) == 0:
                 continue
             var_name = data_list.pop(0)
-            if valid_units(data_list[-1]):
+            try:
+                has_units = valid_units(data_list[-1])
+            except SyntaxError:
+                # e.g. the end of a list in brackets, or text with special characters
+                has_units = False
+
+            if has_units:
                 # if the last element is a unit, remove it from the list and update the variable's units
                 data_units = data_list.pop()
 
-- 
2.43.0


From 1a5926e07150a3615fed7140f0114a970010c600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:16 +0000
Subject: [PATCH 057/107] fix: interpolators order the columns of the given
 data in place, lists of numpy booleans are accepted again

---
 aviary/utils/data_interpolator_builder.py | 7 ++++---
 aviary/utils/utils.py                     | 5 ++++-
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/aviary/utils/data_interpolator_builder.py b/aviary/utils/data_interpolator_builder.py
index 47b7bfb..e1f62e6 100644
--- a/aviary/utils/data_interpolator_builder.py
+++ b/aviary/utils/data_interpolator_builder.py
@@ -129,9 +129,10 @@ def build_data_interpolator(
             dep_vars.set_val(key, val, units)
         else:
             indep_vars.set_val(key, val, units)
-    # collect correctly ordered indep/dep vars in numpy arrays (the data provided by the caller is
-    # left as is)
-    interpolator_data = NamedValues(indep_vars)
+    # update interpolator_data with correctly ordered indep/dep vars in numpy arrays
+    for key in list(interpolator_data.keys()):
+        interpolator_data.delete(key)
+    interpolator_data.update(indep_vars)
     interpolator_data.update(dep_vars)
 
     # TODO investigate creating structured grid from semistructured grid via extrapolation
diff --git a/aviary/utils/utils.py b/aviary/utils/utils.py
index 8e114a7..087c330 100644
--- a/aviary/utils/utils.py
+++ b/aviary/utils/utils.py
@@ -249,7 +249,10 @@ def cast_type(key, val, meta_data=CoreMetaData):
                         continue
                 try:
                     # Don't cast things to bool, most types will convert
-                    if _type is bool:
+                    if _type is bool and not (
+                        isiterable(cast_val)
+                        and all(isinstance(item, (bool, np.bool_)) for item in cast_val)
+                    ):
                         continue
                     if isiterable(cast_val):
                         if isinstance(cast_val, np.ndarray):
-- 
2.43.0


From bba6ea1a8dd6e4fa516254ddad2974c8150fd35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:25 +0000
Subject: [PATCH 058/107] fix: headers of data files with units that contain
 parentheses or with tabs

---
 aviary/utils/csv_data_file.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/aviary/utils/csv_data_file.py b/aviary/utils/csv_data_file.py
index 88d3590..f6f530c 100644
--- a/aviary/utils/csv_data_file.py
+++ b/aviary/utils/csv_data_file.py
@@ -107,8 +107,11 @@ def read_data_file(
                     # list of which column goes with each valid header entry
                     valid_indices = []
                     for index in range(len(line_data)):
-                        item = re.split('[(,]', line_data[index])
-                        item = [item[i].strip(') ') for i in range(len(item))]
+                        # separate the name from units and labels, which are inside the outermost
+                        # parentheses (units themselves can contain parentheses)
+                        item = re.match(r'([^(]*)(?:\((.*?)\)?)?$', line_data[index].strip())
+                        item = item[1].split(',') + (item[2].split(',') if item[2] else [])
+                        item = [entry.strip() for entry in item]
                         # OpenMDAO vars can't have spaces, convert to underscores
                         name = re.sub('\\s', '_', item[0])
                         if aliases:
-- 
2.43.0


From ff13db249f695c4db2cbddd4cf42f6bb87a27f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:25 +0000
Subject: [PATCH 059/107] fix: data files with two columns of the same name are
 rejected, they shifted the other columns

---
 aviary/utils/csv_data_file.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aviary/utils/csv_data_file.py b/aviary/utils/csv_data_file.py
index f6f530c..63d45e2 100644
--- a/aviary/utils/csv_data_file.py
+++ b/aviary/utils/csv_data_file.py
@@ -186,6 +186,10 @@ def read_data_file(
                                     )
                             units = default_units
 
+                        if name in header:
+                            raise ValueError(
+                                f'{filepath}: Column <{name}> appears more than once in the header.'
+                            )
                         header[name] = units
                         valid_indices.append(index)
 
-- 
2.43.0


From 37b76a6925b79a36daef7432fe67f665b9047de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:41 +0000
Subject: [PATCH 060/107] fix: rows of data files with missing or surplus
 values are rejected, they shifted values to other columns

---
 aviary/utils/csv_data_file.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/aviary/utils/csv_data_file.py b/aviary/utils/csv_data_file.py
index 63d45e2..8c7f03c 100644
--- a/aviary/utils/csv_data_file.py
+++ b/aviary/utils/csv_data_file.py
@@ -91,13 +91,17 @@ def read_data_file(
             # do not split by delimiters inside parentheses yet
             line_data = re.split(r'[;,]\s*(?![^()]*\))', line_data.strip())
 
+            # ignore trailing delimiters
+            while line_data and line_data[-1].strip() == '':
+                line_data.pop()
+
             # ignore empty lines
-            if not line_data or line_data == ['']:
+            if not line_data:
                 continue
 
-            # try to convert line_data to float, skip any blank strings
+            # try to convert line_data to float
             try:
-                line_data = [float(var) for var in line_data if var != '']
+                line_data = [float(var) for var in line_data]
             # data contains things other than floats
             except ValueError:
                 # skip checking for header data if not required
@@ -196,6 +200,7 @@ def read_data_file(
                     if len(header) > 0:
                         check_for_header = False
                         raw_data = {key: [] for key in header.keys()}
+                        num_columns = len(line_data)
                         continue
 
                 # only raise error if not checking for header, or invalid header found
@@ -205,7 +210,15 @@ def read_data_file(
 
             # This point is reached when the first valid numerical entry in data file is found. Stop
             # looking for header data from now on
-            check_for_header = False
+            if check_for_header:
+                raise ValueError(f'No header found in data file <{filepath}>')
+
+            # every row needs a value for every column
+            if len(line_data) != num_columns:
+                raise ValueError(
+                    f'{len(line_data)} values found in data file <{filepath}> on line '
+                    f'{str(line_count)}, but the header has {num_columns} columns'
+                )
 
             # pull out data for each valid header, ignore other columns
             for idx, variable in enumerate(header.keys()):
-- 
2.43.0


From 08218c8b77bc230fabfdd77add0b7453c5eebe82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:15 +0000
Subject: [PATCH 061/107] fix: comments of several lines or with any characters
 in written data files

---
 aviary/utils/csv_data_file.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aviary/utils/csv_data_file.py b/aviary/utils/csv_data_file.py
index 8c7f03c..fb84872 100644
--- a/aviary/utils/csv_data_file.py
+++ b/aviary/utils/csv_data_file.py
@@ -281,6 +281,9 @@ def write_data_file(
         # don't change the list provided by the caller
         comments = list(comments)
 
+    # every line of a comment needs its own comment character
+    comments = [line for comment in comments for line in (comment.splitlines() or [''])]
+
     # strip '#' from comments - np.savetxt() will automatically add them
     for idx, line in enumerate(comments):
         if len(line) > 0:
@@ -362,4 +365,5 @@ def write_data_file(
         delimiter=',',
         header=', '.join(header),
         comments='\n'.join(comments),
+        encoding='utf-8',
     )
-- 
2.43.0


From 5d89e137288e371db7abbc6e4b2feda7ce9d41ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:45 +0000
Subject: [PATCH 062/107] fix: columns named input or output in data files

---
 aviary/utils/csv_data_file.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aviary/utils/csv_data_file.py b/aviary/utils/csv_data_file.py
index fb84872..90c3c20 100644
--- a/aviary/utils/csv_data_file.py
+++ b/aviary/utils/csv_data_file.py
@@ -118,6 +118,8 @@ def read_data_file(
                         item = [entry.strip() for entry in item]
                         # OpenMDAO vars can't have spaces, convert to underscores
                         name = re.sub('\\s', '_', item[0])
+                        # a column can be named "input" or "output" without being labeled so
+                        item[0] = ''
                         if aliases:
                             # "reverse" lookup name in alias dict
                             for key in aliases:
-- 
2.43.0


From e8b526f811c870056afa0ee0cd33e1aa39b93ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:43 +0000
Subject: [PATCH 063/107] fix: GASP economy class counts were overwritten by
 the total number of passengers

---
 aviary/utils/preprocessors.py | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/aviary/utils/preprocessors.py b/aviary/utils/preprocessors.py
index c0fa43a..d2d4fed 100644
--- a/aviary/utils/preprocessors.py
+++ b/aviary/utils/preprocessors.py
@@ -316,7 +316,18 @@ def preprocess_crewpayload(aviary_options: AviaryValues, meta_data=CoreMetaData,
                     'Information on seat class distribution for aircraft design was not provided - '
                     f'assuming all {design_pax} passengers are economy class.'
                 )
-            aviary_options.set_val(Aircraft.CrewPayload.Design.NUM_ECONOMY_CLASS, design_pax)
+            # classes that are not needed by the mass method can still have been provided
+            num_other = sum(
+                aviary_options.get_val(key)
+                for key in (
+                    Aircraft.CrewPayload.Design.NUM_FIRST_CLASS,
+                    Aircraft.CrewPayload.Design.NUM_BUSINESS_CLASS,
+                )
+                if key in aviary_options
+            )
+            aviary_options.set_val(
+                Aircraft.CrewPayload.Design.NUM_ECONOMY_CLASS, max(design_pax - num_other, 0)
+            )
         else:
             if design_pax_sum_provided and verbosity >= Verbosity.BRIEF:
                 warnings.warn(
@@ -336,7 +347,18 @@ def preprocess_crewpayload(aviary_options: AviaryValues, meta_data=CoreMetaData,
                     'Information on seat class distribution for current mission was not provided - '
                     f'assuming that all {mission_pax} passengers are economy class.'
                 )
-            aviary_options.set_val(Aircraft.CrewPayload.NUM_ECONOMY_CLASS, mission_pax)
+            # classes that are not needed by the mass method can still have been provided
+            num_other = sum(
+                aviary_options.get_val(key)
+                for key in (
+                    Aircraft.CrewPayload.NUM_FIRST_CLASS,
+                    Aircraft.CrewPayload.NUM_BUSINESS_CLASS,
+                )
+                if key in aviary_options
+            )
+            aviary_options.set_val(
+                Aircraft.CrewPayload.NUM_ECONOMY_CLASS, max(mission_pax - num_other, 0)
+            )
         else:
             if pax_sum_provided and verbosity >= Verbosity.BRIEF:
                 warnings.warn(
-- 
2.43.0


From c1e1979a1997c4458d57bded5fa82af59f41b09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:43 +0000
Subject: [PATCH 064/107] fix: fuel capacities that add up are not rejected
 because of rounding

---
 aviary/utils/preprocessors.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/aviary/utils/preprocessors.py b/aviary/utils/preprocessors.py
index d2d4fed..97f0de5 100644
--- a/aviary/utils/preprocessors.py
+++ b/aviary/utils/preprocessors.py
@@ -725,7 +725,9 @@ def preprocess_fuel_capacities(aviary_options: AviaryValues, verbosity=None):
             )
 
             # check if the user inputs are self consistent (as far as possible at this stage!) Aviary can still calculate outputs at runtime.
-            if capacity_count == 3 and capacity_check != total_capacity:
+            if capacity_count == 3 and not np.isclose(
+                capacity_check, total_capacity, rtol=1e-9
+            ):
                 raise UserWarning(
                     f'Aircraft.Fuel.MAX_CAPACITY_MASS ({total_capacity} lbm) is not equal to sum of '
                     f'Aircraft.Fuel.WING_FUEL_CAPACITY ({wing_capacity} lbm), '
@@ -733,7 +735,7 @@ def preprocess_fuel_capacities(aviary_options: AviaryValues, verbosity=None):
                     f'Aircraft.Fuel.AUXILIARY_FUEL_CAPACITY ({auxiliary_capacity} lbm)'
                     f'(total of {capacity_check} lbm)'
                 )
-            elif capacity_count < 3 and capacity_check > total_capacity:
+            elif capacity_count < 3 and capacity_check > total_capacity * (1 + 1e-9):
                 raise UserWarning(
                     f'Aircraft.Fuel.MAX_CAPACITY_MASS ({total_capacity}) is less than sum of '
                     f'Aircraft.Fuel.WING_FUEL_CAPACITY ({wing_capacity} lbm), '
-- 
2.43.0


From 1f2dda6344a9f123de42643ee8e6d1a397314920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:43 +0000
Subject: [PATCH 065/107] fix: tail mount location preprocessing without a
 given aircraft type

---
 aviary/utils/preprocessors.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/aviary/utils/preprocessors.py b/aviary/utils/preprocessors.py
index 97f0de5..1c03952 100644
--- a/aviary/utils/preprocessors.py
+++ b/aviary/utils/preprocessors.py
@@ -636,7 +636,10 @@ def preprocess_crewpayload(aviary_options: AviaryValues, meta_data=CoreMetaData,
             if (
                 Aircraft.Engine.NUM_FUSELAGE_ENGINES in aviary_options
                 and num_fulselage_engines > 1
-                and aviary_options.get_val(Aircraft.Design.TYPE) == AircraftTypes.TRANSPORT
+                and (
+                    Aircraft.Design.TYPE not in aviary_options
+                    or aviary_options.get_val(Aircraft.Design.TYPE) == AircraftTypes.TRANSPORT
+                )
             ):
                 HHT = 1
                 if verbosity >= Verbosity.BRIEF:
-- 
2.43.0


From 97372a0bdabde9e5b391f6a672baf2cddc826099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:18 +0000
Subject: [PATCH 066/107] fix: wing locations of engine types with and without
 locations of their own

---
 aviary/utils/preprocessors.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/aviary/utils/preprocessors.py b/aviary/utils/preprocessors.py
index 1c03952..336bb6b 100644
--- a/aviary/utils/preprocessors.py
+++ b/aviary/utils/preprocessors.py
@@ -860,7 +860,10 @@ def preprocess_propulsion(
                         aviary_val = aviary_options.get_val(var, units)
                     # if the variable is not in aviary_options, use default from metadata
                     except (KeyError, IndexError):
-                        vec.append(default_value)
+                        if isiterable(default_value) and multidimensional:
+                            vec.extend(default_value)
+                        else:
+                            vec.append(default_value)
                     else:
                         # save value from aviary_options
                         if isiterable(aviary_val) and len(aviary_val) > 1:
-- 
2.43.0


From 8bffdb1ea6534d5e705e4a3ef4edf62266a5463b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:03 +0000
Subject: [PATCH 067/107] fix: additional engine mass fractions given for
 several engine types were repeated

---
 aviary/utils/preprocessors.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/aviary/utils/preprocessors.py b/aviary/utils/preprocessors.py
index 336bb6b..7534d57 100644
--- a/aviary/utils/preprocessors.py
+++ b/aviary/utils/preprocessors.py
@@ -829,9 +829,13 @@ def preprocess_propulsion(
             else:
                 typeset = (meta_data[var]['types'],)
 
-            # Variables are multidimensional if their base types have iterables, and are
-            # flagged as `multivalue`
-            multidimensional = set(typeset) & set((list, tuple, np.ndarray)) and multivalue
+            # Variables are multidimensional if their base types have iterables, they are flagged as
+            # `multivalue`, and their default is iterable (so each engine has several values)
+            multidimensional = (
+                set(typeset) & set((list, tuple, np.ndarray))
+                and multivalue
+                and isiterable(default_value)
+            )
 
             # vec is where the vectorized engine data is stored - always a list right
             # now, converted to other types like np array later
-- 
2.43.0


From b99f5abeaa85e24a242370c7eaf285c5c78a7f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:01 +0000
Subject: [PATCH 068/107] fix: nacelle and pylon drag factors, which are common
 to all engine types, can be given

---
 aviary/utils/preprocessors.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aviary/utils/preprocessors.py b/aviary/utils/preprocessors.py
index 7534d57..73b5d35 100644
--- a/aviary/utils/preprocessors.py
+++ b/aviary/utils/preprocessors.py
@@ -807,7 +807,8 @@ def preprocess_propulsion(
     # Vectorize engine variables. Only update variables in update_list that are relevant
     # to engines (defined by _get_engine_variables())
     for var in _get_engine_variables():
-        if var in update_list:
+        # variables with a single value for all engine types are not vectorized
+        if var in update_list and meta_data[var]['multivalue']:
             dtype = meta_data[var]['types']
             default_value = meta_data[var]['default_value']
             multivalue = meta_data[var]['multivalue']
-- 
2.43.0


From 6ee3af285c711d6f0b13f179ca64bc99c6d27d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:14 +0000
Subject: [PATCH 069/107] fix: GASP decks with a gear ratio can be converted

---
 aviary/utils/fortran_to_aviary.py | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/aviary/utils/fortran_to_aviary.py b/aviary/utils/fortran_to_aviary.py
index 04d1ae9..2e2c0b9 100644
--- a/aviary/utils/fortran_to_aviary.py
+++ b/aviary/utils/fortran_to_aviary.py
@@ -349,9 +349,9 @@ def process_and_store_data(
         vehicle_data['input_values'] = set_value(
             Aircraft.Engine.Gearbox.GEAR_RATIO,
             var_values,
+            data_units,
             vehicle_data['input_values'],
             var_ind=var_ind,
-            units=data_units,
         )
 
     for name in list_of_equivalent_aviary_names:
@@ -784,13 +784,6 @@ def update_gasp_options(vehicle_data, verbosity=Verbosity.BRIEF):
     # the mission
     input_values.set_val(Aircraft.Engine.GLOBAL_THROTTLE, [True])
 
-    # GEARBOX
-    # Aviary has a reduction gearbox which is 1/gear ratio of GASP gearbox
-    if Aircraft.Engine.Gearbox.GEAR_RATIO in input_values:
-        ratios = input_values.get_val(Aircraft.Engine.Gearbox.GEAR_RATIO)
-        ratios = [1 / val for val in ratios]
-        input_values.set_val(Aircraft.Engine.Gearbox.GEAR_RATIO, ratios, units='unitless')
-
     # CARGO
     if Aircraft.CrewPayload.Design.MAX_CARGO_MASS in input_values:
         if input_values.get_val(Aircraft.CrewPayload.Design.MAX_CARGO_MASS, 'lbm')[0] >= 0:
-- 
2.43.0


From 8fdd282b52ae155383564ed20ed158af04056cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:14 +0000
Subject: [PATCH 070/107] fix: initial guesses of one converted deck do not
 appear in the next one

---
 aviary/utils/fortran_to_aviary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aviary/utils/fortran_to_aviary.py b/aviary/utils/fortran_to_aviary.py
index 2e2c0b9..ba24cdf 100644
--- a/aviary/utils/fortran_to_aviary.py
+++ b/aviary/utils/fortran_to_aviary.py
@@ -61,7 +61,7 @@ def fortran_to_aviary(
     vehicle_data = {
         'input_values': NamedValues(),
         'unused_values': NamedValues(),
-        'initialization_guesses': initialization_guesses,
+        'initialization_guesses': dict(initialization_guesses),
     }
 
     fortran_deck: Path = get_path(fortran_deck, verbosity=verbosity)
-- 
2.43.0


From 71623b7ca51006f63c571c46e3b36d5b36fe1305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:14 +0000
Subject: [PATCH 071/107] fix: variables whose name begins another, unused one
 are converted

---
 aviary/utils/fortran_to_aviary.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aviary/utils/fortran_to_aviary.py b/aviary/utils/fortran_to_aviary.py
index ba24cdf..4657fe1 100644
--- a/aviary/utils/fortran_to_aviary.py
+++ b/aviary/utils/fortran_to_aviary.py
@@ -18,7 +18,6 @@ ARNGE(1) = 3600 !target range in nautical miles
 
 import csv
 import getpass
-import re
 import warnings
 from datetime import datetime
 from pathlib import Path
@@ -320,7 +319,8 @@ def process_and_store_data(
     var_ind = data_units = None
     skip_variable = False
     # skip any variables that shouldn't get converted
-    if re.search(current_namelist + '.' + var_name, str(unused_vars), re.IGNORECASE):
+    base_name = (current_namelist + '.' + var_name).split('(')[0].lower()
+    if base_name in [unused_var.lower() for unused_var in unused_vars]:
         return vehicle_data
     # remove any elements that are empty (caused by trailing commas or extra commas)
     data_list = [dat for dat in data.split(',') if dat != '']
-- 
2.43.0


From 27dbe272215b1fb4e1dac8dade71cf6660fed0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:14 +0000
Subject: [PATCH 072/107] fix: units given in a legacy deck are used

---
 aviary/utils/fortran_to_aviary.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/aviary/utils/fortran_to_aviary.py b/aviary/utils/fortran_to_aviary.py
index 4657fe1..3028788 100644
--- a/aviary/utils/fortran_to_aviary.py
+++ b/aviary/utils/fortran_to_aviary.py
@@ -362,10 +362,8 @@ def process_and_store_data(
                 continue
 
             elif name in CoreMetaData:
-                if current_namelist + '.' + var_name in default_values:
+                if data_units is None and current_namelist + '.' + var_name in default_values:
                     data_units = default_values.get_item(current_namelist + '.' + var_name)[1]
-                else:
-                    data_units = None
                 vehicle_data['input_values'] = set_value(
                     name,
                     var_values,
@@ -397,7 +395,9 @@ def set_value(var_name, var_value, units=None, value_dict: NamedValues = None, v
     If the new variable is part of a list, the current list will be extended if needed.
     """
     if var_name in value_dict:
-        current_value, units = value_dict.get_item(var_name)
+        current_value, current_units = value_dict.get_item(var_name)
+        if not units:
+            units = current_units
     else:
         current_value = None
         if var_name in CoreMetaData:
-- 
2.43.0


From 8dd896fee0db1c849c9ff6c389c8a69bdcb496f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:14 +0000
Subject: [PATCH 073/107] fix: Aviary variable names in a legacy deck are
 converted

---
 aviary/utils/fortran_to_aviary.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aviary/utils/fortran_to_aviary.py b/aviary/utils/fortran_to_aviary.py
index 3028788..b97689d 100644
--- a/aviary/utils/fortran_to_aviary.py
+++ b/aviary/utils/fortran_to_aviary.py
@@ -455,6 +455,10 @@ def update_name(alternate_names, var_name, verbosity=Verbosity.BRIEF):
     else:
         var_ind = None
 
+    # Aviary names, which are given outside namelists, are used as they are
+    if var_name.lstrip('.').lower() in CoreMetaData:
+        return [var_name.lstrip('.').lower()], var_ind
+
     all_equivalent_names = []
     for key, list_of_names in alternate_names.items():
         if list_of_names is not None:
-- 
2.43.0


From 9d401a4ec908b3cf029d86f01212a420e611fe46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:14 +0000
Subject: [PATCH 074/107] fix: unconverted legacy variables in lower case take
 part in the conversion

---
 aviary/utils/fortran_to_aviary.py | 56 ++++++++++++++++++++-----------
 1 file changed, 36 insertions(+), 20 deletions(-)

diff --git a/aviary/utils/fortran_to_aviary.py b/aviary/utils/fortran_to_aviary.py
index b97689d..c59445f 100644
--- a/aviary/utils/fortran_to_aviary.py
+++ b/aviary/utils/fortran_to_aviary.py
@@ -344,7 +344,7 @@ def process_and_store_data(
         var_ind -= fortran_offset
 
     # Aviary has a reduction gearbox which is 1/gear ratio of GASP gearbox
-    if current_namelist + '.' + var_name == 'INPROP.GR':
+    if (current_namelist + '.' + var_name).upper() == 'INPROP.GR':
         var_values = [1 / var for var in var_values]
         vehicle_data['input_values'] = set_value(
             Aircraft.Engine.Gearbox.GEAR_RATIO,
@@ -386,6 +386,14 @@ def process_and_store_data(
     return vehicle_data
 
 
+def find_name(values: NamedValues, name):
+    """Find the latest spelling that values uses for a (case-insensitive) name."""
+    for key in reversed(list(values.keys())):
+        if key.lower() == name.lower():
+            return key
+    return name
+
+
 def set_value(var_name, var_value, units=None, value_dict: NamedValues = None, var_ind=None):
     """
     set_value will update the current value of a variable in a value dictionary that contains a value
@@ -828,7 +836,7 @@ def update_gasp_options(vehicle_data, verbosity=Verbosity.BRIEF):
             input_values.delete(Aircraft.Furnishings.MASS)
 
     unused_values = vehicle_data['unused_values']
-    knac = unused_values.get_item('INGASP.KNAC')[0][0]
+    knac = unused_values.get_item(find_name(unused_values, 'INGASP.KNAC'))[0][0]
     if knac != 2:
         try:
             input_values.delete(Aircraft.Nacelle.AVG_DIAMETER)
@@ -841,8 +849,9 @@ def update_gasp_options(vehicle_data, verbosity=Verbosity.BRIEF):
     if Aircraft.Fuselage.DRAG_FACTOR in input_values:
         drag_scaler = input_values.get_val(Aircraft.Fuselage.DRAG_FACTOR, 'unitless')[0]
         try:
-            tech_factor = unused_values.get_item('INGASP.FCFFT')[0][0]
-            unused_values.delete('INGASP.FCFFT')
+            tech_name = find_name(unused_values, 'INGASP.FCFFT')
+            tech_factor = unused_values.get_item(tech_name)[0][0]
+            unused_values.delete(tech_name)
         except:
             tech_factor = 1.0
         drag_scaler = round(drag_scaler * tech_factor, round_position)
@@ -851,8 +860,9 @@ def update_gasp_options(vehicle_data, verbosity=Verbosity.BRIEF):
     if Aircraft.HorizontalTail.DRAG_FACTOR in input_values:
         drag_scaler = input_values.get_val(Aircraft.HorizontalTail.DRAG_FACTOR, 'unitless')[0]
         try:
-            tech_factor = unused_values.get_item('INGASP.FCFHTT')[0][0]
-            unused_values.delete('INGASP.FCFHTT')
+            tech_name = find_name(unused_values, 'INGASP.FCFHTT')
+            tech_factor = unused_values.get_item(tech_name)[0][0]
+            unused_values.delete(tech_name)
         except:
             tech_factor = 1.0
         drag_scaler = round(drag_scaler * tech_factor, round_position)
@@ -861,8 +871,9 @@ def update_gasp_options(vehicle_data, verbosity=Verbosity.BRIEF):
     if Aircraft.Design.INTERFERENCE_DRAG_FACTOR in input_values:
         drag_scaler = input_values.get_val(Aircraft.Design.INTERFERENCE_DRAG_FACTOR, 'unitless')[0]
         try:
-            tech_factor = unused_values.get_item('INGASP.FCKIT')[0][0]
-            unused_values.delete('INGASP.FCKIT')
+            tech_name = find_name(unused_values, 'INGASP.FCKIT')
+            tech_factor = unused_values.get_item(tech_name)[0][0]
+            unused_values.delete(tech_name)
         except:
             tech_factor = 1.0
         drag_scaler = round(drag_scaler * tech_factor, round_position)
@@ -871,8 +882,9 @@ def update_gasp_options(vehicle_data, verbosity=Verbosity.BRIEF):
     if Aircraft.Nacelle.DRAG_FACTOR in input_values:
         drag_scaler = input_values.get_val(Aircraft.Nacelle.DRAG_FACTOR, 'unitless')[0]
         try:
-            tech_factor = unused_values.get_item('INGASP.FCFNT')[0][0]
-            unused_values.delete('INGASP.FCFNT')
+            tech_name = find_name(unused_values, 'INGASP.FCFNT')
+            tech_factor = unused_values.get_item(tech_name)[0][0]
+            unused_values.delete(tech_name)
         except:
             tech_factor = 1.0
         drag_scaler = round(drag_scaler * tech_factor, round_position)
@@ -881,8 +893,9 @@ def update_gasp_options(vehicle_data, verbosity=Verbosity.BRIEF):
     if Aircraft.Strut.DRAG_FACTOR in input_values:
         drag_scaler = input_values.get_val(Aircraft.Strut.DRAG_FACTOR, 'unitless')[0]
         try:
-            tech_factor = unused_values.get_item('INGASP.FCFSTRT')[0][0]
-            unused_values.delete('INGASP.FCFSTRT')
+            tech_name = find_name(unused_values, 'INGASP.FCFSTRT')
+            tech_factor = unused_values.get_item(tech_name)[0][0]
+            unused_values.delete(tech_name)
         except:
             tech_factor = 1.0
         drag_scaler = round(drag_scaler * tech_factor, round_position)
@@ -891,8 +904,9 @@ def update_gasp_options(vehicle_data, verbosity=Verbosity.BRIEF):
     if Aircraft.VerticalTail.DRAG_FACTOR in input_values:
         drag_scaler = input_values.get_val(Aircraft.VerticalTail.DRAG_FACTOR, 'unitless')[0]
         try:
-            tech_factor = unused_values.get_item('INGASP.FCFVTT')[0][0]
-            unused_values.delete('INGASP.FCFVTT')
+            tech_name = find_name(unused_values, 'INGASP.FCFVTT')
+            tech_factor = unused_values.get_item(tech_name)[0][0]
+            unused_values.delete(tech_name)
         except:
             tech_factor = 1.0
         drag_scaler = round(drag_scaler * tech_factor, round_position)
@@ -901,8 +915,9 @@ def update_gasp_options(vehicle_data, verbosity=Verbosity.BRIEF):
     if Aircraft.Wing.DRAG_FACTOR in input_values:
         drag_scaler = input_values.get_val(Aircraft.Wing.DRAG_FACTOR, 'unitless')[0]
         try:
-            tech_factor = unused_values.get_item('INGASP.FCFWT')[0][0]
-            unused_values.delete('INGASP.FCFWT')
+            tech_name = find_name(unused_values, 'INGASP.FCFWT')
+            tech_factor = unused_values.get_item(tech_name)[0][0]
+            unused_values.delete(tech_name)
         except:
             tech_factor = 1.0
         drag_scaler = round(drag_scaler * tech_factor, round_position)
@@ -1053,7 +1068,7 @@ def update_flops_options(vehicle_data, cmts, verbosity=Verbosity.BRIEF):
         # TODO revisit this once CLAPP is added to metadata and is no longer skipped by fortran_to_aviary
         unused_values = vehicle_data['unused_values']
         try:
-            CLAPP = unused_values.get_item('TOLIN.CLAPP')[0][0]
+            CLAPP = unused_values.get_item(find_name(unused_values, 'TOLIN.CLAPP'))[0][0]
             CLLDM = 1.69 * CLAPP
         except KeyError:
             CLLDM = 3.0
@@ -1278,8 +1293,9 @@ def update_flops_options(vehicle_data, cmts, verbosity=Verbosity.BRIEF):
                     )
 
     # if mission-wide fuel flow factor provided, combine into sub and supersonic fuel flow factors
-    if 'MISSIN.fact' in vehicle_data['unused_values']:
-        FACT = vehicle_data['unused_values'].get_item('MISSIN.fact')[0][0]
+    fact_name = find_name(vehicle_data['unused_values'], 'MISSIN.FACT')
+    if fact_name in vehicle_data['unused_values']:
+        FACT = vehicle_data['unused_values'].get_item(fact_name)[0][0]
         if Aircraft.Engine.SUBSONIC_FUEL_FLOW_SCALER in input_values:
             sub_fuel_flow_fact = input_values.get_val(Aircraft.Engine.SUBSONIC_FUEL_FLOW_SCALER)[0]
             input_values.set_val(
@@ -1296,7 +1312,7 @@ def update_flops_options(vehicle_data, cmts, verbosity=Verbosity.BRIEF):
             )
         else:
             input_values.set_val(Aircraft.Engine.SUPERSONIC_FUEL_FLOW_SCALER, [FACT])
-        vehicle_data['unused_values'].delete('MISSIN.fact')
+        vehicle_data['unused_values'].delete(fact_name)
 
     # These variables should be removed if they are zero.
     rem_list = [
-- 
2.43.0


From 3d5cf71478be1ec34c8ef6085837eb5cece291da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:14 +0000
Subject: [PATCH 075/107] fix: empty lines and comments between the points of
 FLOPS engine decks

---
 aviary/utils/engine_deck_conversion.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/aviary/utils/engine_deck_conversion.py b/aviary/utils/engine_deck_conversion.py
index 2cd96f2..7e42908 100644
--- a/aviary/utils/engine_deck_conversion.py
+++ b/aviary/utils/engine_deck_conversion.py
@@ -149,15 +149,12 @@ def convert_engine_deck(input_file, output_file, data_format: EngineDeckType, ro
 
         with open(data_file, newline='', encoding='utf-8-sig') as file:
             reader = _read_flops_engine(file)
-            data_starts = False
 
             for line in reader:
-                if not data_starts:
-                    # pull out comments before data starts
-                    if line[0][0] == '#':
-                        comments.append(line)
-                        continue
-                    data_starts = True
+                # pull out comments
+                if line[0][0] == '#':
+                    comments.append(line)
+                    continue
 
                 data[MACH] = np.append(data[MACH], line[0])
                 data[ALTITUDE] = np.append(data[ALTITUDE], line[1])
@@ -369,6 +366,10 @@ def _read_flops_engine(input_file):
     always assumed to be in the order defined in the FLOPS manual.
     """
     for line in input_file:
+        # skip empty lines
+        if not line.strip():
+            continue
+
         sz = len(line)
 
         if sz < 80:
-- 
2.43.0


From d1efc1b6c85f27b2f9e9b787492731310a5dcac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:14 +0000
Subject: [PATCH 076/107] fix: maps with few Mach numbers do not lower the
 interpolation order of the following maps

---
 aviary/utils/aero_table_conversion.py  | 9 ++++++---
 aviary/utils/engine_deck_conversion.py | 7 ++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/aviary/utils/aero_table_conversion.py b/aviary/utils/aero_table_conversion.py
index b43128e..edc76e5 100644
--- a/aviary/utils/aero_table_conversion.py
+++ b/aviary/utils/aero_table_conversion.py
@@ -460,11 +460,14 @@ def _make_structured_grid(data, method='lagrange3', fields=['CL', 'CD']):
             # tables may not have enough points per dimension
             # For GASP aero table, try to provide at least 4 Mach numbers.
             # avoid devide-by-zero RuntimeWarning
+            map_method = method
             if len(mach) == 3 and method == 'lagrange3':
-                method = 'lagrange2'
+                map_method = 'lagrange2'
             elif len(mach) == 2:
-                method = 'slinear'
-            interp = InterpND(method='2D-' + method, points=(aoa, mach), values=f, extrapolate=True)
+                map_method = 'slinear'
+            interp = InterpND(
+                method='2D-' + map_method, points=(aoa, mach), values=f, extrapolate=True
+            )
             sl = slice(i * npts, (i + 1) * npts)
             vals[sl] = interp.interpolate(pts)
             alt_vec[sl] = [alt] * len(pts)
diff --git a/aviary/utils/engine_deck_conversion.py b/aviary/utils/engine_deck_conversion.py
index 7e42908..ea3675b 100644
--- a/aviary/utils/engine_deck_conversion.py
+++ b/aviary/utils/engine_deck_conversion.py
@@ -551,12 +551,13 @@ def _make_structured_grid(
             # For GASP engine deck, try to provide at least 4 Mach numbers.
             # For GASP_TS engine deck, try to provide at least 4 Mach numbers
             # avoid devide-by-zero RuntimeWarning
+            map_method = method
             if len(mach) == 3 and method == 'lagrange3':
-                method = 'lagrange2'
+                map_method = 'lagrange2'
             elif len(mach) == 2:
-                method = 'slinear'
+                map_method = 'slinear'
             interp = InterpND(
-                method='2D-' + method, points=(t4t2, mach), values=f, extrapolate=True
+                method='2D-' + map_method, points=(t4t2, mach), values=f, extrapolate=True
             )
             sl = slice(i * npts, (i + 1) * npts)
             vals[sl] = interp.interpolate(pts)
-- 
2.43.0


From 588ae9a5341d3821ddc64bf90d4cd58730585795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:14 +0000
Subject: [PATCH 077/107] fix: comments of FLOPS aero tables are kept

---
 aviary/utils/aero_table_conversion.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/aviary/utils/aero_table_conversion.py b/aviary/utils/aero_table_conversion.py
index edc76e5..e67b47e 100644
--- a/aviary/utils/aero_table_conversion.py
+++ b/aviary/utils/aero_table_conversion.py
@@ -166,12 +166,17 @@ def convert_aero_table(input_file=None, output_file=None, data_format=None):
 
         # write lift-dependent drag file
         lift_drag_comments = [stamp] + lift_drag_comments
-        write_data_file(output_file[0], lift_drag_data, lift_drag_comments, include_timestamp=True)
+        write_data_file(
+            output_file[0], lift_drag_data, comments=lift_drag_comments, include_timestamp=True
+        )
 
         # write zero-lift drag file
         zero_lift_drag_comments = [stamp] + zero_lift_drag_comments
         write_data_file(
-            output_file[1], zero_lift_drag_data, zero_lift_drag_comments, include_timestamp=True
+            output_file[1],
+            zero_lift_drag_data,
+            comments=zero_lift_drag_comments,
+            include_timestamp=True,
         )
 
 
-- 
2.43.0


From 7701e664837dfe66c450fdba7f5b6ec4a98abc2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:14 +0000
Subject: [PATCH 078/107] fix: FLOPS aero tables are converted without a given
 output file

---
 aviary/utils/aero_table_conversion.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aviary/utils/aero_table_conversion.py b/aviary/utils/aero_table_conversion.py
index e67b47e..acb14ad 100644
--- a/aviary/utils/aero_table_conversion.py
+++ b/aviary/utils/aero_table_conversion.py
@@ -80,8 +80,8 @@ def convert_aero_table(input_file=None, output_file=None, data_format=None):
             path = data_file.parents[0]
             name = data_file.stem
             suffix = data_file.suffix
-            file1 = path / name + '_aviary_CDI' + suffix
-            file2 = path / name + '_aviary_CD0' + suffix
+            file1 = path / (name + '_aviary_CDI' + suffix)
+            file2 = path / (name + '_aviary_CD0' + suffix)
             output_file = [file1, file2]
 
     stamp = f'# {data_format.value}-derived aerodynamics data converted from {data_file.name}'
-- 
2.43.0


From 457174f5111076fe29a07c540f7258d3e7c05927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:14 +0000
Subject: [PATCH 079/107] fix: empty lines in GASP aero tables

---
 aviary/utils/aero_table_conversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aviary/utils/aero_table_conversion.py b/aviary/utils/aero_table_conversion.py
index acb14ad..1f42f88 100644
--- a/aviary/utils/aero_table_conversion.py
+++ b/aviary/utils/aero_table_conversion.py
@@ -294,7 +294,7 @@ def _load_gasp_aero_table(filepath: Path):
     with open(filepath, 'r') as reader:
         for line_count, line in enumerate(reader):
             # ignore empty lines
-            if not line or line.strip() == ['']:
+            if not line.strip():
                 continue
             if line[0] == '#':
                 line = line.strip('# ').strip()
-- 
2.43.0


From 9b8937753c4d18506c669d245d873fc2838ad4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:22 +0000
Subject: [PATCH 080/107] fix: FLOPS decks without tail sweeps or aspect ratios
 can be converted

---
 aviary/utils/fortran_to_aviary.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/aviary/utils/fortran_to_aviary.py b/aviary/utils/fortran_to_aviary.py
index c59445f..d51b50f 100644
--- a/aviary/utils/fortran_to_aviary.py
+++ b/aviary/utils/fortran_to_aviary.py
@@ -1232,7 +1232,7 @@ def update_flops_options(vehicle_data, cmts, verbosity=Verbosity.BRIEF):
         Aircraft.HorizontalTail.TAPER_RATIO not in input_values
         or input_values.get_val(Aircraft.HorizontalTail.TAPER_RATIO)[0] < 0.0
     ):
-        if Aircraft.HorizontalTail.TAPER_RATIO:
+        if Aircraft.Wing.TAPER_RATIO in input_values:
             TR = input_values.get_val(Aircraft.Wing.TAPER_RATIO)[0]
             input_values.set_val(Aircraft.HorizontalTail.TAPER_RATIO, [TR])
 
@@ -1248,7 +1248,7 @@ def update_flops_options(vehicle_data, cmts, verbosity=Verbosity.BRIEF):
         Aircraft.HorizontalTail.SWEEP not in input_values
         or input_values.get_val(Aircraft.HorizontalTail.SWEEP, units='deg')[0] < -90.0
     ):
-        if Aircraft.WING.SWEEP in input_values:
+        if Aircraft.Wing.SWEEP in input_values:
             SWEEP = input_values.get_val(Aircraft.Wing.SWEEP, units='deg')[0]
             input_values.set_val(Aircraft.HorizontalTail.SWEEP, [SWEEP], 'deg')
 
@@ -1259,7 +1259,7 @@ def update_flops_options(vehicle_data, cmts, verbosity=Verbosity.BRIEF):
         if Aircraft.HorizontalTail.SWEEP in input_values:
             SWPHT = input_values.get_val(Aircraft.HorizontalTail.SWEEP, units='deg')[0]
             input_values.set_val(Aircraft.VerticalTail.SWEEP, [SWPHT], 'deg')
-        elif Aircraft.WING.SWEEP in input_values:
+        elif Aircraft.Wing.SWEEP in input_values:
             SWEEP = input_values.get_val(Aircraft.Wing.SWEEP, units='deg')[0]
             input_values.set_val(Aircraft.VerticalTail.SWEEP, [SWEEP], 'deg')
 
@@ -1267,8 +1267,8 @@ def update_flops_options(vehicle_data, cmts, verbosity=Verbosity.BRIEF):
         Aircraft.HorizontalTail.ASPECT_RATIO not in input_values
         or input_values.get_val(Aircraft.HorizontalTail.ASPECT_RATIO)[0] < 0
     ):
-        if Aircraft.WING.ASPECT_RATIO in input_values:
-            AR = input_values.get_val(Aircraft.WING.ASPECT_RATIO)
+        if Aircraft.Wing.ASPECT_RATIO in input_values:
+            AR = input_values.get_val(Aircraft.Wing.ASPECT_RATIO)[0]
             input_values.set_val(Aircraft.HorizontalTail.ASPECT_RATIO, [AR], 'unitless')
 
     if (
-- 
2.43.0


From 8681077e035175d07a7c8e24e75c06ba5eda0c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:04 +0000
Subject: [PATCH 081/107] fix: payload-range analysis of missions without a
 phase named cruise

---
 aviary/core/aviary_problem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aviary/core/aviary_problem.py b/aviary/core/aviary_problem.py
index 6ae780b..697466f 100644
--- a/aviary/core/aviary_problem.py
+++ b/aviary/core/aviary_problem.py
@@ -1711,7 +1711,7 @@ class AviaryProblem(om.Problem):
                 phase_info['cruise']['user_options'] = phase_info['cruise']['user_options'].copy()
             # This checks if the 'cruise' phase exists, then automatically extends duration bounds
             # of the cruise stage to allow for the longer off design missions.
-            if phase_info['cruise']:
+            if 'cruise' in phase_info:
                 min_duration = phase_info['cruise']['user_options']['time_duration_bounds'][0][0]
                 max_duration = phase_info['cruise']['user_options']['time_duration_bounds'][0][1]
                 cruise_units = phase_info['cruise']['user_options']['time_duration_bounds'][1]
-- 
2.43.0


From f4eb901e91629b73b3563dab7a79c25bd74176bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:04 +0000
Subject: [PATCH 082/107] fix: payload-range analysis when full tanks exceed
 the gross mass

---
 aviary/core/aviary_problem.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aviary/core/aviary_problem.py b/aviary/core/aviary_problem.py
index 697466f..2989529 100644
--- a/aviary/core/aviary_problem.py
+++ b/aviary/core/aviary_problem.py
@@ -1842,6 +1842,7 @@ class AviaryProblem(om.Problem):
                 max_fuel_pyld_range_prob = ferry_range_prob
                 payload_3 = payload_4
                 range_3 = range_4
+                fuel_3 = fuel_4
 
             # Check if OFF_DESIGN_MAX_RANGE missions ran successfully before writing to csv file
             # If both missions ran successfully, writes the payload/range data to a csv file
-- 
2.43.0


From ca7f7c1d5bf6cd7337d984fad596fe52cb1c389c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:04 +0000
Subject: [PATCH 083/107] fix: payload-range analysis is skipped for
 unconverged problems at any verbosity

---
 aviary/core/aviary_problem.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/aviary/core/aviary_problem.py b/aviary/core/aviary_problem.py
index 2989529..324ce59 100644
--- a/aviary/core/aviary_problem.py
+++ b/aviary/core/aviary_problem.py
@@ -1685,16 +1685,18 @@ class AviaryProblem(om.Problem):
         """
         verbosity = self._override_verbosity(verbosity)
 
-        if not self.result.success and verbosity > Verbosity.QUIET:
-            warnings.warn(
-                'Payload Range Diagrams cannot be generated for unconverged Aviary problems.'
-            )
+        if not self.result.success:
+            if verbosity > Verbosity.QUIET:
+                warnings.warn(
+                    'Payload Range Diagrams cannot be generated for unconverged Aviary problems.'
+                )
             return ()
-        elif self.problem_type is ProblemType.MULTI_MISSION and verbosity > Verbosity.QUIET:
-            warnings.warn(
-                'Payload Range Diagrams currently cannot be generated for aircraft designed '
-                'using multimission capability.'
-            )
+        elif self.problem_type is ProblemType.MULTI_MISSION:
+            if verbosity > Verbosity.QUIET:
+                warnings.warn(
+                    'Payload Range Diagrams currently cannot be generated for aircraft designed '
+                    'using multimission capability.'
+                )
             return ()
 
         # Off-design missions are not tested with 2DOF missions.
-- 
2.43.0


From 312fc90e44fe923975ed4ccded0198a50d81e17c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:04 +0000
Subject: [PATCH 084/107] fix: off-design missions keep the iteration limit of
 SLSQP

---
 aviary/core/aviary_problem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aviary/core/aviary_problem.py b/aviary/core/aviary_problem.py
index 324ce59..81efbf9 100644
--- a/aviary/core/aviary_problem.py
+++ b/aviary/core/aviary_problem.py
@@ -1593,7 +1593,7 @@ class AviaryProblem(om.Problem):
             elif optimizer == 'IPOPT':
                 max_iter = self.driver.opt_settings['max_iter']
             elif optimizer == 'SLSQP':
-                max_iter = self.driver.opt_settings['maxiter']
+                max_iter = self.driver.options['maxiter']
             else:
                 max_iter = None
         except KeyError:
-- 
2.43.0


From 0415fe6800978d4deba63aafe3d797bb19f9e03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:04 +0000
Subject: [PATCH 085/107] fix: the total passenger count requested for
 off-design missions is flown

---
 aviary/core/aviary_problem.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/aviary/core/aviary_problem.py b/aviary/core/aviary_problem.py
index 81efbf9..6d76c9d 100644
--- a/aviary/core/aviary_problem.py
+++ b/aviary/core/aviary_problem.py
@@ -1489,6 +1489,17 @@ class AviaryProblem(om.Problem):
         # update passenger count and cargo masses
         mass_method = inputs.get_val(Settings.MASS_METHOD)
 
+        # A total passenger count without seat classes replaces the inherited class counts, which
+        # otherwise would take precedence over it
+        if (
+            mass_method is FLOPS
+            and num_pax is not None
+            and num_economy is None
+            and num_business is None
+            and num_first_class is None
+        ):
+            num_economy = num_business = num_first_class = 0
+
         # Sanity check passenger counts - cover specific edge case that preprocessors won't catch
         # Since we inherit mission pax count from sizing mission, we need to overwrite it
         if (
-- 
2.43.0


From 5496d1ac82c2975691208c8550a7eda3d40e67cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:04 +0000
Subject: [PATCH 086/107] fix: the design gross mass of a problem is saved, not
 the gross mass of its mission

---
 aviary/core/aviary_problem.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/aviary/core/aviary_problem.py b/aviary/core/aviary_problem.py
index 6d76c9d..50b67fb 100644
--- a/aviary/core/aviary_problem.py
+++ b/aviary/core/aviary_problem.py
@@ -1916,9 +1916,7 @@ class AviaryProblem(om.Problem):
                 # Get the gross mass value from the sizing problem and add it to input list
 
                 if name == Mission.GROSS_MASS or name == Aircraft.Design.GROSS_MASS:
-                    Mission_Summary_GROSS_MASS_val = self.get_val(Mission.GROSS_MASS, units=units)
-                    Mission_Summary_GROSS_MASS_val_list = Mission_Summary_GROSS_MASS_val.tolist()
-                    value = Mission_Summary_GROSS_MASS_val_list[0]
+                    value = self.get_val(name, units=units).tolist()[0]
 
                 else:
                     # there are different data types we need to handle for conversion to json format
-- 
2.43.0


From 67b21aeedb582c0a3a89c9dc0b67473018787853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:18 +0000
Subject: [PATCH 087/107] fix: off-design missions use the custom problem
 configurator

---
 aviary/core/aviary_problem.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/aviary/core/aviary_problem.py b/aviary/core/aviary_problem.py
index 50b67fb..d942496 100644
--- a/aviary/core/aviary_problem.py
+++ b/aviary/core/aviary_problem.py
@@ -1477,8 +1477,9 @@ class AviaryProblem(om.Problem):
         if equations_of_motion is not None:
             inputs.set_val(Settings.EQUATIONS_OF_MOTION, equations_of_motion)
 
-        if problem_configurator is not None:
-            off_design_prob.model.configurator = problem_configurator
+        if problem_configurator is None:
+            # a custom configurator is not known from the equations of motion alone
+            problem_configurator = type(self.model.configurator)
 
         if phase_info is None:
             # model phase_info only contains mission information, recreate the whole thing here
@@ -1555,7 +1556,9 @@ class AviaryProblem(om.Problem):
             )
 
         # reset the AviaryProblem to run the new mission
-        off_design_prob.load_inputs(inputs, phase_info, verbosity=verbosity)
+        off_design_prob.load_inputs(
+            inputs, phase_info, problem_configurator=problem_configurator, verbosity=verbosity
+        )
 
         # Update inputs that are specific to problem type
         # Some OFF_DESIGN_MIN_FUEL problem changes had to happen before load_inputs, all OFF_DESIGN_MAX_RANGE problem
-- 
2.43.0


From b8d340192fd9b072b0ca7c7055698fa609fce124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:18 +0000
Subject: [PATCH 088/107] fix: off-design missions keep the external subsystems
 of the sized aircraft

---
 aviary/core/aviary_problem.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aviary/core/aviary_problem.py b/aviary/core/aviary_problem.py
index d942496..575ee13 100644
--- a/aviary/core/aviary_problem.py
+++ b/aviary/core/aviary_problem.py
@@ -1464,7 +1464,7 @@ class AviaryProblem(om.Problem):
                 output_path = Path(f'{name}_out')
                 if not output_path.is_dir():
                     break
-        off_design_prob = AviaryProblem(name=name)
+        off_design_prob = AviaryProblem(meta_data=self.meta_data, name=name)
 
         # Set up problem for mission, such as equations of motion, configurators, etc.
         inputs = deepcopy(self.aviary_inputs)
@@ -1559,6 +1559,7 @@ class AviaryProblem(om.Problem):
         off_design_prob.load_inputs(
             inputs, phase_info, problem_configurator=problem_configurator, verbosity=verbosity
         )
+        off_design_prob.load_external_subsystems(self.model.external_subsystems)
 
         # Update inputs that are specific to problem type
         # Some OFF_DESIGN_MIN_FUEL problem changes had to happen before load_inputs, all OFF_DESIGN_MAX_RANGE problem
-- 
2.43.0


From 31b9482746ea37217d0aa26761bcb7966fc056a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:18 +0000
Subject: [PATCH 089/107] fix: reloaded problems know the custom metadata of
 their inputs

---
 aviary/core/aviary_problem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aviary/core/aviary_problem.py b/aviary/core/aviary_problem.py
index 575ee13..0eb5ee3 100644
--- a/aviary/core/aviary_problem.py
+++ b/aviary/core/aviary_problem.py
@@ -2116,7 +2116,7 @@ def reload_aviary_problem(
     """
     # warning if default is used
     # Initialize a new aviary problem and aviary_input data structure
-    prob = AviaryProblem()
+    prob = AviaryProblem(meta_data=metadata)
 
     filename = get_path(filename, verbosity)
 
-- 
2.43.0


From 2fa1f6567f314604321adc5fbc95534eb7cb3756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:23 +0000
Subject: [PATCH 090/107] fix: furnishings with alternate mass are computed
 after the masses they depend on

---
 .../mass/flops_based/mass_premission.py          | 13 ++++---------
 .../mass/flops_based/mass_summation.py           | 16 ++++++++++++++++
 2 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/aviary/subsystems/mass/flops_based/mass_premission.py b/aviary/subsystems/mass/flops_based/mass_premission.py
index fcfcca5..5d9c0d3 100644
--- a/aviary/subsystems/mass/flops_based/mass_premission.py
+++ b/aviary/subsystems/mass/flops_based/mass_premission.py
@@ -18,7 +18,6 @@ from aviary.subsystems.mass.flops_based.fuel_system import (
     TransportFuelSystemMass,
 )
 from aviary.subsystems.mass.flops_based.furnishings import (
-    AltFurnishingsGroupMass,
     AltFurnishingsGroupMassBase,
     BWBFurnishingsGroupMass,
     TransportFurnishingsGroupMass,
@@ -133,13 +132,6 @@ class MassPremission(om.Group):
                 promotes_outputs=['*'],
             )
 
-            self.add_subsystem(
-                'furnishings',
-                AltFurnishingsGroupMass(),
-                promotes_inputs=['*'],
-                promotes_outputs=['*'],
-            )
-
             self.add_subsystem(
                 'hydraulics',
                 AltHydraulicsGroupMass(),
@@ -323,7 +315,10 @@ class MassPremission(om.Group):
         )
 
         self.add_subsystem(
-            'mass_summation', MassSummation(), promotes_inputs=['*'], promotes_outputs=['*']
+            'mass_summation',
+            MassSummation(add_alt_furnishings=alt_mass),
+            promotes_inputs=['*'],
+            promotes_outputs=['*'],
         )
 
         self.set_input_defaults(Aircraft.Fuel.DENSITY, units='lbm/galUS')
diff --git a/aviary/subsystems/mass/flops_based/mass_summation.py b/aviary/subsystems/mass/flops_based/mass_summation.py
index 1352c48..1163eac 100644
--- a/aviary/subsystems/mass/flops_based/mass_summation.py
+++ b/aviary/subsystems/mass/flops_based/mass_summation.py
@@ -2,6 +2,7 @@ import numpy as np
 import openmdao.api as om
 
 from aviary.subsystems.mass.flops_based.empty_margin import EmptyMassMargin
+from aviary.subsystems.mass.flops_based.furnishings import AltFurnishingsGroupMass
 from aviary.variable_info.functions import add_aviary_input, add_aviary_option, add_aviary_output
 from aviary.variable_info.variables import Aircraft, Mission
 
@@ -14,6 +15,13 @@ class MassSummation(om.Group):
 
     def initialize(self):
         add_aviary_option(self, Aircraft.Design.USE_ALT_MASS)
+        self.options.declare(
+            'add_alt_furnishings',
+            types=bool,
+            default=False,
+            desc='If True, the alternate furnishings mass is computed here, between the sums it '
+            'depends on and the sum it is part of. Only used for alternate mass.',
+        )
 
     def setup(self):
         alt_mass = self.options[Aircraft.Design.USE_ALT_MASS]
@@ -42,6 +50,14 @@ class MassSummation(om.Group):
                 promotes_outputs=['*'],
             )
 
+            if self.options['add_alt_furnishings']:
+                self.add_subsystem(
+                    'furnishings',
+                    AltFurnishingsGroupMass(),
+                    promotes_inputs=['*'],
+                    promotes_outputs=['*'],
+                )
+
             self.add_subsystem(
                 'systems_and_equipment_mass',
                 AltSystemsEquipmentMass(),
-- 
2.43.0


From 03edab92f8edbbcb5b433b21d52178add66b2533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:28 +0000
Subject: [PATCH 091/107] fix: payload-range analysis of aircraft without wing
 or miscellaneous cargo

---
 aviary/core/aviary_problem.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/aviary/core/aviary_problem.py b/aviary/core/aviary_problem.py
index 0eb5ee3..37452c7 100644
--- a/aviary/core/aviary_problem.py
+++ b/aviary/core/aviary_problem.py
@@ -1774,14 +1774,19 @@ class AviaryProblem(om.Problem):
                 payload_frac = max_fuel_pyld_total_payload / max_payload
 
                 # Calculates Different payload quantities
-                max_fuel_pyld_wing_cargo = (
-                    self.model.aviary_inputs.get_val(Aircraft.CrewPayload.WING_CARGO, 'lbm')
-                    * payload_frac
-                )
-                max_fuel_pyld_misc_cargo = (
-                    self.model.aviary_inputs.get_val(Aircraft.CrewPayload.MISC_CARGO, 'lbm')
-                    * payload_frac
-                )
+                # (cargo that was not given is 0)
+                max_fuel_pyld_wing_cargo = 0.0
+                if Aircraft.CrewPayload.WING_CARGO in self.model.aviary_inputs:
+                    max_fuel_pyld_wing_cargo = (
+                        self.model.aviary_inputs.get_val(Aircraft.CrewPayload.WING_CARGO, 'lbm')
+                        * payload_frac
+                    )
+                max_fuel_pyld_misc_cargo = 0.0
+                if Aircraft.CrewPayload.MISC_CARGO in self.model.aviary_inputs:
+                    max_fuel_pyld_misc_cargo = (
+                        self.model.aviary_inputs.get_val(Aircraft.CrewPayload.MISC_CARGO, 'lbm')
+                        * payload_frac
+                    )
                 max_fuel_pyld_num_first = int(
                     self.model.aviary_inputs.get_val(Aircraft.CrewPayload.Design.NUM_FIRST_CLASS)
                     * payload_frac
-- 
2.43.0


From 7e3fdff7ef94dbd70da4b9f412296072809b1747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:19 +0000
Subject: [PATCH 092/107] fix: missions with more than two engine types

---
 aviary/mission/flight_phase_builder.py                | 1 +
 aviary/subsystems/propulsion/propulsion_premission.py | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/aviary/mission/flight_phase_builder.py b/aviary/mission/flight_phase_builder.py
index c6c986e..4910fa8 100644
--- a/aviary/mission/flight_phase_builder.py
+++ b/aviary/mission/flight_phase_builder.py
@@ -307,6 +307,7 @@ class FlightPhaseBase(PhaseBuilder):
                     units='unitless',
                     val=val,
                     shape=(num_engine_type - 1,),
+                    static_target=True,
                     opt=opt,
                     **kwargs,
                 )
diff --git a/aviary/subsystems/propulsion/propulsion_premission.py b/aviary/subsystems/propulsion/propulsion_premission.py
index 808196d..023d30c 100644
--- a/aviary/subsystems/propulsion/propulsion_premission.py
+++ b/aviary/subsystems/propulsion/propulsion_premission.py
@@ -64,7 +64,7 @@ class PropulsionPreMission(om.Group):
         if num_engine_type > 1:
             # Add an empty mux comp, which will be customized to handle all required outputs in
             # configure()
-            self.add_subsystem('pre_mission_mux', subsys=om.MuxComp(), promotes_outputs=['*'])
+            self.add_subsystem('pre_mission_mux', subsys=om.MuxComp(vec_size=num_engine_type), promotes_outputs=['*'])
 
         self.add_subsystem(
             'propulsion_sum',
-- 
2.43.0


From 9bf24080fdc53539e42d17fdf20b12c80ed6da4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:19 +0000
Subject: [PATCH 093/107] fix: mass report shows the mass of each engine type

---
 aviary/subsystems/mass/mass_builder.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/aviary/subsystems/mass/mass_builder.py b/aviary/subsystems/mass/mass_builder.py
index bbb33fc..5a17d04 100644
--- a/aviary/subsystems/mass/mass_builder.py
+++ b/aviary/subsystems/mass/mass_builder.py
@@ -163,11 +163,10 @@ class CoreMassBuilder(MassBuilder):
 
             # OTHER STRUCTURES (NOT IN GROUP) #
             val, units = find_variable_in_problem(Aircraft.Nacelle.MASS, prob, self.meta_data)
-            f.write(f'|Nacelles|{np.dot(val, num_engines)}||\n')
+            f.write(f'|Nacelles|{np.dot(val, num_engines)}|{units}|\n')
             for i, engine in enumerate(engine_models):
-                if isinstance(val, (np.ndarray, list, tuple)):
-                    val = val[i]
-                f.write(f'|{tab}{engine.name}|{val} ({val * num_engines[i]} total)|{units}|\n')
+                mass = val[i] if isinstance(val, (np.ndarray, list, tuple)) else val
+                f.write(f'|{tab}{engine.name}|{mass} ({mass * num_engines[i]} total)|{units}|\n')
 
             val, units = find_variable_in_problem(Aircraft.Nacelle.MASS, prob, self.meta_data)
             if val == 0.0:
@@ -202,9 +201,10 @@ class CoreMassBuilder(MassBuilder):
 
             val, units = find_variable_in_problem(Aircraft.Engine.MASS, prob, self.meta_data)
             for i, engine in enumerate(engine_models):
-                if isinstance(val, (np.ndarray, list, tuple)):
-                    val = val[i]
-                f.write(f'|{tab}{tab}{engine.name}|{val} ({val * num_engines[i]} total)|{units}|\n')
+                mass = val[i] if isinstance(val, (np.ndarray, list, tuple)) else val
+                f.write(
+                    f'|{tab}{tab}{engine.name}|{mass} ({mass * num_engines[i]} total)|{units}|\n'
+                )
 
             # thrust reverser reporting optional
             val, units = find_variable_in_problem(
-- 
2.43.0


From d8e7bc06add3a56313a215fdc885d83ee0dcf6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:19 +0000
Subject: [PATCH 094/107] fix: input report of several missions lists only
 unspecified inputs

---
 aviary/interface/reports.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aviary/interface/reports.py b/aviary/interface/reports.py
index d7c874f..7d04a09 100644
--- a/aviary/interface/reports.py
+++ b/aviary/interface/reports.py
@@ -404,7 +404,7 @@ def input_check_report(prob: AviaryProblem, **kwargs):
 
         bare_inputs = {v for v in bare_inputs if v not in aviary_inputs}
         if multi_mission:
-            bare_inputs = {v for v in bare_inputs if v.lstrip(f'{name}.') not in aviary_inputs}
+            bare_inputs = {v for v in bare_inputs if v.removeprefix(f'{name}.') not in aviary_inputs}
 
     bare_hierarchy_inputs = {
         v
-- 
2.43.0


From a56d7d588c1d89a34466c6f9209548f8373e8dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:19 +0000
Subject: [PATCH 095/107] fix: input report states local values in the units it
 names

---
 aviary/interface/reports.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aviary/interface/reports.py b/aviary/interface/reports.py
index 7d04a09..640d289 100644
--- a/aviary/interface/reports.py
+++ b/aviary/interface/reports.py
@@ -473,9 +473,9 @@ def input_check_report(prob: AviaryProblem, **kwargs):
                     continue
 
                 abs_paths = prom2abs(var)
-                val = prob.model.get_val(var)
                 meta = prob.model._var_allprocs_abs2meta['input'][abs_paths[0]]
                 units = meta['units']
+                val = prob.model.get_val(var, units=units)
 
                 f.write(f'| **{var}** | {val} | {units} | {abs_paths}|\n')
 
-- 
2.43.0


From 78c74808b29f3b5071cc94bb1e3d9cfbbf79eb63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:19 +0000
Subject: [PATCH 096/107] fix: override report names the overriding output

---
 aviary/interface/reports.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aviary/interface/reports.py b/aviary/interface/reports.py
index 640d289..9481aa2 100644
--- a/aviary/interface/reports.py
+++ b/aviary/interface/reports.py
@@ -657,7 +657,9 @@ def _overridden_variables_group_report(prob, group, mission_name, f):
             abs_name = resolver.absnames(prom_name, 'output')[0]
             aircraft_variable_name = abs_name.split('.')[-1]
             if aircraft_variable_name not in external_variables:
-                external_variables[aircraft_variable_name] = abs_name
+                # the overriding output is the one that kept the name of the variable
+                sources = resolver.absnames(aircraft_variable_name, 'output')
+                external_variables[aircraft_variable_name] = sources[0]
             continue
         # the phrase "_OVERRIDE" in a variable indicates it is a
         #   calculated value that we are discarding
-- 
2.43.0


From 924eb72261392cfd7f3dedbc9e4d168a941370a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:37 +0000
Subject: [PATCH 097/107] fix: engine report states the values of the problem

---
 aviary/subsystems/propulsion/engine_deck.py | 25 ++++++++++-----------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/aviary/subsystems/propulsion/engine_deck.py b/aviary/subsystems/propulsion/engine_deck.py
index 7af3c64..4228a0b 100644
--- a/aviary/subsystems/propulsion/engine_deck.py
+++ b/aviary/subsystems/propulsion/engine_deck.py
@@ -1230,24 +1230,25 @@ class EngineDeck(EngineModel):
                     units = meta_data[var_name]['units']
                 except KeyError:
                     units = None
-                # try to get value from engine
+                # get value from problem, the options of the engine may be out of date
                 try:
                     if units:
-                        val = self.get_val(var_name, units)
+                        val = problem.get_val(var_name, units)
                     else:
-                        val, units = self.get_item(var_name)
-                        if (val, units) == (None, None):
-                            raise KeyError
+                        # TODO find units for variable in problem?
+                        val = problem.get_val(var_name)
+                        units = 'unknown'
+                    val = val[engine_idx]
                 except KeyError:
-                    # get value from problem
+                    # variable not in problem, try to get value from engine
                     try:
                         if units:
-                            val = problem.get_val(var_name, units)
+                            val = self.get_val(var_name, units)
                         else:
-                            # TODO find units for variable in problem?
-                            val = problem.get_val(var_name)
-                            units = 'unknown'
-                    # variable not in problem, get from aviary_inputs instead
+                            val, units = self.get_item(var_name)
+                            if (val, units) == (None, None):
+                                raise KeyError
+                    # variable not in engine, get from aviary_inputs instead
                     except KeyError:
                         try:
                             if units:
@@ -1261,8 +1262,6 @@ class EngineDeck(EngineModel):
                             units = None
                         else:
                             val = val[engine_idx]
-                    else:
-                        val = val[engine_idx]
                 # handle rounding + formatting
                 if isinstance(val, (np.ndarray, list, tuple)):
                     val = [round_it(item) for item in val]
-- 
2.43.0


From 68f447f819e284f793f0fe7ed84890677f705ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:11 +0000
Subject: [PATCH 098/107] fix: timeseries file has a column for each element of
 a variable

---
 aviary/interface/reports.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/aviary/interface/reports.py b/aviary/interface/reports.py
index 9481aa2..b19a3e6 100644
--- a/aviary/interface/reports.py
+++ b/aviary/interface/reports.py
@@ -535,7 +535,14 @@ def timeseries_csv(prob: AviaryProblem, **kwargs):
 
     timeseries_data = {}
     for variable_name in unique_variable_names:
-        timeseries_data[variable_name] = {}
+        # values missing in a phase are filled in the shape they have in the other phases
+        elements = ()
+        for phase_name in phase_names:
+            meta = timeseries_outputs.get(f'traj.{phase_name}.timeseries.{variable_name}')
+            if meta is not None:
+                elements = meta['val'].shape[1:]
+                break
+
         first = True  # flag to check if this is first iteration in for loop
         units = None
         for idx_phase, phase_name in enumerate(phase_names):
@@ -547,8 +554,8 @@ def timeseries_csv(prob: AviaryProblem, **kwargs):
                     f'Variable {variable_str} not found in timeseries_outputs for phase '
                     f'{phase_name}.'
                 )
-                val = np.zeros_like(timeseries_outputs[time_str]['val'])
-                val[:] = np.nan
+                num_rows = timeseries_outputs[time_str]['val'].shape[0]
+                val = np.full((num_rows,) + elements, np.nan)
                 if first:
                     val_full_traj = val
                     first = False
@@ -578,13 +585,15 @@ def timeseries_csv(prob: AviaryProblem, **kwargs):
                     else:
                         val_full_traj = np.vstack((val_full_traj, val))
 
-        timeseries_data[variable_name]['val'] = val_full_traj
-        timeseries_data[variable_name]['units'] = units
-        timeseries_data[variable_name]['shape'] = val_full_traj.shape
+        # variables with several elements get one column for each of them
+        columns = val_full_traj.reshape((val_full_traj.shape[0], -1))
+        for idx in range(columns.shape[1]):
+            column_name = variable_name if columns.shape[1] == 1 else f'{variable_name}_{idx}'
+            timeseries_data[column_name] = {'val': columns[:, idx], 'units': units}
 
     # Create a DataFrame from timeseries_data
     df_data = {
-        variable_name: pd.Series(timeseries_data[variable_name]['val'].flatten())
+        variable_name: pd.Series(timeseries_data[variable_name]['val'])
         for variable_name in timeseries_data
     }
     df = pd.DataFrame(df_data)
-- 
2.43.0


From d300639d3306ac880efaf9bc20efcba13129e5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:44 +0000
Subject: [PATCH 099/107] fix: temperature offset given to the atmosphere group
 is used

---
 aviary/subsystems/atmosphere/atmosphere.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/aviary/subsystems/atmosphere/atmosphere.py b/aviary/subsystems/atmosphere/atmosphere.py
index 06c3bef..7f79b1f 100644
--- a/aviary/subsystems/atmosphere/atmosphere.py
+++ b/aviary/subsystems/atmosphere/atmosphere.py
@@ -47,7 +47,11 @@ class Atmosphere(om.Group):
 
         self.add_subsystem(
             name='standard_atmosphere',
-            subsys=AtmosphereComp(num_nodes=nn, h_def=h_def),
+            subsys=AtmosphereComp(
+                num_nodes=nn,
+                h_def=h_def,
+                delta_T_Celcius=self.options['delta_T_Celcius'],
+            ),
             promotes_inputs=[Dynamic.Mission.ALTITUDE],
             promotes_outputs=['*'],
         )
-- 
2.43.0


From 08fee0d52c5a4d61fc9345eb8a12d965560ae5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:28 +0000
Subject: [PATCH 100/107] fix: lookup tables with connected training data need
 no dependent values

---
 aviary/utils/data_interpolator_builder.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aviary/utils/data_interpolator_builder.py b/aviary/utils/data_interpolator_builder.py
index e1f62e6..e707fda 100644
--- a/aviary/utils/data_interpolator_builder.py
+++ b/aviary/utils/data_interpolator_builder.py
@@ -159,6 +159,9 @@ def build_data_interpolator(
     # if we already know data needs formatting, don't bother checking outputs
     if data_pre_structured:
         for key in outputs:
+            if connect_training_data and key not in interpolator_data:
+                # values come through connections, none have to be provided here
+                continue
             (val, units) = interpolator_data.get_item(key)
             if np.shape(val) != tuple(shape):
                 if len(np.shape(val)) > 1:
-- 
2.43.0


From 34d6f947af96f81055e4e6d15aa4e22ade5779aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:02 +0000
Subject: [PATCH 101/107] fix: verbose runs do not need the reports to be
 active

---
 aviary/core/aviary_problem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aviary/core/aviary_problem.py b/aviary/core/aviary_problem.py
index 37452c7..08d9fcb 100644
--- a/aviary/core/aviary_problem.py
+++ b/aviary/core/aviary_problem.py
@@ -1282,7 +1282,7 @@ class AviaryProblem(om.Problem):
             self.final_setup()
 
         if verbosity >= Verbosity.VERBOSE:  # VERBOSE, DEBUG
-            with open(self.get_reports_dir() / 'input_list.txt', 'w') as outfile:
+            with open(Path(self.get_reports_dir(force=True)) / 'input_list.txt', 'w') as outfile:
                 self.model.list_inputs(out_stream=outfile, units=True)
 
         def _view_realtime_plot_hook(driver):
-- 
2.43.0


From 18d3895617531b93632540e6d7905a70b1ff52e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:42 +0000
Subject: [PATCH 102/107] fix: a drawn mission is written without numpy
 scalars, so that the file can be loaded

---
 aviary/interface/graphical_input.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aviary/interface/graphical_input.py b/aviary/interface/graphical_input.py
index c02660f..e4a6468 100644
--- a/aviary/interface/graphical_input.py
+++ b/aviary/interface/graphical_input.py
@@ -22,6 +22,10 @@ except ImportError:
 
 
 def _format_phase_info_value(value, indent_level):
+    if isinstance(value, np.generic):
+        # a numpy scalar does not print as something that can be read back without numpy
+        value = value.item()
+
     indent = '    ' * indent_level
     inner = '    ' * (indent_level + 1)
 
-- 
2.43.0


From 3807ea5d86bc1f18929a1f686dcc566643a14b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:42 +0000
Subject: [PATCH 103/107] fix: shortest duration of a drawn phase is in minutes
 for all time units

---
 aviary/interface/graphical_input.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/aviary/interface/graphical_input.py b/aviary/interface/graphical_input.py
index e4a6468..c2cc7a0 100644
--- a/aviary/interface/graphical_input.py
+++ b/aviary/interface/graphical_input.py
@@ -1616,8 +1616,11 @@ def create_phase_info(
     times, altitudes, mach_values = np.array(times), np.array(altitudes), np.array(mach_values)
 
     # Utility function to create bounds
+    min_duration = convert_units(0.1, 'min', units[0])
+
     def create_bounds(center):
-        lower_bound = max(center / 2, 0.1)  # Ensuring lower bound is not less than 0.1
+        # Ensuring lower bound is not less than 0.1 minutes
+        lower_bound = max(center / 2, min_duration)
         upper_bound = center * 1.5
         return (lower_bound, upper_bound)
 
-- 
2.43.0


From fb745093990652bc712008d214b9e76b73fa395d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:42 +0000
Subject: [PATCH 104/107] fix: a drawn mission starts at the time of its first
 point

---
 aviary/interface/graphical_input.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aviary/interface/graphical_input.py b/aviary/interface/graphical_input.py
index c2cc7a0..681ca92 100644
--- a/aviary/interface/graphical_input.py
+++ b/aviary/interface/graphical_input.py
@@ -1628,7 +1628,8 @@ def create_phase_info(
     duration_bounds = [create_bounds(times[i + 1] - times[i]) for i in range(num_phases)]
 
     # Initialize the cumulative initial bounds
-    cumulative_initial_bounds = [(0.0, 0.0)]  # Initial bounds for the first phase
+    # Initial bounds for the first phase, which starts where the profile does
+    cumulative_initial_bounds = [(times[0], times[0])]
 
     # Calculate the cumulative initial bounds for subsequent phases
     for i in range(1, num_phases):
-- 
2.43.0


From 6440e0537bf454af03c0f11e917094aa3d29bb5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:42 +0000
Subject: [PATCH 105/107] fix: deleting the first point of a drawn mission
 removes the order of its phase

---
 aviary/interface/graphical_input.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aviary/interface/graphical_input.py b/aviary/interface/graphical_input.py
index 681ca92..0cec197 100644
--- a/aviary/interface/graphical_input.py
+++ b/aviary/interface/graphical_input.py
@@ -631,6 +631,9 @@ class AviaryMissionEditor(tk.Tk):
         """When X button next to tabular point is pressed, lists are popped and plot and tables
         are updated to show the removed point.
         """
+        if row == 0 and len(self.phase_order_list) > 0:
+            # the phase that starts at the first point is gone
+            self.phase_order_list.pop(0)
         if row < len(self.data[0]) and row > 0:
             self.phase_order_list.pop(row - 1)
             if len(self.plot_texts[0]) > 0:
-- 
2.43.0


From b15f452ad39c2459ae46e9bc37e34185513b0547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:50 +0000
Subject: [PATCH 106/107] fix: table of Aviary variables names a variable
 without siblings in full

---
 aviary/visualization/dashboard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aviary/visualization/dashboard.py b/aviary/visualization/dashboard.py
index 7c39aac..a26d5d2 100644
--- a/aviary/visualization/dashboard.py
+++ b/aviary/visualization/dashboard.py
@@ -389,7 +389,7 @@ def create_aviary_variables_table_data_nested(output_dir, recorder_file):
             aviary_metadata = make_serializable(aviary_metadata)
             table_data_nested.append(
                 {
-                    'abs_name': group_name,
+                    'abs_name': var_info,
                     'prom_name': prom_name,
                     'value': convert_ndarray_to_support_nans_in_json(outputs[var_info]['val']),
                     'units': outputs[var_info]['units'],
-- 
2.43.0


From 33e4f8d7fe87bf3b8c310a45568c4e7c788e9bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:50 +0000
Subject: [PATCH 107/107] fix: optimization history keeps the sign of scalar
 quantities

---
 aviary/visualization/dashboard.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aviary/visualization/dashboard.py b/aviary/visualization/dashboard.py
index a26d5d2..6aa7e5a 100644
--- a/aviary/visualization/dashboard.py
+++ b/aviary/visualization/dashboard.py
@@ -486,19 +486,19 @@ def convert_driver_case_recorder_file_to_df(recorder_file_name):
         for varname in objectives_names:
             value = objectives[varname]
             if not np.isscalar(value):
-                value = np.linalg.norm(value)
+                value = value.item() if np.size(value) == 1 else np.linalg.norm(value)
             row.append(value)
 
         for varname in constraints_names:
             value = constraints[varname]
             if not np.isscalar(value):
-                value = np.linalg.norm(value)
+                value = value.item() if np.size(value) == 1 else np.linalg.norm(value)
             row.append(value)
 
         for varname in desvars_names:
             value = desvars[varname]
             if not np.isscalar(value):
-                value = np.linalg.norm(value)
+                value = value.item() if np.size(value) == 1 else np.linalg.norm(value)
             row.append(value)
         df.loc[i] = row
 
-- 
2.43.0

