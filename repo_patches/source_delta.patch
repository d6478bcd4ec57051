From 70ea7266e2f74202becd3ae86013e72266ee920e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:51 +0000
Subject: [PATCH 01/24] fix: break the segeval.compute/segeval.util import
 cycle so any public name can be used first

---
 segeval/util/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/segeval/util/__init__.py b/segeval/util/__init__.py
index 12efe7d..4fe260b 100644
--- a/segeval/util/__init__.py
+++ b/segeval/util/__init__.py
@@ -4,7 +4,6 @@ Utility functions and classes for the package.
 .. moduleauthor:: Chris Fournier <chris.m.fournier@gmail.com>
 '''
 from __future__ import absolute_import
-from segeval.compute import compute_pairwise_values
 
 
 class SegmentationMetricError(Exception):
@@ -30,6 +29,7 @@ class SegmentationMetricError(Exception):
 
 def __fnc_metric__(fnc_metric, args, kwargs, kw_defaults):
 
+    from segeval.compute import compute_pairwise_values
     from segeval.data import Dataset
     # Create default keyword arguments
     metric_kwargs = dict(kw_defaults)
-- 
2.43.0


From cca0f27d5ea2e4b03cf92c6e5ddd9e0b7a67cc9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:54 +0000
Subject: [PATCH 02/24] fix: compare segmentations that contain no boundaries
 instead of raising ValueError

---
 segeval/similarity/distance/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/segeval/similarity/distance/__init__.py b/segeval/similarity/distance/__init__.py
index e85f478..ed75d0f 100644
--- a/segeval/similarity/distance/__init__.py
+++ b/segeval/similarity/distance/__init__.py
@@ -15,4 +15,5 @@ def identify_types(string_a, string_b):
         for position in string:
             for boundary_type in position:
                 boundary_types.add(boundary_type)
-    return frozenset(boundary_types)
+    # Without any boundaries, assume the default (i.e., single) boundary type
+    return frozenset(boundary_types or (1,))
-- 
2.43.0


From 080418485849dc800ca54eb9c692d2fc3c790ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:57 +0000
Subject: [PATCH 03/24] fix: agreement when no coder places a boundary is
 complete, not a division by zero

---
 segeval/agreement/__init__.py | 3 ++-
 segeval/agreement/kappa.py    | 3 ++-
 segeval/agreement/pi.py       | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/segeval/agreement/__init__.py b/segeval/agreement/__init__.py
index e120173..a65ffbd 100644
--- a/segeval/agreement/__init__.py
+++ b/segeval/agreement/__init__.py
@@ -172,7 +172,8 @@ def __actual_agreement_linear__(dataset, **kwargs):
     if return_parts:
         return all_numerators, all_denominators, all_pbs, coders_boundaries
     else:
-        return sum(all_numerators) / sum(all_denominators)
+        denominator = sum(all_denominators)
+        return sum(all_numerators) / denominator if denominator > 0 else 1
 
 
 def actual_agreement_linear(dataset, **kwargs):
diff --git a/segeval/agreement/kappa.py b/segeval/agreement/kappa.py
index fd1f858..9d6f12d 100644
--- a/segeval/agreement/kappa.py
+++ b/segeval/agreement/kappa.py
@@ -29,7 +29,8 @@ def __fleiss_kappa_linear__(dataset, **kwargs):
     all_numerators, all_denominators, _, coders_boundaries = \
         __actual_agreement_linear__(dataset, **metric_kwargs)
     # Calculate Aa
-    A_a = Decimal(sum(all_numerators)) / sum(all_denominators)
+    denominator = sum(all_denominators)
+    A_a = Decimal(sum(all_numerators)) / denominator if denominator > 0 else Decimal(1)
     # Calculate Ae
     coders = list(coders_boundaries.keys())
     P_segs = list()
diff --git a/segeval/agreement/pi.py b/segeval/agreement/pi.py
index 791b31b..282bd41 100644
--- a/segeval/agreement/pi.py
+++ b/segeval/agreement/pi.py
@@ -26,7 +26,8 @@ def __fleiss_pi_linear__(dataset, **kwargs):
     all_numerators, all_denominators, _, coders_boundaries = \
         __actual_agreement_linear__(dataset, **metric_kwargs)
     # Calculate Aa
-    A_a = Decimal(sum(all_numerators)) / sum(all_denominators)
+    denominator = sum(all_denominators)
+    A_a = Decimal(sum(all_numerators)) / denominator if denominator > 0 else Decimal(1)
     # Calculate Ae
     p_e_segs = list()
     for boundaries_info in coders_boundaries.values():
-- 
2.43.0


From 5f1cd1d1964e444633fa4019be28f5976679def9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:01 +0000
Subject: [PATCH 04/24] fix: Fleiss pi upon datasets containing items without
 potential boundaries

---
 segeval/agreement/pi.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/segeval/agreement/pi.py b/segeval/agreement/pi.py
index 282bd41..e2c4232 100644
--- a/segeval/agreement/pi.py
+++ b/segeval/agreement/pi.py
@@ -33,8 +33,10 @@ def __fleiss_pi_linear__(dataset, **kwargs):
     for boundaries_info in coders_boundaries.values():
         for item in boundaries_info:
             boundaries, total_boundaries = item
-            p_e_seg = Decimal(boundaries) / total_boundaries
-            p_e_segs.append(p_e_seg)
+            # Items of one unit have no potential boundaries to consider
+            if total_boundaries > 0:
+                p_e_seg = Decimal(boundaries) / total_boundaries
+                p_e_segs.append(p_e_seg)
     # Calculate P_e_seg
     P_e_seg = Decimal(sum(p_e_segs)) / len(p_e_segs)
     A_e = (P_e_seg ** 2)
-- 
2.43.0


From 5a99759d7fa9027ed426136ec3e4c3901c363256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:05 +0000
Subject: [PATCH 05/24] fix: one_minus upon B and S when unscaled weighting
 functions are used

---
 segeval/similarity/boundary.py     | 2 +-
 segeval/similarity/segmentation.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/segeval/similarity/boundary.py b/segeval/similarity/boundary.py
index 9d7b4ef..ddfa4c0 100644
--- a/segeval/similarity/boundary.py
+++ b/segeval/similarity/boundary.py
@@ -31,7 +31,7 @@ def __boundary_similarity__(*args, **kwargs):
     else:
         value = numerator / denominator if denominator > 0 else 1
         if one_minus:
-            return Decimal('1') - value
+            return Decimal('1') - Decimal(value)
         else:
             return value
 
diff --git a/segeval/similarity/segmentation.py b/segeval/similarity/segmentation.py
index b68a23a..a2edaca 100644
--- a/segeval/similarity/segmentation.py
+++ b/segeval/similarity/segmentation.py
@@ -32,7 +32,7 @@ def __segmentation_similarity__(*args, **kwargs):
     else:
         value = numerator / denominator if denominator > 0 else 1
         if one_minus:
-            return Decimal('1') - value
+            return Decimal('1') - Decimal(value)
         else:
             return value
 
-- 
2.43.0


From 1cbdebfeedf3ba024ea5fa970bcb2007786de154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:09 +0000
Subject: [PATCH 06/24] fix: segmentation similarity counted boundary types
 twice in its potential boundaries

---
 segeval/similarity/segmentation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/segeval/similarity/segmentation.py b/segeval/similarity/segmentation.py
index a2edaca..1bcdd71 100644
--- a/segeval/similarity/segmentation.py
+++ b/segeval/similarity/segmentation.py
@@ -23,7 +23,7 @@ def __segmentation_similarity__(*args, **kwargs):
     # Compute
     statistics = __boundary_statistics__(*args, **metric_kwargs)
     # Process
-    pbs = statistics['pbs'] * len(statistics['boundary_types'])
+    pbs = statistics['pbs']
     # Fraction
     denominator = pbs
     numerator = pbs - statistics['count_edits']
-- 
2.43.0


From bed84f7b0df171a0973b78dbe8d3177aacce797a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:13 +0000
Subject: [PATCH 07/24] fix: WindowDiff upon segmentations no longer than one
 window

---
 segeval/window/windowdiff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/segeval/window/windowdiff.py b/segeval/window/windowdiff.py
index 35f8195..ea12053 100644
--- a/segeval/window/windowdiff.py
+++ b/segeval/window/windowdiff.py
@@ -125,7 +125,7 @@ length (%(ref)i is not %(hyp)i).' % {'ref': len(reference),
     denominator = n - window_size
     if lamprier_et_al_2007_fix:
         denominator = measurements + 1
-    win_diff = Decimal(sum_differences) / denominator
+    win_diff = Decimal(sum_differences) / denominator if denominator > 0 else 0
     # Check normalization
     assert denominator == measurements or lamprier_et_al_2007_fix
     # Check value
-- 
2.43.0


From 514e8c519c61d5714e661b602fd108f20cd5fc52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:17 +0000
Subject: [PATCH 08/24] fix: datasets loaded from JSON and TSV files know their
 coders

---
 segeval/data/jsonutils.py | 1 +
 segeval/data/tsv.py       | 1 +
 2 files changed, 2 insertions(+)

diff --git a/segeval/data/jsonutils.py b/segeval/data/jsonutils.py
index 3d79b0c..d5b5787 100644
--- a/segeval/data/jsonutils.py
+++ b/segeval/data/jsonutils.py
@@ -84,6 +84,7 @@ def input_linear_mass_json(filepath):
             dataset[item] = dict()
             for coder, masses in coder_masses.items():
                 dataset[item][coder] = tuple(masses)
+                dataset.coders.add(coder)
         # Remove from properties
         del dataset.properties[Field.items]
     else:
diff --git a/segeval/data/tsv.py b/segeval/data/tsv.py
index 5ebdcaf..30d188d 100644
--- a/segeval/data/tsv.py
+++ b/segeval/data/tsv.py
@@ -48,6 +48,7 @@ def input_linear_mass_tsv(filepath, delimiter=DEFAULT_DELIMITER):
                     else:
                         dataset[item][coder].append(int(col))
                 dataset[item][coder] = tuple(dataset[item][coder])
+                dataset.coders.add(coder)
 
     return dataset
 
-- 
2.43.0


From ffa8445351868add905b3b060aa5e654f6c08f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:21 +0000
Subject: [PATCH 09/24] fix: compare labels, counts, types and formats by value
 instead of by object identity

---
 segeval/similarity/distance/multipleboundary.py | 4 ++--
 segeval/util/__init__.py                        | 2 +-
 segeval/window/pk.py                            | 4 ++--
 segeval/window/windowdiff.py                    | 8 ++++----
 4 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/segeval/similarity/distance/multipleboundary.py b/segeval/similarity/distance/multipleboundary.py
index 2ed4ba7..a165f96 100644
--- a/segeval/similarity/distance/multipleboundary.py
+++ b/segeval/similarity/distance/multipleboundary.py
@@ -69,7 +69,7 @@ def __additions_substitutions_sets__(d, a, b):
     # Add from b
     for addition in b - set(substituted):
         added.append(Addition(addition, 'b'))
-    assert len(added) is len(additions)
+    assert len(added) == len(additions)
     return added, set([Substitution(a_i, b_i) for a_i, b_i in set(substitutions)])
 
 
@@ -103,7 +103,7 @@ def __overlaps_existing__(i, j, d, options_transp):
         if position in options_transp:
             for t in options_transp[position]:
                 # If the transposition 't' is of the boundary type 'd'
-                if t[2] is d:
+                if t[2] == d:
                     return True
     return check_position(i) or check_position(j)
 
diff --git a/segeval/util/__init__.py b/segeval/util/__init__.py
index 4fe260b..7b46be0 100644
--- a/segeval/util/__init__.py
+++ b/segeval/util/__init__.py
@@ -70,7 +70,7 @@ def __fnc_metric__(fnc_metric, args, kwargs, kw_defaults):
         if isinstance(hypothesis, Dataset) and isinstance(reference, Dataset):
             # Compare pairwise values between coders paired from two datasets
             metric_kwargs['boundary_format'] = hypothesis.boundary_format
-            if hypothesis.boundary_format is not reference.boundary_format:
+            if hypothesis.boundary_format != reference.boundary_format:
                 raise SegmentationMetricError(
                     'Datasets contain differing boundary formats; {0} != {1}'
                     .format(hypothesis.boundary_format, reference.boundary_format))
diff --git a/segeval/window/pk.py b/segeval/window/pk.py
index d5d0ca5..d19539d 100644
--- a/segeval/window/pk.py
+++ b/segeval/window/pk.py
@@ -46,8 +46,8 @@ def __pk__(hypothesis, reference, window_size, one_minus, boundary_format,
         window_ref = reference[i:i + window_size + 1]
         window_hyp = hypothesis[i:i + window_size + 1]
         # Probe agreement
-        agree_ref = window_ref[0] is window_ref[-1]
-        agree_hyp = window_hyp[0] is window_hyp[-1]
+        agree_ref = window_ref[0] == window_ref[-1]
+        agree_hyp = window_hyp[0] == window_hyp[-1]
         # If the windows agreements agree
         if agree_ref is not agree_hyp:
             sum_differences += 1
diff --git a/segeval/window/windowdiff.py b/segeval/window/windowdiff.py
index ea12053..aac2e65 100644
--- a/segeval/window/windowdiff.py
+++ b/segeval/window/windowdiff.py
@@ -107,18 +107,18 @@ length (%(ref)i is not %(hyp)i).' % {'ref': len(reference),
         ref_boundaries = 0
         hyp_boundaries = 0
         # Check that the number of loops is correct
-        assert len(window) is window_size + 1
+        assert len(window) == window_size + 1
         # For pair in window
         for j in range(0, len(window) - 1):
             ref_part, hyp_part = zip(*window[j:j + 2])
             # Boundary exists in the reference segmentation
-            if ref_part[0] is not ref_part[1]:
+            if ref_part[0] != ref_part[1]:
                 ref_boundaries += 1
             # Boundary exists in the hypothesis segmentation
-            if hyp_part[0] is not hyp_part[1]:
+            if hyp_part[0] != hyp_part[1]:
                 hyp_boundaries += 1
         # If the number of boundaries per segmentation in the window differs
-        if ref_boundaries is not hyp_boundaries:
+        if ref_boundaries != hyp_boundaries:
             sum_differences += 1
     # Perform final division
     n = sum(convert_positions_to_masses(reference))
-- 
2.43.0


From 7ad6d965967a3da2a7c4d4e5348876032a7c9664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:25 +0000
Subject: [PATCH 10/24] fix: precision and recall of classes whose correct
 count is a Decimal zero

---
 segeval/ml/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/segeval/ml/__init__.py b/segeval/ml/__init__.py
index a1cb2f7..878578a 100644
--- a/segeval/ml/__init__.py
+++ b/segeval/ml/__init__.py
@@ -70,7 +70,7 @@ def __precision__(matrix, classification, return_parts=False):
     if return_parts:
         return numerator, denominator
     else:
-        if numerator is 0:
+        if numerator == 0:
             return Decimal(0)
         else:
             return Decimal(numerator) / Decimal(denominator)
@@ -86,7 +86,7 @@ def __recall__(matrix, classification, return_parts=False):
     if return_parts:
         return numerator, denominator
     else:
-        if numerator is 0:
+        if numerator == 0:
             return Decimal(0)
         else:
             return Decimal(numerator) / Decimal(denominator)
-- 
2.43.0


From b198d2bfaee08e4c65a1c58e928944ffed9048b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:48 +0000
Subject: [PATCH 11/24] fix: load every data file of a folder, also when two
 differ only in extension

---
 segeval/data/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/segeval/data/__init__.py b/segeval/data/__init__.py
index 65b8ec1..e2c05ce 100644
--- a/segeval/data/__init__.py
+++ b/segeval/data/__init__.py
@@ -158,7 +158,7 @@ def load_nested_folders_dict(containing_dir, filetype, dataset=None,
     fnc_load = FILETYPES[filetype][FNC]
     datafile_found = False
     # List of entries
-    files = dict()
+    files = list()
     dirs = dict()
     # For each filesystem item
     for name in os.listdir(containing_dir):
@@ -168,14 +168,14 @@ def load_nested_folders_dict(containing_dir, filetype, dataset=None,
             dirs[name] = path
         # Found a file
         else:
-            name, ext = os.path.splitext(name)
+            ext = os.path.splitext(name)[1]
             if len(ext) > 0 and ext.lower() in allowable_extensions:
-                files[name] = path
+                files.append(path)
                 datafile_found = True
     # If a data file was found
     if datafile_found:
         # If TSV files were found, load
-        for name, filepath in files.items():
+        for filepath in files:
             other = fnc_load(filepath)
             dataset.__iadd__(other, prepend_item=prepend_item)
     # If only dirs were found, recurse
-- 
2.43.0


From ce2c3b27d541ff560163c48bd43300bc5c846857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:51 +0000
Subject: [PATCH 12/24] fix: window size of a collection of position-format
 segmentations

---
 segeval/window/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/segeval/window/__init__.py b/segeval/window/__init__.py
index be26b63..2ed0fb3 100644
--- a/segeval/window/__init__.py
+++ b/segeval/window/__init__.py
@@ -41,12 +41,13 @@ def __compute_window_size__(reference, fnc_round, boundary_format):
             for cur_inner_coder_masses in inner_coder_masses.values():
                 __list_coder_masses__(cur_inner_coder_masses)
         elif hasattr(inner_coder_masses, '__iter__') and not isinstance(inner_coder_masses, str):
+            if boundary_format == BoundaryFormat.position:
+                inner_coder_masses = convert_positions_to_masses(
+                    inner_coder_masses)
             all_masses.extend(inner_coder_masses)
         else:
             raise SegmentationMetricError('Expected either a dict-like \
 collection of segmentations or a segmentation as a list-like object')
-    if boundary_format == BoundaryFormat.position:
-        reference = convert_positions_to_masses(reference)
     # Recurse and list all masses
     __list_coder_masses__(reference)
     # Convert to floats
-- 
2.43.0


From 39aff6cba2e572b50cfcc7891ae52d958bbd3755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:55 +0000
Subject: [PATCH 13/24] fix: tolerate blank lines in TSV files

---
 segeval/data/tsv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/segeval/data/tsv.py b/segeval/data/tsv.py
index 30d188d..f8dcf00 100644
--- a/segeval/data/tsv.py
+++ b/segeval/data/tsv.py
@@ -37,8 +37,8 @@ def input_linear_mass_tsv(filepath, delimiter=DEFAULT_DELIMITER):
             if i is 0:
                 for col_name in row[1:]:
                     header.append(col_name)
-            # Read data
-            else:
+            # Read data (blank lines, e.g. at the end of a file, hold none)
+            elif len(row) > 0:
                 coder = None
                 for j, col in enumerate(row):
                     # Skip the first col
-- 
2.43.0


From b1449ea2a059e8fbb4fd8c78f665c8adea2074ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:28 +0000
Subject: [PATCH 14/24] fix: close JSON files once they are read

---
 segeval/data/jsonutils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/segeval/data/jsonutils.py b/segeval/data/jsonutils.py
index d5b5787..12986fe 100644
--- a/segeval/data/jsonutils.py
+++ b/segeval/data/jsonutils.py
@@ -66,6 +66,8 @@ def input_linear_mass_json(filepath):
     except Exception as exception:
         raise DataIOError(
             'Error occurred processing file: ' + filepath, exception)
+    finally:
+        json_file.close()
     # Check type
     if Field.segmentation_type in data:
         if data[Field.segmentation_type] != SegmentationType.linear:
-- 
2.43.0


From 74367f966c4dae6cd17291ae9efbfa2a6397dbfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:32 +0000
Subject: [PATCH 15/24] fix: reject malformed JSON codings with DataIOError
 instead of TypeError or AttributeError

---
 segeval/data/jsonutils.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/segeval/data/jsonutils.py b/segeval/data/jsonutils.py
index 12986fe..ff686fb 100644
--- a/segeval/data/jsonutils.py
+++ b/segeval/data/jsonutils.py
@@ -48,6 +48,16 @@ def output_linear_mass_json(filepath, dataset):
     __write_json__(filepath, data)
 
 
+def __is_items_coders_masses__(items):
+    '''
+    Determine whether items map to coders that each map to a list of masses.
+    '''
+    return isinstance(items, dict) and \
+        all(isinstance(coder_masses, dict) and
+            all(isinstance(masses, list) for masses in coder_masses.values())
+            for coder_masses in items.values())
+
+
 def input_linear_mass_json(filepath):
     '''
     Reads a file path. Returns segmentation mass codings as a :class:`Dataset`.
@@ -68,6 +78,9 @@ def input_linear_mass_json(filepath):
             'Error occurred processing file: ' + filepath, exception)
     finally:
         json_file.close()
+    # Check structure
+    if not isinstance(data, dict):
+        raise DataIOError('Expected a JSON object in file: ' + filepath)
     # Check type
     if Field.segmentation_type in data:
         if data[Field.segmentation_type] != SegmentationType.linear:
@@ -81,6 +94,9 @@ def input_linear_mass_json(filepath):
     # If separated into multiple items for one coder per file
     if Field.items in data:
         data = data[Field.items]
+        if not __is_items_coders_masses__(data):
+            raise DataIOError('Expected each item in \'{0}\' to map coders to lists of masses in file: {1}'
+                              .format(Field.items, filepath))
         # Convert item labels into strings
         for item, coder_masses in data.items():
             dataset[item] = dict()
-- 
2.43.0


From 2adc79be108e1a7503867fd26df78850fb3c3a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:52 +0000
Subject: [PATCH 16/24] fix: parts and bias are defined when expected agreement
 is complete

---
 segeval/agreement/kappa.py | 5 ++---
 segeval/agreement/pi.py    | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/segeval/agreement/kappa.py b/segeval/agreement/kappa.py
index 9d6f12d..b01d3d4 100644
--- a/segeval/agreement/kappa.py
+++ b/segeval/agreement/kappa.py
@@ -48,13 +48,12 @@ def __fleiss_kappa_linear__(dataset, **kwargs):
                           (Decimal(boundaries_n) / total_boundaries_n))
     P_seg = Decimal(sum(P_segs)) / len(P_segs)
     A_e = P_seg
-    # Calculate pi
-    kappa = (A_a - A_e) / (Decimal('1') - A_e)
     # Return
     if return_parts:
         return A_a, A_e
     else:
-        return kappa
+        # Calculate kappa
+        return (A_a - A_e) / (Decimal('1') - A_e)
 
 
 def fleiss_kappa_linear(dataset, **kwargs):
diff --git a/segeval/agreement/pi.py b/segeval/agreement/pi.py
index e2c4232..a0d613a 100644
--- a/segeval/agreement/pi.py
+++ b/segeval/agreement/pi.py
@@ -40,13 +40,12 @@ def __fleiss_pi_linear__(dataset, **kwargs):
     # Calculate P_e_seg
     P_e_seg = Decimal(sum(p_e_segs)) / len(p_e_segs)
     A_e = (P_e_seg ** 2)
-    # Calculate pi
-    pi = (A_a - A_e) / (Decimal('1') - A_e)
     # Return
     if return_parts:
         return A_a, A_e
     else:
-        return pi
+        # Calculate pi
+        return (A_a - A_e) / (Decimal('1') - A_e)
 
 
 def fleiss_pi_linear(dataset, **kwargs):
-- 
2.43.0


From 5071e2109ac207ea8c13808588f1daeb23a5c630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:26 +0000
Subject: [PATCH 17/24] fix: keep refusing to compute agreement when there is
 nothing to compare

---
 segeval/agreement/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/segeval/agreement/__init__.py b/segeval/agreement/__init__.py
index a65ffbd..f0d27db 100644
--- a/segeval/agreement/__init__.py
+++ b/segeval/agreement/__init__.py
@@ -173,7 +173,10 @@ def __actual_agreement_linear__(dataset, **kwargs):
         return all_numerators, all_denominators, all_pbs, coders_boundaries
     else:
         denominator = sum(all_denominators)
-        return sum(all_numerators) / denominator if denominator > 0 else 1
+        # Items were compared, but there were no boundaries to disagree upon
+        if denominator == 0 and len(all_denominators) > 0:
+            return 1
+        return sum(all_numerators) / denominator
 
 
 def actual_agreement_linear(dataset, **kwargs):
-- 
2.43.0


From 09eb2cf160b581dac77610a46005c7be33a305cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:30 +0000
Subject: [PATCH 18/24] fix: agreement considers codings assigned to a dataset
 after its creation

---
 segeval/data/__init__.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/segeval/data/__init__.py b/segeval/data/__init__.py
index e2c05ce..4b769ec 100644
--- a/segeval/data/__init__.py
+++ b/segeval/data/__init__.py
@@ -100,13 +100,10 @@ class Dataset(defaultdict):
 
 
 def get_coders(container):
-    if isinstance(container, Dataset):
-        return container.coders
-    else:
-        coders = set()
-        for value in container.values():
-            coders = coders.union(value.keys())
-        return coders
+    coders = set()
+    for value in container.values():
+        coders = coders.union(value.keys())
+    return coders
 
 
 def name_from_filepath(filepath):
-- 
2.43.0


From 54e64c0727f4d3d5b99e4c227a34ddadf581d9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:22 +0000
Subject: [PATCH 19/24] fix: WindowDiff with the Lamprier et al. option upon
 lists of positions

---
 segeval/window/windowdiff.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/segeval/window/windowdiff.py b/segeval/window/windowdiff.py
index aac2e65..6c85add 100644
--- a/segeval/window/windowdiff.py
+++ b/segeval/window/windowdiff.py
@@ -33,8 +33,8 @@ def __create_paired_window__(hypothesis, reference, window_size,
         phantom_size = window_size
         phantom_size = 1 if phantom_size <= 0 else phantom_size
         phantom = tuple([0] * phantom_size)
-        units_ref_hyp = zip(phantom + reference + phantom,
-                            phantom + hypothesis + phantom)
+        units_ref_hyp = zip(phantom + tuple(reference) + phantom,
+                            phantom + tuple(hypothesis) + phantom)
     return list(units_ref_hyp), phantom_size
 
 
-- 
2.43.0


From 77eece948bb668a8871679b77ab5033db701de45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:26 +0000
Subject: [PATCH 20/24] fix: changing the classes returned by a confusion
 matrix changed (all) matrices

---
 segeval/ml/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/segeval/ml/__init__.py b/segeval/ml/__init__.py
index 878578a..1b287ec 100644
--- a/segeval/ml/__init__.py
+++ b/segeval/ml/__init__.py
@@ -249,4 +249,4 @@ class ConfusionMatrix(dict):
                 for actual in values.keys():
                     self.__classes__.add(actual)
             self.__dirty_classes__ = False
-        return self.__classes__
+        return set(self.__classes__)
-- 
2.43.0


From 9045e1848348ea530b7a5d4e7386cf2eab04b9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:34 +0000
Subject: [PATCH 21/24] fix: a metric given a single segmentation raises
 SegmentationMetricError as intended

---
 segeval/util/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/segeval/util/__init__.py b/segeval/util/__init__.py
index 7b46be0..57f3b80 100644
--- a/segeval/util/__init__.py
+++ b/segeval/util/__init__.py
@@ -60,7 +60,7 @@ def __fnc_metric__(fnc_metric, args, kwargs, kw_defaults):
     if isinstance(reference, int):
         reference = (reference, )
     # Compute
-    if dataset:
+    if dataset and hasattr(dataset, 'boundary_format'):
         # Compute pairwise values over all coders in a dataset
         metric_kwargs['boundary_format'] = dataset.boundary_format
         return compute_pairwise_values(fnc_metric, dataset, **metric_kwargs)
-- 
2.43.0


From 974fda0693beaaf36616d234927bb25ce4db6a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:18 +0000
Subject: [PATCH 22/24] fix: boundary edit distance refuses strings of
 differing length instead of ignoring the excess

---
 segeval/similarity/distance/multipleboundary.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/segeval/similarity/distance/multipleboundary.py b/segeval/similarity/distance/multipleboundary.py
index a165f96..936a609 100644
--- a/segeval/similarity/distance/multipleboundary.py
+++ b/segeval/similarity/distance/multipleboundary.py
@@ -6,6 +6,7 @@ Multiple-boundary edit distance.
 from __future__ import absolute_import, division
 from itertools import permutations
 from collections import namedtuple
+from segeval.util import SegmentationMetricError
 
 
 Addition = namedtuple('Addition', 'type side')  # For side; a = from a, b = from b
@@ -221,5 +222,9 @@ def boundary_edit_distance(boundary_string_a, boundary_string_b, n_t=2):
     :type n_t:  int
     '''
 
+    if len(boundary_string_a) != len(boundary_string_b):
+        raise SegmentationMetricError(
+            'Boundary strings differ in length ({0} != {1})'.format(
+                len(boundary_string_a), len(boundary_string_b)))
     n_t = range(2, n_t + 1)
     return __boundary_edit_distance__(boundary_string_a, boundary_string_b, n_t)
-- 
2.43.0


From c4771e57a4c40546a889555703fecbaa5c464695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:47 +0000
Subject: [PATCH 23/24] fix: summarize values that are floats

The similarity metrics return floats when given the unscaled weighting
functions, and mean and var could not add these to a Decimal (TypeError).
---
 segeval/util/math.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/segeval/util/math.py b/segeval/util/math.py
index db827e7..053253b 100644
--- a/segeval/util/math.py
+++ b/segeval/util/math.py
@@ -19,7 +19,7 @@ def mean(values):
     '''
     summation = Decimal(0)
     for value in values:
-        summation += value
+        summation += Decimal(value)
     if len(values) > 0:
         return summation / len(values)
     else:
@@ -39,7 +39,7 @@ def var(values):
     mean_value = mean(values)
     summation = Decimal(0)
     for value in values:
-        summation += (value - mean_value) ** 2
+        summation += (Decimal(value) - mean_value) ** 2
     return summation / len(values)
 
 
-- 
2.43.0


From 11036fb645f6f8876054ad3366935b325dadb700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:29 +0000
Subject: [PATCH 24/24] fix: datasets copied by the copy module or pickled keep
 their coders, properties, types and format

---
 segeval/data/__init__.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/segeval/data/__init__.py b/segeval/data/__init__.py
index 4b769ec..f5f0361 100644
--- a/segeval/data/__init__.py
+++ b/segeval/data/__init__.py
@@ -87,6 +87,20 @@ class Dataset(defaultdict):
         dataset += other
         return dataset
 
+    def __copy__(self):
+        '''
+        Create a shallow copy, including what describes the dataset.
+        '''
+        dataset = Dataset(self)
+        dataset.__dict__.update(self.__dict__)
+        return dataset
+
+    def __reduce__(self):
+        '''
+        Deep copy and pickle the items and what describes the dataset.
+        '''
+        return Dataset, (), self.__dict__, None, iter(self.items())
+
     def copy(self):
         '''
         Create a deep copy of the entire dataset object and properties.
-- 
2.43.0

