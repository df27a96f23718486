From 1cb0a4db71f8eb6923317f7306c2b8ca129e1985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:22 +0000
Subject: [PATCH 01/70] fix: accept an INCAR line that ends with a semicolon
 when more than a newline follows it

---
 parsevasp/incar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/incar.py b/parsevasp/incar.py
index 4b64ffc..fd20961 100644
--- a/parsevasp/incar.py
+++ b/parsevasp/incar.py
@@ -162,7 +162,7 @@ class Incar(BaseParser):
                 # Now split on ; as we could have combined entries
                 splitted = splitted[0].split(';')
                 for ntry in splitted:
-                    if ntry == '\n':
+                    if not ntry.strip():
                         # Skip if the user used ; at the end of a line
                         continue
                     # Then split on = and analyze each entry
-- 
2.43.0


From 239486e15dd373062b12980479018558d2312eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:22 +0000
Subject: [PATCH 02/70] fix: return the comment, not the value, from
 Incar.get(tag, comment=True)

---
 parsevasp/incar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/incar.py b/parsevasp/incar.py
index fd20961..2a0e001 100644
--- a/parsevasp/incar.py
+++ b/parsevasp/incar.py
@@ -365,7 +365,7 @@ class Incar(BaseParser):
         try:
             value = self.entries[tag].get_value()
             if comment:
-                com = self.entries[tag].get_value()
+                com = self.entries[tag].get_comment()
         except KeyError:
             pass
 
-- 
2.43.0


From 2f9165711c8ffb96cc4ee1b750abf33c3b711231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:22 +0000
Subject: [PATCH 03/70] fix: keep the comments of the SYSTEM, MAGMOM and
 M_CONSTR entries

---
 parsevasp/incar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/incar.py b/parsevasp/incar.py
index 2a0e001..2ad875d 100644
--- a/parsevasp/incar.py
+++ b/parsevasp/incar.py
@@ -543,7 +543,7 @@ class IncarItem:
                 # If value is SYSTEM or MAGMOM (can contain asterix), treat it a bit special and
                 # leave its string intact but remove grub
                 clean_value = value.strip()
-                return clean_tag, clean_value, None
+                return clean_tag, clean_value, None if comment is None else comment.strip()
 
             # Values is a string, so we have read an INCAR or the user
             # tries to assign an entry with just a string
-- 
2.43.0


From 5d30c7926994b020b7f3f870c23d65c8778d04af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:23 +0000
Subject: [PATCH 04/70] fix: write each element of a list of booleans as a
 Fortran logical in INCAR

---
 parsevasp/incar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parsevasp/incar.py b/parsevasp/incar.py
index 2ad875d..21a1af6 100644
--- a/parsevasp/incar.py
+++ b/parsevasp/incar.py
@@ -266,8 +266,8 @@ class Incar(BaseParser):
         # [1.0, 2.0, 3.0] - list of floats
 
         if isinstance(value, list):
-            # List of values (we know all are either string, int or float)
-            string = ' '.join(map(str, value))
+            # List of values (we know all are either string, int, float or bool)
+            string = ' '.join(self._convert_value_to_string(element) for element in value)
         else:
             if isinstance(value, bool):
                 if value:
-- 
2.43.0


From f3126943780867bdded6c3afccb6cb3b624c1d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:23 +0000
Subject: [PATCH 05/70] fix: let Incar.get and Incar.delete find a tag in any
 letter case, as modify does

---
 parsevasp/incar.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parsevasp/incar.py b/parsevasp/incar.py
index 21a1af6..f71c0a9 100644
--- a/parsevasp/incar.py
+++ b/parsevasp/incar.py
@@ -334,7 +334,7 @@ class Incar(BaseParser):
         """
 
         try:
-            del self.entries[tag]
+            del self.entries[tag.strip().lower()]
         except KeyError:
             pass
 
@@ -363,6 +363,7 @@ class Incar(BaseParser):
         value = None
         com = None
         try:
+            tag = tag.strip().lower()
             value = self.entries[tag].get_value()
             if comment:
                 com = self.entries[tag].get_comment()
-- 
2.43.0


From 78e7868960c28d4c2b3118311539ac1f28a2a569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:37 +0000
Subject: [PATCH 06/70] fix: let Kpoints.get return the entry

---
 parsevasp/kpoints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/kpoints.py b/parsevasp/kpoints.py
index 26552a6..5d5e23b 100644
--- a/parsevasp/kpoints.py
+++ b/parsevasp/kpoints.py
@@ -799,7 +799,7 @@ class Kpoints(BaseParser):
 
         value = None
         try:
-            value = self.entries[tag].get_value()
+            value = self.entries[tag]
         except KeyError:
             pass
 
-- 
2.43.0


From 491e87f02eade6671595742df9e566986eda9bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:37 +0000
Subject: [PATCH 07/70] fix: keep # characters inside the KPOINTS comment

---
 parsevasp/kpoints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/kpoints.py b/parsevasp/kpoints.py
index 5d5e23b..05ee353 100644
--- a/parsevasp/kpoints.py
+++ b/parsevasp/kpoints.py
@@ -169,7 +169,7 @@ class Kpoints(BaseParser):
 
         """
 
-        comment = kpoints[0].replace('#', '').strip()
+        comment = kpoints[0].strip().lstrip('#').strip()
         num_kpoints = int(kpoints[1].split()[0])
         divisions = None
         generating_vectors = None
-- 
2.43.0


From 584093cac2d58e51bf927d628d52bbe08b1579ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:37 +0000
Subject: [PATCH 08/70] fix: accept blank lines after the points of an explicit
 KPOINTS

---
 parsevasp/kpoints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/kpoints.py b/parsevasp/kpoints.py
index 05ee353..482f7f8 100644
--- a/parsevasp/kpoints.py
+++ b/parsevasp/kpoints.py
@@ -209,7 +209,7 @@ class Kpoints(BaseParser):
                 points.append(Kpoint(point, weight, direct=direct))
             loopmax = num_kpoints + loopmax
             if len(kpoints) > loopmax:
-                if kpoints[loopmax].strip()[0].lower() == 't':
+                if kpoints[loopmax].strip()[:1].lower() == 't':
                     # Tetrahedron info present
                     tetra = []
                     loopmax = loopmax + 1
-- 
2.43.0


From af7d1ca8931e6cd4a2e2eaf5bb83fbc97e5296cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:37 +0000
Subject: [PATCH 09/70] fix: do not drop the shift of an automatic KPOINTS when
 more lines follow it

---
 parsevasp/kpoints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/kpoints.py b/parsevasp/kpoints.py
index 482f7f8..df9ecba 100644
--- a/parsevasp/kpoints.py
+++ b/parsevasp/kpoints.py
@@ -235,7 +235,7 @@ class Kpoints(BaseParser):
                 else:
                     centering = 'Monkhorst-Pack'
                 divisions = [int(element) for element in kpoints[3].split()]
-                if len(kpoints) == 5:
+                if len(kpoints) > 4 and kpoints[4].strip():
                     shifts = [float(element) for element in kpoints[4].split()]
             elif third_line_char == 'r':
                 centering = 'Reciprocal'
-- 
2.43.0


From 2c08284ce85fbe4bb5ef348373c5dc431cf04c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:37 +0000
Subject: [PATCH 10/70] fix: recognise blank lines of a line-mode KPOINTS given
 as a string

---
 parsevasp/kpoints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/kpoints.py b/parsevasp/kpoints.py
index df9ecba..91fabdd 100644
--- a/parsevasp/kpoints.py
+++ b/parsevasp/kpoints.py
@@ -257,7 +257,7 @@ class Kpoints(BaseParser):
                 sys.exit(self.ERROR_KPOINTS_NOT_DIRECT)
             for index in range((len(kpoints) - 4)):
                 true_index = index + 4
-                if kpoints[true_index] != '\n':
+                if kpoints[true_index].strip():
                     entry = kpoints[true_index].split()[0:3]
                     coordinate = np.asarray([float(element) for element in entry])
                     point = Kpoint(coordinate, 1.0)
-- 
2.43.0


From 7363524328cd65449facc79e78433491db684681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:37 +0000
Subject: [PATCH 11/70] fix: announce the number of listed points in an
 explicit KPOINTS

---
 parsevasp/kpoints.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/parsevasp/kpoints.py b/parsevasp/kpoints.py
index 91fabdd..3a01880 100644
--- a/parsevasp/kpoints.py
+++ b/parsevasp/kpoints.py
@@ -346,6 +346,8 @@ class Kpoints(BaseParser):
                 self._check_num_kpoints(num_kpoints=value)
 
             self.entries[entry] = value
+            if entry == 'points':
+                self._update_num_kpoints()
 
     def delete_point(self, point_number):
         """
@@ -362,6 +364,13 @@ class Kpoints(BaseParser):
         self._check_points()
         self._check_point_number(point_number)
         del self.entries['points'][point_number]
+        self._update_num_kpoints()
+
+    def _update_num_kpoints(self):
+        """Keep the number of points in step with the list of explicit points."""
+
+        if self.entries['mode'] == 'explicit':
+            self.entries['num_kpoints'] = len(self.entries['points'])
 
     def add_point(self, point_number):
         """
@@ -874,7 +883,7 @@ class Kpoints(BaseParser):
         # Check mode
         mode = entries['mode']
         if mode == 'explicit':
-            file_handler.write(f"{entries['num_kpoints']:6d}\n")
+            file_handler.write(f"{len(entries['points']):6d}\n")
             # Points should already be direct
             file_handler.write('Direct\n')
             for point in entries['points']:
-- 
2.43.0


From 54fd1dd8190968dcce0361c2e16fd5e9c35f1da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:37 +0000
Subject: [PATCH 12/70] fix: write the blank line of a line-mode KPOINTS
 between segments only

---
 parsevasp/kpoints.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/parsevasp/kpoints.py b/parsevasp/kpoints.py
index 3a01880..c715395 100644
--- a/parsevasp/kpoints.py
+++ b/parsevasp/kpoints.py
@@ -959,8 +959,10 @@ class Kpoints(BaseParser):
             file_handler.write('Line-mode\n')
             # Assume points to be direct
             file_handler.write('Direct\n')
-            complete_set = 1
-            for _, point in enumerate(entries['points']):
+            for index, point in enumerate(entries['points']):
+                if index and index % 2 == 0:
+                    # Separate the segments
+                    file_handler.write('\n')
                 coordinate = point.get_point()
                 file_handler.write(
                     '{:{width}.{prec}f} {:{width}.{prec}f} '
@@ -968,11 +970,6 @@ class Kpoints(BaseParser):
                         coordinate[0], coordinate[1], coordinate[2], prec=self._prec, width=self._width
                     )
                 )
-                if complete_set == 2:
-                    file_handler.write('\n')
-                    complete_set = 0
-                complete_set = complete_set + 1
-            utils.remove_newline(file_handler)
 
 
 class Kpoint:
-- 
2.43.0


From 8fe3256e044b025d93f3996a97f1e895af1fd7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:37 +0000
Subject: [PATCH 13/70] fix: let Kpoints.modify set the generating vectors it
 already checks

---
 parsevasp/kpoints.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parsevasp/kpoints.py b/parsevasp/kpoints.py
index c715395..a9044fa 100644
--- a/parsevasp/kpoints.py
+++ b/parsevasp/kpoints.py
@@ -45,7 +45,7 @@ class Kpoints(BaseParser):
         ERROR_DIVISIONS:
         "You have to set either 'divisions' (automatic mode) or the explicit 'points'.",
         ERROR_INVALID_TAG:
-        "Only 'comment', 'points', 'tetra', 'tetra_volume', 'divisions', 'shifts', 'mode' "
+        "Only 'comment', 'points', 'tetra', 'tetra_volume', 'divisions', 'generating_vectors', 'shifts', 'mode' "
         "'num_kpoints' or 'centering' is allowed as input for entry.",
         ERROR_WRONG_OBJECT:
         "At least one of the values in 'points' is not a Kpoint() object.",
@@ -418,7 +418,7 @@ class Kpoints(BaseParser):
 
         if not (('comment' in entry) or ('points' in entry) or ('tetra' in entry) or ('tetra_volume' in entry) or
                 ('divisions' in entry) or ('mode' in entry) or ('num_kpoints' in entry) or ('shifts' in entry) or
-                ('centering') in entry):
+                ('centering') in entry or ('generating_vectors' in entry)):
             self._logger.error(self.ERROR_MESSAGES[self.ERROR_INVALID_TAG])
             sys.exit(self.ERROR_INVALID_TAG)
 
-- 
2.43.0


From fb8dd08aa5053206d912e136cd5eef8ffc303c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:37 +0000
Subject: [PATCH 14/70] fix: reject Cartesian k-points wherever they enter a
 Kpoints object

---
 parsevasp/kpoints.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/parsevasp/kpoints.py b/parsevasp/kpoints.py
index a9044fa..ea299e5 100644
--- a/parsevasp/kpoints.py
+++ b/parsevasp/kpoints.py
@@ -309,6 +309,7 @@ class Kpoints(BaseParser):
         if point_number is not None:
             # Check that a Kpoint() object is supplied
             self._check_point(value)
+            self._check_direct(value)
             # Check site number
             self._check_point_number(point_number)
             # Check that position is an integer
@@ -472,6 +473,22 @@ class Kpoints(BaseParser):
                     f"{self.ERROR_MESSAGES[self.ERROR_KEY_INVALID_TYPE]} The key 'points' should be a list."
                 )
                 sys.exit(self.ERROR_KEY_INVALID_TYPE)
+            for point in points:
+                self._check_direct(point)
+
+    def _check_direct(self, point):
+        """
+        Check that the point is in direct coordinates, the only ones we write.
+
+        Parameters
+        ----------
+        point : object
+            The Kpoint() object to be checked.
+
+        """
+        if isinstance(point, Kpoint) and not point.get_direct():
+            self._logger.error(self.ERROR_MESSAGES[self.ERROR_KPOINTS_NOT_DIRECT])
+            sys.exit(self.ERROR_KPOINTS_NOT_DIRECT)
 
     def _check_point(self, point=None):
         """
-- 
2.43.0


From 7bb338f5586281eb9a3ae09c5167320ecd47298e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:37 +0000
Subject: [PATCH 15/70] fix: do not share the dictionary given to Kpoints with
 the caller

---
 parsevasp/kpoints.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parsevasp/kpoints.py b/parsevasp/kpoints.py
index ea299e5..ef804e5 100644
--- a/parsevasp/kpoints.py
+++ b/parsevasp/kpoints.py
@@ -121,7 +121,9 @@ class Kpoints(BaseParser):
             self._kpoints_dict = self._from_string()
 
         # Ctore entries
-        self.entries = self._kpoints_dict
+        self.entries = dict(self._kpoints_dict)
+        if isinstance(self.entries.get('points'), list):
+            self.entries['points'] = list(self.entries['points'])
 
         # Validate dictionary
         self._validate()
-- 
2.43.0


From 58ce31e499a3e008e42bcf2ccc8f5a16fb21359d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:52 +0000
Subject: [PATCH 16/70] fix: do not share a list of k-points given to
 Kpoints.modify with the caller

---
 parsevasp/kpoints.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parsevasp/kpoints.py b/parsevasp/kpoints.py
index ef804e5..11feddc 100644
--- a/parsevasp/kpoints.py
+++ b/parsevasp/kpoints.py
@@ -348,6 +348,8 @@ class Kpoints(BaseParser):
             if entry == 'num_kpoints':
                 self._check_num_kpoints(num_kpoints=value)
 
+            if entry == 'points':
+                value = list(value)
             self.entries[entry] = value
             if entry == 'points':
                 self._update_num_kpoints()
-- 
2.43.0


From 77a0b5620ae8a2834d35cad5adf7b650c96e5924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:52 +0000
Subject: [PATCH 17/70] fix: let Poscar.get return the entry

---
 parsevasp/poscar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index 7e2fec3..4eaa810 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -755,7 +755,7 @@ class Poscar(BaseParser):
 
         value = None
         try:
-            value = self.entries[tag].get_value()
+            value = self.entries[tag]
         except KeyError:
             pass
 
-- 
2.43.0


From c20201d6786f13109e137ca5092635c4a538799d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:52 +0000
Subject: [PATCH 18/70] fix: keep # characters inside the POSCAR comment

---
 parsevasp/poscar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index 4eaa810..09fa867 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -194,7 +194,7 @@ class Poscar(BaseParser):
 
         """
 
-        comment = poscar[0].replace('#', '').strip()
+        comment = poscar[0].strip().lstrip('#').strip()
         vasp5 = True
         # Check for VASP 5 POSCAR
         if utils.is_numbers(poscar[5]):
-- 
2.43.0


From db6ff3e1bef80aec473317fa27abc2a3f8287f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:52 +0000
Subject: [PATCH 19/70] fix: build the Site objects of a POSCAR dictionary
 without touching the dictionary of the caller

---
 parsevasp/poscar.py | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index 09fa867..75ae546 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -145,8 +145,8 @@ class Poscar(BaseParser):
 
         """
 
-        sites = self._poscar_dict['sites']
-        for site in sites:
+        sites = []
+        for site in self._poscar_dict['sites']:
             if not isinstance(site, Site):
                 # Entry is not of a Site type, convert it
                 direct = site['direct']
@@ -160,16 +160,21 @@ class Poscar(BaseParser):
                     direct = True
                 site = Site(site['specie'], position, site['selective'], velocities, site['predictors'], direct)
             else:
-                if not site.get_direct():
-                    # Cartesian, so convert.
-                    position = site.get_position()
-                    velocities = site.get_velocities()
-                    position = self._to_direct(position, self._poscar_dict['unitcell'])
-                    site.set_position(position)
-                    if velocities is not None:
-                        velocities = self._to_direct(velocities, self._poscar_dict['unitcell'])
-                        site.set_velocities(velocities)
-                    site.set_direct(True)
+                site = self._site_to_direct(site, self._poscar_dict['unitcell'])
+            sites.append(site)
+        # Use a copy, the supplied dictionary belongs to the caller
+        self._poscar_dict = dict(self._poscar_dict, sites=sites)
+
+    def _site_to_direct(self, site, unitcell):
+        """Return the site in direct coordinates, leave the supplied Site object as it is."""
+
+        if site.get_direct():
+            return site
+        position = self._to_direct(site.get_position(), unitcell)
+        velocities = site.get_velocities()
+        if velocities is not None:
+            velocities = self._to_direct(velocities, unitcell)
+        return Site(site.get_specie(), position, site.get_selective(), velocities, site.get_predictors())
 
     def _from_list(self, poscar):  # pylint: disable=R0915
         """
-- 
2.43.0


From fe54ef261fa8f5ddf1c3f5d9537a459f67438780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:52 +0000
Subject: [PATCH 20/70] fix: convert Cartesian sites given to Poscar.modify

---
 parsevasp/poscar.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index 75ae546..5357840 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -393,10 +393,14 @@ class Poscar(BaseParser):
             if not utils.is_number(site_number):
                 self._logger.error(self.ERROR_MESSAGES[self.ERROR_SITE_NUMBER])
                 sys.exit(self.ERROR_SITE_NUMBER)
-            self.entries['sites'][site_number] = value
+            self.entries['sites'][site_number] = self._site_to_direct(value, self.entries['unitcell'])
         else:
             if entry == 'sites':
                 self._check_sites(sites=value)
+                value = [
+                    self._site_to_direct(site, self.entries['unitcell']) if isinstance(site, Site) else site
+                    for site in value
+                ]
             if entry == 'comment':
                 self._check_comment(comment=value)
             if entry == 'unitcell':
-- 
2.43.0


From ae9c899ab3e5e341f474555175f51e2543aa58ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:52 +0000
Subject: [PATCH 21/70] fix: read direct velocities as direct when the
 positions are Cartesian

---
 parsevasp/poscar.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index 5357840..c053484 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -289,9 +289,8 @@ class Poscar(BaseParser):
             first_char = poscar[loopmax_pos][0].lower()
             if first_char in ('d', 'c'):
                 velocities = True
-                if first_char == 'c':
-                    # Make sure we convert velocities to direct
-                    direct = False
+                # Make sure we convert Cartesian velocities to direct
+                direct = first_char == 'd'
             elif poscar[loopmax_pos].replace(' ', '') == '\n':
                 predictor = True
         # Now check that the next line is in fact a coordinate
-- 
2.43.0


From 18c62aaf598cb6bba93826141244eb8482789d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:52 +0000
Subject: [PATCH 22/70] fix: accept any number of blank lines at the end of a
 POSCAR

---
 parsevasp/poscar.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index c053484..122cfd2 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -199,6 +199,10 @@ class Poscar(BaseParser):
 
         """
 
+        # Disregard blank lines at the end of the file
+        poscar = list(poscar)
+        while poscar and not poscar[-1].strip():
+            poscar.pop()
         comment = poscar[0].strip().lstrip('#').strip()
         vasp5 = True
         # Check for VASP 5 POSCAR
-- 
2.43.0


From 03566d826ac2fdc3ede475817ab76911cc11e882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:52 +0000
Subject: [PATCH 23/70] fix: accept any white space in the blank line in front
 of the POSCAR predictors

---
 parsevasp/poscar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index 122cfd2..2dac496 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -295,7 +295,7 @@ class Poscar(BaseParser):
                 velocities = True
                 # Make sure we convert Cartesian velocities to direct
                 direct = first_char == 'd'
-            elif poscar[loopmax_pos].replace(' ', '') == '\n':
+            elif not poscar[loopmax_pos].strip():
                 predictor = True
         # Now check that the next line is in fact a coordinate
         loopmax_pos = loopmax_pos + 1
@@ -325,7 +325,7 @@ class Poscar(BaseParser):
             # the velocities
             loopmax_pos = nions + loopmax_pos
             if len(poscar) > loopmax_pos:
-                if poscar[loopmax_pos].replace(' ', '') == '\n':
+                if not poscar[loopmax_pos].strip():
                     loopmax_pos = loopmax_pos + 1
                     if utils.is_number(poscar[loopmax_pos].split()[0]):
                         for i in range(nions):
-- 
2.43.0


From 31b372967269f996141b8204488758046a2b4368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:46 +0000
Subject: [PATCH 24/70] fix: close the file opened by write also when writing
 fails

---
 parsevasp/base.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/parsevasp/base.py b/parsevasp/base.py
index 249ca50..171538d 100644
--- a/parsevasp/base.py
+++ b/parsevasp/base.py
@@ -92,11 +92,12 @@ class BaseParser(ABC):  # pylint: disable=R0903
 
         # Do the write for each specific content parser _write function using handler, also
         # bring any extra arguments.
-        self._write(file_handler, **kwargs)
-
-        if file_path:
-            # Close file
-            open_close_file_handler(file_handler=file_handler, logger=self._logger)
+        try:
+            self._write(file_handler, **kwargs)
+        finally:
+            if file_path:
+                # Close file
+                open_close_file_handler(file_handler=file_handler, logger=self._logger)
 
     def _check_file(self, file_path=None):
         """
-- 
2.43.0


From bbba7bbb942086580b9c08aee679745692d3467d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:11 +0000
Subject: [PATCH 25/70] fix: report vasprun.xml rows with unreadable fields
 instead of inventing numbers

---
 parsevasp/vasprun.py | 68 +++++++++++++++++++++++++-------------------
 1 file changed, 38 insertions(+), 30 deletions(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index fd31bde..2ee838d 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -2626,6 +2626,39 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
 
         return projectors
 
+    def _convert_fields(self, entry, dtype, number=None):
+        """
+        Convert the blank separated fields of an element.
+
+        Parameters
+        ----------
+        entry : object
+            An Element object.
+        dtype : string
+            The type of the numbers.
+        number : int
+            The number of fields the element has to contain. If None, any number is accepted.
+
+        Returns
+        -------
+        data : ndarray
+            | Dimension: (N)
+            An array containing the numbers.
+
+        """
+
+        fields = (entry.text or '').split()
+        try:
+            if '_' in (entry.text or '') or number not in (None, len(fields)):
+                raise ValueError(f'Unexpected content {entry.text!r}')
+            data = np.array(fields, dtype=dtype)
+        except ValueError:
+            # Fields that overflowed, or ran into each other
+            self._logger.error(self.ERROR_MESSAGES[self.ERROR_OVERFLOW])
+            sys.exit(self.ERROR_OVERFLOW)
+
+        return data
+
     def _convert_array_i(self, entry):
         """
         Convert the input entry to numpy array.
@@ -2646,12 +2679,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
 
         data = None
         if entry is not None:
-            try:
-                data = np.fromstring(entry.text, sep=' ', dtype='intc')
-            except ValueError as err:
-                if str(err) == 'setting an array element with a sequence.':
-                    self._logger.error(self.ERROR_MESSAGES[self.ERROR_OVERFLOW])
-                    sys.exit(self.ERROR_OVERFLOW)
+            data = self._convert_fields(entry, 'intc')
 
         return data
 
@@ -2675,12 +2703,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
 
         data = None
         if entry is not None:
-            try:
-                data = np.fromstring(entry.text, sep=' ', dtype='double')
-            except ValueError as err:
-                if str(err) == 'setting an array element with a sequence.':
-                    self._logger.error(self.ERROR_MESSAGES[self.ERROR_OVERFLOW])
-                    sys.exit(self.ERROR_OVERFLOW)
+            data = self._convert_fields(entry, 'double')
 
         return data
 
@@ -2706,12 +2729,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
         if entry is not None:
             data = np.zeros(len(entry), dtype='intc')
         for index, element in enumerate(entry):
-            try:
-                data[index] = np.fromstring(element.text, sep=' ')
-            except ValueError as err:
-                if str(err) == 'setting an array element with a sequence.':
-                    self._logger.error(self.ERROR_MESSAGES[self.ERROR_OVERFLOW])
-                    sys.exit(self.ERROR_OVERFLOW)
+            data[index] = self._convert_fields(element, 'intc', 1)[0]
 
         return data
 
@@ -2738,12 +2756,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
         if entry is not None:
             data = np.zeros(len(entry), dtype='double')
         for index, element in enumerate(entry):
-            try:
-                data[index] = np.fromstring(element.text, sep=' ')
-            except ValueError as err:
-                if str(err) == 'setting an array element with a sequence.':
-                    self._logger.error(self.ERROR_MESSAGES[self.ERROR_OVERFLOW])
-                    sys.exit(self.ERROR_OVERFLOW)
+            data[index] = self._convert_fields(element, 'double', 1)[0]
 
         return data
 
@@ -2773,12 +2786,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
             data = np.zeros((len(entry), dim), dtype='double')
 
         for index, element in enumerate(entry):
-            try:
-                data[index] = np.fromstring(element.text, sep=' ')
-            except ValueError as err:
-                if str(err) == 'setting an array element with a sequence.':
-                    self._logger.error(self.ERROR_MESSAGES[self.ERROR_OVERFLOW])
-                    sys.exit(self.ERROR_OVERFLOW)
+            data[index] = self._convert_fields(element, 'double', dim)
 
         return data
 
-- 
2.43.0


From 7a93e6ac4b2868a8d4c001a0c3cfded93bfbce47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:34 +0000
Subject: [PATCH 26/70] fix: read vasprun.xml values in event mode when their
 element is complete

---
 parsevasp/vasprun.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index 2ee838d..0b92656 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -395,54 +395,54 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
             # Now fetch the data
             if extract_generator:
                 try:
-                    if event == 'start' and element.attrib['name'] == 'version':
+                    if event == 'end' and element.attrib['name'] == 'version':
                         self._version = element.text
                 except KeyError:
                     pass
             if extract_parameters:
                 try:
-                    if event == 'start' and element.attrib['name'] == 'SYMPREC':
+                    if event == 'end' and element.attrib['name'] == 'SYMPREC':
                         self._parameters['symprec'] = self._convert_f(element)
                 except KeyError:
                     pass
                 try:
-                    if event == 'start' and element.attrib['name'] == 'ISPIN':
+                    if event == 'end' and element.attrib['name'] == 'ISPIN':
                         self._parameters['ispin'] = self._convert_i(element)
                 except KeyError:
                     pass
                 try:
-                    if event == 'start' and element.attrib['name'] == 'ISMEAR':
+                    if event == 'end' and element.attrib['name'] == 'ISMEAR':
                         self._parameters['ismear'] = self._convert_i(element)
                 except KeyError:
                     pass
                 try:
-                    if event == 'start' and element.attrib['name'] == 'SIGMA':
+                    if event == 'end' and element.attrib['name'] == 'SIGMA':
                         self._parameters['sigma'] = self._convert_f(element)
                 except KeyError:
                     pass
                 try:
-                    if event == 'start' and element.attrib['name'] == 'NBANDS':
+                    if event == 'end' and element.attrib['name'] == 'NBANDS':
                         self._parameters['nbands'] = self._convert_i(element)
                 except KeyError:
                     pass
                 try:
-                    if event == 'start' and element.attrib['name'] == 'NELECT':
+                    if event == 'end' and element.attrib['name'] == 'NELECT':
                         self._parameters['nelect'] = self._convert_f(element)
                 except KeyError:
                     pass
                 try:
-                    if event == 'start' and element.attrib['name'] == 'SYSTEM':
+                    if event == 'end' and element.attrib['name'] == 'SYSTEM':
                         self._parameters['system'] = element.text
                 except KeyError:
                     pass
                 try:
-                    if event == 'start' and element.attrib['name'] == 'NELM' \
+                    if event == 'end' and element.attrib['name'] == 'NELM' \
                         and element.getparent().attrib['name'] == 'electronic convergence':
                         self._parameters['nelm'] = self._convert_i(element)
                 except KeyError:
                     pass
                 try:
-                    if event == 'start' and element.attrib['name'] == 'NSW':
+                    if event == 'end' and element.attrib['name'] == 'NSW':
                         self._parameters['nsw'] = self._convert_i(element)
                 except KeyError:
                     pass
@@ -772,15 +772,15 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
 
                 if extract_energies:
                     # Extrapolated energy
-                    if event == 'start' and element.tag == 'i' and \
+                    if event == 'end' and element.tag == 'i' and \
                        element.attrib['name'] == 'e_0_energy':
                         totens[calc].update({'energy_extrapolated_final': float(element.text)})
                     # Free energy
-                    if event == 'start' and element.tag == 'i' and \
+                    if event == 'end' and element.tag == 'i' and \
                        element.attrib['name'] == 'e_fr_energy':
                         totens[calc].update({'energy_free_final': float(element.text)})
                     # Energy without entropy
-                    if event == 'start' and element.tag == 'i' and \
+                    if event == 'end' and element.tag == 'i' and \
                        element.attrib['name'] == 'e_wo_entrp':
                         totens[calc].update({'energy_no_entropy_final': float(element.text)})
 
@@ -966,7 +966,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                         if event == 'start' and element.tag == 'v':
                             data.append(element)
                     try:
-                        if event == 'start' and \
+                        if event == 'end' and \
                            element.attrib['name'] == 'eigenvalues':
                             dynmat['eigenvalues'] = self._convert_array_f(element)
                     except KeyError:
@@ -982,7 +982,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
 
             if extract_kpointdata:
                 try:
-                    if event == 'start' and element.tag == 'v' and \
+                    if event == 'end' and element.tag == 'v' and \
                        element.attrib['name'] == 'divisions':
                         self._lattice['kpointdiv'] = self._convert_array_i(element)
                 except KeyError:
-- 
2.43.0


From 8208050035986abe636d0faf49016d6abe832f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:51 +0000
Subject: [PATCH 27/70] fix: read every orbital of the projected vasprun.xml
 data

---
 parsevasp/vasprun.py | 47 +++++++++++++++++++++++---------------------
 1 file changed, 25 insertions(+), 22 deletions(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index 0b92656..519a0a4 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -483,16 +483,16 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                         self._logger.error(self.ERROR_MESSAGES[self.ERROR_NO_SPECIES])
                         sys.exit(self.ERROR_NO_SPECIES)
                     if data2:
-                        dos_ispin = self._convert_array2D_f(data, 10)
+                        dos_ispin = self._convert_array2D_f(data)
                         # Do not need the energy term (similar to total)
-                        _dos['partial'] = np.asarray(np.split(dos_ispin[:, 1:10], num_atoms))
-                        dos_ispin = self._convert_array2D_f(data2, 10)
+                        _dos['partial'] = np.asarray(np.split(dos_ispin[:, 1:], num_atoms))
+                        dos_ispin = self._convert_array2D_f(data2)
                         # Do not need the energy term (similar to total)
-                        _dos2['partial'] = np.asarray(np.split(dos_ispin[:, 1:10], num_atoms))
+                        _dos2['partial'] = np.asarray(np.split(dos_ispin[:, 1:], num_atoms))
                     else:
-                        dos_ispin = self._convert_array2D_f(data, 10)
+                        dos_ispin = self._convert_array2D_f(data)
                         # Do not need the energy term (similar to total)
-                        _dos['partial'] = np.asarray(np.split(dos_ispin[:, 1:10], num_atoms))
+                        _dos['partial'] = np.asarray(np.split(dos_ispin[:, 1:], num_atoms))
                     data = []
                     data2 = []
                 if event == 'end' and element.tag == 'dos' and extract_dos:
@@ -553,16 +553,16 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                         self._logger.error(self.ERROR_MESSAGES[self.ERROR_NO_SPECIES])
                         sys.exit(self.ERROR_NO_SPECIES)
                     if data2:
-                        dos_ispin = self._convert_array2D_f(data, 10)
+                        dos_ispin = self._convert_array2D_f(data)
                         # Do not need the energy term (similar to total)
-                        _dos['partial'] = np.asarray(np.split(dos_ispin[:, 1:10], num_atoms))
-                        dos_ispin = self._convert_array2D_f(data2, 10)
+                        _dos['partial'] = np.asarray(np.split(dos_ispin[:, 1:], num_atoms))
+                        dos_ispin = self._convert_array2D_f(data2)
                         # Do not need the energy term (similar to total)
-                        _dos2['partial'] = np.asarray(np.split(dos_ispin[:, 1:10], num_atoms))
+                        _dos2['partial'] = np.asarray(np.split(dos_ispin[:, 1:], num_atoms))
                     else:
-                        dos_ispin = self._convert_array2D_f(data, 10)
+                        dos_ispin = self._convert_array2D_f(data)
                         # Do not need the energy term (similar to total)
-                        _dos['partial'] = np.asarray(np.split(dos_ispin[:, 1:10], num_atoms))
+                        _dos['partial'] = np.asarray(np.split(dos_ispin[:, 1:], num_atoms))
                     data = []
                     data2 = []
                 if event == 'end' and element.tag == 'dos' and extract_dos_specific:
@@ -2161,9 +2161,9 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
             _dosup['integrated'] = dos_ispin[:, 2]
             # check if partial exists
             if entry_partial_ispin1:
-                dos_ispin = self._convert_array2D_f(entry_partial_ispin1, 10)
+                dos_ispin = self._convert_array2D_f(entry_partial_ispin1)
                 # do not need the energy term (similar to total)
-                _dosup['partial'] = np.asarray(np.split(dos_ispin[:, 1:10], num_atoms))
+                _dosup['partial'] = np.asarray(np.split(dos_ispin[:, 1:], num_atoms))
             else:
                 _dosup['partial'] = None
             dos['up'] = _dosup
@@ -2171,9 +2171,9 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
             _dosdown['total'] = dos_ispin[:, 1]
             _dosdown['integrated'] = dos_ispin[:, 2]
             if entry_partial_ispin2:
-                dos_ispin = self._convert_array2D_f(entry_partial_ispin2, 10)
+                dos_ispin = self._convert_array2D_f(entry_partial_ispin2)
                 # do not need the energy term (similar to total)
-                _dosdown['partial'] = np.asarray(np.split(dos_ispin[:, 1:10], num_atoms))
+                _dosdown['partial'] = np.asarray(np.split(dos_ispin[:, 1:], num_atoms))
             else:
                 _dosdown['partial'] = None
             dos['down'] = _dosdown
@@ -2188,9 +2188,9 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
             _dos['integrated'] = dos_ispin[:, 2]
             # check if partial exists
             if entry_partial_ispin1:
-                dos_ispin = self._convert_array2D_f(entry_partial_ispin1, 10)
+                dos_ispin = self._convert_array2D_f(entry_partial_ispin1)
                 # do not need the energy term (similar to total)
-                _dos['partial'] = np.asarray(np.split(dos_ispin[:, 1:10], num_atoms))
+                _dos['partial'] = np.asarray(np.split(dos_ispin[:, 1:], num_atoms))
             else:
                 _dos['partial'] = None
             _dos['fermi_level'] = fermi_level
@@ -2598,14 +2598,14 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
         if len(spin1) != num_bands * num_kpoints * num_atoms:
             self._logger.error(self.ERROR_MESSAGES[self.ERROR_MISMATCH_KPOINTS_NBANDS])
             sys.exit(self.ERROR_MISMATCH_KPOINTS_NBANDS)
-        pdata.append(self._convert_array2D_f(spin1, 9))
+        pdata.append(self._convert_array2D_f(spin1))
         pdata[0] = np.asarray(np.split(pdata[0], num_kpoints))
         pdata[0] = np.asarray(np.split(pdata[0], num_bands, axis=1))
         if spin2 is not None:
             if len(spin2) != num_bands * num_kpoints * num_atoms:
                 self._logger.error(self.ERROR_MESSAGES[self.ERROR_MISMATCH_KPOINTS_NBANDS])
                 sys.exit(self.ERROR_MISMATCH_KPOINTS_NBANDS)
-            pdata.append(self._convert_array2D_f(spin2, 9))
+            pdata.append(self._convert_array2D_f(spin2))
             pdata[1] = np.asarray(np.split(pdata[1], num_kpoints))
             pdata[1] = np.asarray(np.split(pdata[1], num_bands, axis=1))
 
@@ -2760,7 +2760,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
 
         return data
 
-    def _convert_array2D_f(self, entry, dim):  # pylint: disable=C0103
+    def _convert_array2D_f(self, entry, dim=None):  # pylint: disable=C0103
         """
         Convert the input entry to numpy array.
 
@@ -2770,7 +2770,8 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
             A list containing Element objects where each
             element is a float
         dim : int
-            The dimension of the second index.
+            The dimension of the second index. If None, it is the number of fields in the
+            first element (e.g. for the orbitals, which depend on the calculation).
 
         Returns
         -------
@@ -2783,6 +2784,8 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
 
         data = None
         if entry is not None:
+            if dim is None:
+                dim = len((entry[0].text or '').split())
             data = np.zeros((len(entry), dim), dtype='double')
 
         for index, element in enumerate(entry):
-- 
2.43.0


From af81982229073a091207b331c3dc696aee980beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:33 +0000
Subject: [PATCH 28/70] fix: keep the regular and interpolated DOS of
 vasprun.xml apart

---
 parsevasp/vasprun.py | 46 ++++++++++++++++++++++++++------------------
 1 file changed, 27 insertions(+), 19 deletions(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index 519a0a4..030163d 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -507,6 +507,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                     else:
                         fermi_level = None
 
+                    dos = {}
                     if _dos2:
                         dos['up'] = _dos
                         dos['down'] = _dos2
@@ -577,6 +578,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                     else:
                         fermi_level = None
 
+                    dos = {}
                     if _dos2:
                         dos['up'] = _dos
                         dos['down'] = _dos2
@@ -585,7 +587,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                     else:
                         _dos['fermi_level'] = fermi_level
                         dos['total'] = _dos
-                    self._data['dos_specific'] = dos
+                    self._data['dos_specific'] = copy.deepcopy(dos)
                     data = []
                     data2 = []
                     data6 = []
@@ -2041,8 +2043,19 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
 
         """
 
+        # Keep the regular density of states apart from the one for specific k-point grids
+        regular = specific = None
+        for entry in self._findall(xml, './/calculation/dos') or []:
+            if entry.attrib.get('comment') is None:
+                regular = entry
+            elif entry.attrib.get('comment') == 'interpolated':
+                specific = entry
+
+        if regular is None:
+            return None, None
+
         # Fetch the Fermi level
-        entry = self._find(xml, './/calculation/dos/i[@name="efermi"]')
+        entry = self._find(regular, './i[@name="efermi"]')
 
         if entry is not None:
             fermi_level = self._convert_f(entry)
@@ -2050,16 +2063,16 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
             fermi_level = None
 
         # Spin 1
-        entry_total_ispin1 = self._findall(xml, './/calculation/dos/total/array/set/set[@comment="spin 1"]/r')
+        entry_total_ispin1 = self._findall(regular, './total/array/set/set[@comment="spin 1"]/r')
 
         # Spin 2
-        entry_total_ispin2 = self._findall(xml, './/calculation/dos/total/array/set/set[@comment="spin 2"]/r')
+        entry_total_ispin2 = self._findall(regular, './total/array/set/set[@comment="spin 2"]/r')
 
         # Partial spin 1
-        entry_partial_ispin1 = self._findall(xml, './/calculation/dos/partial/array/set/set/set[@comment="spin 1"]/r')
+        entry_partial_ispin1 = self._findall(regular, './partial/array/set/set/set[@comment="spin 1"]/r')
 
         # Partial spin 2
-        entry_partial_ispin2 = self._findall(xml, './/calculation/dos/partial/array/set/set/set[@comment="spin 2"]/r')
+        entry_partial_ispin2 = self._findall(regular, './partial/array/set/set/set[@comment="spin 2"]/r')
 
         # If no entries for spin 1, eject right away
         if entry_total_ispin1 is None:
@@ -2081,7 +2094,10 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
 
         # Now extract the density of states for specific k-point grids
         # fetch the Fermi level again as this can be different
-        entry = self._find(xml, './/calculation/dos[@comment="interpolated"]/i[@name="efermi"]')
+        if specific is None:
+            return dos, None
+
+        entry = self._find(specific, './i[@name="efermi"]')
 
         if entry is not None:
             fermi_level = self._convert_f(entry)
@@ -2089,24 +2105,16 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
             fermi_level = None
 
         # Spin 1
-        entry_total_ispin1 = self._findall(
-            xml, './/calculation/dos[@comment="interpolated"]/total/array/set/set[@comment="spin 1"]/r'
-        )
+        entry_total_ispin1 = self._findall(specific, './total/array/set/set[@comment="spin 1"]/r')
 
         # Spin 2
-        entry_total_ispin2 = self._findall(
-            xml, './/calculation/dos[@comment="interpolated"]/total/array/set/set[@comment="spin 2"]/r'
-        )
+        entry_total_ispin2 = self._findall(specific, './total/array/set/set[@comment="spin 2"]/r')
 
         # Partial spin 1
-        entry_partial_ispin1 = self._findall(
-            xml, './/calculation/dos[@comment="interpolated"]/partial/array/set/set/set[@comment="spin 1"]/r'
-        )
+        entry_partial_ispin1 = self._findall(specific, './partial/array/set/set/set[@comment="spin 1"]/r')
 
         # Partial spin 2
-        entry_partial_ispin2 = self._findall(
-            xml, './/calculation/dos[@comment="interpolated"]/partial/array/set/set/set[@comment="spin 2"]/r'
-        )
+        entry_partial_ispin2 = self._findall(specific, './partial/array/set/set/set[@comment="spin 2"]/r')
 
         # If no entries for spin 1, eject right away
         if entry_total_ispin1 is None:
-- 
2.43.0


From 844ba5bf78f8472a17997c9e89e0cb335417bf3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:04 +0000
Subject: [PATCH 29/70] fix: take cells, positions, forces and stress of
 vasprun.xml per calculation

---
 parsevasp/vasprun.py | 174 +++++++++----------------------------------
 1 file changed, 36 insertions(+), 138 deletions(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index 030163d..5477749 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -1473,146 +1473,44 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
         pos = {}
         force = {}
         stress = {}
-        num_atoms = 0
-        species = self._lattice['species']
-        if species is None:
-            # Try to fetch species again, if still none, we cannot parse it
-            # and thus we cannot parse the entries in here either.
-            species = self._fetch_speciesw(xml)
-            if species is None:
-                return None, None, None, None
-        num_atoms = species.shape[0]
+        # Each quantity is taken from the calculation it belongs to, such that what is missing for one
+        # calculation is not filled with what belongs to another one.
+        locators = (
+            (cell, './structure/crystal/varray[@name="basis"]/v'),
+            (pos, './structure/varray[@name="positions"]/v'),
+            (force, './varray[@name="forces"]/v'),
+            (stress, './varray[@name="stress"]/v'),
+        )
+        calcs = self._findall(xml, './/calculation') or []
+        for index, calc in enumerate(calcs):
+            for values, locator in locators:
+                entry = self._findall(calc, locator)
+                if entry is not None:
+                    values[index + 1] = self._convert_array2D_f(entry, 3)
 
         if not extract_all:
-            entry = self._findall(xml, './/structure[@name="finalpos"]/crystal/varray[@name="basis"]/v')
-            if entry is not None:
-                cell[2] = self._convert_array2D_f(entry, 3)
-            else:
-                cell[2] = None
-            entry = self._findall(xml, './/structure[@name="initialpos"]/crystal/varray[@name="basis"]/v')
-            if entry is not None:
-                cell[1] = self._convert_array2D_f(entry, 3)
-            else:
-                cell[1] = None
-            entry = self._findall(xml, './/structure[@name="finalpos"]/varray[@name="positions"]/v')
-            if entry is not None:
-                pos[2] = self._convert_array2D_f(entry, 3)
-            else:
-                pos[2] = None
-            entry = self._findall(xml, './/structure[@name="initialpos"]/varray[@name="positions"]/v')
-            if entry is not None:
-                pos[1] = self._convert_array2D_f(entry, 3)
-            else:
-                pos[1] = None
-
-            entry = self._findall(xml, './/calculation/varray[@name="stress"]/v')
-
-            if entry is not None:
-                stress[1] = self._convert_array2D_f(entry[0:3], 3)
-                stress[2] = self._convert_array2D_f(entry[-3:], 3)
-            else:
-                stress[1] = None
-                stress[2] = None
-
-            entry = self._findall(xml, './/calculation/varray[@name="forces"]/v')
-            if entry is not None:
-                force[1] = self._convert_array2D_f(entry[0:num_atoms], 3)
-                force[2] = self._convert_array2D_f(entry[-num_atoms:], 3)
-            else:
-                force[1] = None
-                force[2] = None
-        else:
-            structures = self._findall(xml, './/calculation/structure')
-            entrycell = self._findall(xml, './/calculation/structure/crystal/varray[@name="basis"]/v')
-            entrypos = self._findall(xml, './/calculation/structure/varray[@name="positions"]/v')
-            entryforce = self._findall(xml, './/calculation/varray[@name="forces"]/v')
-            entrystress = self._findall(xml, './/calculation/varray[@name="stress"]/v')
-
-            if structures is not None:
-                num_calcs = len(structures)
-            else:
-                return None, None, None, None
-
-            num_entrycell = 0
-            num_entrypos = 0
-            num_entryforce = 0
-            num_entrystress = 0
-
-            if entrycell is not None:
-                num_entrycell = len(entrycell)
-                cell[1] = self._convert_array2D_f(entrycell[0:3], 3)
-                if num_entrycell > 3:
-                    cell[2] = self._convert_array2D_f(entrycell[-3:], 3)
-                else:
-                    cell[2] = None
-            else:
-                cell[1] = None
-                cell[2] = None
-
-            if entrypos is not None:
-                num_entrypos = len(entrypos)
-                pos[1] = self._convert_array2D_f(entrypos[0:num_atoms], 3)
-                if num_entrypos > 3:
-                    pos[2] = self._convert_array2D_f(entrypos[-num_atoms:], 3)
-                else:
-                    pos[2] = None
-            else:
-                pos[1] = None
-                pos[2] = None
-
-            if entryforce is not None:
-                num_entryforce = len(entryforce)
-                force[1] = self._convert_array2D_f(entryforce[0:num_atoms], 3)
-                if num_entryforce > 3:
-                    force[2] = self._convert_array2D_f(entryforce[-num_atoms:], 3)
-                else:
-                    force[2] = None
-            else:
-                force[1] = None
-                force[2] = None
-
-            if entrystress is not None:
-                num_entrystress = len(entrystress)
-                stress[1] = self._convert_array2D_f(entrystress[0:3], 3)
-                if num_entrystress > 3:
-                    stress[2] = self._convert_array2D_f(entrystress[-3:], 3)
-                else:
-                    stress[2] = None
-            else:
-                stress[1] = None
-                stress[2] = None
-
-            max_entries = max(num_entrystress, max(num_entryforce, max(num_entrycell, num_entrypos)))
-            if max_entries > 6:
-                for calc in range(1, num_calcs):
-                    basecell = calc * 3
-                    basepos = calc * num_atoms
-                    if entrycell is not None:
-                        cell[calc + 1] = self._convert_array2D_f(entrycell[basecell:basecell + 3], 3)
-                    if entrypos is not None:
-                        pos[calc + 1] = self._convert_array2D_f(entrypos[basepos:basepos + num_atoms], 3)
-                    if entryforce is not None:
-                        force[calc + 1] = self._convert_array2D_f(entryforce[basepos:basepos + num_atoms], 3)
-                    if entrystress is not None:
-                        stress[calc + 1] = self._convert_array2D_f(entrystress[basecell:basecell + 3], 3)
-
-        # If we still only have one entry, or number two is None, last and initial should
-        # be the same, force them to be similar. We could do this earlier, but this is done
-        # to keep it tidy, and if one in the future would like to utilize the returned None.
-        if cell:
-            if len(cell) == 1 or cell[2] is None:
-                cell[2] = cell[1]
-        if pos:
-            if len(pos) == 1 or pos[2] is None:
-                pos[2] = pos[1]
-        if force:
-            if len(force) == 1 or force[2] is None:
-                force[2] = force[1]
-        if stress:
-            if len(stress) == 1 or stress[2] is None:
-                stress[2] = stress[1]
-
-        return cell, pos, force, stress
+            # Only keep the initial and last, where the structures are also given separately
+            for values, _ in locators:
+                if values:
+                    initial, last = values.get(1), values[max(values)]
+                    values.clear()
+                    values.update({1: initial, 2: last})
+            for name, key in (('initialpos', 1), ('finalpos', 2)):
+                structure = './/structure[@name="' + name + '"]'
+                entry = self._findall(xml, structure + '/crystal/varray[@name="basis"]/v')
+                if entry is not None:
+                    cell[key] = self._convert_array2D_f(entry, 3)
+                entry = self._findall(xml, structure + '/varray[@name="positions"]/v')
+                if entry is not None:
+                    pos[key] = self._convert_array2D_f(entry, 3)
+
+        if len(calcs) == 1:
+            # Only one calculation, so last and initial should be the same
+            for values, _ in locators:
+                if 1 in values:
+                    values.setdefault(2, values[1])
+
+        return cell or None, pos or None, force or None, stress or None
 
     def _fetch_speciesw(self, xml):
         """
-- 
2.43.0


From cf6b689e8e2ab742d751b4027f3add804df14a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:39 +0000
Subject: [PATCH 30/70] fix: report the same dielectric data in both modes of
 the vasprun.xml parser

---
 parsevasp/vasprun.py | 42 ++++++++++++++++++++++++++++++++++--------
 1 file changed, 34 insertions(+), 8 deletions(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index 5477749..94d9bb7 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -285,6 +285,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
         dos = {}
         totens = {}
         dynmat = {}
+        diel = {}
         _dos = {}
         _dos2 = {}
 
@@ -328,6 +329,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
         extract_e_wo_entrp = False
         extract_scstep = False
         extract_dielectrics = False
+        extract_epsilon = False
         extract_eig_proj = False
         extract_eig_proj_ispin1 = False
         extract_eig_proj_ispin2 = False
@@ -669,14 +671,22 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                 if event == 'start' and element.tag == 'dielectricfunction':
                     extract_dielectrics = True
                 if event == 'end' and element.tag == 'dielectricfunction':
-                    _diel = {}
-                    diel = np.split(self._convert_array2D_f(data, 7), 2)
-                    _diel['energy'] = diel[0][:, 0]
-                    _diel['imag'] = diel[0][:, 1:7]
-                    _diel['real'] = diel[1][:, 1:7]
-                    self._data['dielectrics'] = _diel
+                    # There can be more than one, do not mix them
+                    if diel.get('energy') is None:
+                        _diel = np.split(self._convert_array2D_f(data, 7), 2)
+                        diel['energy'] = _diel[0][:, 0]
+                        diel['imag'] = _diel[0][:, 1:7]
+                        diel['real'] = _diel[1][:, 1:7]
                     data = []
                     extract_dielectrics = False
+                if event == 'start' and element.tag == 'varray' and \
+                   element.attrib['name'] in ('epsilon', 'epsilon_ion'):
+                    extract_epsilon = True
+                if event == 'end' and element.tag == 'varray' and \
+                   element.attrib['name'] in ('epsilon', 'epsilon_ion'):
+                    diel[element.attrib['name']] = self._convert_array2D_f(data, 3)
+                    data = []
+                    extract_epsilon = False
                 if event == 'start' and element.tag == 'dynmat':
                     extract_dynmat = True
                 if event == 'end' and element.tag == 'dynmat':
@@ -772,6 +782,10 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                     if event == 'start' and element.tag == 'v':
                         data.append(element)
 
+                if extract_epsilon:
+                    if event == 'start' and element.tag == 'v':
+                        data.append(element)
+
                 if extract_energies:
                     # Extrapolated energy
                     if event == 'end' and element.tag == 'i' and \
@@ -1069,6 +1083,11 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
         if not stress:
             stress = None
 
+        # Same layout of the dielectric data as when parsing the whole file
+        if diel:
+            diel = {key: diel.get(key) for key in ('imag', 'energy', 'real', 'epsilon', 'epsilon_ion')}
+            self._data['dielectrics'] = diel
+
         # Check totens for entries, if all arrays empty and no float detected set force totens to None
         found_totens = False
         for energies in totens.values():
@@ -2177,8 +2196,13 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
             else:
                 tag = 'dielectricfunction'
 
+            # there can be more than one, do not mix them
+            function = self._find(xml, './/calculation/' + tag)
+
             # imaginary part
-            entry = self._findall(xml, './/calculation/' + tag + '/imag/array/set/r')
+            entry = None
+            if function is not None:
+                entry = self._findall(function, './imag/array/set/r')
             if entry is None:
                 diel['imag'] = None
                 diel['energy'] = None
@@ -2188,7 +2212,9 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                 diel['imag'] = data[:, 1:7]
 
             # real part
-            entry = self._findall(xml, './/calculation/' + tag + '/real/array/set/r')
+            entry = None
+            if function is not None:
+                entry = self._findall(function, './real/array/set/r')
             if entry is None:
                 diel['real'] = None
             else:
-- 
2.43.0


From 57d1da876c4ea1e648be6e35f93558ca6b5c283e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:03 +0000
Subject: [PATCH 31/70] fix: do not take the magnetization of noncollinear runs
 for a spin channel

---
 parsevasp/vasprun.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index 94d9bb7..77a592c 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -484,7 +484,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                     else:
                         self._logger.error(self.ERROR_MESSAGES[self.ERROR_NO_SPECIES])
                         sys.exit(self.ERROR_NO_SPECIES)
-                    if data2:
+                    if _dos2:
                         dos_ispin = self._convert_array2D_f(data)
                         # Do not need the energy term (similar to total)
                         _dos['partial'] = np.asarray(np.split(dos_ispin[:, 1:], num_atoms))
@@ -555,7 +555,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                     else:
                         self._logger.error(self.ERROR_MESSAGES[self.ERROR_NO_SPECIES])
                         sys.exit(self.ERROR_NO_SPECIES)
-                    if data2:
+                    if _dos2:
                         dos_ispin = self._convert_array2D_f(data)
                         # Do not need the energy term (similar to total)
                         _dos['partial'] = np.asarray(np.split(dos_ispin[:, 1:], num_atoms))
@@ -2517,8 +2517,10 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
         # Number of kpoints to disect the eigenvalue sets later
         num_kpoints = self._lattice['kpoints'].shape[0]
 
-        # Value of ispin
-        # ispin = self._parameters['ispin']
+        # Value of ispin, without spin channels the additional sets of noncollinear calculations
+        # are the magnetization along each axis
+        if self._parameters['ispin'] == 1:
+            spin2 = None
 
         # Number of bands
         num_bands = self._parameters['nbands']
-- 
2.43.0


From 7abd7bb69576bc82b24f8aa27c15580ae80356b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:00 +0000
Subject: [PATCH 32/70] fix: drop the entry that was being written from a
 truncated vasprun.xml

---
 parsevasp/vasprun.py | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index 77a592c..bbe239a 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -34,6 +34,12 @@ _SUPPORTED_TOTAL_ENERGIES = {
     'energy_no_entropy': 'e_wo_entrp'
 }
 
+# Tags of the sections that only group entries which can be used without each other
+_GROUPING_TAGS = (
+    'generator', 'incar', 'kpoints', 'generation', 'parameters', 'separator', 'atominfo', 'calculation', 'structure',
+    'crystal', 'energy', 'dos', 'dynmat'
+)
+
 
 class Xml(BaseParser):  #  pylint: disable=R0902, R0904
     """Class to handle vasprun.xml."""
@@ -224,6 +230,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                 self._logger.debug('Running LXML in recovery mode.')
             parser = etree.XMLParser(recover=True)
             vaspxml = etree.parse(filer, parser=parser)
+            self._remove_incomplete(vaspxml.getroot())
         else:
             vaspxml = etree.parse(filer)
 
@@ -259,6 +266,28 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
         self._data['dynmat'] = self._fetch_dynmatw(vaspxml)
         self._data['born'] = self._fetch_bornw(vaspxml)
 
+    @staticmethod
+    def _remove_incomplete(element):
+        """Remove the element that was being written when the file was truncated.
+
+        All elements are followed by a newline in the file, so if nothing follows the last child
+        of an element, that child is not complete. If it is a section that only groups entries which do not
+        depend on each other, those that are complete are kept.
+
+        Parameters
+        ----------
+        element : object
+            An Element object, the root of the truncated file.
+
+        """
+
+        while len(element) > 0 and not element[-1].tail:
+            child = element[-1]
+            if child.tag not in _GROUPING_TAGS:
+                element.remove(child)
+                break
+            element = child
+
     def _parsee(self):  # pylint: disable=R0915
         """
         Performs parsing in an event driven fashion on the XML file.
-- 
2.43.0


From 34d8df8310d1ee53ca2890001cb68faebf22a72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:11 +0000
Subject: [PATCH 33/70] fix: report missing Born charges as missing

---
 parsevasp/vasprun.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index bbe239a..140d7b0 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -1482,7 +1482,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
             # and thus we cannot parse the entries in here either.
             species = self._fetch_speciesw(xml)
             if species is None:
-                return None, None, None, None
+                return None
         num_atoms = species.shape[0]
 
         born = self._convert_array2D_f(entry, 3)
-- 
2.43.0


From cfb7225098336368207a0fc62ab025963225838b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:59 +0000
Subject: [PATCH 34/70] fix: OUTCAR: do not use values on a last line that was
 cut off

---
 parsevasp/outcar.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/parsevasp/outcar.py b/parsevasp/outcar.py
index eca8c87..540c47c 100644
--- a/parsevasp/outcar.py
+++ b/parsevasp/outcar.py
@@ -123,6 +123,11 @@ class Outcar(BaseParser):
             A list of strings containing each line in the OUTCAR file.
 
         """
+        # Where the lines that were completely written end
+        num_complete = len(outcar)
+        if outcar and not outcar[-1].endswith('\n'):
+            num_complete -= 1
+
         config = ''
         s_orb = {0: 's', 1: 'p', 2: 'd', 3: 'f'}
         params = {'ibrion': -1}
@@ -141,29 +146,33 @@ class Outcar(BaseParser):
                 else:
                     nelec_steps[iter_counter[0]] = 1
                 continue
+            # Test if the end of execution has reached
+            if 'timing and accounting informations' in line:
+                self._data['run_status']['finished'] = True
+            # The last line was still being written if it is not closed, do not use any of the values on it
+            if not line.endswith('\n'):
+                continue
             # Record the NELM / NSW requested
             utils.match_integer_param(self._data['run_status'], 'NSW', line)
             utils.match_integer_param(params, 'IBRION', line)
             utils.match_integer_param(self._data['run_status'], 'NELM', line)
             if 'NBANDS=' in line:
                 self._data['run_status']['nbands'] = int(line.split('NBANDS=')[1].strip())
-            # Test if the end of execution has reached
-            if 'timing and accounting informations' in line:
-                self._data['run_status']['finished'] = True
             # Fetch the symmetry
             if line.strip().startswith('Analysis of symmetry for initial positions (statically)'):
                 config = 'static'
             if line.strip().startswith('Analysis of symmetry for dynamics'):
                 config = 'dynamic'
             if config:
-                if line.strip().startswith('Subroutine PRICEL returns'):
+                if line.strip().startswith('Subroutine PRICEL returns') and index + 1 < num_complete:
                     text = outcar[index + 1].strip().lower()
                     if text:
                         self._data['symmetry']['original_cell_type'][config].append('primitive cell')
                 if 'primitive cells build up your supercell' in line:
                     text = f'{line.strip().split()} primitive cells'
                     self._data['symmetry']['original_cell_type'][config].append(text)
-                if line.strip().startswith('Routine SETGRP: Setting up the symmetry group for a'):
+                if line.strip().startswith('Routine SETGRP: Setting up the symmetry group for a') and \
+                   index + 1 < num_complete:
                     self._data['symmetry']['symmetrized_cell_type'][config].append(outcar[index + 1].strip().lower())
                 if line.strip().startswith('Subroutine GETGRP returns'):
                     self._data['symmetry']['num_space_group_operations'][config].append(int(line.strip().split()[4]))
@@ -279,7 +288,7 @@ class Outcar(BaseParser):
             # We have at least one ionic step where NELM was reached.
             run_status['contains_nelm_breach'] = True
 
-        self._data['run_stats'] = self._parse_timings_memory(outcar[-50:])
+        self._data['run_stats'] = self._parse_timings_memory(outcar[-50:num_complete])
 
     def get_symmetry(self):
         """
-- 
2.43.0


From 32d128da344021114e4f2e1feeb2e2684860d99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:08 +0000
Subject: [PATCH 35/70] fix: OUTCAR: ignore elastic tables that are not
 complete

---
 parsevasp/outcar.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parsevasp/outcar.py b/parsevasp/outcar.py
index 540c47c..165bbf1 100644
--- a/parsevasp/outcar.py
+++ b/parsevasp/outcar.py
@@ -178,17 +178,17 @@ class Outcar(BaseParser):
                     self._data['symmetry']['num_space_group_operations'][config].append(int(line.strip().split()[4]))
 
             # then the elastic tensors etc. in kBar
-            if line.strip().startswith('ELASTIC MODULI  (kBar)'):
+            if line.strip().startswith('ELASTIC MODULI  (kBar)') and index + 8 < num_complete:
                 tensor = []
                 for idx in range(3, 9):
                     tensor.append([float(item) for item in outcar[index + idx].strip().split()[1:]])
                 self._data['elastic_moduli']['non_symmetrized'] = np.asarray(tensor)
-            if line.strip().startswith('SYMMETRIZED ELASTIC MODULI'):
+            if line.strip().startswith('SYMMETRIZED ELASTIC MODULI') and index + 8 < num_complete:
                 tensor = []
                 for idx in range(3, 9):
                     tensor.append([float(item) for item in outcar[index + idx].strip().split()[1:]])
                 self._data['elastic_moduli']['symmetrized'] = np.asarray(tensor)
-            if line.strip().startswith('TOTAL ELASTIC MODULI'):
+            if line.strip().startswith('TOTAL ELASTIC MODULI') and index + 8 < num_complete:
                 tensor = []
                 for idx in range(3, 9):
                     tensor.append([float(item) for item in outcar[index + idx].strip().split()[1:]])
-- 
2.43.0


From 6945be08050bae5445aab5420b8f0f3af7c0e678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:16 +0000
Subject: [PATCH 36/70] fix: OUTCAR: only report magnetization tables that are
 complete

---
 parsevasp/outcar.py | 54 ++++++++++++++++++---------------------------
 1 file changed, 22 insertions(+), 32 deletions(-)

diff --git a/parsevasp/outcar.py b/parsevasp/outcar.py
index 165bbf1..9740363 100644
--- a/parsevasp/outcar.py
+++ b/parsevasp/outcar.py
@@ -195,39 +195,29 @@ class Outcar(BaseParser):
                 self._data['elastic_moduli']['total'] = np.asarray(tensor)
             for _proj in ['x', 'y', 'z']:
                 if line.strip().startswith(f'magnetization ({_proj})'):
-                    _counter = 0
-                    mag_found = False
-                    while not mag_found:
-                        if outcar[index + 4 + _counter].strip().split():
-                            if not outcar[index + 4 + _counter].strip().startswith('-') and not outcar[
-                                index + 4 + _counter].strip().startswith('tot'):
-                                mag_line = outcar[index + 4 + _counter].split()
-                                self._data['magnetization']['sphere'][f'{_proj}']['site_moment'][int(mag_line[0])] = {}
-                                for _count, orb in enumerate(mag_line[1:-1]):
-                                    self._data['magnetization']['sphere'][f'{_proj}']['site_moment'][int(
-                                        mag_line[0]
-                                    )][s_orb[_count]] = float(orb)
-                                self._data['magnetization']['sphere'][f'{_proj}']['site_moment'][int(
-                                    mag_line[0]
-                                )]['tot'] = float(mag_line[-1])
-                            if outcar[index + 4 + _counter].strip().startswith('tot'):
-                                mag_line = outcar[index + 4 + _counter].split()
-                                self._data['magnetization']['sphere'][f'{_proj}']['total_magnetization'] = {}
-                                for _count, orb in enumerate(mag_line[1:-1]):
-                                    self._data['magnetization']['sphere'][f'{_proj}']['total_magnetization'][
-                                        s_orb[_count]] = float(orb)
-                                self._data['magnetization']['sphere'][f'{_proj}']['total_magnetization']['tot'] = float(
-                                    mag_line[-1]
-                                )
-                                mag_found = True
+                    # Only store the table when it is complete, otherwise we keep the previous one
+                    site_moment = {}
+                    for mag_line in outcar[index + 4:num_complete]:
+                        mag_line = mag_line.split()
+                        if mag_line and mag_line[0].startswith('-'):
+                            continue
+                        moment = {}
+                        for _count, orb in enumerate(mag_line[1:-1]):
+                            moment[s_orb[_count]] = float(orb)
+                        if mag_line and mag_line[0] != 'tot':
+                            moment['tot'] = float(mag_line[-1])
+                            site_moment[int(mag_line[0])] = moment
+                            continue
+                        if mag_line:
+                            moment['tot'] = float(mag_line[-1])
                         else:
-                            self._data['magnetization']['sphere'][f'{_proj}']['total_magnetization'] = {}
-                            self._data['magnetization']['sphere'][f'{_proj}']['total_magnetization'] = self._data[
-                                'magnetization']['sphere'][f'{_proj}']['site_moment'][list(
-                                    self._data['magnetization']['sphere'][f'{_proj}']['site_moment'].keys()
-                                )[0]]
-                            mag_found = True
-                        _counter = _counter + 1
+                            # The total is not printed for a single site
+                            moment = site_moment[list(site_moment.keys())[0]]
+                        self._data['magnetization']['sphere'][f'{_proj}'] = {
+                            'site_moment': site_moment,
+                            'total_magnetization': moment
+                        }
+                        break
             if line.strip().startswith('number of electron'):
                 # Only take the last value
                 self._data['magnetization']['full_cell'] = [float(_val) for _val in outcar[index].strip().split()[5:]]
-- 
2.43.0


From 1796cfa1ad5ccad3786045b4b4d930766ce7b63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:43 +0000
Subject: [PATCH 37/70] fix: OUTCAR: report the number of primitive cells of a
 supercell

---
 parsevasp/outcar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/outcar.py b/parsevasp/outcar.py
index 9740363..16d339c 100644
--- a/parsevasp/outcar.py
+++ b/parsevasp/outcar.py
@@ -169,7 +169,7 @@ class Outcar(BaseParser):
                     if text:
                         self._data['symmetry']['original_cell_type'][config].append('primitive cell')
                 if 'primitive cells build up your supercell' in line:
-                    text = f'{line.strip().split()} primitive cells'
+                    text = f'{line.strip().split()[0]} primitive cells'
                     self._data['symmetry']['original_cell_type'][config].append(text)
                 if line.strip().startswith('Routine SETGRP: Setting up the symmetry group for a') and \
                    index + 1 < num_complete:
-- 
2.43.0


From 68d4966e3c0cb2a5c0119383c6d1dc11d46adb36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:49 +0000
Subject: [PATCH 38/70] fix: OUTCAR: missing elastic moduli under the same key
 as present ones

---
 parsevasp/outcar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/outcar.py b/parsevasp/outcar.py
index 16d339c..1622dec 100644
--- a/parsevasp/outcar.py
+++ b/parsevasp/outcar.py
@@ -44,7 +44,7 @@ class Outcar(BaseParser):
 
         self._data = {
             'elastic_moduli': {
-                'non-symmetrized': None,
+                'non_symmetrized': None,
                 'symmetrized': None,
                 'total': None
             },
-- 
2.43.0


From abe7dd95e8cca39c17d19acfc6f1e5f88804ba65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:43 +0000
Subject: [PATCH 39/70] fix: close the file also when reading it fails

---
 parsevasp/utils.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/parsevasp/utils.py b/parsevasp/utils.py
index 8d06eb0..ea6c3a6 100644
--- a/parsevasp/utils.py
+++ b/parsevasp/utils.py
@@ -52,12 +52,14 @@ def read_from_file(file_name, input_file_handler, contains=None, lines=True, enc
         file_data = inputfile.readlines()
     else:
         inputfile = open_close_file_handler(file_name=file_name, status='r', encoding=encoding, logger=logger)
-        if not lines:
-            # Only want a string of file content, return.
-            file_data = inputfile.read()
-        else:
-            file_data = inputfile.readlines()
-        open_close_file_handler(logger, file_handler=inputfile, logger=logger)
+        try:
+            if not lines:
+                # Only want a string of file content, return.
+                file_data = inputfile.read()
+            else:
+                file_data = inputfile.readlines()
+        finally:
+            open_close_file_handler(logger, file_handler=inputfile, logger=logger)
         if not lines:
             return file_data
 
-- 
2.43.0


From 20c08204d36d94f5bfe3a7fcdd45171d0529642d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:49 +0000
Subject: [PATCH 40/70] fix: read files in one go

---
 parsevasp/utils.py | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/parsevasp/utils.py b/parsevasp/utils.py
index ea6c3a6..33ff26d 100644
--- a/parsevasp/utils.py
+++ b/parsevasp/utils.py
@@ -1,4 +1,5 @@
 """Utiles."""
+import io
 import logging
 import math
 import os
@@ -49,7 +50,7 @@ def read_from_file(file_name, input_file_handler, contains=None, lines=True, enc
         if not lines:
             # Only want a string of file content, return.
             return inputfile.read()
-        file_data = inputfile.readlines()
+        file_data = split_lines(inputfile.read())
     else:
         inputfile = open_close_file_handler(file_name=file_name, status='r', encoding=encoding, logger=logger)
         try:
@@ -57,7 +58,7 @@ def read_from_file(file_name, input_file_handler, contains=None, lines=True, enc
                 # Only want a string of file content, return.
                 file_data = inputfile.read()
             else:
-                file_data = inputfile.readlines()
+                file_data = split_lines(inputfile.read())
         finally:
             open_close_file_handler(logger, file_handler=inputfile, logger=logger)
         if not lines:
@@ -85,6 +86,25 @@ def read_from_file(file_name, input_file_handler, contains=None, lines=True, enc
     return parsed
 
 
+def split_lines(text):
+    """
+    Split text into lines in the same way as when it is read line by line from a file.
+
+    Parameters
+    ----------
+    text : str
+        The text to be split.
+
+    Returns
+    -------
+    lines : list of str
+        The lines, including their line endings.
+
+    """
+
+    return io.StringIO(text, newline=None).readlines()
+
+
 def file_exists(file_path, logger=None):
     """
     Check if the file exists.
-- 
2.43.0


From e562adc20ae30676dadb9691abe9017ab66000a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:07 +0000
Subject: [PATCH 41/70] fix: split strings into lines as files are

---
 parsevasp/incar.py   | 2 +-
 parsevasp/kpoints.py | 2 +-
 parsevasp/poscar.py  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/parsevasp/incar.py b/parsevasp/incar.py
index f71c0a9..0bfced6 100644
--- a/parsevasp/incar.py
+++ b/parsevasp/incar.py
@@ -121,7 +121,7 @@ class Incar(BaseParser):
 
         """
 
-        incar = self._incar_string.splitlines()
+        incar = utils.split_lines(self._incar_string)
         return incar
 
     def _from_list(self, incar):
diff --git a/parsevasp/kpoints.py b/parsevasp/kpoints.py
index 11feddc..b187316 100644
--- a/parsevasp/kpoints.py
+++ b/parsevasp/kpoints.py
@@ -144,7 +144,7 @@ class Kpoints(BaseParser):
 
         """
 
-        kpoints = self._kpoints_string.splitlines()
+        kpoints = utils.split_lines(self._kpoints_string)
         kpoints_dict = self._from_list(kpoints)
         return kpoints_dict
 
diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index 2dac496..761771b 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -135,7 +135,7 @@ class Poscar(BaseParser):
 
         """
 
-        poscar = self._poscar_string.splitlines(True)
+        poscar = utils.split_lines(self._poscar_string)
         poscar_dict = self._from_list(poscar)
         return poscar_dict
 
-- 
2.43.0


From b02422f4968171c532826da3f4fa97802728015c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:06 +0000
Subject: [PATCH 42/70] fix: EIGENVAL: reject files where k-points or bands are
 missing

---
 parsevasp/eigenval.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parsevasp/eigenval.py b/parsevasp/eigenval.py
index 79cfc4a..cd55589 100644
--- a/parsevasp/eigenval.py
+++ b/parsevasp/eigenval.py
@@ -102,6 +102,8 @@ class Eigenval(BaseParser):
         data = [[line.split() for line in block.splitlines()] for block in data]
         kpoints = np.zeros((num_kp, 4))
         eigenvalues = np.zeros((num_spins, num_kp, num_bands))
+        if len(data) != num_kp:
+            raise ValueError(f'Expected data for {num_kp} k-points in EIGENVAL, but found {len(data)}')
         # Iterate over blocks, pr. k-point
         for k, field in enumerate(data):
             # Remove empty lines
@@ -109,6 +111,9 @@ class Eigenval(BaseParser):
             # First line in the data block is the kpoint coordinates and weight
             kpi = [float(x) for x in kpbs.pop(0)]
             kpoints[k] = kpi
+            # Make sure the band energies are all there
+            if len(kpbs) != num_bands or any(len(point) <= num_spins for point in kpbs):
+                raise ValueError(f'The data for k-point {k + 1} in EIGENVAL is not complete')
             # The rest is the band energies
             for point in kpbs:
                 eigenvalues[:, k, int(point[0]) - 1] = point[1:num_spins + 1]
-- 
2.43.0


From 5c820007e5a98ba2275f9dfcc33f4fb1669c2c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:12 +0000
Subject: [PATCH 43/70] fix: DOSCAR: reject files that end inside the partial
 density of states

---
 parsevasp/doscar.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parsevasp/doscar.py b/parsevasp/doscar.py
index 04472c5..7dc0f30 100644
--- a/parsevasp/doscar.py
+++ b/parsevasp/doscar.py
@@ -222,6 +222,8 @@ class Doscar(BaseParser):
             for _ in range(num_ions):
                 pdos_items += [data[start:start + ndos]]
                 start += (ndos + 1)
+            if any(len(item) != ndos for item in pdos_items):
+                raise ValueError('The partial density of states in DOSCAR is not complete')
 
             # Get the number of columns for the pdos section.
             count = len(pdos_items[-1][-1])
-- 
2.43.0


From ae79a204ef5ea62839d571d517a623894370a7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:19 +0000
Subject: [PATCH 44/70] fix: DOSCAR: reject files that end inside the header of
 the partial density of states

---
 parsevasp/doscar.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parsevasp/doscar.py b/parsevasp/doscar.py
index 7dc0f30..cb07ec8 100644
--- a/parsevasp/doscar.py
+++ b/parsevasp/doscar.py
@@ -240,6 +240,8 @@ class Doscar(BaseParser):
                     pdos[name] = np.squeeze(pdos_data[:, :, i + 1:i + 1 + num_spin], axis=2)
                 else:
                     pdos[name] = pdos_data[:, :, i + 1:i + 1 + num_spin]
+        elif any(data[ndos:]):
+            raise ValueError('The header of the partial density of states in DOSCAR is not complete')
 
         metadata = {}
         metadata['n_ions'] = num_ions
-- 
2.43.0


From b6aef1c0d904a1980685c03e0ff098fac57570c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:24 +0000
Subject: [PATCH 45/70] fix: CHGCAR: do not accept numbers that cannot be read

---
 parsevasp/chgcar.py | 40 ++++++++++++++++++++++++++--------------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/parsevasp/chgcar.py b/parsevasp/chgcar.py
index 636b7ac..3b2ba4f 100644
--- a/parsevasp/chgcar.py
+++ b/parsevasp/chgcar.py
@@ -88,25 +88,37 @@ class Chgcar(BaseParser):
         content = content.split(ngf_string)
         num_datasets = len(content)
         # First dataset is always there
-        self._data['total'] = np.fromstring(content[0].split('augmentation occupancies')[0], dtype=float,
-                                            sep=' ').reshape(ngf) / volume
+        self._data['total'] = self._read_dataset(content[0], ngf) / volume
         if num_datasets == 2:
             # Collinear spin
-            self._data['magnetization'] = np.fromstring(
-                content[1].split('augmentation occupancies')[0], dtype=float, sep=' '
-            ).reshape(ngf) / volume
+            self._data['magnetization'] = self._read_dataset(content[1], ngf) / volume
         elif num_datasets == 4:
             # Non-collinear spin
             self._data['magnetization'] = {}
-            self._data['magnetization']['x'] = np.fromstring(
-                content[1].split('augmentation occupancies')[0], dtype=float, sep=' '
-            ).reshape(ngf) / volume
-            self._data['magnetization']['y'] = np.fromstring(
-                content[2].split('augmentation occupancies')[0], dtype=float, sep=' '
-            ).reshape(ngf) / volume
-            self._data['magnetization']['z'] = np.fromstring(
-                content[3].split('augmentation occupancies')[0], dtype=float, sep=' '
-            ).reshape(ngf) / volume
+            self._data['magnetization']['x'] = self._read_dataset(content[1], ngf) / volume
+            self._data['magnetization']['y'] = self._read_dataset(content[2], ngf) / volume
+            self._data['magnetization']['z'] = self._read_dataset(content[3], ngf) / volume
+
+    @staticmethod
+    def _read_dataset(content, ngf):
+        """
+        Convert one dataset to a NumPy array.
+
+        Parameters
+        ----------
+        content : str
+            The text containing the dataset, possibly followed by the augmentation occupancies.
+        ngf : list
+            The number of grid points, slowest running first.
+
+        Returns
+        -------
+        dataset : nparray
+            The dataset on the grid.
+
+        """
+        values = content.split('augmentation occupancies')[0].split()
+        return np.array(values, dtype=float).reshape(ngf)
 
     @property
     def charge_density(self):
-- 
2.43.0


From 31a0d9bcc7405a4a8730eb843dbb994be139c811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:32 +0000
Subject: [PATCH 46/70] fix: CHGCAR: reject files with an unexpected number of
 datasets

---
 parsevasp/chgcar.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parsevasp/chgcar.py b/parsevasp/chgcar.py
index 3b2ba4f..3739e5f 100644
--- a/parsevasp/chgcar.py
+++ b/parsevasp/chgcar.py
@@ -98,6 +98,8 @@ class Chgcar(BaseParser):
             self._data['magnetization']['x'] = self._read_dataset(content[1], ngf) / volume
             self._data['magnetization']['y'] = self._read_dataset(content[2], ngf) / volume
             self._data['magnetization']['z'] = self._read_dataset(content[3], ngf) / volume
+        elif num_datasets != 1:
+            raise ValueError(f'Unexpected number of datasets in CHGCAR: {num_datasets}')
 
     @staticmethod
     def _read_dataset(content, ngf):
-- 
2.43.0


From 7a5d6ddbf7d49b1297ed0987af593619d1dc1e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:04 +0000
Subject: [PATCH 47/70] fix: DOSCAR: also notice a header cut after a zero

---
 parsevasp/doscar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/doscar.py b/parsevasp/doscar.py
index cb07ec8..5cd24e5 100644
--- a/parsevasp/doscar.py
+++ b/parsevasp/doscar.py
@@ -240,7 +240,7 @@ class Doscar(BaseParser):
                     pdos[name] = np.squeeze(pdos_data[:, :, i + 1:i + 1 + num_spin], axis=2)
                 else:
                     pdos[name] = pdos_data[:, :, i + 1:i + 1 + num_spin]
-        elif any(data[ndos:]):
+        elif any(row != [] for row in data[ndos:]):
             raise ValueError('The header of the partial density of states in DOSCAR is not complete')
 
         metadata = {}
-- 
2.43.0


From 429f2f9ba598a522c5dca98b9bee09b634849f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:25 +0000
Subject: [PATCH 48/70] fix: DOSCAR: same name for the dx2-y2 column of
 non-collinear calculations

---
 parsevasp/doscar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/doscar.py b/parsevasp/doscar.py
index 5cd24e5..9f72d28 100644
--- a/parsevasp/doscar.py
+++ b/parsevasp/doscar.py
@@ -52,7 +52,7 @@ DTYPES_PDOS_NONCOLLINEAR = {
     37:
     np.dtype([('energy', float), ('s', float, (4,)), ('py', float, (4,)), ('px', float, (4,)), ('pz', float, (4,)),
               ('dxy', float, (4,)), ('dyz', float, (4,)), ('dz2', float, (4,)), ('dxz', float, (4,)),
-              ('x2-y2', float, (4,))]),
+              ('dx2-y2', float, (4,))]),
     65:
     np.dtype([('energy', float), ('s', float, (4,)), ('py', float, (4,)), ('px', float, (4,)), ('pz', float, (4,)),
               ('dxy', float, (4,)), ('dyz', float, (4,)), ('dz2', float, (4,)), ('dxz', float, (4,)),
-- 
2.43.0


From a5b54d865b6ddcece967185ece31a1b82d2d818e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:32 +0000
Subject: [PATCH 49/70] fix: take the spin components of each DOSCAR column
 group

---
 parsevasp/doscar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parsevasp/doscar.py b/parsevasp/doscar.py
index 9f72d28..3593827 100644
--- a/parsevasp/doscar.py
+++ b/parsevasp/doscar.py
@@ -212,7 +212,7 @@ class Doscar(BaseParser):
             if num_spin == 1:
                 dos[name] = np.squeeze(dos_data[:, i + 1:i + 1 + num_spin], axis=1)
             else:
-                dos[name] = dos_data[:, i + 1:i + 1 + num_spin]
+                dos[name] = dos_data[:, i * num_spin + 1:(i + 1) * num_spin + 1]
 
         # Partial density of states
         pdos_items = []
@@ -239,7 +239,7 @@ class Doscar(BaseParser):
                 if num_spin == 1:  # Only squeeze if there is only one spin component
                     pdos[name] = np.squeeze(pdos_data[:, :, i + 1:i + 1 + num_spin], axis=2)
                 else:
-                    pdos[name] = pdos_data[:, :, i + 1:i + 1 + num_spin]
+                    pdos[name] = pdos_data[:, :, i * num_spin + 1:(i + 1) * num_spin + 1]
         elif any(row != [] for row in data[ndos:]):
             raise ValueError('The header of the partial density of states in DOSCAR is not complete')
 
-- 
2.43.0


From 1a706bbd957e2543622c2bdea614421c52b0b737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:12 +0000
Subject: [PATCH 50/70] fix: notice failing reads when a truncated vasprun.xml
 is recovered

---
 parsevasp/vasprun.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index 140d7b0..3088257 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -229,7 +229,12 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
             if xml_truncated:
                 self._logger.debug('Running LXML in recovery mode.')
             parser = etree.XMLParser(recover=True)
-            vaspxml = etree.parse(filer, parser=parser)
+            if self._file_handler is None:
+                # Read the file from here, a failing read goes unnoticed when libxml2 recovers
+                with open(filer, 'rb') as file_handler:
+                    vaspxml = etree.parse(file_handler, parser=parser)
+            else:
+                vaspxml = etree.parse(filer, parser=parser)
             self._remove_incomplete(vaspxml.getroot())
         else:
             vaspxml = etree.parse(filer)
-- 
2.43.0


From 3bdae8914f812bddf38d521ed04793c1317ca5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:37 +0000
Subject: [PATCH 51/70] fix: do not read the beginning of a damaged integer
 parameter

---
 parsevasp/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/utils.py b/parsevasp/utils.py
index 33ff26d..d674b23 100644
--- a/parsevasp/utils.py
+++ b/parsevasp/utils.py
@@ -375,7 +375,7 @@ def match_integer_param(inputs, key, string):
 
     """
 
-    match = re.match(r'^ +' + key + r' *= *([-0-9]+)', string)
+    match = re.match(r'^ +' + key + r' *= *([-0-9]+)(?![^\s;])', string)
     if match:
         inputs[key.lower()] = int(match.group(1))
 
-- 
2.43.0


From a0458979510b808f7b2f674629ccfeb5adea445f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:43 +0000
Subject: [PATCH 52/70] fix: OUTCAR: reject iteration counters that cannot be
 read

---
 parsevasp/outcar.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parsevasp/outcar.py b/parsevasp/outcar.py
index 1622dec..40880a9 100644
--- a/parsevasp/outcar.py
+++ b/parsevasp/outcar.py
@@ -146,6 +146,8 @@ class Outcar(BaseParser):
                 else:
                     nelec_steps[iter_counter[0]] = 1
                 continue
+            if '- Iteration ' in line and line.endswith('\n'):
+                raise ValueError(f'Not able to read the iteration counter: {line.strip()}')
             # Test if the end of execution has reached
             if 'timing and accounting informations' in line:
                 self._data['run_status']['finished'] = True
-- 
2.43.0


From 132d846bcd3dbb73643579a96add7891555b9baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:53 +0000
Subject: [PATCH 53/70] fix: set up the default logger of a class once, also
 from several threads

---
 parsevasp/base.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/parsevasp/base.py b/parsevasp/base.py
index 171538d..d1310c1 100644
--- a/parsevasp/base.py
+++ b/parsevasp/base.py
@@ -3,8 +3,12 @@
 import logging
 import os
 import sys
+import threading
 from abc import ABC, abstractmethod
 
+# Only one thread at a time sets up the logger of a class, such that it gets a single handler
+_LOGGER_LOCK = threading.Lock()
+
 
 class BaseParser(ABC):  # pylint: disable=R0903
     """Base class to handle VASP files."""
@@ -52,13 +56,14 @@ class BaseParser(ABC):  # pylint: disable=R0903
     def _setup_logger(self, level):
         """Setup a logger for this class"""
         logger = logging.getLogger(self.__module__ + '.' + self.__class__.__name__)
-        logger.setLevel(level)
-        if not logger.handlers:
-            handler = logging.StreamHandler()
-            handler.setLevel(level)
-            formatter = logging.Formatter('%(asctime)s - %(name)s - %(levelname)s - %(message)s')
-            handler.setFormatter(formatter)
-            logger.addHandler(handler)
+        with _LOGGER_LOCK:
+            logger.setLevel(level)
+            if not logger.handlers:
+                handler = logging.StreamHandler()
+                handler.setLevel(level)
+                formatter = logging.Formatter('%(asctime)s - %(name)s - %(levelname)s - %(message)s')
+                handler.setFormatter(formatter)
+                logger.addHandler(handler)
         return logger
 
     def write(self, **kwargs):
-- 
2.43.0


From 9e2d73f88443c897f87d135de17d7f06205c211f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:57 +0000
Subject: [PATCH 54/70] fix: do not touch the destination of a write that
 cannot be made

---
 parsevasp/base.py   | 10 +++++++---
 parsevasp/potcar.py |  5 +++--
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/parsevasp/base.py b/parsevasp/base.py
index d1310c1..cead7d8 100644
--- a/parsevasp/base.py
+++ b/parsevasp/base.py
@@ -1,5 +1,6 @@
 """Base class to handle VASP files."""
 # pylint: disable=consider-using-with
+import io
 import logging
 import os
 import sys
@@ -91,14 +92,17 @@ class BaseParser(ABC):  # pylint: disable=R0903
 
         file_path = kwargs.pop('file_path', '')
         file_handler = kwargs.pop('file_handler', '')
+        # Do the write for each specific content parser _write function, also bring any extra arguments.
+        # Nothing is touched at the destination before we know that this is possible.
+        content = io.StringIO()
+        self._write(content, **kwargs)
+
         if file_path:
             # Open file
             file_handler = open_close_file_handler(file_path, status='w', logger=self._logger)
 
-        # Do the write for each specific content parser _write function using handler, also
-        # bring any extra arguments.
         try:
-            self._write(file_handler, **kwargs)
+            file_handler.write(content.getvalue())
         finally:
             if file_path:
                 # Close file
diff --git a/parsevasp/potcar.py b/parsevasp/potcar.py
index 2362ea6..2cd29cb 100644
--- a/parsevasp/potcar.py
+++ b/parsevasp/potcar.py
@@ -208,5 +208,6 @@ class Potcar(BaseParser):
         except Exception as exc:
             raise AttributeError(attribute) from exc
 
-    def _write(self, file_handler, **kwargs):
-        pass
+    def _write(self, *args, **kwargs):
+        """Write not supported for POTCAR."""
+        raise NotImplementedError('Writing POTCAR files is not supported.')
-- 
2.43.0


From 3ec6d4706c42457f6f692f585a70dc23a26f6545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:49 +0000
Subject: [PATCH 55/70] fix: a comment that is not a string is refused also
 when there was no comment

---
 parsevasp/kpoints.py | 2 +-
 parsevasp/poscar.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/parsevasp/kpoints.py b/parsevasp/kpoints.py
index b187316..90ab82d 100644
--- a/parsevasp/kpoints.py
+++ b/parsevasp/kpoints.py
@@ -445,7 +445,7 @@ class Kpoints(BaseParser):
                 self._logger.error(f"{self.ERROR_MESSAGES[self.ERROR_NO_KEY]} The key in question is 'comment'.")
                 sys.exit(self.ERROR_NO_KEY)
         # Allow None for comment
-        if self.entries['comment'] is not None:
+        if comment is not None:
             if not isinstance(comment, str):
                 self._logger.error(
                     f"{self.ERROR_MESSAGES[self.ERROR_KEY_INVALID_TYPE]} The key 'comment' should be a string."
diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index 761771b..0bed0e4 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -516,7 +516,7 @@ class Poscar(BaseParser):
                 self._logger.error(self.ERROR_MESSAGES[f"{self.ERROR_NO_KEY} The key in question is 'comment'."])
                 sys.exit(self.ERROR_NO_KEY)
         # Allow None for comment
-        if self.entries['comment'] is not None:
+        if comment is not None:
             if not isinstance(comment, str):
                 self._logger.error(
                     f"{self.ERROR_MESSAGES[self.ERROR_KEY_INVALID_TYPE]} The key 'comment' is not a string."
-- 
2.43.0


From 4c4575eb206fb5fa9092370f13ba0869fdd9a21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:56 +0000
Subject: [PATCH 56/70] fix: refuse to modify entries that do not exist

---
 parsevasp/kpoints.py | 7 ++++---
 parsevasp/poscar.py  | 2 +-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/parsevasp/kpoints.py b/parsevasp/kpoints.py
index 90ab82d..0593d68 100644
--- a/parsevasp/kpoints.py
+++ b/parsevasp/kpoints.py
@@ -421,9 +421,10 @@ class Kpoints(BaseParser):
 
         """
 
-        if not (('comment' in entry) or ('points' in entry) or ('tetra' in entry) or ('tetra_volume' in entry) or
-                ('divisions' in entry) or ('mode' in entry) or ('num_kpoints' in entry) or ('shifts' in entry) or
-                ('centering') in entry or ('generating_vectors' in entry)):
+        if entry not in (
+            'comment', 'points', 'tetra', 'tetra_volume', 'divisions', 'mode', 'num_kpoints', 'shifts', 'centering',
+            'generating_vectors'
+        ):
             self._logger.error(self.ERROR_MESSAGES[self.ERROR_INVALID_TAG])
             sys.exit(self.ERROR_INVALID_TAG)
 
diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index 0bed0e4..1e86ec3 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -466,7 +466,7 @@ class Poscar(BaseParser):
 
         """
 
-        if not (('comment' in entry) or ('unitcell' in entry) or ('sites' in entry)):
+        if entry not in ('comment', 'unitcell', 'sites'):
             self._logger.error(self.ERROR_MESSAGES[self.ERROR_INVALID_ENTRY])
             sys.exit(self.ERROR_INVALID_ENTRY)
 
-- 
2.43.0


From cff0ced7fe1957d076860f60114bc6124cd935b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:02 +0000
Subject: [PATCH 57/70] fix: the fallback to ElementTree when lxml is missing

---
 parsevasp/vasprun.py | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index 3088257..c904041 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -1,7 +1,6 @@
 """Handle vasprun.xml."""
 # pylint: disable=C0302
 import copy
-import logging
 import os
 import sys
 
@@ -17,16 +16,8 @@ try:
     from lxml import etree
     USE_LXML = True
 except ImportError:
-    try:
-        # normal cElementTree
-        import cElementTree as etree
-    except ImportError:
-        try:
-            # normal ElementTree
-            import elementtree.ElementTree as etree
-        except ImportError:
-            logging.error('Failed to import ElementTree.')
-            sys.exit('Failed to import ElementTree.')
+    # normal ElementTree
+    import xml.etree.ElementTree as etree
 
 _SUPPORTED_TOTAL_ENERGIES = {
     'energy_extrapolated': 'e_0_energy',
-- 
2.43.0


From c84cd7a685d930410fadbdae708fe8326fac6c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:08 +0000
Subject: [PATCH 58/70] fix: event driven parsing of NELM without lxml

---
 parsevasp/vasprun.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index c904041..cb0e20f 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -463,9 +463,10 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                 except KeyError:
                     pass
                 try:
-                    if event == 'end' and element.attrib['name'] == 'NELM' \
-                        and element.getparent().attrib['name'] == 'electronic convergence':
-                        self._parameters['nelm'] = self._convert_i(element)
+                    if event == 'end' and element.attrib['name'] == 'electronic convergence':
+                        entry = element.find('i[@name="NELM"]')
+                        if entry is not None:
+                            self._parameters['nelm'] = self._convert_i(entry)
                 except KeyError:
                     pass
                 try:
-- 
2.43.0


From 0fb4606f43474be213af122d678b7c61392c39c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:00 +0000
Subject: [PATCH 59/70] fix: read only printed numbers as numbers

---
 parsevasp/chgcar.py   |  8 ++++---
 parsevasp/eigenval.py |  4 ++--
 parsevasp/outcar.py   | 28 ++++++++++++----------
 parsevasp/utils.py    | 56 ++++++++++++++++++++++++++++++++++++++++---
 parsevasp/vasprun.py  | 10 ++++----
 5 files changed, 81 insertions(+), 25 deletions(-)

diff --git a/parsevasp/chgcar.py b/parsevasp/chgcar.py
index 3739e5f..20154f8 100644
--- a/parsevasp/chgcar.py
+++ b/parsevasp/chgcar.py
@@ -67,11 +67,11 @@ class Chgcar(BaseParser):
         content = temp[1]
         header = header.split('\n')
         # comment = header[0]
-        scaling = float(header[1])
+        scaling = utils.to_float(header[1])
         lattice_vectors = np.zeros((3, 3))
         for i in range(3):
             # Read and scale lattice vectors
-            lattice_vectors[i] = scaling * np.array([float(item) for item in header[i + 2].split()])
+            lattice_vectors[i] = scaling * np.array([utils.to_float(item) for item in header[i + 2].split()])
             # Calculate volume for later scaling
         volume = 1.0
         if volume:
@@ -80,7 +80,7 @@ class Chgcar(BaseParser):
         temp = content.split('\n', 1)
         ngf_string = temp[0]
         content = temp[1]
-        ngf = [int(item) for item in ngf_string.split()]
+        ngf = [utils.to_int(item) for item in ngf_string.split()]
         # Need to reverse as CHGCAR is x fastest, while we want
         # to comply with z fastest (C order).
         ngf.reverse()
@@ -120,6 +120,8 @@ class Chgcar(BaseParser):
 
         """
         values = content.split('augmentation occupancies')[0].split()
+        if any('_' in value for value in values):
+            raise ValueError('The dataset in CHGCAR contains fields which are not numbers')
         return np.array(values, dtype=float).reshape(ngf)
 
     @property
diff --git a/parsevasp/eigenval.py b/parsevasp/eigenval.py
index cd55589..a2a58d4 100644
--- a/parsevasp/eigenval.py
+++ b/parsevasp/eigenval.py
@@ -109,14 +109,14 @@ class Eigenval(BaseParser):
             # Remove empty lines
             kpbs = [x for x in field if x]
             # First line in the data block is the kpoint coordinates and weight
-            kpi = [float(x) for x in kpbs.pop(0)]
+            kpi = [utils.to_float(x) for x in kpbs.pop(0)]
             kpoints[k] = kpi
             # Make sure the band energies are all there
             if len(kpbs) != num_bands or any(len(point) <= num_spins for point in kpbs):
                 raise ValueError(f'The data for k-point {k + 1} in EIGENVAL is not complete')
             # The rest is the band energies
             for point in kpbs:
-                eigenvalues[:, k, int(point[0]) - 1] = point[1:num_spins + 1]
+                eigenvalues[:, k, utils.to_int(point[0]) - 1] = [utils.to_float(x) for x in point[1:num_spins + 1]]
 
         # Create the metadata dict
         metadata = {}
diff --git a/parsevasp/outcar.py b/parsevasp/outcar.py
index 40880a9..5bf0075 100644
--- a/parsevasp/outcar.py
+++ b/parsevasp/outcar.py
@@ -159,7 +159,7 @@ class Outcar(BaseParser):
             utils.match_integer_param(params, 'IBRION', line)
             utils.match_integer_param(self._data['run_status'], 'NELM', line)
             if 'NBANDS=' in line:
-                self._data['run_status']['nbands'] = int(line.split('NBANDS=')[1].strip())
+                self._data['run_status']['nbands'] = utils.to_int(line.split('NBANDS=')[1].strip())
             # Fetch the symmetry
             if line.strip().startswith('Analysis of symmetry for initial positions (statically)'):
                 config = 'static'
@@ -177,23 +177,25 @@ class Outcar(BaseParser):
                    index + 1 < num_complete:
                     self._data['symmetry']['symmetrized_cell_type'][config].append(outcar[index + 1].strip().lower())
                 if line.strip().startswith('Subroutine GETGRP returns'):
-                    self._data['symmetry']['num_space_group_operations'][config].append(int(line.strip().split()[4]))
+                    self._data['symmetry']['num_space_group_operations'][config].append(
+                        utils.to_int(line.strip().split()[4])
+                    )
 
             # then the elastic tensors etc. in kBar
             if line.strip().startswith('ELASTIC MODULI  (kBar)') and index + 8 < num_complete:
                 tensor = []
                 for idx in range(3, 9):
-                    tensor.append([float(item) for item in outcar[index + idx].strip().split()[1:]])
+                    tensor.append([utils.to_float(item) for item in outcar[index + idx].strip().split()[1:]])
                 self._data['elastic_moduli']['non_symmetrized'] = np.asarray(tensor)
             if line.strip().startswith('SYMMETRIZED ELASTIC MODULI') and index + 8 < num_complete:
                 tensor = []
                 for idx in range(3, 9):
-                    tensor.append([float(item) for item in outcar[index + idx].strip().split()[1:]])
+                    tensor.append([utils.to_float(item) for item in outcar[index + idx].strip().split()[1:]])
                 self._data['elastic_moduli']['symmetrized'] = np.asarray(tensor)
             if line.strip().startswith('TOTAL ELASTIC MODULI') and index + 8 < num_complete:
                 tensor = []
                 for idx in range(3, 9):
-                    tensor.append([float(item) for item in outcar[index + idx].strip().split()[1:]])
+                    tensor.append([utils.to_float(item) for item in outcar[index + idx].strip().split()[1:]])
                 self._data['elastic_moduli']['total'] = np.asarray(tensor)
             for _proj in ['x', 'y', 'z']:
                 if line.strip().startswith(f'magnetization ({_proj})'):
@@ -205,13 +207,13 @@ class Outcar(BaseParser):
                             continue
                         moment = {}
                         for _count, orb in enumerate(mag_line[1:-1]):
-                            moment[s_orb[_count]] = float(orb)
+                            moment[s_orb[_count]] = utils.to_float(orb)
                         if mag_line and mag_line[0] != 'tot':
-                            moment['tot'] = float(mag_line[-1])
-                            site_moment[int(mag_line[0])] = moment
+                            moment['tot'] = utils.to_float(mag_line[-1])
+                            site_moment[utils.to_int(mag_line[0])] = moment
                             continue
                         if mag_line:
-                            moment['tot'] = float(mag_line[-1])
+                            moment['tot'] = utils.to_float(mag_line[-1])
                         else:
                             # The total is not printed for a single site
                             moment = site_moment[list(site_moment.keys())[0]]
@@ -222,7 +224,9 @@ class Outcar(BaseParser):
                         break
             if line.strip().startswith('number of electron'):
                 # Only take the last value
-                self._data['magnetization']['full_cell'] = [float(_val) for _val in outcar[index].strip().split()[5:]]
+                self._data['magnetization']['full_cell'] = [
+                    utils.to_float(_val) for _val in outcar[index].strip().split()[5:]
+                ]
 
         # Check if SCF iterations are contained in the file
         if iter_counter is None:
@@ -413,14 +417,14 @@ class Outcar(BaseParser):
                 item_name = '_'.join(tmp.lower() for tmp in tokens[0].strip().split()[:-1])
                 # The entry can be empty (VASP6)
                 try:
-                    info[item_name] = float(tokens[1].strip())
+                    info[item_name] = utils.to_float(tokens[1].strip())
                 except ValueError:
                     info[item_name] = None
 
             elif mem_pattern.search(line):
                 tokens = re.split(r'[: ]+', line.strip())
                 try:
-                    info['mem_usage_' + tokens[0]] = float(tokens[-2])
+                    info['mem_usage_' + tokens[0]] = utils.to_float(tokens[-2])
                 except ValueError:
                     info['mem_usage_' + tokens[0]] = None
 
diff --git a/parsevasp/utils.py b/parsevasp/utils.py
index d674b23..6ee418b 100644
--- a/parsevasp/utils.py
+++ b/parsevasp/utils.py
@@ -183,7 +183,10 @@ def test_string_content(string):
 
     """
     try:
-        float(string)
+        number = to_float(string)
+        if not math.isfinite(number):
+            # A word which happens to be the name of such a number, or a number that does not fit
+            return 'string'
         return 'int' if ((string.count('.') == 0) and \
                          ('e' not in string) and \
                          ('E' not in string)) else 'float'
@@ -237,7 +240,7 @@ def is_number(string):
     """
 
     try:
-        float(string)
+        to_float(string)
         is_num = True
     except ValueError:
         is_num = False
@@ -380,6 +383,52 @@ def match_integer_param(inputs, key, string):
         inputs[key.lower()] = int(match.group(1))
 
 
+def to_float(string):
+    """
+    Convert a printed number to a float.
+
+    Parameters
+    ----------
+    string : str
+        The characters of the number. Only what a Fortran program prints: no underscores, no digits of other scripts.
+
+    Returns
+    -------
+    number : float
+        The number.
+
+    """
+
+    _check_number(string)
+    return float(string)
+
+
+def to_int(string):
+    """
+    Convert a printed number to an integer.
+
+    Parameters
+    ----------
+    string : str
+        The characters of the number. Only what a Fortran program prints: no underscores, no digits of other scripts.
+
+    Returns
+    -------
+    number : int
+        The number.
+
+    """
+
+    _check_number(string)
+    return int(string)
+
+
+def _check_number(string):
+    """Check that the characters can be those of a printed number."""
+    if isinstance(string, str) and ('_' in string or not string.isascii()):
+        raise ValueError(f'Not a number: {string!r}')
+
+
 def line_to_type(fobject_or_string, d_type=str, no_split=False):
     """
     Grab a line from a file like object or string and convert it to d_type (default: str).
@@ -400,7 +449,8 @@ def line_to_type(fobject_or_string, d_type=str, no_split=False):
         line = fobject_or_string.readline()
     # Previously this was map instead of list comprehension
     if not no_split:
-        result = [d_type(item) for item in line.split()]
+        convert = {float: to_float, int: to_int}.get(d_type, d_type)
+        result = [convert(item) for item in line.split()]
     else:
         result = line.strip()
     if len(result) == 1:
diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index cb0e20f..84e56da 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -816,15 +816,15 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                     # Extrapolated energy
                     if event == 'end' and element.tag == 'i' and \
                        element.attrib['name'] == 'e_0_energy':
-                        totens[calc].update({'energy_extrapolated_final': float(element.text)})
+                        totens[calc].update({'energy_extrapolated_final': utils.to_float(element.text)})
                     # Free energy
                     if event == 'end' and element.tag == 'i' and \
                        element.attrib['name'] == 'e_fr_energy':
-                        totens[calc].update({'energy_free_final': float(element.text)})
+                        totens[calc].update({'energy_free_final': utils.to_float(element.text)})
                     # Energy without entropy
                     if event == 'end' and element.tag == 'i' and \
                        element.attrib['name'] == 'e_wo_entrp':
-                        totens[calc].update({'energy_no_entropy_final': float(element.text)})
+                        totens[calc].update({'energy_no_entropy_final': utils.to_float(element.text)})
 
                 if extract_eigenvalues:
                     if event == 'start' and element.tag == 'set' \
@@ -2774,7 +2774,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
             if '****' in entry.text:
                 self._logger.error(self.ERROR_MESSAGES[self.ERROR_OVERFLOW])
                 sys.exit(self.ERROR_OVERFLOW)
-            data = float(entry.text)
+            data = utils.to_float(entry.text)
 
         return data
 
@@ -2799,7 +2799,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
             if '****' in entry.text:
                 self._logger.error(self.ERROR_MESSAGES[self.ERROR_OVERFLOW])
                 sys.exit(self.ERROR_OVERFLOW)
-            data = int(entry.text)
+            data = utils.to_int(entry.text)
 
         return data
 
-- 
2.43.0


From 45135defa5d2706e4e6f12656e86325fa1d51a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:06 +0000
Subject: [PATCH 60/70] fix: take the whole field as the number in POTCAR

---
 parsevasp/potcar.py | 56 ++++++++++++++++++++++++++++++---------------
 1 file changed, 37 insertions(+), 19 deletions(-)

diff --git a/parsevasp/potcar.py b/parsevasp/potcar.py
index 2cd29cb..43c1a36 100644
--- a/parsevasp/potcar.py
+++ b/parsevasp/potcar.py
@@ -18,6 +18,24 @@ from parsevasp import utils
 from parsevasp.base import BaseParser
 
 
+def _first_field(string):
+    """
+    Return the first field, e.g. the number in front of its unit or a description.
+
+    Parameters
+    ----------
+    string : str
+        What is given for a parameter.
+
+    Returns
+    -------
+    field : str
+        The characters up to the first blank or comma.
+
+    """
+    return re.split(r'[\s,]', string.strip(), maxsplit=1)[0]
+
+
 class Potcar(BaseParser):
     """Class to handle the POTCAR"""
 
@@ -110,25 +128,25 @@ class Potcar(BaseParser):
             'LULTRA': lambda val: re.match(r'^\.?([TFtf])[A-Za-z]*\.?', val).group(1).lower() in ['t'],
             'LCOR': lambda val: re.match(r'^\.?([TFtf])[A-Za-z]*\.?', val).group(1).lower() in ['t'],
             'LPAW': lambda val: re.match(r'^\.?([TFtf])[A-Za-z]*\.?', val).group(1).lower() in ['t'],
-            'IUNSCR': lambda val: int(re.match(r'^-?[0-9]+', val).group(0)),
-            'NDATA': lambda val: int(re.match(r'^-?[0-9]+', val).group(0)),
-            'ICORE': lambda val: int(re.match(r'^-?[0-9]+', val).group(0)),
-            'EATOM': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?-?\d*', val).group(0)),
-            'RPACOR': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?-?\d*', val).group(0)),
-            'POMASS': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?-?\d*', val).group(0)),
-            'ZVAL': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?-?\d*', val).group(0)),
-            'RCORE': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?-?\d*', val).group(0)),
-            'RWIGS': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?-?\d*', val).group(0)),
-            'ENMAX': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?-?\d*', val).group(0)),
-            'ENMIN': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?-?\d*', val).group(0)),
-            'RCLOC': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?-?\d*', val).group(0)),
-            'EAUG': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?-?\d*', val).group(0)),
-            'DEXC': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?-?\d*', val).group(0)),
-            'RMAX': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?-?\d*', val).group(0)),
-            'RAUG': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?-?\d*', val).group(0)),
-            'RDEP': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?-?\d*', val).group(0)),
-            'RDEPT': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?-?\d*', val).group(0)),
-            'STEP': lambda val: [float(y) for y in re.split(r'\s+', val.strip()) if not y.isalpha()],
+            'IUNSCR': lambda val: utils.to_int(_first_field(val)),
+            'NDATA': lambda val: utils.to_int(_first_field(val)),
+            'ICORE': lambda val: utils.to_int(_first_field(val)),
+            'EATOM': lambda val: utils.to_float(_first_field(val)),
+            'RPACOR': lambda val: utils.to_float(_first_field(val)),
+            'POMASS': lambda val: utils.to_float(_first_field(val)),
+            'ZVAL': lambda val: utils.to_float(_first_field(val)),
+            'RCORE': lambda val: utils.to_float(_first_field(val)),
+            'RWIGS': lambda val: utils.to_float(_first_field(val)),
+            'ENMAX': lambda val: utils.to_float(_first_field(val)),
+            'ENMIN': lambda val: utils.to_float(_first_field(val)),
+            'RCLOC': lambda val: utils.to_float(_first_field(val)),
+            'EAUG': lambda val: utils.to_float(_first_field(val)),
+            'DEXC': lambda val: utils.to_float(_first_field(val)),
+            'RMAX': lambda val: utils.to_float(_first_field(val)),
+            'RAUG': lambda val: utils.to_float(_first_field(val)),
+            'RDEP': lambda val: utils.to_float(_first_field(val)),
+            'RDEPT': lambda val: utils.to_float(_first_field(val)),
+            'STEP': lambda val: [utils.to_float(y) for y in re.split(r'\s+', val.strip()) if not y.isalpha()],
         }
         search_lines = re.search(
             r'(?s)(parameters from PSCTR are:'
-- 
2.43.0


From 9a096a0bb30b487caaa4a41cf40a4abf72c5beca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:51 +0000
Subject: [PATCH 61/70] fix: refuse several sources given to one INCAR, POSCAR
 or KPOINTS object

---
 parsevasp/incar.py   | 5 +++--
 parsevasp/kpoints.py | 5 +++--
 parsevasp/poscar.py  | 5 +++--
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/parsevasp/incar.py b/parsevasp/incar.py
index 0bfced6..d93acc1 100644
--- a/parsevasp/incar.py
+++ b/parsevasp/incar.py
@@ -74,8 +74,9 @@ class Incar(BaseParser):
         # Check that only one argument is supplied
         # pylint: disable=R0916
         if (self._incar_string is not None and self._incar_dict is not None) or (
-            self._incar_string is not None and self._file_path is not None
-        ) or (self._incar_dict is not None and self._file_path is not None) and self._file_handler is not None:
+            (self._incar_string is not None or self._incar_dict is not None) and
+            (self._file_path is not None or self._file_handler is not None)
+        ):
             self._logger.error(self.ERROR_MESSAGES[self.ERROR_USE_ONE_ARGUMENT])
             sys.exit(self.ERROR_USE_ONE_ARGUMENT)
 
diff --git a/parsevasp/kpoints.py b/parsevasp/kpoints.py
index 0593d68..8a85721 100644
--- a/parsevasp/kpoints.py
+++ b/parsevasp/kpoints.py
@@ -100,8 +100,9 @@ class Kpoints(BaseParser):
         # Check that only one argument is supplied
         # pylint: disable=R0916
         if (self._kpoints_string is not None and self._kpoints_dict is not None) or (
-            self._kpoints_string is not None and self._file_path is not None
-        ) or (self._kpoints_dict is not None and self._file_path is not None and self._file_handler is not None):
+            (self._kpoints_string is not None or self._kpoints_dict is not None) and
+            (self._file_path is not None or self._file_handler is not None)
+        ):
             self._logger.error(self.ERROR_MESSAGES[self.ERROR_USE_ONE_ARGUMENT])
             sys.exit(self.ERROR_USE_ONE_ARGUMENT)
         # Check that at least one is suplpied
diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index 1e86ec3..39a15a9 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -82,8 +82,9 @@ class Poscar(BaseParser):
         # Check that only one argument is supplied
         # pylint: disable=R0916
         if (self._poscar_string is not None and self._poscar_dict is not None) or (
-            self._poscar_string is not None and self._file_path is not None
-        ) or (self._poscar_dict is not None and self._file_path is not None and self._file_handler is not None):
+            (self._poscar_string is not None or self._poscar_dict is not None) and
+            (self._file_path is not None or self._file_handler is not None)
+        ):
             self._logger.error(self.ERROR_MESSAGES[self.ERROR_USE_ONE_ARGUMENT])
             sys.exit(self.ERROR_USE_ONE_ARGUMENT)
         # Check that at least one is suplpied
-- 
2.43.0


From fe6fac5def4d9448f54cda33afe4fe45b6b807e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:14 +0000
Subject: [PATCH 62/70] fix: only C and K announce Cartesian coordinates in
 POSCAR

---
 parsevasp/poscar.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index 39a15a9..3af7d97 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -238,10 +238,10 @@ class Poscar(BaseParser):
             if poscar[7][0].lower() == 's':
                 selective = True
                 loopmax = 9
-                if not poscar[8][0].lower() == 'd':
+                if poscar[8][0].lower() in ('c', 'k'):
                     direct = False
             if not selective:
-                if not poscar[7][0].lower() == 'd':
+                if poscar[7][0].lower() in ('c', 'k'):
                     direct = False
         else:
             self._logger.error(self.ERROR_MESSAGES[self.ERROR_VASPFOUR])
@@ -292,7 +292,7 @@ class Poscar(BaseParser):
         loopmax_pos = nions + loopmax
         if len(poscar) > loopmax_pos:
             first_char = poscar[loopmax_pos][0].lower()
-            if first_char in ('d', 'c'):
+            if first_char in ('d', 'c', 'k'):
                 velocities = True
                 # Make sure we convert Cartesian velocities to direct
                 direct = first_char == 'd'
-- 
2.43.0


From 807cb53a5833b9ea16b7ce4ef13063bb1e835b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:47 +0000
Subject: [PATCH 63/70] fix: refuse POSCAR comments of several lines and sites
 that can not be written

---
 parsevasp/poscar.py | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index 3af7d97..52b8499 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -401,10 +401,7 @@ class Poscar(BaseParser):
         else:
             if entry == 'sites':
                 self._check_sites(sites=value)
-                value = [
-                    self._site_to_direct(site, self.entries['unitcell']) if isinstance(site, Site) else site
-                    for site in value
-                ]
+                value = [self._site_to_direct(site, self.entries['unitcell']) for site in value]
             if entry == 'comment':
                 self._check_comment(comment=value)
             if entry == 'unitcell':
@@ -523,6 +520,11 @@ class Poscar(BaseParser):
                     f"{self.ERROR_MESSAGES[self.ERROR_KEY_INVALID_TYPE]} The key 'comment' is not a string."
                 )
                 sys.exit(self.ERROR_KEY_INVALID_TYPE)
+            if '\n' in comment or '\r' in comment:
+                self._logger.error(
+                    f"{self.ERROR_MESSAGES[self.ERROR_KEY_INVALID_TYPE]} The key 'comment' is not a single line."
+                )
+                sys.exit(self.ERROR_KEY_INVALID_TYPE)
 
     def _check_sites(self, sites=None):
         """
@@ -545,6 +547,8 @@ class Poscar(BaseParser):
         if not isinstance(sites, list):
             self._logger.error(f"{self.ERROR_MESSAGES[self.ERROR_KEY_INVALID_TYPE]} The key 'sites' is not a list.")
             sys.exit(self.ERROR_KEY_INVALID_TYPE)
+        for site in sites:
+            self._check_site(site)
 
     def _check_site(self, site=None):
         """
@@ -576,6 +580,24 @@ class Poscar(BaseParser):
                     f"{self.ERROR_MESSAGES[self.ERROR_KEY_INVALID_TYPE]} The key 'site' is not a Site() object."
                 )
                 sys.exit(self.ERROR_KEY_INVALID_TYPE)
+            specie = site.get_specie()
+            if specie.split() != [specie] or utils.is_number(specie):
+                self._logger.error(
+                    f'{self.ERROR_MESSAGES[self.ERROR_KEY_INVALID_TYPE]} The specie of a site is not a single word.'
+                )
+                sys.exit(self.ERROR_KEY_INVALID_TYPE)
+            for vector in (site.get_position(), site.get_selective(), site.get_velocities(), site.get_predictors()):
+                if vector is not None and np.shape(vector) != (3,):
+                    self._logger.error(
+                        f'{self.ERROR_MESSAGES[self.ERROR_KEY_INVALID_TYPE]} The position, selective flags, '
+                        'velocities and predictors of a site should have three elements.'
+                    )
+                    sys.exit(self.ERROR_KEY_INVALID_TYPE)
+            if not all(flag in (True, False) for flag in site.get_selective()):
+                self._logger.error(
+                    f'{self.ERROR_MESSAGES[self.ERROR_KEY_INVALID_TYPE]} The selective flags of a site are not booleans.'
+                )
+                sys.exit(self.ERROR_KEY_INVALID_TYPE)
 
     def _check_site_number(self, site_number):
         """
-- 
2.43.0


From ad404e09d1b1866a64dfd2c413e705ddbfc6f683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:52 +0000
Subject: [PATCH 64/70] fix: refuse KPOINTS comments of several lines and
 vectors without three elements

---
 parsevasp/kpoints.py | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/parsevasp/kpoints.py b/parsevasp/kpoints.py
index 8a85721..92862d8 100644
--- a/parsevasp/kpoints.py
+++ b/parsevasp/kpoints.py
@@ -453,6 +453,11 @@ class Kpoints(BaseParser):
                     f"{self.ERROR_MESSAGES[self.ERROR_KEY_INVALID_TYPE]} The key 'comment' should be a string."
                 )
                 sys.exit(self.ERROR_KEY_INVALID_TYPE)
+            if '\n' in comment or '\r' in comment:
+                self._logger.error(
+                    f"{self.ERROR_MESSAGES[self.ERROR_KEY_INVALID_TYPE]} The key 'comment' should be a single line."
+                )
+                sys.exit(self.ERROR_KEY_INVALID_TYPE)
 
     def _check_points(self, points=None):
         """
@@ -480,6 +485,7 @@ class Kpoints(BaseParser):
                 )
                 sys.exit(self.ERROR_KEY_INVALID_TYPE)
             for point in points:
+                self._check_point(point)
                 self._check_direct(point)
 
     def _check_direct(self, point):
@@ -521,6 +527,7 @@ class Kpoints(BaseParser):
             if not isinstance(point, Kpoint):
                 self._logger.error(self.ERROR_MESSAGES[self.ERROR_WRONG_OBJECT])
                 sys.exit(self.ERROR_WRONG_OBJECT)
+            self._check_three('points', point.get_point())
 
     def _check_point_number(self, point_number):
         """
@@ -568,6 +575,7 @@ class Kpoints(BaseParser):
                 )
                 sys.exit(self.ERROR_KEY_INVALID_TYPE)
             else:
+                self._check_three('shifts', shifts)
                 for element in shifts:
                     if not isinstance(element, float):
                         self._logger.error(
@@ -576,6 +584,25 @@ class Kpoints(BaseParser):
                         )
                         sys.exit(self.ERROR_KEY_INVALID_TYPE)
 
+    def _check_three(self, key, value):
+        """
+        Check that there are three elements.
+
+        Parameters
+        ----------
+        key : str
+            The key the value belongs to.
+        value : object
+            The value to be checked.
+
+        """
+
+        if len(value) != 3:
+            self._logger.error(
+                f"{self.ERROR_MESSAGES[self.ERROR_KEY_INVALID_TYPE]} The key '{key}' should have three elements."
+            )
+            sys.exit(self.ERROR_KEY_INVALID_TYPE)
+
     def _check_tetra_volume(self, volume=None):
         """
         Check that the volume of the tetrahedron is either None or a float.
@@ -626,6 +653,7 @@ class Kpoints(BaseParser):
                 )
                 sys.exit(self.ERROR_KEY_INVALID_TYPE)
             else:
+                self._check_three('divisions', divisions)
                 for element in divisions:
                     if not isinstance(element, int):
                         self._logger.error(
@@ -660,6 +688,7 @@ class Kpoints(BaseParser):
                 )
                 sys.exit(self.ERROR_KEY_INVALID_TYPE)
             else:
+                self._check_three('generating_vectors', generating_vectors)
                 for vec in generating_vectors:
                     if not isinstance(vec, list):
                         self._logger.error(
@@ -667,6 +696,7 @@ class Kpoints(BaseParser):
                             "The key 'generating_vectors' should be a list of lists."
                         )
                         sys.exit(self.ERROR_KEY_INVALID_TYPE)
+                    self._check_three('generating_vectors', vec)
                     for element in vec:
                         if not isinstance(element, float):
                             self._logger.error(
-- 
2.43.0


From 6bfff4c1d5eac6fee587eaafafe8927ebe0dcc7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:57 +0000
Subject: [PATCH 65/70] fix: refuse to write KPOINTS without the entries its
 mode needs

---
 parsevasp/kpoints.py | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/parsevasp/kpoints.py b/parsevasp/kpoints.py
index 92862d8..db199f5 100644
--- a/parsevasp/kpoints.py
+++ b/parsevasp/kpoints.py
@@ -819,6 +819,33 @@ class Kpoints(BaseParser):
                 self._logger.error(self.ERROR_MESSAGES[self.ERROR_INVALID_MODE])
                 sys.exit(self.ERROR_INVALID_MODE)
 
+    def _check_consistent(self):
+        """Check that the entries can be written, i.e. that the ones the mode needs are there."""
+
+        entries = self.entries
+        mode = entries['mode']
+        if mode is None:
+            self._logger.error(self.ERROR_MESSAGES[self.ERROR_INVALID_MODE])
+            sys.exit(self.ERROR_INVALID_MODE)
+        if mode == 'automatic':
+            if entries['centering'] is None:
+                self._logger.error(self.ERROR_MESSAGES[self.ERROR_INVALID_CENTERING])
+                sys.exit(self.ERROR_INVALID_CENTERING)
+            needed, other = 'divisions', 'generating_vectors'
+            if entries['centering'] == 'Reciprocal':
+                needed, other = other, needed
+            consistent = entries[needed] is not None and entries[other] is None
+        else:
+            consistent = bool(entries['points'])
+        if not consistent:
+            self._logger.error(self.ERROR_MESSAGES[self.ERROR_DIVISIONS])
+            sys.exit(self.ERROR_DIVISIONS)
+        if mode == 'line' and entries['num_kpoints'] < 1:
+            self._logger.error(
+                f"{self.ERROR_MESSAGES[self.ERROR_KEY_INVALID_TYPE]} The key 'num_kpoints' should be positive in line mode."
+            )
+            sys.exit(self.ERROR_KEY_INVALID_TYPE)
+
     def _validate(self):
         """Validate the content of entries
 
@@ -926,6 +953,7 @@ class Kpoints(BaseParser):
         """
 
         self._validate()
+        self._check_consistent()
         entries = self.entries
         comment = entries['comment']
         if comment is None:
-- 
2.43.0


From c65f0c07d3e68d24998044dd7f67904af0ae16c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:02 +0000
Subject: [PATCH 66/70] fix: refuse INCAR tags, values and comments that would
 be read as something else

---
 parsevasp/incar.py | 60 +++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 54 insertions(+), 6 deletions(-)

diff --git a/parsevasp/incar.py b/parsevasp/incar.py
index d93acc1..c82e29f 100644
--- a/parsevasp/incar.py
+++ b/parsevasp/incar.py
@@ -3,6 +3,7 @@
 import io
 import logging
 import sys
+from numbers import Real
 
 from parsevasp import constants, utils
 from parsevasp.base import BaseParser
@@ -451,6 +452,8 @@ class IncarItem:
 
     ERROR_VALUES_NOT_SAME_TYPE = 104
     ERROR_INVALID_TYPE = 105
+    ERROR_INVALID_TAG = 106
+    ERROR_INVALID_CHARACTER = 107
 
     def __init__(self, tag, value, comment, logger=None):
         """
@@ -523,9 +526,13 @@ class IncarItem:
 
         # Remove possible spaces on tag
         clean_tag = tag.split()
+        if len(clean_tag) != 1:
+            self._logger.error(f'An INCAR tag should be a single word. The tag in question is: {tag}')
+            sys.exit(self.ERROR_INVALID_TAG)
 
         # Make sure tag is lowerscore
         clean_tag = clean_tag[0].lower()
+        self._check_text(clean_tag, clean_tag)
 
         # Possible solutions for the value are (if INCAR is read):
         # 1 - integer
@@ -545,7 +552,8 @@ class IncarItem:
                 # If value is SYSTEM or MAGMOM (can contain asterix), treat it a bit special and
                 # leave its string intact but remove grub
                 clean_value = value.strip()
-                return clean_tag, clean_value, None if comment is None else comment.strip()
+                self._check_text(clean_tag, clean_value)
+                return clean_tag, clean_value, self._clean_comment(clean_tag, comment)
 
             # Values is a string, so we have read an INCAR or the user
             # tries to assign an entry with just a string
@@ -584,7 +592,7 @@ class IncarItem:
         else:
             # If the user wants to assign an element as a list, int,
             # float or bool, accept this, including unicode
-            if not isinstance(value, (bool, float, int, list)):
+            if not isinstance(value, (bool, float, int, list)) or not self._is_recognized(value):
                 self._logger.error(
                     'The type one of the supplied values for the INCAR tag '
                     f'is not recognized. The tag in question is: {clean_tag.upper()}'
@@ -592,14 +600,54 @@ class IncarItem:
                 sys.exit(self.ERROR_INVALID_TYPE)
             clean_value = value
 
+        self._check_text(clean_tag, clean_value)
+
         # Finally clean comment by removing any redundant spaces
-        if comment is not None:
-            clean_comment = comment.strip()
-        else:
-            clean_comment = None
+        clean_comment = self._clean_comment(clean_tag, comment)
 
         return clean_tag, clean_value, clean_comment
 
+    def _is_recognized(self, value):
+        """Tell if the value, or everything in a list of values, is a string, bool or real number."""
+
+        if isinstance(value, list):
+            return all(self._is_recognized(element) for element in value)
+        return isinstance(value, (str, bool, Real))
+
+    def _clean_comment(self, tag, comment):
+        """Remove redundant spaces from the comment and check that it stays on one line."""
+
+        if comment is None:
+            return None
+        comment = comment.strip()
+        self._check_text(tag, comment, '\n\r')
+        return comment
+
+    def _check_text(self, tag, text, forbidden='=;#\n\r'):
+        """
+        Check that the text can be a part of an INCAR entry.
+
+        Parameters
+        ----------
+        tag : string
+            The tag of the INCAR entry.
+        text : object
+            The text to be checked, or a list of them. Everything else is accepted.
+        forbidden : string
+            The characters that would end the part of the entry.
+
+        """
+
+        if isinstance(text, list):
+            for element in text:
+                self._check_text(tag, element, forbidden)
+        elif isinstance(text, str) and any(character in text for character in forbidden):
+            self._logger.error(
+                'An INCAR entry can not contain line breaks, and =, ; or # only in its comment. '
+                f'The tag in question is: {tag.upper()}'
+            )
+            sys.exit(self.ERROR_INVALID_CHARACTER)
+
     def _test_string_for_bool(self, string):
         """
         Detects if string contains Fortran bool.
-- 
2.43.0


From 8fb3fdf188fb451840373b8d0f028b153306b816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:07 +0000
Subject: [PATCH 67/70] fix: do not read words that contain .T. or .F. inside
 as logicals

---
 parsevasp/incar.py | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/parsevasp/incar.py b/parsevasp/incar.py
index c82e29f..73ccfaf 100644
--- a/parsevasp/incar.py
+++ b/parsevasp/incar.py
@@ -664,16 +664,9 @@ class IncarItem:
             depending on what is detected.
 
         """
-        if '.True.' in string \
-           or '.TRUE.' in string \
-           or '.true.' in string \
-           or '.t.' in string \
-           or '.T.' in string:
+        word = string.lower()
+        if word.startswith(('.true.', '.t.')):
             return True
-        if '.False.' in string \
-             or '.FALSE.' in string \
-             or '.false.' in string \
-             or '.f.' in string \
-             or '.F.' in string:
+        if word.startswith(('.false.', '.f.')):
             return False
         return string
-- 
2.43.0


From c08e757a08398464f87e29e68538ca28b5967a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:20 +0000
Subject: [PATCH 68/70] fix: refuse stream entries of an unknown kind

---
 parsevasp/stream.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parsevasp/stream.py b/parsevasp/stream.py
index b4d3dd2..1ed5dec 100644
--- a/parsevasp/stream.py
+++ b/parsevasp/stream.py
@@ -142,6 +142,10 @@ class Stream(BaseParser):  # pylint: disable=R0902
                 if kind.upper() in VaspStream._ALLOWED_STREAMS:  # pylint: disable=W0212
                     if not kind in stream_kinds:
                         stream_kinds.append(kind)
+                else:
+                    raise ValueError(
+                        f'The kind {kind} is not supported. Currently we support {VaspStream._ALLOWED_STREAMS}.'  # pylint: disable=W0212
+                    )
             else:
                 raise ValueError('One of the kind entries is not a string.')
         return stream_kinds
-- 
2.43.0


From 20eb26cab5db8f3699b0b873517e3f2823d67fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:48 +0000
Subject: [PATCH 69/70] fix: keep the destination when the text can not be
 encoded

---
 parsevasp/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parsevasp/base.py b/parsevasp/base.py
index cead7d8..6ac120c 100644
--- a/parsevasp/base.py
+++ b/parsevasp/base.py
@@ -98,6 +98,8 @@ class BaseParser(ABC):  # pylint: disable=R0903
         self._write(content, **kwargs)
 
         if file_path:
+            # Characters that can not be stored are reported before the existing file is emptied
+            content.getvalue().encode('utf8')
             # Open file
             file_handler = open_close_file_handler(file_path, status='w', logger=self._logger)
 
-- 
2.43.0


From ca7e126674a5870aff20e97a8e2fe679dda9e41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:54 +0000
Subject: [PATCH 70/70] fix: leave the root logger alone when an INCAR entry is
 made

---
 parsevasp/incar.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/parsevasp/incar.py b/parsevasp/incar.py
index 73ccfaf..03223a5 100644
--- a/parsevasp/incar.py
+++ b/parsevasp/incar.py
@@ -476,7 +476,6 @@ class IncarItem:
         if logger is not None:
             self._logger = logger
         else:
-            logging.basicConfig(level=logging.DEBUG)
             self._logger = logging.getLogger('IncarItem')
 
         # Clean tag and value
-- 
2.43.0

