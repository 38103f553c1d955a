From 613e70da1626634d89eeb5bb129688587878c1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:52 +0000
Subject: [PATCH 1/7] fix: no undefined shift when computing the length of a
 standalone vertex element

The maximum level of vertices is 254; 1 << (254 - level) shifts an int by more than its width
for every level below 224.  Vertices have no extent, return 0 as get_root_len does.
---
 .../t8_standalone/t8_standalone_implementation.hxx         | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/t8_schemes/t8_standalone/t8_standalone_implementation.hxx b/src/t8_schemes/t8_standalone/t8_standalone_implementation.hxx
index c11e37c..f454a24 100644
--- a/src/t8_schemes/t8_standalone/t8_standalone_implementation.hxx
+++ b/src/t8_schemes/t8_standalone/t8_standalone_implementation.hxx
@@ -1688,7 +1688,12 @@ struct t8_standalone_scheme: public t8_scheme_helpers<TEclass, t8_standalone_sch
   static constexpr t8_element_coord
   element_get_len (const t8_element_level level) noexcept
   {
-    return 1 << (T8_ELEMENT_MAXLEVEL[TEclass] - (level));
+    if constexpr (TEclass == T8_ECLASS_VERTEX) {
+      return 0;
+    }
+    else {
+      return 1 << (T8_ELEMENT_MAXLEVEL[TEclass] - (level));
+    }
   }
 
   /** Compute the cube id of an element
-- 
2.43.0


From 5ca867ad2376c07efe046d140fd43ea97922fe3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:58 +0000
Subject: [PATCH 2/7] fix: quad element_transform_face sets the level also when
 a coordinate switch is needed

---
 src/t8_schemes/t8_default/t8_default_quad/t8_default_quad.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/t8_schemes/t8_default/t8_default_quad/t8_default_quad.cxx b/src/t8_schemes/t8_default/t8_default_quad/t8_default_quad.cxx
index 071b6ac..5b3be48 100644
--- a/src/t8_schemes/t8_default/t8_default_quad/t8_default_quad.cxx
+++ b/src/t8_schemes/t8_default/t8_default_quad/t8_default_quad.cxx
@@ -439,7 +439,7 @@ t8_default_scheme_quad::element_transform_face (const t8_element_t *elem1, t8_el
     q = qin;
   }
 
-  p->level = q->level;
+  p->level = qin->level;
   /*
    * The faces of the root quadrant are enumerated like this:
    *
-- 
2.43.0


From 44a886a4d9135122c49e1aa29fdc9431cfa8d6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:55 +0000
Subject: [PATCH 3/7] fix: pyramid face descendants of tetrahedra at the
 element's own level are written

---
 src/t8_schemes/t8_default/t8_default_pyramid/t8_dpyramid_bits.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/t8_schemes/t8_default/t8_default_pyramid/t8_dpyramid_bits.c b/src/t8_schemes/t8_default/t8_default_pyramid/t8_dpyramid_bits.c
index 7116274..340044f 100644
--- a/src/t8_schemes/t8_default/t8_default_pyramid/t8_dpyramid_bits.c
+++ b/src/t8_schemes/t8_default/t8_default_pyramid/t8_dpyramid_bits.c
@@ -953,6 +953,7 @@ t8_dpyramid_corner_descendant (const t8_dpyramid_t *p, t8_dpyramid_t *d, const i
     const int child_id = t8_dtet_parenttype_beyid_to_Iloc[p->pyramid.type][corner];
     t8_dpyramid_t tmp;
     t8_dpyramid_copy (p, &tmp);
+    t8_dpyramid_copy (p, d);
     for (int i = p->pyramid.level; i < level; i++) {
       t8_dpyramid_child (&tmp, child_id, d);
       t8_dpyramid_copy (d, &tmp);
-- 
2.43.0


From 89b98866d11148dd1079d240d8068b0d0e0eb55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:17 +0000
Subject: [PATCH 4/7] fix: standalone elements_are_family returns false for
 level 0 elements instead of using their parent

---
 .../t8_standalone/t8_standalone_implementation.hxx         | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/t8_schemes/t8_standalone/t8_standalone_implementation.hxx b/src/t8_schemes/t8_standalone/t8_standalone_implementation.hxx
index f454a24..fbc8678 100644
--- a/src/t8_schemes/t8_standalone/t8_standalone_implementation.hxx
+++ b/src/t8_schemes/t8_standalone/t8_standalone_implementation.hxx
@@ -587,11 +587,18 @@ struct t8_standalone_scheme: public t8_scheme_helpers<TEclass, t8_standalone_sch
 #endif
 
     t8_standalone_element<TEclass> parent, compare;
+    /* Level 0 elements have no parent and do not form a family */
+    if (element_get_level (fam[0]) == 0) {
+      return 0;
+    }
     /* Take the parent of the first element as baseline to compare against */
     element_get_parent ((const t8_element_t *) fam[0], (t8_element_t *) &parent);
     const int num_children = element_get_num_children ((const t8_element_t *) &parent);
     for (int childid = 0; childid < num_children; childid++) {
       /* check whether each element has the same parent */
+      if (element_get_level (fam[childid]) == 0) {
+        return 0;
+      }
       element_get_parent ((const t8_element_t *) fam[childid], (t8_element_t *) &compare);
       if (element_compare ((const t8_element_t *) &parent, (const t8_element_t *) &compare)) {
         return 0;
-- 
2.43.0


From 2ba24bd7f066f5645a99c101579cea96249fcab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:17 +0000
Subject: [PATCH 5/7] fix: triangle and tetrahedron families need the right
 types in all places and an aligned first child

---
 src/t8_schemes/t8_default/t8_default_tet/t8_dtet_bits.c | 6 +++++-
 src/t8_schemes/t8_default/t8_default_tri/t8_dtri_bits.c | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/t8_schemes/t8_default/t8_default_tet/t8_dtet_bits.c b/src/t8_schemes/t8_default/t8_default_tet/t8_dtet_bits.c
index 3cf1ef0..2586b12 100644
--- a/src/t8_schemes/t8_default/t8_default_tet/t8_dtet_bits.c
+++ b/src/t8_schemes/t8_default/t8_default_tet/t8_dtet_bits.c
@@ -33,11 +33,15 @@ t8_dtet_is_familypv (const t8_dtri_t *f[])
   }
   /* check whether the types are correct */
   const int type = f[0]->type;
-  for (int local_ind = 1; local_ind < T8_DTET_CHILDREN - 1; local_ind++) {
+  for (int local_ind = 1; local_ind < T8_DTET_CHILDREN; local_ind++) {
     if (f[local_ind]->type != t8_dtet_type_of_child_morton[type][local_ind]) {
       return 0;
     }
   }
+  /* the first tet has to be the first child of its parent */
+  if (compute_cubeid (f[0], level) != 0) {
+    return 0;
+  }
   /* check whether the coordinates are correct
    * tets 1, 2, 3 and tets 4, 5, 6 have to have the same coordinates.*/
   if (f[1]->x != f[2]->x || f[1]->y != f[2]->y || f[1]->z != f[2]->z || f[1]->x != f[3]->x || f[1]->y != f[3]->y
diff --git a/src/t8_schemes/t8_default/t8_default_tri/t8_dtri_bits.c b/src/t8_schemes/t8_default/t8_default_tri/t8_dtri_bits.c
index 5c2d777..ca1526c 100644
--- a/src/t8_schemes/t8_default/t8_default_tri/t8_dtri_bits.c
+++ b/src/t8_schemes/t8_default/t8_default_tri/t8_dtri_bits.c
@@ -652,7 +652,11 @@ t8_dtri_is_familypv (const t8_dtri_t *f[])
   }
   /* check whether the types are correct */
   const int type = f[0]->type;
-  if (f[1]->type != 0 && f[2]->type != 1 && f[3]->type != type) {
+  if (f[1]->type != 0 || f[2]->type != 1 || f[3]->type != type) {
+    return 0;
+  }
+  /* the first triangle has to be the first child of its parent */
+  if (compute_cubeid (f[0], level) != 0) {
     return 0;
   }
   /* check whether the coordinates are correct
-- 
2.43.0


From 759cb6dc7a51a5468211d7798027d23e8504690e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:17 +0000
Subject: [PATCH 6/7] fix: quad, hex and pyramid families need an aligned first
 child

---
 src/t8_schemes/t8_default/t8_default_hex/t8_default_hex.cxx   | 4 +++-
 .../t8_default/t8_default_pyramid/t8_dpyramid_bits.c          | 4 ++++
 src/t8_schemes/t8_default/t8_default_quad/t8_default_quad.cxx | 4 +++-
 3 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/t8_schemes/t8_default/t8_default_hex/t8_default_hex.cxx b/src/t8_schemes/t8_default/t8_default_hex/t8_default_hex.cxx
index 7c3c6ff..9ec5572 100644
--- a/src/t8_schemes/t8_default/t8_default_hex/t8_default_hex.cxx
+++ b/src/t8_schemes/t8_default/t8_default_hex/t8_default_hex.cxx
@@ -206,7 +206,9 @@ t8_default_scheme_hex::elements_are_family (t8_element_t *const *fam) const
     }
   }
 #endif
-  return p8est_quadrant_is_familypv ((p8est_quadrant_t **) fam);
+  /* p4est only compares the elements with each other, the first one must be a first child. */
+  return p8est_quadrant_child_id ((const p8est_quadrant_t *) fam[0]) == 0
+         && p8est_quadrant_is_familypv ((p8est_quadrant_t **) fam);
 }
 
 void
diff --git a/src/t8_schemes/t8_default/t8_default_pyramid/t8_dpyramid_bits.c b/src/t8_schemes/t8_default/t8_default_pyramid/t8_dpyramid_bits.c
index 340044f..e8fb36f 100644
--- a/src/t8_schemes/t8_default/t8_default_pyramid/t8_dpyramid_bits.c
+++ b/src/t8_schemes/t8_default/t8_default_pyramid/t8_dpyramid_bits.c
@@ -278,6 +278,10 @@ t8_dpyramid_is_family (t8_dpyramid_t **fam)
     if (level == 0) {
       return 0;
     }
+    /* The first element has to be the first child of its parent */
+    if (t8_dpyramid_child_id (fam[0]) != 0) {
+      return 0;
+    }
     /* The type of parent is the type of the first child in z-curve-order */
     const int type_of_first = fam[0]->pyramid.type;
     T8_ASSERT (type_of_first == T8_DPYRAMID_FIRST_TYPE || type_of_first == T8_DPYRAMID_SECOND_TYPE);
diff --git a/src/t8_schemes/t8_default/t8_default_quad/t8_default_quad.cxx b/src/t8_schemes/t8_default/t8_default_quad/t8_default_quad.cxx
index 5b3be48..3fbfcb0 100644
--- a/src/t8_schemes/t8_default/t8_default_quad/t8_default_quad.cxx
+++ b/src/t8_schemes/t8_default/t8_default_quad/t8_default_quad.cxx
@@ -242,7 +242,9 @@ t8_default_scheme_quad::elements_are_family (t8_element_t *const *fam) const
     T8_ASSERT (element_is_valid (fam[i]));
   }
 #endif
-  return p4est_quadrant_is_familypv ((p4est_quadrant_t **) fam);
+  /* p4est only compares the elements with each other, the first one must be a first child. */
+  return p4est_quadrant_child_id ((const p4est_quadrant_t *) fam[0]) == 0
+         && p4est_quadrant_is_familypv ((p4est_quadrant_t **) fam);
 }
 
 void
-- 
2.43.0


From 32f745582d3f80601d970f39e6a156cc6b671778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:24 +0000
Subject: [PATCH 7/7] fix: all prisms of a plane of a family need the same line

---
 src/t8_schemes/t8_default/t8_default_prism/t8_dprism_bits.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/t8_schemes/t8_default/t8_default_prism/t8_dprism_bits.c b/src/t8_schemes/t8_default/t8_default_prism/t8_dprism_bits.c
index b4d3cf5..3182e00 100644
--- a/src/t8_schemes/t8_default/t8_default_prism/t8_dprism_bits.c
+++ b/src/t8_schemes/t8_default/t8_default_prism/t8_dprism_bits.c
@@ -144,7 +144,7 @@ t8_dprism_is_familypv (t8_dprism_t **fam)
       line_fam[j] = &fam[j * T8_DTRI_CHILDREN + i]->line;
     }
     /* Proof for line_family and equality of triangles in both planes */
-    if (!(t8_dline_is_familypv ((const t8_dline_t **) line_fam)
+    if (!(t8_dline_is_familypv ((const t8_dline_t **) line_fam) && fam[i]->line.x == fam[0]->line.x
           && (fam[i]->tri.level == fam[i + T8_DTRI_CHILDREN]->tri.level)
           && (fam[i]->tri.type == fam[i + T8_DTRI_CHILDREN]->tri.type)
           && (fam[i]->tri.x == fam[i + T8_DTRI_CHILDREN]->tri.x)
-- 
2.43.0

