From 81c419a0f25851e52a399009b1587c2c48380ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:14 +0000
Subject: [PATCH 01/13] fix: 2D linear id shifts by 64 or more return zero as
 documented

---
 src/p4est_bits.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/p4est_bits.c b/src/p4est_bits.c
index aa53a5c..93a4eb4 100644
--- a/src/p4est_bits.c
+++ b/src/p4est_bits.c
@@ -212,7 +212,7 @@ p4est_lid_shift_right (const p4est_lid_t * input, unsigned shift_count,
   sc_uint128_shift_right (input, shift_count, result);
   P4EST_ASSERT (result != NULL);
 #else
-  *result = *input >> shift_count;
+  *result = (shift_count >= 64) ? 0 : *input >> shift_count;
 #endif
 }
 
@@ -225,7 +225,7 @@ p4est_lid_shift_left (const p4est_lid_t * input, unsigned shift_count,
   sc_uint128_shift_left (input, shift_count, result);
   P4EST_ASSERT (result != NULL);
 #else
-  *result = *input << shift_count;
+  *result = (shift_count >= 64) ? 0 : *input << shift_count;
 #endif
 }
 
-- 
2.43.0


From 8d65e23df6d5082ec69e5969ac981b5bcc8d042f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:29 +0000
Subject: [PATCH 02/13] fix: is_family accepts only siblings in Morton order as
 documented

---
 src/p4est_bits.c | 3 ++-
 src/p8est_bits.c | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/p4est_bits.c b/src/p4est_bits.c
index 93a4eb4..5c64901 100644
--- a/src/p4est_bits.c
+++ b/src/p4est_bits.c
@@ -873,7 +873,8 @@ p4est_quadrant_is_family (const p4est_quadrant_t * q0,
   P4EST_ASSERT (p4est_quadrant_is_extended (q2));
   P4EST_ASSERT (p4est_quadrant_is_extended (q3));
 
-  if (level == 0 || level != q1->level ||
+  if (level == 0 || p4est_quadrant_child_id (q0) != 0 ||
+      level != q1->level ||
       level != q2->level || level != q3->level) {
     return 0;
   }
diff --git a/src/p8est_bits.c b/src/p8est_bits.c
index 78b0c99..b7947f7 100644
--- a/src/p8est_bits.c
+++ b/src/p8est_bits.c
@@ -100,7 +100,8 @@ p4est_quadrant_is_family (const p4est_quadrant_t * q0,
   P4EST_ASSERT (p4est_quadrant_is_extended (q6));
   P4EST_ASSERT (p4est_quadrant_is_extended (q7));
 
-  if (level == 0 || level != q1->level ||
+  if (level == 0 || p4est_quadrant_child_id (q0) != 0 ||
+      level != q1->level ||
       level != q2->level || level != q3->level ||
       level != q4->level || level != q5->level ||
       level != q6->level || level != q7->level) {
-- 
2.43.0


From d43a34afcf99f07345eb81cbf4c5779f093fe0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:00 +0000
Subject: [PATCH 03/13] fix: is_next requires that no hole precedes a finer
 successor

---
 src/p4est_bits.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/p4est_bits.c b/src/p4est_bits.c
index 5c64901..cb86e85 100644
--- a/src/p4est_bits.c
+++ b/src/p4est_bits.c
@@ -1014,6 +1014,15 @@ p4est_quadrant_is_next (const p4est_quadrant_t * q,
     minlevel = (int) r->level;
   }
   else {
+    /* check if r is the first descendant from the common level */
+    mask = P4EST_QUADRANT_LEN (q->level) - P4EST_QUADRANT_LEN (r->level);
+    if ((r->x & mask) != 0 || (r->y & mask) != 0 ||
+#ifdef P4_TO_P8
+        (r->z & mask) != 0 ||
+#endif
+        0) {
+      return 0;
+    }
     minlevel = (int) q->level;
   }
   p4est_quadrant_linear_id_ext128 (q, minlevel, &i1);
@@ -1044,6 +1053,12 @@ p4est_quadrant_is_next_D (const p4est_quadrant_t * q,
     }
     p4est_quadrant_parent (&a, &a);
   }
+  while (b.level > a.level) {
+    if (p4est_quadrant_child_id (&b) != 0) {
+      return 0;
+    }
+    p4est_quadrant_parent (&b, &b);
+  }
   p4est_quadrant_linear_id_ext128 (&a, (int) a.level, &i1);
   p4est_quadrant_linear_id_ext128 (&b, (int) a.level, &i2);
 
-- 
2.43.0


From 7b18e99be73e1aa6d6875de34384608cb42589cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:49 +0000
Subject: [PATCH 04/13] fix: is_inside_tree rejects quadrants that end after
 the tree

---
 src/p4est_bits.c | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/p4est_bits.c b/src/p4est_bits.c
index cb86e85..818153b 100644
--- a/src/p4est_bits.c
+++ b/src/p4est_bits.c
@@ -1112,12 +1112,8 @@ p4est_quadrant_is_inside_tree (p4est_tree_t * tree,
     return 0;
 
   /* check if the end of q is not after the last tree quadrant */
-  /* tree->last_desc is an upper right corner quadrant by construction.
-   * It is ok to compare with q. */
-#if 0
   p4est_quadrant_last_descendant (q, &desc, P4EST_QMAXLEVEL);
-#endif
-  if (p4est_quadrant_compare (&tree->last_desc, q) < 0)
+  if (p4est_quadrant_compare (&tree->last_desc, &desc) < 0)
     return 0;
 
   return 1;
-- 
2.43.0


From e7448cde648b1ad90c3fc9c7f0b19d72cc8580a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:00 +0000
Subject: [PATCH 05/13] fix: p4est_comm_is_contained aborted for a node
 quadrant

---
 src/p4est_communication.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/p4est_communication.c b/src/p4est_communication.c
index b4aa05d..edfd02e 100644
--- a/src/p4est_communication.c
+++ b/src/p4est_communication.c
@@ -652,6 +652,14 @@ p4est_comm_is_contained (p4est_t * p4est, p4est_locidx_t which_tree,
     return 0;
   }
 
+  /* a node is a single point and has no descendants */
+  if (q->level == P4EST_MAXLEVEL) {
+    qlast = *q;
+  }
+  else {
+    p4est_quadrant_last_descendant (q, &qlast, P4EST_QMAXLEVEL);
+  }
+
   /* check whether q ends on a higher processor than rank */
   ++cur;
   P4EST_ASSERT (cur == &p4est->global_first_position[rank + 1]);
@@ -659,8 +667,7 @@ p4est_comm_is_contained (p4est_t * p4est, p4est_locidx_t which_tree,
   ctree = cur->p.which_tree;
   if (which_tree > ctree ||
       (which_tree == ctree &&
-       (p4est_quadrant_last_descendant (q, &qlast, P4EST_QMAXLEVEL),
-        p4est_quadrant_compare (cur, &qlast) <= 0))) {
+       p4est_quadrant_compare (cur, &qlast) <= 0)) {
     return 0;
   }
 
-- 
2.43.0


From c7e66f7b5171680d860904db1692b8a88ad84576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:06 +0000
Subject: [PATCH 06/13] fix: p6est edge and corner balance did not see finer
 layers above or below

When the profile of a column is projected to its face neighbors, a pair of
layers of level n must not be merged when the layer above or below it has
level n + 1, since the merged layer would touch it across an edge.
---
 src/p6est_profile.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/p6est_profile.c b/src/p6est_profile.c
index d84adfc..4274cde 100644
--- a/src/p6est_profile.c
+++ b/src/p6est_profile.c
@@ -277,7 +277,7 @@ p6est_profile_balance_full_one_pass (sc_array_t * read, sc_array_t * write,
         else {
           nextl = -1;
         }
-        if (n >= SC_MAX (nextl, prevl) - 1) {
+        if (n >= SC_MAX (nextl, prevl)) {
           zy++;
           n--;
         }
-- 
2.43.0


From b4e2bceeeb4f330855e5adcea5011fc5ed670481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:48 +0000
Subject: [PATCH 07/13] fix: p4est_balance_seeds accessed the optional seeds
 array when it is NULL

This happened when q is inside of p.
---
 src/p4est_balance.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/p4est_balance.c b/src/p4est_balance.c
index 80d9776..e568aa4 100644
--- a/src/p4est_balance.c
+++ b/src/p4est_balance.c
@@ -994,9 +994,11 @@ p4est_balance_seeds (p4est_quadrant_t * q, p4est_quadrant_t * p,
   switch (type) {
   case 0:
     /* q is inside p, so it is its own seed */
-    sc_array_resize (seeds, seeds->elem_count + 1);
-    s = p4est_quadrant_array_index (seeds, seeds->elem_count - 1);
-    *s = *q;
+    if (seeds != NULL) {
+      sc_array_resize (seeds, seeds->elem_count + 1);
+      s = p4est_quadrant_array_index (seeds, seeds->elem_count - 1);
+      *s = *q;
+    }
     return 1;
   case 1:
     for (i = 0; i < P4EST_DIM; i++) {
-- 
2.43.0


From 83dc9e6bbe7f71e370d78fe5dc0c2e11b67d8aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:53 +0000
Subject: [PATCH 08/13] fix: undefined shift in 3D balance seeds for a level 0
 quadrant

The early return for seeds one level finer than the quadrant compared with
the wrong level, so that a mask of level -1 was computed.
---
 src/p4est_balance.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/p4est_balance.c b/src/p4est_balance.c
index e568aa4..e211cd7 100644
--- a/src/p4est_balance.c
+++ b/src/p4est_balance.c
@@ -466,7 +466,7 @@ p4est_bal_face_con_internal (p4est_quadrant_t const *q,
 
     /* this is the only quad needed if it is only one level smaller than the
      * original quadrant */
-    if (blevel == plevel - 1) {
+    if (blevel == plevel + 1) {
       return;
     }
 
-- 
2.43.0


From dc028910ef9dc7ab7605cd8cbf263461071bccca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:56 +0000
Subject: [PATCH 09/13] fix: p4est_search_reorder respects a subset of trees
 chosen by the callback

---
 src/p4est_search.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/p4est_search.c b/src/p4est_search.c
index 8e07b99..c6a21df 100644
--- a/src/p4est_search.c
+++ b/src/p4est_search.c
@@ -1060,11 +1060,17 @@ p4est_search_reorder (p4est_t * p4est, int skip_levels,
   rec->points = points;
   rec->skip = skip_levels;
 
+  /* the reorder callback may have selected a subset of the trees */
+  if (root_indices != NULL) {
+    P4EST_ASSERT (root_indices->elem_count <= (size_t) num_local_trees);
+    num_local_trees = (p4est_topidx_t) root_indices->elem_count;
+  }
+
   /* go through tree recursions in proper order */
-  for (tt = p4est->first_local_tree; tt <= p4est->last_local_tree; ++tt) {
-    rec->which_tree = root_indices != NULL ? *(p4est_topidx_t *)
-      sc_array_index (root_indices, tt - p4est->first_local_tree) +
-      p4est->first_local_tree : tt;
+  for (rit = 0; rit < num_local_trees; ++rit) {
+    rec->which_tree = p4est->first_local_tree +
+      (root_indices != NULL ?
+       *(p4est_topidx_t *) sc_array_index (root_indices, rit) : rit);
     P4EST_ASSERT (p4est->first_local_tree <= rec->which_tree &&
                   rec->which_tree <= p4est->last_local_tree);
 
-- 
2.43.0


From db58ce3949bfe1bbad44c5a167e4560feed0eb27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:56 +0000
Subject: [PATCH 10/13] fix: p4est_mesh_new_params accepts NULL parameters in
 debug mode

---
 src/p4est_mesh.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/p4est_mesh.c b/src/p4est_mesh.c
index 70961a6..7abaa78 100644
--- a/src/p4est_mesh.c
+++ b/src/p4est_mesh.c
@@ -1265,9 +1265,6 @@ p4est_mesh_new_params (p4est_t * p4est, p4est_ghost_t * ghost,
   p4est_locidx_t      jl;
   p4est_mesh_t       *mesh;
 
-  /* check whether input condition for p4est is met */
-  P4EST_ASSERT (p4est_is_balanced (p4est, params->btype));
-
   mesh = P4EST_ALLOC_ZERO (p4est_mesh_t, 1);
 
   /* store mesh creation parameters in mesh */
@@ -1279,6 +1276,9 @@ p4est_mesh_new_params (p4est_t * p4est, p4est_ghost_t * ghost,
     p4est_mesh_params_init (&mesh->params);
   }
 
+  /* check whether input condition for p4est is met */
+  P4EST_ASSERT (p4est_is_balanced (p4est, mesh->params.btype));
+
   /* number of local quadrants and number of local ghost cells */
   lq = mesh->local_num_quadrants = p4est->local_num_quadrants;
   ng = mesh->ghost_num_quadrants = (p4est_locidx_t) ghost->ghosts.elem_count;
-- 
2.43.0


From 07170fc9f685226cd10a0095ce07bd4fefe30ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:56 +0000
Subject: [PATCH 11/13] fix: p4est_mesh_quadrant_cumulative compared with an
 unset tree number

---
 src/p4est_mesh.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/p4est_mesh.c b/src/p4est_mesh.c
index 7abaa78..4b5bd61 100644
--- a/src/p4est_mesh.c
+++ b/src/p4est_mesh.c
@@ -2164,7 +2164,7 @@ p4est_mesh_quadrant_cumulative (p4est_t * p4est, p4est_mesh_t * mesh,
   p4est_locidx_t      quadrant_id;
   p4est_quadrant_t   *quadrant;
 #ifdef P4EST_ENABLE_DEBUG
-  p4est_topidx_t      dwhich_tree;
+  p4est_topidx_t      dwhich_tree = -1;
   p4est_locidx_t      dquadrant_id;
   p4est_quadrant_t   *dquadrant;
 #endif
-- 
2.43.0


From 2206c35d554d65357094bec025044c3da0270093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:56 +0000
Subject: [PATCH 12/13] fix: p4est_connectivity_complete resets faces without a
 neighbor

---
 src/p4est_connectivity.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/p4est_connectivity.c b/src/p4est_connectivity.c
index b7646b6..dd4273c 100644
--- a/src/p4est_connectivity.c
+++ b/src/p4est_connectivity.c
@@ -3795,6 +3795,11 @@ p4est_connectivity_complete (p4est_connectivity_t * conn)
   ttv = conn->tree_to_vertex;
   for (treeid = 0; treeid < conn->num_trees; ++treeid) {
     for (face = 0; face < P4EST_FACES; ++face) {
+      /* faces stay on the boundary unless a neighbor is found below */
+      tt = P4EST_FACES * treeid + face;
+      conn->tree_to_tree[tt] = treeid;
+      conn->tree_to_face[tt] = (int8_t) face;
+
       p4est_conn_face_key (fikey.key, ttv, face);
       fi = (p4est_conn_face_info_t *)
         sc_hash_array_insert_unique (face_ha, &fikey, &pz);
@@ -3910,7 +3915,7 @@ p4est_connectivity_complete (p4est_connectivity_t * conn)
     ttv += P4EST_CHILDREN;
   }
 
-  /* single faces are on the boundary and need not be changed */
+  /* single faces are on the boundary and remain as initialized */
   sc_hash_array_destroy (face_ha);
 
   /* complete edge identification */
-- 
2.43.0


From 80cbb49384e5c6b3a45418d810f27391231274fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:56 +0000
Subject: [PATCH 13/13] fix: p8est_connectivity_join_faces lost the orientation
 of stored edges

---
 src/p4est_connectivity.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/p4est_connectivity.c b/src/p4est_connectivity.c
index dd4273c..22ef64d 100644
--- a/src/p4est_connectivity.c
+++ b/src/p4est_connectivity.c
@@ -4852,6 +4852,22 @@ p8est_connectivity_join_edges (p8est_connectivity_t * conn,
      * of work for nothing */
     return;
   }
+  /* the two edges may be stored reversed with respect to their groups */
+  for (it = conn->ett_offset[e0]; it < conn->ett_offset[e0 + 1]; it++) {
+    if (conn->edge_to_tree[it] == tree_left &&
+        conn->edge_to_edge[it] % P8EST_EDGES == edge_left) {
+      orientation ^= conn->edge_to_edge[it] / P8EST_EDGES;
+      break;
+    }
+  }
+  for (it = conn->ett_offset[e1]; it < conn->ett_offset[e1 + 1]; it++) {
+    if (conn->edge_to_tree[it] == tree_right &&
+        conn->edge_to_edge[it] % P8EST_EDGES == edge_right) {
+      orientation ^= conn->edge_to_edge[it] / P8EST_EDGES;
+      break;
+    }
+  }
+
   if (e1 < e0) {
     swap = e0;
     e0 = e1;
@@ -4871,7 +4887,7 @@ p8est_connectivity_join_edges (p8est_connectivity_t * conn,
 
     nte %= P8EST_EDGES;         /* okay, now nte is nt's numbering for e1 */
     conn->tree_to_edge[P8EST_EDGES * nt + nte] = e0;    /* e1->e0 */
-    /* if edge_left and edge_right have opposite orientations, then the
+    /* if the edges in e0 and e1 are stored with opposite orientations, then the
      * orientation information in edge_to_edge has to be toggled */
     conn->edge_to_edge[it] = P8EST_EDGES * (o ^ orientation) + nte;
   }
-- 
2.43.0

