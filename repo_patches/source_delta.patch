From 6b8c6b1e86705eae8fcf98cf94403606012331e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:14 +0000
Subject: [PATCH 1/9] fix: report removed nodes from csp_solution_iteration so
 that solve_csp reaches a fixpoint

---
 lib/constraint_graph.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/constraint_graph.cpp b/lib/constraint_graph.cpp
index bf868bf..5e03d5c 100644
--- a/lib/constraint_graph.cpp
+++ b/lib/constraint_graph.cpp
@@ -315,7 +315,10 @@ __device__ BOOL csp_solution_iteration(
             ++node.pixel.x
         )
         {
-            csp_process_pixel(graph, node.pixel);
+            if (csp_process_pixel(graph, node.pixel))
+            {
+                changed = TRUE;
+            }
             pixel_available = FALSE;
             for (
                 node.disparity = 0;
-- 
2.43.0


From 00049e15ae542407612ef256e9c2da081965363c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:14 +0000
Subject: [PATCH 2/9] fix: build_disparity_map detects pixels with two labels

---
 lib/labeling_finder.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/lib/labeling_finder.cpp b/lib/labeling_finder.cpp
index eb25e4f..087348e 100644
--- a/lib/labeling_finder.cpp
+++ b/lib/labeling_finder.cpp
@@ -420,7 +420,6 @@ __device__ struct Image build_disparity_map(
                     result.data[pixel_index(&result, node.pixel)]
                         = node.disparity;
                     found = true;
-                    break;
                 }
             }
             if (!found)
-- 
2.43.0


From 3a82c16b881435cd496354105fa5a0cadb47f3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:14 +0000
Subject: [PATCH 3/9] fix: image_valid counts pixels with ULONG

---
 lib/image.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/image.cpp b/lib/image.cpp
index 9f4100b..3ea8965 100644
--- a/lib/image.cpp
+++ b/lib/image.cpp
@@ -36,7 +36,7 @@ BOOL image_valid(const struct Image* image)
     {
         return false;
     }
-    for (unsigned i = 0; i < image->width * image->height; ++i)
+    for (ULONG i = 0; i < image->width * image->height; ++i)
     {
         if (image->data[i] > image->max_value)
         {
-- 
2.43.0


From 74c48b304c09627f6622f602742e36a6e6808295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:29 +0000
Subject: [PATCH 4/9] fix: enumerate exactly the existing edges towards the
 left neighbour

---
 lib/labeling_finder.cpp  | 6 ++++--
 lib/lowest_penalties.cpp | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/lib/labeling_finder.cpp b/lib/labeling_finder.cpp
index 087348e..990e425 100644
--- a/lib/labeling_finder.cpp
+++ b/lib/labeling_finder.cpp
@@ -116,7 +116,7 @@ __device__ FLOAT_ARRAY fetch_edge_available_penalties(
     {
         if (
             edge.node.disparity <= 1
-            || edge.neighbor.pixel.x == edge.node.pixel.x
+            || edge.neighbor.pixel.x <= edge.node.pixel.x
         )
         {
             initial_disparity = 0;
@@ -128,7 +128,9 @@ __device__ FLOAT_ARRAY fetch_edge_available_penalties(
         for (
             edge.neighbor.disparity = initial_disparity;
             edge.neighbor.pixel.x + edge.neighbor.disparity < graph->left.width
-                && edge.neighbor.disparity < graph->disparity_levels;
+                && edge.neighbor.disparity < graph->disparity_levels
+                && (edge.neighbor.pixel.x >= edge.node.pixel.x
+                    || edge.neighbor.disparity <= edge.node.disparity + 1);
             ++edge.neighbor.disparity
         )
         {
diff --git a/lib/lowest_penalties.cpp b/lib/lowest_penalties.cpp
index 8b3649b..46b8ad7 100644
--- a/lib/lowest_penalties.cpp
+++ b/lib/lowest_penalties.cpp
@@ -154,7 +154,7 @@ __device__ FLOAT calculate_lowest_neighborhood_penalty_fast(
     {
         if (
             edge.node.disparity <= 1
-            || edge.neighbor.pixel.x == edge.node.pixel.x
+            || edge.neighbor.pixel.x <= edge.node.pixel.x
         )
         {
             initial_disparity = 0;
@@ -166,7 +166,9 @@ __device__ FLOAT calculate_lowest_neighborhood_penalty_fast(
         for (
             edge.neighbor.disparity = initial_disparity;
             edge.neighbor.pixel.x + edge.neighbor.disparity < graph->left.width
-                && edge.neighbor.disparity < graph->disparity_levels;
+                && edge.neighbor.disparity < graph->disparity_levels
+                && (edge.neighbor.pixel.x >= edge.node.pixel.x
+                    || edge.neighbor.disparity <= edge.node.disparity + 1);
             ++edge.neighbor.disparity
         )
         {
-- 
2.43.0


From 240aaac8808d383a84ddb0dcf3e08d187b795cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:29 +0000
Subject: [PATCH 5/9] fix: choose_best_node handles negative penalties

---
 lib/labeling_finder.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/labeling_finder.cpp b/lib/labeling_finder.cpp
index 990e425..134186f 100644
--- a/lib/labeling_finder.cpp
+++ b/lib/labeling_finder.cpp
@@ -267,7 +267,8 @@ __device__ struct ConstraintGraph* choose_best_node(
     struct Node node;
     node.pixel = pixel;
     node.disparity = 0;
-    FLOAT minimal_penalty = -1;
+    FLOAT minimal_penalty = 0;
+    BOOL penalty_found = false;
     for (
         node.disparity = 0;
         node.pixel.x + node.disparity < graph->disparity_graph->left.width
@@ -280,9 +281,10 @@ __device__ struct ConstraintGraph* choose_best_node(
             continue;
         }
 
-        if (minimal_penalty < 0)
+        if (!penalty_found)
         {
             minimal_penalty = node_penalty(graph->disparity_graph, node);
+            penalty_found = true;
         }
         else {
             minimal_penalty = MIN(
-- 
2.43.0


From bce9ae3cee0103ae7704f793a9f47b754a837ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:12 +0000
Subject: [PATCH 6/9] fix: PGM reader rejects dimensions whose product is not
 representable

---
 lib/pgm_io.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/pgm_io.cpp b/lib/pgm_io.cpp
index a833bd5..b678201 100644
--- a/lib/pgm_io.cpp
+++ b/lib/pgm_io.cpp
@@ -172,6 +172,14 @@ istream& operator>>(istream& in, PGM_IO& ppm_io)
         in.setstate(ios_base::failbit);
         return in;
     }
+    if (
+        image->height != 0
+        && image->width > image->data.max_size() / image->height
+    )
+    {
+        in.setstate(ios_base::failbit);
+        return in;
+    }
     image->data.resize(image->width * image->height);
 
     for (ULONG y = 0; y < image->height; ++y)
-- 
2.43.0


From 0164b6364fe9e42c3583066d4aefe5fb3519dda3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:12 +0000
Subject: [PATCH 7/9] fix: PGM reader fails the stream on numbers that are out
 of range

---
 lib/pgm_io.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/lib/pgm_io.cpp b/lib/pgm_io.cpp
index b678201..f988e5d 100644
--- a/lib/pgm_io.cpp
+++ b/lib/pgm_io.cpp
@@ -44,6 +44,7 @@ using std::isspace;
 using std::make_shared;
 using std::move;
 using std::numeric_limits;
+using std::out_of_range;
 using std::stoul;
 using std::streamsize;
 using std::string;
@@ -166,6 +167,11 @@ istream& operator>>(istream& in, PGM_IO& ppm_io)
         in.setstate(ios_base::failbit);
         return in;
     }
+    catch (out_of_range&)
+    {
+        in.setstate(ios_base::failbit);
+        return in;
+    }
 
     if (image->max_value > PGM_IO::MAX_VALUE_LIMIT)
     {
@@ -196,6 +202,11 @@ istream& operator>>(istream& in, PGM_IO& ppm_io)
                 in.setstate(ios_base::failbit);
                 return in;
             }
+            catch (out_of_range&)
+            {
+                in.setstate(ios_base::failbit);
+                return in;
+            }
         }
     }
 
-- 
2.43.0


From e95882c89767f3df8367e127aa41bdac3d61d5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:12 +0000
Subject: [PATCH 8/9] fix: PGM reader does not hand over an image followed by
 garbage

---
 lib/pgm_io.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/pgm_io.cpp b/lib/pgm_io.cpp
index f988e5d..f908c2d 100644
--- a/lib/pgm_io.cpp
+++ b/lib/pgm_io.cpp
@@ -106,7 +106,7 @@ bool PGM_IO::check_file_end(istream& in)
     {
         in.clear(ios::goodbit | ios::eofbit);
     }
-    return in.good();
+    return !in.fail();
 }
 
 ostream& operator<<(ostream& out, const PGM_IO& ppm_io)
@@ -210,7 +210,10 @@ istream& operator>>(istream& in, PGM_IO& ppm_io)
         }
     }
 
-    PGM_IO::check_file_end(in);
+    if (!PGM_IO::check_file_end(in))
+    {
+        return in;
+    }
 
     ppm_io.set_image(image);
 
-- 
2.43.0


From 7d34e73fad5cb72fc2c54a3313b09f86e202b67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:47 +0000
Subject: [PATCH 9/9] fix: stereo problem does not accept NaN as a weight

---
 lib/disparity_graph.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/disparity_graph.cpp b/lib/disparity_graph.cpp
index 8cf2086..2737d9f 100644
--- a/lib/disparity_graph.cpp
+++ b/lib/disparity_graph.cpp
@@ -133,7 +133,8 @@ DisparityGraph::DisparityGraph(
             + "respectively."
         );
     }
-    if (this->cleanness < 0)
+    // (NaN is not less than zero, but it isn't a weight, too)
+    if (!(this->cleanness >= 0))
     {
         throw std::invalid_argument(
             "Cleanness weight should not be negative. "
@@ -142,7 +143,7 @@ DisparityGraph::DisparityGraph(
             + "."
         );
     }
-    if (this->smoothness < 0)
+    if (!(this->smoothness >= 0))
     {
         throw std::invalid_argument(
             "Smoothness weight should not be negative. "
-- 
2.43.0

