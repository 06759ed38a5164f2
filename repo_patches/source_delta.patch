From 56a6900deb2a85420d4768d06b5c4a47dbce2a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:34 +0000
Subject: [PATCH] fix: clamp negative minimum holes size in multipolygons

With an unbounded maximum a negative minimum only warns, yet multipolygons
passed it on unclamped (unlike polygons and mixes) and failed with an
AssertionError.
---
 hypothesis_geometry/planar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hypothesis_geometry/planar.py b/hypothesis_geometry/planar.py
index c110b71..0971f62 100644
--- a/hypothesis_geometry/planar.py
+++ b/hypothesis_geometry/planar.py
@@ -1650,7 +1650,7 @@ def multipolygons(
         max_size=max_size,
         min_border_size=min_border_size,
         max_border_size=max_border_size,
-        min_hole_count=min_holes_size,
+        min_hole_count=max(min_holes_size, 0),
         max_hole_count=max_holes_size,
         min_hole_size=min_hole_size,
         max_hole_size=max_hole_size,
-- 
2.43.0

