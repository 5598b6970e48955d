From 6ddfe4b352b255254bfbcafbcdc7c3b4ee9e8d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:51 +0000
Subject: [PATCH 1/8] fix: collapsible check misses contiguous segments that
 fold onto each other

A hull whose contiguous neighbour ends exactly on the hull's segment was
reported collapsible: point in ring is unspecified on the boundary and false
for the chord of a hull of two triangles. The simplified segments overlapped.
---
 node/collapse.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/node/collapse.go b/node/collapse.go
index ff900e0..8fc0edd 100644
--- a/node/collapse.go
+++ b/node/collapse.go
@@ -34,6 +34,10 @@ func (node *Node) Collapsible(other *Node) bool {
 		t = bi
 	}
 	if ply, ok := node.Geom.Geometry().(*geom.Polygon); ok {
+		// the other end on the segment of node : segments would fold onto each other
+		if !c.Equals2D(t) && node.Segment().Intersects(*t) {
+			return false
+		}
 		return !ply.Shell.PointCompletelyInRing(t)
 	}
 	panic("unimplemented : hull type is handled")
-- 
2.43.0


From e340db46c0818f1b453d01e6febd0dfce96d3878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:51 +0000
Subject: [PATCH 2/8] fix: merge with previous hull is validated without the
 next hull

When merging a segment with its next neighbour is not valid, next stayed out of
the hull db while merging with the previous neighbour was validated.
---
 constdp/node_aggregates.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/constdp/node_aggregates.go b/constdp/node_aggregates.go
index 891dce6..873b551 100644
--- a/constdp/node_aggregates.go
+++ b/constdp/node_aggregates.go
@@ -92,7 +92,8 @@ func (self *ConstDP) AggregateSimpleSegments(
 				merged = true
 			} else {
 				merged = false
-				insertList = append(insertList, *nxt)
+				//restore next : merge with prev has to be valid with respect to it
+				db.Load([]node.Node{*nxt})
 			}
 		}
 
-- 
2.43.0


From 5439c40a0a7a3b3f32550e1d7085d61ed0e8a3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:51 +0000
Subject: [PATCH 3/8] fix: validate collinear hulls that backtrack and
 neighbours of new segments

Hulls with collinear points were skipped although the points can extend beyond
the hull's segment (context relations change), and new segments (size 1) were
never compared with hulls that are not deformed again (new self-intersections).
---
 constdp/simple_0.go | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/constdp/simple_0.go b/constdp/simple_0.go
index 5fc1b33..e64d032 100644
--- a/constdp/simple_0.go
+++ b/constdp/simple_0.go
@@ -35,27 +35,21 @@ func processConstSimplification(nodeHulls []node.Node, db *hdb.Hdb, concurrency
 			var hull = in[i]
 			var self = hull.Instance.(*ConstDP)
 
-			if hull.Range.Size() == 1 { //segment
-				continue
-			}
-
-			//if hull geometry is line then points are collinear
-			if _, ok := hull.Geom.(*geom.LineString); ok {
-				continue
-			}
-
 			// self intersection constraint
+			// note: a segment can not be deformed but its neighbours can
 			if self.Opts.AvoidNewSelfIntersects {
 				bln = constrain.ByFeatureClassIntersection(self.Opts, hull, db, &selections)
 			}
 
 			// short circuit, if invalid, skip context validation
-			if bln {
+			if bln && !isSegment(hull) {
 				bln = self.ValidateContextRelation(hull, &selections)
 			}
 
 			for _, o := range selections {
-				out <- o
+				if o.Range.Size() > 1 { //segments can not be split
+					out <- o
+				}
 			}
 			selections = selections[:0]
 		}
@@ -79,6 +73,21 @@ func processConstSimplification(nodeHulls []node.Node, db *hdb.Hdb, concurrency
 	return results
 }
 
+// isSegment - hull is the same as the segment formed by its end points,
+// collinear points that extend beyond (backtrack) the end points are not
+func isSegment(hull *node.Node) bool {
+	if hull.Range.Size() == 1 {
+		return true
+	}
+	var ln, ok = hull.Geom.(*geom.LineString)
+	if !ok {
+		return false
+	}
+	var a, b = hull.SegmentPoints()
+	var i, j = ln.Coordinates.First(), ln.Coordinates.Last()
+	return (a.Equals2D(i) && b.Equals2D(j)) || (a.Equals2D(j) && b.Equals2D(i))
+}
+
 func chunkTasks(vals []*node.Node, concurrency int) [][]*node.Node {
 	var n = len(vals)
 	var chunkSize = n / concurrency
-- 
2.43.0


From e65b6208c5104ff554ce8d22aef480ca1aecf8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:59 +0000
Subject: [PATCH 4/8] fix: planar junction at the last vertex in sorted order
 is lost

The group of equal points that is last in lexicographic order (maximum x) was
never reported as a planar (self) intersection.
---
 lnr/fc.go   | 9 ++++++---
 lnr/self.go | 9 ++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/lnr/fc.go b/lnr/fc.go
index 505e9a6..38d7b1d 100644
--- a/lnr/fc.go
+++ b/lnr/fc.go
@@ -34,9 +34,12 @@ func FCPlanarSelfIntersection(featureClass []*FC) map[int][]int {
 	var a, b *vertex
 
 	var bln bool
-	for i, n := 0, len(points); i < n-1; i++ { //O(n)
-		a, b = &points[i], &points[i+1]
-		bln = a.Equals2D(b.Point)
+	for i, n := 0, len(points); i < n; i++ { //O(n)
+		bln = false
+		if i < n-1 { //last point closes the last group of equal points
+			a, b = &points[i], &points[i+1]
+			bln = a.Equals2D(b.Point)
+		}
 		if bln {
 			if d == 0 {
 				indexes = append(indexes, a, b)
diff --git a/lnr/self.go b/lnr/self.go
index b541027..e87eecf 100644
--- a/lnr/self.go
+++ b/lnr/self.go
@@ -35,9 +35,12 @@ func planarIntersects(polyline *geometry.Polyline) *ctx.ContextGeometries {
 	var results = ctx.NewContexts()
 
 	var bln bool
-	for i, n := 0, len(points); i < n-1; i++ { //O(n)
-		a, b = &points[i], &points[i+1]
-		bln = a.Equals2D(b.Point)
+	for i, n := 0, len(points); i < n; i++ { //O(n)
+		bln = false
+		if i < n-1 { //last point closes the last group of equal points
+			a, b = &points[i], &points[i+1]
+			bln = a.Equals2D(b.Point)
+		}
 		if bln {
 			if d == 0 {
 				indices = append(indices, a.index, b.index)
-- 
2.43.0


From 68c549c640e1a34322071977b6c8f286083bf497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:04 +0000
Subject: [PATCH 5/8] fix: feature class deformation selections collide on hull
 range

Selections were keyed by vertex range only: hulls of different features with the
same range replaced each other, leaving intersections between features and
results that depend on map iteration order.
---
 deform/cls.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/deform/cls.go b/deform/cls.go
index 9c109be..4655200 100644
--- a/deform/cls.go
+++ b/deform/cls.go
@@ -26,7 +26,7 @@ func SelectFeatureClass(options *opts.Opts, hullDB *hdb.Hdb, hull *node.Node) []
 	var n int
 	var h *node.Node
 	var inters, contig bool
-	var dict = make(map[[2]int]*node.Node, 0)
+	var dict = make(map[int]*node.Node, 0)
 	var ctxHulls = knn.NodeNeighbours(hullDB, hull, knn.EpsilonDist)
 
 	ctxHulls = optimizeNeighbours(hull, ctxHulls)
@@ -64,10 +64,10 @@ func SelectFeatureClass(options *opts.Opts, hullDB *hdb.Hdb, hull *node.Node) []
 
 		// add candidate deformation hulls to selection list
 		if sa != nil {
-			dict[sa.Range.AsArray()] = sa
+			dict[sa.Id] = sa
 		}
 		if sb != nil {
-			dict[sb.Range.AsArray()] = sb
+			dict[sb.Id] = sb
 		}
 	}
 
-- 
2.43.0


From 39320c6c04a2c959b6ac136128c0ddb45941f62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:00 +0000
Subject: [PATCH 6/8] fix: non planar self option is ignored without planar
 self

non_planar_self is an independent option, vertices of non planar intersections
were constrained only if planar_self was set as well.
---
 constrain/toself.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/constrain/toself.go b/constrain/toself.go
index ee75d0a..a59c9f3 100644
--- a/constrain/toself.go
+++ b/constrain/toself.go
@@ -17,7 +17,7 @@ func ToSelfIntersects(id *iter.Igen,
 	options *opts.Opts, constVerts []int,
 ) ([]node.Node, bool, []int) {
 	var atVertexSet = make(map[int]bool)
-	if !options.PlanarSelf {
+	if !(options.PlanarSelf || options.NonPlanarSelf) {
 		return nodes, true, []int{}
 	}
 
-- 
2.43.0


From 2a8c635e2507ece91621383db89bfb1c13c98095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:48 +0000
Subject: [PATCH 7/8] fix: output keyed by position panics when an input line
 holds no polyline

---
 encode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encode.go b/encode.go
index 20239a1..fe01c72 100644
--- a/encode.go
+++ b/encode.go
@@ -38,7 +38,7 @@ func groupPlnsAsGeoJSONS(plns []*geometry.Polyline) []string {
 	var dictionary = groupById(plns)
 	var indxs = indices(dictionary)
 	var jsons = make([]string, 0, len(plns))
-	for idx := range indxs {
+	for _, idx := range indxs {
 		var plns = dictionary[idx]
 		sort.SliceStable(plns, func(i, j int) bool {
 			return plns[i].pos < plns[j].pos
-- 
2.43.0


From 09d2ac0dd3750b38c8d9c16c5dfb52f138fe7512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:52 +0000
Subject: [PATCH 8/8] fix: synchronized offset is undefined when no time
 elapses

---
 offset/sed.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/offset/sed.go b/offset/sed.go
index af8da8a..75e9eb8 100644
--- a/offset/sed.go
+++ b/offset/sed.go
@@ -41,7 +41,10 @@ func maxSEDOffset(coordinates geom.Coords, hypotFn func(float64, float64) float6
 		pt = coordinates.Pt(k)
 		ptx, pty, ptt = pt[geom.X], pt[geom.Y], pt[geom.Z]
 
-		m = (mij / dt) * (ptt - at)
+		m = 0 // no time elapsed : synchronized at the start
+		if dt != 0 {
+			m = (mij / dt) * (ptt - at)
+		}
 		px, py = ax+(m*vx), ay+(m*vy)
 		dist = hypotFn(ptx-px, pty-py)
 
-- 
2.43.0

