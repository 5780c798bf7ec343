From 88189a547472741c327f02a7e986372bb665367e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:27 +0000
Subject: [PATCH 01/10] fix: keep the last run of equal vertices when detecting
 planar self-intersections

The vertex shared at the lexicographically greatest location was never
reported, because a run of equal points was only closed by a different
point following it.
---
 lnr/self.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lnr/self.go b/lnr/self.go
index b541027..f313102 100644
--- a/lnr/self.go
+++ b/lnr/self.go
@@ -35,9 +35,13 @@ func planarIntersects(polyline *geometry.Polyline) *ctx.ContextGeometries {
 	var results = ctx.NewContexts()
 
 	var bln bool
-	for i, n := 0, len(points); i < n-1; i++ { //O(n)
-		a, b = &points[i], &points[i+1]
-		bln = a.Equals2D(b.Point)
+	for i, n := 0, len(points); i < n; i++ { //O(n)
+		//the last vertex has no successor: it closes the last run of equal points
+		bln = false
+		if i < n-1 {
+			a, b = &points[i], &points[i+1]
+			bln = a.Equals2D(b.Point)
+		}
 		if bln {
 			if d == 0 {
 				indices = append(indices, a.index, b.index)
-- 
2.43.0


From fc74ea1c7eba4afd0fb4c2ae6519807ea3ed78c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:27 +0000
Subject: [PATCH 02/10] fix: keep the last run of equal vertices when detecting
 feature class junctions

Vertices shared by features at the lexicographically greatest location
were never reported as junctions.
---
 lnr/fc.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lnr/fc.go b/lnr/fc.go
index 505e9a6..b3f3433 100644
--- a/lnr/fc.go
+++ b/lnr/fc.go
@@ -34,9 +34,13 @@ func FCPlanarSelfIntersection(featureClass []*FC) map[int][]int {
 	var a, b *vertex
 
 	var bln bool
-	for i, n := 0, len(points); i < n-1; i++ { //O(n)
-		a, b = &points[i], &points[i+1]
-		bln = a.Equals2D(b.Point)
+	for i, n := 0, len(points); i < n; i++ { //O(n)
+		//the last vertex has no successor: it closes the last run of equal points
+		bln = false
+		if i < n-1 {
+			a, b = &points[i], &points[i+1]
+			bln = a.Equals2D(b.Point)
+		}
 		if bln {
 			if d == 0 {
 				indexes = append(indexes, a, b)
-- 
2.43.0


From 1abb508b9245be7b2eef6f869f814d19444204b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:27 +0000
Subject: [PATCH 03/10] fix: group output features by their input index, not by
 position

An input line that is not linear (a point or a polygon) leaves a gap in
the feature indices; looking groups up by position then crashed or lost
the trailing features.
---
 encode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encode.go b/encode.go
index 20239a1..fe01c72 100644
--- a/encode.go
+++ b/encode.go
@@ -38,7 +38,7 @@ func groupPlnsAsGeoJSONS(plns []*geometry.Polyline) []string {
 	var dictionary = groupById(plns)
 	var indxs = indices(dictionary)
 	var jsons = make([]string, 0, len(plns))
-	for idx := range indxs {
+	for _, idx := range indxs {
 		var plns = dictionary[idx]
 		sort.SliceStable(plns, func(i, j int) bool {
 			return plns[i].pos < plns[j].pos
-- 
2.43.0


From 62f680fbef9ee5ac78420c4d5c6f37281e3f6c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:38 +0000
Subject: [PATCH 04/10] fix: do not confuse hulls of different features that
 have the same range

Hulls selected for deformation were keyed by index range, so a hull of
one feature could displace the hull of another feature with equal range
and a new intersection between the features survived, depending on map
iteration order.
---
 deform/cls.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/deform/cls.go b/deform/cls.go
index 9c109be..1d3f101 100644
--- a/deform/cls.go
+++ b/deform/cls.go
@@ -26,7 +26,7 @@ func SelectFeatureClass(options *opts.Opts, hullDB *hdb.Hdb, hull *node.Node) []
 	var n int
 	var h *node.Node
 	var inters, contig bool
-	var dict = make(map[[2]int]*node.Node, 0)
+	var dict = make(map[int]*node.Node, 0) //by node id: features may share ranges
 	var ctxHulls = knn.NodeNeighbours(hullDB, hull, knn.EpsilonDist)
 
 	ctxHulls = optimizeNeighbours(hull, ctxHulls)
@@ -64,10 +64,10 @@ func SelectFeatureClass(options *opts.Opts, hullDB *hdb.Hdb, hull *node.Node) []
 
 		// add candidate deformation hulls to selection list
 		if sa != nil {
-			dict[sa.Range.AsArray()] = sa
+			dict[sa.Id] = sa
 		}
 		if sb != nil {
-			dict[sb.Range.AsArray()] = sb
+			dict[sb.Id] = sb
 		}
 	}
 
-- 
2.43.0


From 51a3675d3f7351a01a3c6e6e4c68be402b29335b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:51 +0000
Subject: [PATCH 05/10] fix: observe non_planar_self without planar_self

non_planar_self is documented as an option of its own but was silently
ignored unless planar_self was also set.
---
 constrain/toself.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/constrain/toself.go b/constrain/toself.go
index ee75d0a..a59c9f3 100644
--- a/constrain/toself.go
+++ b/constrain/toself.go
@@ -17,7 +17,7 @@ func ToSelfIntersects(id *iter.Igen,
 	options *opts.Opts, constVerts []int,
 ) ([]node.Node, bool, []int) {
 	var atVertexSet = make(map[int]bool)
-	if !options.PlanarSelf {
+	if !(options.PlanarSelf || options.NonPlanarSelf) {
 		return nodes, true, []int{}
 	}
 
-- 
2.43.0


From 1e9c44b2f736fa6f0ec9d2aba5f0ee06a77759ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:42 +0000
Subject: [PATCH 06/10] fix: check single segments produced by a split against
 their neighbours

Hulls of one segment were never compared with the other hulls. When a
neighbour of an accepted hull was split down to single segments, the
accepted hull could end up crossing one of them, and the simplified
line got a new self-intersection with avoid_new_self_intersects on.
---
 constdp/simple_0.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/constdp/simple_0.go b/constdp/simple_0.go
index 5fc1b33..f560a59 100644
--- a/constdp/simple_0.go
+++ b/constdp/simple_0.go
@@ -35,12 +35,10 @@ func processConstSimplification(nodeHulls []node.Node, db *hdb.Hdb, concurrency
 			var hull = in[i]
 			var self = hull.Instance.(*ConstDP)
 
-			if hull.Range.Size() == 1 { //segment
-				continue
-			}
+			var isSegment = hull.Range.Size() == 1
 
 			//if hull geometry is line then points are collinear
-			if _, ok := hull.Geom.(*geom.LineString); ok {
+			if _, ok := hull.Geom.(*geom.LineString); ok && !isSegment {
 				continue
 			}
 
@@ -50,12 +48,14 @@ func processConstSimplification(nodeHulls []node.Node, db *hdb.Hdb, concurrency
 			}
 
 			// short circuit, if invalid, skip context validation
-			if bln {
+			if bln && !isSegment {
 				bln = self.ValidateContextRelation(hull, &selections)
 			}
 
 			for _, o := range selections {
-				out <- o
+				if o.Range.Size() > 1 { //a segment cannot be deformed further
+					out <- o
+				}
 			}
 			selections = selections[:0]
 		}
-- 
2.43.0


From b1d11e24758f22cf861d345405bdf5edda362776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:00 +0000
Subject: [PATCH 07/10] fix: constrain hulls of collinear vertices that fold
 back

Hulls whose vertices are collinear were exempt from every relation, but
a subline that runs past the end of its segment and back does not cover
the same points as the segment, so the simplified line could lose its
contact with a constraint.
---
 constdp/simple_0.go | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/constdp/simple_0.go b/constdp/simple_0.go
index f560a59..65be3f9 100644
--- a/constdp/simple_0.go
+++ b/constdp/simple_0.go
@@ -4,7 +4,6 @@ import (
 	"github.com/TopoSimplify/plugin/constrain"
 	"github.com/TopoSimplify/plugin/hdb"
 	"github.com/TopoSimplify/plugin/node"
-	"github.com/intdxdt/geom"
 	"sync"
 )
 
@@ -37,11 +36,6 @@ func processConstSimplification(nodeHulls []node.Node, db *hdb.Hdb, concurrency
 
 			var isSegment = hull.Range.Size() == 1
 
-			//if hull geometry is line then points are collinear
-			if _, ok := hull.Geom.(*geom.LineString); ok && !isSegment {
-				continue
-			}
-
 			// self intersection constraint
 			if self.Opts.AvoidNewSelfIntersects {
 				bln = constrain.ByFeatureClassIntersection(self.Opts, hull, db, &selections)
-- 
2.43.0


From cfd356b930763c4b2e288177e2f9a2b1f40899c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:54 +0000
Subject: [PATCH 08/10] fix: hold the threshold when constraints split a hull

The parts of a hull that is within the threshold can lie farther than
the threshold from their own segments. Splits made for junctions and
constraints were accepted unchecked, so the simplified line could
deviate by more than the threshold.
---
 constdp/simple_1.go  |  2 +-
 constdp/simplify.go  |  1 +
 constdp/threshold.go | 39 +++++++++++++++++++++++++++++++++++++++
 3 files changed, 41 insertions(+), 1 deletion(-)
 create mode 100644 constdp/threshold.go

diff --git a/constdp/simple_1.go b/constdp/simple_1.go
index 306dc6b..1cf78a6 100644
--- a/constdp/simple_1.go
+++ b/constdp/simple_1.go
@@ -22,7 +22,7 @@ func deformNodes(id *iter.Igen, nodes map[*node.Node]struct{}) []node.Node {
 
 		if hull.Range.Size() > 1 {
 			ha, hb = split.AtScoreSelection(id, hull, scoreFn, common.Geometry)
-			results = append(results, ha, hb)
+			results = append(results, self.splitAtThreshold(id, ha, hb)...)
 			hull.Instance.State().MarkDirty() //after split mark instance as dirty
 		} else {
 			results = append(results, *hull)
diff --git a/constdp/simplify.go b/constdp/simplify.go
index 374a9a1..893712a 100644
--- a/constdp/simplify.go
+++ b/constdp/simplify.go
@@ -26,6 +26,7 @@ func (self *ConstDP) Simplify(id *iter.Igen, constVertices ...[]int) *ConstDP {
 	self.Hulls, _, constVertexSet = constrain.ToSelfIntersects(
 		id, self.Hulls, self.Polyline, self.Options(), constVerts,
 	)
+	self.Hulls = self.splitAtThreshold(id, self.Hulls...)
 
 	var db = hdb.NewHdb()
 	var selections map[*node.Node]struct{}
diff --git a/constdp/threshold.go b/constdp/threshold.go
new file mode 100644
index 0000000..d3aed1d
--- /dev/null
+++ b/constdp/threshold.go
@@ -0,0 +1,39 @@
+package constdp
+
+import (
+	"github.com/TopoSimplify/plugin/common"
+	"github.com/TopoSimplify/plugin/lnr"
+	"github.com/TopoSimplify/plugin/node"
+	"github.com/TopoSimplify/plugin/split"
+	"github.com/intdxdt/iter"
+)
+
+//score function and its relation to the threshold
+func (self *ConstDP) scoreFn() (lnr.ScoreFn, func(float64) bool) {
+	if self.SquareScore != nil {
+		return self.SquareScore, self.SquareScoreRelation
+	}
+	return self.Score, self.ScoreRelation
+}
+
+//splits hulls until each is within the simplification threshold:
+//the parts of a hull within the threshold can be farther away from their segments
+func (self *ConstDP) splitAtThreshold(id *iter.Igen, hulls ...node.Node) []node.Node {
+	var score, relation = self.scoreFn()
+	var results = make([]node.Node, 0, len(hulls))
+	for i := range hulls {
+		var stack = []node.Node{hulls[i]}
+		for len(stack) > 0 {
+			var n = len(stack) - 1
+			var hull = stack[n]
+			stack = stack[:n]
+			if _, val := score(hull.Coordinates()); hull.Range.Size() == 1 || relation(val) {
+				results = append(results, hull)
+				continue
+			}
+			var ha, hb = split.AtScoreSelection(id, &hull, score, common.Geometry)
+			stack = append(stack, hb, ha)
+		}
+	}
+	return results
+}
-- 
2.43.0


From a048b4ee2278b79d97d4a74ffc0067ff998469da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:13 +0000
Subject: [PATCH 09/10] fix: check a merge with the previous hull against the
 next hull

---
 constdp/node_aggregates.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/constdp/node_aggregates.go b/constdp/node_aggregates.go
index 891dce6..7d38c2c 100644
--- a/constdp/node_aggregates.go
+++ b/constdp/node_aggregates.go
@@ -92,7 +92,8 @@ func (self *ConstDP) AggregateSimpleSegments(
 				merged = true
 			} else {
 				merged = false
-				insertList = append(insertList, *nxt)
+				//merging with prev has to be checked against nxt
+				db.Load([]node.Node{*nxt})
 			}
 		}
 
-- 
2.43.0


From 4ca1a256312ea0a040bf4b989ee8ca6c57c8ecd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:14 +0000
Subject: [PATCH 10/10] fix: a feature without a geometry is skipped instead of
 crashing the reader

---
 geometry/geojson.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/geometry/geojson.go b/geometry/geojson.go
index cd62b8b..c8c8f01 100644
--- a/geometry/geojson.go
+++ b/geometry/geojson.go
@@ -105,6 +105,9 @@ func parseConstraintFeatures(inputs []string) []IGeometry {
 
 func createPolylineGeoms(idx int, feat *geojson.Feature) []*Polyline {
 	var geometries = make([]*Polyline, 0)
+	if feat.Geometry == nil { // unlocated feature
+		return geometries
+	}
 	if feat.Geometry.IsLineString() || feat.Geometry.IsMultiLineString() {
 		var objs = lineStringFromFeature(idx, feat)
 		for _, o := range objs {
@@ -116,6 +119,9 @@ func createPolylineGeoms(idx int, feat *geojson.Feature) []*Polyline {
 
 func createIGeom(idx int, feat *geojson.Feature) []IGeometry {
 	var geometries = make([]IGeometry, 0)
+	if feat.Geometry == nil { // unlocated feature
+		return geometries
+	}
 	if feat.Geometry.IsPoint() || feat.Geometry.IsMultiPoint() {
 		var objs = pointsFromFeature(idx, feat)
 		for _, o := range objs {
-- 
2.43.0

