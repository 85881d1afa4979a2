From 415c83e9afb7aa234010d58c0049602b098159c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:15 +0000
Subject: [PATCH 01/63] fix: bulk-loaded R-tree leaves no longer share spare
 capacity

Appending to one leaf overwrote the first entry of its neighbour.
---
 rtree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rtree.go b/rtree.go
index 0282fce..a797335 100644
--- a/rtree.go
+++ b/rtree.go
@@ -188,7 +188,7 @@ func (tree *Rtree) omt(level, nSlices int, objs []entry, m int) *node {
 		}
 		return &node{
 			leaf:    true,
-			entries: objs,
+			entries: objs[:len(objs):len(objs)],
 			level:   level,
 		}
 	}
-- 
2.43.0


From b0c0a6f8eda4e7401e33f2a2d31d07e356b65c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:15 +0000
Subject: [PATCH 02/63] fix: Rtree.Delete compares objects with
 reflect.DeepEqual

Comparing Spatial values with == panics for every geometry stored as a slice.
---
 rtree.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rtree.go b/rtree.go
index a797335..955f3cb 100644
--- a/rtree.go
+++ b/rtree.go
@@ -3,6 +3,7 @@ package geo
 import (
 	"fmt"
 	"math"
+	"reflect"
 	"sort"
 	"time"
 )
@@ -530,7 +531,7 @@ func (tree *Rtree) Delete(obj Spatial) bool {
 		if len(object) != 2 {
 			return false
 		}
-		return object[0] == object[1]
+		return reflect.DeepEqual(object[0], object[1])
 	}
 	return tree.DeleteWithComparator(obj, condition)
 }
-- 
2.43.0


From 393a64dd2f24e0254da11def7f8ab5cb8c81290c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:15 +0000
Subject: [PATCH 03/63] fix: DeleteBySpatialID removes every object of that id

Deleting one found object could remove another one with the same id, after
which the search for the next one by its box failed and left it behind.
---
 rtree.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rtree.go b/rtree.go
index 955f3cb..35dba06 100644
--- a/rtree.go
+++ b/rtree.go
@@ -547,8 +547,11 @@ func (tree *Rtree) DeleteBySpatialID(id string) bool {
 	if len(sps) == 0 {
 		return false
 	}
-	for _, sp := range sps {
-		tree.DeleteWithComparator(sp, condition)
+	for len(sps) > 0 {
+		if !tree.DeleteWithComparator(sps[0], condition) {
+			break
+		}
+		sps = tree.SearchBySpatialID(id)
 	}
 	return true
 }
-- 
2.43.0


From 38e98355c0a2da8e00847800a789c9d6899b3d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:16 +0000
Subject: [PATCH 04/63] fix: InsertWithRandomId formats the tree size, not the
 method value

---
 rtree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rtree.go b/rtree.go
index 35dba06..e757edd 100644
--- a/rtree.go
+++ b/rtree.go
@@ -270,7 +270,7 @@ func (tree *Rtree) Insert(obj Spatial) {
 
 // 插入rtree
 func (tree *Rtree) InsertWithRandomId(geom Geometry) {
-	e := entry{BoundingBox(geom), nil, Spatial{fmt.Sprintf("%d_1_%d", time.Now().UnixNano(), tree.Size), nil, geom}}
+	e := entry{BoundingBox(geom), nil, Spatial{fmt.Sprintf("%d_1_%d", time.Now().UnixNano(), tree.size), nil, geom}}
 	tree.insert(e, 1)
 	tree.size++
 }
-- 
2.43.0


From c6f408175e5b9277686a9acff5d6a33eb7ac7b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:11 +0000
Subject: [PATCH 05/63] fix: R-tree deletion keeps a usable root

Emptying a subtree could leave an inner root without entries, after which the
next insertion dereferenced a nil child; and a root with a single entry was
collapsed only once.
---
 rtree.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/rtree.go b/rtree.go
index e757edd..010bdb1 100644
--- a/rtree.go
+++ b/rtree.go
@@ -603,8 +603,9 @@ func (tree *Rtree) DeleteWithComparator(obj Spatial, cond Condition) bool {
 	tree.condenseTree(n)
 	tree.size--
 
-	if !tree.root.leaf && len(tree.root.entries) == 1 {
+	for !tree.root.leaf && len(tree.root.entries) == 1 {
 		tree.root = tree.root.entries[0].child
+		tree.root.parent = nil
 	}
 
 	tree.height = tree.root.level
@@ -664,11 +665,23 @@ func (tree *Rtree) condenseTree(n *node) {
 		n = n.parent
 	}
 
-	for _, n := range deleted {
+	// the highest subtrees go first, so that the lower ones find a node at their level
+	for i := len(deleted) - 1; i >= 0; i-- {
+		n := deleted[i]
+		if len(tree.root.entries) == 0 {
+			// nothing else is left in the tree, so this subtree becomes the tree
+			n.parent = nil
+			tree.root = n
+			tree.height = n.level
+			continue
+		}
 		// reinsert entry so that it will remain at the same level as before
 		e := entry{n.computeBoundingBox(), n, Spatial{}}
 		tree.insert(e, n.level+1)
 	}
+	if !tree.root.leaf && len(tree.root.entries) == 0 {
+		tree.root = &node{entries: []entry{}, leaf: true, level: 1}
+	}
 }
 
 // Searching
-- 
2.43.0


From 6455d6ba308f94e9e2f4c3954319a2faf967976c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:12 +0000
Subject: [PATCH 06/63] fix: closing a line into a ring does not write behind
 the caller's slice

---
 linearRing.go  | 2 +-
 linearRingZ.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/linearRing.go b/linearRing.go
index 6751f00..4894e52 100644
--- a/linearRing.go
+++ b/linearRing.go
@@ -22,7 +22,7 @@ func NewRingFromLine(line LineString) *LinearRing {
 		linearRing := LinearRing(line)
 		return &linearRing
 	} else {
-		line = append(line, firstPoint)
+		line = append(line[:len(line):len(line)], firstPoint)
 		linearRing := LinearRing(line)
 		return &linearRing
 	}
diff --git a/linearRingZ.go b/linearRingZ.go
index f1575f0..74495f4 100644
--- a/linearRingZ.go
+++ b/linearRingZ.go
@@ -18,7 +18,7 @@ func NewRingFromLineZ(line LineStringZ) *LinearRingZ {
 		LinearRingZ := LinearRingZ(line)
 		return &LinearRingZ
 	} else {
-		line = append(line, firstPoint)
+		line = append(line[:len(line):len(line)], firstPoint)
 		LinearRingZ := LinearRingZ(line)
 		return &LinearRingZ
 	}
-- 
2.43.0


From 83fa3ad7176800f4d32e15c643b92fefda7f292e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:12 +0000
Subject: [PATCH 07/63] fix: SplitByIndex returns independent lines

The halves shared their points, so appending to the first one overwrote the second.
---
 lineString.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lineString.go b/lineString.go
index 2d673f9..c873876 100644
--- a/lineString.go
+++ b/lineString.go
@@ -135,7 +135,7 @@ func (line LineString) GetPointSet() []Point {
 
 //从指定位置分成两条线
 func (line LineString) SplitByIndex(index int) (LineString, LineString) {
-	line1 := line[:index+1]
-	line2 := line[index:]
+	line1 := *NewLineString(line[:index+1]...)
+	line2 := *NewLineString(line[index:]...)
 	return line1, line2
 }
-- 
2.43.0


From a9859cbbbe5a9f597b239f3fdad5461906ebf15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:12 +0000
Subject: [PATCH 08/63] fix: InsertPoint at the end of a line inserts the point
 once

---
 lineString.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lineString.go b/lineString.go
index c873876..65da8ba 100644
--- a/lineString.go
+++ b/lineString.go
@@ -83,7 +83,7 @@ func (line *LineString) InsertPoint(position int, point Point) error {
 		return errors.New("line has no such position")
 	}
 	if line.GetPointCount() == position {
-		line.Append(point)
+		return line.Append(point)
 	}
 	*line = append((*line)[:position+1], (*line)[position:]...)
 	(*line)[position] = point
-- 
2.43.0


From cb83780087ee53a3851251354bd26a6261aa6f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:13 +0000
Subject: [PATCH 09/63] fix: lines of different length are not equal

A longer receiver panicked and a shorter one compared as a prefix.
---
 lineString.go  | 3 +++
 lineStringZ.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/lineString.go b/lineString.go
index 65da8ba..59a8033 100644
--- a/lineString.go
+++ b/lineString.go
@@ -109,6 +109,9 @@ func (line LineString) Length() float64 {
 
 //判断两条线是不是相同
 func (line1 LineString) Equal(line2 LineString) bool {
+	if line1.GetPointCount() != line2.GetPointCount() {
+		return false
+	}
 	for i := 0; i < line1.GetPointCount(); i++ {
 		if !line1[i].Equal(line2[i]) {
 			return false
diff --git a/lineStringZ.go b/lineStringZ.go
index dad543b..e0c1b8a 100644
--- a/lineStringZ.go
+++ b/lineStringZ.go
@@ -38,6 +38,9 @@ func (line *LineStringZ) Append(point PointZ) error {
 
 //判断两条线是不是相同
 func (line1 LineStringZ) Equal(line2 LineStringZ) bool {
+	if line1.GetPointCount() != line2.GetPointCount() {
+		return false
+	}
 	for i := 0; i < line1.GetPointCount(); i++ {
 		if !line1[i].Equal(line2[i]) {
 			return false
-- 
2.43.0


From 5444b521ac9c38177200e81c3ede9397aa2abd9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:13 +0000
Subject: [PATCH 10/63] fix: EuclideanDisZ uses its second point

---
 pointZ.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pointZ.go b/pointZ.go
index 46ff89b..8884a55 100644
--- a/pointZ.go
+++ b/pointZ.go
@@ -27,7 +27,7 @@ func (p *PointZ) SetZ(z float64) {
 }
 
 func EuclideanDisZ(p1, p2 PointZ) float64 {
-	return math.Sqrt(p1.X*p1.X + p1.Y*p1.Y + p1.Z*p1.Z)
+	return math.Sqrt((p1.X-p2.X)*(p1.X-p2.X) + (p1.Y-p2.Y)*(p1.Y-p2.Y) + (p1.Z-p2.Z)*(p1.Z-p2.Z))
 }
 
 //判断元素是否相等
-- 
2.43.0


From af0a7ad53dc494ef30feb1b6cbe20ce7e9bd0bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:13 +0000
Subject: [PATCH 11/63] fix: SridMap is initialised, SetSrid no longer panics

---
 srid.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srid.go b/srid.go
index 2ce468a..ee3df19 100644
--- a/srid.go
+++ b/srid.go
@@ -1,3 +1,3 @@
 package geo
 
-var SridMap map[interface{}]uint64
+var SridMap = map[interface{}]uint64{}
-- 
2.43.0


From aeecdd01641f0ed3b0e50f7caaa1f97ef5ab93d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:14 +0000
Subject: [PATCH 12/63] fix: IsPointOnSegment uses the segment's bounding box

BoundingBox got a pointer, which it does not know, and returned the zero box:
points on a segment or a polygon boundary were only found at the origin.
---
 relation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/relation.go b/relation.go
index 6657564..8a1f446 100644
--- a/relation.go
+++ b/relation.go
@@ -113,7 +113,7 @@ func IsPointOnLine(point Point, line LineString) bool {
 func IsPointOnSegment(p1, p2, point Point) bool {
 	//保证Q点坐标在p1,p2之间 且叉积为0
 	if (point.X-p1.X)*(p2.Y-p1.Y) == (p2.X-p1.X)*(point.Y-p1.Y) &&
-		IsPointInBox(BoundingBox(NewLineString(p1, p2)), point) {
+		IsPointInBox(BoundingBox(*NewLineString(p1, p2)), point) {
 		return true
 	}
 	return false
-- 
2.43.0


From bff41ea8d26e642c135efc3b00aa7bdd726950f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:14 +0000
Subject: [PATCH 13/63] fix: BoxToGeo returns a closed ring

---
 box.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/box.go b/box.go
index 1ba1f53..37ae51c 100644
--- a/box.go
+++ b/box.go
@@ -43,7 +43,7 @@ func BoxToGeo(b Box) Geometry {
 		//元素是条线 x坐标不同
 		return LineString{p1, p2}
 	}
-	return *NewPolygon(LinearRing{p1, p2, p3, p4})
+	return *NewPolygon(LinearRing{p1, p2, p3, p4, p1})
 }
 
 func calBox(points ...Point) *Box {
-- 
2.43.0


From 1299f24219877e7e355adc2e0d0893decc96f08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:45 +0000
Subject: [PATCH 14/63] fix: Feature.SetBoundingBox changes the feature

It had a value receiver, so the box it computed was lost.
---
 geojson/feature.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geojson/feature.go b/geojson/feature.go
index faac598..b8be919 100644
--- a/geojson/feature.go
+++ b/geojson/feature.go
@@ -29,7 +29,7 @@ func NewFeature(geometry geo.Geometry) *Feature {
 	}
 }
 
-func (f Feature) SetBoundingBox() {
+func (f *Feature) SetBoundingBox() {
 	box := geo.BoundingBox(f.Geometry)
 	f.BoundingBox = []float64{box.MinX, box.MinY, box.MaxX, box.MaxY}
 }
-- 
2.43.0


From 0bc57d23168fc89452d43183d22b9946fb67fe0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:45 +0000
Subject: [PATCH 15/63] fix: MarshalGeo encodes PolygonZ

It handed the polygon to the 2-D conversion, which rejects it.
---
 geojson/geojson.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geojson/geojson.go b/geojson/geojson.go
index 9005eb7..ef60a8a 100644
--- a/geojson/geojson.go
+++ b/geojson/geojson.go
@@ -75,7 +75,7 @@ func MarshalGeo(geom geo.Geometry) ([]byte, error) {
 		}
 	case geo.PolygonZ:
 		geoj.Type = "Polygon"
-		geoj.Coordinates, err = ConvertPathSet(geom)
+		geoj.Coordinates, err = ConvertPathZSet(geom)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 8c47e1fb82e4ae3de05d019a7612b682dd5000a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:45 +0000
Subject: [PATCH 16/63] fix: UnmarshalGeo reports malformed coordinates as
 errors

It asserted every type and indexed every position unchecked, so wrong shapes,
missing ordinates, null and a mix of 2-D and 3-D positions panicked.
---
 geojson/geojson.go | 82 +++++++++++++++++++++++++++-------------------
 1 file changed, 48 insertions(+), 34 deletions(-)

diff --git a/geojson/geojson.go b/geojson/geojson.go
index ef60a8a..96f96c7 100644
--- a/geojson/geojson.go
+++ b/geojson/geojson.go
@@ -98,26 +98,54 @@ func MarshalGeo(geom geo.Geometry) ([]byte, error) {
 }
 
 func UnmarshalGeo(gjson *GeoJson) (geo.Geometry, error) {
+	if gjson == nil {
+		return nil, errors.New("no geometry")
+	}
 	switch gjson.Type {
 	case "Point":
-		isZ := isInterPointZ(gjson.Coordinates)
-		if isZ {
+		position, err := decodePosition(gjson.Coordinates)
+		if err != nil {
+			return nil, err
+		}
+		dim, err := positionDim(position)
+		if err != nil {
+			return nil, err
+		}
+		if dim == 3 {
 			return inter2PointZ(gjson.Coordinates), nil
 		}
 		return inter2Point(gjson.Coordinates), nil
 	case "MultiPoint":
 		return nil, errors.New("Not Support MultiPoint (TODO)")
 	case "LineString":
-		isZ := isInterLineZ(gjson.Coordinates)
-		if isZ {
+		positions, err := decodePositionSet(gjson.Coordinates)
+		if err != nil {
+			return nil, err
+		}
+		dim, err := positionDim(positions...)
+		if err != nil {
+			return nil, err
+		}
+		if dim == 3 {
 			return inter2LineStringZ(gjson.Coordinates), nil
 		}
 		return inter2LineString(gjson.Coordinates), nil
 	case "MultiLineString":
 		return nil, errors.New("Not Support MultiLineString (TODO)")
 	case "Polygon":
-		isZ := isInterPolygonZ(gjson.Coordinates)
-		if isZ {
+		rings, err := decodePathSet(gjson.Coordinates)
+		if err != nil {
+			return nil, err
+		}
+		var positions [][]float64
+		for _, ring := range rings {
+			positions = append(positions, ring...)
+		}
+		dim, err := positionDim(positions...)
+		if err != nil {
+			return nil, err
+		}
+		if dim == 3 {
 			return inter2PolygonZ(gjson.Coordinates), nil
 		}
 		return inter2Polygon(gjson.Coordinates), nil
@@ -427,35 +455,21 @@ func inter2PolygonZ(data interface{}) geo.PolygonZ {
 	return polygonZ
 }
 
-// 判断坐标是否有Z值
-func isInterPointZ(data interface{}) bool {
-	vI := interface2D(data)
-	if len(vI) == 3 {
-		return true
-	}
-	return false
-}
-
-// 判断坐标是否有Z值
-func isInterLineZ(data interface{}) bool {
-	for _, points := range interface2D(data) {
-		vI := interface2D(points)
-		if len(vI) == 3 {
-			return true
+// 坐标的维数, 所有坐标维数必须一致
+func positionDim(positions ...[]float64) (int, error) {
+	dim := 2
+	for i, position := range positions {
+		if len(position) < 2 {
+			return 0, fmt.Errorf("not a valid position, got %v", position)
 		}
-	}
-	return false
-}
-
-// 判断坐标是否有Z值
-func isInterPolygonZ(data interface{}) bool {
-	for _, line := range interface2D(data) {
-		for _, v := range interface2D(line) {
-			vI := interface2D(v)
-			if len(vI) == 3 {
-				return true
-			}
+		d := 2
+		if len(position) == 3 {
+			d = 3
+		}
+		if i > 0 && d != dim {
+			return 0, errors.New("positions of different dimension")
 		}
+		dim = d
 	}
-	return false
+	return dim, nil
 }
-- 
2.43.0


From efd44db1a143b752436eb95caa453b8387948b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:03 +0000
Subject: [PATCH 17/63] fix: WKT decoding reports malformed positions as errors

Positions with too few ordinates and rings of one point panicked, positions
separated by more than one blank failed, surplus ordinates were dropped, and
rings with a non-finite corner grew with every round trip.
---
 wkt/decode.go | 81 ++++++++++++++++++++++++++-------------------------
 1 file changed, 41 insertions(+), 40 deletions(-)

diff --git a/wkt/decode.go b/wkt/decode.go
index 4b0ad79..ac0b77f 100644
--- a/wkt/decode.go
+++ b/wkt/decode.go
@@ -2,6 +2,7 @@ package wkt
 
 import (
 	"errors"
+	"math"
 	"regexp"
 	"strconv"
 	"strings"
@@ -9,24 +10,35 @@ import (
 	"github.com/hzw456/go-geo"
 )
 
-func PointFromWKT(wkt string) (geo.Geometry, error) {
-	strs := strings.Split(strings.Trim(wkt, " "), " ")
-	x, err := strconv.ParseFloat(strs[0], 64)
-	if err != nil {
-		return geo.Point{}, err
+// ordinates parses the two or three finite numbers of one position.
+func ordinates(term string) ([]float64, error) {
+	strs := strings.Fields(term)
+	if len(strs) != 2 && len(strs) != 3 {
+		return nil, errors.New("position needs two or three ordinates")
+	}
+	var res []float64
+	for _, str := range strs {
+		v, err := strconv.ParseFloat(str, 64)
+		if err != nil {
+			return nil, err
+		}
+		if math.IsNaN(v) || math.IsInf(v, 0) {
+			return nil, errors.New("ordinate is not finite")
+		}
+		res = append(res, v)
 	}
-	y, err := strconv.ParseFloat(strs[1], 64)
+	return res, nil
+}
+
+func PointFromWKT(wkt string) (geo.Geometry, error) {
+	pos, err := ordinates(wkt)
 	if err != nil {
 		return geo.Point{}, err
 	}
-	if len(strs) == 3 {
-		z, err := strconv.ParseFloat(strs[2], 64)
-		if err != nil {
-			return geo.Point{}, err
-		}
-		return geo.PointZ{x, y, z}, nil
+	if len(pos) == 3 {
+		return geo.PointZ{pos[0], pos[1], pos[2]}, nil
 	}
-	return geo.Point{x, y}, nil
+	return geo.Point{pos[0], pos[1]}, nil
 }
 
 func MultiPointFromWKT(wkt string) (geo.Geometry, error) {
@@ -37,23 +49,15 @@ func MultiPointFromWKT(wkt string) (geo.Geometry, error) {
 	var mp geo.MultiPoint
 	var mpz geo.MultiPointZ
 	for _, term := range terms {
-		strs := strings.Split(strings.TrimRight(strings.TrimLeft(term, "("), ")"), " ")
-		x, err := strconv.ParseFloat(strs[0], 64)
-		if err != nil {
-			return nil, err
-		}
-		y, err := strconv.ParseFloat(strs[1], 64)
+		term = strings.Trim(term, " ")
+		pos, err := ordinates(strings.TrimRight(strings.TrimLeft(term, "("), ")"))
 		if err != nil {
 			return nil, err
 		}
-		if len(strs) == 3 {
-			z, err := strconv.ParseFloat(strs[2], 64)
-			if err != nil {
-				return geo.Point{}, err
-			}
-			mpz.Append(geo.PointZ{x, y, z})
+		if len(pos) == 3 {
+			mpz.Append(geo.PointZ{pos[0], pos[1], pos[2]})
 		} else {
-			mp.Append(geo.Point{x, y})
+			mp.Append(geo.Point{pos[0], pos[1]})
 		}
 	}
 	if len(mp) != 0 {
@@ -72,23 +76,14 @@ func LineStringFromWKT(wkt string) (geo.Geometry, error) {
 	var linestring geo.LineString
 	var linestringZ geo.LineStringZ
 	for _, term := range terms {
-		strs := strings.Split(strings.Trim(term, " "), " ")
-		x, err := strconv.ParseFloat(strs[0], 64)
-		if err != nil {
-			return nil, err
-		}
-		y, err := strconv.ParseFloat(strs[1], 64)
+		pos, err := ordinates(term)
 		if err != nil {
 			return nil, err
 		}
-		if len(strs) == 3 {
-			z, err := strconv.ParseFloat(strs[2], 64)
-			if err != nil {
-				return geo.LineStringZ{}, err
-			}
-			linestringZ.Append(geo.PointZ{x, y, z})
-		} else if len(strs) == 2 {
-			linestring.Append(geo.Point{x, y})
+		if len(pos) == 3 {
+			linestringZ.Append(geo.PointZ{pos[0], pos[1], pos[2]})
+		} else {
+			linestring.Append(geo.Point{pos[0], pos[1]})
 		}
 	}
 	if len(linestring) > 0 {
@@ -140,9 +135,15 @@ func PolygonFromWKT(wkt string) (geo.Geometry, error) {
 		}
 		if linestring.Type() == geo.GEOMETRY_LINESTRING {
 			line := linestring.(geo.LineString)
+			if line.GetPointCount() < 2 {
+				return nil, errors.New("ring has only one point")
+			}
 			poly = append(poly, line.ToRing())
 		} else if linestring.Type() == geo.GEOMETRY_LINESTRINGZ {
 			line := linestring.(geo.LineStringZ)
+			if line.GetPointCount() < 2 {
+				return nil, errors.New("ring has only one point")
+			}
 			polyz = append(polyz, line.ToRing())
 		}
 	}
-- 
2.43.0


From 410c17722e26f249fa63cf59c757b182f0068db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:04 +0000
Subject: [PATCH 18/63] fix: WKT decoding reads every ring and part, 2-D and Z

The first match and its capture group were taken for two parts, so polygons,
multilines and multipolygons came back as their first part twice; Z positions
and, in multipolygons, exponents did not match at all.
---
 wkt/decode.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/wkt/decode.go b/wkt/decode.go
index ac0b77f..6430003 100644
--- a/wkt/decode.go
+++ b/wkt/decode.go
@@ -97,8 +97,8 @@ func LineStringFromWKT(wkt string) (geo.Geometry, error) {
 }
 
 func MultiLineStringFromWKT(wkt string) (geo.Geometry, error) {
-	re := regexp.MustCompile(`(\ *[(]\ *(?:\ *(?:[0-9-.Ee]+[ ]+[0-9-.Ee]+)[, ]*\ *)*\ *[)])[, ]*`)
-	matches := re.FindStringSubmatch(wkt)
+	re := regexp.MustCompile(`[(][^()]*[)]`)
+	matches := re.FindAllString(wkt, -1)
 	var ml geo.MultiLineString
 	var mlz geo.MultiLineStringZ
 	for _, v := range matches {
@@ -124,8 +124,8 @@ func MultiLineStringFromWKT(wkt string) (geo.Geometry, error) {
 }
 
 func PolygonFromWKT(wkt string) (geo.Geometry, error) {
-	re := regexp.MustCompile(`(\ *[(]\ *(?:\ *(?:[0-9-.Ee]+[ ]+[0-9-.Ee]+)[, ]*\ *)*\ *[)])[, ]*`)
-	matches := re.FindStringSubmatch(wkt)
+	re := regexp.MustCompile(`[(][^()]*[)]`)
+	matches := re.FindAllString(wkt, -1)
 	var poly geo.Polygon
 	var polyz geo.PolygonZ
 	for _, v := range matches {
@@ -157,8 +157,8 @@ func PolygonFromWKT(wkt string) (geo.Geometry, error) {
 }
 
 func MultiPolygonFromWKT(wkt string) (geo.Geometry, error) {
-	re := regexp.MustCompile(`([(](?:\ *[(]\ *(?:\ *(?:[0-9-.]+[ ]+[0-9-.]+)[, ]*\ *)*\ *[)][, ]*)*[)])`)
-	matches := re.FindStringSubmatch(wkt)
+	re := regexp.MustCompile(`[(](?:[^()]*[(][^()]*[)])+[^()]*[)]`)
+	matches := re.FindAllString(wkt, -1)
 	var multiPoly geo.MultiPolygon
 	var multiPolyZ geo.MultiPolygonZ
 	for _, v := range matches {
-- 
2.43.0


From d442e2e6dbf6858c38de26e56afece85a0c77611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:12 +0000
Subject: [PATCH 19/63] fix: SegmentRelation tells touching from disjoint
 segments

Collinear segments were reported as touching however far apart, and an endpoint
in the middle of the other segment as disjoint.
---
 relation.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/relation.go b/relation.go
index 8a1f446..534fd34 100644
--- a/relation.go
+++ b/relation.go
@@ -9,7 +9,12 @@ func SegmentRelation(seg1, seg2 LineSegment) GeometryRealation {
 	crss1 := r.Cross(*s)
 	crss2 := q_p.Cross(*r)
 	if crss1 == 0 && crss2 == 0 {
-		return RELA_TOUCH
+		//共线时只有有公共点才是相接
+		if IsPointOnSegment(seg1.Start, seg1.End, seg2.Start) || IsPointOnSegment(seg1.Start, seg1.End, seg2.End) ||
+			IsPointOnSegment(seg2.Start, seg2.End, seg1.Start) || IsPointOnSegment(seg2.Start, seg2.End, seg1.End) {
+			return RELA_TOUCH
+		}
+		return RELA_DISJOINT
 	} else if crss1 == 0 && crss2 != 0 {
 		return RELA_DISJOINT
 	} else if crss1 != 0 {
@@ -19,7 +24,7 @@ func SegmentRelation(seg1, seg2 LineSegment) GeometryRealation {
 		if res1 > 0 && res1 < 1 && res2 > 0 && res2 < 1 {
 			return RELA_INTERSECT
 		}
-		if (res1 == 0 || res1 == 1) && (res2 == 0 || res2 == 1) {
+		if res1 >= 0 && res1 <= 1 && res2 >= 0 && res2 <= 1 {
 			return RELA_TOUCH
 		}
 	}
-- 
2.43.0


From 7ebb0ff140860d032c0066e44ebac654fd58e9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:12 +0000
Subject: [PATCH 20/63] fix: polygon relations consider the closing edge

The loops stopped one edge short of the ring's last point.
---
 relation.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/relation.go b/relation.go
index 534fd34..b6d8d4f 100644
--- a/relation.go
+++ b/relation.go
@@ -35,7 +35,7 @@ func SegPolyRelation(seg LineSegment, poly Polygon) GeometryRealation {
 	lr := poly.GetExteriorRing()
 	pointCount := lr.GetPointCount()
 	isPointOnBoundary := false
-	for i := 0; i < pointCount-2; i++ {
+	for i := 0; i < pointCount-1; i++ {
 		pntStart := lr[i]
 		pntEnd := lr[i+1]
 		relation := SegmentRelation(LineSegment{pntStart, pntEnd}, seg)
@@ -81,7 +81,7 @@ func LinearPolyRelation(line LinearRing, poly Polygon) GeometryRealation {
 	//对环进行打断，去掉最后一个点
 	pointCount := line.GetPointCount()
 	curRelation := RELA_UNKNOWN
-	for i := 0; i < pointCount-2; i++ {
+	for i := 0; i < pointCount-1; i++ {
 		Start := line[i]
 		End := line[i+1]
 		relation := SegPolyRelation(LineSegment{Start, End}, poly)
-- 
2.43.0


From 6e60df53bd973b12f93f43b60b926cfabe081c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:13 +0000
Subject: [PATCH 21/63] fix: SelfIntersect considers the closing edge

---
 polygon.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polygon.go b/polygon.go
index 273e699..388a4fe 100644
--- a/polygon.go
+++ b/polygon.go
@@ -85,7 +85,7 @@ func (poly Polygon) SelfIntersect() bool {
 	for i := 0; i < pointCount-1; i++ {
 		srcV0 := exRing[i]
 		srcV1 := exRing[(i+1)%pointCount]
-		for j := i + 1; j < pointCount-2; j++ {
+		for j := i + 1; j < pointCount-1; j++ {
 			dstV0 := exRing[j]
 			dstV1 := exRing[j+1]
 			relation := SegmentRelation(LineSegment{srcV0, srcV1}, LineSegment{dstV0, dstV1})
-- 
2.43.0


From 5ac2f5b208f1beb839a79b130daa3f7636ce741f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:13 +0000
Subject: [PATCH 22/63] fix: Polygon.Verify takes x as longitude and y as
 latitude

The ranges were swapped, so polygons east of 90 degrees were invalid.
---
 polygon.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polygon.go b/polygon.go
index 388a4fe..00ca895 100644
--- a/polygon.go
+++ b/polygon.go
@@ -65,7 +65,7 @@ func (p *Polygon) Verify() error {
 		return errors.New("polygon invaild, point less than 3")
 	}
 	for i := 0; i < ptCount; i++ {
-		if extring[i].X > 90.0 || extring[i].X < -90 || extring[i].Y > 180.0 || extring[i].Y < -180.0 {
+		if extring[i].Y > 90.0 || extring[i].Y < -90 || extring[i].X > 180.0 || extring[i].X < -180.0 {
 			return errors.New("lnglat invaild, lat[-90,90] lng[-180,180]")
 		}
 	}
-- 
2.43.0


From c34c6dd36fb0fdf16137c1f42f031090e46c9e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:13 +0000
Subject: [PATCH 23/63] fix: ConvexHull sorts a copy around a fixed pivot

It sorted the caller's points in place, and its comparison read the pivot from
position 0 of the slice while sort moved it, so hulls of more than 12 points
were often wrong and some point sets emptied the stack and panicked.
---
 convexhull.go | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/convexhull.go b/convexhull.go
index 7ef65da..89bf436 100644
--- a/convexhull.go
+++ b/convexhull.go
@@ -17,11 +17,25 @@ func (p hullPts) Swap(i, j int) {
 }
 
 func (p hullPts) Less(i, j int) bool {
-	area := Area2(p[0], p[i], p[j])
+	return angleLess(p[0], p[i], p[j])
+}
+
+//hullPts sorted around a pivot that is not one of them
+type pivotPts struct {
+	hullPts
+	pivot Point
+}
+
+func (p pivotPts) Less(i, j int) bool {
+	return angleLess(p.pivot, p.hullPts[i], p.hullPts[j])
+}
+
+func angleLess(pivot, a, b Point) bool {
+	area := Area2(pivot, a, b)
 
 	if area == 0 {
-		x := math.Abs(p[i].X-p[0].X) - math.Abs(p[j].X-p[0].X)
-		y := math.Abs(p[i].Y-p[0].Y) - math.Abs(p[j].Y-p[0].Y)
+		x := math.Abs(a.X-pivot.X) - math.Abs(b.X-pivot.X)
+		y := math.Abs(a.Y-pivot.Y) - math.Abs(b.Y-pivot.Y)
 
 		if x < 0 || y < 0 {
 			return true
@@ -50,15 +64,20 @@ func ConvexHull(pts ...Point) Polygon {
 	if len(pts) < 3 {
 		return nil
 	}
-	points := hullPts(pts)
+	points := append(hullPts(nil), pts...)
 	var stack hullPts
 	points.FindLowestPoint()
-	sort.Sort(&points)
+	sort.Sort(pivotPts{points[1:], points[0]})
 	stack = append(stack, points[0])
 	stack = append(stack, points[1])
 	i := 2
 	for i < len(points) {
 		pi := points[i]
+		if len(stack) < 2 {
+			stack = append(stack, pi)
+			i++
+			continue
+		}
 
 		p1 := stack[len(stack)-2]
 		p2 := stack[len(stack)-1]
-- 
2.43.0


From f207e2177008e1ba008cc9e78fed82e248774bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:13 +0000
Subject: [PATCH 24/63] fix: Mbr tries the directions of the hull edges

It used the segments between consecutive input points, none of which need be
an edge of the hull, so the rectangle depended on their order and was not minimal.
---
 mbr.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mbr.go b/mbr.go
index 9219884..79aa0f3 100644
--- a/mbr.go
+++ b/mbr.go
@@ -32,10 +32,11 @@ func Mbr(geom Geometry) Polygon {
 	}
 	minArea := math.MaxFloat64
 	minAngle := 0.0
-	ci := coords[0]
+	ring := convexHull.GetExteriorRing()
+	ci := ring[0]
 	var ssr Geometry
-	for i := 0; i < len(coords)-1; i++ {
-		cii := coords[i+1]
+	for i := 0; i < len(ring)-1; i++ {
+		cii := ring[i+1]
 		angle := math.Atan2(cii.Y-ci.Y, cii.X-ci.X)
 		rect := BoundingBox(RotateCW(convexHull, cpt, angle))
 		area := GetArea(BoxToGeo(*rect))
-- 
2.43.0


From 60c87c3c23c0a128869ede6c0ddfcf3129df23a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:14 +0000
Subject: [PATCH 25/63] fix: Mbr of a geometry below the rotation resolution
 does not panic

---
 mbr.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mbr.go b/mbr.go
index 79aa0f3..798cd8a 100644
--- a/mbr.go
+++ b/mbr.go
@@ -47,6 +47,10 @@ func Mbr(geom Geometry) Polygon {
 		}
 		ci = cii
 	}
+	//小于旋转精度的图形没有矩形
+	if _, ok := ssr.(Polygon); !ok {
+		return nil
+	}
 	polyGeo := RotateCCW(ssr, cpt, minAngle)
 	if polyGeo == nil {
 		return nil
-- 
2.43.0


From cb7567a133561bf70e1448e540bd714b8b7ce24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:14 +0000
Subject: [PATCH 26/63] fix: DouglasPeuckerSimplify leaves its argument alone

It deleted the points within the caller's slice.
---
 simplify.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/simplify.go b/simplify.go
index 95a300a..d813aa0 100644
--- a/simplify.go
+++ b/simplify.go
@@ -8,6 +8,7 @@ import (
 func DouglasPeuckerSimplify(line LineString, threshold float64, srid SRID) LineString {
 	///获取需要删除的点的序号
 	delIndexs := dpWorker(line, threshold, srid)
+	line = *NewLineString(line...)
 	//排序，从后往前删
 	sort.Sort(sort.Reverse(sort.IntSlice(delIndexs)))
 
-- 
2.43.0


From 2c059ebe26823aa9e7fcdcfb4699f70048708d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:14 +0000
Subject: [PATCH 27/63] fix: distance to a segment of zero length is the
 distance to its point

It was NaN, which also made DouglasPeuckerSimplify drop every inner point of a
closed line.
---
 calcaulation.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/calcaulation.go b/calcaulation.go
index 1fc39e7..5856f9c 100644
--- a/calcaulation.go
+++ b/calcaulation.go
@@ -128,6 +128,10 @@ func EuclideanDistance(p1 Point, p2 Point) float64 {
 func PointToSegmentDistance(point, p1, p2 Point, srid SRID) (float64, Point) {
 	var xDelta float64 = p2.X - p1.X
 	var yDelta float64 = p2.Y - p1.Y
+	//退化为点的线段
+	if xDelta*xDelta+yDelta*yDelta == 0 {
+		return PointDistance(point, p1, srid), p1
+	}
 
 	var u float64 = ((point.X-p1.X)*xDelta + (point.Y-p1.Y)*yDelta) / (xDelta*xDelta + yDelta*yDelta)
 
@@ -148,6 +152,10 @@ func PointToSegmentDistance(point, p1, p2 Point, srid SRID) (float64, Point) {
 func PointToLineDistance(point, p1, p2 Point, srid SRID) (float64, Point, float64) {
 	var xDelta float64 = p2.X - p1.X
 	var yDelta float64 = p2.Y - p1.Y
+	//退化为点的线段
+	if xDelta*xDelta+yDelta*yDelta == 0 {
+		return PointDistance(point, p1, srid), p1, 0
+	}
 	var u float64 = ((point.X-p1.X)*xDelta + (point.Y-p1.Y)*yDelta) / (xDelta*xDelta + yDelta*yDelta)
 
 	var closestPointOnLine Point
-- 
2.43.0


From 99e7f68af8e7bb10542c37c5e35356b3047c2629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:15 +0000
Subject: [PATCH 28/63] fix: CoordDistance of antipodal points is not NaN

---
 point.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/point.go b/point.go
index 2c0e1e2..add40ed 100644
--- a/point.go
+++ b/point.go
@@ -47,7 +47,7 @@ func CoordDistance(p1, p2 Point) float64 {
 	lat2 := p2.Y * math.Pi / 180.0
 	lng2 := p2.X * math.Pi / 180.0
 	a := math.Pow(math.Sin((lat2-lat1)/2), 2) + math.Cos(lat1)*math.Cos(lat2)*math.Pow(math.Sin((lng2-lng1)/2), 2)
-	return 2 * math.Atan2(math.Sqrt(a), math.Sqrt(1-a)) * EARTHRADIUSMI
+	return 2 * math.Atan2(math.Sqrt(a), math.Sqrt(math.Max(0, 1-a))) * EARTHRADIUSMI
 }
 
 func CoordGreateCircle(p1, p2 Point) float64 {
-- 
2.43.0


From d4b419f15c46cf85a49274c43e73bcd659dd4105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:15 +0000
Subject: [PATCH 29/63] fix: CoordGreateCircle of near points is neither NaN
 nor imprecise

For coincident points the argument of acos often exceeds 1 by rounding (NaN),
or falls short of it, which reported a distance of some 10 cm.
---
 point.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/point.go b/point.go
index add40ed..587451c 100644
--- a/point.go
+++ b/point.go
@@ -55,7 +55,11 @@ func CoordGreateCircle(p1, p2 Point) float64 {
 	lng1 := p1.X * math.Pi / 180.0
 	lat2 := p2.Y * math.Pi / 180.0
 	lng2 := p2.X * math.Pi / 180.0
-	return math.Acos(math.Sin(lat1)*math.Sin(lat2)+math.Cos(lat1)*math.Cos(lat2)*math.Cos(lng2-lng1)) * EARTHRADIUSMI
+	//acos在距离很近时误差很大，且参数可能超过1，所以用atan2
+	x := math.Cos(lat2) * math.Sin(lng2-lng1)
+	y := math.Cos(lat1)*math.Sin(lat2) - math.Sin(lat1)*math.Cos(lat2)*math.Cos(lng2-lng1)
+	c := math.Sin(lat1)*math.Sin(lat2) + math.Cos(lat1)*math.Cos(lat2)*math.Cos(lng2-lng1)
+	return math.Atan2(math.Sqrt(x*x+y*y), c) * EARTHRADIUSMI
 }
 
 // 根据距离和方位角进行下一个点的计算，TODO
-- 
2.43.0


From 8860e0031f96245c6c38a1446f81e95bf1bd6060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:15 +0000
Subject: [PATCH 30/63] fix: DestinationPoint at a pole is not NaN

---
 point.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/point.go b/point.go
index 587451c..756d822 100644
--- a/point.go
+++ b/point.go
@@ -79,7 +79,7 @@ func DestinationPoint(lat, lon, distance, bearing float64) (float64, float64) {
 	var λ1 = toRadians(lon)
 
 	sinφ2 := math.Sin(φ1)*math.Cos(δ) + math.Cos(φ1)*math.Sin(δ)*math.Cos(θ)
-	φ2 := math.Asin(sinφ2)
+	φ2 := math.Asin(math.Max(-1, math.Min(1, sinφ2)))
 	y := math.Sin(θ) * math.Sin(δ) * math.Cos(φ1)
 	x := math.Cos(δ) - math.Sin(φ1)*math.Sin(φ2)
 	λ2 := λ1 + math.Atan2(y, x)
-- 
2.43.0


From f3febdc37de7253b6cd5656e0d9fcf3d457d536a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:16 +0000
Subject: [PATCH 31/63] fix: CacConvex recognises straight angles

The sine of a computed straight angle is not 0, so they counted as concave.
---
 calcaulation.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/calcaulation.go b/calcaulation.go
index 5856f9c..38df34d 100644
--- a/calcaulation.go
+++ b/calcaulation.go
@@ -97,12 +97,11 @@ func pointsCenteriod(points ...Point) Point {
 
 //计算顶点的凹凸性 先计算待处理点与相邻点的两个向量，再计算两向量的叉乘，根据求得结果的正负可以判断凹凸性。 0代表凸顶点，1代表凹顶点，2代表平角
 func CacConvex(p1, p2, p3 Point) (int8, error) {
-	//直接采用算sin theata 来判断凹凸性
-	theata, err := CacAngle(p1, p2, p3)
-	if err != nil {
+	if _, err := CacAngle(p1, p2, p3); err != nil {
 		return -1, err
 	}
-	res := math.Sin(theata)
+	//sin(pi)不等于0，所以用叉积的正负来判断凹凸性
+	res := ConvertPointToVector(p2, p1).Cross(*ConvertPointToVector(p2, p3))
 	if res < 0 {
 		return 0, nil
 	} else if res > 0 {
-- 
2.43.0


From 462c3c2e31b7f5ed28b230f5e502ecf2604a0034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:16 +0000
Subject: [PATCH 32/63] fix: S2RegionCoverer does not reverse the caller's ring

---
 googleS2.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/googleS2.go b/googleS2.go
index 25499ff..e862d65 100644
--- a/googleS2.go
+++ b/googleS2.go
@@ -50,7 +50,7 @@ func S2GetAllNeighbors(cellID uint64, srid SRID) []uint64 {
 
 func S2RegionCoverer(poly Polygon, level int, srid SRID) []uint64 {
 	if poly.IsCCW() {
-		pois := poly.GetExteriorRing().GetPointSet()
+		pois := NewLineString(poly.GetExteriorPoints()...).GetPointSet()
 		for i, j := 0, len(pois)-1; i < j; i, j = i+1, j-1 {
 			pois[i], pois[j] = pois[j], pois[i]
 		}
-- 
2.43.0


From 2bf5f4d49ed129852c81d396cead80eff5b3ca53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:47 +0000
Subject: [PATCH 33/63] fix: UTM zone of longitude 180 is 1

It was 61, which ToLatLon rejects.
---
 utm.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/utm.go b/utm.go
index 30233e8..145caa8 100755
--- a/utm.go
+++ b/utm.go
@@ -187,6 +187,10 @@ func FromLatLon(latitude, longitude float64, northern bool) (easting, northing f
 	if err != nil {
 		return
 	}
+	// both are the same meridian, there is no zone 61
+	if longitude == 180 {
+		longitude = -180
+	}
 
 	latRad := rad(latitude)
 	latSin := math.Sin(latRad)
-- 
2.43.0


From 84a9e52c3cc2ebf8bafd2e70db22be24f8622633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:47 +0000
Subject: [PATCH 34/63] fix: UTM band of latitude 84 is X

It was a blank, which ToLatLon rejects.
---
 utm.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/utm.go b/utm.go
index 145caa8..e3eff5c 100755
--- a/utm.go
+++ b/utm.go
@@ -46,7 +46,6 @@ func rad(d float64) float64 { return d * x }
 func deg(r float64) float64 { return r / x }
 
 var zoneLetters = []zoneLetter{
-	{84, " "},
 	{72, "X"},
 	{64, "W"},
 	{56, "V"},
-- 
2.43.0


From fcd041a6da377f3f747be7ab6c03d05b50437e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:48 +0000
Subject: [PATCH 35/63] fix: the equator is reported as northern UTM hemisphere

Its northing has no false northing, so decoding it as southern was 90 degrees off.
---
 utm.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utm.go b/utm.go
index e3eff5c..5a630f0 100755
--- a/utm.go
+++ b/utm.go
@@ -205,7 +205,7 @@ func FromLatLon(latitude, longitude float64, northern bool) (easting, northing f
 
 	if northern {
 		// N north, S south
-		if latitude > 0 {
+		if latitude >= 0 {
 			zoneLetter = "N"
 		} else {
 			zoneLetter = "S"
-- 
2.43.0


From f843913409a8cf740b1ec00969df70d739fa1dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:48 +0000
Subject: [PATCH 36/63] fix: inverse UTM projection uses e'^2 and scales its
 sixth-order term

C is e'^2*cos^2(phi), and the D^6 term belongs inside the bracket multiplied
by N*tan(phi)/R. The latitude was off by up to 3 cm in standard zones.
---
 utm.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/utm.go b/utm.go
index 5a630f0..8a12bbc 100755
--- a/utm.go
+++ b/utm.go
@@ -142,7 +142,7 @@ func ToLatLon(easting, northing float64, zoneNumber int, zoneLetter string, nort
 	n := r / epSinSqrt
 	rad := (1 - e) / epSin
 
-	c := fe * pCos * pCos
+	c := eP2 * pCos * pCos
 	c2 := c * c
 
 	d := x / (n * k0)
@@ -154,8 +154,8 @@ func ToLatLon(easting, northing float64, zoneNumber int, zoneLetter string, nort
 
 	latitude = pRad - (pTan/rad)*
 		(d2/2-
-			d4/24*(5+3*pTan2+10*c-4*c2-9*eP2)) +
-		d6/720*(61+90*pTan2+298*c+45*pTan4-252*eP2-3*c2)
+			d4/24*(5+3*pTan2+10*c-4*c2-9*eP2)+
+			d6/720*(61+90*pTan2+298*c+45*pTan4-252*eP2-3*c2))
 
 	longitude = (d -
 		d3/6*(1+2*pTan2+c) +
-- 
2.43.0


From 694788c15db3ad567fe5fdb175dab61ef2369e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:07 +0000
Subject: [PATCH 37/63] fix: asking for zero nearest neighbours of a deep index
 does not panic

---
 rtree.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rtree.go b/rtree.go
index 010bdb1..ae8c0c7 100644
--- a/rtree.go
+++ b/rtree.go
@@ -805,6 +805,9 @@ func (p *Point) minDist(r *Box) float64 {
 
 // NearestNeighbors gets the closest Spatials to the Point.
 func (tree *Rtree) NearestNeighbors(k int, p Point) []Spatial {
+	if k <= 0 {
+		return []Spatial{}
+	}
 	maxBufSize := tree.MaxChildren * tree.Depth()
 	branches := make([]entry, maxBufSize)
 	branchDists := make([]float64, maxBufSize)
-- 
2.43.0


From d8c2d95bf99f161a41a4545c4fbe98f27352690b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:50 +0000
Subject: [PATCH 38/63] fix: a line's relation to a polygon does not depend on
 its direction

---
 relation.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/relation.go b/relation.go
index b6d8d4f..4e023ec 100644
--- a/relation.go
+++ b/relation.go
@@ -60,6 +60,23 @@ func SegPolyRelation(seg LineSegment, poly Polygon) GeometryRealation {
 	return RELA_UNKNOWN
 }
 
+//多段线的关系取各段中等级最高的，与段的顺序无关
+func relationRank(relation GeometryRealation) int {
+	switch relation {
+	case RELA_DISJOINT:
+		return 0
+	case RELA_CONTAIN:
+		return 1
+	case RELA_UNKNOWN:
+		return 2
+	case RELA_TOUCH:
+		return 3
+	case RELA_COVER:
+		return 4
+	}
+	return 5
+}
+
 func LinePolyRelation(line LineString, poly Polygon) GeometryRealation {
 	pointCount := line.GetPointCount()
 	curRelation := RELA_UNKNOWN
@@ -70,7 +87,7 @@ func LinePolyRelation(line LineString, poly Polygon) GeometryRealation {
 		if relation == RELA_INTERSECT {
 			return RELA_INTERSECT
 		}
-		if curRelation == RELA_UNKNOWN || curRelation == RELA_CONTAIN || curRelation == RELA_DISJOINT {
+		if i == 0 || relationRank(relation) > relationRank(curRelation) {
 			curRelation = relation
 		}
 	}
@@ -88,7 +105,7 @@ func LinearPolyRelation(line LinearRing, poly Polygon) GeometryRealation {
 		if relation == RELA_INTERSECT {
 			return RELA_INTERSECT
 		}
-		if curRelation == RELA_UNKNOWN || curRelation == RELA_CONTAIN || curRelation == RELA_DISJOINT {
+		if i == 0 || relationRank(relation) > relationRank(curRelation) {
 			curRelation = relation
 		}
 	}
-- 
2.43.0


From 801b178e6179122a6a9168e1c2d7bdf679bec13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:31 +0000
Subject: [PATCH 39/63] fix: hull of repeated points is convex

Two equal points are neither a left nor a right turn, so a repeated point
below a farther one on the last ray was never removed.
---
 convexhull.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/convexhull.go b/convexhull.go
index 89bf436..0d30d53 100644
--- a/convexhull.go
+++ b/convexhull.go
@@ -68,6 +68,17 @@ func ConvexHull(pts ...Point) Polygon {
 	var stack hullPts
 	points.FindLowestPoint()
 	sort.Sort(pivotPts{points[1:], points[0]})
+	//重复的点排在一起，只留一个
+	uniq := points[:1]
+	for _, p := range points[1:] {
+		if p != uniq[len(uniq)-1] {
+			uniq = append(uniq, p)
+		}
+	}
+	points = uniq
+	if len(points) < 3 {
+		return nil
+	}
 	stack = append(stack, points[0])
 	stack = append(stack, points[1])
 	i := 2
-- 
2.43.0


From 9f58a6fece5d81c38b1dca950cfdb61096779230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:31 +0000
Subject: [PATCH 40/63] fix: hull whose first and last vertices are close is
 closed

---
 convexhull.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/convexhull.go b/convexhull.go
index 0d30d53..742b067 100644
--- a/convexhull.go
+++ b/convexhull.go
@@ -103,7 +103,8 @@ func ConvexHull(pts ...Point) Polygon {
 	if len(stack) < 3 {
 		return nil
 	}
-	return *NewPolygonFromPois(stack...)
+	//显式闭合，首尾点很近时NewPolygonFromPois认为环已闭合
+	return Polygon{LinearRing(append(stack, stack[0]))}
 }
 
 func isLeft(p0, p1, p2 Point) bool {
-- 
2.43.0


From 15e67c8a708fdfea4cee7b5173a0edcc19d40594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:49 +0000
Subject: [PATCH 41/63] fix: ConvexHull decides turns exactly

Rounding made the sort and the scan contradict each other on nearly
collinear points such as tenths, and vertices far from the remaining hull
were lost.
---
 convexhull.go | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/convexhull.go b/convexhull.go
index 742b067..eeece23 100644
--- a/convexhull.go
+++ b/convexhull.go
@@ -2,6 +2,7 @@ package geo
 
 import (
 	"math"
+	"math/big"
 	"sort"
 )
 
@@ -31,7 +32,7 @@ func (p pivotPts) Less(i, j int) bool {
 }
 
 func angleLess(pivot, a, b Point) bool {
-	area := Area2(pivot, a, b)
+	area := turn(pivot, a, b)
 
 	if area == 0 {
 		x := math.Abs(a.X-pivot.X) - math.Abs(b.X-pivot.X)
@@ -108,7 +109,31 @@ func ConvexHull(pts ...Point) Polygon {
 }
 
 func isLeft(p0, p1, p2 Point) bool {
-	return Area2(p0, p1, p2) >= 0
+	return turn(p0, p1, p2) >= 0
+}
+
+//精确的转向：1左转，-1右转，0共线。浮点误差可能影响符号时用有理数计算，否则排序和扫描的判断会互相矛盾
+func turn(a, b, c Point) int {
+	if a == b || b == c || a == c {
+		return 0
+	}
+	l, r := (b.X-a.X)*(c.Y-a.Y), (c.X-a.X)*(b.Y-a.Y)
+	area := l - r
+	if err := 4e-16 * (math.Abs(l) + math.Abs(r)); math.Abs(area) <= err && !math.IsInf(err, 0) {
+		diff := func(x, y float64) *big.Rat {
+			d := new(big.Rat).SetFloat64(x)
+			return d.Sub(d, new(big.Rat).SetFloat64(y))
+		}
+		left := diff(b.X, a.X)
+		right := diff(c.X, a.X)
+		return left.Mul(left, diff(c.Y, a.Y)).Cmp(right.Mul(right, diff(b.Y, a.Y)))
+	}
+	if area > 0 {
+		return 1
+	} else if area < 0 {
+		return -1
+	}
+	return 0
 }
 
 func Area2(a, b, c Point) float64 {
-- 
2.43.0


From 4312439f9f9ed8dfbdb0fdacd6dc8bb55dea45d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:38 +0000
Subject: [PATCH 42/63] fix: S2 neighbours of a cell at a cube corner are
 listed once

AllNeighbors of the s2 library repeats a neighbour of a cell that touches a
face vertex; S2GetAllNeighbors passed the duplicates on.
---
 googleS2.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/googleS2.go b/googleS2.go
index e862d65..6aef262 100644
--- a/googleS2.go
+++ b/googleS2.go
@@ -39,7 +39,13 @@ func S2GetAllNeighbors(cellID uint64, srid SRID) []uint64 {
 	var cellIDsInt []uint64
 	if srid == SRID_WGS84_GPS {
 		cellIDs := cellIDS2.AllNeighbors(cellIDS2.Level())
+		//靠近立方体顶点的格子，s2会重复返回同一个邻居
+		seen := make(map[s2.CellID]bool, len(cellIDs))
 		for _, cellID := range cellIDs {
+			if seen[cellID] {
+				continue
+			}
+			seen[cellID] = true
 			cellIDsInt = append(cellIDsInt, uint64(cellID))
 		}
 
-- 
2.43.0


From 58df09699280b5793e7ba4502056081d23e70408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:47 +0000
Subject: [PATCH 43/63] fix: S2RegionCoverer gives no cell for other reference
 systems

The other S2 functions already do; planar coordinates were read as degrees.
---
 googleS2.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/googleS2.go b/googleS2.go
index 6aef262..fdf1a00 100644
--- a/googleS2.go
+++ b/googleS2.go
@@ -55,6 +55,9 @@ func S2GetAllNeighbors(cellID uint64, srid SRID) []uint64 {
 }
 
 func S2RegionCoverer(poly Polygon, level int, srid SRID) []uint64 {
+	if srid != SRID_WGS84_GPS {
+		return []uint64{}
+	}
 	if poly.IsCCW() {
 		pois := NewLineString(poly.GetExteriorPoints()...).GetPointSet()
 		for i, j := 0, len(pois)-1; i < j; i, j = i+1, j-1 {
-- 
2.43.0


From d83f4238c8efd0a9b958781837a6edb35d8ce3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:09 +0000
Subject: [PATCH 44/63] fix: bounding boxes are wrong for coordinates beyond
 2^31

---
 box.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/box.go b/box.go
index 37ae51c..269f5f9 100644
--- a/box.go
+++ b/box.go
@@ -47,7 +47,10 @@ func BoxToGeo(b Box) Geometry {
 }
 
 func calBox(points ...Point) *Box {
-	var minX, minY, maxX, maxY float64 = INF, INF, -INF, -INF
+	if len(points) == 0 {
+		return &Box{INF, INF, -INF, -INF}
+	}
+	minX, minY, maxX, maxY := math.Inf(1), math.Inf(1), math.Inf(-1), math.Inf(-1)
 	for _, v := range points {
 		if minX > v.X {
 			minX = v.X
-- 
2.43.0


From 8f5a1d670d98769ba661cdd8c983d2c12e037262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:10 +0000
Subject: [PATCH 45/63] fix: nearest point of a line or polygon farther away
 than 2^31 is not found

---
 calcaulation.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/calcaulation.go b/calcaulation.go
index 38df34d..e1a16aa 100644
--- a/calcaulation.go
+++ b/calcaulation.go
@@ -232,7 +232,7 @@ func PointPolygonDistance(p Point, poly Polygon, srid SRID) float64 {
 
 		segmentDistance, _ := PointToSegmentDistance(p, previousPoint, currentPoint, srid)
 
-		if segmentDistance < distance {
+		if i == 0 || segmentDistance < distance {
 			distance = segmentDistance
 		}
 	}
@@ -250,7 +250,7 @@ func PointHitLineString(p Point, line LineString, srid SRID) (Point, int, float6
 
 		segmentDistance, tempPt := PointToSegmentDistance(p, previousPoint, currentPoint, srid)
 
-		if segmentDistance < distance {
+		if i == 0 || segmentDistance < distance {
 			distance = segmentDistance
 			nearestIndex = i
 			nearestPt = tempPt
-- 
2.43.0


From 075fea18a773db9ce2743045ff69ea164c024736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:10 +0000
Subject: [PATCH 46/63] fix: Hausdorff distances beyond 2^31 are reported as 0

---
 calcaulation.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/calcaulation.go b/calcaulation.go
index e1a16aa..4641115 100644
--- a/calcaulation.go
+++ b/calcaulation.go
@@ -289,26 +289,26 @@ func HausdorffDistance(line1, line2 LineString, srid SRID) float64 {
 	}
 	maxDis := 0.0
 	for _, pt1 := range line1 {
-		minDis := INF
+		minDis := math.Inf(1)
 		for _, pt2 := range line2 {
 			d := PointDistance(pt1, pt2, srid)
 			if minDis > d {
 				minDis = d
 			}
 		}
-		if maxDis < minDis && minDis != INF {
+		if maxDis < minDis {
 			maxDis = minDis
 		}
 	}
 	for _, pt1 := range line2 {
-		minDis := INF
+		minDis := math.Inf(1)
 		for _, pt2 := range line1 {
 			d := PointDistance(pt1, pt2, srid)
 			if minDis > d {
 				minDis = d
 			}
 		}
-		if maxDis < minDis && minDis != INF {
+		if maxDis < minDis {
 			maxDis = minDis
 		}
 	}
-- 
2.43.0


From a1631ba27e299a577299576b6896f22186421641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:20 +0000
Subject: [PATCH 47/63] fix: inserting into an index crashes when box areas
 overflow

---
 rtree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rtree.go b/rtree.go
index ae8c0c7..7ba62ab 100644
--- a/rtree.go
+++ b/rtree.go
@@ -319,7 +319,7 @@ func (tree *Rtree) chooseNode(n *node, e entry, level int) *node {
 	for _, en := range n.entries {
 		bb := en.bb.Union(e.bb)
 		d := bb.Size() - en.bb.Size()
-		if d < diff || (d == diff && en.bb.Size() < chosen.bb.Size()) {
+		if chosen.child == nil || d < diff || (d == diff && en.bb.Size() < chosen.bb.Size()) {
 			diff = d
 			chosen = en
 		}
-- 
2.43.0


From 3eeb3691c70d7281fca7251d848b8c749d71e45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:12 +0000
Subject: [PATCH 48/63] fix: points far outside a polygon are reported inside
 near the height of almost level edges

---
 contain.go | 17 +----------------
 1 file changed, 1 insertion(+), 16 deletions(-)

diff --git a/contain.go b/contain.go
index 6eb0d0f..4b12474 100644
--- a/contain.go
+++ b/contain.go
@@ -1,20 +1,5 @@
 package geo
 
-import "math"
-
-// const delta float64 = 1e-6
-
-func dcmp(x float64) int {
-	if math.Abs(x) < COORDPRESION {
-		return 0
-	} else if x > 0 {
-		return 1
-	} else if x < 0 {
-		return -1
-	}
-	return 0
-}
-
 //rebuild by hzw
 func IsPointInPolygon(point Point, poly Polygon) GeometryRealation {
 	isIn := false
@@ -29,7 +14,7 @@ func IsPointInPolygon(point Point, poly Polygon) GeometryRealation {
 			return RELA_TOUCH
 		}
 		//射线法判断 1 min(P1.y,P2.y)<P.y<=max(P1.y,P2.y) 2 point的射线相交 http://blog.letow.top/2017/11/13/vector-cross-product-cal-intersection/
-		if (dcmp(p1.Y-point.Y) > 0) != (dcmp(p2.Y-point.Y) > 0) && dcmp(point.X-(point.Y-p1.Y)*(p1.X-p2.X)/(p1.Y-p2.Y)-p1.X) < 0 {
+		if (p1.Y > point.Y) != (p2.Y > point.Y) && point.X < (point.Y-p1.Y)*(p1.X-p2.X)/(p1.Y-p2.Y)+p1.X {
 			isIn = !isIn
 		}
 	}
-- 
2.43.0


From d555595b412f87784e82e9bc2fb0b693e5a68896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:18 +0000
Subject: [PATCH 49/63] fix: quadrant angle fails for centres beyond a billion

---
 calcaulation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/calcaulation.go b/calcaulation.go
index 4641115..0da5a8b 100644
--- a/calcaulation.go
+++ b/calcaulation.go
@@ -30,7 +30,7 @@ func CacAngle(point1, centerPoint, point2 Point) (float64, error) {
 }
 
 func CacQuadrantAngle(point1, point2 Point) (float64, error) {
-	angle, err := CacAngle(Point{point1.X + 0.0000001, point1.Y}, point1, point2)
+	angle, err := CacAngle(Point{point1.X + math.Max(1, math.Abs(point1.X)), point1.Y}, point1, point2)
 	return angle, err
 }
 
-- 
2.43.0


From f32c3f3a117f49840750f1a204e3ccf455355f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:50 +0000
Subject: [PATCH 50/63] fix: WKT mixing two and three ordinates is decoded in
 part

---
 wkt/decode.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/wkt/decode.go b/wkt/decode.go
index 6430003..6daeb40 100644
--- a/wkt/decode.go
+++ b/wkt/decode.go
@@ -10,6 +10,8 @@ import (
 	"github.com/hzw456/go-geo"
 )
 
+var errDimension = errors.New("positions of different dimension")
+
 // ordinates parses the two or three finite numbers of one position.
 func ordinates(term string) ([]float64, error) {
 	strs := strings.Fields(term)
@@ -60,6 +62,9 @@ func MultiPointFromWKT(wkt string) (geo.Geometry, error) {
 			mp.Append(geo.Point{pos[0], pos[1]})
 		}
 	}
+	if len(mp) > 0 && len(mpz) > 0 {
+		return nil, errDimension
+	}
 	if len(mp) != 0 {
 		return mp, nil
 	} else if len(mpz) != 0 {
@@ -86,6 +91,9 @@ func LineStringFromWKT(wkt string) (geo.Geometry, error) {
 			linestring.Append(geo.Point{pos[0], pos[1]})
 		}
 	}
+	if len(linestring) > 0 && len(linestringZ) > 0 {
+		return nil, errDimension
+	}
 	if len(linestring) > 0 {
 		return linestring, nil
 	} else if len(linestringZ) > 0 {
@@ -114,6 +122,9 @@ func MultiLineStringFromWKT(wkt string) (geo.Geometry, error) {
 			mlz = append(mlz, lineZ)
 		}
 	}
+	if len(ml) > 0 && len(mlz) > 0 {
+		return nil, errDimension
+	}
 	if len(ml) > 0 {
 		return ml, nil
 	} else if len(mlz) > 0 {
@@ -147,6 +158,9 @@ func PolygonFromWKT(wkt string) (geo.Geometry, error) {
 			polyz = append(polyz, line.ToRing())
 		}
 	}
+	if len(poly) > 0 && len(polyz) > 0 {
+		return nil, errDimension
+	}
 	if len(poly) > 0 {
 		return poly, nil
 	} else if len(polyz) > 0 {
@@ -175,6 +189,9 @@ func MultiPolygonFromWKT(wkt string) (geo.Geometry, error) {
 		}
 
 	}
+	if len(multiPoly) > 0 && len(multiPolyZ) > 0 {
+		return nil, errDimension
+	}
 	if len(multiPoly) > 0 {
 		return multiPoly, nil
 	} else if len(multiPolyZ) > 0 {
-- 
2.43.0


From 9797495a92007f2a704eef97f5d718d70dac9f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:14 +0000
Subject: [PATCH 51/63] fix: area and orientation of small polygons are lost
 far from the origin

---
 calcaulation.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/calcaulation.go b/calcaulation.go
index 0da5a8b..4c5d5ac 100644
--- a/calcaulation.go
+++ b/calcaulation.go
@@ -55,8 +55,9 @@ func relativeArea(poly Polygon) float64 {
 	for i := 0; i < ptCount; i++ {
 		//最后一个点的处理
 		j := (i + 1) % ptCount
-		area += lr[i].X * lr[j].Y
-		area -= lr[i].Y * lr[j].X
+		//相对于首点计算，避免坐标远离原点时的抵消误差
+		area += (lr[i].X - lr[0].X) * (lr[j].Y - lr[0].Y)
+		area -= (lr[i].Y - lr[0].Y) * (lr[j].X - lr[0].X)
 	}
 	area /= 2
 	return area
-- 
2.43.0


From 1c62c2759728421e298415254c8952326d4d8530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:15 +0000
Subject: [PATCH 52/63] fix: the centroid of a small polygon far from the
 origin lies outside it

---
 calcaulation.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/calcaulation.go b/calcaulation.go
index 4c5d5ac..29a1822 100644
--- a/calcaulation.go
+++ b/calcaulation.go
@@ -206,16 +206,19 @@ func polyCentroid(poly Polygon) Point {
 	for i := 0; i < ptCount; i++ {
 		//最后一个点的处理
 		j := (i + 1) % ptCount
-		centroidX += (lr[i].X + lr[j].X) * (lr[i].X*lr[j].Y - lr[j].X*lr[i].Y)
-		centroidY += (lr[i].Y + lr[j].Y) * (lr[i].X*lr[j].Y - lr[j].X*lr[i].Y)
-		signArea += lr[i].X*lr[j].Y - lr[j].X*lr[i].Y
+		//相对于首点计算，避免坐标远离原点时的抵消误差
+		x1, y1 := lr[i].X-lr[0].X, lr[i].Y-lr[0].Y
+		x2, y2 := lr[j].X-lr[0].X, lr[j].Y-lr[0].Y
+		centroidX += (x1 + x2) * (x1*y2 - x2*y1)
+		centroidY += (y1 + y2) * (x1*y2 - x2*y1)
+		signArea += x1*y2 - x2*y1
 	}
 	if signArea == 0 {
 		return Point{math.NaN(), math.NaN()}
 	}
 	centroidX *= 1 / (6 * signArea / 2)
 	centroidY *= 1 / (6 * signArea / 2)
-	return Point{centroidX, centroidY}
+	return Point{lr[0].X + centroidX, lr[0].Y + centroidY}
 }
 
 func PointPolygonDistance(p Point, poly Polygon, srid SRID) float64 {
-- 
2.43.0


From ea3a89747a068349d8970b5f471ad63e3cbeebb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:41 +0000
Subject: [PATCH 53/63] fix: asking for very many nearest neighbours crashes

---
 rtree.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rtree.go b/rtree.go
index 7ba62ab..fb07ce7 100644
--- a/rtree.go
+++ b/rtree.go
@@ -805,6 +805,10 @@ func (p *Point) minDist(r *Box) float64 {
 
 // NearestNeighbors gets the closest Spatials to the Point.
 func (tree *Rtree) NearestNeighbors(k int, p Point) []Spatial {
+	// never more than there are, so that any k can be allocated
+	if k > tree.size {
+		k = tree.size
+	}
 	if k <= 0 {
 		return []Spatial{}
 	}
-- 
2.43.0


From ead7a0d8a2ca1734e1f587c66156b7b1da25e36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:39 +0000
Subject: [PATCH 54/63] fix: the bounding box of Z geometries is the origin

---
 box.go | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/box.go b/box.go
index 269f5f9..fe455f5 100644
--- a/box.go
+++ b/box.go
@@ -68,6 +68,15 @@ func calBox(points ...Point) *Box {
 	return &Box{minX, minY, maxX, maxY}
 }
 
+//三维点的外包框只考虑平面坐标
+func calBoxZ(points ...PointZ) *Box {
+	var pois []Point
+	for _, v := range points {
+		pois = append(pois, Point{v.X, v.Y})
+	}
+	return calBox(pois...)
+}
+
 func BoundingBox(geom Geometry) *Box {
 	switch geom := geom.(type) {
 	case Point:
@@ -96,6 +105,28 @@ func BoundingBox(geom Geometry) *Box {
 			}
 		}
 		return calBox(pois...)
+	case PointZ:
+		return calBoxZ(geom)
+	case MultiPointZ:
+		return calBoxZ(geom...)
+	case LineStringZ:
+		return calBoxZ(geom...)
+	case MultiLineStringZ:
+		var pois []PointZ
+		for _, v := range geom {
+			pois = append(pois, v...)
+		}
+		return calBoxZ(pois...)
+	case PolygonZ:
+		return calBoxZ(geom.GetExteriorRing()...)
+	case MultiPolygonZ:
+		var pois []PointZ
+		for _, v := range geom {
+			for _, vv := range v {
+				pois = append(pois, vv...)
+			}
+		}
+		return calBoxZ(pois...)
 	}
 	return &Box{}
 }
-- 
2.43.0


From 825df28ae520dab0e2a05428f006cc591c08e449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:45 +0000
Subject: [PATCH 55/63] fix: GeoJSON of an unknown geometry type is decoded to
 no geometry and no error

---
 geojson/geojson.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geojson/geojson.go b/geojson/geojson.go
index 96f96c7..22beda5 100644
--- a/geojson/geojson.go
+++ b/geojson/geojson.go
@@ -152,7 +152,7 @@ func UnmarshalGeo(gjson *GeoJson) (geo.Geometry, error) {
 	case "MultiPolygon":
 		return nil, errors.New("Not Support MultiPolygon (TODO)")
 	}
-	return nil, nil
+	return nil, fmt.Errorf("unknown geometry type %q", gjson.Type)
 }
 
 // func (c Collection) ToGeojson() ([]byte, error) {
-- 
2.43.0


From bd9de9edfaf7ea39fbb65422156d163dbc3abe57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:46 +0000
Subject: [PATCH 56/63] fix: a feature without geometry is encoded with a
 geometry of no type

---
 geojson/feature.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/geojson/feature.go b/geojson/feature.go
index b8be919..32970f8 100644
--- a/geojson/feature.go
+++ b/geojson/feature.go
@@ -18,12 +18,14 @@ type Feature struct {
 
 // NewFeature creates and initializes a GeoJSON feature given the required attributes.
 func NewFeature(geometry geo.Geometry) *Feature {
-	gjson, _ := MarshalGeo(geometry)
-	var geoj GeoJson
-	json.Unmarshal(gjson, &geoj)
+	//没有几何的要素geometry为null
+	var geoj *GeoJson
+	if gjson, err := MarshalGeo(geometry); err == nil {
+		json.Unmarshal(gjson, &geoj)
+	}
 	return &Feature{
 		Type:         "Feature",
-		GeometryJson: &geoj,
+		GeometryJson: geoj,
 		Properties:   make(map[string]interface{}),
 		Geometry:     geometry,
 	}
-- 
2.43.0


From a994c8c80a6f9ae0bbb72eeac96c17b25a176ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:46 +0000
Subject: [PATCH 57/63] fix: the bounding box of a decoded feature is the
 origin

---
 geojson/feature.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/geojson/feature.go b/geojson/feature.go
index 32970f8..db42d1d 100644
--- a/geojson/feature.go
+++ b/geojson/feature.go
@@ -32,7 +32,16 @@ func NewFeature(geometry geo.Geometry) *Feature {
 }
 
 func (f *Feature) SetBoundingBox() {
-	box := geo.BoundingBox(f.Geometry)
+	geometry := f.Geometry
+	if geometry == nil {
+		//解码得到的要素只有GeometryJson
+		geometry, _ = UnmarshalGeo(f.GeometryJson)
+	}
+	if geometry == nil {
+		f.BoundingBox = nil
+		return
+	}
+	box := geo.BoundingBox(geometry)
 	f.BoundingBox = []float64{box.MinX, box.MinY, box.MaxX, box.MaxY}
 }
 
-- 
2.43.0


From 9e293866ebd82d31efb02e66b249707cace93612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:47 +0000
Subject: [PATCH 58/63] fix: rotating a polygon drops its holes

---
 calcaulation.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/calcaulation.go b/calcaulation.go
index 29a1822..4ef6844 100644
--- a/calcaulation.go
+++ b/calcaulation.go
@@ -273,12 +273,18 @@ func RotateCW(geo Geometry, center Point, angle float64) Geometry {
 		return Point{math.Trunc(x*10000) / 10000, math.Trunc(y*10000) / 10000}
 	case GEOMETRY_POLYGON:
 		poly := geo.(Polygon)
-		var pts []Point
-		for _, v := range poly.GetExteriorRing().GetPointSet() {
-			geo1 := RotateCW(v, center, angle)
-			pts = append(pts, geo1.(Point))
+		var rotated Polygon
+		for _, ring := range poly {
+			var pts []Point
+			for _, v := range ring.GetPointSet() {
+				geo1 := RotateCW(v, center, angle)
+				pts = append(pts, geo1.(Point))
+			}
+			if lr := NewLinearRing(pts...); lr != nil {
+				rotated = append(rotated, *lr)
+			}
 		}
-		return *NewPolygonFromPois(pts...)
+		return rotated
 	}
 	return nil
 }
-- 
2.43.0


From 6834793e2a4af78eaf2965f6144a1a30880b2342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:07 +0000
Subject: [PATCH 59/63] fix: destination point near a pole is off by
 centimetres

---
 point.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/point.go b/point.go
index 756d822..526122b 100644
--- a/point.go
+++ b/point.go
@@ -79,9 +79,10 @@ func DestinationPoint(lat, lon, distance, bearing float64) (float64, float64) {
 	var λ1 = toRadians(lon)
 
 	sinφ2 := math.Sin(φ1)*math.Cos(δ) + math.Cos(φ1)*math.Sin(δ)*math.Cos(θ)
-	φ2 := math.Asin(math.Max(-1, math.Min(1, sinφ2)))
-	y := math.Sin(θ) * math.Sin(δ) * math.Cos(φ1)
-	x := math.Cos(δ) - math.Sin(φ1)*math.Sin(φ2)
+	y := math.Sin(θ) * math.Sin(δ)
+	x := math.Cos(δ)*math.Cos(φ1) - math.Sin(φ1)*math.Sin(δ)*math.Cos(θ)
+	//asin在极点附近误差很大，所以用atan2
+	φ2 := math.Atan2(sinφ2, math.Sqrt(x*x+y*y))
 	λ2 := λ1 + math.Atan2(y, x)
 	return toDegrees(φ2), math.Mod((toDegrees(λ2)+540), 360) - 180 // normalise to −180..+180°
 }
-- 
2.43.0


From d7ef5851f2ce72e169b23f465de6cd817923f0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:54 +0000
Subject: [PATCH 60/63] fix: longitudes just below 180 are assigned UTM zone 61

---
 utm.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/utm.go b/utm.go
index 8a12bbc..ad2f556 100755
--- a/utm.go
+++ b/utm.go
@@ -269,7 +269,8 @@ func latLonToZoneNumber(latitude float64, longitude float64) int {
 		}
 	}
 
-	return int((longitude+180)/6) + 1
+	// longitude+180会把紧邻180度的经度进位到不存在的61带
+	return int(math.Floor(longitude/6)) + 31
 }
 
 func zoneNumberToCentralLongitude(zoneNumber int) int {
-- 
2.43.0


From 0ea0d09a10b10d982506e9cf35d409220468614d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:38 +0000
Subject: [PATCH 61/63] fix: a repeated vertex makes the S2 cover of a polygon
 run over the whole sphere

---
 googleS2.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/googleS2.go b/googleS2.go
index fdf1a00..0300ec6 100644
--- a/googleS2.go
+++ b/googleS2.go
@@ -81,7 +81,12 @@ func S2RegionCoverer(poly Polygon, level int, srid SRID) []uint64 {
 func toLoop(points []Point) *s2.Loop {
 	var pts []s2.Point
 	for _, pt := range points {
-		pts = append(pts, s2.PointFromLatLng(s2.LatLngFromDegrees(pt.Y, pt.X)))
+		p := s2.PointFromLatLng(s2.LatLngFromDegrees(pt.Y, pt.X))
+		//相邻的重复点会使loop内外颠倒
+		if len(pts) > 0 && pts[len(pts)-1] == p {
+			continue
+		}
+		pts = append(pts, p)
 	}
 	for i, j := 0, len(pts)-1; i < j; i, j = i+1, j-1 {
 		pts[i], pts[j] = pts[j], pts[i]
-- 
2.43.0


From ba5be811a1892ed95abe71678c580e5077aae88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:38 +0000
Subject: [PATCH 62/63] fix: the buffer of a point has a sliver of a 25th edge
 at widths over 1e9

---
 buffer.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/buffer.go b/buffer.go
index f4fc39d..127f528 100644
--- a/buffer.go
+++ b/buffer.go
@@ -12,6 +12,8 @@ func pointBuffer(p1 Point, bufferDis float64) Polygon {
 		return nil
 	}
 	bufferPoints := getBufferCoordsByRadian(p1, 0, 2*math.Pi, bufferDis)
+	//转满一圈的终点就是起点，半径很大时两者的浮点误差会超过判断环闭合的容差，所以直接用起点闭合
+	bufferPoints = append(bufferPoints[:CirclePolygonEdgeCount], bufferPoints[0])
 	lr := NewLinearRing(bufferPoints...)
 	poly := NewPolygon(*lr)
 	return *poly
-- 
2.43.0


From 58f5af83c15a811a5c85cf238da357c266feccc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:06 +0000
Subject: [PATCH 63/63] fix: the geohash of the north pole is that of the south
 pole, and of longitude 180 that of -180

---
 geohash.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/geohash.go b/geohash.go
index a55f711..54ffecc 100644
--- a/geohash.go
+++ b/geohash.go
@@ -1,11 +1,16 @@
 package geo
 
 import (
+	"math"
+
 	"github.com/mmcloughlin/geohash"
 )
 
 func GeohashEncode(pt Point, Precision uint, srid SRID) string {
-	return geohash.EncodeWithPrecision(pt.Y, pt.X, Precision)
+	//geohash库把北纬90度和东经180度溢出成南纬90度和西经180度，取最靠边的格子
+	lat := math.Min(pt.Y, 90-90.0/(1<<32))
+	lng := math.Min(pt.X, 180-180.0/(1<<32))
+	return geohash.EncodeWithPrecision(lat, lng, Precision)
 }
 
 func GeohashGetCenter(hash string, srid SRID) Point {
-- 
2.43.0

