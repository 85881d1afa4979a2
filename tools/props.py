#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run it to regenerate the file)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [],
                          "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": observe or [], "hook_needed": None}})

LOGONLY = "The tests in tests/ only log their results; "

p("C01", "R-tree window queries are exact after any history",
  "After any sequence of bulk construction, insertions, deletions and upserts, a window query on the spatial index returns exactly the stored objects whose bounding box meets the closed query window: each once, none missing, none extra, none altered. The conditional window query returns exactly those of them that also satisfy the condition.",
  ["inputs", "histories", "configurations"],
  "Every history of construct/insert/delete/upsert/query over non-empty geometries (points, lines, polygons, their multi-variants and Z-variants, duplicates and equal boxes included), every node capacity with 1 <= min <= max/2, every window including degenerate, empty-result and everything windows.",
  LOGONLY + "the two R-tree tests build five points and print one query, so they reach neither node splits after a bulk load nor condensation of the tree.",
  ["rtree.go", "box.go"],
  [("bulk loading, choose-leaf, split, adjust and condense keep every ancestor box covering its entries", "rtree.go bulkLoad/insert/split/condenseTree"),
   ("window search prunes on box intersection", "rtree.go searchIntersectWithCond")],
  ["Rtree.SearchIntersect", "Rtree.SearchIntersectWithCond"],
  [{"name": "Rtree", "meaning": "multiset of stored spatial objects", "where": "rtree.go"}])

p("C02", "R-tree deletion, upsert and identity follow a multiset model",
  "Deleting a stored object removes exactly one object equal to it and reports true; deleting an absent object changes nothing and reports false; deleting by id removes every object with that id and reports whether there was one; upserting leaves exactly the new object under its id; lookup by id returns exactly the objects carrying it. The reported size always equals the number of stored objects, ids generated for anonymous geometries never collide, and no history crashes the index, including emptying it and filling it again.",
  ["inputs", "histories", "configurations"],
  "Every history of insert/delete/delete-by-id/delete-with-comparator/upsert/lookup over non-empty geometries with unique or repeated ids, every node capacity with 1 <= min <= max/2.",
  LOGONLY + "one deletion of one point from a five-point tree is executed, none is verified.",
  ["rtree.go"],
  [("find-leaf by box containment and comparator", "rtree.go findLeaf/DeleteWithComparator"),
   ("underflow handling, re-insertion and root shrinking", "rtree.go condenseTree"),
   ("size bookkeeping", "rtree.go Insert/DeleteWithComparator")],
  ["Rtree.Delete", "Rtree.DeleteBySpatialID", "Rtree.DeleteWithComparator", "Rtree.UpsertBySpatialID", "Rtree.SearchBySpatialID", "Rtree.Size"])

p("C03", "R-tree nearest-neighbour queries return the true k nearest",
  "A k-nearest query returns min(k, size) stored objects, no stored object more often than it is stored, in non-decreasing order of the Euclidean distance from the query point to the object's bounding box. No object left out is strictly nearer than an object returned.",
  ["inputs", "histories", "configurations"],
  "Every index reachable by construct/insert/delete histories, every k >= 0 and every query point (inside, outside and on boxes, with ties).",
  "No test calls the nearest-neighbour query at all.",
  ["rtree.go"],
  [("branch and bound over sorted child boxes with pruning", "rtree.go nearestNeighbors/pruneEntriesMinDist"),
   ("bounded insertion into the sorted result", "rtree.go insertNearest")],
  ["Rtree.NearestNeighbors"])

p("C04", "The R-tree's reported structure stays tight, covering and shallow",
  "After any history, every internal bounding box the index reports is tight (each of its four sides coincides with a side of a stored object's box lying inside it), and an index of depth d reports, for every stored object, at least d-1 boxes containing it; an index of depth 1 reports none. An index grown by insertions alone with minimum fill m >= 2 has depth at most 1 + log_m(n/2) for n >= 2 objects, and at most 1 otherwise.",
  ["inputs", "histories", "configurations"],
  "Every history of construct/insert/delete over non-empty geometries, every node capacity with 1 <= min <= max/2 (the depth bound: histories without bulk construction, m >= 2).",
  "No test looks at depth or at reported boxes; loose boxes or degenerate depth leave query results right and are invisible to sampled queries.",
  ["rtree.go", "box.go"],
  [("boxes recomputed along the path on every change", "rtree.go adjustTree/condenseTree/computeBoundingBox"),
   ("minimum fill on split, condensation on underflow", "rtree.go split/condenseTree")],
  ["Rtree.GetAllBoundingBoxes", "Rtree.Depth"])

p("C05", "WKT encoding then decoding returns the same geometry",
  "For every geometry type of the library, 2-D and Z, decoding the WKT text produced by encoding a geometry succeeds and returns a geometry of the same type with exactly the same parts, rings, points and coordinates in the same order. The text itself is well-formed WKT: it carries the type's keyword, correctly nested parentheses and exactly the geometry's coordinates, which an independent WKT parser reads back bit for bit.",
  ["inputs"],
  "Every non-empty Point, MultiPoint, LineString, MultiLineString, Polygon and MultiPolygon, with or without Z, with at least one part, non-empty parts, rings of at least two points that are closed, holes, and any finite float64 coordinates (negative, fractional, tiny, huge).",
  LOGONLY + "one MULTIPOLYGON is decoded and its result discarded.",
  ["wkt/encode.go", "wkt/decode.go"],
  [("shortest exact float formatting and parsing", "wkt/encode.go GeometryToWktString"),
   ("per-type recursive formatting", "wkt/encode.go Encode"), ("per-type parsing", "wkt/decode.go Decode")],
  ["wkt.Encode", "wkt.Decode"])

p("C06", "WKT decoding accepts layout variants and never crashes",
  "Decoding is insensitive to the layout WKT allows: outer blanks, blanks around parentheses, blanks after commas, several blanks between ordinates, either spelling of multipoints and any decimal spelling of a number (sign, exponent, surplus zeros) give the same geometry as the compact text. A text whose positions do not all have two or all have three ordinates is rejected with an error, not decoded in part. For every other text whatsoever, decoding terminates and returns either an error or a geometry, never a panic; a returned geometry has the type and only coordinates written in the text, and re-encodes to text that decodes to that same geometry.",
  ["inputs"],
  "Every valid WKT text of the six types in every such layout; every byte string, in particular truncated, mutated and mis-nested WKT, missing or surplus ordinates, unclosed rings and empty parts.",
  LOGONLY + "one valid text is decoded; no malformed text is.",
  ["wkt/decode.go"],
  [("keyword and body split", "wkt/decode.go Decode"), ("group splitting and number parsing with error returns", "wkt/decode.go")],
  ["wkt.Decode"])

p("C07", "GeoJSON geometry encoding is faithful and round-trips",
  "Encoding any geometry of the library yields JSON with the RFC 7946 type name of that geometry (Z types use the name of the 2-D type) and a coordinates array that holds exactly its positions, rings and parts in order, two numbers per 2-D position and three per Z position, bit-exact. A coordinate that is not a finite number is an error, never a document. Decoding the encoded form of a Point, LineString or Polygon, 2-D or Z, returns the identical geometry; for the multi types decoding returns an error, as documented.",
  ["inputs"],
  "Every non-empty geometry of the twelve types with finite float64 coordinates, rings closed exactly, nearly or not at all; encoding directly and through a Feature.",
  "The GeoJSON tests encode a single 2-D point and decode one point and one PointZ.",
  ["geojson/geojson.go"],
  [("per-type conversion into nested arrays", "geojson/geojson.go MarshalGeo/Convert*"), ("decoding with 2-D/Z detection", "geojson/geojson.go UnmarshalGeo")],
  ["geojson.MarshalGeo", "geojson.UnmarshalGeo"])

p("C08", "GeoJSON decoding handles any document without crashing",
  "For every byte string, decoding it as a Feature, as a FeatureCollection or as a bare geometry object, and then decoding the geometry it carries, terminates with a value or an error and never panics. Coordinates of the wrong shape (not arrays, not numbers, fewer than two ordinates, mixed depth, missing) and unknown geometry types are reported as errors and never yield an invented geometry.",
  ["inputs"],
  "Every byte string; structured JSON whose geometry has any type name (known or not) and any JSON value as its coordinates, including absent and null, with 2-D, Z and mixed positions.",
  "The tests decode four well-formed documents.",
  ["geojson/geojson.go", "geojson/feature.go", "geojson/feature_collection.go"],
  [("checked conversion of untyped JSON into coordinates", "geojson/geojson.go decodePosition*/inter2*")],
  ["geojson.UnmarshalFeature", "geojson.UnmarshalFeatureCollection", "geojson.UnmarshalGeo"])

p("C09", "Features and collections survive JSON unchanged",
  "Encoding a Feature or FeatureCollection and decoding it returns the same feature type, id, bounding box, geometry type and coordinates, properties and CRS, with the features of a collection in the same order and number; encoding the decoded value gives the same bytes. The encoded feature always has type, geometry and properties members, a collection always has a features array, optional members appear exactly when set, and setting a feature's bounding box from its geometry, built or decoded, makes the encoding carry that geometry's [minX, minY, maxX, maxY].",
  ["inputs"],
  "Every feature with a non-empty geometry of the twelve types or none, string/number/no id, optional bbox and CRS, arbitrary JSON properties (nested, unicode, empty, null), and collections of 0..n of them; setting the bounding box for every type, on decoded features for points, lines and polygons (the types the library decodes).",
  "The tests compare two constant documents and look for one substring; CRS, bbox, properties and order are never compared after a round trip.",
  ["geojson/feature.go", "geojson/feature_collection.go"],
  [("explicit member-by-member marshalling", "geojson/feature.go MarshalJSON, feature_collection.go MarshalJSON"), ("bounding box of the feature's geometry", "geojson/feature.go SetBoundingBox")],
  ["Feature.MarshalJSON", "UnmarshalFeature", "FeatureCollection.MarshalJSON", "UnmarshalFeatureCollection", "Feature.SetBoundingBox"])

p("C10", "Feature property accessors are type-exact with defaults",
  "After any sequence of property writes, each typed read returns the last value written under that key when it has the requested type (integer reads also accept floating-point numbers, truncating them) and an error otherwise. The defaulting reads return that same value, or the given default, or the zero value when none is given, and reads never change the properties.",
  ["inputs", "histories"],
  "Every history of writes and typed reads over string keys and values of bool, int, float64, string and other types, on features built by the constructor, by decoding, or with no property map.",
  "The tests read five constant keys once each.",
  ["geojson/properties.go"],
  [("type assertions with error fallback", "geojson/properties.go")],
  ["Feature.SetProperty", "Feature.Property*", "Feature.PropertyMust*"])

p("C11", "The bounding box of a geometry is its exact envelope",
  "The bounding box of a point, multipoint, line, multiline, polygon or multipolygon, 2-D or Z (heights left out), contains every vertex of the geometry, and each of its four sides is attained by a vertex (for polygons, by a vertex of the exterior ring). Converting a box to a geometry gives a closed ring, line or point whose envelope is that box again and whose area is the box's size.",
  ["inputs"],
  "Every non-empty geometry with finite coordinates, polygons whose holes lie inside their exterior ring; every box with min <= max (degenerate in one or both directions included; extents either zero or larger than the library's coordinate tolerance).",
  LOGONLY + "one envelope is printed.",
  ["box.go"],
  [("running min/max over all vertices", "box.go calBox/BoundingBox"), ("ring construction from the corners", "box.go BoxToGeo")],
  ["geo.BoundingBox", "geo.BoxToGeo", "geo.GetArea"])

p("C12", "Box predicates and union form a consistent lattice",
  "Two boxes intersect exactly when some point lies in both (touching counts), one contains another exactly when every corner of it lies in the first, and a point lies in a box exactly when it is within its closed bounds. The union of any number of boxes is the smallest box containing all of them, independent of order and grouping, and contains/intersects/union/size agree with each other (a contained in b iff union equals b; the union is never smaller than a part); none of these operations changes its operands.",
  ["inputs"],
  "Every pair and list of boxes with min <= max and finite coordinates, including nested, touching, degenerate, disjoint and identical ones, and every point.",
  "No test calls these predicates directly; the R-tree tests use them on a few unverified boxes.",
  ["box.go"],
  [("closed interval comparisons per axis", "box.go Intersect/Contain/IsPointInBox"), ("componentwise min/max", "box.go Union/BoxUnion")],
  ["Box.Intersect", "Box.Contain", "Box.Union", "BoxUnion", "Box.Size", "IsPointInBox", "NewRectBox"])

p("C13", "Polygon area and orientation equal the exact shoelace value",
  "The area of a polygon is the absolute value of the signed area of its closed exterior ring, and a polygon is reported counter-clockwise exactly when that signed area is positive. Area is unchanged by reversing the ring, by starting it at another vertex and by translation, scales with the square of a uniform scaling, and the area of a multipolygon is the sum over its polygons; geometries without area report 0.",
  ["inputs"],
  "Every closed ring with at least three distinct points, convex or not, either orientation, with coordinates of any practical magnitude (equality exact where float arithmetic is exact, otherwise within rounding error relative to the ring's extent, however small the ring and however far from the origin); vertices may repeat consecutively, and interior rings make no difference.",
  LOGONLY + "two areas are printed.",
  ["calcaulation.go", "polygon.go"],
  [("shoelace sum over the exterior ring", "calcaulation.go relativeArea"), ("orientation by sign", "polygon.go IsCCW")],
  ["geo.GetArea", "geo.MultiPolyArea", "Polygon.IsCCW"])

p("C14", "Centroids equal the exact centre of mass",
  "The centroid of a polygon is the centre of mass of the region its exterior ring bounds, the centroid of a multipoint is the mean of its points, the centroid of a point is the point, and the centroid of a line of at least three non-collinear points is that of the ring obtained by closing it. The polygon centroid does not depend on ring direction or start vertex, moves with translation, scales with scaling, and lies in the convex hull; a ring of zero area gives NaN coordinates.",
  ["inputs"],
  "Every closed simple ring with non-zero area, every non-empty multipoint, every line whose closure has non-zero signed area; rings of any size and any distance from the origin, consecutive vertices possibly repeated, within rounding error relative to the ring's extent; a polygon's interior rings make no difference.",
  LOGONLY + "one triangle's centroid is printed.",
  ["calcaulation.go"],
  [("first-moment sum divided by signed area", "calcaulation.go polyCentroid"), ("mean", "calcaulation.go pointsCenteriod")],
  ["geo.Centroid", "geo.LinearCentroid"])

p("C15", "Point-in-polygon classification is exact",
  "A point is classified as contained in a simple polygon exactly when it lies strictly inside its exterior ring, as touching exactly when it lies on the ring (vertices and edges), and as disjoint otherwise. The answer does not depend on the ring's direction or starting vertex.",
  ["inputs"],
  "Every simple polygon (convex, concave, with horizontal and vertical edges, collinear and consecutively repeated vertices, with or without interior rings, which make no difference) and every point, with coordinates on which float arithmetic is exact and spaced wider than the library's 1e-6 coordinate tolerance; for arbitrary coordinates, every point farther than 1e-4 from the ring and every vertex of the ring.",
  "Two tests classify a handful of fixed points; only three of them are asserted, none exactly on the boundary.",
  ["contain.go", "relation.go"],
  [("boundary test then ray casting with half-open vertex rule", "contain.go IsPointInPolygon"), ("point-on-segment test", "relation.go IsPointOnSegment")],
  ["geo.IsPointInPolygon"])

p("C16", "Segment, point-on-segment and line relations are exact",
  "Two non-degenerate segments are reported as intersecting exactly when they cross at a point interior to both, as touching when they share a point otherwise (an endpoint on the other segment, or collinear overlap), and as disjoint when they share none; the answer is symmetric in the two segments and in their direction. A point is on a segment exactly when it is collinear and within it, every point of a line's segments is on the line, and two lines are reported intersecting exactly when any of their segments share a point, else disjoint.",
  ["inputs"],
  "Every pair of segments of positive length, every point, every pair of lines of at least two distinct consecutive points, on coordinates where float arithmetic is exact: parallel, collinear, overlapping, T-junctions, shared endpoints, far apart. (A point on the chord closing an open line is unspecified.)",
  LOGONLY + "no test calls these predicates.",
  ["relation.go", "vector.go"],
  [("cross-product parametrisation", "relation.go SegmentRelation"), ("pairwise segment test", "relation.go LineRelation"), ("collinearity and box test", "relation.go IsPointOnSegment/IsPointOnLine")],
  ["geo.SegmentRelation", "geo.IsPointOnSegment", "geo.IsPointOnLine", "geo.LineRelation"])

p("C17", "Segment, line and polygon relations to a polygon are right",
  "A segment, a line or the boundary of a polygon is reported as intersecting a simple polygon when it properly crosses any edge of its exterior ring, including the closing one; when it meets no edge it is reported as contained if it lies inside and as disjoint if it lies outside. The answer does not depend on where the ring starts, on its direction, or on the direction of the segment or line.",
  ["inputs"],
  "Every simple polygon and every segment, line or simple ring in general position to it (either a proper crossing exists or there is no common point at all), on coordinates where float arithmetic is exact (ring vertices possibly repeated consecutively; interior rings make no difference); for polygon against polygon, the second not lying wholly inside the first.",
  "No test calls these relations.",
  ["relation.go"],
  [("edge-by-edge segment relation plus endpoint containment", "relation.go SegPolyRelation/LinePolyRelation/LinearPolyRelation/PolyRelation")],
  ["geo.SegPolyRelation", "geo.LinePolyRelation", "geo.LinearPolyRelation", "geo.PolyRelation"])

p("C18", "Polygon validation accepts valid rings and rejects crossings",
  "A polygon is reported self-intersecting exactly when two edges of its exterior ring cross at a point interior to both, wherever the ring starts and whichever way it runs. Verification succeeds for every simple ring of at least three distinct points with non-negligible area whose coordinates are longitudes in [-180,180] as x and latitudes in [-90,90] as y, and fails for too few points, negligible area, an out-of-range coordinate or a crossing.",
  ["inputs"],
  "Every closed ring on coordinates where float arithmetic is exact, simple or not, in every rotation and direction, consecutive vertices possibly repeated, with or without interior rings, which make no difference; out-of-range coordinates at every vertex.",
  "No test calls Verify or SelfIntersect.",
  ["polygon.go", "relation.go", "lineString.go"],
  [("pairwise edge test", "polygon.go SelfIntersect"), ("sequence of validity conditions", "polygon.go Verify, lineString.go Verify")],
  ["Polygon.SelfIntersect", "Polygon.Verify", "LineString.Verify"])

p("C19", "Planar distances to segments, lines and polygons are minimal",
  "In a planar reference system, the distance from a point to a segment is the minimum over the segment and the returned point lies on the segment at that distance; the foot on the infinite line is perpendicular, with its parameter reported. The nearest point of a polyline is the nearest over all its segments with the index of a segment attaining it, and the distance to a polygon is zero inside or on its exterior ring and otherwise the minimum over all its edges; in the GPS reference system the reported distance is the great-circle distance to the reported point.",
  ["inputs"],
  "Every point, every segment including zero-length ones (point-to-segment), every line of at least two points, every simple polygon; any magnitude whose squares do not overflow.",
  LOGONLY + "one foot point is printed.",
  ["calcaulation.go", "point.go"],
  [("clamped projection parameter", "calcaulation.go PointToSegmentDistance"), ("minimum over segments", "calcaulation.go PointHitLineString/PointPolygonDistance")],
  ["geo.PointToSegmentDistance", "geo.PointToLineDistance", "geo.PointHitLineString", "geo.PointPolygonDistance", "geo.PointDistance"])

p("C20", "Point distances, lengths and Hausdorff distance are metrics",
  "Planar point distance in 2-D and 3-D is the Euclidean metric, the length of a line is the sum of its segment lengths and is unchanged by reversing it. The Hausdorff distance of two lines of positive length is the vertex-set Hausdorff distance in the chosen reference system: symmetric, zero for equal vertex sets, obeying the triangle inequality, and never below the distance of any vertex to the other line's vertices.",
  ["inputs"],
  "Every pair and triple of points and of lines with positive length (different numbers of points, shared vertices, subsets), planar and GPS reference systems; any magnitude whose squares do not overflow.",
  LOGONLY + "a length, a distance and a Hausdorff distance are printed.",
  ["calcaulation.go", "point.go", "pointZ.go", "lineString.go"],
  [("max-min over both directions", "calcaulation.go HausdorffDistance"), ("Euclidean formulas", "point.go, pointZ.go, calcaulation.go")],
  ["geo.HausdorffDistance", "geo.EuclideanDis", "geo.EuclideanDisZ", "geo.EuclideanDistance", "Point.Distance", "LineString.Length"])

p("C21", "Great-circle distances are finite, symmetric and accurate",
  "The two great-circle distance functions return, for every pair of longitude/latitude points, a finite number between 0 and half the earth's circumference that agrees with the true spherical distance, is zero for coincident points, symmetric, unchanged by whole turns of longitude and by a common shift of longitude, and obeys the triangle inequality.",
  ["inputs"],
  "Every pair or triple of points with latitude in [-90,90] and longitude in [-360,360]: coincident, antipodal, at the poles, across the date line, centimetres apart. Accuracy within the conditioning of the formula: 1e-9 relative away from antipodes, half a metre near them.",
  "No test computes a great-circle distance.",
  ["point.go", "calcaulation.go"],
  [("haversine with atan2", "point.go CoordDistance"), ("spherical law of cosines", "point.go CoordGreateCircle"), ("dispatch on reference system", "calcaulation.go PointDistance")],
  ["geo.CoordDistance", "geo.CoordGreateCircle", "geo.PointDistance"])

p("C22", "Azimuth and destination point are inverse to distance",
  "Travelling a distance along an initial bearing from a point arrives at a point whose great-circle distance from the start is that distance and whose azimuth from the start is that bearing; the result always is a finite latitude in [-90,90] and longitude in [-180,180]. The azimuth is always in [0,360), is the true initial bearing of the great circle, and is 0 for any reference system other than GPS.",
  ["inputs"],
  "Every start point with latitude in [-90,90], every bearing, every distance from 0 to half the circumference, poles included for range and distance; bearings compared away from poles and antipodes, within conditioning.",
  LOGONLY + "one azimuth is printed; destination points are never computed.",
  ["angle.go", "point.go"],
  [("spherical direct formula with longitude normalisation", "point.go DestinationPoint"), ("spherical bearing formula", "angle.go GetAzimuth")],
  ["geo.GetAzimuth", "geo.DestinationPoint"])

p("C23", "Line simplification keeps ends, order and the error bound",
  "Simplifying a line with a non-negative threshold returns a subsequence of its points in order, always with the first and last point, and every removed point lies within the threshold of the segment joining the kept points around it. Points are removed only as the Douglas-Peucker rule demands (no kept interior point could be dropped by that rule), simplifying again changes nothing, and closed lines keep their shape like any other.",
  ["inputs"],
  "Every line of any length, including closed, self-overlapping, collinear, with repeated points; every threshold >= 0; planar and GPS reference systems.",
  LOGONLY + "one five-point collinear line is simplified and printed.",
  ["simplify.go", "calcaulation.go"],
  [("stack-driven recursive split at the farthest point", "simplify.go dpWorker"), ("deletion of the collected indexes", "simplify.go DouglasPeuckerSimplify")],
  ["geo.DouglasPeuckerSimplify"])

p("C24", "The convex hull is convex, minimal-area and covers its points",
  "The convex hull of three or more points is a closed, counter-clockwise, convex ring whose vertices are among the points and which contains every one of them; its area equals that of the true hull. The result does not depend on the order or multiplicity of the points; with fewer than three points there is no hull and collinear points give no or a zero-area ring, and no point set of any size makes it fail.",
  ["inputs"],
  "Every finite multiset of points of any size (hundreds included), with duplicates, collinear runs, all on one line; exact on coordinates where float arithmetic is exact, within rounding for arbitrary floats.",
  LOGONLY + "one hull of five points is printed; more than a dozen points are never tried.",
  ["convexhull.go"],
  [("Graham scan: angular sort around the lowest point, then left-turn scan", "convexhull.go")],
  ["geo.ConvexHull", "geo.Area2"])

p("C25", "The minimum bounding rectangle covers and is minimal",
  "The minimum bounding rectangle of a geometry with non-zero extent in two directions is a closed rectangle that contains every vertex of the geometry and whose area is no larger than that of any enclosing rectangle of any orientation. Both hold up to the 1e-4 coordinate resolution of the library's rotation; the result does not depend on the order of the vertices, and a point or collinear geometry has none.",
  ["inputs"],
  "Every multipoint, line, multiline, polygon and multipolygon of at least three non-collinear points with extents from about 1 to 1e6; interior and duplicate points and any vertex order included.",
  LOGONLY + "two rectangles are printed.",
  ["mbr.go", "convexhull.go", "box.go", "calcaulation.go"],
  [("rotate the hull by candidate edge directions and keep the smallest envelope", "mbr.go Mbr")],
  ["geo.Mbr"])

p("C26", "Rotation and point buffers are rigid and regular",
  "Rotating a point or polygon clockwise by an angle maps each vertex to its rotated position around the centre to within the 1e-4 resolution of the result; counter-clockwise rotation is rotation by the negative angle, so it undoes a clockwise one, and distances to the centre are preserved. Buffering a point by a non-negative width gives a closed counter-clockwise regular polygon of 24 edges centred on the point with every vertex at exactly that distance, and a negative width gives none.",
  ["inputs"],
  "Every point, every polygon (all its rings), every centre and angle, coordinates up to 1e7; every buffer centre and width up to 1e7 and larger than the coordinate tolerance.",
  LOGONLY + "two rotations are printed; the buffer test does not compile.",
  ["calcaulation.go", "buffer.go"],
  [("rotation matrix with truncation to four decimals", "calcaulation.go RotateCW"), ("points at equal angles", "buffer.go")],
  ["geo.RotateCW", "geo.RotateCCW", "Point.Buffer"])

p("C27", "Angles, convexity and vector algebra obey their laws",
  "The angle at a centre between two points lies in [0, 2*pi], is the counter-clockwise turn from the first direction to the second, complements to a full turn when the points are exchanged, and is an error exactly when a point coincides with the centre; the quadrant angle is the counter-clockwise direction from the x axis. A vertex is convex (0), concave (1) or straight (2) exactly as the turn from its incoming to its outgoing edge is left, right or none, and vector addition, subtraction, scaling, dot, cross, length and normalisation are the usual ones.",
  ["inputs"],
  "Every triple of points with exactly representable differences (convexity), every triple of points in general; every vector and non-zero scalar, non-zero vectors for normalisation.",
  "No test calls any of these.",
  ["calcaulation.go", "vector.go"],
  [("atan2 differences", "calcaulation.go CacAngle"), ("turn classification", "calcaulation.go CacConvex"), ("componentwise algebra", "vector.go")],
  ["geo.CacAngle", "geo.CacQuadrantAngle", "geo.CacConvex", "Vector2 methods"])

p("C28", "UTM conversion is accurate and invertible",
  "Converting any latitude/longitude in the valid range to UTM yields a zone in 1..60, the latitude band's letter (or the hemisphere letter on request), and easting/northing equal to the true transverse Mercator projection to within 2 mm; converting back with that zone and band or hemisphere returns the original position. Positions outside latitude [-80,84] or longitude [-180,180] and UTM values outside their ranges, zones or letters are rejected with an error.",
  ["inputs"],
  "Every latitude in [-80,84] and longitude in [-180,180] including both ends, the equator, zone and band boundaries and the Norway/Svalbard exceptions; every out-of-range argument; positions on the date line are compared modulo 360.",
  LOGONLY + "one conversion is printed.",
  ["utm.go"],
  [("series expansion forward and inverse", "utm.go FromLatLon/ToLatLon"), ("zone and band tables", "utm.go latLonToZoneNumber/latitudeToZoneLetter"), ("range checks", "utm.go ValidateLatLone")],
  ["geo.FromLatLon", "geo.ToLatLon", "geo.ValidateLatLone"])

p("C29", "Chinese datum conversions match the standard and invert",
  "Conversions between WGS84, GCJ-02 and BD-09 equal the published transformation, are the identity between WGS84 and GCJ-02 outside the Chinese bounds, and the WGS84/BD-09 pair is the composition of the other two. Converting forth and back returns the original position within 1e-4 degrees (BD-09/GCJ-02 within 1e-5), for positions not at the edge of the Chinese bounds.",
  ["inputs"],
  "Every longitude/latitude for the formulas; for the round trips, positions inside the bounds (73.66..135.05 E, 3.86..53.55 N) by at least the size of the offset (0.02 degrees), or outside by as much.",
  "No test calls a datum conversion.",
  ["lonlat.go"],
  [("closed-form offset polynomials", "lonlat.go delta/transformlat/transformlng"), ("polar offset", "lonlat.go BD09toGCJ02/GCJ02toBD09")],
  ["geo.WGS84toGCJ02", "geo.GCJ02toWGS84", "geo.GCJ02toBD09", "geo.BD09toGCJ02", "geo.WGS84toBD09", "geo.BD09toWGS84"])

p("C30", "Geohash cells contain, nest, centre and neighbour correctly",
  "The geohash of a point at a precision has that many characters, its cell contains the point, the cell's centre encodes to the same hash, and a shorter hash of the same point is a prefix and its cell a superset. The eight neighbours of a cell, in the order N, NE, E, SE, S, SW, W, NW, are the cells adjacent to it in those directions (wrapping across the date line).",
  ["inputs"],
  "Every point with latitude in [-90,90) and longitude in [-180,180) (the upper ends excluded by at least 1e-7 degrees) with x as longitude and y as latitude, every precision 1..12, containment up to float rounding (1e-12 degrees); neighbours away from the polar rows.",
  LOGONLY + "one hash, centre, box and neighbour list are printed.",
  ["geohash.go"],
  [("delegation with longitude as x and latitude as y", "geohash.go")],
  ["geo.GeohashEncode", "geo.GeohashGetCenter", "geo.GeohashGetBoundary", "geo.GeohashGetAllNeighbors"])

p("C31", "S2 cells contain, nest, neighbour and cover correctly",
  "The S2 cell of a point at a level has that level, its boundary quadrilateral contains the point, its centre maps back to it, and coarser cells of the same point are its ancestors; the neighbours of a cell are exactly the distinct other cells of its level that share an edge or corner with it. A region cover of a polygon consists of distinct cells of the requested level and covers every vertex and interior point of the polygon, whichever way the ring runs; other reference systems give no cell.",
  ["inputs"],
  "Every point on the sphere as longitude/latitude, every level 0..30; simple polygons of up to about a degree away from the poles, both ring directions, consecutive vertices possibly repeated, levels giving up to a few hundred cells.",
  LOGONLY + "one id, centre, boundary, neighbour list and cover are printed.",
  ["googleS2.go"],
  [("delegation with longitude as x and latitude as y", "googleS2.go"), ("ring direction normalisation before covering", "googleS2.go S2RegionCoverer/toLoop")],
  ["geo.S2GetCellID", "geo.S2GetCenter", "geo.S2GetBoundary", "geo.S2GetAllNeighbors", "geo.S2RegionCoverer"])

p("C32", "Computations never modify their arguments",
  "No measuring, relating, simplifying, hull, rectangle, rotation, buffering, covering, conversion, encoding or index-building function changes the geometries, slices or boxes passed to it, nor memory of the caller beyond their length, so calling it twice gives the same answer. Geometry constructors copy the points they are given, and the two halves of a split line can be edited without disturbing each other.",
  ["inputs"],
  "Every function of the public API that takes geometries and is not documented as an editing method, over all geometry types and slices with spare capacity.",
  LOGONLY + "nothing is compared before and after a call.",
  ["convexhull.go", "mbr.go", "simplify.go", "googleS2.go", "linearRing.go", "lineString.go", "calcaulation.go", "relation.go", "wkt/encode.go", "geojson/geojson.go", "rtree.go"],
  [("working on copies", "all computing functions")],
  ["arguments before and after every call"])

p("C33", "Line, ring and collection editing follows a sequence model",
  "After any sequence of append, set, insert, delete, reverse and split operations a line, 2-D or Z, holds exactly the points a plain sequence would hold, positions beyond the end are rejected with an error and without change (setting or inserting at the end appends once), and count, first, last and indexed access agree with it. Equality of lines is an equivalence up to the coordinate tolerance that distinguishes lines of different length, closing a line into a ring adds the first point exactly when it is not already closed, and polygon and multi-geometry constructors and editors keep all parts in order.",
  ["inputs", "histories"],
  "Every history of editing operations with positions >= 0 on lines of any length, 2-D and Z; every pair of lines; every list of parts for the collection types.",
  "No test calls an editing method.",
  ["lineString.go", "lineStringZ.go", "linearRing.go", "linearRingZ.go", "polygon.go", "polygonZ.go", "multipoint.go", "multipointZ.go", "multilinestring.go", "multiLineStringZ.go", "multipolygon.go", "multipolygonZ.go", "point.go", "pointZ.go", "type.go"],
  [("slice editing", "lineString.go SetPoint/InsertPoint/DelPoint/Reverse/SplitByIndex"), ("ring closing", "linearRing.go NewRingFromLine"), ("append editors", "polygon.go, multi*.go")],
  ["LineString methods", "LinearRing", "Polygon editors", "Multi* editors", "Type()"])

p("C34", "Read-only operations are safe to run concurrently",
  "Any number of goroutines may run window, conditional, id and nearest-neighbour queries on one index, and any computing, encoding or decoding function on shared geometries, at the same time: no operation writes memory that another one reads, and every call returns what it returns when run alone.",
  ["inputs", "schedules"],
  "Every index reachable by a construction/insertion/deletion history, every batch of read-only calls over shared data, every interleaving (races are detected from the happens-before order of the explored executions, not only when they strike).",
  "No test uses a goroutine; shared scratch space or caches would pass every sequential test.",
  ["rtree.go", "calcaulation.go", "convexhull.go", "simplify.go", "wkt/decode.go", "wkt/encode.go", "geojson/geojson.go"],
  [("queries allocate their own scratch space and only read the tree", "rtree.go NearestNeighbors/searchIntersectWithCond"), ("no package-level mutable state in computations", "whole package")],
  ["race detector, results compared with sequential runs"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
