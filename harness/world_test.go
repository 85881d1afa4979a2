package harness

import (
	"fmt"
	"reflect"
	"sort"
	"strings"

	geo "github.com/hzw456/go-geo"
	"github.com/hzw456/go-geo/geojson"
	"github.com/hzw456/go-geo/wkt"
	"pgregory.net/rapid"
)

// ---- memory that a call may read but not write ----

// arena holds slices with spare capacity behind them and remembers every element up to that capacity.
type arena struct {
	checks []func() string
}

// own copies xs into fresh memory with spare elements filled with s behind them; both parts are watched.
func own[T any](a *arena, name string, spare int, s T, xs []T) []T {
	full := make([]T, len(xs)+spare)
	copy(full, xs)
	for i := len(xs); i < len(full); i++ {
		full[i] = s
	}
	saved := append([]T(nil), full...)
	a.checks = append(a.checks, func() string {
		if reflect.DeepEqual(full, saved) {
			return ""
		}
		for i := range full {
			if !reflect.DeepEqual(full[i], saved[i]) {
				where := "element"
				if i >= len(xs) {
					where = "memory behind its end, element"
				}
				return fmt.Sprintf("%s: %s %d was %v, now %v", name, where, i, saved[i], full[i])
			}
		}
		return ""
	})
	return full[:len(xs)]
}

// watch remembers a rendering of a value.
func (a *arena) watch(name string, f func() string) {
	was := f()
	a.checks = append(a.checks, func() string {
		if now := f(); now != was {
			return fmt.Sprintf("%s: was %s, now %s", name, was, now)
		}
		return ""
	})
}

func (a *arena) changed() string {
	for _, f := range a.checks {
		if s := f(); s != "" {
			return s
		}
	}
	return ""
}

var (
	sentP = geo.Point{X: -7.25e99, Y: 3.5e99}
	sentZ = geo.PointZ{X: -7.25e99, Y: 3.5e99, Z: 1.125e99}
)

func (a *arena) pts(name string, spare int, ps []geo.Point) []geo.Point {
	return own(a, name, spare, sentP, ps)
}

// geom rebuilds a geometry with spare capacity on every level.
func (a *arena) geom(name string, sp int, g geo.Geometry) geo.Geometry {
	ring := func(r geo.LinearRing) geo.LinearRing { return own(a, name, sp, sentP, r) }
	ringz := func(r geo.LinearRingZ) geo.LinearRingZ { return own(a, name, sp, sentZ, r) }
	line := func(r geo.LineString) geo.LineString { return own(a, name, sp, sentP, r) }
	linez := func(r geo.LineStringZ) geo.LineStringZ { return own(a, name, sp, sentZ, r) }
	poly := func(p geo.Polygon) geo.Polygon {
		var rs []geo.LinearRing
		for _, r := range p {
			rs = append(rs, ring(r))
		}
		return own(a, name, sp, geo.LinearRing{sentP}, rs)
	}
	polyz := func(p geo.PolygonZ) geo.PolygonZ {
		var rs []geo.LinearRingZ
		for _, r := range p {
			rs = append(rs, ringz(r))
		}
		return own(a, name, sp, geo.LinearRingZ{sentZ}, rs)
	}
	switch g := g.(type) {
	case geo.MultiPoint:
		return geo.MultiPoint(own(a, name, sp, sentP, g))
	case geo.MultiPointZ:
		return geo.MultiPointZ(own(a, name, sp, sentZ, g))
	case geo.LineString:
		return line(g)
	case geo.LineStringZ:
		return linez(g)
	case geo.MultiLineString:
		var ls []geo.LineString
		for _, l := range g {
			ls = append(ls, line(l))
		}
		return geo.MultiLineString(own(a, name, sp, geo.LineString{sentP}, ls))
	case geo.MultiLineStringZ:
		var ls []geo.LineStringZ
		for _, l := range g {
			ls = append(ls, linez(l))
		}
		return geo.MultiLineStringZ(own(a, name, sp, geo.LineStringZ{sentZ}, ls))
	case geo.Polygon:
		return poly(g)
	case geo.PolygonZ:
		return polyz(g)
	case geo.MultiPolygon:
		var ps []geo.Polygon
		for _, p := range g {
			ps = append(ps, poly(p))
		}
		return geo.MultiPolygon(own(a, name, sp, geo.Polygon{{sentP}}, ps))
	case geo.MultiPolygonZ:
		var ps []geo.PolygonZ
		for _, p := range g {
			ps = append(ps, polyz(p))
		}
		return geo.MultiPolygonZ(own(a, name, sp, geo.PolygonZ{{sentZ}}, ps))
	}
	return g
}

// ---- the public API as a table of calls over shared arguments ----

type apiOp struct {
	name string
	f    func() string // renders the result
}

type world struct {
	a   arena
	ops []apiOp
}

func show(xs ...any) string {
	var b strings.Builder
	for _, x := range xs {
		switch v := x.(type) {
		case *geo.Box:
			if v == nil {
				b.WriteString("nil ")
			} else {
				fmt.Fprintf(&b, "%v ", *v)
			}
		case *geo.Point:
			if v == nil {
				b.WriteString("nil ")
			} else {
				fmt.Fprintf(&b, "%v ", *v)
			}
		case []byte:
			fmt.Fprintf(&b, "%s ", v)
		case error:
			fmt.Fprintf(&b, "error %v ", v)
		default:
			fmt.Fprintf(&b, "%T%v ", x, x)
		}
	}
	return b.String()
}

func showSps(sps []geo.Spatial) string {
	var s []string
	for _, x := range sps {
		s = append(s, spKey(x))
	}
	return strings.Join(s, ";")
}

// genWorld draws arguments for every function. Polygons are simple, lines have at least two points; degenerate
// sizes appear through the small lattices. With sp the slices have that many spare elements.
func genWorld(rt *rapid.T, c *Case, sp int, watchIndex bool) *world {
	w := &world{}
	a := &w.a
	l := genLat(rt)
	l.r = pick(rt, "wrange", 3, 6, 20)
	lonlat := bl(rt, "lonlat")
	if lonlat {
		l = lat{scale: pick(rt, "llscale", 0.5, 0.0625, 1.0/1024), r: 20, ox: int64(ir(rt, -60, 60, "llx")), oy: int64(ir(rt, -40, 40, "lly"))}
	}
	srid := geo.SRID_WGS84_PSEUDO_MERCATOR
	if lonlat {
		srid = geo.SRID_WGS84_GPS
	}
	simple := func(name string) geo.Polygon {
		ps, _ := genSimple(rt, l.r)
		g := geo.Polygon{l.ring(ps)}
		if bl(rt, name+"hole") {
			h := genIP(rt, l.r, "hole")
			g = append(g, l.ring([]ip{h, {h.x + 1, h.y}, {h.x, h.y + 1}}))
		}
		return a.geom(name, sp, g).(geo.Polygon)
	}
	line := func(name string) geo.LineString {
		return a.geom(name, sp, l.line(genIPs(rt, l.r, 2, 8, name))).(geo.LineString)
	}
	poly1, poly2 := simple("polygon 1"), simple("polygon 2")
	line1, line2 := line("line 1"), line("line 2")
	if ir(rt, 0, 3, "closedline") == 0 {
		line1 = a.geom("line 1", sp, append(append(geo.LineString{}, line1...), line1[0])).(geo.LineString)
	}
	cloud := a.pts("points", sp, l.pts(genIPs(rt, l.r, 3, 12, "cloud")))
	mp := a.geom("multipoint", sp, geo.MultiPoint(l.pts(genIPs(rt, l.r, 1, 8, "mp")))).(geo.MultiPoint)
	ml := a.geom("multiline", sp, geo.MultiLineString{l.line(genIPs(rt, l.r, 2, 5, "ml1")), l.line(genIPs(rt, l.r, 2, 5, "ml2"))}).(geo.MultiLineString)
	mpoly := a.geom("multipolygon", sp, geo.MultiPolygon{poly1, poly2}).(geo.MultiPolygon)
	p, q, p3 := l.pt(genIP(rt, l.r, "p")), l.pt(genIP(rt, l.r, "q")), l.pt(genIP(rt, l.r, "p3"))
	if bl(rt, "vertex") {
		p = poly1[0][0]
	}
	free := genAnyGeom(rt)
	anyG := a.geom("geometry", sp, free)
	var wild []geo.Geometry // one of every type
	for k := 0; k < 12; k++ {
		if ir(rt, 0, 3, "gk") == 0 {
			wild = append(wild, a.geom("geometry", sp, genGeomOf(rt, k)))
		}
	}
	wild = append(wild, anyG)
	b1, b2, b3 := genBox(rt, "b1"), genBox(rt, "b2"), genBox(rt, "b3")
	pb1, pb2, pb3 := &b1, &b2, &b3
	boxes := own(a, "boxes", sp, &geo.Box{}, []*geo.Box{pb1, pb2, pb3})
	a.watch("box", func() string { return show(b1, b2, b3) })
	thr := pick(rt, "thr", 0, 0.5, 1, 3) * l.scale
	angle := uf(rt, -7, 7, "angle")
	lvl := ir(rt, 1, 3, "lvl")
	switch l.scale {
	case 0.0625:
		lvl += 3
	case 1.0 / 1024:
		lvl += 9
	}
	idx := ir(rt, 0, len(line1)-1, "split")
	c.D("srid %v poly1 %v poly2 %v line1 %v line2 %v points %v p %v q %v geometry %T%v", srid, poly1, poly2, line1, line2, cloud, p, q, anyG, anyG)

	// index
	var sps []geo.Spatial
	n := sz(rt, "nsp", 0, 3, 9, 12, 30)
	for i := 0; i < n; i++ {
		g := a.geom("indexed geometry", sp, genLatGeom2(rt, l, ir(rt, 0, 5, "gk2")))
		sps = append(sps, geo.Spatial{ID: fmt.Sprintf("s%d", ir(rt, 0, 2*n, "sid")), Properties: i, Geom: g})
	}
	objs := own(a, "index objects", sp, geo.Spatial{ID: "sentinel"}, sps)
	var gs []geo.Geometry
	for _, s := range sps {
		gs = append(gs, s.Geom)
	}
	geoms := own(a, "index geometries", sp, geo.Geometry(sentP), gs)
	tmin, tmax := 1, 3
	if bl(rt, "wide") {
		tmin, tmax = 2, 5
	}
	window := *geo.BoundingBox(geo.MultiPoint{p, q})
	win := &window
	a.watch("window", func() string { return show(window) })
	tree := geo.NewMinMaxTree(tmin, tmax, sps...)
	for i := 0; i < ir(rt, 0, 8, "treeedits"); i++ {
		if len(sps) > 0 && bl(rt, "del") {
			tree.Delete(sps[ir(rt, 0, len(sps)-1, "deli")])
		} else {
			tree.Insert(geo.Spatial{ID: fmt.Sprintf("t%d", i), Geom: genLatGeom2(rt, l, ir(rt, 0, 5, "gk3"))})
		}
	}
	k := ir(rt, 0, 6, "k")
	sid := fmt.Sprintf("s%d", ir(rt, 0, 2*n, "sid"))
	if watchIndex {
		a.watch("index", func() string { return show(tree.Size(), tree.Depth(), fmt.Sprint(tree.SearchIntersect(everything))) })
	}
	c.D("index of %d, min %d max %d, window %v, k %d", tree.Size(), tmin, tmax, window, k)

	op := func(name string, f func() string) { w.ops = append(w.ops, apiOp{name, f}) }
	each := func(name string, f func(g geo.Geometry) string, gs ...geo.Geometry) {
		op(name, func() string {
			var s []string
			for _, g := range gs {
				s = append(s, f(g))
			}
			return strings.Join(s, "|")
		})
	}
	plain := []geo.Geometry{p, mp, line1, ml, poly1, mpoly}
	each("BoundingBox", func(g geo.Geometry) string { return show(geo.BoundingBox(g)) }, plain...)
	each("GetArea", func(g geo.Geometry) string { return show(geo.GetArea(g)) }, plain...)
	each("Centroid", func(g geo.Geometry) string { return show(geo.Centroid(g)) }, p, mp, line1, poly1, poly2)
	each("Mbr", func(g geo.Geometry) string { return show(geo.Mbr(g)) }, plain...)
	each("RotateCW", func(g geo.Geometry) string { return show(geo.RotateCW(g, q, angle)) }, p, poly1)
	each("RotateCCW", func(g geo.Geometry) string { return show(geo.RotateCCW(g, q, angle)) }, p, poly2)
	each("Type", func(g geo.Geometry) string { return show(g.Type()) }, wild...)
	each("wkt.Encode", func(g geo.Geometry) string { return wkt.Encode(g) }, wild...)
	each("MarshalGeo", func(g geo.Geometry) string { return show(geojson.MarshalGeo(g)) }, wild...)
	each("NewFeature", func(g geo.Geometry) string { return show(geojson.NewFeature(g).MarshalJSON()) }, wild...)
	op("LinearCentroid", func() string { return show(geo.LinearCentroid(poly1[0])) })
	op("MultiPolyArea", func() string { return show(geo.MultiPolyArea(mpoly)) })
	op("IsCCW", func() string { return show(poly1.IsCCW(), poly2.IsCCW()) })
	op("SelfIntersect", func() string { return show(poly1.SelfIntersect(), poly2.SelfIntersect()) })
	op("Verify", func() string { return show((&poly1).Verify(), line1.Verify()) })
	op("IsPointInPolygon", func() string { return show(geo.IsPointInPolygon(p, poly1), geo.IsPointInPolygon(q, poly2)) })
	op("SegmentRelation", func() string {
		return show(geo.SegmentRelation(geo.LineSegment{Start: p, End: q}, geo.LineSegment{Start: line1[0], End: line1[1]}))
	})
	op("SegPolyRelation", func() string { return show(geo.SegPolyRelation(geo.LineSegment{Start: p, End: q}, poly1)) })
	op("LinePolyRelation", func() string { return show(geo.LinePolyRelation(line1, poly1), geo.LinePolyRelation(line2, poly2)) })
	op("LinearPolyRelation", func() string { return show(geo.LinearPolyRelation(poly1[0], poly2)) })
	op("PolyRelation", func() string { return show(geo.PolyRelation(poly1, poly2)) })
	op("LineRelation", func() string { return show(geo.LineRelation(line1, line2)) })
	op("IsPointOnLine", func() string { return show(geo.IsPointOnLine(p, line1), geo.IsPointOnSegment(p, q, line1[0])) })
	op("ConvexHull", func() string { return show(geo.ConvexHull(cloud...), geo.ConvexHull(line1...)) })
	op("DouglasPeuckerSimplify", func() string {
		return show(geo.DouglasPeuckerSimplify(line1, thr, srid), geo.DouglasPeuckerSimplify(line2, thr, srid))
	})
	op("HausdorffDistance", func() string { return show(geo.HausdorffDistance(line1, line2, srid)) })
	op("PointHitLineString", func() string { return show(geo.PointHitLineString(p, line1, srid)) })
	op("PointPolygonDistance", func() string { return show(geo.PointPolygonDistance(p, poly1, srid)) })
	op("distances", func() string {
		a, b := geo.PointToSegmentDistance(p, q, p3, srid)
		x, y, z := geo.PointToLineDistance(p, q, p3, srid)
		return show(a, b, x, y, z, geo.PointDistance(p, q, srid), geo.EuclideanDistance(p, q), p.Distance(q), geo.CoordDistance(p, q), geo.CoordGreateCircle(p, q), geo.GetAzimuth(p, q, srid))
	})
	op("angles", func() string {
		a, e1 := geo.CacAngle(p, q, p3)
		b, e2 := geo.CacQuadrantAngle(p, q)
		x, e3 := geo.CacConvex(p, q, p3)
		return show(a, e1, b, e2, x, e3)
	})
	op("conversions", func() string {
		x, y := geo.WGS84toBD09(p.X, p.Y)
		u, v := geo.BD09toWGS84(x, y)
		e, n, z, le, err := geo.FromLatLon(q.Y, q.X, false)
		s := show(x, y, u, v, e, n, z, le, err)
		if err == nil {
			s += show(geo.ToLatLon(e, n, z, le))
		}
		return s
	})
	op("Buffer", func() string { return show(p.Buffer(thr + 1)) })
	op("line reads", func() string {
		return show(line1.Length(), line1.GetPointCount(), line1.GetFirstPoint(), line1.GetEndPoint(), line1.GetPoint(idx), line1.Equal(line2), line1.Equal(line1), line1.GetPointSet())
	})
	op("ToRing", func() string { return show(line1.ToRing(), line2.ToRing(), *geo.NewRingFromLine(line1)) })
	op("SplitByIndex", func() string { a, b := line1.SplitByIndex(idx); return show(a, b) })
	op("polygon reads", func() string {
		return show(poly1.GetExteriorRing(), poly1.GetInteriorRing(), poly1.GetExteriorPoints(), poly1[0].GetPointSet(), poly1[0].ToLineString(), poly1[0].GetPointCount())
	})
	op("constructors", func() string {
		return show(*geo.NewLineString(cloud...), *geo.NewLinearRing(cloud...), *geo.NewMultiPoint(cloud...), *geo.NewPolygonFromPois(cloud...), *geo.NewPolygon(poly1...), *geo.NewMultiLineString(ml...), *geo.NewMultiPolygon(mpoly...))
	})
	op("box operations", func() string {
		s := show(b1.Intersect(pb2), b1.Contain(pb2), b1.Union(pb2), geo.BoxUnion(boxes...), b1.Size(), geo.IsPointInBox(pb1, p), geo.BoxToGeo(b1))
		return s + show(geo.NewRectBox(p, 1, 2), geo.NewBox(0, 0, 1, 2), pb2.Union(pb1))
	})
	op("WKT paths", func() string {
		return wkt.PathToWktString(cloud) + wkt.PolygonToWktString2(poly1) + wkt.PolygonToWktString(ml) + wkt.MultiPolygonToWktString(mpoly)
	})
	for _, g := range wild {
		s := wkt.Encode(g)
		op("wkt.Decode", func() string { return show(wkt.Decode(s)) })
		doc, err := geojson.MarshalGeo(g)
		if err == nil && !isMulti(g) {
			doc := own(a, "GeoJSON text", sp, byte('#'), doc)
			feat := own(a, "GeoJSON feature text", sp, byte('#'), []byte(fmt.Sprintf(`{"type":"Feature","id":7,"properties":{"a":[1,{"b":null}]},"geometry":%s}`, doc)))
			fc := own(a, "GeoJSON collection text", sp, byte('#'), []byte(fmt.Sprintf(`{"type":"FeatureCollection","features":[%s,%s]}`, feat, feat)))
			f, ferr := geojson.UnmarshalFeature(feat)
			if ferr != nil {
				rt.Fatalf("UnmarshalFeature(%s): %v", feat, ferr)
			}
			if bl(rt, "members") {
				f.BoundingBox = own(a, "bbox", sp, 4.75, genBBox(rt))
				f.CRS = genJSONMap(rt, 1)
				f.Geometry = g
			}
			a.watch("GeoJSON object", func() string {
				return show(*f.GeometryJson, f.Properties, f.ID, f.Geometry, f.BoundingBox, f.CRS)
			})
			op("UnmarshalGeo", func() string { return show(geojson.UnmarshalGeo(f.GeometryJson)) })
			op("UnmarshalFeature", func() string {
				f, err := geojson.UnmarshalFeature(feat)
				return show(*f.GeometryJson, f.Properties, f.ID, err)
			})
			op("UnmarshalFeatureCollection", func() string {
				c, err := geojson.UnmarshalFeatureCollection(fc)
				return show(len(c.Features), *c.Features[0].GeometryJson, *c.Features[1].GeometryJson, err)
			})
			op("Feature.MarshalJSON", func() string { return show(f.MarshalJSON()) })
			col := geojson.NewFeatureCollection().AddFeature(f).AddFeature(f)
			if bl(rt, "colmembers") {
				col.BoundingBox = own(a, "collection bbox", sp, 4.75, genBBox(rt))
				col.CRS = genJSONMap(rt, 1)
			}
			a.watch("GeoJSON collection", func() string {
				return show(len(col.Features), col.Features[0] == f, col.Features[1] == f, col.BoundingBox, col.CRS)
			})
			op("FeatureCollection.MarshalJSON", func() string { return show(col.MarshalJSON()) })
			op("property reads", func() string {
				x, e := f.PropertyInt("a")
				y, e2 := f.PropertyString("zz")
				return show(x, e, y, e2, f.PropertyMustBool("a", true), f.PropertyMustFloat64("zz", 2), f.PropertyMustInt("zz"), f.PropertyMustString("a", "d"))
			})
		}
	}
	// index building and querying
	op("NewTree", func() string { return treeText(geo.NewTree(objs...)) })
	op("NewTreeWith", func() string { return treeText(geo.NewTreeWith(objs...)) })
	op("NewMinMaxTree", func() string { return treeText(geo.NewMinMaxTree(tmin, tmax, objs...)) })
	op("NewRandomIDTree", func() string { return show(geo.NewRandomIDTree(geoms...).Size()) })
	op("Upsert and Delete", func() string {
		t := geo.NewMinMaxTree(tmin, tmax)
		t.UpsertBySpatialID(objs...)
		for _, o := range objs {
			t.Insert(o)
		}
		s := treeText(t)
		for _, o := range objs {
			s += show(t.Delete(o))
		}
		return s + treeText(t)
	})
	op("SearchIntersect", func() string { return showSps(tree.SearchIntersect(win)) })
	op("SearchIntersectWithCond", func() string {
		return showSps(tree.SearchIntersectWithCond(win, func(o ...geo.Spatial) bool { return len(o) == 1 && len(o[0].ID)%2 == 0 }))
	})
	op("SearchBySpatialID", func() string {
		if tree.Size() == 0 {
			return ""
		}
		return showSps(tree.SearchBySpatialID(sid))
	})
	op("NearestNeighbors", func() string { return showSps(tree.NearestNeighbors(k, p)) })
	op("GetAllBoundingBoxes", func() string {
		s := show(tree.Size(), tree.Depth())
		for _, b := range tree.GetAllBoundingBoxes() {
			s += show(b)
		}
		return s
	})
	if lonlat {
		op("S2RegionCoverer", func() string {
			ids := geo.S2RegionCoverer(poly1, lvl, srid)
			sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
			return show(ids)
		})
		op("S2", func() string {
			id := geo.S2GetCellID(p, lvl, srid)
			return show(id, geo.S2GetCenter(id, srid), geo.S2GetBoundary(id, srid), geo.S2GetAllNeighbors(id, srid))
		})
		op("geohash", func() string {
			h := geo.GeohashEncode(p, uint(lvl), srid)
			return show(h, geo.GeohashGetCenter(h, srid), geo.GeohashGetBoundary(h, srid), geo.GeohashGetAllNeighbors(h, srid))
		})
	}
	w.more(rt, c, sp, l, srid)
	return w
}

// more adds calls whose arguments lie outside the frame of the others: long lines, many parts and holes, the whole
// globe, every cell size, many neighbours, bounding boxes of all types.
func (w *world) more(rt *rapid.T, c *Case, sp int, l lat, srid geo.SRID) {
	a := &w.a
	op := func(name string, f func() string) { w.ops = append(w.ops, apiOp{name, f}) }
	far := l
	far.r = pick(rt, "frange", 6, 30, 100)
	long := func(name string) geo.LineString {
		return a.geom(name, sp, far.line(genIPs(rt, far.r, 2, sz(rt, name+"n", 8, 30, 80), name))).(geo.LineString)
	}
	long1, long2 := long("long line 1"), long("long line 2")
	cloud := a.pts("many points", sp, far.pts(genIPs(rt, far.r, pick(rt, "manyn", 3, 20, 60), 90, "many")))
	big := func(name string) geo.Polygon {
		ps, _ := genSimple(rt, far.r)
		g := geo.Polygon{far.ring(ps)}
		for i := ir(rt, 0, 3, name+"holes"); i > 0; i-- {
			h := genIP(rt, far.r, "hole")
			g = append(g, far.ring([]ip{h, {h.x + 1, h.y}, {h.x, h.y + 1}}))
		}
		return a.geom(name, sp, g).(geo.Polygon)
	}
	var polys []geo.Polygon
	for i := ir(rt, 1, 5, "npolys"); i > 0; i-- {
		polys = append(polys, big("part"))
	}
	mpoly := geo.MultiPolygon(own(a, "parts", sp, geo.Polygon{{sentP}}, polys))
	oddRing := far.ring(genIPs(rt, pick(rt, "orange", 1, 3, far.r), 1, 8, "odd"))
	if bl(rt, "cutodd") {
		oddRing = oddRing[:ir(rt, 1, len(oddRing), "oddn")]
	}
	odd := a.geom("odd polygon", sp, geo.Polygon{oddRing}).(geo.Polygon)
	var all []geo.Geometry
	for k := 0; k < 12; k++ {
		g := genGeomOf(rt, k)
		if k != 0 && k != 6 && bl(rt, "built") { // of several parts
			n := 0
			p3 := func() geo.PointZ { n++; return geo.PointZ{X: float64(n % 7), Y: float64(n), Z: float64(n % 3)} }
			p2 := func() geo.Point { q := p3(); return geo.Point{X: q.X, Y: q.Y} }
			g = buildGeom(k, p2, p3, ir(rt, 2, 8, "points"), ir(rt, 1, 6, "parts"))
		}
		all = append(all, a.geom("geometry", sp, g))
	}
	p, q := far.pt(genIP(rt, far.r, "fp")), far.pt(genIP(rt, far.r, "fq"))
	thr := pick(rt, "fthr", 0.5, 2, 8) * l.scale
	lon, lat, lon2, lat2 := uf(rt, -180, 180, "lon"), uf(rt, -80, 84, "lat"), uf(rt, -180, 180, "lon2"), uf(rt, -89, 89, "lat2")
	if bl(rt, "china") {
		lon, lat = uf(rt, 73, 135, "clon"), uf(rt, 4, 54, "clat")
	}
	g1, g2 := geo.Point{X: lon, Y: lat}, geo.Point{X: lon2, Y: lat2}
	lvl, prec := ir(rt, 1, 30, "flvl"), uint(ir(rt, 1, 12, "fprec"))
	z1, z2 := geo.PointZ{X: lon, Y: lat, Z: lon2}, geo.PointZ{X: lon, Y: lat, Z: pick(rt, "z", lon2, 0, -4)}
	idx := ir(rt, 0, len(long1)-1, "fidx")
	var sps []geo.Spatial
	for i := range cloud {
		sps = append(sps, geo.Spatial{ID: fmt.Sprint("c", i%50), Properties: i, Geom: cloud[i]})
	}
	tree := geo.NewMinMaxTree(pick(rt, "fmin", 1, 2, 4), 8, sps...)
	k := sz(rt, "fk", 1, 10, 40, 90)
	c.D("long %v %v many %v parts %v odd %v p %v q %v threshold %v globe %v %v", long1, long2, cloud, mpoly, odd, p, q, thr, g1, g2)

	for _, g := range all {
		g := g
		op(fmt.Sprintf("BoundingBox of %T", g), func() string { return show(geo.BoundingBox(g)) })
		op(fmt.Sprintf("texts of %T", g), func() string { return wkt.Encode(g) + show(geojson.MarshalGeo(g)) })
		s := wkt.Encode(g)
		op(fmt.Sprintf("wkt.Decode of %T", g), func() string { return show(wkt.Decode(s)) })
	}
	op("long lines", func() string {
		a, b := long1.SplitByIndex(idx)
		h, at, d := geo.PointHitLineString(p, long1, srid)
		return show(h, at, d, geo.HausdorffDistance(long1, long2, srid), geo.LineRelation(long1, long2), geo.IsPointOnLine(p, long1),
			long1.Length(), long1.Equal(long2), long1.ToRing(), a, b, geo.Centroid(long1), geo.LinePolyRelation(long1, mpoly[0]))
	})
	op("simplified long lines", func() string {
		return show(geo.DouglasPeuckerSimplify(long1, thr, srid), geo.DouglasPeuckerSimplify(long2, thr, srid))
	})
	op("many points", func() string {
		return show(geo.ConvexHull(cloud...), geo.Mbr(geo.MultiPoint(cloud)), geo.Centroid(geo.MultiPoint(cloud)), geo.BoundingBox(geo.MultiPoint(cloud)))
	})
	op("many parts", func() string {
		return show(geo.MultiPolyArea(mpoly), geo.GetArea(mpoly), geo.Mbr(mpoly), geo.BoundingBox(mpoly), wkt.Encode(mpoly))
	})
	op("polygons with holes", func() string {
		s := ""
		for _, g := range mpoly {
			s += show(geo.IsPointInPolygon(p, g), geo.IsPointInPolygon(q, g), geo.GetArea(g), geo.Centroid(g), g.IsCCW(), g.SelfIntersect(), geo.PolyRelation(g, mpoly[0]), geo.PointPolygonDistance(q, g, srid))
		}
		return s
	})
	op("Verify of any polygon", func() string { return show((&odd).Verify()) })
	op("SelfIntersect of any polygon", func() string { return show(odd.SelfIntersect()) })
	op("on the globe", func() string {
		return show(geo.CoordDistance(g1, g2), geo.CoordGreateCircle(g1, g2), geo.GetAzimuth(g1, g2, geo.SRID_WGS84_GPS), geo.PointDistance(g1, g2, geo.SRID_WGS84_GPS),
			geo.Mbr(geo.LineString{g1, g2}), g1.Distance(g2))
	})
	op("angles on the globe", func() string {
		a, e1 := geo.CacAngle(g1, g2, p)
		b, e2 := geo.CacQuadrantAngle(g1, g2)
		x, e3 := geo.CacConvex(g1, g2, p)
		u, v := geo.DestinationPoint(lat, lon, 1e5*thr, lon2)
		return show(a, e1, b, e2, x, e3, u, v)
	})
	op("frames on the globe", func() string {
		x, y := geo.WGS84toBD09(lon, lat)
		u, v := geo.BD09toWGS84(lon, lat)
		s := show(x, y, u, v)
		for _, nb := range []bool{false, true} {
			e, n, z, le, err := geo.FromLatLon(lat, lon, nb)
			s += show(e, n, z, le, err)
			if err == nil {
				s += show(geo.ToLatLon(e, n, z, le)) + show(geo.ToLatLon(e, n, z, "", lat >= 0))
			}
		}
		return s
	})
	op("cells on the globe", func() string {
		id := geo.S2GetCellID(g1, lvl, geo.SRID_WGS84_GPS)
		h := geo.GeohashEncode(g1, prec, geo.SRID_WGS84_GPS)
		return show(id, geo.S2GetCenter(id, geo.SRID_WGS84_GPS), geo.S2GetBoundary(id, geo.SRID_WGS84_GPS), geo.S2GetAllNeighbors(id, geo.SRID_WGS84_GPS),
			h, geo.GeohashGetCenter(h, geo.SRID_WGS84_GPS), geo.GeohashGetBoundary(h, geo.SRID_WGS84_GPS), geo.GeohashGetAllNeighbors(h, geo.SRID_WGS84_GPS))
	})
	op("vectors", func() string {
		v, w := geo.ConvertPointToVector(p, q), geo.ConvertSegToVector(geo.LineSegment{Start: q, End: g1})
		return show(v.Add(*w), v.Sub(*w), v.Dot(*w), v.Cross(*w), v.Length(), w.LengthSq(), geo.Add(*v, *w), *v.Clone(), v.Equal(*w), z1.Equal(z2), geo.EuclideanDisZ(z1, z2))
	})
	op("features without a geometry", func() string {
		return show((&geojson.Feature{}).MarshalJSON()) + show(geojson.NewFeatureCollection().MarshalJSON())
	})
	op("features of one's own", func() string {
		s := ""
		for _, g := range all {
			f := geojson.NewFeature(g)
			f.SetProperty("a", 1)
			f.SetBoundingBox()
			s += show(f.BoundingBox, f.PropertyMustInt("a", 2, 3), f.PropertyMustInt("b", 2, 3))
			f.Geometry = nil
			f.SetBoundingBox()
			s += show(f.BoundingBox)
		}
		return s
	})
	op("many neighbours", func() string { return showSps(tree.NearestNeighbors(k, q)) })
	op("windows", func() string {
		b := geo.BoundingBox(geo.LineString{p, q})
		return showSps(tree.SearchIntersect(b)) + showSps(tree.SearchIntersect(&geo.Box{MinX: p.X, MinY: p.Y, MaxX: p.X, MaxY: p.Y})) + showSps(tree.SearchBySpatialID("c7"))
	})
}

var everything = &geo.Box{MinX: -1e300, MinY: -1e300, MaxX: 1e300, MaxY: 1e300}

func treeText(t *geo.Rtree) string {
	return show(t.Size(), t.Depth()) + showSps(sortedSps(t))
}

func sortedSps(t *geo.Rtree) []geo.Spatial {
	sps := t.SearchIntersect(everything)
	keys := map[string]geo.Spatial{}
	var ks []string
	for i, s := range sps {
		k := fmt.Sprint(spKey(s), i)
		keys[k] = s
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for i, k := range ks {
		sps[i] = keys[k]
	}
	return sps
}
