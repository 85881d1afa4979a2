package harness

import (
	"reflect"
	"testing"

	geo "github.com/hzw456/go-geo"
	"pgregory.net/rapid"
)

// ---- C32 purity ----

func TestC32_API(t *testing.T) {
	run(t, 120, "arguments for the whole public API (simple polygons with holes, lines, clouds, all twelve geometry types, boxes, an index with a history), slices with 0 to 5 spare elements holding sentinels; every call made twice in a drawn order; non-trivial: spare capacity present", func(rt *rapid.T, c *Case) {
		sp := pick(rt, "spare", 0, 1, 2, 5)
		w := genWorld(rt, c, sp, true)
		c.NT(sp > 0)
		order := rapid.Permutation(w.ops).Draw(rt, "order")
		first := make([]string, len(order))
		for pass := 0; pass < 2; pass++ {
			for i, op := range order {
				var res string
				if msg := noPanic(func() { res = op.f() }); msg != "" {
					res = msg
					c.L("%s panics", op.name)
				}
				if s := w.a.changed(); s != "" {
					rt.Fatalf("%s modified its arguments: %s", op.name, s)
				}
				if pass == 0 {
					first[i] = res
				} else if res != first[i] {
					rt.Fatalf("%s called again gives another result:\n%s\nfirst:\n%s", op.name, res, first[i])
				}
			}
		}
	})
}

// Large inputs reach other paths (sorting algorithms switch on length, slices regrow).
func TestC32_Large(t *testing.T) {
	run(t, 60, "lines, clouds and rings of 12 to 120 points, index objects by the dozen, with spare capacity; every case", func(rt *rapid.T, c *Case) {
		a := &arena{}
		l := genLat(rt)
		l.r = pick(rt, "wrange", 8, 40, 300)
		ps := l.pts(genIPs(rt, l.r, 12, 120, "pts"))
		sp := pick(rt, "spare", 0, 1, 7)
		cloud := a.pts("points", sp, ps)
		line := geo.LineString(a.pts("line", sp, ps))
		mp := geo.MultiPoint(a.pts("multipoint", sp, ps))
		x, _ := genSimple(rt, l.r)
		poly := a.geom("polygon", sp, l.poly(x)).(geo.Polygon)
		var sps []geo.Spatial
		for i, p := range ps {
			sps = append(sps, geo.Spatial{ID: string(rune('a' + i%26)), Properties: i, Geom: p})
		}
		objs := own(a, "index objects", sp, geo.Spatial{ID: "sentinel"}, sps)
		c.D("points %v", ps)
		c.NT(true)
		thr := pick(rt, "thr", 0, 0.5, 2, 10) * l.scale
		m := sz(rt, "max", 4, 9, 50)
		for pass := 0; pass < 2; pass++ {
			for _, op := range []apiOp{
				{"ConvexHull", func() string { return show(geo.ConvexHull(cloud...)) }},
				{"Mbr", func() string { return show(geo.Mbr(mp), geo.Mbr(line)) }},
				{"DouglasPeuckerSimplify", func() string { return show(geo.DouglasPeuckerSimplify(line, thr, 0)) }},
				{"HausdorffDistance", func() string { return show(geo.HausdorffDistance(line, line[:len(line)/2], 0)) }},
				{"LinePolyRelation", func() string { return show(geo.LinePolyRelation(line, poly)) }},
				{"ToRing", func() string { return show(line.ToRing()) }},
				{"Centroid", func() string { return show(geo.Centroid(mp), geo.Centroid(line)) }},
				{"SplitByIndex", func() string { u, v := line.SplitByIndex(len(line) / 2); return show(u, v) }},
				{"NewTree", func() string { return treeText(geo.NewTree(objs...)) }},
				{"NewMinMaxTree", func() string { return treeText(geo.NewMinMaxTree(2, m, objs...)) }},
				{"Upsert", func() string { t := geo.NewTree(objs...); t.UpsertBySpatialID(objs...); return treeText(t) }},
			} {
				op.f()
				if s := a.changed(); s != "" {
					rt.Fatalf("%s modified its arguments: %s", op.name, s)
				}
			}
		}
	})
}

// Constructors copy; the geometry and the slice it was made from live apart.
func TestC32_Constructors(t *testing.T) {
	run(t, 1500, "2 to 9 points (2-D and Z, open or closed) with spare capacity; constructor result and source edited in turn; non-trivial: spare capacity present", func(rt *rapid.T, c *Case) {
		sp := pick(rt, "spare", 0, 1, 3)
		l := genLat(rt)
		ps := l.pts(genIPs(rt, l.r, 2, 9, "pts"))
		if bl(rt, "closed") {
			ps = append(ps, ps[0])
		}
		var zs []geo.PointZ
		for i, p := range ps {
			z := float64(i)
			if i == len(ps)-1 && bl(rt, "zclosed") {
				z = 0
			}
			zs = append(zs, geo.PointZ{X: p.X, Y: p.Y, Z: z})
		}
		c.D("%v %v spare %d", ps, zs, sp)
		c.NT(sp > 0)
		a := &arena{}
		p2 := a.pts("points", sp, ps)
		p3 := own(a, "points", sp, sentZ, zs)
		line, ring, mp, poly := geo.NewLineString(p2...), geo.NewLinearRing(p2...), geo.NewMultiPoint(p2...), geo.NewPolygonFromPois(p2...)
		linez, ringz, mpz, polyz := geo.NewLineStringZ(p3...), geo.NewLinearRingZ(p3...), geo.NewMultiPointZ(p3...), geo.NewPolygonZFromPois(p3...)
		views := func() [][]geo.Point { return [][]geo.Point{*line, *ring, *mp, (*poly)[0]} }
		viewsz := func() [][]geo.PointZ { return [][]geo.PointZ{*linez, *ringz, *mpz, (*polyz)[0]} }
		snap := show(*line, *ring, *mp, *poly, *linez, *ringz, *mpz, *polyz)
		if bl(rt, "editsource") {
			for i := range p2 {
				p2[i].X = 1e50
				p3[i].Z = 1e50
			}
			if s := show(*line, *ring, *mp, *poly, *linez, *ringz, *mpz, *polyz); s != snap {
				rt.Fatalf("editing the points given to a constructor changes the geometry: %s, was %s", s, snap)
			}
			return
		}
		// edit the geometries
		for i, v := range views() {
			v[0].X, v[len(v)-1].Y = 1e51, 1e52
			_ = append(v, geo.Point{X: 1e53})
			if s := a.changed(); s != "" {
				rt.Fatalf("editing constructed geometry %d: %s", i, s)
			}
		}
		for i, v := range viewsz() {
			v[0].X, v[len(v)-1].Z = 1e51, 1e52
			_ = append(v, geo.PointZ{X: 1e53})
			if s := a.changed(); s != "" {
				rt.Fatalf("editing constructed Z geometry %d: %s", i, s)
			}
		}
		line.Append(geo.Point{X: 1e54})
		line.InsertPoint(0, geo.Point{X: 1e55})
		linez.Append(geo.PointZ{X: 1e54})
		mp.Append(geo.Point{X: 1e54})
		mpz.Append(geo.PointZ{X: 1e54})
		if s := a.changed(); s != "" {
			rt.Fatalf("editing a constructed geometry: %s", s)
		}
	})
}

// editLine applies one drawn edit.
func editLine(rt *rapid.T, l *geo.LineString, far geo.Point) {
	switch ir(rt, 0, 4, "edit") {
	case 0:
		l.Append(far)
	case 1:
		l.SetPoint(pick(rt, "setpos", 0, len(*l)-1, len(*l)), far)
	case 2:
		l.InsertPoint(pick(rt, "inspos", 0, len(*l)-1, len(*l)), far)
	case 3:
		if len(*l) > 1 {
			l.DelPoint(pick(rt, "delpos", 0, len(*l)-1))
		}
	case 4:
		l.Reverse()
	}
}

func TestC32_Split(t *testing.T) {
	run(t, 1500, "lines of 2 to 9 points with spare capacity, every split position, 1 to 6 edits of one half; every case is non-trivial", func(rt *rapid.T, c *Case) {
		a := &arena{}
		l := genLat(rt)
		ps := l.pts(genIPs(rt, l.r, 2, 9, "pts"))
		line := geo.LineString(a.pts("line", pick(rt, "spare", 0, 1, 4), ps))
		i := ir(rt, 0, len(ps)-1, "index")
		c.D("%v at %d", ps, i)
		c.NT(true)
		u, v := line.SplitByIndex(i)
		if !reflect.DeepEqual([]geo.Point(u), ps[:i+1]) || !reflect.DeepEqual([]geo.Point(v), ps[i:]) {
			rt.Fatalf("halves %v %v", u, v)
		}
		edit, keep, want := &u, &v, ps[i:]
		if bl(rt, "second") {
			edit, keep, want = &v, &u, ps[:i+1]
		}
		for n := ir(rt, 1, 6, "edits"); n > 0; n-- {
			editLine(rt, edit, geo.Point{X: 1e60, Y: float64(n)})
			if !reflect.DeepEqual([]geo.Point(*keep), want) {
				rt.Fatalf("editing one half changes the other: %v, was %v", *keep, want)
			}
		}
	})
}

// Operations on boxes never change their operands, and results are fresh.
func TestC32_Boxes(t *testing.T) {
	run(t, 2500, "1 to 5 boxes, nested, touching, degenerate and disjoint; the result of each operation edited afterwards; non-trivial: at least two boxes", func(rt *rapid.T, c *Case) {
		n := ir(rt, 1, 5, "n")
		var bs []*geo.Box
		for i := 0; i < n; i++ {
			b := genBox(rt, "b")
			bs = append(bs, &b)
		}
		a := &arena{}
		a.watch("boxes", func() string {
			var xs []any
			for _, b := range bs {
				xs = append(xs, *b)
			}
			return show(xs...)
		})
		list := own(a, "list of boxes", 2, (*geo.Box)(nil), bs)
		c.D("%s", show(*bs[0]))
		c.NT(n > 1)
		b, o := list[0], list[n-1]
		u := b.Union(o)
		v := geo.BoxUnion(list...)
		b.Intersect(o)
		b.Contain(o)
		b.Size()
		geo.BoxToGeo(*b)
		geo.IsPointInBox(b, geo.Point{X: o.MinX, Y: o.MaxY})
		if s := a.changed(); s != "" {
			rt.Fatalf("a box operation modified its operands: %s", s)
		}
		for _, r := range []*geo.Box{u, v} {
			r.MinX, r.MaxY = -1e70, 1e70
		}
		if s := a.changed(); s != "" && n > 1 {
			rt.Fatalf("a union is not a box of its own: %s", s)
		}
	})
}
