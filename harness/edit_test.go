package harness

import (
	"fmt"
	"reflect"
	"testing"

	geo "github.com/hzw456/go-geo"
	"pgregory.net/rapid"
)

// ---- C33 editing ----

// track is one line with the plain sequence it has to equal.
type track struct {
	line  *geo.LineString
	model []geo.Point
}

func (tr *track) check(rt *rapid.T, what string) {
	l, m := *tr.line, tr.model
	if len(l) != len(m) || l.GetPointCount() != len(m) {
		rt.Fatalf("%s: line %v has %d points, want %v", what, l, l.GetPointCount(), m)
	}
	for i := range m {
		if l[i] != m[i] {
			rt.Fatalf("%s: line %v, want %v", what, l, m)
		}
		if p := l.GetPoint(i); p == nil || *p != m[i] {
			rt.Fatalf("%s: GetPoint(%d) = %v, want %v", what, i, show(p), m[i])
		}
	}
	for _, i := range []int{len(m), len(m) + 1, len(m) + 7} {
		if l.GetPoint(i) != nil {
			rt.Fatalf("%s: GetPoint(%d) of %d points is not nil", what, i, len(m))
		}
	}
	if got := l.GetPointSet(); len(got) != len(m) || len(m) > 0 && !reflect.DeepEqual(got, m) {
		rt.Fatalf("%s: GetPointSet %v, want %v", what, got, m)
	}
	f, e := l.GetFirstPoint(), l.GetEndPoint()
	if len(m) >= 2 {
		if f == nil || e == nil || *f != m[0] || *e != m[len(m)-1] {
			rt.Fatalf("%s: first %v last %v of %v", what, show(f), show(e), m)
		}
	}
	if (l.Verify() == nil) != (len(m) >= 2) {
		rt.Fatalf("%s: Verify of %d points: %v", what, len(m), l.Verify())
	}
}

func genEditPt(rt *rapid.T) geo.Point {
	if bl(rt, "small") {
		return geo.Point{X: float64(ir(rt, -2, 2, "sx")), Y: float64(ir(rt, -2, 2, "sy"))}
	}
	return genPt(rt, "p")
}

func TestC33_LineHistory(t *testing.T) {
	run(t, 500, "1 to 4 lines (built by the constructor, by hand with spare capacity, or empty) under 1 to 40 edits: append, set, insert, delete at every position up to beyond the end, reverse, split into two tracked lines, copy by constructor; non-trivial: at least 10 edits", func(rt *rapid.T, c *Case) {
		var ts []*track
		for n := ir(rt, 1, 2, "lines"); n > 0; n-- {
			ps := mirrored(rt, sliceB(rt, "pts", 0, 6, 250, genEditPt))
			var l *geo.LineString
			switch ir(rt, 0, 2, "ctor") {
			case 0:
				l = geo.NewLineString(ps...)
			case 1:
				x := append(make(geo.LineString, 0, len(ps)+ir(rt, 0, 4, "spare")), ps...)
				l = &x
			default:
				l = &geo.LineString{}
				ps = nil
			}
			ts = append(ts, &track{l, append([]geo.Point(nil), ps...)})
		}
		c.D("lines of %d", len(ts[0].model))
		n := ir(rt, 1, 40, "nedits")
		for ; n > 0; n-- {
			tr := ts[ir(rt, 0, len(ts)-1, "which")]
			k := len(tr.model)
			what := ""
			pos := func() int {
				switch ir(rt, 0, 5, "posk") {
				case 0:
					return k
				case 1:
					return k + ir(rt, 1, 3, "beyond")
				case 2:
					return max(0, k-1)
				case 3:
					return 0
				}
				return ir(rt, 0, max(0, k-1), "pos")
			}
			p := genEditPt(rt)
			switch ir(rt, 0, 8, "op") {
			case 0, 1:
				what = fmt.Sprintf("Append(%v)", p)
				if err := tr.line.Append(p); err != nil {
					rt.Fatalf("%s: %v", what, err)
				}
				tr.model = append(tr.model, p)
			case 2:
				i := pos()
				what = fmt.Sprintf("SetPoint(%d, %v) of %d", i, p, k)
				err := tr.line.SetPoint(i, p)
				if (err == nil) != (i <= k) {
					rt.Fatalf("%s: error %v", what, err)
				}
				if i < k {
					tr.model[i] = p
				} else if i == k {
					tr.model = append(tr.model, p)
				}
			case 3, 4:
				i := pos()
				what = fmt.Sprintf("InsertPoint(%d, %v) of %d", i, p, k)
				err := tr.line.InsertPoint(i, p)
				if (err == nil) != (i <= k) {
					rt.Fatalf("%s: error %v", what, err)
				}
				if i <= k {
					m := append([]geo.Point(nil), tr.model[:i]...)
					m = append(m, p)
					tr.model = append(m, tr.model[i:]...)
				}
			case 5:
				i := pos()
				what = fmt.Sprintf("DelPoint(%d) of %d", i, k)
				err := tr.line.DelPoint(i)
				if (err == nil) != (i < k) {
					rt.Fatalf("%s: error %v", what, err)
				}
				if i < k {
					m := append([]geo.Point(nil), tr.model[:i]...)
					tr.model = append(m, tr.model[i+1:]...)
				}
			case 6:
				what = "Reverse()"
				tr.line.Reverse()
				tr.model = reversed(tr.model)
			case 7:
				if k == 0 || len(ts) > 6 {
					continue
				}
				i := ir(rt, 0, k-1, "split")
				what = fmt.Sprintf("SplitByIndex(%d) of %d", i, k)
				a, b := tr.line.SplitByIndex(i)
				u := &track{&a, append([]geo.Point(nil), tr.model[:i+1]...)}
				v := &track{&b, append([]geo.Point(nil), tr.model[i:]...)}
				u.check(rt, what+" first half")
				v.check(rt, what+" second half")
				// the halves go on, the split line rests
				tr.check(rt, what)
				tr.line, tr.model = u.line, u.model
				ts = append(ts, v)
			case 8:
				if len(ts) > 6 {
					continue
				}
				what = "NewLineString(points...)"
				ts = append(ts, &track{geo.NewLineString(*tr.line...), append([]geo.Point(nil), tr.model...)})
			}
			c.D("%s", what)
			for _, o := range ts {
				o.check(rt, what)
			}
			if len(tr.model) >= 2 { // closing
				r := tr.line.ToRing()
				checkRing(rt, "ToRing", r, tr.model)
				tr.check(rt, "ToRing")
			}
		}
		c.NT(c.desc.Len() > 150)
	})
}

// sometimes ends the way it began, read backwards
func mirrored[T any](rt *rapid.T, ps []T) []T {
	if len(ps) < 2 || ir(rt, 0, 3, "mirror") > 0 {
		return ps
	}
	for i := ir(rt, 1, len(ps)/2, "mirrored"); i > 0; i-- {
		ps[len(ps)-i] = ps[i-1]
	}
	return ps
}

func absd(a, b float64) float64 {
	if a > b {
		return a - b
	}
	return b - a
}

const prec = 0.000001

// closeness: -1 same point, 1 different, 0 too near the tolerance to say
func samePt(a, b []float64) int {
	worst := -1
	for i := range a {
		switch d := absd(a[i], b[i]); {
		case d > prec*1.001:
			return 1
		case d > prec*0.999:
			worst = 0
		}
	}
	return worst
}
func c2(p geo.Point) []float64  { return []float64{p.X, p.Y} }
func c3(p geo.PointZ) []float64 { return []float64{p.X, p.Y, p.Z} }

func checkRing(rt *rapid.T, what string, r geo.LinearRing, m []geo.Point) {
	switch samePt(c2(m[0]), c2(m[len(m)-1])) {
	case 1:
		m = append(append([]geo.Point(nil), m...), m[0])
	case 0:
		return
	}
	if !reflect.DeepEqual([]geo.Point(r), m) {
		rt.Fatalf("%s: ring %v, want %v", what, r, m)
	}
	if r.GetPointCount() != len(m) || !reflect.DeepEqual(r.GetPointSet(), m) || !reflect.DeepEqual(r.ToLineString(), geo.LineString(m)) {
		rt.Fatalf("%s: ring accessors disagree with %v", what, m)
	}
}

func checkRingZ(rt *rapid.T, what string, r geo.LinearRingZ, m []geo.PointZ) {
	switch samePt(c3(m[0]), c3(m[len(m)-1])) {
	case 1:
		m = append(append([]geo.PointZ(nil), m...), m[0])
	case 0:
		return
	}
	if !reflect.DeepEqual([]geo.PointZ(r), m) {
		rt.Fatalf("%s: ring %v, want %v", what, r, m)
	}
	if r.GetPointCount() != len(m) || !reflect.DeepEqual(r.GetPointSet(), m) || !reflect.DeepEqual(r.ToLineString(), geo.LineStringZ(m)) {
		rt.Fatalf("%s: ring accessors disagree with %v", what, m)
	}
}

func genEditPtZ(rt *rapid.T) geo.PointZ {
	p := genEditPt(rt)
	return geo.PointZ{X: p.X, Y: p.Y, Z: float64(ir(rt, -2, 2, "z"))}
}

func TestC33_LineZHistory(t *testing.T) {
	run(t, 400, "1 to 2 Z lines (constructor, by hand with spare capacity, empty) under 1 to 25 edits: append, reverse, copy by constructor, closing; non-trivial: at least 8 edits", func(rt *rapid.T, c *Case) {
		ps := mirrored(rt, sliceB(rt, "pts", 0, 7, 250, genEditPtZ))
		type trackz struct {
			line  *geo.LineStringZ
			model []geo.PointZ
		}
		x := append(make(geo.LineStringZ, 0, len(ps)+ir(rt, 0, 4, "spare")), ps...)
		ts := []*trackz{{geo.NewLineStringZ(ps...), append([]geo.PointZ(nil), ps...)}, {&x, append([]geo.PointZ(nil), ps...)}}
		c.D("%v", ps)
		n := ir(rt, 1, 25, "n")
		c.NT(n >= 8)
		for ; n > 0; n-- {
			tr := ts[ir(rt, 0, len(ts)-1, "which")]
			p := genEditPtZ(rt)
			switch ir(rt, 0, 3, "op") {
			case 0, 1:
				c.D("append %v", p)
				if err := tr.line.Append(p); err != nil {
					rt.Fatalf("Append: %v", err)
				}
				tr.model = append(tr.model, p)
			case 2:
				c.D("reverse")
				tr.line.Reverse()
				tr.model = reversed(tr.model)
			case 3:
				if len(ts) < 5 {
					ts = append(ts, &trackz{geo.NewLineStringZ(*tr.line...), append([]geo.PointZ(nil), tr.model...)})
				}
			}
			for _, o := range ts {
				l, m := *o.line, o.model
				if l.GetPointCount() != len(m) || len(m) > 0 && !reflect.DeepEqual(l.GetPointSet(), m) {
					rt.Fatalf("line %v, want %v", l, m)
				}
				if len(m) >= 2 {
					if l.GetFirstPoint() != m[0] || l.GetEndPoint() != m[len(m)-1] {
						rt.Fatalf("first %v last %v of %v", l.GetFirstPoint(), l.GetEndPoint(), m)
					}
					checkRingZ(rt, "ToRing", l.ToRing(), m)
				}
			}
		}
	})
}

// nudge moves one coordinate of one point by less than, or clearly more than, the tolerance.
func TestC33_Equality(t *testing.T) {
	run(t, 2000, "pairs of 2-D and Z lines: equal, a prefix of one another, one ordinate moved by less or more than the tolerance, unrelated; non-trivial: at least two points", func(rt *rapid.T, c *Case) {
		zs := sliceB(rt, "pts", 0, 8, 90, func(rt *rapid.T) geo.PointZ {
			return geo.PointZ{X: float64(ir(rt, -200, 200, "x")) / 4, Y: float64(ir(rt, -200, 200, "y")) / 4, Z: float64(ir(rt, -9, 9, "z"))}
		})
		if len(zs) > 0 {
			zs = again(rt, zs)
		}
		other := append([]geo.PointZ(nil), zs...)
		want2, want3 := true, true
		kind := ir(rt, 0, 5, "kind")
		switch {
		case kind == 0:
		case kind == 1: // longer or shorter
			if len(zs) > 0 && bl(rt, "shorter") {
				other = other[:ir(rt, 0, len(zs)-1, "len")]
			} else if len(zs) > 0 && bl(rt, "last again") {
				other = append(other, other[len(other)-1])
			} else {
				other = append(other, geo.PointZ{})
			}
			want2, want3 = false, false
		case len(zs) > 0:
			i := ir(rt, 0, len(zs)-1, "i")
			if kind == 4 {
				i = len(zs) - 1
			}
			if kind == 5 {
				i = 0
			}
			d := pick(rt, "delta", 0.4e-6, -0.4e-6, 1.5e-6, -1.5e-6, 1e-3, -1e-3, 1, -1, 50, sc(rt, "far", 1.5e-6, 1e3), -sc(rt, "far", 1.5e-6, 1e3))
			k := ir(rt, 0, 2, "ord")
			switch k {
			case 0:
				other[i].X += d
			case 1:
				other[i].Y += d
			default:
				other[i].Z += d
			}
			if d > 1e-6 || d < -1e-6 {
				want3 = false
				want2 = k == 2
			}
		}
		flat := func(zs []geo.PointZ) geo.LineString {
			l := geo.LineString{}
			for _, z := range zs {
				l = append(l, geo.Point{X: z.X, Y: z.Y})
			}
			return l
		}
		a, b := geo.LineStringZ(zs), geo.LineStringZ(other)
		a2, b2 := flat(zs), flat(other)
		c.D("%v %v", a, b)
		c.NT(len(zs) > 1)
		if a.Equal(b) != want3 || b.Equal(a) != want3 {
			rt.Fatalf("Z lines %v %v: Equal %v and %v, want %v", a, b, a.Equal(b), b.Equal(a), want3)
		}
		if a2.Equal(b2) != want2 || b2.Equal(a2) != want2 {
			rt.Fatalf("lines %v %v: Equal %v and %v, want %v", a2, b2, a2.Equal(b2), b2.Equal(a2), want2)
		}
		if !a.Equal(a) || !b2.Equal(b2) || !a2.Equal(*geo.NewLineString(a2...)) || !a.Equal(*geo.NewLineStringZ(a...)) {
			rt.Fatalf("a line does not equal itself or its copy")
		}
		for i := range zs {
			if i >= len(other) {
				break
			}
			w3, w2 := samePt(c3(zs[i]), c3(other[i])), samePt(c2(a2[i]), c2(b2[i]))
			if w3 != 0 && (zs[i].Equal(other[i]) != (w3 < 0) || other[i].Equal(zs[i]) != (w3 < 0)) {
				rt.Fatalf("%v Equal %v: %v", zs[i], other[i], zs[i].Equal(other[i]))
			}
			if w2 != 0 && (a2[i].Equal(b2[i]) != (w2 < 0) || b2[i].Equal(a2[i]) != (w2 < 0)) {
				rt.Fatalf("%v Equal %v: %v", a2[i], b2[i], a2[i].Equal(b2[i]))
			}
		}
	})
}

func TestC33_Closing(t *testing.T) {
	run(t, 2000, "lines of 2 to 9 points, 2-D and Z, whose last point is the first, the first moved in one ordinate by less or more than the tolerance, or unrelated; by every ring constructor; non-trivial: an open line", func(rt *rapid.T, c *Case) {
		zs := again(rt, sliceB(rt, "pts", 1, 8, 90, genEditPtZ))
		if bl(rt, "tail") {
			e := zs[0]
			d := pick(rt, "d", 0, 0, 0.4e-6, 1.5e-6, 1e-4, 1)
			switch ir(rt, 0, 2, "ord") {
			case 0:
				e.X += d
			case 1:
				e.Y -= d
			default:
				e.Z += d
			}
			zs = append(zs, e)
		} else {
			zs = append(zs, genEditPtZ(rt))
		}
		var ps []geo.Point
		for _, z := range zs {
			ps = append(ps, geo.Point{X: z.X, Y: z.Y})
		}
		c.D("%v", zs)
		open := samePt(c2(ps[0]), c2(ps[len(ps)-1])) == 1
		c.NT(open)
		cp := func() []geo.Point { return append([]geo.Point(nil), ps...) }
		cz := func() []geo.PointZ { return append([]geo.PointZ(nil), zs...) }
		checkRing(rt, "NewLinearRing", *geo.NewLinearRing(cp()...), ps)
		checkRing(rt, "NewRingFromLine", *geo.NewRingFromLine(cp()), ps)
		checkRing(rt, "ToRing", geo.LineString(cp()).ToRing(), ps)
		checkRing(rt, "NewPolygonFromPois", geo.NewPolygonFromPois(cp()...).GetExteriorRing(), ps)
		checkRingZ(rt, "NewLinearRingZ", *geo.NewLinearRingZ(cz()...), zs)
		checkRingZ(rt, "NewRingFromLineZ", *geo.NewRingFromLineZ(cz()), zs)
		checkRingZ(rt, "ToRingZ", geo.LineStringZ(cz()).ToRing(), zs)
		checkRingZ(rt, "NewPolygonZFromPois", geo.NewPolygonZFromPois(cz()...).GetExteriorRing(), zs)
		// closing again changes nothing
		r := geo.NewLinearRing(cp()...)
		again := r.ToLineString().ToRing()
		if !reflect.DeepEqual(again, *r) {
			rt.Fatalf("closing a closed ring: %v, was %v", again, *r)
		}
	})
}

// genEditRing draws the positions of a ring, often closed, as the constructors take them.
func genEditRing[T any](rt *rapid.T, f func(rt *rapid.T) T) []T {
	r := again(rt, sliceB(rt, "r", 1, 5, 40, f))
	if bl(rt, "closed") {
		r = append(r, r[0])
	}
	return r
}

func TestC33_Collections(t *testing.T) {
	run(t, 500, "lists of 0 to 5 rings, lines, points or polygons, 2-D and Z, given to the constructors and appended by the editors in 0 to 6 further steps; non-trivial: at least two parts", func(rt *rapid.T, c *Case) {
		rings := func(name string) []geo.LinearRing {
			return sliceB(rt, name, 0, 4, 30, func(rt *rapid.T) geo.LinearRing { return genEditRing(rt, genEditPt) })
		}
		ringzs := func(name string) []geo.LinearRingZ {
			return sliceB(rt, name, 0, 4, 30, func(rt *rapid.T) geo.LinearRingZ { return genEditRing(rt, genEditPtZ) })
		}
		eq := func(what string, got, want any) {
			a, b := fmt.Sprint(got), fmt.Sprint(want)
			if a != b {
				rt.Fatalf("%s: %s, want %s", what, a, b)
			}
		}
		// polygons
		m := rings("rings")
		c.D("%v", m)
		c.NT(len(m) > 1)
		poly := geo.NewPolygon(append([]geo.LinearRing(nil), m...)...)
		mz := ringzs("ringzs")
		polyz := geo.NewPolygonZ(append([]geo.LinearRingZ(nil), mz...)...)
		checkP := func(what string) {
			eq(what, []geo.LinearRing(*poly), m)
			eq(what+" Z", []geo.LinearRingZ(*polyz), mz)
			if len(m) > 0 {
				eq(what+" exterior", poly.GetExteriorRing(), m[0])
				eq(what+" exterior points", poly.GetExteriorPoints(), m[0])
				eq(what+" interior", poly.GetInteriorRing(), m[1:])
			} else if poly.GetExteriorRing() != nil || len(poly.GetInteriorRing()) != 0 || len(poly.GetExteriorPoints()) != 0 {
				rt.Fatalf("%s: an empty polygon has a ring", what)
			}
			if len(mz) > 0 {
				eq(what+" exterior Z", polyz.GetExteriorRing(), mz[0])
				eq(what+" exterior points Z", polyz.GetExteriorPoints(), mz[0])
				eq(what+" interior Z", polyz.GetInteriorRing(), mz[1:])
			} else if polyz.GetExteriorRing() != nil || len(polyz.GetInteriorRing()) != 0 || len(polyz.GetExteriorPoints()) != 0 {
				rt.Fatalf("%s: an empty Z polygon has a ring", what)
			}
		}
		checkP("NewPolygon")
		for n := irb(rt, 0, 6, 60, "edits"); n > 0; n-- {
			r := geo.LinearRing(genEditRing(rt, genEditPt))
			z := geo.LinearRingZ(genEditRing(rt, genEditPtZ))
			if bl(rt, "ext") {
				poly.SetExteriorRing(r)
				polyz.SetExteriorRing(z)
				if len(m) == 0 {
					m = append(m, r)
				} else {
					m = append([]geo.LinearRing{r}, m[1:]...)
				}
				if len(mz) == 0 {
					mz = append(mz, z)
				} else {
					mz = append([]geo.LinearRingZ{z}, mz[1:]...)
				}
				checkP("SetExteriorRing")
			} else {
				poly.AddInteriorRing(r)
				polyz.AddInteriorRing(z)
				m = append(m[:len(m):len(m)], r)
				mz = append(mz[:len(mz):len(mz)], z)
				checkP("AddInteriorRing")
			}
		}
		// multi-geometries
		ps := sliceB(rt, "points", 0, 6, 60, genEditPt)
		zs := sliceB(rt, "pointzs", 0, 6, 60, genEditPtZ)
		mp, mpz := geo.NewMultiPoint(ps...), geo.NewMultiPointZ(zs...)
		ps, zs = append([]geo.Point(nil), ps...), append([]geo.PointZ(nil), zs...)
		for n := ir(rt, 0, 3, "more"); n > 0; n-- {
			p, z := genEditPt(rt), genEditPtZ(rt)
			mp.Append(p)
			mpz.Append(z)
			ps, zs = append(ps, p), append(zs, z)
		}
		eq("MultiPoint", mp.GetPointSet(), ps)
		eq("MultiPointZ", mpz.GetPointSet(), zs)
		eq("MultiPoint parts", []geo.Point(*mp), ps)
		lines := sliceB(rt, "lines", 0, 5, 40, func(rt *rapid.T) geo.LineString { return sliceOf(rt, "l", 0, 4, genEditPt) })
		linezs := sliceB(rt, "linezs", 0, 5, 40, func(rt *rapid.T) geo.LineStringZ { return sliceOf(rt, "l", 0, 4, genEditPtZ) })
		eq("NewMultiLineString", []geo.LineString(*geo.NewMultiLineString(lines...)), lines)
		eq("NewMultiLineStringZ", []geo.LineStringZ(*geo.NewMultiLineStringZ(linezs...)), linezs)
		polys := sliceB(rt, "polys", 0, 4, 30, func(rt *rapid.T) geo.Polygon { return rings("pr") })
		polyzs := sliceB(rt, "polyzs", 0, 4, 30, func(rt *rapid.T) geo.PolygonZ { return ringzs("pr") })
		mpo, mpoz := geo.NewMultiPolygon(polys...), geo.NewMultiPolygonZ(polyzs...)
		for n := ir(rt, 0, 3, "morepolys"); n > 0; n-- {
			p, z := geo.Polygon(rings("np")), geo.PolygonZ(ringzs("npz"))
			mpo.AddPolygon(p)
			mpoz.AddPolygonZ(z)
			polys, polyzs = append(polys, p), append(polyzs, z)
		}
		eq("MultiPolygon", []geo.Polygon(*mpo), polys)
		eq("MultiPolygonZ", []geo.PolygonZ(*mpoz), polyzs)
		// points and types
		q, qz := geo.NewPoint(1, 2), geo.NewPointZ(1, 2, 3)
		w := genEditPtZ(rt)
		q.SetX(w.X)
		qz.SetX(w.X)
		eq("SetX", []any{*q, *qz}, []any{geo.Point{X: w.X, Y: 2}, geo.PointZ{X: w.X, Y: 2, Z: 3}})
		q.SetY(w.Y)
		qz.SetY(w.Y)
		eq("SetY", []any{*q, *qz}, []any{geo.Point{X: w.X, Y: w.Y}, geo.PointZ{X: w.X, Y: w.Y, Z: 3}})
		qz.SetZ(w.Z)
		eq("SetZ", *qz, w)
		for g, want := range map[geo.GeometryType]geo.Geometry{
			"Point": *q, "PointZ": *qz, "MultiPoint": *mp, "MultiPointZ": *mpz, "LineString": geo.LineString(ps), "LineStringZ": geo.LineStringZ(zs),
			"MultiLineString": geo.MultiLineString(lines), "MultiLineStringZ": geo.MultiLineStringZ(linezs),
			"Polygon": *poly, "PolygonZ": *polyz, "MultiPolygon": *mpo, "MultiPolygonZ": *mpoz} {
			if want.Type() != g {
				rt.Fatalf("%T reports type %q", want, want.Type())
			}
		}
	})
}
